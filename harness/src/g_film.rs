use crate::sx::*;
use crate::kit::*;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::vector::*;
use pt::verif::filter::Filter;

/// A filter with symbolic radius and an arbitrary weight.
struct F { r: f32 }
impl Filter for F {
    fn radius(&self) -> f32 { self.r }
    fn evaluate(&self, _p: Point2f) -> f32 { 1. }
}

/// a filter whose weight is a linear function of the offset, so that the weight tells the offset
struct Lin { r: f32, a: f32, b: f32, c: f32 }
impl Filter for Lin {
    fn radius(&self) -> f32 { self.r }
    fn evaluate(&self, p: Point2f) -> f32 { self.a * p.x.abs() + self.b * p.y.abs() + self.c }
}

harnesses! {
    fn tiles() {
        // param 0: maximal number of tiles per axis
        let m = param(0) as i32;
        let rx = u32_in(0, 1, (16 * m) as u32);
        let ry = u32_in(1, 1, (16 * m) as u32);
        let r = f32_in(2, 0.5, 4.);
        let film = Film::new(Point2u { x: 1, y: 1 }, F { r });
        let mut film = film;
        film.resolution = Point2i { x: rx as i32, y: ry as i32 };
        let sb = film.sample_bbox();
        let px = i32_in(3, -8, 16 * m + 8);
        let py = i32_in(4, -8, 16 * m + 8);
        let inside = sb.min.x <= px && px < sb.max.x && sb.min.y <= py && py < sb.max.y;
        let mut n = 0;
        for t in film.iter() {
            if t.min.x <= px && px < t.max.x && t.min.y <= py && py < t.max.y { n += 1; }
            check(t.max.x - t.min.x >= 1 && t.max.x - t.min.x <= 16 && t.max.y - t.min.y >= 1 && t.max.y - t.min.y <= 16, 2);
        }
        reach(0);
        check(n == if inside { 1 } else { 0 }, 1);
    }

    fn gauss() {
        let r = f32_in(0, 0.0625, 8.);
        let a = f32_in(1, 0., 4.);
        let f = pt::verif::filter::GaussianFilter::new(r, a);
        let x = f32_in(2, -10., 10.);
        let y = f32_in(3, -10., 10.);
        check(f.radius() == r, 1);
        let v = f.evaluate(Point2f { x, y });
        reach(0);
        match param(0) {
            0 => check(v >= 0., 2),
            1 => { close(f.evaluate(Point2f { x: -x, y }), v, 1e-5, 3); close(f.evaluate(Point2f { x, y: -y }), v, 1e-5, 4); close(f.evaluate(Point2f { x: y, y: x }), v, 1e-5, 5) }
            2 => { if x.abs() >= r || y.abs() >= r { check(v <= 1e-6, 6) } }
            3 => { check(f.evaluate(Point2f { x: r, y }) <= 1e-6, 7); check(f.evaluate(Point2f { x, y: -r }) <= 1e-6, 8) }
            // falls with the distance, never above the centre
            4 => { let z = f32_in(4, -10., 10.); if z.abs() >= x.abs() { check(f.evaluate(Point2f { x: z, y }) <= v + 1e-5, 9) } }
            _ => check(v <= 1., 10),
        }
    }

    fn add() {
        // params: 0, 1: resolution; 2: twice the filter radius; 3: weighting of the filter (0 = x slope, 1 = y slope)
        let (w, h) = (param(0) as u32, param(1) as u32);
        let r = param(2) as f32 * 0.5;
        let (a, b, c) = match param(3) { 0 => (0.125, 0., 0.5), 1 => (0., 0.0625, 0.25), _ => (0.03125, 0.0625, 0.125) };
        let film = Film::new(Point2u { x: w, y: h }, Lin { r, a, b, c });
        let sb = film.sample_bbox();
        let mut t = film.get_film_tile(sb);
        let p = Point2f { x: f32_in(0, sb.min.x as f32, sb.max.x as f32), y: f32_in(1, sb.min.y as f32, sb.max.y as f32) };
        let s = spec(2, 0., 4.);
        t.add_sample(p, s);
        film.merge_film_tile(t);
        let px = film.verif_pixels();
        reach(0);
        for y in 0..h { for x in 0..w {
            let (col, wt) = px[(y * w + x) as usize];
            let dx = (x as f32 + 0.5 - p.x).abs();
            let dy = (y as f32 + 0.5 - p.y).abs();
            if dx <= r && dy <= r {
                let e = a * dx + b * dy + c;
                check((wt - e).abs() <= (a + b) * r / 32. + 1e-5, 1);
                close3(sa(col), [s.r * wt, s.g * wt, s.b * wt], 1e-5, 2);
            } else if dx > r + 1e-5 || dy > r + 1e-5 {
                check(wt == 0. && col.r == 0. && col.g == 0. && col.b == 0., 5);
            }
        } }
    }

    fn add_tile() {
        // one sample near the border of a tile of a larger film changes exactly the pixels in its reach
        // params: 0, 1: resolution; 2: four times the filter radius; 3: weighting of the filter; 4: number of the tile; 5, 6: offset of the pixel from the corner of the tile
        // (negative: from the far corner); 7: quarter of the pixel in each direction
        let (w, h) = (param(0) as u32, param(1) as u32);
        let r = param(2) as f32 * 0.25;
        let (a, b, c) = match param(3) { 0 => (0.125, 0., 0.5), 1 => (0., 0.0625, 0.25), _ => (0.03125, 0.0625, 0.125) };
        let film = Film::new(Point2u { x: w, y: h }, Lin { r, a, b, c });
        let tb = film.iter().nth(param(4) as usize).unwrap();
        let mut t = film.get_film_tile(tb);
        let (x0, y0) = (if param(5) < 0 { tb.max.x as i64 + param(5) } else { tb.min.x as i64 + param(5) }, if param(6) < 0 { tb.max.y as i64 + param(6) } else { tb.min.y as i64 + param(6) });
        let (x0, y0) = (x0 as f32 + (param(7) % 4) as f32 * 0.25, y0 as f32 + (param(7) / 4) as f32 * 0.25);
        let p = Point2f { x: f32_in(0, x0, x0 + 0.25), y: f32_in(1, y0, y0 + 0.25) };
        let s = spec(2, 0., 4.);
        t.add_sample(p, s);
        film.merge_film_tile(t);
        let px = film.verif_pixels();
        reach(0);
        let mut rest = true;
        for y in 0..h { for x in 0..w {
            let (col, wt) = px[(y * w + x) as usize];
            // pixels out of reach of every sample
            let (fx, fy) = (x as f32 + 0.5 - x0, y as f32 + 0.5 - y0);
            if fx < -r - 0.01 || fx > r + 0.26 || fy < -r - 0.01 || fy > r + 0.26 { rest &= wt == 0. && col.r == 0. && col.g == 0. && col.b == 0.; continue }
            let dx = (x as f32 + 0.5 - p.x).abs();
            let dy = (y as f32 + 0.5 - p.y).abs();
            if dx <= r && dy <= r {
                let e = a * dx + b * dy + c;
                check((wt - e).abs() <= (a + b) * r / 32. + 1e-5, 1);
                close3(sa(col), [s.r * wt, s.g * wt, s.b * wt], 1e-5, 2);
            } else if dx > r + 1e-5 || dy > r + 1e-5 {
                check(wt == 0. && col.r == 0. && col.g == 0. && col.b == 0., 5);
            }
        } }
        check(rest, 6);
    }

    fn tiles_merge() {
        // two samples near a tile border; one tile for each of them against one tile for both
        // params: 0 twice the radius, 1 order of merging, 2: 1 = along y, 3: both samples in the same tile, merged separately
        let r = param(0) as f32 * 0.5;
        let up = param(2) == 1;
        let (w, h) = if up { (1, 20) } else { (20, 1) };
        let mk = || Film::new(Point2u { x: w, y: h }, Lin { r, a: 0.125, b: 0.125, c: 0.5 });
        let (f, g) = (mk(), mk());
        let sb = f.sample_bbox();
        let cut = if up { sb.min.y + 16 } else { sb.min.x + 16 };
        let at = |u: f32| if up { Point2f { x: 0.5, y: u } } else { Point2f { x: u, y: 0.5 } };
        let (b1, b2) = if up { (BBox2i::new(sb.min, Point2i { x: sb.max.x, y: cut }), BBox2i::new(Point2i { x: sb.min.x, y: cut }, sb.max)) }
            else { (BBox2i::new(sb.min, Point2i { x: cut, y: sb.max.y }), BBox2i::new(Point2i { x: cut, y: sb.min.y }, sb.max)) };
        let b2 = if param(3) == 1 { b1 } else { b2 };
        let c = cut as f32;
        let p1 = at(f32_in(0, c - 1., c - 0.0625));
        let p2 = at(if param(3) == 1 { c - 0.5 } else { f32_in(1, c, c + 0.5) });
        let (s1, s2) = (spec(2, 0., 4.), spec(5, 0., 4.));
        let mut t1 = f.get_film_tile(b1);
        let mut t2 = f.get_film_tile(b2);
        t1.add_sample(p1, s1);
        t2.add_sample(p2, s2);
        if param(1) == 1 { f.merge_film_tile(t2); f.merge_film_tile(t1) } else { f.merge_film_tile(t1); f.merge_film_tile(t2) }
        let mut t = g.get_film_tile(sb);
        t.add_sample(p1, s1);
        t.add_sample(p2, s2);
        g.merge_film_tile(t);
        reach(0);
        let (a, b) = (f.verif_pixels(), g.verif_pixels());
        for k in 0..20 {
            close(a[k].1, b[k].1, 1e-5, 1);
            close3(sa(a[k].0), sa(b[k].0), 1e-5, 2);
        }
    }
}
