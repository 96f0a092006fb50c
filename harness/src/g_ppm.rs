use crate::sx::*;
use crate::kit::*;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::vector::*;
use pt::verif::filter::Filter;

/// a filter with the same weight everywhere
struct F { r: f32, w: f32 }
impl Filter for F {
    fn radius(&self) -> f32 { self.r }
    fn evaluate(&self, _p: Point2f) -> f32 { self.w }
}

fn film(w: u32, h: u32, weight: f32) -> Film { Film::new(Point2u { x: w, y: h }, F { r: 0.5, w: weight }) }

fn put(f: &Film, x: i32, y: i32, s: Spectrum) {
    let mut t = f.get_film_tile(BBox2i::new(Point2i { x, y }, Point2i { x: x + 1, y: y + 1 }));
    t.add_sample(Point2f { x: x as f32 + 0.5, y: y as f32 + 0.5 }, s);
    f.merge_film_tile(t);
}

/// reads one decimal number, and the separator behind it
fn num(b: &[u8], i: &mut usize, sep: u8, id: u32) -> u32 {
    let mut v = 0;
    let mut n = 0;
    while *i < b.len() && b[*i] >= b'0' && b[*i] <= b'9' {
        v = v * 10 + (b[*i] - b'0') as u32;
        *i += 1;
        n += 1;
    }
    check(n >= 1 && n <= 5, id);
    check(*i < b.len() && b[*i] == sep, id);
    *i += 1;
    v
}

fn head(b: &[u8], w: u32, h: u32) -> usize {
    check(b.len() > 3 && b[0] == b'P' && b[1] == b'3' && b[2] == b'\n', 1);
    let mut i = 3;
    check(num(b, &mut i, b' ', 2) == w, 2);
    check(num(b, &mut i, b'\n', 3) == h, 3);
    check(num(b, &mut i, b'\n', 4) == 255, 4);
    i
}

fn gamma(v: f32) -> f32 { if v <= 0.0031308 { 12.92 * v } else { 1.055 * v.powf(1. / 2.4) - 0.055 } }

/// a file that takes at most so many bytes at a time, and is interrupted now and then
struct Slow { got: Vec<u8>, calls: u32, most: usize, stop: u32 }
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls == self.stop { return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)) }
        let n = b.len().min(self.most);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

harnesses! {
    fn ppm_slow() {
        // the file takes a few bytes per call and may be interrupted once: nothing is lost or repeated
        let f = film(2, 1, 1.);
        put(&f, 0, 0, Spectrum { r: 1., g: 0.5, b: 0. });
        put(&f, 1, 0, Spectrum { r: 0.25, g: 2., b: 0.001 });
        let mut want: Vec<u8> = Vec::new();
        f.write_image_ppm(&mut want);
        let mut s = Slow { got: Vec::new(), calls: 0, most: 1 + pick(0, 16) as usize, stop: u32_in(1, 0, 40) };
        f.write_image_ppm(&mut s);
        reach(0);
        check(s.got.len() == want.len(), 1);
        for k in 0..want.len() { check(s.got[k] == want[k], 2); }
    }
    fn ppm_value() {
        // param 0: channel with the symbolic value, 1: its range (0 dark, 1 middle, 2 bright, 3 above one), 2: filter weight symbolic
        let w = if param(2) == 1 { f32_in(1, 0.0625, 4.) } else { 1. };
        let v = match param(1) { 0 => f32_in(0, 0., 0.0031308), 1 => f32_in(0, 0.0031309, 0.25), 2 => f32_in(0, 0.25, 1.), _ => f32_in(0, 1., 1000.) };
        let f = film(1, 1, w);
        let c = param(0) as usize;
        let mut s = Spectrum { r: 0., g: 0., b: 1. };
        s[c] = v;
        put(&f, 0, 0, s);
        let mut out: Vec<u8> = Vec::new();
        f.write_image_ppm(&mut out);
        let mut i = head(&out, 1, 1);
        let px = [num(&out, &mut i, b' ', 5), num(&out, &mut i, b' ', 6), num(&out, &mut i, b'\n', 7)];
        check(i == out.len(), 8);
        reach(0);
        for k in 0..3 {
            if k == c {
                let g = gamma(v) * 255.;
                check(px[k] <= 255, 9);
                if g >= 255. { check(px[k] == 255, 10) }
                else { check((px[k] as f32 - g).abs() <= 0.501, 11); }
                if v == 0. { check(px[k] == 0, 12) }
            } else { check(px[k] == if k == 2 { 255 } else { 0 }, 13); }
        }
    }

    fn ppm_order() {
        // params 0, 1: width and height; the white pixel is anywhere
        let (w, h) = (param(0) as u32, param(1) as u32);
        let f = film(w, h, 1.);
        let (x, y) = (pick(0, w), pick(1, h));
        for v in 0..h { for u in 0..w { put(&f, u as i32, v as i32, if u == x && v == y { Spectrum { r: 1., g: 1., b: 1. } } else { Spectrum { r: 0., g: 0., b: 0. } }) } }
        let mut out: Vec<u8> = Vec::new();
        f.write_image_ppm(&mut out);
        let mut i = head(&out, w, h);
        reach(0);
        for v in 0..h { for u in 0..w {
            let e = if u == x && v == y { 255 } else { 0 };
            check(num(&out, &mut i, b' ', 5) == e, 6);
            check(num(&out, &mut i, b' ', 5) == e, 7);
            check(num(&out, &mut i, b'\n', 5) == e, 8);
        } }
        check(i == out.len(), 9);
    }

    fn ppm_file() {
        // param 0: 1 = the file is new (empty)
        let n = if param(0) == 1 { 0 } else { u32_in(0, 1, 100000) };
        let f = film(2, 1, 1.);
        put(&f, 1, 0, Spectrum { r: 1., g: 0.5, b: 0.25 });
        let mut want: Vec<u8> = Vec::new();
        f.write_image_ppm(&mut want);
        file_old(n);
        let s = pt::verif::scene::Builder::new().construct(|_| Void);
        let g = Integrator::new(s, Smp { n: 1, i: 0, next: 0, per: 0 }, Cam, f);
        g.render(0);
        reach(0);
        check(file_len() == want.len() as u32, 1);
        for k in 0..want.len() { check(file_byte(k as u32) == want[k], 2); }
    }
}
