use crate::sx::*;
use crate::kit::*;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::vector::*;
use pt::verif::sampler::Sampler;

fn area(id: u32) -> (BBox2i, u32, u32) {
    // params 10, 11: extent of the sampled area (concrete: it selects the scales of the sequence)
    let (w, h) = (param(10) as i32, param(11) as i32);
    let (x, y) = (i32_in(id, -8, 8), i32_in(id + 1, -8, 8));
    let s = |n: i32, b: u32| { let mut s = 1u32; while s < n.min(128) as u32 { s *= b } s };
    (BBox2i::new(Point2i { x, y }, Point2i { x: x + w, y: y + h }), s(w, 2), s(h, 3))
}

fn pixel(id: u32, m: i32) -> Point2i { Point2i { x: i32_in(id, -m, m), y: i32_in(id + 1, -m, m) } }

/// base-b digits of a, reversed, n of them
fn rev(mut a: u32, b: u32, mut scale: u32) -> u32 {
    let mut r = 0;
    while scale > 1 { r = r * b + a % b; a /= b; scale /= b; }
    r
}

fn pmod(a: i32) -> u32 { (((a % 128) + 128) % 128) as u32 }

harnesses! {
    fn radical() {
        // params 0, 1: dimensions; any 32 bit index
        let a = u32_in(0, 0, u32::MAX);
        for d in param(0)..param(1) {
            let v = HaltonSampler::verif_radical_inverse(d as u32, a);
            check(v >= 0. && v < 1., 1);
        }
        reach(0);
    }

    fn radical_small() {
        // the value itself: two or three digits, dimension param 0 with base param 1
        let b = param(1) as u32;
        let (d0, d1, d2) = (u32_in(0, 0, b - 1), u32_in(1, 0, b - 1), u32_in(2, 0, b - 1));
        let a = d0 + d1 * b + d2 * b * b;
        let v = HaltonSampler::verif_radical_inverse(param(0) as u32, a);
        reach(0);
        let bf = b as f32;
        close(v, d0 as f32 / bf + d1 as f32 / (bf * bf) + d2 as f32 / (bf * bf * bf), 1e-4, 1);
    }

    fn radical_base() {
        // dimension d uses the d-th prime as its base: params 0, 1 dimensions
        let mut b = 1u32;
        let mut d = -1i64;
        while d + 1 < param(1) {
            loop { b += 1; let mut k = 2; while k * k <= b && b % k != 0 { k += 1 } if k * k > b { break } }
            d += 1;
            if d < param(0) { continue }
            let (d0, d1) = (u32_in(2 * d as u32, 0, b - 1), u32_in(2 * d as u32 + 1, 0, b - 1));
            let v = HaltonSampler::verif_radical_inverse(d as u32, d0 + d1 * b);
            let bf = b as f32;
            close(v, d0 as f32 / bf + d1 as f32 / (bf * bf), 5e-5, 1);
        }
        reach(0);
    }

    fn halton_count() {
        // any pixel, param 0: samples per pixel at most
        let (bb, _, _) = area(0);
        let n = u32_in(2, 1, param(0) as u32);
        let mut s = HaltonSampler::new(n, bb);
        let p = pixel(3, 400);
        s.start_pixel(p);
        let mut k = 0;
        loop {
            let c = s.get_camera_sample(p).p_film;
            check(p.x as f32 <= c.x && c.x <= p.x as f32 + 1. && p.y as f32 <= c.y && c.y <= p.y as f32 + 1., 1);
            k += 1;
            if !s.start_next_sample() { break }
        }
        reach(0);
        check(k == n, 2);
    }

    fn random_count() {
        let n = u32_in(2, 1, param(0) as u32);
        let mut s = RandomSampler::new(n);
        let p = pixel(3, 400);
        for _ in 0..param(1) {
            s.start_pixel(p);
            let mut k = 0;
            loop {
                let c = s.get_camera_sample(p).p_film;
                check(p.x as f32 <= c.x && c.x <= p.x as f32 + 1. && p.y as f32 <= c.y && c.y <= p.y as f32 + 1., 1);
                let u = s.get_1d();
                check(u >= 0. && u < 1., 3);
                k += 1;
                if !s.start_next_sample() { break }
            }
            reach(0);
            check(k == n, 2);
        }
    }

    fn halton_index() {
        // the sample lies in its pixel: the leading digits of the element are the pixel's coordinates (param 0: axis)
        let (bb, sx, sy) = area(0);
        let mut s = HaltonSampler::new(16, bb);
        let p = pixel(3, 256);
        s.start_pixel(p);
        for _ in 0..param(1) { s.start_next_sample(); }
        let i = s.verif_index();
        reach(0);
        if param(0) == 0 { check(rev(i, 2, sx) == pmod(p.x) % sx, 1) }
        else { check(rev(i, 3, sy) == pmod(p.y) % sy, 2) }
    }

    fn halton_share() {
        // two pixels of one period never share an element
        let (bb, _, _) = area(0);
        let mut s = HaltonSampler::new(16, bb);
        let (cx, cy) = (i32_in(3, -2, 2), i32_in(4, -2, 2));
        let w = |n: i64| n.min(128) as i32 - 1;
        let p = Point2i { x: cx * 128 + i32_in(5, 0, w(param(10))), y: cy * 128 + i32_in(6, 0, w(param(11))) };
        let q = Point2i { x: cx * 128 + i32_in(7, 0, w(param(10))), y: cy * 128 + i32_in(8, 0, w(param(11))) };
        assume(p.x != q.x || p.y != q.y);
        s.start_pixel(p);
        for _ in 0..param(0) { s.start_next_sample(); }
        let a = s.verif_index();
        s.start_pixel(q);
        for _ in 0..param(1) { s.start_next_sample(); }
        let b = s.verif_index();
        reach(0);
        check(a != b, 1);
    }

    fn halton_history() {
        // a sampler that visited another pixel (and was cloned) against a fresh one
        let (bb, _, _) = area(0);
        let mut a = HaltonSampler::new(16, bb);
        let mut b = HaltonSampler::new(16, bb);
        let p = if param(4) == 1 { Point2i { x: 0, y: 0 } } else { let p = pixel(3, 300); assume(p.x != 0 || p.y != 0); p };
        let q = if param(4) == 2 { p } else { let q = pixel(5, 300); assume(p.x != q.x || p.y != q.y); q };
        b.start_pixel(q);
        for _ in 0..param(0) { if param(3) == 1 { b.get_2d(); } b.start_next_sample(); }
        if param(2) == 1 { b = b.clone(); }
        a.start_pixel(p);
        b.start_pixel(p);
        // the values of one sample do not depend on how many the samples before it drew
        for _ in 0..param(1) {
            if param(5) & 1 != 0 { b.get_1d(); }
            if param(5) & 2 != 0 { b.get_2d(); }
            a.start_next_sample();
            b.start_next_sample();
        }
        reach(0);
        check(a.verif_index() == b.verif_index(), 1);
        if param(3) == 0 { return }
        let (u, v) = (a.get_2d(), b.get_2d());
        check(u.x == v.x && u.y == v.y, 2);
        check(a.get_1d() == b.get_1d(), 3);
    }

    fn halton_dims() {
        // one value after the other: the dimension advances by one per value
        let (bb, _, _) = area(0);
        let mut a = HaltonSampler::new(16, bb);
        let mut b = HaltonSampler::new(16, bb);
        let p = pixel(3, 300);
        a.start_pixel(p);
        b.start_pixel(p);
        let (u, v) = (a.get_2d(), a.get_2d());
        let w = [b.get_1d(), b.get_1d(), b.get_1d(), b.get_1d()];
        reach(0);
        check(u.x == w[0] && u.y == w[1] && v.x == w[2] && v.y == w[3], 1);
        let i = a.verif_index();
        check(v.x == HaltonSampler::verif_radical_inverse(2, i), 2);
        check(v.y == HaltonSampler::verif_radical_inverse(3, i), 3);
    }
}
