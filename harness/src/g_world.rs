//! Whole scenes made of the real parts only: builder, kd-tree, shapes, materials, lights, camera, path integrator.
use crate::sx::*;
use crate::kit::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::camera::{Camera, CameraSample};
use pt::verif::ray::Ray;
use pt::verif::sampler::Sampler;
use pt::verif::vector::*;

fn matte(k: Spectrum) -> Arc<dyn Material> { Arc::new(LambertianReflectionMaterial::new(Arc::new(ConstantTexture::new(k)))) }
fn black() -> Arc<dyn Material> { matte(Spectrum::from(0.)) }
fn mirror(k: Spectrum) -> Arc<dyn Material> { Arc::new(MirrorMaterial::new(Arc::new(ConstantTexture::new(k)))) }

const EYE: [f32; 3] = [6., 0., 8.];
const HALF: f32 = 8.;
/// 90 degrees wide, 4x4 pixels, from EYE to the origin
fn camera() -> PerspectiveCamera {
    PerspectiveCamera::new(
        Transform::look_at(pt3(EYE[0], EYE[1], EYE[2]), pt3(0., 0., 0.), vec3(0., 1., 0.)),
        Transform::perspective(90., 0.01, 1000.),
        BBox2f::new(Point2f { x: -1., y: -1. }, Point2f { x: 1., y: 1. }),
        Point2u { x: 4, y: 4 })
}
/// the direction seen at a film position (not normalized)
fn seen(fx: f32, fy: f32) -> [f32; 3] {
    let (sx, sy) = (fx / 2. - 1., 1. - fy / 2.);
    // right = up x forward = (-0.8, 0, 0.6)
    [-0.6 - 0.8 * sx, sy, -0.8 + 0.6 * sx]
}
/// where o + t d (t > 0) first meets the sphere: Some(t), or none; the cases closer than a margin to the outline are left out
fn meets(o: [f32; 3], d: [f32; 3], c: [f32; 3], r: f32) -> bool {
    let v = sub3(c, o);
    let x = cross3(v, d);
    let gap = dot3(x, x) - r * r * dot3(d, d);
    assume(gap > 0.01 * dot3(d, d) || gap < -0.01 * dot3(d, d));
    gap < 0. && dot3(v, d) > 0.
}
fn in_square(x: f32, y: f32, h: f32) -> bool {
    let e = h - x.abs().max(y.abs());
    assume(e > 0.01 || e < -0.01);
    // the diagonal is the seam of the two triangles
    e > 0.
}
fn floor(b: &mut Builder, m: Arc<dyn Material>) {
    let (a, c) = (HALF, -HALF);
    b.add_shape(Triangle::new([pt3(c, c, 0.), pt3(a, c, 0.), pt3(a, a, 0.)], None, false, m.clone()));
    b.add_shape(Triangle::new([pt3(a, a, 0.), pt3(c, a, 0.), pt3(c, c, 0.)], None, false, m));
}
fn view() -> ([f32; 3], Ray) {
    // param 6: the scan line in eighths of a pixel, 0 = all
    let fy = if param(6) == 0 { f32_in(1, 0., 4.) } else { param(6) as f32 / 8. };
    // params 7, 8: the range of columns in eighths of a pixel, 0 0 = all
    let fx = if param(8) == 0 { f32_in(0, 0., 4.) } else { f32_in(0, param(7) as f32 / 8., param(8) as f32 / 8.) };
    let ray = camera().generate_ray(&CameraSample { p_film: Point2f { x: fx, y: fy } });
    (seen(fx, fy), ray)
}
/// the random numbers of the path: any (param 5 = 0) or one of a few sequences
#[derive(Clone)]
struct Dice { k: usize }
impl Sampler for Dice {
    fn start_pixel(&mut self, _p: Point2i) { self.k = 0 }
    fn start_next_sample(&mut self) -> bool { false }
    fn get_1d(&mut self) -> f32 {
        self.k += 1;
        let t = [0.25f32, 0.75, 0.5, 0.125, 0.875, 0.375, 0.0625];
        match param(5) { 0 => f32_in(99 + self.k as u32, 0., 0.9999999), q => t[(q as usize * self.k) % 7] }
    }
    fn get_2d(&mut self) -> Point2f { let x = self.get_1d(); let y = self.get_1d(); Point2f { x, y } }
}
fn samples() -> Dice { Dice { k: 0 } }
fn render(b: Builder, ray: Ray) -> [f32; 3] {
    let scene = b.construct(|s| KdTree::new(s, None));
    let it = Integrator::new(scene, samples(), camera(), Film::new(Point2u { x: 4, y: 4 }, GaussianFilter::new(0.5, 2.)));
    sa(it.verif_li(&mut samples(), ray))
}
fn expect(got: [f32; 3], want: [f32; 3], id: u32) { for k in 0..3 { close(got[k], want[k], 0.001, id + k as u32) } }
fn floor_hit(d: [f32; 3]) -> Option<[f32; 3]> {
    let t = -EYE[2] / d[2];
    let p = [EYE[0] + t * d[0], EYE[1] + t * d[1], 0.];
    if in_square(p[0], p[1], HALF) {
        assume((p[0] - p[1]).abs() > 0.01);
        Some(p)
    } else { None }
}

/// is (x, y) in the triangle (counterclockwise)? places close to an edge are left out
fn in_tri(x: f32, y: f32, v: [[f32; 2]; 3]) -> bool {
    let mut r = true;
    for k in 0..3 {
        let (a, b) = (v[k], v[(k + 1) % 3]);
        let e = (b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0]);
        assume(e > 0.02 || e < -0.02);
        if e < 0. { r = false }
    }
    r
}
fn lamp_at(z: f32, v: [[f32; 2]; 3], l: Spectrum, down: bool) -> AreaLight {
    AreaLight::new(l, Triangle::new([pt3(v[0][0], v[0][1], z), pt3(v[1][0], v[1][1], z), pt3(v[2][0], v[2][1], z)], None, down, black()))
}
fn reaches(o: [f32; 3], d: [f32; 3], z: f32, v: [[f32; 2]; 3]) -> bool {
    let t = (z - o[2]) / d[2];
    t > 0. && in_tri(o[0] + t * d[0], o[1] + t * d[1], v)
}

harnesses! {
    fn lamp() {
        // glowing triangles seen from above, one before the other; param 0: bit 0 = the first, bit 1 = the second faces down
        let (l, m) = (spec(10, 0., 8.), spec(13, 0., 8.));
        let v = [[-3., -3.], [3., -3.], [0., 4.]];
        let w = [[-2., -4.], [5., -1.], [1., 3.]];
        let mut b = Builder::new();
        b.add_area_light(lamp_at(1., v, l, param(0) & 1 == 1));
        b.add_area_light(lamp_at(-1., w, m, param(0) & 2 == 2));
        let (d, ray) = view();
        let (first, second) = (reaches(EYE, d, 1., v), reaches(EYE, d, -1., w));
        reach(if first { 0 } else if second { 1 } else { 2 });
        let z = Spectrum::from(0.);
        expect(render(b, ray), sa(if first { if param(0) & 1 == 1 { z } else { l } } else if second { if param(0) & 2 == 2 { z } else { m } } else { z }), 1);
    }
    fn sunlit() {
        // a matte floor under the sun; param 0: the sun, 1: 1 = a black ball between
        let (kd, l) = (spec(10, 0., 1.), spec(13, 0., 8.));
        let suns = [[0.6f32, 0., 0.8], [-0.48, 0.36, 0.8], [0.48, 0.6, -0.64], [0., 0., 1.]];
        let w = suns[param(0) as usize];
        let mut b = Builder::new();
        floor(&mut b, matte(kd));
        b.add_light(DistantLight::new(l, vec3(w[0], w[1], w[2])));
        let ball = [1., 0.5, 3.];
        if param(1) == 1 { b.add_shape(Sphere::new(pt3(ball[0], ball[1], ball[2]), 1., black())); }
        let (d, ray) = view();
        let mut want = [0.; 3];
        let mut what = 0;
        if param(1) == 1 && meets(EYE, d, ball, 1.) { what = 1 } else if let Some(p) = floor_hit(d) {
            what = 2;
            if w[2] > 0. {
                if param(1) == 1 && meets(p, w, ball, 1.) { what = 3 } else {
                    for k in 0..3 { want[k] = sa(kd)[k] * sa(l)[k] * w[2] / 3.1415927 }
                }
            }
        }
        reach(what);
        expect(render(b, ray), want, 1);
    }
    fn tiled() {
        // a chequered floor under the sun; param 0: 0 = chequered space, 1 = chequered texture coordinates
        let (k1, k2, l) = (spec(10, 0., 1.), spec(16, 0., 1.), spec(13, 0., 8.));
        let mut b = Builder::new();
        floor(&mut b, Arc::new(LambertianReflectionMaterial::new(if param(0) == 0 {
            Arc::new(Checkerboard3DTexture::new(IdentityMapping3D::new(Transform::translate(0., 0., 1.5) * Transform::scale(0.25, 0.25, 0.25)), k1, k2))
        } else { Arc::new(CheckerboardTexture::new(UVMapping2D::new(4., 4., 0., 1.), k1, k2)) })));
        b.add_light(DistantLight::new(l, vec3(-0.48, 0.36, 0.8)));
        let (d, ray) = view();
        let mut want = [0.; 3];
        let mut what = 0;
        if let Some(p) = floor_hit(d) {
            for v in [p[0], p[1]] { for c in [-4f32, 0., 4.] { assume((v - c).abs() > 0.01) } }
            // cells of 4 by 4; on the second triangle the coordinates run backwards, which keeps the parity of the sum
            let side = |v: f32| (v < -4.) || (v > 0. && v < 4.);
            let odd = side(p[0]) == side(p[1]);
            what = 1 + odd as u32;
            for k in 0..3 { want[k] = sa(if odd { k2 } else { k1 })[k] * sa(l)[k] * 0.8 / 3.1415927 }
        }
        reach(what);
        expect(render(b, ray), want, 1);
    }
    fn suns() {
        // a matte floor under two suns: one of them is taken, twice as bright
        let (kd, l, m) = (spec(10, 0., 1.), spec(13, 0., 8.), spec(16, 0., 8.));
        let mut b = Builder::new();
        floor(&mut b, matte(kd));
        b.add_light(DistantLight::new(l, vec3(0.6, 0., 0.8)));
        b.add_light(DistantLight::new(m, vec3(-0.48, 0.6, 0.64)));
        let (d, ray) = view();
        let mut want = [0.; 3];
        let mut what = 0;
        if floor_hit(d).is_some() {
            // the first random number of the path picks the light
            let first = samples().get_1d() < 0.5;
            what = 1 + first as u32;
            for k in 0..3 { want[k] = 2. * sa(kd)[k] * if first { sa(l)[k] * 0.8 } else { sa(m)[k] * 0.64 } / 3.1415927 }
        }
        reach(what);
        expect(render(b, ray), want, 1);
    }
    fn mirrored() {
        // a mirror floor below a glowing triangle that faces down
        let (kr, l) = (spec(10, 0., 1.), spec(13, 0., 8.));
        let v = [[-7., -3.], [-1., -3.], [-4., 5.]];
        let mut b = Builder::new();
        floor(&mut b, mirror(kr));
        b.add_area_light(lamp_at(5., v, l, true));
        let (d, ray) = view();
        let mut want = [0.; 3];
        let mut what = 0;
        if reaches(EYE, d, 5., v) { what = 1 } else if let Some(p) = floor_hit(d) {
            what = 2;
            if reaches(p, [d[0], d[1], -d[2]], 5., v) { what = 3; for k in 0..3 { want[k] = sa(kr)[k] * sa(l)[k] } }
        }
        reach(what);
        expect(render(b, ray), want, 1);
    }
    fn photo() {
        // a picture from the first line of the scene to the last byte of the file: a glowing quarter of a plane, the other three quarters black;
        // params: 0 which quarter glows, 1 the range of its radiance, 2 samples per pixel, 3 threads
        let v = match param(1) { 0 => f32_in(0, 0., 0.0031308), 1 => f32_in(0, 0.2, 0.21875), _ => f32_in(0, 0.9375, 1.25) };
        let mut b = Builder::new();
        let far = 60.;
        // the plane through the origin that faces the eye: spanned by right and up
        let at = |x: f32, y: f32| pt3(-0.8 * x, y, 0.6 * x);
        for q in 0..4 {
            let (x, y) = ([-far, far, -far, far][q], [far, far, -far, -far][q]);
            let l = if q as i64 == param(0) { Spectrum::new(v, 0., v) } else { Spectrum::from(0.) };
            // vertices so that the normal points to the eye
            let (p, r) = if q == 0 || q == 3 { (at(x, 0.), at(0., y)) } else { (at(0., y), at(x, 0.)) };
            b.add_area_light(AreaLight::new(l, Triangle::new([at(0., 0.), p, r], None, false, black())));
        }
        let film = Film::new(Point2u { x: 4, y: 4 }, GaussianFilter::new(0.5, 2.));
        let sampler = HaltonSampler::new(param(2) as u32, film.sample_bbox());
        file_old(0);
        Integrator::new(b.construct(|s| KdTree::new(s, None)), sampler, camera(), film).render(param(3) as u8);
        let g = (if v <= 0.0031308 { 12.92 * v } else { 1.055 * v.powf(1. / 2.4) - 0.055 }) * 255.;
        let n = file_len();
        let head = b"P3\n4 4\n255\n";
        check(n > 11, 1);
        for k in 0..11 { check(file_byte(k) == head[k as usize], 1) }
        let mut at = 11;
        let mut num = |sep: u8| {
            let mut v = 0u32;
            let mut k = 0;
            while at < n && file_byte(at) >= b'0' && file_byte(at) <= b'9' { v = v * 10 + (file_byte(at) - b'0') as u32; at += 1; k += 1; }
            check(k > 0 && at < n && file_byte(at) == sep, 2);
            at += 1;
            v
        };
        reach(0);
        for k in 0..16 {
            let px = [num(b' '), num(b' '), num(b'\n')];
            // the pixels in the corners see one quarter only
            let q = match k { 0 => 0, 3 => 1, 12 => 2, 15 => 3, _ => continue };
            if q == param(0) {
                if g >= 255. { check(px[0] == 255, 3) } else { check((px[0] as f32 - g).abs() <= 0.51, 3) }
                check(px[1] == 0, 4);
                check(px[2] == px[0], 5);
            } else { check(px[0] == 0 && px[1] == 0 && px[2] == 0, 6) }
        }
        check(at == n, 7);
    }
}
