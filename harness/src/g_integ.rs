use crate::sx::*;
use crate::kit::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::camera::{Camera, CameraSample};
use pt::verif::container::Container;
use pt::verif::filter::Filter;
use pt::verif::interaction::Interaction;
use pt::verif::light::*;
use pt::verif::material::Material;
use pt::verif::ray::Ray;
use pt::verif::reflection::*;
use pt::verif::sampler::Sampler;
use pt::verif::scene::{Builder, Scene};
use pt::verif::shape::Shape;
use pt::verif::vector::*;

/// direction number k (alternating sides)
pub fn dirk(k: usize) -> Vector3f {
    let t = [(2f32, 1f32, 2f32), (3., 6., 2.), (-2., 3., 6.), (1., -4., 8.), (4., 4., 7.), (-2., -1., 2.)];
    let (x, y, z) = t[k % 6];
    let l = (x * x + y * y + z * z).sqrt();
    vec3(x / l, y / l, if k % 2 == 0 { z / l } else { -z / l })
}
fn mul(a: [f32; 3], b: [f32; 3]) -> [f32; 3] { [a[0] * b[0], a[1] * b[1], a[2] * b[2]] }
fn scale(a: [f32; 3], k: f32) -> [f32; 3] { [a[0] * k, a[1] * k, a[2] * k] }
fn plus(a: [f32; 3], b: [f32; 3]) -> [f32; 3] { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }

/// level of the path that is being traced: every free choice belongs to a level, whatever the order of the calls
static mut LEVEL: u32 = 0;
fn level() -> u32 { unsafe { LEVEL } }
fn set_level(k: u32) { unsafe { LEVEL = k } }

/// the colour of the lobe at hit k (params: 6 grey)
fn lobe_value(k: usize) -> [f32; 3] {
    if param(6) == 2 { return [1., 1., 1.] }
    let id = 100 + 3 * k as u32;
    if param(6) == 1 { let v = f32_in(id, 0., 2.); [v, v, v] } else { [f32_in(id, 0., 2.), f32_in(id + 1, 0., 2.), f32_in(id + 2, 0., 2.)] }
}
fn lobe_pdf(k: usize) -> f32 { if param(6) == 2 { return dirk(k).z.abs() } if fixed() { return 0.75 + 0.25 * k as f32 } f32_in(200 + k as u32, 0.0625, 4.) }
/// params: 8 densities are numbers and only the second hit may be in the shadow
fn fixed() -> bool { param(8) == 1 }
fn specular(k: usize) -> bool { if param(6) == 2 { return true } param(1) >> k & 1 == 1 }
/// the density of the lobe for other directions than its own
fn other_pdf(k: usize) -> f32 { if fixed() { return 1.5 } f32_in(230 + k as u32, 0.0625, 4.) }

struct Lobe { k: usize }
impl Lobe {
    fn own(&self, wi: Vector3f) -> bool { let d = dirk(self.k); (d.x - wi.x) * (d.x - wi.x) + (d.y - wi.y) * (d.y - wi.y) + (d.z - wi.z) * (d.z - wi.z) < 0.0001 }
    fn value(&self, wi: Vector3f) -> Spectrum { let v = lobe_value(self.k); let s = if self.own(wi) { 1. } else { 0.5 }; Spectrum::new(v[0] * s, v[1] * s, v[2] * s) }
}
impl BxDF for Lobe {
    fn flag(&self) -> BxDFFlag { if specular(self.k) { REFLECTION | SPECULAR } else { REFLECTION | TRANSMISSION | DIFFUSE } }
    fn f(&self, _wo: Vector3f, wi: Vector3f) -> Spectrum { if specular(self.k) { Spectrum::default() } else { self.value(wi) } }
    fn sample_f(&self, _wo: Vector3f, _s: Point2f) -> (Vector3f, Spectrum, f32) {
        let d = dirk(self.k);
        (d, self.value(d), if param(3) == 2 && self.k as i64 == param(0) - 1 { 0. } else { lobe_pdf(self.k) })
    }
    fn pdf(&self, _wo: Vector3f, wi: Vector3f) -> f32 { if specular(self.k) { 0. } else if self.own(wi) { lobe_pdf(self.k) } else { other_pdf(self.k) } }
}
struct Mat;
impl Material for Mat {
    fn compute_scattering(&self, i: &Interaction) -> BSDF {
        let k = i.uv.x as usize;
        let mut b = BSDF::new(i);
        if !(param(3) == 1 && k as i64 == param(0) - 1) { b.add(Lobe { k }); }
        b
    }
}
/// the place of the emitter as seen from a hit
fn lamp_dir() -> Vector3f { vec3(0.36, 0.48, 0.8) }
fn light_pdf(k: usize) -> f32 { if fixed() { return 0.5 + k as f32 } f32_in(260 + k as u32, 0.0625, 4.) }
fn light_pdf_own(k: usize) -> f32 { if fixed() { return 1.25 } f32_in(290 + k as u32, 0.0625, 4.) }
/// a scripted shape; only its sampling matters, intersections are scripted by the container
struct Sh;
impl Shape for Sh {
    fn bbox(&self) -> BBox3f { BBox3f { min: pt3(-1., -1., -1.), max: pt3(1., 1., 1.) } }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, _r: &Ray) -> bool { false }
    fn intersect(&self, _r: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { Arc::new(Mat) }
    fn sample(&self, _s: Point2f) -> Interaction { Interaction::default() }
    fn sample_ref(&self, i: &Interaction, _s: Point2f) -> Interaction {
        let d = lamp_dir();
        Interaction { p: i.p + d, n: nrm(0., 0., -1.), ..Default::default() }
    }
    fn pdf(&self, i: &Interaction, wi: Vector3f) -> f32 {
        let k = i.uv.x as usize;
        if (Lobe { k }).own(wi) { light_pdf_own(k) } else { light_pdf(k) }
    }
}
/// a scripted delta light
struct Lamp { k: u32 }
fn lamp_li(j: u32) -> [f32; 3] { [f32_in(60 + 3 * j, 0., 4.), f32_in(61 + 3 * j, 0., 4.), f32_in(62 + 3 * j, 0., 4.)] }
fn lamp_pdf(j: u32) -> f32 { f32_in(80 + j, 0.25, 4.) }
impl Light for Lamp {
    fn is_delta(&self) -> bool { true }
    fn sample_li(&self, i: &Interaction, s: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) {
        let t = DistantLight::new(Spectrum::from(1.), lamp_dir()).sample_li(i, s).3;
        let l = lamp_li(self.k);
        (lamp_dir(), Spectrum::new(l[0], l[1], l[2]), lamp_pdf(self.k), t)
    }
    fn pdf_li(&self, _i: &Interaction, _w: Vector3f) -> f32 { 0. }
}
/// hits at heights 1, 2, ..: the origin of a ray tells the level of the path
struct World { shapes: Box<[Arc<dyn Shape>]>, n: usize }
fn visible(k: u32) -> bool { if fixed() && k != 2 { return true } bool_in(500 + k) }
impl Container for World {
    fn bbox(&self) -> BBox3f { BBox3f { min: pt3(-1., -1., -1.), max: pt3(1., 1., 1.) } }
    fn intersect_p(&self, r: &Ray) -> bool { !visible(r.origin.z as u32) }
    fn intersect(&self, r: &Ray) -> Option<Interaction> {
        let k = r.origin.z as usize;
        check(k <= 65, 90);
        set_level(k as u32);
        if k >= self.n { return None }
        let d = if k == 0 { first() } else { dirk(k - 1) };
        check(r.direction.x == d.x && r.direction.y == d.y && r.direction.z == d.z, 91);
        let n = if d.z < 0. { 1. } else { -1. };
        let e = if emits(k) { self.shapes.len() - 1 } else { 0 };
        Some(Interaction { p: pt3(0., 0., (k + 1) as f32), uv: Point2f { x: k as f32, y: 0. }, n: nrm(0., 0., n), sn: nrm(0., 0., 1.), dpdu: vec3(1., 0., 0.), wo: -r.direction, shape: Some(self.shapes[e].clone()), ..Default::default() })
    }
}
fn first() -> Vector3f { vec3(0., 0.6, -0.8) }
fn emits(k: usize) -> bool { if param(6) == 2 { return k > 60 } param(2) >> k & 1 == 1 }
/// the same number for every request of one level
#[derive(Clone)]
struct LevelSampler;
impl Sampler for LevelSampler {
    fn start_pixel(&mut self, _p: Point2i) {}
    fn start_next_sample(&mut self) -> bool { false }
    fn get_1d(&mut self) -> f32 { if param(7) == 1 { 0. } else { f32_in(400 + level(), 0., 0.9999999) } }
    fn get_2d(&mut self) -> Point2f { Point2f { x: 0.5, y: 0.5 } }
}
struct One;
impl Filter for One {
    fn radius(&self) -> f32 { 0.5 }
    fn evaluate(&self, _p: Point2f) -> f32 { 1. }
}
fn world(lamps: u32, area: bool) -> Integrator<World, Cam, LevelSampler> {
    let mut b = Builder::new();
    b.add_shape(Sh);
    for k in 0..lamps { b.add_light(Lamp { k }); }
    let e = spec(50, 0., 8.);
    let al = AreaLight::new(e, Sh);
    if area { b.add_area_light(al) } else { b.add_shape(al) }
    let n = param(0) as usize;
    Integrator::new(b.construct(|shapes| World { shapes, n }), LevelSampler, Cam, Film::new(Point2u { x: 1, y: 1 }, One))
}
fn heuristic(a: f32, b: f32) -> f32 { a * a / (a * a + b * b) }

/// what direct lighting should give at hit k
fn direct(k: usize, n: usize, lamps: u32, area: bool) -> [f32; 3] {
    if specular(k) || (param(3) == 1 && k + 1 == n) { return [0., 0., 0.] }
    let f = lobe_value(k);
    let c = lamp_dir().z;
    let mut d = [0f32; 3];
    if lamps == 1 {
        if visible(k as u32 + 1) { d = scale(mul(scale(f, 0.5 * c), lamp_li(0)), 1. / lamp_pdf(0)); }
    } else if area {
        let e = sa(spec(50, 0., 8.));
        if visible(k as u32 + 1) {
            let (l, s) = (light_pdf(k), other_pdf(k));
            d = scale(mul(scale(f, 0.5 * c), e), heuristic(l, s) / l);
        }
        if emits(k + 1) && k + 1 < n && !(param(3) == 2 && k + 1 == n) {
            let (l, s) = (light_pdf_own(k), lobe_pdf(k));
            d = plus(d, scale(mul(scale(f, dirk(k).z.abs()), e), heuristic(s, l) / s));
        }
    }
    d
}
/// a sampler for the choice of a light: one value of stratum k of n
#[derive(Clone)]
struct Stratum { k: u32, n: u32 }
impl Sampler for Stratum {
    fn start_pixel(&mut self, _p: Point2i) {}
    fn start_next_sample(&mut self) -> bool { false }
    fn get_1d(&mut self) -> f32 { (self.k as f32 + f32_in(0, 0.0078125, 0.9921875)) / self.n as f32 }
    fn get_2d(&mut self) -> Point2f { Point2f { x: 0.5, y: 0.5 } }
}

/// a light and shape of its own for the estimate of direct lighting
struct Bulb;
fn bulb_dir() -> Vector3f { vec3(2. / 7., -3. / 7., 6. / 7.) }
fn hit_dir(j: u32) -> Vector3f { if j == 0 { vec3(4. / 9., 7. / 9., 4. / 9.) } else { vec3(-1. / 3., 2. / 3., 2. / 3.) } }
fn bulb_le(n: f32, w: Vector3f) -> [f32; 3] { let e = spec(10, 4., 8.); [e.r + n + w.x, e.g + 2. * w.y - w.z, e.b + w.z] }
impl Light for Bulb {
    fn is_delta(&self) -> bool { param(0) == 1 }
    fn sample_li(&self, i: &Interaction, s: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) {
        let t = DistantLight::new(Spectrum::from(1.), bulb_dir()).sample_li(i, s).3;
        (bulb_dir(), spec(13, 0., 4.), f32_in(16, 0., 4.), t)
    }
    fn pdf_li(&self, i: &Interaction, w: Vector3f) -> f32 {
        if param(0) == 1 { return 0. }
        check(i.uv.y == 0.75, 95);
        // at least one quarter for the first direction, possibly zero for the second one
        f32_in(17, 0., 4.) * (1. + w.x)
    }
}
impl Shape for Bulb {
    fn bbox(&self) -> BBox3f { BBox3f { min: pt3(-1., -1., -1.), max: pt3(1., 1., 1.) } }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, _r: &Ray) -> bool { false }
    fn intersect(&self, _r: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { Arc::new(Mat) }
    fn sample(&self, _s: Point2f) -> Interaction { Interaction::default() }
    fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum { let e = bulb_le(i.uv.x, w); Spectrum::new(e[0], e[1], e[2]) }
}
/// a lobe with free values and densities for its own direction and for the direction of the light
struct Fl { j: u32, kind: i64 }
impl BxDF for Fl {
    fn flag(&self) -> BxDFFlag { match self.kind { 0 => REFLECTION | TRANSMISSION | DIFFUSE, 1 => REFLECTION | SPECULAR, _ => REFLECTION | TRANSMISSION | GLOSSY } }
    fn f(&self, _wo: Vector3f, wi: Vector3f) -> Spectrum { if self.kind == 1 { return Spectrum::default() } let c = spec(20 + 3 * self.j, 0., 4.); Spectrum::new(c.r * (1.5 + wi.x), c.g * (1.5 + wi.y), c.b) }
    fn sample_f(&self, wo: Vector3f, _s: Point2f) -> (Vector3f, Spectrum, f32) {
        let d = hit_dir(self.j);
        let f = if self.kind == 1 { spec(20 + 3 * self.j, 0., 4.) } else { self.f(wo, d) };
        (d, f, if self.kind == 1 { f32_in(30 + self.j, 0., 4.) } else { self.pdf(wo, d) })
    }
    fn pdf(&self, _wo: Vector3f, wi: Vector3f) -> f32 { if self.kind == 1 { 0. } else { f32_in(30 + self.j, 0., 4.) * (1.25 + wi.y) } }
}
/// what the ray of the sampled direction meets: p1 0 nothing, 1 the light, 2 another emitter
struct Room { bulb: Arc<dyn Shape>, other: Arc<dyn Shape>, dir: [Vector3f; 2] }
impl Container for Room {
    fn bbox(&self) -> BBox3f { BBox3f { min: pt3(-1., -1., -1.), max: pt3(1., 1., 1.) } }
    fn intersect_p(&self, r: &Ray) -> bool {
        check(r.origin.x == 1. && r.origin.y == 2. && r.origin.z == 3., 92);
        !bool_in(40)
    }
    fn intersect(&self, r: &Ray) -> Option<Interaction> {
        check(r.origin.x == 1. && r.origin.y == 2. && r.origin.z == 3. && r.t_max > 1e30, 93);
        let eq = |d: &Vector3f| r.direction.x == d.x && r.direction.y == d.y && r.direction.z == d.z;
        check(eq(&self.dir[0]) || eq(&self.dir[1]), 94);
        match param(1) {
            0 => None,
            1 => Some(Interaction { uv: Point2f { x: 0.25, y: 0. }, shape: Some(self.bulb.clone()), ..Default::default() }),
            _ => Some(Interaction { uv: Point2f { x: 0.25, y: 0. }, shape: Some(self.other.clone()), ..Default::default() }),
        }
    }
}
#[derive(Clone)]
struct Same2;
impl Sampler for Same2 {
    fn start_pixel(&mut self, _p: Point2i) {}
    fn start_next_sample(&mut self) -> bool { false }
    fn get_1d(&mut self) -> f32 { 0.5 }
    fn get_2d(&mut self) -> Point2f { Point2f { x: f32_in(1, 0., 0.9999), y: f32_in(2, 0., 0.9999) } }
}

/// a scene whose first hit emits a scripted radiance for every camera ray
struct Glow;
impl Shape for Glow {
    fn bbox(&self) -> BBox3f { BBox3f { min: pt3(-1., -1., -1.), max: pt3(1., 1., 1.) } }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, _r: &Ray) -> bool { false }
    fn intersect(&self, _r: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { no_material() }
    fn sample(&self, _s: Point2f) -> Interaction { Interaction::default() }
    fn l(&self, i: &Interaction, _w: Vector3f) -> Spectrum { let v = radiance(i.uv.x as u32); Spectrum::new(v[0], v[1], v[2]) }
}
/// radiance of the k-th camera ray: the kinds of its components come from param 10 + k (base 6)
fn radiance(k: u32) -> [f32; 3] {
    let mut kind = param(10 + k);
    let mut v = [0f32; 3];
    for j in 0..3 {
        v[j] = match kind % 6 {
            0 => f32_in(100 + 3 * k + j as u32, 0., 8.),
            1 => std::f32::NAN,
            2 => std::f32::INFINITY,
            3 => { let x = f32_in(100 + 3 * k + j as u32, -8., 0.); assume(x < 0.); x }
            4 => std::f32::NEG_INFINITY,
            _ => 0.,
        };
        kind /= 6;
    }
    v
}
fn valid(k: u32) -> bool { let q = param(10 + k); (q % 6 == 0 || q % 6 == 5) && (q / 6 % 6 == 0 || q / 6 % 6 == 5) && (q / 36 == 0 || q / 36 == 5) }
struct Sky { shape: Arc<dyn Shape>, n: u32 }
/// the sample asked for last, and how often each sample was traced
static mut CUR: u32 = 0;
static mut SEEN: [u32; 16] = [0; 16];
impl Container for Sky {
    fn bbox(&self) -> BBox3f { BBox3f { min: pt3(-1., -1., -1.), max: pt3(1., 1., 1.) } }
    fn intersect_p(&self, _r: &Ray) -> bool { false }
    fn intersect(&self, r: &Ray) -> Option<Interaction> {
        let k = unsafe { CUR };
        check(k < self.n, 96);
        unsafe { SEEN[k as usize] += 1 };
        // the position on the film of this camera ray
        let p = film_pos(k);
        check(r.origin.x == p[0] && r.origin.y == p[1], 97);
        Some(Interaction { uv: Point2f { x: k as f32, y: 0. }, sn: nrm(0., 0., 1.), n: nrm(0., 0., 1.), dpdu: vec3(1., 0., 0.), wo: -r.direction, shape: Some(self.shape.clone()), ..Default::default() })
    }
}
/// samples per pixel p0; pixels from left to right in rows of p1
fn film_pos(k: u32) -> [f32; 2] {
    let (spp, w) = (param(0) as u32, param(1) as u32);
    let (x, y) = (k / spp % w, k / spp / w);
    if k as i64 != param(3) { return [x as f32 + 0.125 + (k % 3) as f32 * 0.25, y as f32 + 0.375 + (k % 2) as f32 * 0.5] }
    [x as f32 + f32_in(200, 0., 0.9999), y as f32 + f32_in(201, 0., 0.9999)]
}
#[derive(Clone)]
struct Seq { p: [i32; 2], i: u32 }
impl Sampler for Seq {
    fn start_pixel(&mut self, p: Point2i) { self.p = [p.x, p.y]; self.i = 0; }
    fn start_next_sample(&mut self) -> bool { self.i += 1; self.i < param(0) as u32 }
    fn get_1d(&mut self) -> f32 { 0.5 }
    fn get_2d(&mut self) -> Point2f { Point2f { x: 0.5, y: 0.5 } }
    fn get_camera_sample(&mut self, p: Point2i) -> CameraSample {
        check(p.x == self.p[0] && p.y == self.p[1], 98);
        let k = (p.y as u32 * param(1) as u32 + p.x as u32) * param(0) as u32 + self.i;
        check(k < 16, 99);
        unsafe { CUR = k };
        let q = film_pos(k);
        CameraSample { p_film: Point2f { x: q[0], y: q[1] } }
    }
}
/// a filter whose weight tells the offset
struct Slope;
impl Filter for Slope {
    fn radius(&self) -> f32 { 0.5 }
    fn evaluate(&self, p: Point2f) -> f32 { 2. - p.x.abs() - 0.5 * p.y.abs() }
}

harnesses! {
    fn li() {
        // params: 0 hits, 1 specular hits, 2 emitting hits, 3 end (0 leaves the scene, 1 no lobe, 2 density zero), 4 lights (0 none, 1 a delta light, 2 an area light), 6 grey, 7 random numbers all zero
        let n = param(0) as usize;
        let (lamps, area) = (if param(4) == 1 { 1 } else { 0 }, param(4) == 2);
        set_level(0);
        let w = world(lamps, area);
        let got = sa(w.verif_li(&mut LevelSampler, Ray { origin: pt3(0., 0., 0.), direction: first(), t_max: std::f32::INFINITY }));
        if n > 65 { reach(0); return }
        let e = sa(spec(50, 0., 8.));
        let mut l = [0f32; 3];
        let mut beta = [1f32; 3];
        for k in 0..n {
            if emits(k) && (k == 0 || specular(k - 1)) { l = plus(l, mul(beta, e)); }
            l = plus(l, mul(beta, direct(k, n, lamps, area)));
            if param(3) != 0 && k + 1 == n { break }
            let f = lobe_value(k);
            if f[0] == 0. && f[1] == 0. && f[2] == 0. { break }
            beta = scale(mul(beta, f), dirk(k).z.abs() / lobe_pdf(k));
            if k >= 3 {
                let y = 0.212671 * beta[0] + 0.715160 * beta[1] + 0.072169 * beta[2];
                let q = if y < 0.95 { y } else { 0.95 };
                let u = if param(7) == 1 { 0. } else { f32_in(400 + k as u32, 0., 0.9999999) };
                if q == 0. { break }
                assume(u != q);
                if u > q { break }
                beta = scale(beta, 1. / q);
            }
        }
        reach(0);
        close3(got, l, 0.001, 1);
    }
    fn lights() {
        // params: 4 number of delta lights: over equal shares of the random numbers, the average is the sum over the lights
        let n = param(4) as u32;
        set_level(0);
        let w = world(n, false);
        let mut sum = [0f32; 3];
        for k in 0..n {
            let got = sa(w.verif_li(&mut Stratum { k, n }, Ray { origin: pt3(0., 0., 0.), direction: first(), t_max: std::f32::INFINITY }));
            sum = plus(sum, scale(got, 1. / n as f32));
        }
        let mut want = [0f32; 3];
        if visible(1) { for j in 0..n { want = plus(want, scale(mul(scale(lobe_value(0), 0.5 * lamp_dir().z), lamp_li(j)), 1. / lamp_pdf(j))); } }
        reach(0);
        close3(sum, want, 0.001, 1);
    }
    fn weights() {
        use pt::verif::sampling::power_heuristic;
        let (a, b) = (f32_in(0, 0., 16.), f32_in(1, 0., 16.));
        let (m, n) = (param(0) as u32, param(1) as u32);
        assume(a > 0.0078125 || b > 0.0078125);
        let (x, y) = (power_heuristic(m, a, n, b), power_heuristic(n, b, m, a));
        reach(0);
        close(x + y, 1., 0.0001, 1);
        let (p, q) = (m as f32 * a, n as f32 * b);
        close(x, p * p / (p * p + q * q), 0.0001, 2);
        check(x >= 0. && x <= 1., 3);
    }
    fn estimate() {
        // params: 0 delta light, 1 what is hit, 2 number of lobes, 3,4 their kinds
        let n = param(2) as u32;
        let i = Interaction { p: pt3(1., 2., 3.), uv: Point2f { x: 0., y: 0.75 }, n: nrm(2. / 3., 1. / 3., 2. / 3.), sn: nrm(1. / 3., 2. / 3., 2. / 3.), dpdu: vec3(2., 1., -2.), wo: vec3(2. / 3., -1. / 3., 2. / 3.), ..Default::default() };
        let mut bsdf = BSDF::new(&i);
        for j in 0..n { bsdf.add(Fl { j, kind: param(3 + j) }); }
        let (wi, pl) = (bulb_dir(), f32_in(16, 0., 4.));
        let li = spec(13, 0., 4.);
        let u = Point2f { x: f32_in(1, 0., 0.9999), y: f32_in(2, 0., 0.9999) };
        let cos = |w: Vector3f| (w.x * i.sn.x + w.y * i.sn.y + w.z * i.sn.z).abs();
        let dirs = { let t = |j: u32| { let mut b = BSDF::new(&i); b.add(Fl { j, kind: 1 }); let s = BSDF::sample_f(&b, i.wo, u); s.0 }; [t(0), t(1)] };
        let bulb = Arc::new(Bulb);
        let mut b = Builder::new();
        b.add_shape(Bulb);
        let shape: Arc<dyn Shape> = bulb.clone();
        let it = Integrator::new(b.construct(|s| Room { bulb: shape, other: s[0].clone(), dir: dirs }), Same2, Cam, Film::new(Point2u { x: 1, y: 1 }, One));
        let light: &Bulb = &bulb;
        let got = sa(it.verif_estimate_direct(&mut Same2, light, &i, &bsdf));
        let mut want = [0f32; 3];
        if pl > 0. && bool_in(40) {
            let f = sa(bsdf.f(i.wo, wi));
            let ps = bsdf.pdf(i.wo, wi);
            let w = if param(0) == 1 { 1. } else { heuristic(pl, ps) };
            want = plus(want, scale(mul(f, sa(li)), cos(wi) * w / pl));
        }
        if param(0) == 0 && param(1) == 1 && n > 0 {
            let (w, f, p, flag) = bsdf.sample_f(i.wo, u);
            if flag & SPECULAR == 0 && p > 0. {
                let q = f32_in(17, 0., 4.) * (1. + w.x);
                if q > 0. { want = plus(want, scale(mul(sa(f), bulb_le(0.25, vec3(-w.x, -w.y, -w.z))), cos(w) * heuristic(p, q) / p)); }
            }
        }
        reach(0);
        close3(got, want, 0.001, 1);
    }
    fn tile() {
        // params: 0 samples per pixel, 1 width and 2 height of the tile, 3 the sample whose position is free, 10.. kinds of the radiance of each sample
        let (spp, w, h) = (param(0) as u32, param(1) as u32, param(2) as u32);
        let n = spp * w * h;
        unsafe { SEEN = [0; 16] };
        let mut b = Builder::new();
        b.add_shape(Glow);
        let it = Integrator::new(b.construct(|s| Sky { shape: s[0].clone(), n }), Seq { p: [0, 0], i: 0 }, Cam, Film::new(Point2u { x: w, y: h }, Slope));
        let bb = BBox2 { min: Point2i { x: 0, y: 0 }, max: Point2i { x: w as i32, y: h as i32 } };
        it.verif_render_tile(&mut Seq { p: [0, 0], i: 0 }, bb);
        for k in 0..n { check(unsafe { SEEN[k as usize] } == 1, 1); }
        // the same samples, only the valid ones, on a film of its own
        let film = Film::new(Point2u { x: w, y: h }, Slope);
        let mut t = film.get_film_tile(bb);
        for k in 0..n {
            if valid(k) {
                let (p, v) = (film_pos(k), radiance(k));
                t.add_sample(Point2f { x: p[0], y: p[1] }, Spectrum::new(v[0], v[1], v[2]));
            }
        }
        film.merge_film_tile(t);
        reach(0);
        let (a, b) = (it.verif_film().verif_pixels(), film.verif_pixels());
        for k in 0..a.len() {
            close3(sa(a[k].0), sa(b[k].0), 0.0001, 10);
            close(a[k].1, b[k].1, 0.0001, 13);
        }
    }
}
