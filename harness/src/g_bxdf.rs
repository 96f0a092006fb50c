use crate::sx::*;
use crate::kit::*;
use std::cell::Cell;
use std::rc::Rc;
use pt::api::*;
use pt::verif::bxdf_lambertian_reflection::LambertianReflectionBRDF;
use pt::verif::bxdf_microfacet_reflection::MicrofacetReflectionBRDF;
use pt::verif::bxdf_microfacet_transmission::MicrofacetTransmissionBTDF;
use pt::verif::bxdf_specular_reflection::SpecularReflectionBRDF;
use pt::verif::bxdf_specular_transmission::SpecularTransmissionBTDF;
use pt::verif::fresnel::*;
use pt::verif::interaction::Interaction;
use pt::verif::microfacet::MicrofacetDistribution;
use pt::verif::reflection::*;
use pt::verif::sampling::*;
use pt::verif::vector::*;

/// direction number k of a few unit vectors (up to rounding), in the upper half space; odd multiples of 8 flip it
pub fn dir(k: i64) -> Vector3f {
    let t = [(0., 0., 1.), (0.6, 0., 0.8), (0., -0.8, 0.6), (-0.48, 0.64, 0.6), (0.96, 0., 0.28), (-0.36, -0.48, 0.8), (0.28, 0.96, 0.), (-0.672, 0.224, 0.70586117)];
    let (x, y, z) = t[(k % 8) as usize];
    let s = if k >= 8 { -1. } else { 1. };
    let l = ((x * x + y * y + z * z) as f32).sqrt();
    vec3(s * x / l, s * y / l, s * z / l)
}
/// unit vector on the upper (0) or lower (1) side, quadrant q of the plane
pub fn side(id: u32, s: i64, q: i64) -> Vector3f {
    let w = unit(id);
    assume(if s == 0 { w.z > 0.0078125 } else { w.z < -0.0078125 });
    assume(if q % 2 == 0 { w.x > 0.0009765625 } else { w.x < -0.0009765625 });
    assume(if q / 2 == 0 { w.y > 0.0009765625 } else { w.y < -0.0009765625 });
    w
}
pub fn u01(id: u32) -> f32 { f32_in(id, 0.015625, 0.984375) }
/// uniform number in quarter k
pub fn quarter(id: u32, k: i64) -> f32 { let a = k as f32 * 0.25; f32_in(id, a + 0.00390625, a + 0.24609375) }
fn distr(ax: i64, ay: i64) -> MicrofacetDistribution { MicrofacetDistribution::new(ax as f32 / 16., ay as f32 / 16.) }
fn area3(d: &[[f32; 2]; 3]) -> [f32; 3] { cross3([d[0][0], d[1][0], d[2][0]], [d[0][1], d[1][1], d[2][1]]) }

/// random numbers for which the tangent of half the polar angle of the microfacet normal is v (for equal roughness a)
pub fn tsample(v: f32, a: f32, y: f32) -> Point2f {
    let (n, d) = (2. * v, a * (1. - v * v));
    Point2f { x: n * n / (d * d + n * n), y }
}
/// azimuth number k: exact rational points of the unit circle (computed, so that no constant is rounded)
pub fn azimuth(k: i64) -> (f32, f32) {
    let r = (k / 4) as f32 / 4.;
    let (c, s) = ((1. - r * r) / (1. + r * r), 2. * r / (1. + r * r));
    match k % 4 { 0 => (s, c), 1 => (c, -s), 2 => (-s, -c), _ => (-c, s) }
}

/// A scripted lobe: value and density are different linear functions of the directions it is given.
pub struct Lobe { pub k: u32, pub kind: i64, pub seen: Rc<Cell<(f32, f32)>> }
impl Lobe {
    fn specular(&self) -> bool { self.kind == 2 || self.kind == 3 }
    fn value(&self, wo: Vector3f, wi: Vector3f) -> Spectrum {
        let c = f32_in(100 + self.k, 0., 8.);
        Spectrum::new(c + wi.x - 2. * wo.x, c + wi.y - 2. * wo.y, c + wi.z - 2. * wo.z)
    }
    fn density(&self, wo: Vector3f, wi: Vector3f) -> f32 {
        if self.kind == 5 { return 0. }
        let q = wi.x + 2. * wi.z - wo.y - 2. * wo.z;
        f32_in(110 + self.k, 1., 8.) + q * q
    }
}
pub fn kind_flag(k: i64) -> BxDFFlag {
    match k { 0 | 5 => REFLECTION | DIFFUSE, 1 => TRANSMISSION | GLOSSY, 2 => REFLECTION | SPECULAR, 3 => TRANSMISSION | SPECULAR, _ => REFLECTION | TRANSMISSION | DIFFUSE }
}
impl BxDF for Lobe {
    fn flag(&self) -> BxDFFlag { kind_flag(self.kind) }
    fn f(&self, wo: Vector3f, wi: Vector3f) -> Spectrum { if self.specular() { Spectrum::default() } else { self.value(wo, wi) } }
    fn sample_f(&self, wo: Vector3f, s: Point2f) -> (Vector3f, Spectrum, f32) {
        self.seen.set((s.x, s.y));
        let wi = v3(120 + 3 * self.k, -2., 2.);
        (wi, self.value(wo, wi), self.density(wo, wi))
    }
    fn pdf(&self, wo: Vector3f, wi: Vector3f) -> f32 { if self.specular() { 0. } else { self.density(wo, wi) } }
}
/// a hit with a unit shading normal (id), any tangent perpendicular to it (id + 1, a scale and an angle) and any unit geometric normal (id + 4)
pub fn frame(id: u32) -> (Interaction, [[f32; 3]; 3]) {
    let n = unit(id);
    let a = v3(id + 1, -2., 2.);
    let t = cross3(va(n), va(a));
    assume(dot3(t, t) > 0.0009765625);
    let g = unit(id + 4);
    let i = Interaction { n: nrm(g.x, g.y, g.z), sn: nrm(n.x, n.y, n.z), dpdu: vec3(t[0], t[1], t[2]), ..Default::default() };
    let l = dot3(t, t).sqrt();
    let s = [t[0] / l, t[1] / l, t[2] / l];
    (i, [s, cross3(va(n), s), va(n)])
}
fn local(m: &[[f32; 3]; 3], v: Vector3f) -> Vector3f { vec3(dot3(m[0], va(v)), dot3(m[1], va(v)), dot3(m[2], va(v))) }

/// a scripted Fresnel term: a positive function of the cosine it is given
pub struct Fr;
impl Fresnel for Fr { fn evaluate(&self, c: f32) -> Spectrum { Spectrum::new((2. + c) * (2. + c), (3. - c) * (3. - c), 1.) } }
/// a unit vector strictly above (0) or below (1) the surface
pub fn half(id: u32, s: i64) -> Vector3f {
    let w = unit(id);
    assume(if s == 0 { w.z > 0.0078125 } else { w.z < -0.0078125 });
    w
}

harnesses! {
    fn mr_recip() {
        // params: 0,1 roughness, 2 side of the two directions, 3 general (0), mirrored (1) or perpendicular (2) position
        let wo = half(0, param(2));
        let z = if param(2) == 0 { 1. } else { -1. };
        let wi = match param(3) { 0 => half(1, param(2)), 1 => vec3(-wo.x, -wo.y, wo.z), _ => vec3(0., 0., z) };
        assume(wo.x * wo.x + wo.y * wo.y > 0.0009765625);
        if param(3) == 0 {
            assume(wi.x * wi.x + wi.y * wi.y > 0.0009765625);
            assume((wo.x + wi.x) * (wo.x + wi.x) + (wo.y + wi.y) * (wo.y + wi.y) > 0.0009765625);
        }
        let b = MicrofacetReflectionBRDF::new(Spectrum::new(0.25, 0.5, 1.), distr(param(0), param(1)), Fr);
        reach(0);
        let (x, y) = (b.f(wo, wi), b.f(wi, wo));
        close3(sa(x), sa(y), 0.001, 1);
        check(x.r >= 0. && x.g >= 0. && x.b >= 0., 4);
    }
    fn lambert_recip() {
        let (wo, wi) = (half(0, param(2)), half(1, param(3)));
        let r = spec(0, 0., 1.);
        let b = LambertianReflectionBRDF::new(r);
        reach(0);
        let (x, y) = (b.f(wo, wi), b.f(wi, wo));
        close3(sa(x), sa(y), 0.001, 1);
        check(x.r >= 0. && x.g >= 0. && x.b >= 0., 4);
        close3(sa(x), [r.r / std::f32::consts::PI, r.g / std::f32::consts::PI, r.b / std::f32::consts::PI], 0.001, 5);
    }
    fn masking() {
        // visible fractions; params: 0,1 roughness, 2,3 sides
        let (wo, wi) = (half(0, param(2)), half(1, param(3)));
        assume(wo.x * wo.x + wo.y * wo.y > 0.0009765625);
        assume(wi.x * wi.x + wi.y * wi.y > 0.0009765625);
        let d = distr(param(0), param(1));
        reach(0);
        let (a, b, g, h) = (d.g1(wo), d.g1(wi), d.g(wo, wi), d.g(wi, wo));
        check(a >= 0. && a <= 1., 1);
        check(g >= 0. && g <= 1., 2);
        close(g, h, 0.001, 3);
        check(g <= a && g <= b, 4);
        check(d.d(wo) >= 0., 5);
        close(d.d(wo), d.d(-wo), 0.001, 6);
    }
    fn masking_edge() {
        // grazing and perpendicular directions; params: 0,1 roughness, 2 case
        let d = distr(param(0), param(1));
        let w = match param(2) { 0 => vec3(0., 0., 1.), 1 => vec3(0., 0., -1.), 2 => vec3(1., 0., 0.), 3 => vec3(0., -1., 0.), 4 => vec3(0., 0., 1.0000001), _ => vec3(-0.6, 0.8, 0.) };
        let v = half(0, param(3));
        reach(0);
        let (a, g) = (d.g1(w), d.g(w, v));
        check(a >= 0. && a <= 1., 1);
        check(g >= 0. && g <= 1., 2);
        check(d.d(w) >= 0. && d.d(w).is_finite(), 3);
        let b = MicrofacetReflectionBRDF::new(Spectrum::new(0.25, 0.5, 1.), d, Fr);
        let (x, y) = (b.f(w, v), b.f(v, w));
        check(x.r >= 0. && x.g >= 0. && x.b >= 0. && x.r.is_finite(), 4);
        check(y.r >= 0. && y.g >= 0. && y.b >= 0. && y.r.is_finite(), 5);
    }
    fn bsdf_sample() {
        // several scripted lobes; params: 0 number of lobes, 1.. their kinds, 4 lobe to be chosen
        let n = param(0);
        let (i, m) = frame(0);
        let mut b = BSDF::new(&i);
        let seen = Rc::new(Cell::new((-1., -1.)));
        for k in 0..n { b.add(Lobe { k: k as u32, kind: param(1 + k as u32), seen: seen.clone() }) }
        let lobe = |k: i64| Lobe { k: k as u32, kind: param(1 + k as u32), seen: Rc::new(Cell::new((0., 0.))) };
        let wo = v3(10, -2., 2.);
        let c = param(4);
        let u = Point2f { x: f32_in(13, 0., 1.), y: f32_in(14, 0., 1.) };
        assume(u.x * n as f32 >= c as f32 && u.x * (n as f32) < (c + 1) as f32 - 0.0009765625);
        let wol = local(&m, wo);
        assume(wol.z.abs() > 0.0009765625);
        let (wi, f, p, flag) = b.sample_f(wo, u);
        let s = seen.get();
        close(s.0, u.x * n as f32 - c as f32, 0.001, 1);
        check(s.0 >= 0. && s.0 < 1. && s.1 == u.y, 2);
        let ch = lobe(c);
        let wil = v3(120 + 3 * c as u32, -2., 2.);
        reach(0);
        if param(1 + c as u32) == 5 { check(p == 0., 3); return }
        check(flag == kind_flag(param(1 + c as u32)), 4);
        for k in 0..3 { close([wi.x, wi.y, wi.z][k], m[0][k] * wil.x + m[1][k] * wil.y + m[2][k] * wil.z, 0.001, 5 + k as u32); }
        if ch.specular() {
            close(p * n as f32, ch.density(wol, wil), 0.001, 8);
            close3(sa(f), sa(ch.value(wol, wil)), 0.001, 9);
            return
        }
        let side = dot3(na(i.n), va(wi)) * dot3(na(i.n), va(wo));
        assume(side.abs() > 0.0009765625);
        let mut want = [0.; 3];
        let mut wp = 0.;
        for k in 0..n {
            let l = lobe(k);
            let fl = l.flag();
            wp += l.pdf(wol, wil);
            if fl & (if side > 0. { REFLECTION } else { TRANSMISSION }) != 0 { let v = sa(l.f(wol, wil)); for j in 0..3 { want[j] += v[j] } }
        }
        close(p * n as f32, wp, 0.001, 12);
        close3(sa(f), want, 0.001, 13);
    }
    fn bsdf_eval() {
        // the same for evaluation of a given pair of directions
        let n = param(0);
        let (i, m) = frame(0);
        let mut b = BSDF::new(&i);
        let seen = Rc::new(Cell::new((-1., -1.)));
        for k in 0..n { b.add(Lobe { k: k as u32, kind: param(1 + k as u32), seen: seen.clone() }) }
        let (wo, wi) = (v3(10, -2., 2.), v3(13, -2., 2.));
        let (wol, wil) = (local(&m, wo), local(&m, wi));
        assume(wol.z.abs() > 0.0009765625);
        let side = dot3(na(i.n), va(wi)) * dot3(na(i.n), va(wo));
        assume(side.abs() > 0.0009765625);
        let mut want = [0.; 3];
        let mut wp = 0.;
        for k in 0..n {
            let l = Lobe { k: k as u32, kind: param(1 + k as u32), seen: Rc::new(Cell::new((0., 0.))) };
            wp += l.pdf(wol, wil);
            if l.flag() & (if side > 0. { REFLECTION } else { TRANSMISSION }) != 0 { let v = sa(l.f(wol, wil)); for j in 0..3 { want[j] += v[j] } }
        }
        reach(0);
        close3(sa(b.f(wo, wi)), want, 0.001, 1);
        close(b.pdf(wo, wi) * n as f32, wp, 0.001, 4);
    }
    fn bsdf_frame() {
        // directions keep length and angle in the frame; params: none
        struct Obs { out: Rc<Cell<[f32; 6]>> }
        impl BxDF for Obs {
            fn flag(&self) -> BxDFFlag { REFLECTION | TRANSMISSION | DIFFUSE }
            fn f(&self, wo: Vector3f, wi: Vector3f) -> Spectrum { self.out.set([wo.x, wo.y, wo.z, wi.x, wi.y, wi.z]); Spectrum::default() }
            fn sample_f(&self, wo: Vector3f, _s: Point2f) -> (Vector3f, Spectrum, f32) { (wo, Spectrum::default(), 1.) }
            fn pdf(&self, _wo: Vector3f, _wi: Vector3f) -> f32 { 1. }
        }
        let (i, m) = frame(0);
        let mut b = BSDF::new(&i);
        let out = Rc::new(Cell::new([0.; 6]));
        b.add(Obs { out: out.clone() });
        let (wo, wi) = (v3(10, -2., 2.), v3(13, -2., 2.));
        assume(dot3(m[2], va(wo)).abs() > 0.0009765625);
        b.f(wo, wi);
        let o = out.get();
        let (lo, li) = ([o[0], o[1], o[2]], [o[3], o[4], o[5]]);
        reach(0);
        close(dot3(lo, lo), dot3(va(wo), va(wo)), 0.002, 1);
        close(dot3(li, li), dot3(va(wi), va(wi)), 0.002, 2);
        close(dot3(lo, li), dot3(va(wo), va(wi)), 0.002, 3);
        // the third axis is the shading normal, the first the tangent
        close(lo[2], dot3(m[2], va(wo)), 0.001, 4);
        close(lo[0], dot3(m[0], va(wo)), 0.001, 5);
        // there and back
        let (w, _, _, _) = b.sample_f(wo, Point2f { x: f32_in(16, 0., 0.9375), y: 0.5 });
        close3(va(w), va(wo), 0.002, 6);
    }
    fn wh_density() {
        // microfacet normals: the density times the area element of the sampling map is 1
        // params: 0,1 roughness in 16ths, 2 side of wo, 3 quarter of the angle
        let d = distr(param(0), param(1));
        let wo = vec3(0., 0., if param(2) == 0 { 1. } else { -1. });
        let (v, j) = jac([0, 1], || { let w = d.sample_wh(wo, Point2f { x: u01(0), y: quarter(1, param(3)) }); [w.x, w.y, w.z] });
        let c = area3(&j);
        let w = vec3(v[0], v[1], v[2]);
        reach(0);
        close(dot3(v, v), 1., 0.001, 1);
        check(w.z * wo.z > 0., 2);
        let p = d.pdf(wo, w);
        close(p * p * dot3(c, c), 1., 0.04, 3);
    }
    fn wh_apart() {
        // random numbers of different quarters never lead to the same microfacet normal; params: 0,1 roughness, 2 side of wo, 3,4 quarters
        let d = distr(param(0), param(1));
        let wo = vec3(0., 0., if param(2) == 0 { 1. } else { -1. });
        let a = d.sample_wh(wo, Point2f { x: u01(0), y: quarter(1, param(3)) });
        let b = d.sample_wh(wo, Point2f { x: u01(2), y: quarter(3, param(4)) });
        reach(0);
        check(a.x * b.x < 0. || a.y * b.y < 0., 1);
    }
    fn cos_density() {
        // cosine weighted directions, and the Lambertian lobe on either side; params: 0 side, 1 sector, 2 through the lobe
        let wo = vec3(0.6, 0., if param(0) == 0 { 0.8 } else { -0.8 });
        let lobe = LambertianReflectionBRDF::new(Spectrum::from(0.5));
        let (a, b) = [(0.5, 0.), (0., 0.5), (0., 0.), (0.5, 0.5)][(param(1) % 4) as usize];
        let (v, j) = jac([0, 1], || {
            let s = Point2f { x: f32_in(0, a + 0.01171875, a + 0.48828125), y: f32_in(1, b + 0.01171875, b + 0.48828125) };
            let w = if param(2) == 1 { lobe.sample_f(wo, s).0 } else { cosine_sample_hemisphere(s) };
            [w.x, w.y, w.z]
        });
        let (x, y) = (f32_in(0, a + 0.01171875, a + 0.48828125), f32_in(1, b + 0.01171875, b + 0.48828125));
        let (p, q) = ((2. * x - 1.).abs(), (2. * y - 1.).abs());
        assume(p < 0.9375 && q < 0.9375);
        assume(if param(1) / 4 == 0 { p > q + 0.015625 } else { q > p + 0.015625 });
        let c = area3(&j);
        reach(0);
        close(dot3(v, v), 1., 0.001, 1);
        let w = vec3(v[0], v[1], v[2]);
        if param(2) == 1 {
            check(w.z * wo.z > 0., 2);
            let p = lobe.pdf(wo, w);
            close(p * p * dot3(c, c), 1., 0.04, 3);
        } else {
            check(w.z > 0., 2);
            close(w.z * w.z * dot3(c, c), std::f32::consts::PI * std::f32::consts::PI, 0.04, 3);
        }
    }
    fn cos_apart() {
        // random numbers of different parts of the square never lead to the same direction; params: 0,1 quarters, 2,3 which half of the quarter
        let pt = |k: u32| {
            let (a, b) = [(1., -1.), (-1., 1.), (-1., -1.), (1., 1.)][param(k) as usize];
            let (r, t) = (f32_in(4 * k, 0.015625, 0.984375), f32_in(4 * k + 1, 0.015625, 0.984375));
            let (x, y) = if param(2 + k) == 0 { (r, r * t) } else { (r * t, r) };
            cosine_sample_hemisphere(Point2f { x: 0.5 + 0.5 * a * x, y: 0.5 + 0.5 * b * y })
        };
        let (a, b) = (pt(0), pt(1));
        reach(0);
        if param(0) != param(1) { check(a.x * b.x < 0. || a.y * b.y < 0., 1); } else { check((a.x * a.x - a.y * a.y) * (b.x * b.x - b.y * b.y) < 0., 2); }
    }
    fn mr_sample() {
        // microfacet reflection: sampling agrees with evaluation, and the density follows from that of the microfacet normal
        // params: 0,1 roughness, 2 side, 3 quarter, 4 azimuth of wo around the microfacet normal
        let d = distr(param(0), param(1));
        let b = MicrofacetReflectionBRDF::new(Spectrum::new(0.25, 0.5, 1.), d, FresnelNoOp::new());
        let smp = tsample(f32_in(0, 0.03125, 0.9375), param(0) as f32 / 16., quarter(1, param(3)));
        let wh = d.sample_wh(vec3(0., 0., if param(2) == 0 { 1. } else { -1. }), smp);
        let az = azimuth(param(4));
        let q = f32_in(2, 0.03125, 0.9375);
        let wo = around(wh, q, az.0, az.1);
        assume(if param(2) == 0 { wo.z > 0.0078125 } else { wo.z < -0.0078125 });
        let (wi, f, p) = b.sample_f(wo, smp);
        let want = vec3(2. * wo.dot(wh) * wh.x - wo.x, 2. * wo.dot(wh) * wh.y - wo.y, 2. * wo.dot(wh) * wh.z - wo.z);
        reach(0);
        if want.z * wo.z <= 0. { check(p == 0., 1); return }
        close3(va(wi), va(want), 0.001, 7);
        check(p >= 0., 1);
        check(wi.z * wo.z > 0., 2);
        close(p, b.pdf(wo, wi), 0.001, 3);
        close3(sa(f), sa(b.f(wo, wi)), 0.001, 4);
        close(p * 4. * wo.dot(wh), d.pdf(wo, wh), 0.001, 10);
    }
    fn mt_sample() {
        // microfacet transmission; params: 0,1 roughness, 2 side, 3 quarter, 4 azimuth of wo around the microfacet normal, 5,6 refractive indices in 16ths
        let d = distr(param(0), param(1));
        let (ea, eb) = (param(5) as f32 / 16., param(6) as f32 / 16.);
        let b = MicrofacetTransmissionBTDF::new(Spectrum::new(0.25, 0.5, 1.), ea, eb, d);
        let smp = tsample(f32_in(0, 0.03125, 0.9375), param(0) as f32 / 16., quarter(1, param(3)));
        let wh = d.sample_wh(vec3(0., 0., if param(2) == 0 { 1. } else { -1. }), smp);
        let az = azimuth(param(4));
        let q = f32_in(2, 0.03125, 0.9375);
        let wo = around(wh, q, az.0, az.1);
        assume(if param(2) == 0 { wo.z > 0.0078125 } else { wo.z < -0.0078125 });
        let (wi, f, p) = b.sample_f(wo, smp);
        let eta = if param(2) == 0 { ea / eb } else { eb / ea };
        let c = wo.dot(wh);
        let s2 = eta * eta * (1. - c * c);
        assume((s2 - 1.).abs() > 0.0009765625);
        reach(0);
        if s2 > 1. { check(p == 0., 1); return }
        let ct = (1. - s2).sqrt();
        let want = vec3(-wo.x * eta + wh.x * (c * eta - ct), -wo.y * eta + wh.y * (c * eta - ct), -wo.z * eta + wh.z * (c * eta - ct));
        assume((want.z * wo.z).abs() > 0.0009765625);
        check(p >= 0., 2);
        if want.z * wo.z > 0. { check(p == 0., 3); return }
        close3(va(wi), va(want), 0.001, 4);
        close(p, b.pdf(wo, wi), 0.001, 7);
        close3(sa(f), sa(b.f(wo, wi)), 0.001, 8);
        let den = c * eta - ct;
        close(p * den * den, ct * d.pdf(wo, wh), 0.001, 11);
    }
    fn visible() {
        // the visible fraction is the one of an ellipsoidal surface: the slope of a direction is scaled by the roughness along each axis; params: 0,1 roughness, 2,3 sides
        let (wo, wi) = (half(0, param(2)), half(1, param(3)));
        assume(wo.x * wo.x + wo.y * wo.y > 0.0009765625);
        assume(wi.x * wi.x + wi.y * wi.y > 0.0009765625);
        let d = distr(param(0), param(1));
        let (ax, ay) = (param(0) as f32 / 16., param(1) as f32 / 16.);
        reach(0);
        let (a, b, g) = (d.g1(wo), d.g1(wi), d.g(wo, wi));
        // 1 / g1 = (1 + sqrt(1 + slope^2)) / 2
        let r = 2. / a - 1.;
        check(r >= 1., 1);
        close(r * r * wo.z * wo.z, wo.z * wo.z + ax * ax * wo.x * wo.x + ay * ay * wo.y * wo.y, 0.001, 2);
        close(1. / g + 1., 1. / a + 1. / b, 0.001, 3);
    }
    fn mr_weight() {
        // each facet reflects what it receives: value times cosine over density; params: 0,1 roughness, 2 side
        let (wo, wi) = (half(0, param(2)), half(1, param(2)));
        assume(wo.x * wo.x + wo.y * wo.y > 0.0009765625);
        assume(wi.x * wi.x + wi.y * wi.y > 0.0009765625);
        assume((wo.x + wi.x) * (wo.x + wi.x) + (wo.y + wi.y) * (wo.y + wi.y) > 0.0009765625);
        let d = distr(param(0), param(1));
        let b = MicrofacetReflectionBRDF::new(Spectrum::new(0.25, 0.5, 1.), d, Fr);
        let wh = (wo + wi).normalize();
        reach(0);
        let (f, p) = (b.f(wo, wi), b.pdf(wo, wi));
        let c = wo.dot(wh);
        let k = p * d.g(wo, wi) * c;
        let l = wi.z.abs() * wo.z.abs() * wh.z.abs();
        // the reflectance of a facet is that of the side which is lit
        let r = Fr.evaluate(if param(2) == 0 { c } else { -c });
        close3([f.r * l, f.g * l, f.b * l], [0.25 * r.r * k, 0.5 * r.g * k, r.b * k], 0.001, 2);
    }
    fn mt_weight() {
        // each facet transmits what it does not reflect; parameters as for mt_sample
        let d = distr(param(0), param(1));
        let (ea, eb) = (param(5) as f32 / 16., param(6) as f32 / 16.);
        let b = MicrofacetTransmissionBTDF::new(Spectrum::new(0.25, 0.5, 1.), ea, eb, d);
        let smp = tsample(f32_in(0, 0.03125, 0.9375), param(0) as f32 / 16., quarter(1, param(3)));
        let wh = d.sample_wh(vec3(0., 0., if param(2) == 0 { 1. } else { -1. }), smp);
        let az = azimuth(param(4));
        let q = f32_in(2, 0.03125, 0.9375);
        let wo = around(wh, q, az.0, az.1);
        assume(if param(2) == 0 { wo.z > 0.0078125 } else { wo.z < -0.0078125 });
        let eta = if param(2) == 0 { ea / eb } else { eb / ea };
        let c = wo.dot(wh);
        let s2 = eta * eta * (1. - c * c);
        assume(s2 < 1. - 0.0009765625);
        let ct = (1. - s2).sqrt();
        assume((wh.z * (c * eta - ct) - wo.z * eta) * wo.z < -0.0009765625);
        let (wi, f, p) = b.sample_f(wo, smp);
        reach(0);
        // the Fresnel term itself is the subject of C18
        let h = (wo + wi * if param(2) == 0 { eb / ea } else { ea / eb }).normalize();
        // the facet lies between the two directions
        assume((wi.dot(h) < 0.) == (wo.dot(h) > 0.));
        let fr = FresnelDielectric::new(ea, eb).evaluate(wo.dot(if h.z < 0. { -h } else { h })).r;
        let k = p * d.g(wo, wi) * c * eta * eta * (1. - fr);
        let l = wi.z.abs() * wo.z.abs() * wh.z.abs();
        close3([f.r * l, f.g * l, f.b * l], [0.25 * k, 0.5 * k, k], 0.001, 2);
    }
    fn lambert_weight() {
        let wo = half(0, param(2));
        let r = spec(3, 0., 1.);
        let b = LambertianReflectionBRDF::new(r);
        let u = Point2f { x: f32_in(10, 0.015625, 0.984375), y: f32_in(11, 0.015625, 0.984375) };
        let (k, l) = (param(0), param(1));
        // sector of the square in which the point lies
        let (dx, dy) = (u.x - 0.5, u.y - 0.5);
        assume(if k == 0 { dx > 0.0078125 } else { dx < -0.0078125 });
        assume(if l == 0 { dy > 0.0078125 } else { dy < -0.0078125 });
        assume((dx.abs() - dy.abs()).abs() > 0.0078125);
        reach(0);
        let (wi, f, p) = b.sample_f(wo, u);
        check(p > 0., 1);
        let c = wi.z.abs();
        close3([f.r * c, f.g * c, f.b * c], [r.r * p, r.g * p, r.b * p], 0.001, 2);
    }
    fn back_facet() {
        // a microfacet seen from behind neither reflects nor transmits; parameters as above, 7: reflection (0), transmission (1)
        let d = distr(param(0), param(1));
        let smp = tsample(f32_in(0, 0.03125, 0.9375), param(0) as f32 / 16., quarter(1, param(3)));
        let wh = d.sample_wh(vec3(0., 0., if param(2) == 0 { 1. } else { -1. }), smp);
        let az = azimuth(param(4));
        let q = f32_in(2, 1.0625, 4.);
        let wo = around(wh, q, az.0, az.1);
        assume(if param(2) == 0 { wo.z > 0.0078125 } else { wo.z < -0.0078125 });
        reach(0);
        if param(7) == 0 {
            let b = MicrofacetReflectionBRDF::new(Spectrum::new(0.25, 0.5, 1.), d, FresnelNoOp::new());
            check(b.sample_f(wo, smp).2 == 0., 1);
        } else {
            let b = MicrofacetTransmissionBTDF::new(Spectrum::new(0.25, 0.5, 1.), param(5) as f32 / 16., param(6) as f32 / 16., d);
            check(b.sample_f(wo, smp).2 == 0., 2);
        }
    }
    fn reflect_area() {
        // the map from microfacet normals to reflected directions stretches areas by 4 |wo . wh|; params: 0 side of wo, 1 quarter
        let (a, b) = (f32_in(2, 0., 0.9375), param(2) as f32 / 4.);
        let n = 1. + a * a;
        let m = 1. + b * b;
        let s = if param(0) == 0 { 1. } else { -1. };
        let wo = vec3(2. * a / n * (1. - b * b) / m, 2. * a / n * 2. * b / m, s * (1. - a * a) / n);
        let h = || {
            let v = f32_in(0, 0.03125, 0.9375);
            let w = f32_in(1, -0.9375, 0.9375);
            let (st, ct, k) = (2. * v / (1. + v * v), (1. - v * v) / (1. + v * v), 1. + w * w);
            vec3(s * st * (1. - w * w) / k, s * st * 2. * w / k, s * ct)
        };
        let (w, jh) = jac([0, 1], || va(h()));
        let (_, ji) = jac([0, 1], || va(reflect(wo, h())));
        let (ch, ci) = (area3(&jh), area3(&ji));
        reach(0);
        let c = 4. * (wo.x * w[0] + wo.y * w[1] + wo.z * w[2]);
        let wi = reflect(wo, h());
        // the area vector of reflected directions
        close3(ci, [c * (ch[0] * w[0] + ch[1] * w[1] + ch[2] * w[2]) * wi.x, c * (ch[0] * w[0] + ch[1] * w[1] + ch[2] * w[2]) * wi.y, c * (ch[0] * w[0] + ch[1] * w[1] + ch[2] * w[2]) * wi.z], 0.02, 1);
    }
    fn refract_area() {
        // the map from microfacet normals to refracted directions shrinks areas by cos_t / (eta cos_i - cos_t)^2
        // params: 0 side of wo, 1, 2 direction of wo in quarters, 5,6 refractive indices
        let (a, b) = (param(1) as f32 / 4., param(2) as f32 / 4.);
        let n = 1. + a * a;
        let m = 1. + b * b;
        let s = if param(0) == 0 { 1. } else { -1. };
        let wo = vec3(2. * a / n * (1. - b * b) / m, 2. * a / n * 2. * b / m, s * (1. - a * a) / n);
        let eta = param(5) as f32 / param(6) as f32;
        let h = || {
            let v = f32_in(0, 0.03125, 0.9375);
            let w = f32_in(1, -0.9375, 0.9375);
            let (st, ct, k) = (2. * v / (1. + v * v), (1. - v * v) / (1. + v * v), 1. + w * w);
            vec3(s * st * (1. - w * w) / k, s * st * 2. * w / k, s * ct)
        };
        let w = h();
        let c = wo.dot(w);
        assume(c > 0.0078125);
        let s2 = eta * eta * (1. - c * c);
        assume(s2 < 0.9921875);
        let f = || match refract(wo, h(), eta) { Some(w) => va(w), None => [0., 0., 0.] };
        let (_, jh) = jac([0, 1], || va(h()));
        let (wi, ji) = jac([0, 1], || f());
        let (ch, ci) = (area3(&jh), area3(&ji));
        let ct = (1. - s2).sqrt();
        let den = c * eta - ct;
        reach(0);
        let x = dot3(ci, wi) * ct;
        let y = dot3(ch, va(w)) * den * den;
        close(x, -y, 0.02, 1);
    }
}
