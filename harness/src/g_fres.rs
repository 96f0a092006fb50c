use crate::sx::*;
use crate::kit::*;
use pt::api::*;
use pt::verif::bxdf_microfacet_reflection::MicrofacetReflectionBRDF;
use pt::verif::bxdf_specular_reflection::SpecularReflectionBRDF;
use pt::verif::bxdf_specular_transmission::SpecularTransmissionBTDF;
use pt::verif::fresnel::*;
use pt::verif::microfacet::MicrofacetDistribution;
use pt::verif::reflection::*;
use pt::verif::vector::*;

/// two refractive indices: either free, or in sixteenths from the parameters a, b
fn indices(a: i64, b: i64) -> (f32, f32) {
    if a == 0 { (f32_in(8, 0.25, 4.), f32_in(9, 0.25, 4.)) } else { (a as f32 / 16., b as f32 / 16.) }
}
/// a positive scripted Fresnel term
pub struct Fr;
impl Fresnel for Fr { fn evaluate(&self, c: f32) -> Spectrum { Spectrum::new(2. + c, 3. - c, 4. + 2. * c) } }

harnesses! {
    fn diel_range() {
        // params: 0 sign of the cosine (2: any, also outside [-1, 1]), 5,6 indices
        let (a, b) = indices(param(5), param(6));
        let c = if param(0) == 2 { f32_in(0, -2., 2.) } else { f32_in(0, 0., 1.) * if param(0) == 0 { 1. } else { -1. } };
        let r = FresnelDielectric::new(a, b).evaluate(c);
        reach(0);
        check(r.r >= 0. && r.r <= 1., 1);
        check(r.r == r.g && r.g == r.b, 2);
    }
    fn diel_path() {
        // angles and indices of a refracted path: sine and cosine on either side are given by rational numbers
        let s = f32_in(0, 0., 0.9375);
        let (sa, ca) = (2. * s / (1. + s * s), (1. - s * s) / (1. + s * s));
        let t = f32_in(1, 0.0078125, 0.9375);
        let (sb, cb) = (2. * t / (1. + t * t), (1. - t * t) / (1. + t * t));
        let a = f32_in(2, 0.25, 4.);
        // a sa = b sb
        let b = a * sa / sb;
        assume(b >= 0.25 && b <= 4.);
        let r = FresnelDielectric::new(a, b).evaluate(ca).r;
        let q = FresnelDielectric::new(a, b).evaluate(-cb).r;
        let w = FresnelDielectric::new(b, a).evaluate(cb).r;
        reach(0);
        close(r, q, 0.001, 1);
        close(q, w, 0.001, 2);
        // closed formula
        let p = (b * ca - a * cb) / (b * ca + a * cb);
        let o = (a * ca - b * cb) / (a * ca + b * cb);
        close(r, 0.5 * (p * p + o * o), 0.001, 3);
    }
    fn diel_total() {
        // beyond the critical angle everything is reflected, from either side; params: 0 side
        let (a, b) = indices(0, 0);
        let c = f32_in(0, 0., 1.);
        let s2 = 1. - c * c;
        reach(0);
        if param(0) == 0 {
            assume(s2 * a * a > b * b * 1.0009765625);
            close(FresnelDielectric::new(a, b).evaluate(c).r, 1., 0.0001, 1);
        } else {
            assume(s2 * b * b > a * a * 1.0009765625);
            assume(c > 0.0009765625);
            close(FresnelDielectric::new(a, b).evaluate(-c).r, 1., 0.0001, 2);
        }
    }
    fn diel_normal() {
        let (a, b) = indices(0, 0);
        let w = (a - b) * (a - b) / ((a + b) * (a + b));
        reach(0);
        close(FresnelDielectric::new(a, b).evaluate(1.).r, w, 0.0001, 1);
        close(FresnelDielectric::new(a, b).evaluate(-1.).g, w, 0.0001, 2);
        check(FresnelNoOp::new().evaluate(f32_in(0, -1., 1.)).g == 1., 3);
    }
    fn cond_range() {
        // conductors; params: 0 channel, 1 sign
        let eta = f32_in(1, 0.0625, 8.);
        let k = f32_in(2, 0.0625, 8.);
        let ca = f32_in(0, 0., 1.);
        let c = ca * if param(1) == 0 { 1. } else { -1. };
        let pad = |v: f32, o: f32| match param(0) { 0 => Spectrum::new(v, o, o), 1 => Spectrum::new(o, v, o), _ => Spectrum::new(o, o, v) };
        let r = FresnelConductor::new(Spectrum::from(1.), pad(eta, 2.), pad(k, 3.)).evaluate(c);
        let v = match param(0) { 0 => r.r, 1 => r.g, _ => r.b };
        reach(0);
        // the reflectances of the two polarisations, written so that their range can be read off
        let s2 = 1. - ca * ca;
        let t0 = eta * eta - k * k - s2;
        let m = (t0 * t0 + eta * eta * (k * k) * 4.).sqrt();
        let a = ((m + t0) * 0.5).sqrt();
        let b2 = (m - t0) * 0.5;
        let p = ((a - ca) * (a - ca) + b2) / ((a + ca) * (a + ca) + b2);
        let q = ((a * ca - s2) * (a * ca - s2) + ca * ca * b2) / ((a * ca + s2) * (a * ca + s2) + ca * ca * b2);
        check(p >= 0. && p <= 1., 1);
        check(q >= 0. && q <= 1., 2);
        close(v, (p * q + p) * 0.5, 0.0001, 3);
    }
    fn cond_normal() {
        // params: 0 channel
        let (ei, eta, k) = (f32_in(0, 0.5, 4.), f32_in(1, 0.0625, 8.), f32_in(2, 0., 8.));
        let pad = |v: f32, o: f32| match param(0) { 0 => Spectrum::new(v, o, o), 1 => Spectrum::new(o, v, o), _ => Spectrum::new(o, o, v) };
        let f = FresnelConductor::new(pad(ei, 1.), pad(eta, 2.), pad(k, 3.));
        let r = f.evaluate(1.);
        let q = f.evaluate(-1.);
        let (v, u) = match param(0) { 0 => (r.r, q.r), 1 => (r.g, q.g), _ => (r.b, q.b) };
        reach(0);
        close(v, ((eta - ei) * (eta - ei) + k * k) / ((eta + ei) * (eta + ei) + k * k), 0.0001, 1);
        close(v, u, 0.0001, 2);
    }
    fn cond_grazing() {
        // at grazing incidence everything is reflected
        let (eta, k) = (f32_in(1, 0.0625, 8.), f32_in(2, 0.0625, 8.));
        let r = FresnelConductor::new(Spectrum::from(1.), Spectrum::from(eta), Spectrum::from(k)).evaluate(0.);
        reach(0);
        close(r.g, 1., 0.0001, 1);
    }
    fn micro_side() {
        // the reflectance used by a microfacet is the one for the side the light comes from; params: 0 side, 1 case, 5,6 indices
        let d = MicrofacetDistribution::new(0.5, 0.5);
        let (a, b) = indices(param(5), param(6));
        let (x, y) = (f32_in(0, 0.03125, 0.9375), f32_in(1, -0.9375, 0.9375));
        let (n, m) = (1. + x * x, 1. + y * y);
        let s = if param(0) == 0 { 1. } else { -1. };
        let wo = vec3(2. * x / n * (1. - y * y) / m, 2. * x / n * 2. * y / m, s * (1. - x * x) / n);
        let wi = if param(1) == 0 { vec3(-wo.x, -wo.y, wo.z) } else { wo };
        let c = if param(1) == 0 { wo.z.abs() } else { 1. };
        let fr = FresnelDielectric::new(a, b);
        let want = fr.evaluate(s * c);
        let f = MicrofacetReflectionBRDF::new(Spectrum::new(0.25, 0.5, 1.), d, fr).f(wo, wi);
        let g = MicrofacetReflectionBRDF::new(Spectrum::new(0.25, 0.5, 1.), d, FresnelNoOp::new()).f(wo, wi);
        reach(0);
        close(f.r, g.r * want.r, 0.001, 1);
        close(f.b, g.b * want.b, 0.001, 2);
    }
    fn reflect_law() {
        let (w, n) = (unit(0), unit(1));
        let r = reflect(w, n);
        reach(0);
        close(dot3(va(r), va(r)), 1., 0.001, 1);
        close(r.dot(n), w.dot(n), 0.001, 2);
        // in the plane of incidence, on the other side of the normal
        let k = 2. * w.dot(n);
        close3(va(r + w), [n.x * k, n.y * k, n.z * k], 0.001, 3);
    }
    fn refract_law() {
        // params: 0 half of the azimuths
        let n = unit(1);
        assume(n.x * n.x + n.y * n.y > 0.0009765625);
        let (q, y) = (f32_in(1, 0., 0.9375), f32_in(2, -1., 1.));
        let k = if param(0) == 0 { 1. } else { -1. };
        let w = around(n, q, k * (1. - y * y) / (1. + y * y), 2. * y / (1. + y * y));
        let eta = f32_in(0, 0.25, 4.);
        let c = (1. - q * q) / (1. + q * q);
        let s2 = eta * eta * (1. - c * c);
        assume((s2 - 1.).abs() > 0.0001220703125);
        reach(0);
        match refract(w, n, eta) {
            None => check(s2 > 1., 1),
            Some(t) => {
                check(s2 < 1., 2);
                close(dot3(va(t), va(t)), 1., 0.001, 3);
                let ct = t.dot(n);
                check(ct < 0., 4);
                close(ct * ct, 1. - s2, 0.001, 5);
                // tangential parts are in the ratio of the indices
                close3([t.x - ct * n.x, t.y - ct * n.y, t.z - ct * n.z], [-eta * (w.x - c * n.x), -eta * (w.y - c * n.y), -eta * (w.z - c * n.z)], 0.001, 6);
            }
        }
    }
    fn mirror_lobe() {
        // params: 0 side
        let wo = unit(0);
        assume(if param(0) == 0 { wo.z > 0.0078125 } else { wo.z < -0.0078125 });
        let k = spec(0, 0., 1.);
        let b = SpecularReflectionBRDF::new(k, Fr);
        let (wi, f, p) = b.sample_f(wo, Point2f { x: f32_in(4, 0., 0.9375), y: f32_in(5, 0., 0.9375) });
        reach(0);
        close3(va(wi), [-wo.x, -wo.y, wo.z], 0.0001, 1);
        check(p == 1., 4);
        let c = wo.z.abs();
        let z = wo.z;
        close3([f.r * c, f.g * c, f.b * c], [k.r * (2. + z), k.g * (3. - z), k.b * (4. + 2. * z)], 0.001, 5);
        check(b.pdf(wo, wi) == 0. && b.f(wo, wi).r == 0., 8);
    }
    fn glass_lobe() {
        // params: 0 side, 1 quadrant, 5,6 indices (0: any)
        let x = f32_in(6, 0., 0.9375);
        let y = f32_in(7, -1., 1.);
        let (n, m) = (1. + x * x, 1. + y * y);
        let s = if param(0) == 0 { 1. } else { -1. };
        let wo = vec3(2. * x / n * (1. - y * y) / m, 2. * x / n * 2. * y / m, s * (1. - x * x) / n);
        let (a, b) = indices(param(5), param(6));
        let k = spec(0, 0., 1.);
        let l = SpecularTransmissionBTDF::new(k, a, b);
        let (wi, f, p) = l.sample_f(wo, Point2f { x: f32_in(4, 0., 0.9375), y: f32_in(5, 0., 0.9375) });
        let (ei, et) = if param(0) == 0 { (a, b) } else { (b, a) };
        let s2 = ei * ei / (et * et) * (1. - wo.z * wo.z);
        assume((s2 - 1.).abs() > 0.0009765625);
        reach(0);
        if s2 > 1. { check(p == 0., 1); return }
        check(p == 1., 2);
        close3([wi.x * et, wi.y * et, wi.z * wi.z], [-wo.x * ei, -wo.y * ei, 1. - s2], 0.001, 3);
        check(wi.z * s < 0., 6);
        let r = FresnelDielectric::new(a, b).evaluate(wo.z);
        let c = wi.z.abs() * et * et / (ei * ei);
        close3([f.r * c, f.g * c, f.b * c], [k.r * (1. - r.r), k.g * (1. - r.g), k.b * (1. - r.b)], 0.001, 7);
        check(l.pdf(wo, wi) == 0. && l.f(wo, wi).g == 0., 10);
    }
}
