use crate::sx::*;
use crate::kit::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bxdf_lambertian_reflection::LambertianReflectionBRDF;
use pt::verif::bxdf_microfacet_reflection::MicrofacetReflectionBRDF;
use pt::verif::bxdf_microfacet_transmission::MicrofacetTransmissionBTDF;
use pt::verif::bxdf_specular_reflection::SpecularReflectionBRDF;
use pt::verif::bxdf_specular_transmission::SpecularTransmissionBTDF;
use pt::verif::fresnel::*;
use pt::verif::interaction::Interaction;
use pt::verif::microfacet::MicrofacetDistribution;
use pt::verif::reflection::*;
use pt::verif::texture::*;
use pt::verif::vector::*;

/// a mapping that gives free coordinates (also huge ones)
struct Map2(f32, f32);
impl TextureMapping2D for Map2 { fn map(&self, _: &Interaction) -> Point2f { Point2f { x: self.0, y: self.1 } } }
struct Map3(f32, f32, f32);
impl TextureMapping3D for Map3 { fn map(&self, _: &Interaction) -> Point3f { pt3(self.0, self.1, self.2) } }

/// a coordinate and the parity of its cell; kind 0 any, 1 exactly on a boundary, 2 from the largest whole number just below a boundary
fn coord(id: u32, kind: i64) -> (f32, bool) {
    let h = i64_in(id, -512, 511);
    let odd = bool_in(id + 10);
    let c = (2 * h + odd as i64) as f32;
    let f = match kind { 1 => 0., _ => f32_in(id, 0., 1.) };
    assume(f < 1.);
    if kind == 2 { assume(f > 0.9990234375); }
    (c + f, odd)
}
/// any f32, huge ones included
fn anyf(id: u32, k: i64) -> f32 {
    match k { 0 => f32_in(id, -3e38, 3e38), 1 => std::f32::INFINITY, 2 => std::f32::NEG_INFINITY, 3 => std::f32::NAN, 4 => 1e30, 5 => -1e30, _ => f32_in(id, -1024., 1024.) }
}
fn at_uv(u: f32, v: f32) -> Interaction { Interaction { uv: Point2f { x: u, y: v }, ..Default::default() } }
fn same(a: Spectrum, b: Spectrum) -> bool { (a.r == b.r) & (a.g == b.g) & (a.b == b.b) }

type Tf = Arc<dyn Texture<Output = f32>>;
type Ts = Arc<dyn Texture<Output = Spectrum>>;
fn tf(v: f32) -> Tf { Arc::new(ConstantTexture::new(v)) }
fn ts(v: Spectrum) -> Ts { Arc::new(ConstantTexture::new(v)) }
/// a value that depends on the place, so that a material that asks at another place is seen
struct Here(Spectrum);
impl Texture for Here { type Output = Spectrum; fn evaluate(&self, i: &Interaction) -> Spectrum { self.0 * (1. + i.uv.x) } }
struct HereF(f32);
impl Texture for HereF { type Output = f32; fn evaluate(&self, i: &Interaction) -> f32 { self.0 * (1. + i.uv.x) } }

fn dirn(k: i64) -> Vector3f {
    let t = [(2f32, 1f32, 3f32), (-1., 2., 2.), (3., -2., 6.), (-2., -3., 1.), (1., 4., 8.), (4., 4., 7.)];
    let (x, y, z) = t[(k % 8) as usize];
    let l = (x * x + y * y + z * z).sqrt();
    let s = if k >= 8 { -1. } else { 1. };
    vec3(x / l, y / l, s * z / l)
}
fn hit() -> Interaction {
    Interaction { p: pt3(0.25, 0.5, 0.75), n: nrm(0., 0., 1.), sn: nrm(0., 0., 1.), dpdu: vec3(0.5, 0., 0.), uv: Point2f { x: 0.5, y: 0.25 }, wo: dirn(param(4)), ..Default::default() }
}
/// colour: sign pattern k in base 3 (0: negative, 1: zero, 2: positive); the colour and what it acts as
fn colour(id: u32, k: i64) -> (Spectrum, Spectrum) {
    let (mut c, mut w) = (Spectrum::default(), Spectrum::default());
    let mut k = k;
    for j in 0..3 {
        match k % 3 {
            0 => { c[j] = f32_in(id + j as u32, -4., -0.0078125); }
            1 => {}
            _ => { let v = f32_in(id + j as u32, 0.0078125, 4.); c[j] = v; w[j] = v * 1.5; }
        }
        k /= 3;
    }
    (c, w)
}
fn has_colour(k: i64) -> bool { k % 3 == 2 || k / 3 % 3 == 2 || k / 9 == 2 }

/// what a material is expected to offer, in order
enum Lobe { Diffuse(Spectrum), Mirror(Spectrum, f32, f32), Metal(Spectrum, Spectrum, Spectrum), NoOp(Spectrum), Refract(Spectrum, f32), Rough(Spectrum, f32, f32, f32, f32), RoughMetal(Spectrum, Spectrum, Spectrum, f32, f32), RoughRefract(Spectrum, f32, f32, f32) }
fn add(b: &mut BSDF, l: &Lobe) {
    match *l {
        Lobe::Diffuse(c) => b.add(LambertianReflectionBRDF::new(c)),
        Lobe::Mirror(c, x, y) => b.add(SpecularReflectionBRDF::new(c, FresnelDielectric::new(x, y))),
        Lobe::Metal(c, e, k) => b.add(SpecularReflectionBRDF::new(c, FresnelConductor::new(Spectrum::from(1.), e, k))),
        Lobe::NoOp(c) => b.add(SpecularReflectionBRDF::new(c, FresnelNoOp::new())),
        Lobe::Refract(c, e) => b.add(SpecularTransmissionBTDF::new(c, 1., e)),
        Lobe::Rough(c, x, y, u, v) => b.add(MicrofacetReflectionBRDF::new(c, MicrofacetDistribution::new(u, v), FresnelDielectric::new(x, y))),
        Lobe::RoughMetal(c, e, k, u, v) => b.add(MicrofacetReflectionBRDF::new(c, MicrofacetDistribution::new(u, v), FresnelConductor::new(Spectrum::from(1.), e, k))),
        Lobe::RoughRefract(c, e, u, v) => b.add(MicrofacetTransmissionBTDF::new(c, 1., e, MicrofacetDistribution::new(u, v))),
    }
}
fn alike(x: &(Vector3f, Spectrum, f32, BxDFFlag), y: &(Vector3f, Spectrum, f32, BxDFFlag)) -> bool {
    (x.0.x == y.0.x) & (x.0.y == y.0.y) & (x.0.z == y.0.z) & same(x.1, y.1) & (x.2 == y.2) & (x.3 == y.3)
}
/// the material offers exactly these lobes (their order does not matter), seen from direction p4 and lit from p5
fn offers(m: &dyn Material, lobes: &[Lobe]) {
    let i = hit();
    let (wo, wi) = (dirn(param(4)), dirn(param(5)));
    let b = m.compute_scattering(&i);
    let n = lobes.len();
    let mut x = BSDF::new(&i);
    let mut y = BSDF::new(&i);
    for k in 0..n { add(&mut x, &lobes[k]); add(&mut y, &lobes[n - 1 - k]); }
    reach(0);
    let f = b.f(wo, wi);
    if n == 0 {
        check(same(f, Spectrum::default()), 1);
        check(b.pdf(wo, wi) == 0., 2);
        let s = b.sample_f(wo, Point2f { x: 0.25, y: 0.75 });
        check((s.2 == 0.) & same(s.1, Spectrum::default()), 3);
        return;
    }
    check(same(f, x.f(wo, wi)), 4);
    check(b.pdf(wo, wi) == x.pdf(wo, wi), 5);
    if param(6) == 1 { return }
    let (mut p, mut q) = (true, true);
    for u in &[(0.125f32, 0.375f32), (0.8125, 0.1875)] {
        let u = Point2f { x: u.0, y: u.1 };
        let s = b.sample_f(wo, u);
        p &= alike(&s, &x.sample_f(wo, u));
        q &= alike(&s, &y.sample_f(wo, u));
    }
    check(p | q, 6);
}
/// roughness k in sixteenths is given as k/24 by a texture that multiplies it with 3/2 at the hit
fn rough(id: u32, k: i64) -> (Tf, f32) {
    if k == 0 { return (Arc::new(HereF(0.)), 0.) }
    let v = if k < 0 { f32_in(id, 1e-6, 1.) } else { k as f32 / 16. };
    (Arc::new(HereF(v)), v * 1.5)
}

harnesses! {
    fn constant() {
        let (c, f) = (spec(0, -8., 8.), f32_in(3, -1e30, 1e30));
        let i = Interaction { p: p3(4, -64., 64.), uv: Point2f { x: f32_in(7, -64., 64.), y: f32_in(8, -64., 64.) }, ..Default::default() };
        reach(0);
        check(same(ts(c).evaluate(&i), c), 1);
        check(tf(f).evaluate(&i) == f, 2);
    }
    fn checker2() {
        // params: 0,1 kind of the coordinates
        let ((x, a), (y, b)) = (coord(0, param(0)), coord(1, param(1)));
        let (c, d) = (f32_in(20, -8., 8.), f32_in(21, -8., 8.));
        let t = CheckerboardTexture::new(Map2(x, y), c, d);
        reach(0);
        check(t.evaluate(&Interaction::default()) == if a == b { c } else { d }, 1);
    }
    fn checker3() {
        let ((x, a), (y, b), (z, e)) = (coord(0, param(0)), coord(1, param(1)), coord(2, param(2)));
        let (c, d) = (f32_in(20, -8., 8.), f32_in(21, -8., 8.));
        let t = Checkerboard3DTexture::new(Map3(x, y, z), c, d);
        reach(0);
        check(t.evaluate(&Interaction::default()) == if a ^ b ^ e { d } else { c }, 1);
    }
    fn checker_any() {
        // huge, infinite and undefined coordinates give one of the two values and never crash; params: 0,1,2 kinds, 3 dimensions
        let (c, d) = (f32_in(20, -8., -1.), f32_in(21, 1., 8.));
        let (x, y) = (anyf(0, param(0)), anyf(1, param(1)));
        let i = Interaction::default();
        let v = if param(3) == 2 { CheckerboardTexture::new(Map2(x, y), c, d).evaluate(&i) } else { Checkerboard3DTexture::new(Map3(x, y, anyf(2, param(2))), c, d).evaluate(&i) };
        reach(0);
        check((v == c) | (v == d), 1);
    }
    fn uv_map() {
        let (u, v) = (f32_in(0, -64., 64.), f32_in(1, -64., 64.));
        let (su, sv, du, dv) = (f32_in(2, -64., 64.), f32_in(3, -64., 64.), f32_in(4, -64., 64.), f32_in(5, -64., 64.));
        let p = UVMapping2D::new(su, sv, du, dv).map(&at_uv(u, v));
        reach(0);
        close(p.x, su * u + du, 1e-5, 1);
        close(p.y, sv * v + dv, 1e-5, 2);
    }
    fn id_map() {
        // params: 0 kind of transformation
        let p = p3(20, -8., 8.);
        let (t, w) = match param(0) {
            0 => { let o = v3(0, -8., 8.); (Transform::translate(o.x, o.y, o.z), [p.x + o.x, p.y + o.y, p.z + o.z]) }
            1 => { let s = v3(0, 0.125, 8.); (Transform::scale(s.x, s.y, s.z), [p.x * s.x, p.y * s.y, p.z * s.z]) }
            _ => {
                let mut m = [[0f32; 4]; 4];
                m[3][3] = 1.;
                for i in 0..3 { for j in 0..4 { m[i][j] = f32_in((4 * i + j) as u32, -2., 2.); } }
                let d = dot3([m[0][0], m[0][1], m[0][2]], cross3([m[1][0], m[1][1], m[1][2]], [m[2][0], m[2][1], m[2][2]]));
                assume(d > 0.5 || d < -0.5);
                let r = |i: usize| m[i][0] * p.x + m[i][1] * p.y + m[i][2] * p.z + m[i][3];
                let w = [r(0), r(1), r(2)];
                (Transform::from(m), w)
            }
        };
        let i = Interaction { p, uv: Point2f { x: 0.5, y: 0.5 }, ..Default::default() };
        let q = IdentityMapping3D::new(t).map(&i);
        reach(0);
        close3(pa(q), w, 1e-4, 1);
    }
    fn checker_uv() {
        // the mapped checkerboard as a whole: uv scaled by p0, p1 halves and moved by p2, p3 quarters
        let ((x, a), (y, b)) = (coord(0, param(4)), coord(1, param(5)));
        let (su, sv, du, dv) = (param(0) as f32 * 0.5, param(1) as f32 * 0.5, param(2) as f32 * 0.25, param(3) as f32 * 0.25);
        let (c, d) = (f32_in(20, -8., 8.), f32_in(21, -8., 8.));
        let t = CheckerboardTexture::new(UVMapping2D::new(su, sv, du, dv), c, d);
        reach(0);
        check(t.evaluate(&at_uv((x - du) / su, (y - dv) / sv)) == if a == b { c } else { d }, 1);
    }
    fn checker_at() {
        // the solid checkerboard as a whole, in a space that is scaled by p0 halves and moved
        let ((x, a), (y, b), (z, e)) = (coord(0, param(4)), coord(1, param(4)), coord(2, param(4)));
        let (c, d) = (f32_in(20, -8., 8.), f32_in(21, -8., 8.));
        let s = param(0) as f32 * 0.5;
        let m = [[s, 0., 0., 1.], [0., 2., 0., -3.], [0., 0., 1., 0.5], [0., 0., 0., 1.]];
        let t = Checkerboard3DTexture::new(IdentityMapping3D::new(Transform::from(m)), c, d);
        reach(0);
        let i = Interaction { p: pt3((x - 1.) / s, (y + 3.) / 2., z - 0.5), ..Default::default() };
        check(t.evaluate(&i) == if a ^ b ^ e { d } else { c }, 1);
    }
    fn lambert() {
        // params of the materials: 0,1 colours, 2,3 roughness, 4,5 directions
        let (c, w) = colour(0, param(0));
        let m = LambertianReflectionMaterial::new(Arc::new(Here(c)));
        offers(&m, &if has_colour(param(0)) { vec![Lobe::Diffuse(w)] } else { vec![] });
    }
    fn mirror() {
        let (c, w) = colour(0, param(0));
        let m = MirrorMaterial::new(Arc::new(Here(c)));
        offers(&m, &if has_colour(param(0)) { vec![Lobe::NoOp(w)] } else { vec![] });
    }
    fn metal() {
        let (c, w) = colour(0, param(0));
        let (e, k) = (spec(10, 0.125, 4.), spec(13, 0.125, 4.));
        let ((a, u), (b, v)) = (rough(20, param(2)), rough(21, param(3)));
        let m = MetalMaterial::new(Arc::new(Here(c)), Arc::new(Here(e)), Arc::new(Here(k)), a, b);
        let (e, k) = (e * 1.5, k * 1.5);
        if has_colour(param(0)) {
            offers(&m, &[if param(2) == 0 && param(3) == 0 { Lobe::Metal(w, e, k) } else { Lobe::RoughMetal(w, e, k, u, v) }]);
        } else {
            // nothing, or a lobe that scatters nothing
            let i = hit();
            let s = m.compute_scattering(&i);
            reach(0);
            check(same(s.f(dirn(param(4)), dirn(param(5))), Spectrum::default()), 1);
            if param(6) == 1 { return }
            let s = s.sample_f(dirn(param(4)), Point2f { x: 0.125, y: 0.375 });
            check((s.2 == 0.) | same(s.1, Spectrum::default()), 2);
        }
    }
    fn glass() {
        let ((c, w), (d, z)) = (colour(0, param(0)), colour(3, param(1)));
        let e = if param(7) == 0 { f32_in(10, 0.25, 2.) } else { param(7) as f32 / 16. };
        let ((a, u), (b, v)) = (rough(20, param(2)), rough(21, param(3)));
        let m = GlassMaterial::new(Arc::new(Here(c)), Arc::new(Here(d)), Arc::new(HereF(e)), a, b);
        let e = e * 1.5;
        let smooth = param(2) == 0 && param(3) == 0;
        let mut l = vec![];
        if has_colour(param(0)) { l.push(if smooth { Lobe::Mirror(w, 1., e) } else { Lobe::Rough(w, 1., e, u, v) }) }
        if has_colour(param(1)) { l.push(if smooth { Lobe::Refract(z, e) } else { Lobe::RoughRefract(z, e, u, v) }) }
        offers(&m, &l);
    }
    fn plastic() {
        let ((c, w), (d, z)) = (colour(0, param(0)), colour(3, param(1)));
        let (a, u) = rough(20, param(2));
        let m = PlasticMaterial::new(Arc::new(Here(c)), Arc::new(Here(d)), a);
        let mut l = vec![];
        if has_colour(param(0)) { l.push(Lobe::Diffuse(w)) }
        if has_colour(param(1)) { l.push(if param(2) == 0 { Lobe::Mirror(z, 1.5, 1.) } else { Lobe::Rough(z, 1.5, 1., u, u) }) }
        offers(&m, &l);
    }
    fn one_smooth() {
        // smooth along one direction only: every value stays a number; params: 0 material, 2,3 roughness
        let c = spec(0, 0.125, 1.);
        let ((a, _), (b, _)) = (rough(20, param(2)), rough(21, param(3)));
        let i = hit();
        let (wo, wi) = (dirn(param(4)), dirn(param(5)));
        let s = if param(0) == 0 { MetalMaterial::new(ts(c), ts(Spectrum::from(1.5)), ts(Spectrum::from(0.5)), a, b).compute_scattering(&i) }
            else { GlassMaterial::new(ts(c), ts(c), tf(1.5), a, b).compute_scattering(&i) };
        reach(0);
        let (f, p) = (s.f(wo, wi), s.pdf(wo, wi));
        check(f.r.is_finite() && f.g.is_finite() && f.b.is_finite(), 1);
        check(p.is_finite() && p >= 0., 2);
        for u in &[(0.125f32, 0.375f32), (0.8125, 0.1875)] {
            let (w, f, p, _) = s.sample_f(wo, Point2f { x: u.0, y: u.1 });
            check(w.x.is_finite() && w.y.is_finite() && w.z.is_finite(), 3);
            check(f.r.is_finite() && f.g.is_finite() && f.b.is_finite(), 4);
            check(p.is_finite() && p >= 0., 5);
        }
    }
}
