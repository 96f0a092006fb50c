use crate::sx::*;
use crate::kit::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::container::Container;
use pt::verif::interaction::Interaction;
use pt::verif::light::*;
use pt::verif::ray::Ray;
use pt::verif::scene::{Builder, Scene};
use pt::verif::shape::Shape;
use pt::verif::vector::*;

/// a container that keeps the last shadow ray (origin, direction, t_max) and answers as it likes
static mut SHADOW: ([f32; 3], [f32; 3], f32) = ([0.; 3], [0.; 3], 0.);
struct Trap;
impl Container for Trap {
    fn bbox(&self) -> BBox3f { BBox3f { min: pt3(0., 0., 0.), max: pt3(0., 0., 0.) } }
    fn intersect_p(&self, r: &Ray) -> bool { unsafe { SHADOW = (pa(r.origin), va(r.direction), r.t_max) }; bool_in(90) }
    fn intersect(&self, _r: &Ray) -> Option<Interaction> { None }
}
fn scene() -> Scene<Trap> { let mut b = Builder::new(); b.add_shape(Sphere::new(pt3(0., 0., 0.), 1., no_material())); b.construct(|_| Trap) }
fn shadow() -> ([f32; 3], [f32; 3], f32) { unsafe { SHADOW } }

/// triangles (concrete); 4 and more: with vertex normals, that turn the normal around for odd ones
fn triangle(k: i64, reverse: bool) -> (Triangle, [Point3f; 3], [f32; 3]) {
    let t = [
        [pt3(0., 0., 0.), pt3(3., 0., 0.), pt3(0., 4., 0.)],
        [pt3(1., 0., 0.), pt3(0., 2., 0.5), pt3(0., 0., 2.)],
        [pt3(-1., 0.5, 2.), pt3(2., 0., 1.), pt3(0.5, 3., -1.)],
        [pt3(0., 0., 1.), pt3(0., -2., 0.), pt3(1., 1., 0.)],
    ][(k % 4) as usize];
    let n = cross3(sub3(pa(t[1]), pa(t[0])), sub3(pa(t[2]), pa(t[0])));
    let s = if k % 2 == 1 { -1. } else { 1. };
    let tilt = |a: f32, b: f32| nrm(s * n[0] + a, s * n[1] + b, s * n[2] - a);
    let vn = if k >= 4 { Some([tilt(0.25, 0.), tilt(0., 0.5), tilt(-0.25, 0.25)]) } else { None };
    let face = if k >= 4 && k % 2 == 1 { -1. } else { 1. } * if reverse { -1. } else { 1. };
    (Triangle::new(t, vn, reverse, no_material()), t, [n[0] * face, n[1] * face, n[2] * face])
}
fn at(p: Point3f) -> Interaction { Interaction { p, n: nrm(0., 0., 1.), sn: nrm(0., 0., 1.), ..Default::default() } }
fn len(a: [f32; 3]) -> f32 { dot3(a, a).sqrt() }

harnesses! {
    fn distant() {
        // every direction and radiance, reference point in the scene
        let (l, w) = (spec(0, 0., 64.), v3(3, -4., 4.));
        assume(dot3(va(w), va(w)) > 0.0009765625);
        let (lo, size) = (p3(6, -16., 16.), p3(9, 0., 16.));
        let hi = pt3(lo.x + size.x, lo.y + size.y, lo.z + size.z);
        let p = pt3(lo.x + size.x * f32_in(12, 0., 1.), lo.y + size.y * f32_in(13, 0., 1.), lo.z + size.z * f32_in(14, 0., 1.));
        assume(size.x + size.y + size.z > 0.0625);
        let mut d = DistantLight::new(l, w);
        d.pre_process(BBox3f { min: lo, max: hi });
        let (wi, li, pdf, vis) = d.sample_li(&at(p), Point2f { x: f32_in(15, 0., 1.), y: f32_in(16, 0., 1.) });
        reach(0);
        let n = len(va(w));
        close3(va(wi), [w.x / n, w.y / n, w.z / n], 1e-4, 1);
        close3(sa(li), sa(l), 1e-5, 4);
        check(pdf == 1., 7);
        check(d.is_delta(), 8);
        check(d.pdf_li(&at(p), wi) == 0., 9);
        check(vis.unoccluded(&scene()) == !bool_in(90), 10);
        let (o, dir, _) = shadow();
        close3(o, pa(p), 1e-4, 11);
        // parallel to the light, towards it
        close3(cross3(dir, va(w)), [0., 0., 0.], 1e-3, 14);
        check(dot3(dir, va(w)) > 0., 17);
    }
    fn distant_reach() {
        // the shadow ray leaves the scene: every point of the scene along it is covered; params: 0 axis the light is nearest to, boxes
        let boxes = [([0f32, 0., 0.], [2f32, 3., 6.]), ([-1., 2., 0.], [0., 4., 2.]), ([1., 1., 1.], [9., 5., 2.]), ([-3., 0., 0.], [-3., 4., 3.])];
        let (lo, hi) = boxes[param(0) as usize];
        let w = unit(0);
        let mut d = DistantLight::new(Spectrum::from(1.), w);
        d.pre_process(BBox3f { min: pt3(lo[0], lo[1], lo[2]), max: pt3(hi[0], hi[1], hi[2]) });
        let mut p = [0f32; 3];
        let mut q = [0f32; 3];
        let s = f32_in(1, 0., 32.);
        for k in 0..3 {
            p[k] = lo[k] + (hi[k] - lo[k]) * f32_in(4 + k as u32, 0., 1.);
            q[k] = p[k] + s * w[k];
            assume(lo[k] <= q[k] && q[k] <= hi[k]);
        }
        let vis = d.sample_li(&at(pt3(p[0], p[1], p[2])), Point2f { x: 0.5, y: 0.5 }).3;
        vis.unoccluded(&scene());
        let (_, dir, t) = shadow();
        reach(0);
        // q = origin + direction * s / |direction|
        let m = dot3(dir, va(w));
        check(m > 0., 1);
        check(s * 0.9995 <= m * t, 2);
    }
    fn side_rule() {
        let l = spec(0, 0., 64.);
        let (n, w) = (n3(3, -1., 1.), v3(6, -1., 1.));
        let a = AreaLight::new(l, triangle(0, false).0);
        let i = Interaction { n, ..Default::default() };
        let e = sa(a.l(&i, w));
        let c = n.x * w.x + n.y * w.y + n.z * w.z;
        reach(0);
        let x = sa(l);
        if c > 0. { check((e[0] == x[0]) & (e[1] == x[1]) & (e[2] == x[2]), 1) } else { check((e[0] == 0.) & (e[1] == 0.) & (e[2] == 0.), 2) }
        check(!Light::is_delta(&a), 3);
    }
    fn area_tri() {
        // params: 0 triangle, 1 reversed, 2,3 random numbers in eighths (the first one squared), 4 octant of the reference point
        let (t, v, n) = triangle(param(0), param(1) == 1);
        let l = spec(0, 0.5, 64.);
        let a = AreaLight::new(l, t);
        let r = param(2) as f32 / 8.;
        let u = Point2f { x: r * r, y: param(3) as f32 / 8. };
        let o = param(4);
        let c = |id: u32, b: i64| { let x = f32_in(id, 0.0625, 8.); if o >> b & 1 == 1 { -x } else { x } };
        // reference points relative to the point of the light
        let b = [1. - r, u.y * r, 1. - (1. - r) - u.y * r];
        let mut q = [0f32; 3];
        for k in 0..3 { for j in 0..3 { q[k] += b[j] * v[j][k]; } }
        let off = [c(3, 0), c(4, 1), c(5, 2)];
        let p = pt3(q[0] + off[0], q[1] + off[1], q[2] + off[2]);
        let dist = len(off);
        let (wi, li, pdf, vis) = a.sample_li(&at(p), u);
        reach(0);
        close3(va(wi), [-off[0] / dist, -off[1] / dist, -off[2] / dist], 1e-4, 1);
        let cosn = dot3(off, n);
        let nl = len(n);
        assume(cosn > 0.0625 || cosn < -0.0625);
        let x = sa(l);
        let e = sa(li);
        if cosn > 0. { check((e[0] == x[0]) & (e[1] == x[1]) & (e[2] == x[2]), 4) } else { check((e[0] == 0.) & (e[1] == 0.) & (e[2] == 0.), 5) }
        check(vis.unoccluded(&scene()) == !bool_in(90), 6);
        let (o, d, t) = shadow();
        close3(o, pa(p), 1e-3, 7);
        close3([o[0] + d[0], o[1] + d[1], o[2] + d[2]], q, 1e-3, 10);
        check(t < 1. && t > 0.999, 13);
        let _ = (pdf, nl);
    }
    fn hit_side() {
        // a ray that hits the light sees it on the same side; params: 0 triangle, 1 reversed, 2,3 the point, 4 octant
        let (t, v, n) = triangle(param(0), param(1) == 1);
        let l = spec(0, 0.5, 64.);
        let a = AreaLight::new(l, t);
        let r = param(2) as f32 / 8.;
        let b = [1. - r, param(3) as f32 / 8. * r, 1. - (1. - r) - param(3) as f32 / 8. * r];
        let mut q = [0f32; 3];
        for k in 0..3 { for j in 0..3 { q[k] += b[j] * v[j][k]; } }
        let o = param(4);
        let c = |id: u32, b: i64| { let x = f32_in(id, 0.0625, 8.); if o >> b & 1 == 1 { -x } else { x } };
        let off = [c(3, 0), c(4, 1), c(5, 2)];
        let cosn = dot3(off, n);
        assume(cosn > 0.0625 || cosn < -0.0625);
        let ray = Ray { origin: pt3(q[0] + off[0], q[1] + off[1], q[2] + off[2]), direction: vec3(-off[0], -off[1], -off[2]), t_max: std::f32::INFINITY };
        if let Some((i, _)) = a.intersect(&ray) {
            reach(0);
            let e = sa(a.l(&i, -ray.direction));
            let x = sa(l);
            if cosn > 0. { check((e[0] == x[0]) & (e[1] == x[1]) & (e[2] == x[2]), 4) } else { check((e[0] == 0.) & (e[1] == 0.) & (e[2] == 0.), 5) }
        }
    }
    fn pdf_tri() {
        // density per solid angle; params: 0 triangle, 1 reversed, 4 octant of the reference point, 2,3 the point that is aimed at (in quarters, may lie outside), 5 the dominating axis of the direction, 6 the density of a sample or of a direction
        let (t, v, n) = triangle(param(0), param(1) == 1);
        let a = AreaLight::new(Spectrum::from(1.), t);
        let o = param(4);
        let m = f32_in(3, 0.25, 8.);
        let c = |b: i64| { let x = if param(5) == b { m } else { m * f32_in(4 + (b + 3 - param(5)) as u32 % 3, 0.0625, 1.) }; if o >> b & 1 == 1 { -x } else { x } };
        let (b1, b2) = (param(2) as f32 / 4., param(3) as f32 / 4.);
        let mut q = [0f32; 3];
        for k in 0..3 { q[k] = (1. - b1 - b2) * v[0][k] + b1 * v[1][k] + b2 * v[2][k]; }
        let off = [c(0), c(1), c(2)];
        let cosn = dot3(off, n);
        assume(cosn > 0.25 || cosn < -0.25);
        let dist = len(off);
        let p = at(pt3(q[0] + off[0], q[1] + off[1], q[2] + off[2]));
        let w = vec3(-off[0] / dist, -off[1] / dist, -off[2] / dist);
        let r = b1 + b2;
        // 6: the density that comes with a sample, 0: the one of a direction
        let d = if param(6) == 1 { a.sample_li(&p, Point2f { x: r * r, y: b1 / r }).2 } else { a.pdf_li(&p, w) };
        reach(0);
        // the area is |n| / 2, the cosine cosn / (dist |n|)
        let cn = if cosn < 0. { -cosn } else { cosn };
        let inside = b1 >= 0. && b2 >= 0. && b1 + b2 <= 1.;
        if inside { close(d, 2. * dist * dist * dist / cn, 1e-3, 1) } else { check(d == 0., 2) }
    }
    fn pdf_sphere() {
        // params: 0 signs of the direction, 1 outside (0) or inside (1) reference point on the axis
        let r = f32_in(0, 0.25, 4.);
        let s = Sphere::new(pt3(1., -2., 0.5), r, no_material());
        let a = AreaLight::new(Spectrum::from(1.), s);
        let (h, e) = (f32_in(1, 0.0625, 0.9375), f32_in(2, 1.125, 8.));
        // seen from the x axis at distance k r, aimed at the rim point of half-angle tangent h
        let (cs, sn) = ((1. - h * h) / (1. + h * h), 2. * h / (1. + h * h));
        let k = if param(1) == 0 { e } else { e / 9. };
        let (x, y) = (k * r - r * cs, -r * sn);
        let dist = (x * x + y * y).sqrt();
        let p = at(pt3(1. + k * r, -2., 0.5));
        // towards the point (r cs, r sn): visible when the ray arrives from outside
        let w = vec3(-x / dist, -y / dist, 0.);
        let cosn = (x * cs + y * sn) / dist;
        if param(1) == 0 { assume(cosn > 0.0625) } else { assume(cosn < -0.0625) }
        let d = a.pdf_li(&p, w);
        reach(0);
        let cn = if cosn < 0. { -cosn } else { cosn };
        close(d, dist * dist / (cn * 4. * std::f32::consts::PI * r * r), 1e-3, 1);
    }
    fn sphere_point() {
        // params: 0 quarter of the second random number
        let r = f32_in(0, 0.25, 4.);
        let c = p3(1, -8., 8.);
        let s = Sphere::new(c, r, no_material());
        let u = Point2f { x: f32_in(4, 0., 1.), y: f32_in(5, 0.25 * param(0) as f32, 0.25 * param(0) as f32 + 0.25) };
        let i = s.sample_ref(&Interaction::default(), u);
        reach(0);
        let d = sub3(pa(i.p), pa(c));
        close(dot3(d, d), r * r, 1e-3, 1);
        close3(d, [i.n.x * r, i.n.y * r, i.n.z * r], 1e-3, 2);
        check(i.p_err.x >= 0. && i.p_err.y >= 0. && i.p_err.z >= 0., 5);
    }
    fn sphere_area() {
        // density of sampled points per area
        let r = f32_in(0, 0.25, 4.);
        let s = Sphere::new(pt3(1., 2., 3.), r, no_material());
        let area = s.area();
        let (_, d) = jac([4, 5], || {
            let u = Point2f { x: f32_in(4, 0.0625, 0.9375), y: f32_in(5, 0.25 * param(0) as f32 + 0.03125, 0.25 * param(0) as f32 + 0.21875) };
            pa(s.sample(u).p)
        });
        reach(0);
        let n = cross3([d[0][0], d[1][0], d[2][0]], [d[0][1], d[1][1], d[2][1]]);
        close(dot3(n, n), area * area, 1e-2, 1);
    }
    fn sphere_apart() {
        // random numbers of different parts of the square never lead to the same point; params: two parts of eight
        let c = pt3(1., 2., 3.);
        let s = Sphere::new(c, f32_in(0, 0.25, 4.), no_material());
        let pt = |k: u32| {
            let (a, b) = ((param(k) / 4) as f32 * 0.5, (param(k) % 4) as f32 * 0.25);
            s.sample(Point2f { x: f32_in(2 * k + 4, a + 0.015625, a + 0.484375), y: f32_in(2 * k + 5, b + 0.015625, b + 0.234375) }).p - c
        };
        let (a, b) = (pt(0), pt(1));
        reach(0);
        check(a.x * b.x < 0. || a.y * b.y < 0. || a.z * b.z < 0., 1);
    }
    fn tri_area() {
        let (t, _, _) = triangle(param(0), false);
        let area = t.area();
        let (_, d) = jac([4, 5], || {
            let u = Point2f { x: f32_in(4, 0.0625, 0.9375), y: f32_in(5, 0.0625, 0.9375) };
            pa(t.sample(u).p)
        });
        reach(0);
        let n = cross3([d[0][0], d[1][0], d[2][0]], [d[0][1], d[1][1], d[2][1]]);
        close(dot3(n, n), area * area, 1e-2, 1);
    }
    fn tri_point() {
        // sampled points lie in the triangle: all of its area and nothing else
        let (t, v, _) = triangle(param(0), false);
        let u = Point2f { x: f32_in(4, 0., 1.), y: f32_in(5, 0., 1.) };
        let q = pa(t.sample(u).p);
        reach(0);
        let (a, b) = (sub3(pa(v[1]), pa(v[0])), sub3(pa(v[2]), pa(v[0])));
        let n = cross3(a, b);
        let d = sub3(q, pa(v[0]));
        close(dot3(d, n), 0., 1e-3, 1);
        let m = dot3(n, n);
        let (x, y) = (dot3(cross3(d, b), n) / m, dot3(cross3(a, d), n) / m);
        check(x >= -1e-4 && y >= -1e-4 && x + y <= 1.0001, 2);
    }
}
