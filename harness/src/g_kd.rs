use crate::sx::*;
use crate::kit::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::container::Container;
use pt::verif::ray::Ray;
use pt::verif::interaction::Interaction;
use pt::verif::material::Material;
use pt::verif::shape::Shape;
use pt::verif::vector::*;

/// A shape with a given box whose surface the ray hits at t (or not at all): an arbitrary surface inside the box,
/// as far as one ray can tell.
struct M { b: BBox3f, hit: bool, t: f32 }
impl Shape for M {
    fn bbox(&self) -> BBox3f { self.b }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, ray: &Ray) -> bool { self.hit && self.t <= ray.t_max }
    fn intersect(&self, ray: &Ray) -> Option<(Interaction, f32)> {
        if self.hit && self.t <= ray.t_max { Some((Interaction { uv: Point2f { x: self.t, y: 0. }, ..Default::default() }, self.t)) } else { None }
    }
    fn material(&self) -> Arc<dyn Material> { no_material() }
    fn sample(&self, _s: Point2f) -> Interaction { Interaction::default() }
}

fn bx(x0: f32, y0: f32, z0: f32, x1: f32, y1: f32, z1: f32) -> BBox3f { BBox3f { min: pt3(x0, y0, z0), max: pt3(x1, y1, z1) } }

/// box number i of the given layout
fn layout(kind: i64, i: usize) -> BBox3f {
    let f = i as f32;
    let (a, b) = ((i % 3) as f32, (i / 3) as f32);
    match kind {
        // a row with gaps, along each axis
        0 => bx(2. * f, 0., 0., 2. * f + 1., 1., 1.),
        1 => bx(0., 2. * f, 0., 1., 2. * f + 1., 1.),
        2 => bx(0., 0., 2. * f, 1., 1., 2. * f + 1.),
        // a row of touching boxes (shared faces)
        3 => bx(f, -1., -1., f + 1., 1., 1.),
        // a grid
        4 => bx(2. * a, 2. * b, 0., 2. * a + 1., 2. * b + 1., 1.),
        // overlapping boxes
        5 => bx(-1., f, -1., 1., f + 2.5, 1.),
        // two clusters and one box spanning both
        6 => if i == 8 { bx(-8., -1., -1., 8., 1., 1.) } else if i % 2 == 0 { bx(-8., f, 0., -7., f + 1., 1.) } else { bx(7., f, 0., 8., f + 1., 1.) },
        // flat boxes in planes of constant z, one inside the other
        7 => bx(-1. - f, -1., f, 1. + f, 1., f),
        // nested
        8 => bx(-1. - f, -1. - f, -1. - f, 1. + f, 1. + f, 1. + f),
        // flat boxes lying exactly in the split planes of their neighbours
        9 => if i % 2 == 0 { bx(0., f, 0., 1., f + 1., 1.) } else { bx(0., f, 0., 1., f, 1.) },
        // separate flat boxes in planes of constant z; every third one thick
        10 => bx(-1., -1., 3. * f, 1., 1., 3. * f),
        11 => bx(-1., 3. * f - if i % 3 == 2 { 1. } else { 0. }, -1., 1., 3. * f, 1.),
        // irregular, every axis negative and positive
        _ => {
            let h = |m: usize, n: usize| ((i * m + n) * 7 % 13) as f32 - 6.;
            let (x, y, z) = (h(3, 1), h(5, 2), h(11, 4));
            bx(x, y, z, x + 0.5 + (i % 4) as f32, y + 1., z + 0.25 * (1 + i % 3) as f32)
        }
    }
}

fn tree(kind: i64, n: usize, hits: &[(usize, f32)], depth: i64) -> (Vec<Arc<dyn Shape>>, KdTree) {
    let v: Vec<Arc<dyn Shape>> = (0..n).map(|i| {
        let h = hits.iter().find(|h| h.0 == i);
        Arc::new(M { b: layout(kind, i), hit: h.is_some(), t: h.map(|h| h.1).unwrap_or(0.) }) as Arc<dyn Shape>
    }).collect();
    let t = KdTree::new(v.clone().into_boxed_slice(), if depth < 0 { None } else { Some(depth as u32) });
    (v, t)
}

fn in_box(b: &BBox3f, q: [f32; 3]) -> bool {
    b.min.x <= q[0] && q[0] <= b.max.x && b.min.y <= q[1] && q[1] <= b.max.y && b.min.z <= q[2] && q[2] <= b.max.z
}

fn ray(k: [i64; 3], inf: bool) -> Ray {
    let o = p3(0, -20., 20.);
    let d = vec3(comp(3, k[0]), comp(4, k[1]), comp(5, k[2]));
    let t_max = if inf { std::f32::INFINITY } else { f32_in(6, 0.125, 64.) };
    Ray { origin: o, direction: d, t_max }
}

harnesses! {
    fn kd_one() {
        // params: 0 layout, 1 number of shapes, 2 depth, 3..5 kinds of direction components, 6 infinite ray, 7 the shape that is hit, 8: any-hit query
        let n = param(1) as usize;
        let j = param(7) as usize;
        let r = ray([param(3), param(4), param(5)], param(6) == 1);
        let s = f32_in(7, 0.0078125, 64.);
        assume(s <= r.t_max);
        let q = [r.origin.x + r.direction.x * s, r.origin.y + r.direction.y * s, r.origin.z + r.direction.z * s];
        assume(in_box(&layout(param(0), j), q));
        let (v, t) = tree(param(0), n, &[(j, s)], param(2));
        reach(0);
        if param(8) == 1 { check(t.intersect_p(&r), 1); return }
        match t.intersect(&r) {
            None => check(false, 2),
            Some(i) => { check(i.uv.x == s, 3); check(i.shape.map(|x| Arc::ptr_eq(&x, &v[j])).unwrap_or(false), 4) }
        }
    }

    fn kd_two() {
        // as kd_one, with a second shape (param 9) hit further away
        let n = param(1) as usize;
        let (j, k) = (param(7) as usize, param(9) as usize);
        let r = ray([param(3), param(4), param(5)], param(6) == 1);
        let s = f32_in(7, 0.0078125, 64.);
        let u = f32_in(8, 0.0078125, 64.);
        assume(s < u);
        assume(s <= r.t_max);
        let at = |s: f32| [r.origin.x + r.direction.x * s, r.origin.y + r.direction.y * s, r.origin.z + r.direction.z * s];
        assume(in_box(&layout(param(0), j), at(s)));
        assume(in_box(&layout(param(0), k), at(u)));
        let (v, t) = tree(param(0), n, &[(j, s), (k, u)], param(2));
        reach(0);
        match t.intersect(&r) {
            None => check(false, 2),
            Some(i) => { check(i.uv.x == s, 3); check(i.shape.map(|x| Arc::ptr_eq(&x, &v[j])).unwrap_or(false), 4) }
        }
    }

    fn kd_none() {
        // no shape is hit within the ray's extent: those hit at all are hit behind its end
        let n = param(1) as usize;
        let r = ray([param(3), param(4), param(5)], false);
        let u = f32_in(7, 0.0078125, 64.);
        assume(u > r.t_max);
        let (_, t) = tree(param(0), n, &[(param(7) as usize, u)], param(2));
        reach(0);
        check(!t.intersect_p(&r), 1);
        check(t.intersect(&r).is_none(), 2);
    }
}
