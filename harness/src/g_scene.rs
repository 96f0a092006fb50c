#![allow(static_mut_refs)]
use crate::sx::*;
use crate::kit::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::common::same_addr;
use pt::verif::container::Container;
use pt::verif::container_simple::Simple;
use pt::verif::interaction::Interaction;
use pt::verif::light::VisibilityTester;
use pt::verif::material::Material;
use pt::verif::ray::Ray;
use pt::verif::scene::Scene;
use pt::verif::shape::Shape;
use pt::verif::vector::*;

/// a shape with a name, any box, hit at t or not at all
struct M { name: f32, b: BBox3f, hit: bool, t: f32 }
impl Shape for M {
    fn bbox(&self) -> BBox3f { self.b }
    fn area(&self) -> f32 { self.name }
    fn intersect_p(&self, ray: &Ray) -> bool { self.hit && self.t <= ray.t_max }
    fn intersect(&self, ray: &Ray) -> Option<(Interaction, f32)> {
        if self.hit && self.t <= ray.t_max { Some((Interaction { uv: Point2f { x: self.t, y: self.name }, n: nrm(0., 0., -1.), ..Default::default() }, self.t)) } else { None }
    }
    fn material(&self) -> Arc<dyn Material> { no_material() }
    fn sample(&self, _s: Point2f) -> Interaction { Interaction::default() }
    fn pdf(&self, _i: &Interaction, _w: Vector3f) -> f32 { self.name }
}
static mut TOLD: Vec<(f32, BBox3f)> = Vec::new();
/// a light with a name that keeps what it is told
struct L { name: f32 }
#[allow(static_mut_refs)]
impl Light for L {
    fn is_delta(&self) -> bool { true }
    fn pre_process(&mut self, b: BBox3f) { unsafe { TOLD.push((self.name, b)) } }
    fn sample_li(&self, _i: &Interaction, _s: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) { panic!() }
    fn pdf_li(&self, _i: &Interaction, _w: Vector3f) -> f32 { self.name }
}
struct Bag(Vec<Arc<dyn Shape>>);
impl Container for Bag {
    fn bbox(&self) -> BBox3f { panic!() }
    fn intersect_p(&self, _r: &Ray) -> bool { false }
    fn intersect(&self, _r: &Ray) -> Option<Interaction> { None }
}
fn any_box(id: u32) -> BBox3f {
    let (a, s) = (p3(id, -16., 16.), p3(id + 3, 0., 16.));
    BBox3f { min: a, max: pt3(a.x + s.x, a.y + s.y, a.z + s.z) }
}
/// kinds of the things added, in order: 1 shape, 2 light, 3 area light (base 4 digits)
fn script(mut k: i64) -> Vec<i64> { let mut v = vec![]; while k > 0 { v.push(k % 4); k /= 4; } v }
fn add(b: &mut Builder, kind: i64, m: M, l: Spectrum) {
    match kind {
        1 => b.add_shape(m),
        2 => b.add_light(L { name: m.name }),
        _ => b.add_area_light(AreaLight::new(l, m)),
    }
}
/// hits on a scene: the nearest of the scripted shapes, and whether it is an emitter of the scene
fn hits<C: Container>(f: impl FnOnce(Box<[Arc<dyn Shape>]>) -> C) {
    let s = script(param(0));
    let mut b = Builder::new();
    let x = spec(0, 0.5, 8.);
    let h = [param(1), param(2)];
    let t = [f32_in(3, 0.125, 8.), f32_in(4, 0.125, 8.)];
    for (k, &kind) in s.iter().enumerate() {
        let g = k as f32;
        let j = if h[0] == k as i64 { Some(0) } else if h[1] == k as i64 { Some(1) } else { None };
        // boxes in a row along the ray that reach far enough to hold their hit points
        let m = M { name: 1. + g, b: BBox3f { min: pt3(-1. - g, -1., 0.), max: pt3(1. + g, 1. + g, 9. + g) }, hit: j.is_some(), t: j.map(|j| t[j]).unwrap_or(0.) };
        add(&mut b, kind, m, x);
    }
    let scene = b.construct(f);
    let end = f32_in(5, 0.125, 9.);
    let ray = Ray { origin: pt3(f32_in(6, -1., 1.), f32_in(7, -1., 1.), 0.), direction: vec3(0., 0., 1.), t_max: end };
    let ok: Vec<usize> = (0..2).filter(|&j| h[j] >= 0 && (h[j] as usize) < s.len() && s[h[j] as usize] != 2 && t[j] <= end).collect();
    let shape = scene.intersect(&ray);
    reach(0);
    check(scene.intersect_p(&ray) == !ok.is_empty(), 1);
    if ok.is_empty() { check(shape.is_none(), 2); return }
    let i = match shape { Some(i) => i, None => { check(false, 3); return } };
    let near = if ok.len() == 2 && t[1] < t[0] { 1 } else { ok[0] };
    if ok.len() == 2 { assume(t[0] != t[1]) }
    check(i.uv.x == t[near], 4);
    let k = h[near] as usize;
    check(i.uv.y == 1. + k as f32, 5);
    let sh = i.shape.clone().unwrap();
    let owners = scene.lights().iter().filter(|l| same_addr(&*sh, &***l)).count();
    let e = sa(i.le(vec3(0., 0., -1.)));
    let d = sa(i.le(vec3(0., 0., 1.)));
    let z = if s[k] == 3 { sa(x) } else { [0.; 3] };
    check((e[0] == z[0]) & (e[1] == z[1]) & (e[2] == z[2]), 6);
    check((d[0] == 0.) & (d[1] == 0.) & (d[2] == 0.), 7);
    check(owners == if s[k] == 3 { 1 } else { 0 }, 8);
    if s[k] == 3 {
        let l = scene.lights().iter().find(|l| same_addr(&*sh, &***l)).unwrap();
        check(l.pdf_li(&i, vec3(0., 0., 1.)) == 1. + k as f32, 9);
    }
}

harnesses! {
    fn kept() {
        // params: 0 the things added
        let s = script(param(0));
        unsafe { TOLD = Vec::new() };
        let mut b = Builder::new();
        let mut boxes = vec![];
        for (k, &kind) in s.iter().enumerate() {
            let q = any_box(10 * k as u32);
            if kind != 2 { boxes.push(q) }
            add(&mut b, kind, M { name: 1. + k as f32, b: q, hit: false, t: 0. }, Spectrum::from(1. + k as f32));
        }
        let scene: Scene<Bag> = { let mut keep = None; let sc = b.construct(|v| { keep = Some(v.to_vec()); Bag(v.into_vec()) }); unsafe { KEEP = keep.unwrap() }; sc };
        let shapes = unsafe { &KEEP };
        reach(0);
        let (i, w) = (Interaction::default(), vec3(0., 0., 1.));
        check(shapes.len() == s.iter().filter(|&&k| k != 2).count(), 1);
        check(scene.lights().len() == s.iter().filter(|&&k| k != 1).count(), 2);
        for (k, &kind) in s.iter().enumerate() {
            let name = 1. + k as f32;
            let sh: Vec<&Arc<dyn Shape>> = shapes.iter().filter(|x| x.area() == name).collect();
            let li: Vec<&Arc<dyn Light>> = scene.lights().iter().filter(|x| x.pdf_li(&i, w) == name).collect();
            check(sh.len() == if kind == 2 { 0 } else { 1 }, 3);
            check(li.len() == if kind == 1 { 0 } else { 1 }, 4);
            if kind == 3 { check(same_addr(&**sh[0], &**li[0]), 5); check(sh[0].l(&Interaction { n: nrm(0., 0., 1.), ..Default::default() }, w).r == name, 6) }
            if kind == 1 { check(!scene.lights().iter().any(|l| same_addr(&**sh[0], &**l)), 7) }
            if kind == 2 {
                let told: Vec<&(f32, BBox3f)> = unsafe { TOLD.iter().filter(|x| x.0 == name).collect() };
                check(told.len() == 1, 8);
                let t = told[0].1;
                for q in &boxes {
                    check((t.min.x <= q.min.x) & (t.min.y <= q.min.y) & (t.min.z <= q.min.z), 9);
                    check((t.max.x >= q.max.x) & (t.max.y >= q.max.y) & (t.max.z >= q.max.z), 10);
                }
            }
        }
    }
    fn far_light() {
        // a directional light of a scene is shadowed by every shape and emitter of it; params: 0 layout, 1 what the first and second box are (1 shape, 3 emitter)
        let boxes = [[[0f32, 0., 0., 2., 3., 6.], [10., 4., -1., 12., 5., 0.]], [[-1., 2., 0., 0., 4., 2.], [-1., 2., 0., 0., 4., 8.]], [[1., 1., 1., 9., 5., 2.], [1., 1., -20., 9., 5., -20.]]][param(0) as usize];
        let kinds = script(param(1));
        let w = unit(0);
        let mut b = Builder::new();
        for k in 0..2 {
            let q = boxes[k];
            let q = BBox3f { min: pt3(q[0], q[1], q[2]), max: pt3(q[3], q[4], q[5]) };
            if k == 1 { b.add_light(DistantLight::new(Spectrum::from(1.), w)) }
            add(&mut b, kinds[k], M { name: 1., b: q, hit: false, t: 0. }, Spectrum::from(1.));
        }
        let scene = b.construct(|_| Trap);
        let (a, z) = (boxes[param(2) as usize], boxes[1 - param(2) as usize]);
        let s = f32_in(1, 0., 64.);
        let mut p = [0f32; 3];
        for k in 0..3 {
            p[k] = a[k] + (a[k + 3] - a[k]) * f32_in(4 + k as u32, 0., 1.);
            let q = p[k] + s * w[k];
            assume(z[k] <= q && q <= z[k + 3]);
        }
        let i = Interaction { p: pt3(p[0], p[1], p[2]), n: nrm(0., 0., 1.), ..Default::default() };
        let light = scene.lights().iter().find(|l| l.is_delta()).unwrap();
        light.sample_li(&i, Point2f { x: 0.5, y: 0.5 }).3.unoccluded(&scene);
        reach(0);
        let (dir, t) = unsafe { SHADOW };
        let m = dot3(dir, va(w));
        check(m > 0., 1);
        check(s * 0.9995 <= m * t, 2);
    }
    fn hit_simple() { hits(Simple::new) }
    fn hit_kd() { hits(|v| KdTree::new(v, None)) }
    fn mesh_normals() {
        // every triangle of a mesh has its own vertices and normals; params: 0 normals given (0 none, 1 all, 2 too few index triples), 1 triangle hit, 2,3 its corners (base 4)
        let base = [pt3(0., 0., 0.), pt3(4., 0., 0.5), pt3(0., 4., 1.), pt3(4., 4., 2.)];
        let ix = [dig(param(2)), dig(param(3))];
        let ns: Vec<Normal3f> = (0..4).map(|k| nrm(f32_in(10 * k, -0.5, 0.5), f32_in(10 * k + 1, -0.5, 0.5), 1.)).collect();
        let nix = [dig(param(3)), [3usize, 0, 1]];
        let kind = param(0);
        let ts = Triangle::new_triangle_mesh(Box::new(base), Box::new(ix), if kind > 0 { Some(ns.clone().into_boxed_slice()) } else { None },
            match kind { 0 => None, 1 => Some(Box::new(nix)), _ => Some(Box::new([nix[0]])) }, no_material());
        check(ts.len() == 2, 1);
        let j = param(1) as usize;
        let w = [0.5f32, 0.25, 0.25];
        let mut q = [0f32; 3];
        for k in 0..3 { for c in 0..3 { q[c] += w[k] * base[ix[j][k]][c]; } }
        let (i, t) = match ts[j].intersect(&Ray { origin: pt3(q[0], q[1], 5.), direction: vec3(0., 0., -1.), t_max: std::f32::INFINITY }) { Some(x) => x, None => { check(false, 2); return } };
        reach(0);
        close3(pa(i.p), q, 1e-3, 3);
        close(t, 5. - q[2], 1e-3, 6);
        if kind == 1 {
            let mut m = [0f32; 3];
            for k in 0..3 { let v = na(ns[nix[j][k]]); for c in 0..3 { m[c] += w[k] * v[c]; } }
            let l = dot3(m, m).sqrt();
            close3(na(i.sn), [m[0] / l, m[1] / l, m[2] / l], 1e-3, 7);
        } else {
            close3(na(i.sn), na(i.n), 1e-6, 7);
        }
    }
}
static mut SHADOW: ([f32; 3], f32) = ([0.; 3], 0.);
struct Trap;
impl Container for Trap {
    fn bbox(&self) -> BBox3f { panic!() }
    fn intersect_p(&self, r: &Ray) -> bool { unsafe { SHADOW = (va(r.direction), r.t_max) }; false }
    fn intersect(&self, _r: &Ray) -> Option<Interaction> { None }
}
static mut KEEP: Vec<Arc<dyn Shape>> = Vec::new();
fn dig(k: i64) -> [usize; 3] { [(k % 4) as usize, (k / 4 % 4) as usize, (k / 16) as usize] }
