#![allow(static_mut_refs)]
use crate::sx::*;
use crate::kit::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::container::Container;
use pt::verif::camera::*;
use pt::verif::filter::Filter;
use pt::verif::interaction::Interaction;
use pt::verif::material::Material;
use pt::verif::ray::Ray;
use pt::verif::sampler::Sampler;
use pt::verif::sampler_halton::HaltonSampler;
use pt::verif::shape::Shape;
use pt::verif::vector::*;

/// the pixels with a radiance of their own (param 3.., base 64 each), all others are black
fn radiance(x: i32, y: i32) -> [f32; 3] {
    for k in 0..4u32 {
        let p = param(10 + k) - 1;
        if p >= 0 && (x as i64, y as i64) == (p % 64 - 8, p / 64 - 8) { return [f32_in(10 * k, 0., 0.00001), f32_in(10 * k + 1, 0., 0.00001), f32_in(10 * k + 2, 0., 0.00001)] }
    }
    [0.; 3]
}
/// radiance that tells the samples apart
fn graded(x: f32, y: f32) -> f32 { let (u, v) = (x + 8., y + 8.); (u - u.floor()) * 0.00001 + (v - v.floor()) * 0.000003 + if u > v { 0.000001 } else { 0. } }
struct Glow;
impl Shape for Glow {
    fn bbox(&self) -> BBox3f { BBox3f { min: pt3(-1., -1., -1.), max: pt3(1., 1., 1.) } }
    fn area(&self) -> f32 { 1. }
    fn intersect_p(&self, _r: &Ray) -> bool { false }
    fn intersect(&self, _r: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { no_material() }
    fn sample(&self, _s: Point2f) -> Interaction { Interaction::default() }
    fn l(&self, i: &Interaction, _w: Vector3f) -> Spectrum { if param(4) != 0 { return Spectrum::new(graded(i.p.x, i.p.y), graded(i.p.y, i.p.x), 0.) } let v = radiance(i.p.x as i32, i.p.y as i32); Spectrum::new(v[0], v[1], v[2]) }
}
struct Sky { shape: Arc<dyn Shape> }
impl Container for Sky {
    fn bbox(&self) -> BBox3f { BBox3f { min: pt3(-1., -1., -1.), max: pt3(1., 1., 1.) } }
    fn intersect_p(&self, _r: &Ray) -> bool { false }
    fn intersect(&self, r: &Ray) -> Option<Interaction> {
        if param(4) != 0 { return Some(Interaction { p: r.origin, sn: nrm(0., 0., 1.), n: nrm(0., 0., 1.), dpdu: vec3(1., 0., 0.), wo: -r.direction, shape: Some(self.shape.clone()), ..Default::default() }) }
        let (x, y) = (r.origin.x.floor(), r.origin.y.floor());
        if radiance_at(x as i32, y as i32) { Some(Interaction { p: pt3(x, y, 0.), sn: nrm(0., 0., 1.), n: nrm(0., 0., 1.), dpdu: vec3(1., 0., 0.), wo: -r.direction, shape: Some(self.shape.clone()), ..Default::default() }) } else { None }
    }
}
fn radiance_at(x: i32, y: i32) -> bool { (0..4).any(|k| { let p = param(10 + k) - 1; p >= 0 && (x as i64, y as i64) == (p % 64 - 8, p / 64 - 8) }) }
/// one sample per pixel, in its centre
#[derive(Clone)]
struct One;
impl Sampler for One {
    fn start_pixel(&mut self, _p: Point2i) { pause() }
    fn start_next_sample(&mut self) -> bool { false }
    fn get_1d(&mut self) -> f32 { 0.5 }
    fn get_2d(&mut self) -> Point2f { Point2f { x: 0.5, y: 0.5 } }
}
/// the Halton sampler, giving way to other threads natively
#[derive(Clone)]
struct Halton(HaltonSampler);
impl Sampler for Halton {
    fn start_pixel(&mut self, p: Point2i) { pause(); self.0.start_pixel(p) }
    fn start_next_sample(&mut self) -> bool { self.0.start_next_sample() }
    fn get_1d(&mut self) -> f32 { self.0.get_1d() }
    fn get_2d(&mut self) -> Point2f { self.0.get_2d() }
}
struct Flat(f32);
impl Filter for Flat {
    fn radius(&self) -> f32 { self.0 }
    fn evaluate(&self, _p: Point2f) -> f32 { 1. }
}
fn film() -> Film { Film::new(Point2u { x: param(1) as u32, y: param(2) as u32 }, Flat(param(3) as f32 / 2.)) }
fn make<S: Sampler + 'static>(s: S) -> Integrator<Sky, Cam, S> {
    let mut b = Builder::new();
    b.add_shape(Glow);
    Integrator::new(b.construct(|s| Sky { shape: s[0].clone() }), s, Cam, film())
}
/// film after rendering with threads against the film after one tile after the other
fn run<S: Sampler + 'static>(s: S) {
    file_old(0);
    let one = make(s.clone());
    for t in one.verif_film().iter() { one.verif_render_tile(&mut s.clone(), t); }
    let b = one.verif_film().verif_pixels();
    repeat(param(99), || {
        let it = make(s.clone());
        it.render(param(0) as u8);
        let a = it.verif_film().verif_pixels();
        check(a.len() == b.len(), 1);
        for k in 0..a.len() {
            for j in 0..3 { close(sa(a[k].0)[j] * 100000., sa(b[k].0)[j] * 100000., 0.0001, 10) }
            close(a[k].1, b[k].1, 0.0001, 13);
        }
    });
    reach(0);
}

harnesses! {
    fn render() {
        // params: 0 threads, 1 width, 2 height, 3 filter radius in halves, 10..13 pixels with a radiance
        run(One);
    }
    fn halton() {
        // params: 0 threads, 1 width, 2 height, 3 filter radius in halves, 4 = 1, 5 samples per pixel
        run(Halton(HaltonSampler::new(param(5) as u32, film().sample_bbox())));
    }
}
