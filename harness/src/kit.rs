//! Shared pieces of the harnesses: symbolic value builders and mocks.
use crate::sx::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bbox::{BBox3f, BBox2f};
use pt::verif::camera::{Camera, CameraSample};
use pt::verif::container::Container;
use pt::verif::sampler::Sampler;
use pt::verif::interaction::Interaction;
use pt::verif::material::Material;
use pt::verif::ray::Ray;
use pt::verif::reflection::BSDF;
use pt::verif::vector::*;

pub fn v3(id: u32, lo: f32, hi: f32) -> Vector3f { Vector3f { x: f32_in(id, lo, hi), y: f32_in(id + 1, lo, hi), z: f32_in(id + 2, lo, hi) } }
pub fn p3(id: u32, lo: f32, hi: f32) -> Point3f { Point3f { x: f32_in(id, lo, hi), y: f32_in(id + 1, lo, hi), z: f32_in(id + 2, lo, hi) } }
pub fn n3(id: u32, lo: f32, hi: f32) -> Normal3f { Normal3f { x: f32_in(id, lo, hi), y: f32_in(id + 1, lo, hi), z: f32_in(id + 2, lo, hi) } }
pub fn unit(id: u32) -> Vector3f { let u = unit3(id); Vector3f { x: u[0], y: u[1], z: u[2] } }
pub fn vec3(x: f32, y: f32, z: f32) -> Vector3f { Vector3f { x, y, z } }
pub fn pt3(x: f32, y: f32, z: f32) -> Point3f { Point3f { x, y, z } }
pub fn nrm(x: f32, y: f32, z: f32) -> Normal3f { Normal3f { x, y, z } }
pub fn dot3(a: [f32; 3], b: [f32; 3]) -> f32 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn va(v: Vector3f) -> [f32; 3] { [v.x, v.y, v.z] }
pub fn pa(v: Point3f) -> [f32; 3] { [v.x, v.y, v.z] }
pub fn na(v: Normal3f) -> [f32; 3] { [v.x, v.y, v.z] }
pub fn sa(v: Spectrum) -> [f32; 3] { [v.r, v.g, v.b] }
pub fn close3(a: [f32; 3], b: [f32; 3], tol: f32, id: u32) { for k in 0..3 { close(a[k], b[k], tol, id + k as u32); } }
pub fn sub3(a: [f32; 3], b: [f32; 3]) -> [f32; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn cross3(a: [f32; 3], b: [f32; 3]) -> [f32; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn spec(id: u32, lo: f32, hi: f32) -> Spectrum { Spectrum { r: f32_in(id, lo, hi), g: f32_in(id + 1, lo, hi), b: f32_in(id + 2, lo, hi) } }

/// a direction at the half angle of q (rational) from wh, at azimuth (g1, g2) around it
pub fn around(wh: Vector3f, q: f32, g1: f32, g2: f32) -> Vector3f {
    let h = (wh.x * wh.x + wh.y * wh.y).sqrt();
    let (a, b) = (-wh.y / h, wh.x / h);
    let e2 = [-wh.z * b, wh.z * a, wh.x * b - wh.y * a];
    let n = 1. + q * q;
    let (c, s) = ((1. - q * q) / n, 2. * q / n);
    vec3(wh.x * c + s * (g1 * a + g2 * e2[0]), wh.y * c + s * (g1 * b + g2 * e2[1]), wh.z * c + s * g2 * e2[2])
}

pub struct NoMaterial;
impl Material for NoMaterial {
    fn compute_scattering(&self, i: &Interaction) -> BSDF { BSDF::new(i) }
}
pub fn no_material() -> Arc<dyn Material> { Arc::new(NoMaterial) }
/// direction component: kind 0 = any non-zero number, 1 = +0, 2 = -0
pub fn comp(id: u32, kind: i64) -> f32 {
    match kind {
        1 => 0.,
        2 => -0.,
        3 => { let v = f32_in(id, 0., 4.); assume(v > 0.); v }
        4 => { let v = f32_in(id, -4., 0.); assume(v < 0.); v }
        _ => { let v = f32_in(id, -4., 4.); assume(v != 0.); v }
    }
}


/// A camera whose ray carries the film position.
#[derive(Clone)]
pub struct Cam;
impl Camera for Cam {
    fn generate_ray(&self, s: &CameraSample) -> Ray { Ray { origin: pt3(s.p_film.x, s.p_film.y, 0.), direction: vec3(0., 0., 1.), t_max: std::f32::INFINITY } }
}
/// A container that holds nothing.
pub struct Void;
impl Container for Void {
    fn bbox(&self) -> BBox3f { BBox3f { min: pt3(0., 0., 0.), max: pt3(0., 0., 0.) } }
    fn intersect_p(&self, _r: &Ray) -> bool { false }
    fn intersect(&self, _r: &Ray) -> Option<Interaction> { None }
}
/// A sampler that returns inputs id, id+1, ... one after the other, n samples per pixel.
#[derive(Clone)]
pub struct Smp { pub n: u32, pub i: u32, pub next: u32, pub per: u32 }
impl Sampler for Smp {
    fn start_pixel(&mut self, _p: Point2i) { self.i = 0; }
    fn start_next_sample(&mut self) -> bool { self.i += 1; self.i < self.n }
    fn get_1d(&mut self) -> f32 { self.next += 1; f32_in(self.next - 1, 0., 0.9999999) }
    fn get_2d(&mut self) -> Point2f { let x = self.get_1d(); let y = self.get_1d(); Point2f { x, y } }
}
