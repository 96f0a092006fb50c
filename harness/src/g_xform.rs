use crate::sx::*;
use crate::kit::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::ray::Ray;
use pt::verif::interaction::Interaction;
use pt::verif::camera::{Camera, CameraSample, PerspectiveCamera};
use pt::verif::matrix::Matrix;
use pt::verif::transform::Transform;
use pt::verif::vector::*;

fn nz(id: u32, lo: f32, hi: f32) -> f32 { if bool_in(id + 100) { f32_in(id, lo, hi) } else { -f32_in(id, lo, hi) } }

fn det3(a: [f32; 3], b: [f32; 3], c: [f32; 3]) -> f32 { dot3(a, cross3(b, c)) }

/// kind: 0 translate, 1 scale, 2..4 rotations, 5 look-at, 6 perspective, 7 affine matrix, 8 projective matrix, 9 linear matrix
pub fn xf(kind: i64, id: u32) -> Transform {
    match kind {
        0 => Transform::translate(f32_in(id, -8., 8.), f32_in(id + 1, -8., 8.), f32_in(id + 2, -8., 8.)),
        1 => Transform::scale(nz(id, 0.125, 8.), nz(id + 1, 0.125, 8.), nz(id + 2, 0.125, 8.)),
        2 => Transform::rotate_x(f32_in(id, -360., 360.)),
        3 => Transform::rotate_y(f32_in(id, -360., 360.)),
        4 => Transform::rotate_z(f32_in(id, -360., 360.)),
        5 => {
            let pos = p3(id, -8., 8.);
            let d = v3(id + 3, -4., 4.);
            let up = v3(id + 6, -4., 4.);
            let c = cross3(va(up), va(d));
            assume(dot3(va(d), va(d)) > 0.0625 && dot3(va(up), va(up)) > 0.0625 && dot3(c, c) > 0.0625);
            Transform::look_at(pos, pos + d, up)
        }
        6 => {
            let n = f32_in(id + 1, 0.0625, 4.);
            Transform::perspective(f32_in(id, 5., 150.), n, n + f32_in(id + 2, 0.5, 64.))
        }
        _ => {
            let mut m = [[0f32; 4]; 4];
            m[3][3] = 1.;
            for i in 0..3 { for j in 0..3 { m[i][j] = f32_in(id + 4 * i as u32 + j as u32, -2., 2.); } }
            if kind == 7 || kind == 8 { for i in 0..3 { m[i][3] = f32_in(id + 4 * i as u32 + 3, -2., 2.); } }
            if kind == 8 { for j in 0..4 { m[3][j] = f32_in(id + 12 + j as u32, -2., 2.); } }
            let (a, b, c) = ([m[0][0], m[0][1], m[0][2]], [m[1][0], m[1][1], m[1][2]], [m[2][0], m[2][1], m[2][2]]);
            if kind == 8 {
                let mut d = 0.;
                for k in 0..4 {
                    let r = |v: [f32; 4]| { let mut o = [0f32; 3]; let mut n = 0; for j in 0..4 { if j != k { o[n] = v[j]; n += 1; } } o };
                    let s = det3(r(m[0]), r(m[1]), r(m[2])) * m[3][k];
                    d += if k % 2 == 1 { s } else { -s };
                }
                assume(d > 0.5 || d < -0.5);
            } else {
                let d = det3(a, b, c);
                assume(d > 0.5 || d < -0.5);
            }
            if param(9) == 1 { Transform::from(Matrix::from(m)) } else { Transform::from(m) }
        }
    }
}

harnesses! {
    fn inverse() {
        // param 0: kind, 1: what (0 point there and back, 1 point back and there, 2 vectors and normals)
        let kind = param(0);
        let t = xf(kind, 20);
        match param(1) {
            0 => {
                let p = p3(0, -8., 8.);
                if kind == 6 { assume(p.z > 0.0625); }
                if kind == 8 {
                    let f = |k: u32| f32_in(20 + k, -2., 2.);
                    let w = f(12) * p.x + f(13) * p.y + f(14) * p.z + f(15);
                    assume(w > 0.0625 || w < -0.0625);
                }
                let q = t.apply(&p);
                let r = t.inverse_apply(&q);
                let r2 = t.inverse().apply(&q);
                reach(0);
                close3(pa(r), pa(p), 0.02, 1);
                close3(pa(r2), pa(p), 0.02, 4);
            }
            1 => {
                let p = p3(0, -8., 8.);
                if kind == 6 { assume(p.z >= 0. && p.z <= 1.); }
                let q = t.inverse_apply(&p);
                let r = t.apply(&q);
                let r2 = t.inverse().inverse_apply(&q);
                reach(0);
                close3(pa(r), pa(p), 0.02, 1);
                close3(pa(r2), pa(p), 0.02, 4);
            }
            _ => {
                let v = v3(0, -8., 8.);
                let n = n3(3, -8., 8.);
                let (tv, tn) = (t.apply(&v), t.apply(&n));
                reach(0);
                close3(va(t.inverse_apply(&tv)), va(v), 0.02, 1);
                close3(na(t.inverse_apply(&tn)), na(n), 0.02, 4);
                close3(va(t.inverse().apply(&tv)), va(v), 0.02, 7);
                close3(na(t.inverse().apply(&tn)), na(n), 0.02, 10);
                // normals stay perpendicular to tangents
                close(dot3(va(tv), na(tn)), dot3(va(v), na(n)), 0.02, 13);
            }
        }
    }
    fn compose() {
        // params 0, 1: kinds; 2: 0 points, 1 vectors and normals
        let a = xf(param(0), 20);
        let b = xf(param(1), 40);
        let ab = a * b;
        reach(0);
        if param(2) == 0 {
            let p = p3(0, -8., 8.);
            if param(0) == 6 { assume(b.apply(&p).z > 0.0625); }
            close3(pa(ab.apply(&p)), pa(a.apply(&b.apply(&p))), 0.02, 1);
            if param(0) != 6 { close3(pa(ab.inverse_apply(&p)), pa(b.inverse_apply(&a.inverse_apply(&p))), 0.02, 4); }
        } else {
            let v = v3(0, -8., 8.);
            let n = n3(3, -8., 8.);
            close3(va(ab.apply(&v)), va(a.apply(&b.apply(&v))), 0.02, 1);
            close3(na(ab.apply(&n)), na(a.apply(&b.apply(&n))), 0.02, 4);
            close3(va(ab.inverse_apply(&v)), va(b.inverse_apply(&a.inverse_apply(&v))), 0.02, 7);
        }
    }
    fn meaning() {
        // what each constructor means for a point and a vector
        let kind = param(0);
        let p = p3(0, -8., 8.);
        let v = v3(3, -8., 8.);
        let t = xf(kind, 20);
        let f = |k: u32, lo: f32, hi: f32| f32_in(20 + k, lo, hi);
        if kind == 6 { assume(p.z > 0.0625); }
        let (q, w) = (pa(t.apply(&p)), va(t.apply(&v)));
        reach(0);
        match kind {
            0 => {
                close3(q, [p.x + f(0, -8., 8.), p.y + f(1, -8., 8.), p.z + f(2, -8., 8.)], 0.001, 1);
                close3(w, va(v), 0.001, 4);
            }
            1 => {
                let s = [nz(20, 0.125, 8.), nz(21, 0.125, 8.), nz(22, 0.125, 8.)];
                close3(q, [p.x * s[0], p.y * s[1], p.z * s[2]], 0.001, 1);
                close3(w, [v.x * s[0], v.y * s[1], v.z * s[2]], 0.001, 4);
            }
            2 | 3 | 4 => {
                let th = f(0, -360., 360.).to_radians();
                let (s, c) = (th.sin(), th.cos());
                let r = |u: [f32; 3]| match kind {
                    2 => [u[0], c * u[1] - s * u[2], s * u[1] + c * u[2]],
                    3 => [c * u[0] + s * u[2], u[1], c * u[2] - s * u[0]],
                    _ => [c * u[0] - s * u[1], s * u[0] + c * u[1], u[2]],
                };
                close3(q, r(pa(p)), 0.002, 1);
                close3(w, r(va(v)), 0.002, 4);
            }
            5 => {
                let pos = p3(20, -8., 8.);
                let d = v3(23, -4., 4.);
                let up = v3(26, -4., 4.);
                close3(pa(t.apply(&pt3(0., 0., 0.))), pa(pos), 0.01, 1);
                // rigid
                close(dot3(w, w), dot3(va(v), va(v)), 0.02, 4);
                // looks along d: the third axis is d scaled to unit length
                let z = va(t.apply(&vec3(0., 0., 1.)));
                close3(cross3(z, va(d)), [0., 0., 0.], 0.02, 5);
                check(dot3(z, va(d)) > 0., 8);
                // the second axis lies in the plane of d and up, on the side of up; the first completes a frame
                let y = va(t.apply(&vec3(0., 1., 0.)));
                let x = va(t.apply(&vec3(1., 0., 0.)));
                check(dot3(y, va(up)) > 0., 9);
                close(det3(y, va(up), va(d)), 0., 0.05, 10);
                close3(cross3(y, z), x, 0.02, 11);
            }
            6 => {
                let th = f(0, 5., 150.).to_radians() / 2.;
                let n = f(1, 0.0625, 4.);
                let fa = n + f(2, 0.5, 64.);
                let k = 1. / th.tan();
                close3(q, [p.x * k / p.z, p.y * k / p.z, fa * (p.z - n) / ((fa - n) * p.z)], 0.01, 1);
            }
            _ => {
                let m = |i: u32, j: u32| f(4 * i + j, -2., 2.);
                let mut e = [0f32; 3];
                let mut l = [0f32; 3];
                for i in 0..3 {
                    l[i as usize] = m(i, 0) * v.x + m(i, 1) * v.y + m(i, 2) * v.z;
                    e[i as usize] = m(i, 0) * p.x + m(i, 1) * p.y + m(i, 2) * p.z + m(i, 3);
                }
                close3(q, e, 0.002, 1);
                close3(w, l, 0.002, 4);
            }
        }
    }
    fn rays() {
        // a transformed ray passes through the transformed points at the same parameters
        let t = xf(param(0), 20);
        let ray = Ray { origin: p3(0, -8., 8.), direction: v3(3, -4., 4.), t_max: if param(1) == 1 { std::f32::INFINITY } else { f32_in(6, 0., 64.) } };
        let k = f32_in(7, -8., 8.);
        let x = pt3(ray.origin.x + ray.direction.x * k, ray.origin.y + ray.direction.y * k, ray.origin.z + ray.direction.z * k);
        let tr = t.apply(&ray);
        let tx = t.apply(&x);
        reach(0);
        close3([tr.origin.x + tr.direction.x * k, tr.origin.y + tr.direction.y * k, tr.origin.z + tr.direction.z * k], pa(tx), 0.02, 1);
        check(tr.t_max == ray.t_max, 4);
        let back = t.inverse_apply(&tr);
        close3(pa(back.origin), pa(ray.origin), 0.02, 5);
        close3(va(back.direction), va(ray.direction), 0.02, 8);
        check(back.t_max == ray.t_max, 11);
    }
    fn inter() {
        let t = xf(param(0), 20);
        let s: Arc<dyn pt::verif::shape::Shape> = Arc::new(Sphere::new(pt3(0., 0., 0.), 1., no_material()));
        let i = Interaction { p: p3(0, -8., 8.), p_err: v3(3, 0., 0.0625), uv: Point2f { x: f32_in(6, 0., 1.), y: f32_in(7, 0., 1.) },
            n: n3(8, -1., 1.), sn: n3(11, -1., 1.), dpdu: v3(14, -4., 4.), dpdv: v3(200, -4., 4.), wo: v3(203, -1., 1.), shape: Some(s) };
        let o = t.apply(&i);
        reach(0);
        close3(pa(o.p), pa(t.apply(&i.p)), 0.001, 1);
        close3(na(o.n), na(t.apply(&i.n)), 0.001, 4);
        close3(na(o.sn), na(t.apply(&i.sn)), 0.001, 7);
        close3(va(o.dpdu), va(t.apply(&i.dpdu)), 0.001, 10);
        close3(va(o.dpdv), va(t.apply(&i.dpdv)), 0.001, 13);
        close3(va(o.wo), va(t.apply(&i.wo)), 0.001, 16);
        close(o.uv.x, i.uv.x, 0.001, 19);
        close(o.uv.y, i.uv.y, 0.001, 20);
        close(dot3(va(o.dpdu), na(o.n)), dot3(va(i.dpdu), na(i.n)), 0.02, 21);
    }
    fn bbox_xf() {
        // the transformed box contains the transformed image of every point of the box
        let t = xf(param(0), 20);
        let a = p3(0, -4., 4.);
        let e = v3(3, 0., 4.);
        let u = v3(6, 0., 1.);
        let b = BBox3f { min: a, max: a + e };
        let x = pt3(a.x + e.x * u.x, a.y + e.y * u.y, a.z + e.z * u.z);
        let tb = if param(1) == 1 { t.inverse_apply(&b) } else { t.apply(&b) };
        let tx = if param(1) == 1 { t.inverse_apply(&x) } else { t.apply(&x) };
        reach(0);
        let tol = 0.001;
        check(tx.x >= tb.min.x - tol && tx.x <= tb.max.x + tol, 1);
        check(tx.y >= tb.min.y - tol && tx.y <= tb.max.y + tol, 2);
        check(tx.z >= tb.min.z - tol && tx.z <= tb.max.z + tol, 3);
    }
    fn camera() {
        // param 0: camera placement kind, 1: screen window (0 symbolic, 1 unit)
        let place = xf(param(0), 20);
        let fov = f32_in(0, 20., 120.);
        let n = f32_in(1, 0.0625, 2.);
        let f = n + f32_in(2, 0.5, 64.);
        let proj = Transform::perspective(fov, n, f);
        let (x0, y0) = (f32_in(3, -2., 2.), f32_in(4, -2., 2.));
        let (sw, sh) = (f32_in(5, 0.25, 4.), f32_in(6, 0.25, 4.));
        let win = BBox2f { min: Point2f { x: x0, y: y0 }, max: Point2f { x: x0 + sw, y: y0 + sh } };
        let res = Point2u { x: u32_in(7, 1, 4096), y: u32_in(8, 1, 4096) };
        let cam = PerspectiveCamera::new(place, proj, win, res);
        let (fx, fy) = (f32_in(9, -4., 4100.), f32_in(10, -4., 4100.));
        let ray = cam.generate_ray(&CameraSample { p_film: Point2f { x: fx, y: fy } });
        reach(0);
        let k = 1. / (fov.to_radians() / 2.).tan();
        // point of the plane z = 1 the ray has to pass through
        let px = (x0 + sw * fx / res.x as f32) / k;
        let py = (y0 + sh - sh * fy / res.y as f32) / k;
        let o = place.inverse_apply(&ray);
        close3(pa(o.origin), [0., 0., 0.], 0.01, 1);
        check(o.direction.z > 0., 4);
        close(dot3(va(o.direction), va(o.direction)), 1., 0.01, 5);
        close(o.direction.x, px * o.direction.z, 0.01, 6);
        close(o.direction.y, py * o.direction.z, 0.01, 7);
        check(ray.t_max == std::f32::INFINITY, 8);
    }
}
