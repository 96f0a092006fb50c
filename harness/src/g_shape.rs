use crate::sx::*;
use crate::kit::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::ray::Ray;
use pt::verif::interaction::Interaction;
use pt::verif::material::Material;
use pt::verif::vector::*;

fn tmax(id: u32, mode: i64) -> f32 { if mode == 1 { std::f32::INFINITY } else { f32_in(id, 0.125, 64.) } }

fn sphere() -> (Sphere, [f32; 3], f32) {
    let c = p3(0, -8., 8.);
    let r = f32_in(3, 0.125, 8.);
    (Sphere::new(c, r, no_material()), pa(c), r)
}

fn dir(id: u32) -> Vector3f {
    let d = v3(id, -4., 4.);
    assume(d.x * d.x + d.y * d.y + d.z * d.z > 0.0625);
    d
}

/// direction whose largest component lies along the given axis
fn main_dir(id: u32, axis: i64, sign: i64) -> Vector3f {
    let k = if sign == 0 { f32_in(id, 0.25, 4.) } else { f32_in(id, -4., -0.25) };
    let (a, b) = (f32_in(id + 1, -0.9375, 0.9375), f32_in(id + 2, -0.9375, 0.9375));
    match axis { 0 => vec3(k, k * a, k * b), 1 => vec3(k * b, k, k * a), _ => vec3(k * a, k * b, k) }
}

fn place(axis: i64, x: f32, y: f32, z: f32) -> Vector3f { match axis { 0 => vec3(z, x, y), 1 => vec3(y, z, x), _ => vec3(x, y, z) } }

fn inside(b: &BBox3f, p: [f32; 3], tol: f32, id: u32) {
    check(b.min.x - tol <= p[0] && p[0] <= b.max.x + tol, id);
    check(b.min.y - tol <= p[1] && p[1] <= b.max.y + tol, id + 1);
    check(b.min.z - tol <= p[2] && p[2] <= b.max.z + tol, id + 2);
}

fn at(o: Point3f, d: Vector3f, t: f32) -> [f32; 3] { [o.x + d.x * t, o.y + d.y * t, o.z + d.z * t] }

harnesses! {
    fn sphere_sound() {
        let (s, c, r) = sphere();
        let o = p3(4, -16., 16.);
        let o = pt3(c[0] + o.x, c[1] + o.y, c[2] + o.z);
        let d = dir(7);
        let t_max = tmax(10, param(0));
        let ray = Ray { origin: o, direction: d, t_max };
        if let Some((i, t)) = s.intersect(&ray) {
            reach(0);
            check(t > 0., 1);
            check(t <= t_max, 2);
            let v = sub3(at(o, d, t), c);
            close(dot3(v, v), r * r, 0.01, 3);
            if param(1) == 1 {
                let w = sub3(pa(i.p), c);
                close(dot3(w, w), r * r, 0.01, 10);
                close3(pa(i.p), at(o, d, t), 0.01, 11);
                close3([i.n.x * r, i.n.y * r, i.n.z * r], w, 0.01, 14);
                close3([i.sn.x, i.sn.y, i.sn.z], na(i.n), 0.01, 17);
                close3([-i.wo.x, -i.wo.y, -i.wo.z], va(d), 0.001, 20);
            }
        }
    }
    fn sphere_complete() {
        // the ray is built through a chosen point c + w of the surface
        let c = p3(0, -8., 8.);
        let w = v3(4, -4., 4.);
        let r = (w.x * w.x + w.y * w.y + w.z * w.z).sqrt();
        assume(r > 0.0625);
        let s = Sphere::new(c, r, no_material());
        let d = dir(7);
        let k = f32_in(11, 0.0625, 16.);
        let t_max = tmax(10, param(0));
        assume(k + 0.015625 <= t_max);
        let o = pt3(c.x + (w.x - d.x * k), c.y + (w.y - d.y * k), c.z + (w.z - d.z * k));
        let ray = Ray { origin: o, direction: d, t_max };
        reach(0);
        if param(1) == 0 {
            match s.intersect(&ray) {
                None => check(false, 1),
                Some((i, t)) => check(t <= k + 0.01, 2),
            }
        } else { check(s.intersect_p(&ray), 3) }
    }
    fn sphere_any() {
        let (s, c, r) = sphere();
        let o = p3(4, -16., 16.);
        let o = pt3(c[0] + o.x, c[1] + o.y, c[2] + o.z);
        let d = dir(7);
        let t_max = tmax(10, param(0));
        let ray = Ray { origin: o, direction: d, t_max };
        let near = s.intersect(&ray).is_some();
        reach(near as u32);
        check(s.intersect_p(&ray) == near, 1);
    }
    fn sphere_frame() {
        // shading frame at any hit: dpdu, dpdv perpendicular to the normal and non-zero, also at the poles
        let (s, c, r) = sphere();
        let u = match param(0) { 1 => [0., 0., 1.], 2 => [0., 0., -1.], _ => unit3(4) };
        let k = f32_in(11, 0.0625, 8.);
        let o = pt3(c[0] + (r + k) * u[0], c[1] + (r + k) * u[1], c[2] + (r + k) * u[2]);
        let ray = Ray { origin: o, direction: vec3(-u[0], -u[1], -u[2]), t_max: std::f32::INFINITY };
        if let Some((i, t)) = s.intersect(&ray) {
            reach(0);
            let n = na(i.n);
            close(dot3(n, n), 1., 0.01, 1);
            let (a, b) = (va(i.dpdu), va(i.dpdv));
            close(dot3(a, n), 0., 0.01, 2);
            close(dot3(b, n), 0., 0.01, 3);
            close(dot3(a, b), 0., 0.01, 4);
            check(dot3(a, a) > 0., 5);
        }
    }
    fn sphere_uv() {
        // the angles reported with a hit are the polar coordinates of the place hit; param 0: 0 = anywhere, 1/2 = poles, 3 = meridian x < 0, y = 0; 1: 1 = tangents
        let (s, c, r) = sphere();
        let u = match param(0) { 1 => [0., 0., 1.], 2 => [0., 0., -1.], 3 => { let q = f32_in(4, -1., 1.); [-1. / (1. + q * q).sqrt(), 0., q / (1. + q * q).sqrt()] } _ => unit3(4) };
        let k = f32_in(11, 0.0625, 8.);
        let o = pt3(c[0] + (r + k) * u[0], c[1] + (r + k) * u[1], c[2] + (r + k) * u[2]);
        let ray = Ray { origin: o, direction: vec3(-u[0], -u[1], -u[2]), t_max: std::f32::INFINITY };
        if let Some((i, _)) = s.intersect(&ray) {
            reach(0);
            let (phi, th) = (i.uv.x, i.uv.y);
            check(phi >= 0. && phi <= 6.2831860, 1);
            check(th >= 0. && th <= 3.1415930, 2);
            let (sp, cp, st, ct) = (phi.sin(), phi.cos(), th.sin(), th.cos());
            if param(1) == 0 {
                close3([r * st * cp, r * st * sp, r * ct], sub3(pa(i.p), c), 0.01, 3);
            } else {
                let (a, b) = (va(i.dpdu), va(i.dpdv));
                let (ea, eb) = ([-sp, cp, 0.], [ct * cp, ct * sp, -st]);
                check(dot3(a, ea) > 0., 10);
                close3(cross3(a, ea), [0., 0., 0.], 0.02, 11);
                check(dot3(b, eb) > 0., 14);
                close3(cross3(b, eb), [0., 0., 0.], 0.02, 15);
            }
        }
    }
    fn tri_sound() {
        // param 0: 1 = unlimited, 1: axis along which the direction is largest, 2: sign, 3: 1 = vertex normals, 4: 1 = reversed
        let o = p3(0, -8., 8.);
        let w = [v3(3, -8., 8.), v3(6, -8., 8.), v3(9, -8., 8.)];
        let d = main_dir(12, param(1), param(2));
        let t_max = tmax(15, param(0));
        let vs = [o + w[0], o + w[1], o + w[2]];
        let vn = if param(3) == 1 { Some([n3(16, -2., 2.), n3(19, -2., 2.), n3(22, -2., 2.)]) } else { None };
        let s = Triangle::new(vs, vn, param(4) == 1, no_material());
        let ray = Ray { origin: o, direction: d, t_max };
        if let Some((i, t)) = s.intersect(&ray) {
            reach(0);
            check(t > 0., 1);
            check(t <= t_max, 2);
            close3(pa(i.p), at(o, d, t), 0.01, 3);
            close3([-i.wo.x, -i.wo.y, -i.wo.z], va(d), 0.001, 6);
            let (e1, e2) = (va(w[1] - w[0]), va(w[2] - w[0]));
            let n = na(i.n);
            close(dot3(n, n), 1., 0.01, 10);
            close(dot3(n, e1), 0., 0.01, 11);
            close(dot3(n, e2), 0., 0.01, 12);
            // inside: the barycentric coordinates behind uv are not negative and give the point
            let (b0, b1, b2) = (1. - i.uv.x, i.uv.x - i.uv.y, i.uv.y);
            check(b0 >= -0.001 && b1 >= -0.001 && b2 >= -0.001, 13);
            let q = vs[0] * b0 + vs[1] * b1 + vs[2] * b2;
            close3(pa(i.p), pa(q), 0.01, 14);
        }
    }
    fn tri_complete() {
        // the triangle is built around the point k d of the ray, in coordinates sheared along the ray; params 0..2 as tri_sound, 3: 1 = intersect_p
        let o = p3(0, -8., 8.);
        let (b0, b1, b2) = (f32_in(3, 0., 1.), f32_in(4, 0., 1.), f32_in(5, 0.0625, 1.));
        let k = if param(2) == 0 { f32_in(12, 0.5, 4.) } else { -f32_in(12, 0.5, 4.) };
        let (a, b) = (f32_in(13, -0.9375, 0.9375), f32_in(14, -0.9375, 0.9375));
        let t_max = tmax(15, param(0));
        let t = f32_in(16, 0.25, 16.);
        assume(t + 0.25 <= t_max);
        let (x0, y0, x1, y1) = (f32_in(17, -4., 4.), f32_in(18, -4., 4.), f32_in(19, -4., 4.), f32_in(20, -4., 4.));
        let (z0, z1) = (f32_in(21, -4., 4.), f32_in(22, -4., 4.));
        let e = x0 * y1 - x1 * y0;
        if param(4) == 0 { assume(e > 0.0625) } else { assume(e < -0.0625) }
        let x2 = bounded(-(b0 * x0 + b1 * x1) / b2, -4., 4.);
        let y2 = bounded(-(b0 * y0 + b1 * y1) / b2, -4., 4.);
        let z2 = bounded((t * k * (b0 + b1 + b2) - b0 * z0 - b1 * z1) / b2, -8., 8.);
        let f = |x: f32, y: f32, z: f32| place(param(1), x + a * z, y + b * z, z);
        let w = [f(x0, y0, z0), f(x1, y1, z1), f(x2, y2, z2)];
        let d = place(param(1), k * a, k * b, k);
        let s = Triangle::new([o + w[0], o + w[1], o + w[2]], None, false, no_material());
        let ray = Ray { origin: o, direction: d, t_max };
        reach(0);
        if param(3) == 0 {
            match s.intersect(&ray) {
                None => check(false, 1),
                Some((_, th)) => close(th, t, 0.01, 2),
            }
        } else { check(s.intersect_p(&ray), 3) }
    }
    fn tri_uv() {
        // the ray passes through a chosen place of the triangle; its texture coordinates are those of the place; params 0: axis, 1: sign, 2: winding
        let o = p3(0, -8., 8.);
        let (b0, b1, b2) = (f32_in(3, 0., 1.), f32_in(4, 0., 1.), f32_in(5, 0.0625, 1.));
        let k = if param(1) == 0 { f32_in(12, 0.5, 4.) } else { -f32_in(12, 0.5, 4.) };
        let (a, b) = (f32_in(13, -0.9375, 0.9375), f32_in(14, -0.9375, 0.9375));
        let t = f32_in(16, 0.25, 16.);
        let (x0, y0, x1, y1) = (f32_in(17, -4., 4.), f32_in(18, -4., 4.), f32_in(19, -4., 4.), f32_in(20, -4., 4.));
        let (z0, z1) = (f32_in(21, -4., 4.), f32_in(22, -4., 4.));
        let e = x0 * y1 - x1 * y0;
        if param(2) == 0 { assume(e > 0.0625) } else { assume(e < -0.0625) }
        let x2 = bounded(-(b0 * x0 + b1 * x1) / b2, -4., 4.);
        let y2 = bounded(-(b0 * y0 + b1 * y1) / b2, -4., 4.);
        let z2 = bounded((t * k * (b0 + b1 + b2) - b0 * z0 - b1 * z1) / b2, -8., 8.);
        let f = |x: f32, y: f32, z: f32| place(param(0), x + a * z, y + b * z, z);
        let w = [f(x0, y0, z0), f(x1, y1, z1), f(x2, y2, z2)];
        let d = place(param(0), k * a, k * b, k);
        let s = Triangle::new([o + w[0], o + w[1], o + w[2]], None, false, no_material());
        let ray = Ray { origin: o, direction: d, t_max: std::f32::INFINITY };
        if let Some((i, _)) = s.intersect(&ray) {
            reach(0);
            let sum = b0 + b1 + b2;
            close(i.uv.x, (b1 + b2) / sum, 0.01, 1);
            close(i.uv.y, b2 / sum, 0.01, 2);
            close3(va(i.dpdu), va(w[1] - w[0]), 0.01, 3);
            close3(va(i.dpdv), va(w[2] - w[1]), 0.01, 6);
        }
    }
    fn tri_any() {
        let o = p3(0, -8., 8.);
        let w = [v3(3, -8., 8.), v3(6, -8., 8.), v3(9, -8., 8.)];
        let d = main_dir(12, param(1), param(2));
        let t_max = tmax(15, param(0));
        let s = Triangle::new([o + w[0], o + w[1], o + w[2]], None, false, no_material());
        let ray = Ray { origin: o, direction: d, t_max };
        let near = s.intersect(&ray).is_some();
        reach(near as u32);
        check(s.intersect_p(&ray) == near, 1);
    }
    fn box_sphere() {
        // every surface point lies in the box; 0: surface point, 1: reported hit
        let (s, c, r) = sphere();
        let b = s.bbox();
        let p = if param(0) == 0 {
            let u = unit3(4);
            [c[0] + r * u[0], c[1] + r * u[1], c[2] + r * u[2]]
        } else {
            let o = p3(4, -16., 16.);
            let d = dir(7);
            let ray = Ray { origin: pt3(c[0] + o.x, c[1] + o.y, c[2] + o.z), direction: d, t_max: std::f32::INFINITY };
            match s.intersect(&ray) { Some((i, _)) => pa(i.p), None => return }
        };
        reach(0);
        inside(&b, p, 0.001, 1);
        // tight: a box of twice the radius per axis
        close(b.max.x - b.min.x, 2. * r, 0.01, 4);
        close(b.max.y - b.min.y, 2. * r, 0.01, 5);
        close(b.max.z - b.min.z, 2. * r, 0.01, 6);
        close(s.area(), 4. * std::f32::consts::PI * r * r, 0.01, 7);
    }
    fn box_tri() {
        // param 0: 0 convex combination, 1 sampled point
        let v = [p3(0, -8., 8.), p3(3, -8., 8.), p3(6, -8., 8.)];
        let s = Triangle::new(v, None, bool_in(9), no_material());
        let b = s.bbox();
        if param(0) == 0 {
            let (x, y) = (f32_in(10, 0., 1.), f32_in(11, 0., 1.));
            assume(x + y <= 1.);
            let z = 1. - x - y;
            let p = [v[0].x * z + v[1].x * x + v[2].x * y, v[0].y * z + v[1].y * x + v[2].y * y, v[0].z * z + v[1].z * x + v[2].z * y];
            reach(0);
            inside(&b, p, 0.001, 1);
            // tight: every face touches a vertex
            check(b.min.x >= v[0].x.min(v[1].x).min(v[2].x) && b.max.x <= v[0].x.max(v[1].x).max(v[2].x), 4);
            check(b.min.y >= v[0].y.min(v[1].y).min(v[2].y) && b.max.y <= v[0].y.max(v[1].y).max(v[2].y), 5);
            check(b.min.z >= v[0].z.min(v[1].z).min(v[2].z) && b.max.z <= v[0].z.max(v[1].z).max(v[2].z), 6);
            let k = cross3(va(v[1] - v[0]), va(v[2] - v[0]));
            close(4. * s.area() * s.area(), dot3(k, k), 0.01, 7);
        } else {
            let (a, b1) = (f32_in(10, 0., 1.), f32_in(11, 0., 1.));
            let e = [v[1] - v[0], v[2] - v[0]];
            let k = cross3(va(e[0]), va(e[1]));
            assume(dot3(k, k) > 0.0625);
            let i = s.sample(Point2f { x: a, y: b1 });
            reach(1);
            inside(&b, pa(i.p), 0.001, 11);
            let n = na(i.n);
            close(dot3(n, n), 1., 0.01, 14);
            close(dot3(n, va(e[0])), 0., 0.01, 15);
            close(dot3(n, va(e[1])), 0., 0.01, 16);
            // the sampled point is a point of the triangle: uniform in area with the corner weights below
            let q = a.sqrt();
            let w = [1. - q, b1 * q, q - b1 * q];
            let near = |x: [f32; 3]| sub3(pa(i.p), x);
            let m = near([v[0].x * w[0] + v[1].x * w[1] + v[2].x * w[2], v[0].y * w[0] + v[1].y * w[1] + v[2].y * w[2], v[0].z * w[0] + v[1].z * w[1] + v[2].z * w[2]]);
            close(dot3(m, k), 0., 0.01, 17);
        }
    }
    fn box_tri_hit() {
        let (b0, b1, b2) = (f32_in(9, 0., 1.), f32_in(10, 0., 1.), f32_in(11, 0.0625, 1.));
        let (x0, y0, x1, y1) = (f32_in(0, -4., 4.), f32_in(1, -4., 4.), f32_in(3, -4., 4.), f32_in(4, -4., 4.));
        let e = x0 * y1 - x1 * y0;
        if param(0) == 0 { assume(e > 0.0625) } else { assume(e < -0.0625) }
        let x2 = bounded(-(b0 * x0 + b1 * x1) / b2, -4., 4.);
        let y2 = bounded(-(b0 * y0 + b1 * y1) / b2, -4., 4.);
        let o = p3(12, -8., 8.);
        let vs = [o + vec3(x0, y0, f32_in(2, 0.5, 8.)), o + vec3(x1, y1, f32_in(5, 0.5, 8.)), o + vec3(x2, y2, f32_in(8, 0.5, 8.))];
        let s = Triangle::new(vs, None, false, no_material());
        let ray = Ray { origin: o, direction: vec3(0., 0., 1.), t_max: std::f32::INFINITY };
        let b = s.bbox();
        if let Some((i, _)) = s.intersect(&ray) {
            reach(0);
            inside(&b, pa(i.p), 0.001, 1);
        }
    }
    fn box_union() {
        // param 0: number of shapes joined by bbox_of_shapes
        let (a, b) = (p3(0, -8., 8.), p3(3, -8., 8.));
        let (e, f) = (v3(6, 0., 8.), v3(9, 0., 8.));
        let (x, y) = (BBox3f { min: a, max: a + e }, BBox3f { min: b, max: b + f });
        let u = x.union(&y);
        reach(0);
        let q = v3(12, 0., 1.);
        let pick_b = bool_in(15);
        let (c, g) = if pick_b { (b, f) } else { (a, e) };
        inside(&u, [c.x + g.x * q.x, c.y + g.y * q.y, c.z + g.z * q.z], 0., 1);
        check(u.min.x == a.x.min(b.x) && u.min.y == a.y.min(b.y) && u.min.z == a.z.min(b.z), 4);
        check(u.max.x == x.max.x.max(y.max.x) && u.max.y == x.max.y.max(y.max.y) && u.max.z == x.max.z.max(y.max.z), 5);
        let r = p3(16, -16., 16.);
        let up = x.union_point(r);
        inside(&up, pa(r), 0., 6);
        inside(&up, [a.x + e.x * q.x, a.y + e.y * q.y, a.z + e.z * q.z], 0., 9);
        let n = BBox3f::new(a, b);
        inside(&n, pa(a), 0., 12);
        inside(&n, pa(b), 0., 15);
        check(n.min.x == a.x || n.min.x == b.x, 18);
        check(n.max.z == a.z || n.max.z == b.z, 19);
        // overlap is sharing a point
        let ov = x.overlaps(&y);
        let share = |l0: f32, h0: f32, l1: f32, h1: f32| l0.max(l1) <= h0.min(h1);
        check(ov == (share(x.min.x, x.max.x, y.min.x, y.max.x) && share(x.min.y, x.max.y, y.min.y, y.max.y) && share(x.min.z, x.max.z, y.min.z, y.max.z)), 20);
        check(x.point_inside(r) == (a.x <= r.x && r.x <= x.max.x && a.y <= r.y && r.y <= x.max.y && a.z <= r.z && r.z <= x.max.z), 21);
        // the bounding sphere contains the box
        let (sc, sr) = x.bounding_sphere();
        let d = sub3([a.x + e.x * q.x, a.y + e.y * q.y, a.z + e.z * q.z], pa(sc));
        check(dot3(d, d) <= sr * sr + 0.01, 22);
    }
    fn box_shapes() {
        let n = param(0) as usize;
        let mut v: Vec<Arc<dyn pt::verif::shape::Shape>> = Vec::new();
        let mut cs = Vec::new();
        for k in 0..n {
            let c = p3(10 * k as u32, -8., 8.);
            let r = f32_in(10 * k as u32 + 3, 0.125, 8.);
            cs.push((c, r));
            v.push(Arc::new(Sphere::new(c, r, no_material())));
        }
        let b = BBox3f::bbox_of_shapes(&v);
        reach(0);
        let j = pick(99, n as u32) as usize;
        let (c, r) = cs[j];
        check(b.min.x <= c.x - r && b.min.y <= c.y - r && b.min.z <= c.z - r, 1);
        check(b.max.x >= c.x + r && b.max.y >= c.y + r && b.max.z >= c.z + r, 2);
        let mut k = 0;
        for &(c, r) in &cs { if b.min.x == c.x - r { k += 1; } }
        check(k >= 1, 3);
    }
    fn tri_frame() {
        // param 0: 1 = vertex normals, 1: reversed
        let z = [f32_in(2, 0.5, 8.), f32_in(5, 0.5, 8.), f32_in(8, 0.5, 8.)];
        let (b0, b1, b2) = (f32_in(9, 0., 1.), f32_in(10, 0., 1.), f32_in(11, 0.0625, 1.));
        let (x0, y0, x1, y1) = (f32_in(0, -4., 4.), f32_in(1, -4., 4.), f32_in(3, -4., 4.), f32_in(4, -4., 4.));
        let e = x0 * y1 - x1 * y0;
        if param(2) == 0 { assume(e > 0.0625) } else { assume(e < -0.0625) }
        let x2 = bounded(-(b0 * x0 + b1 * x1) / b2, -4., 4.);
        let y2 = bounded(-(b0 * y0 + b1 * y1) / b2, -4., 4.);
        let (x0, y0, x1, y1, x2, y2, z) = if param(3) == 1 {
            // the triangle and the place hit are given, only the vertex normals vary
            if param(2) == 0 { (-1., -1., 1., -1., 0., 1., [1., 2., 1.5]) } else { (-1., 1., 1., 1., 0., -1., [1., 1., 1.]) }
        } else { (x0, y0, x1, y1, x2, y2, z) };
        let vs = [pt3(x0, y0, z[0]), pt3(x1, y1, z[1]), pt3(x2, y2, z[2])];
        let vn = if param(0) == 1 { Some([n3(20, -2., 2.), n3(23, -2., 2.), n3(26, -2., 2.)]) } else { None };
        let s = Triangle::new(vs, vn, param(1) == 1, no_material());
        let ray = Ray { origin: pt3(0., 0., 0.), direction: vec3(0., 0., 1.), t_max: std::f32::INFINITY };
        if let Some((i, _)) = s.intersect(&ray) {
            reach(0);
            let (n, sn) = (na(i.n), na(i.sn));
            let (u, v) = (va(i.dpdu), va(i.dpdv));
            close(dot3(n, n), 1., 0.01, 1);
            close(dot3(sn, sn), 1., 0.01, 2);
            close(dot3(u, sn), 0., 0.01, 3);
            close(dot3(v, sn), 0., 0.01, 4);
            check(dot3(n, sn) >= -0.001, 5);
            if param(0) == 1 {
                close(dot3(u, u), 1., 0.01, 6);
                close(dot3(v, v), 1., 0.01, 7);
                close(dot3(u, v), 0., 0.01, 8);
            } else {
                let c = cross3(u, v);
                check(dot3(c, c) > 0., 9);
                let (e1, e2) = (va(vs[1] - vs[0]), va(vs[2] - vs[0]));
                let g = cross3(e1, e2);
                close3(cross3(n, g), [0., 0., 0.], 0.01, 10);
            }
        }
    }
    fn mesh() {
        // every indexed triangle of a mesh exists, with its own vertices and normals
        let vs: Vec<Point3f> = (0..4).map(|k| p3(10 * k, -4., 4.)).collect();
        let ix = [[pick(90, 4) as usize, pick(91, 4) as usize, pick(92, 4) as usize], [3usize, 1, 2]];
        let with_n = param(0) == 1;
        let ns: Vec<Normal3f> = (0..3).map(|k| n3(50 + 10 * k, -1., 1.)).collect();
        let nix = [[2usize, 0, 1], [1, 1, 0]];
        let ts = Triangle::new_triangle_mesh(vs.clone().into_boxed_slice(), Box::new(ix),
            if with_n { Some(ns.into_boxed_slice()) } else { None }, if with_n { Some(Box::new(nix)) } else { None }, no_material());
        reach(0);
        check(ts.len() == 2, 1);
        for k in 0..2 {
            let b = ts[k].bbox();
            let (p, q, r) = (vs[ix[k][0]], vs[ix[k][1]], vs[ix[k][2]]);
            check(b.min.x == p.x.min(q.x).min(r.x) && b.min.y == p.y.min(q.y).min(r.y) && b.min.z == p.z.min(q.z).min(r.z), 2);
            check(b.max.x == p.x.max(q.x).max(r.x) && b.max.y == p.y.max(q.y).max(r.y) && b.max.z == p.z.max(q.z).max(r.z), 3);
            // sampling at the corners gives the vertices in order
            let a = ts[k].sample(Point2f { x: 0., y: 0. });
            close3(pa(a.p), pa(p), 0.001, 4);
            let a = ts[k].sample(Point2f { x: 1., y: 1. });
            close3(pa(a.p), pa(q), 0.001, 7);
            let a = ts[k].sample(Point2f { x: 1., y: 0. });
            close3(pa(a.p), pa(r), 0.001, 10);
        }
    }
}
