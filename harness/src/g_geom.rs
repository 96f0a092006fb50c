use crate::sx::*;
use crate::kit::*;
use std::sync::Arc;
use pt::api::*;
use pt::verif::bbox::*;
use pt::verif::ray::Ray;
use pt::verif::interaction::Interaction;
use pt::verif::vector::*;

/// a unit vector in the given octant (bit k set: component k negative); 8: lying along an axis
fn octant(id: u32, o: i64) -> Vector3f {
    match o {
        8 => return vec3(1., 0., 0.), 9 => return vec3(0., -1., 0.), 10 => return vec3(0., 0., 1.), 11 => return vec3(-1., 0., 0.),
        12 => return vec3(0., 1., 0.), 13 => return vec3(0., 0., -1.), _ => (),
    }
    let n = unit(id);
    let b = |x: f32, k: i64| assume(if o >> k & 1 == 1 { x < 0. } else { x > 0. });
    b(n.x, 0); b(n.y, 1); b(n.z, 2);
    n
}

fn pos(id: u32, o: i64) -> Point3f {
    if o == 8 { return pt3(0., 0., 0.) }
    let c = |k: u32| { let v = f32_in(id + k, 0.0625, 8.); if o >> k & 1 == 1 { -v } else { v } };
    pt3(c(0), c(1), c(2))
}

harnesses! {
    fn slab() {
        // params 0..2: kinds of the direction components; 3: 1 = unlimited ray, 4: axis of a flat box (or -1)
        let a = p3(0, -8., 8.);
        let b = p3(3, -8., 8.);
        let (lo, hi) = (a, b);
        assume(lo.x <= hi.x && lo.y <= hi.y && lo.z <= hi.z);
        let bx = BBox3f { min: lo, max: hi };
        let o = p3(6, -16., 16.);
        let d = vec3(comp(9, param(0)), comp(10, param(1)), comp(11, param(2)));
        let t_max = if param(3) == 1 { std::f32::INFINITY } else { f32_in(12, 0., 64.) };
        let s = f32_in(13, 0., 64.);
        assume(s <= t_max);
        let q = [o.x + d.x * s, o.y + d.y * s, o.z + d.z * s];
        assume(lo.x <= q[0] && q[0] <= hi.x && lo.y <= q[1] && q[1] <= hi.y && lo.z <= q[2] && q[2] <= hi.z);
        reach(0);
        let r = bx.intersect(&Ray { origin: o, direction: d, t_max });
        match r {
            None => check(false, 1),
            Some((t0, t1)) => { check(t0 <= s + 0.001, 2); check(s <= t1 + 0.001, 3); check(t0 >= 0. && t1 <= t_max, 4) }
        }
    }

    fn spawn() {
        // param 0: 0 = side, 1 = offset bound, 2 = ray fields
        let n = octant(0, param(1));
        let e = v3(3, 0., 0.03125);
        let p = pos(6, param(2));
        let w = v3(9, -4., 4.);
        let i = Interaction { p, p_err: e, n: nrm(n.x, n.y, n.z), ..Default::default() };
        let r = i.spawn_ray(w);
        reach(0);
        let d = n.x.abs() * e.x + n.y.abs() * e.y + n.z.abs() * e.z;
        let m = sub3(pa(r.origin), pa(p));
        let nv = va(n);
        if param(0) == 0 {
            // the whole error box around p stays on the other side of the moved tangent plane
            let s = dot3(nv, va(w));
            if s > 1e-4 { check(dot3(nv, m) >= d - 1e-5, 1) } else if s < -1e-4 { check(-dot3(nv, m) >= d - 1e-5, 2) }
        } else if param(0) == 1 {
            for k in 0..3 { check(m[k].abs() <= nv[k].abs() * d + 4e-6, 3 + k as u32); }
        } else {
            close3(va(r.direction), va(w), 1e-5, 6);
            check(r.t_max == std::f32::INFINITY, 9);
        }
    }

    fn spawn_to() {
        // param 0: 0 = origin, 1 = target; param 1: 1 = the far side of the own plane, param 2: of the other plane
        // params 3, 5: octants of the normals; 4, 6: of the points
        let n = octant(0, param(3));
        let e = v3(3, 0., 0.03125);
        let p = pos(6, param(4));
        let n2 = octant(9, param(5));
        let e2 = v3(12, 0., 0.03125);
        let q = pos(15, param(6));
        let a = Interaction { p, p_err: e, n: nrm(n.x, n.y, n.z), ..Default::default() };
        let b = Interaction { p: q, p_err: e2, n: nrm(n2.x, n2.y, n2.z), ..Default::default() };
        let w = sub3(pa(q), pa(p));
        let (nv, nw) = (va(n), va(n2));
        let sa = dot3(nv, w);
        let sb = dot3(nw, w);
        assume(if param(1) == 1 { sa < -1e-3 } else { sa > 1e-3 });
        assume(if param(2) == 1 { sb < -1e-3 } else { sb > 1e-3 });
        let r = a.spawn_ray_to(&b);
        reach(0);
        check(r.t_max < 1., 1);
        check(r.t_max >= 0.999, 2);
        let o = pa(r.origin);
        let end = [o[0] + r.direction.x, o[1] + r.direction.y, o[2] + r.direction.z];
        let (m, nn, ee, s) = if param(0) == 0 { (sub3(o, pa(p)), nv, va(e), param(1) == 0) } else { (sub3(end, pa(q)), nw, va(e2), param(2) == 1) };
        let d = nn[0].abs() * ee[0] + nn[1].abs() * ee[1] + nn[2].abs() * ee[2];
        let g = if s { dot3(nn, m) } else { -dot3(nn, m) };
        check(g >= d - 1e-5, 3);
        for k in 0..3 { check(m[k].abs() <= nn[k].abs() * d + 1e-5, 4 + k as u32); }
    }

    fn ulp() {
        // param 0: sign of x, or 2 = zero
        let x = match param(0) { 0 => f32_in(0, 0.0625, 8.), 1 => -f32_in(0, 0.0625, 8.), 2 => 0., _ => -0. };
        let u = pt::verif::common::next_float_up(x);
        let d = pt::verif::common::next_float_down(x);
        reach(0);
        check(u > x, 1);
        check(d < x, 2);
        check(u <= x + 1e-6 * (x.abs() + 1e-3), 3);
        check(d >= x - 1e-6 * (x.abs() + 1e-3), 4);
    }
}
