//! Native replay of harnesses on concrete inputs. stdin: one case per line,
//!   <harness> [p<i>=<int>]... [f<i>=<num>] [i<i>=<num>] [u<i>=<num>,<num>,<num>] ...
//! stdout, one line per case: OK | ASSUME | FAIL <id> <text> | PANIC <text>, then the reached ids.
#![allow(bare_trait_objects, dead_code, unused_imports, unused_mut)]
#[path = "../../src/sx.rs"] #[macro_use] pub mod sx;
#[path = "../../src/kit.rs"] pub mod kit;
#[cfg(feature = "g_geom")] #[path = "../../src/g_geom.rs"] pub mod g_geom;
#[cfg(feature = "g_kd")] #[path = "../../src/g_kd.rs"] pub mod g_kd;
#[cfg(feature = "g_shape")] #[path = "../../src/g_shape.rs"] pub mod g_shape;
#[cfg(feature = "g_xform")] #[path = "../../src/g_xform.rs"] pub mod g_xform;
#[cfg(feature = "g_film")] #[path = "../../src/g_film.rs"] pub mod g_film;
#[cfg(feature = "g_ppm")] #[path = "../../src/g_ppm.rs"] pub mod g_ppm;
#[cfg(feature = "g_samp")] #[path = "../../src/g_samp.rs"] pub mod g_samp;
#[cfg(feature = "g_bxdf")] #[path = "../../src/g_bxdf.rs"] pub mod g_bxdf;
#[cfg(feature = "g_fres")] #[path = "../../src/g_fres.rs"] pub mod g_fres;
#[cfg(feature = "g_light")] #[path = "../../src/g_light.rs"] pub mod g_light;
#[cfg(feature = "g_sched")] #[path = "../../src/g_sched.rs"] pub mod g_sched;
#[cfg(feature = "g_world")] #[path = "../../src/g_world.rs"] pub mod g_world;
#[cfg(feature = "g_scene")] #[path = "../../src/g_scene.rs"] pub mod g_scene;
#[cfg(feature = "g_integ")] #[path = "../../src/g_integ.rs"] pub mod g_integ;
#[cfg(feature = "g_mat")] #[path = "../../src/g_mat.rs"] pub mod g_mat;

fn lookup(n: &str) -> Option<fn()> {
    let mut r: Option<fn()> = None;
    #[cfg(feature = "g_geom")] { r = r.or(g_geom::lookup(n)); }
    #[cfg(feature = "g_kd")] { r = r.or(g_kd::lookup(n)); }
    #[cfg(feature = "g_shape")] { r = r.or(g_shape::lookup(n)); }
    #[cfg(feature = "g_xform")] { r = r.or(g_xform::lookup(n)); }
    #[cfg(feature = "g_film")] { r = r.or(g_film::lookup(n)); }
    #[cfg(feature = "g_ppm")] { r = r.or(g_ppm::lookup(n)); }
    #[cfg(feature = "g_samp")] { r = r.or(g_samp::lookup(n)); }
    #[cfg(feature = "g_bxdf")] { r = r.or(g_bxdf::lookup(n)); }
    #[cfg(feature = "g_fres")] { r = r.or(g_fres::lookup(n)); }
    #[cfg(feature = "g_light")] { r = r.or(g_light::lookup(n)); }
    #[cfg(feature = "g_sched")] { r = r.or(g_sched::lookup(n)); }
    #[cfg(feature = "g_world")] { r = r.or(g_world::lookup(n)); }
    #[cfg(feature = "g_scene")] { r = r.or(g_scene::lookup(n)); }
    #[cfg(feature = "g_integ")] { r = r.or(g_integ::lookup(n)); }
    #[cfg(feature = "g_mat")] { r = r.or(g_mat::lookup(n)); }
    r
}

use std::io::{BufRead, Write};
use std::panic;

fn num(s: &str) -> f64 {
    match s.split_once('/') {
        Some((a, b)) => num(a) / num(b),
        None => s.parse().unwrap(),
    }
}

fn main() {
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = last.clone();
    panic::set_hook(Box::new(move |i| { if let Ok(mut g) = l2.lock() { *g = format!("{}", i).replace('\n', " "); } }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let name = match it.next() { Some(n) => n.to_string(), None => continue };
        sx::CTX.with(|c| {
            let mut c = c.borrow_mut();
            *c = Default::default();
            for kv in it {
                let (k, v) = kv.split_once('=').unwrap();
                if k.starts_with('p') {
                    c.params.insert(k[1..].parse().unwrap(), v.parse().unwrap());
                } else {
                    c.inputs.insert(k.to_string(), v.split(',').map(num).collect());
                }
            }
        });
        sx::publish();
        let f = match lookup(&name) { Some(f) => f, None => { println!("NOHARNESS"); continue } };
        let r = panic::catch_unwind(f);
        let (ok, reached) = sx::CTX.with(|c| { let c = c.borrow(); (c.panic_ok, c.reached.clone()) });
        let out = match r {
            Ok(()) => "OK".to_string(),
            Err(e) => {
                if e.downcast_ref::<sx::Assume>().is_some() { "ASSUME".to_string() }
                else if let Some(sx::Fail(id, s)) = e.downcast_ref::<sx::Fail>() { format!("FAIL {} {}", id, s) }
                else if ok { "OK".to_string() }
                else { format!("PANIC {}", last.lock().unwrap()) }
            }
        };
        println!("{} ## {}", out, reached.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        std::io::stdout().flush().unwrap();
    }
}
