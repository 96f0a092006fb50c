//! The vocabulary of the harnesses. Under the solver these are intercepted by the symbolic executor; natively
//! (feature `native`) they read a concrete input vector, so that a counterexample can be replayed on the real code.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sx_f32(id: u32, lo: f32, hi: f32) -> f32;
        fn sx_i32(id: u32, lo: i32, hi: i32) -> i32;
        fn sx_u32(id: u32, lo: u32, hi: u32) -> u32;
        fn sx_i64(id: u32, lo: i64, hi: i64) -> i64;
        fn sx_bool(id: u32) -> bool;
        fn sx_pick(id: u32, n: u32) -> u32;
        fn sx_unit3(id: u32, p: *mut f32);
        fn sx_param(id: u32) -> i64;
        fn sx_assume(c: bool);
        fn sx_assert(c: bool, id: u32);
        fn sx_close(a: f32, b: f32, tol: f32, id: u32);
        fn sx_deriv(x: f32, id: u32) -> f32;
        fn sx_bound(x: f32, lo: f32, hi: f32) -> f32;
        fn sx_reach(id: u32);
        fn sx_panic_ok(ok: bool);
        fn sx_file_old(n: u32);
        fn sx_file_len() -> u32;
        fn sx_file_byte(i: u32) -> u8;
    }
    pub fn f32_in(id: u32, lo: f32, hi: f32) -> f32 { unsafe { sx_f32(id, lo, hi) } }
    pub fn i32_in(id: u32, lo: i32, hi: i32) -> i32 { unsafe { sx_i32(id, lo, hi) } }
    pub fn u32_in(id: u32, lo: u32, hi: u32) -> u32 { unsafe { sx_u32(id, lo, hi) } }
    pub fn i64_in(id: u32, lo: i64, hi: i64) -> i64 { unsafe { sx_i64(id, lo, hi) } }
    pub fn bool_in(id: u32) -> bool { unsafe { sx_bool(id) } }
    pub fn pick(id: u32, n: u32) -> u32 { unsafe { sx_pick(id, n) } }
    pub fn unit3(id: u32) -> [f32; 3] {
        let mut v = [0f32; 3];
        unsafe { sx_unit3(id, v.as_mut_ptr()) };
        v
    }
    pub fn param(i: u32) -> i64 { unsafe { sx_param(i) } }
    pub fn assume(c: bool) { unsafe { sx_assume(c) } }
    pub fn check(c: bool, id: u32) { unsafe { sx_assert(c, id) } }
    pub fn close(a: f32, b: f32, tol: f32, id: u32) { unsafe { sx_close(a, b, tol, id) } }
    /// x, assumed to lie in [lo, hi]
    pub fn bounded(x: f32, lo: f32, hi: f32) -> f32 { unsafe { sx_bound(x, lo, hi) } }
    pub fn reach(id: u32) { unsafe { sx_reach(id) } }
    pub fn panic_ok(ok: bool) { unsafe { sx_panic_ok(ok) } }
    /// value of f and of its partial derivatives by the float inputs `ids`
    pub fn jac<const N: usize, const K: usize, F: Fn() -> [f32; N]>(ids: [u32; K], f: F) -> ([f32; N], [[f32; K]; N]) {
        let v = f();
        let mut d = [[0f32; K]; N];
        for i in 0..N { for k in 0..K { d[i][k] = unsafe { sx_deriv(v[i], ids[k]) }; } }
        (v, d)
    }
    pub fn symbolic() -> bool { true }
    /// lets other threads run natively
    pub fn pause() {}
    pub fn repeat<F: FnMut()>(_ms: i64, mut f: F) { f() }
    /// the output file exists and is n bytes long
    pub fn file_old(n: u32) { unsafe { sx_file_old(n) } }
    pub fn file_len() -> u32 { unsafe { sx_file_len() } }
    pub fn file_byte(i: u32) -> u8 { unsafe { sx_file_byte(i) } }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;
    #[derive(Default, Clone)]
    pub struct Ctx {
        pub inputs: HashMap<String, Vec<f64>>,
        pub over: HashMap<u32, f32>,
        pub params: HashMap<u32, i64>,
        pub reached: Vec<u32>,
        pub panic_ok: bool,
        pub assume_depth: bool,
    }
    static SHARED: std::sync::Mutex<Option<Ctx>> = std::sync::Mutex::new(None);
    // threads of the program see the inputs, too
    thread_local!(pub static CTX: RefCell<Ctx> = RefCell::new(SHARED.lock().unwrap().clone().unwrap_or_default()));
    pub fn publish() { let c = CTX.with(|c| c.borrow().clone()); *SHARED.lock().unwrap() = Some(c); }
    pub struct Assume;
    pub struct Fail(pub u32, pub String);
    fn get(k: char, id: u32, j: usize) -> f64 {
        CTX.with(|c| c.borrow().inputs.get(&format!("{}{}", k, id)).map(|v| v[j]).unwrap_or(0.))
    }
    pub fn f32_in(id: u32, lo: f32, hi: f32) -> f32 {
        if let Some(v) = CTX.with(|c| c.borrow().over.get(&id).cloned()) { return v; }
        let v = get('f', id, 0) as f32;
        if v < lo { lo } else if v > hi { hi } else { v }
    }
    pub fn i32_in(id: u32, lo: i32, hi: i32) -> i32 { (get('i', id, 0) as i32).max(lo).min(hi) }
    pub fn u32_in(id: u32, lo: u32, hi: u32) -> u32 { (get('i', id, 0) as u32).max(lo).min(hi) }
    pub fn i64_in(id: u32, lo: i64, hi: i64) -> i64 { (get('i', id, 0) as i64).max(lo).min(hi) }
    pub fn bool_in(id: u32) -> bool { get('i', id, 0) != 0. }
    pub fn pick(id: u32, n: u32) -> u32 { (get('i', id, 0) as u32).min(n - 1) }
    pub fn unit3(id: u32) -> [f32; 3] {
        let v = [get('u', id, 0), get('u', id, 1), get('u', id, 2)];
        let l = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
        if l < 1e-6 { std::panic::panic_any(Assume) }
        [(v[0] / l) as f32, (v[1] / l) as f32, (v[2] / l) as f32]
    }
    pub fn param(i: u32) -> i64 { CTX.with(|c| c.borrow().params.get(&i).cloned().unwrap_or(0)) }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Assume) } }
    pub fn check(c: bool, id: u32) { if !c { std::panic::panic_any(Fail(id, "assertion is false".to_string())) } }
    pub fn close(a: f32, b: f32, tol: f32, id: u32) {
        let m = if b.abs() > 1. { b.abs() } else { 1. };
        let ok = a == b || (a - b).abs() <= 0.5 * tol * m;
        if !ok { std::panic::panic_any(Fail(id, format!("{:?} differs from {:?}", a, b))) }
    }
    pub fn bounded(x: f32, lo: f32, hi: f32) -> f32 { assume(lo <= x && x <= hi); x }
    pub fn reach(id: u32) { CTX.with(|c| c.borrow_mut().reached.push(id)) }
    pub fn panic_ok(ok: bool) { CTX.with(|c| c.borrow_mut().panic_ok = ok) }
    pub fn jac<const N: usize, const K: usize, F: Fn() -> [f32; N]>(ids: [u32; K], f: F) -> ([f32; N], [[f32; K]; N]) {
        let v = f();
        let mut d = [[0f32; K]; N];
        for k in 0..K {
            let x = get('f', ids[k], 0) as f32;
            let h = 2e-3f32;
            let at = |x: f32| { CTX.with(|c| c.borrow_mut().over.insert(ids[k], x)); let r = f(); CTX.with(|c| c.borrow_mut().over.remove(&ids[k])); r };
            let (a, b) = (at(x + h), at(x - h));
            for i in 0..N { d[i][k] = (a[i] - b[i]) / ((x + h) - (x - h)); }
        }
        (v, d)
    }
    pub fn symbolic() -> bool { false }
    /// lets other threads run, for a while that differs from call to call
    pub fn pause() {
        thread_local!(static RND: std::cell::Cell<u64> = std::cell::Cell::new(0));
        let r = RND.with(|r| {
            let mut x = r.get();
            if x == 0 { x = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().subsec_nanos() as u64 * 2654435761 + 1; }
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            r.set(x);
            x
        });
        match r % 8 { 0 => std::thread::yield_now(), 1 => std::thread::sleep(std::time::Duration::from_micros(r >> 8 & 63)), 2 | 3 => for _ in 0..r >> 8 & 1023 { std::hint::spin_loop() }, _ => {} }
    }
    /// repeats a body with threads natively for `ms` milliseconds, as the schedule cannot be chosen there
    pub fn repeat<F: FnMut()>(ms: i64, mut f: F) {
        let t = std::time::Instant::now();
        loop {
            f();
            if t.elapsed().as_millis() as i64 >= ms { break }
        }
    }
    /// in a scratch directory, which becomes the current one
    pub fn file_old(n: u32) {
        let d = std::env::temp_dir().join(format!("ptreplay-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
        std::fs::write("output.ppm", vec![b'#'; n as usize]).unwrap();
    }
    pub fn file_len() -> u32 { std::fs::metadata("output.ppm").map(|m| m.len() as u32).unwrap_or(0) }
    pub fn file_byte(i: u32) -> u8 { std::fs::read("output.ppm").map(|v| v.get(i as usize).cloned().unwrap_or(0)).unwrap_or(0) }
}
pub use imp::*;

/// Declares harness entry points: `harnesses! { fn a() { .. } fn b() { .. } }`
#[macro_export]
macro_rules! harnesses {
    ($(fn $name:ident() $body:block)*) => {
        $(
            #[allow(non_snake_case)]
            pub mod $name {
                #[allow(unused_imports)] use super::*;
                pub fn body() $body
                #[cfg(not(feature = "native"))]
                #[export_name = concat!("h_", stringify!($name))]
                pub extern "C" fn entry() { body() }
            }
        )*
        #[cfg(feature = "native")]
        pub fn lookup(n: &str) -> Option<fn()> {
            match n { $( stringify!($name) => Some($name::body), )* _ => None }
        }
    };
}
