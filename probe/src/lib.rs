//! Gives the checks of /verif/checks (Python) batch access to the real code of /repo: every public function,
//! every method reachable from every public structure, the numerical utilities, the constitutive models and
//! the Monte Carlo samplers under a scripted generator. Nothing here judges anything.
#![allow(clippy::missing_safety_doc)]
mod table;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::slice::{from_raw_parts, from_raw_parts_mut};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use polymers::constitutive::{hyperelastic as hy, hyperelastic_damage as da};
use polymers::math;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
#[no_mangle]
pub extern "C" fn probe_init() {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut s) = LAST_PANIC.lock() { *s = i.to_string().replace('\n', " "); }
    }));
}
#[no_mangle]
pub unsafe extern "C" fn probe_last_panic(buf: *mut u8, cap: usize) -> usize {
    let s = LAST_PANIC.lock().unwrap();
    let n = s.len().min(cap);
    from_raw_parts_mut(buf, n).copy_from_slice(&s.as_bytes()[..n]);
    n
}
fn guard(f: impl FnOnce() -> f64) -> (f64, u8) {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(x) => (x, 0), Err(_) => (f64::NAN, 1) }
}
#[derive(Clone, Copy)]
struct P<T>(*mut T);
unsafe impl<T> Send for P<T> {}
unsafe impl<T> Sync for P<T> {}
impl<T> P<T> { unsafe fn get(&self) -> &T { &*self.0 } unsafe fn set(&self, i: usize, x: T) { *self.0.add(i) = x } }
/// Rows 0..n in order on one thread, or in blocks over `threads` threads.
unsafe fn rows(n: usize, threads: usize, out: *mut f64, st: *mut u8, f: &(dyn Fn(usize) -> f64 + Sync)) {
    let (out, st) = (P(out), P(st));
    let run = |i: usize| { let (x, s) = guard(|| f(i)); out.set(i, x); st.set(i, s); };
    if threads <= 1 || n < 64 { for i in 0..n { run(i) } return; }
    let block = (n/(threads*16)).clamp(1, 4096);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| for _ in 0..threads {
        s.spawn(|| loop {
            let a = next.fetch_add(block, Relaxed);
            if a >= n { break }
            for i in a..(a + block).min(n) { run(i) }
        });
    });
}
/// Free function `id` on n rows of `k` arguments.
#[no_mangle]
pub unsafe extern "C" fn probe_fun(id: usize, a: *const f64, k: usize, n: usize, out: *mut f64, st: *mut u8, threads: usize) {
    let a = from_raw_parts(a, k*n);
    let f = table::FUNS[id];
    rows(n, threads, out, st, &|i| f(&a[i*k..(i + 1)*k]));
}
/// A sequence of calls of free functions, in order, on this thread: ids and flattened arguments.
#[no_mangle]
pub unsafe extern "C" fn probe_seq(ids: *const usize, off: *const usize, n: usize, a: *const f64, na: usize, out: *mut f64, st: *mut u8) {
    let (ids, off, a) = (from_raw_parts(ids, n), from_raw_parts(off, n + 1), from_raw_parts(a, na));
    rows(n, 1, out, st, &|i| table::FUNS[ids[i]](&a[off[i]..off[i + 1]]));
}
struct Handle(Box<dyn table::Model>);
#[no_mangle]
pub unsafe extern "C" fn probe_new(id: usize, a: *const f64, k: usize) -> *mut std::ffi::c_void {
    let a = from_raw_parts(a, k);
    match catch_unwind(AssertUnwindSafe(|| Handle(table::MAKERS[id](a)))) {
        Ok(h) => Box::into_raw(Box::new(h)) as *mut _,
        Err(_) => std::ptr::null_mut(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn probe_call(h: *mut std::ffi::c_void, method: usize, a: *const f64, k: usize, n: usize, out: *mut f64, st: *mut u8) {
    let a = from_raw_parts(a, k*n);
    let m = &(*(h as *mut Handle)).0;
    for i in 0..n { let (x, e) = guard(|| m.call(method, &a[i*k..(i + 1)*k])); *out.add(i) = x; *st.add(i) = e; }
}
#[no_mangle]
pub unsafe extern "C" fn probe_get(h: *mut std::ffi::c_void, field: usize) -> f64 { (*(h as *mut Handle)).0.get(field) }
#[no_mangle]
pub unsafe extern "C" fn probe_free(h: *mut std::ffi::c_void) { drop(Box::from_raw(h as *mut Handle)) }

// ---- numerical utilities taking functions -------------------------------------------------------------
type C1 = extern "C" fn(f64) -> f64;
type C2 = extern "C" fn(f64, f64) -> f64;
#[no_mangle]
pub unsafe extern "C" fn math_integrate_1d(f: C1, a: f64, b: f64, n: u64, st: *mut u8) -> f64 {
    let (x, s) = guard(|| math::integrate_1d(&|x: &f64| f(*x), &a, &b, &(n as u128))); *st = s; x
}
#[no_mangle]
pub unsafe extern "C" fn math_integrate_1d_grid(f: C1, g: *const f64, n: usize, dx: f64, st: *mut u8) -> f64 {
    let (x, s) = guard(|| math::integrate_1d_grid(&|x: &f64| f(*x), from_raw_parts(g, n), &dx)); *st = s; x
}
#[no_mangle]
pub unsafe extern "C" fn math_integrate_2d(f: C2, a: f64, b: f64, c: f64, d: f64, n: u64, st: *mut u8) -> f64 {
    let (x, s) = guard(|| math::integrate_2d(&|x: &f64, y: &f64| f(*x, *y), &a, &b, &c, &d, n as u128)); *st = s; x
}
#[no_mangle]
pub unsafe extern "C" fn math_integrate_2d_symmetric(f: C2, a: f64, b: f64, n: u64, st: *mut u8) -> f64 {
    let (x, s) = guard(|| math::integrate_2d_symmetric(&|x: &f64, y: &f64| f(*x, *y), &a, &b, n as u128)); *st = s; x
}
#[no_mangle]
pub unsafe extern "C" fn math_integrate_2d_grid(f: C2, g: *const f64, n: usize, h: *const f64, m: usize, da: f64, st: *mut u8) -> f64 {
    let (x, s) = guard(|| math::integrate_2d_grid(&|x: &f64, y: &f64| f(*x, *y), from_raw_parts(g, n), from_raw_parts(h, m), &da)); *st = s; x
}
#[no_mangle]
pub unsafe extern "C" fn math_integrate_2d_symmetric_grid(f: C2, g: *const f64, n: usize, da: f64, st: *mut u8) -> f64 {
    let (x, s) = guard(|| math::integrate_2d_symmetric_grid(&|x: &f64, y: &f64| f(*x, *y), from_raw_parts(g, n), &da)); *st = s; x
}
#[no_mangle]
pub unsafe extern "C" fn math_newton(y: f64, f: C1, fp: C1, guess: f64, tol: f64, iters: u8, power: i32, st: *mut u8) -> f64 {
    let (x, s) = guard(|| if power == 0 { math::inverse_newton_raphson(&y, &|x: &f64| f(*x), &|x: &f64| fp(*x), &guess, &tol, &iters) }
        else { math::inverse_newton_raphson_powered(&y, &|x: &f64| f(*x), &|x: &f64| fp(*x), &guess, &tol, &iters, power) });
    *st = s; x
}

// ---- constitutive models -------------------------------------------------------------------------------
#[no_mangle]
pub extern "C" fn hyper_new(method: u8, kappa: f64, n: u8) -> *mut std::ffi::c_void {
    match catch_unwind(|| Box::new(hy::BucheSilberstein::init(method, kappa, n))) {
        Ok(b) => Box::into_raw(b) as *mut _, Err(_) => std::ptr::null_mut(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn hyper_free(h: *mut std::ffi::c_void) { drop(Box::from_raw(h as *mut hy::BucheSilberstein)) }
/// which: 0 uniaxial, 1 equibiaxial
#[no_mangle]
pub unsafe extern "C" fn hyper_stress(h: *mut std::ffi::c_void, which: u8, s: *const f64, n: usize, out: *mut f64, st: *mut u8, threads: usize) {
    let m = P(h as *mut hy::BucheSilberstein);
    let s = from_raw_parts(s, n);
    let (out, st) = (P(out), P(st));
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| for _ in 0..threads.max(1) { sc.spawn(|| loop {
        let i = next.fetch_add(1, Relaxed);
        if i >= n { break }
        let (x, e) = guard(|| if which == 0 { m.get().uniaxial_tension(&s[i]) } else { m.get().equibiaxial_tension(&s[i]) });
        out.set(i, x); st.set(i, e);
    }); });
}
#[no_mangle]
pub unsafe extern "C" fn hyper_fields(h: *mut std::ffi::c_void, out: *mut f64) {
    let m = &*(h as *const hy::BucheSilberstein);
    *out = m.nondimensional_link_stiffness; *out.add(1) = m.number_of_links as f64;
}
#[no_mangle]
pub extern "C" fn damage_new(method: u8, crit: f64, kappa: f64, n: u8, j: f64) -> *mut std::ffi::c_void {
    match catch_unwind(|| Box::new(da::BucheSilberstein::init(method, crit, kappa, n, j))) {
        Ok(b) => Box::into_raw(b) as *mut _, Err(_) => std::ptr::null_mut(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn damage_free(h: *mut std::ffi::c_void) { drop(Box::from_raw(h as *mut da::BucheSilberstein)) }
#[no_mangle]
pub unsafe extern "C" fn damage_fields(h: *mut std::ffi::c_void, out: *mut f64) {
    let m = &*(h as *const da::BucheSilberstein);
    for (i, x) in [m.nondimensional_critical_extension, m.nondimensional_link_stiffness, m.number_of_links as f64, m.swelling_ratio].into_iter().enumerate() { *out.add(i) = x }
}
macro_rules! lens { ($m:expr, $s:expr, $l:expr, $o:expr; $($n:literal)*) => { match $l { $($n => {
    let r: [[f64; 2]; $n] = $m.uniaxial_tension::<$n>($s); for (i, x) in r.iter().enumerate() { $o[2*i] = x[0]; $o[2*i + 1] = x[1]; } })* _ => panic!("HARNESS: length") } } }
/// `n` histories of `l` stretches each; out: n*l*2.
#[no_mangle]
pub unsafe extern "C" fn damage_histories(h: *mut std::ffi::c_void, s: *const f64, l: usize, n: usize, out: *mut f64, st: *mut u8, threads: usize) {
    let m = P(h as *mut da::BucheSilberstein);
    let s = from_raw_parts(s, n*l);
    let (out, st) = (P(out), P(st));
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| for _ in 0..threads.max(1) { sc.spawn(|| loop {
        let i = next.fetch_add(1, Relaxed);
        if i >= n { break }
        let mut o = vec![f64::NAN; 2*l];
        let (_, e) = guard(|| { let x = &s[i*l..(i + 1)*l]; lens!(m.get(), x, l, o; 1 2 3 4 5 6 7 8 9 10 12 16 24 32 48 64 100 300); 0.0 });
        for (k, x) in o.iter().enumerate() { out.set(2*l*i + k, *x) }
        st.set(i, e);
    }); });
}
// ---- Monte Carlo ---------------------------------------------------------------------------------------
use polymers::physics::single_chain::{efjc::thermodynamics::isometric::monte_carlo as efjc, efrc::thermodynamics::isometric::monte_carlo as efrc,
    fjc::thermodynamics::isometric::monte_carlo as fjc, frc::thermodynamics::isometric::monte_carlo as frc};
use rand_distr::Normal;
macro_rules! links { ($n:expr, $go:ident, $a:tt; $($k:literal)*) => { match $n { $($k => $go!($k, $a),)* _ => panic!("HARNESS: links") } } }
macro_rules! conf_go { ($k:literal, ($model:expr, $p:expr, $o:expr)) => {{
    let mut rng = rand::rng();
    let c: [[f64; 3]; $k] = match $model {
        0 => fjc::random_configuration::<$k>(&mut rng),
        1 => frc::random_configuration::<$k>(&$p[0], &mut rng),
        2 => efjc::random_configuration::<$k>(Normal::new(1.0, 1.0/$p[1].sqrt()).unwrap(), &mut rng),
        _ => efrc::random_configuration::<$k>(&$p[0], Normal::new(1.0, 1.0/$p[1].sqrt()).unwrap(), &mut rng),
    };
    for (i, x) in c.iter().enumerate() { for j in 0..3 { $o[3*i + j] = x[j] } }
}} }
macro_rules! len_go { ($k:literal, ($model:expr, $p:expr, $o:expr)) => {{
    let mut rng = rand::rng();
    $o[0] = match $model {
        0 => fjc::random_nondimensional_end_to_end_length::<$k>(&mut rng),
        1 => frc::random_nondimensional_end_to_end_length::<$k>(&$p[0], &mut rng),
        2 => efjc::random_nondimensional_end_to_end_length::<$k>(Normal::new(1.0, 1.0/$p[1].sqrt()).unwrap(), &mut rng),
        _ => efrc::random_nondimensional_end_to_end_length::<$k>(&$p[0], Normal::new(1.0, 1.0/$p[1].sqrt()).unwrap(), &mut rng),
    };
}} }
/// n executions of the sampler, each with its own script of k uniform draws. what: 0 configuration (3*links out),
/// 1 end-to-end length (1 out). p: theta, kappa. used: draws taken.
#[no_mangle]
pub unsafe extern "C" fn mc_run(model: u8, links: usize, what: u8, p: *const f64, u: *const f64, k: usize, n: usize, out: *mut f64, used: *mut u32, st: *mut u8, threads: usize) {
    let p = from_raw_parts(p, 2);
    let u = from_raw_parts(u, k*n);
    let w = if what == 0 { 3*links } else { 1 };
    let (out, st, used) = (P(out), P(st), P(used));
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| for _ in 0..threads.max(1) { sc.spawn(|| loop {
        let a = next.fetch_add(256, Relaxed);
        if a >= n { break }
        for i in a..(a + 256).min(n) {
            let mut o = vec![f64::NAN; w];
            rand::script::install(u[i*k..(i + 1)*k].iter().map(|x| rand::script::word(*x)).collect());
            let (_, e) = guard(|| {
                if what == 0 { links!(links, conf_go, (model, p, o); 1 2 3 4 5 6 7 8 9 10 11 12 16 25 32 50 64 100 128 200 255) } else { links!(links, len_go, (model, p, o); 1 2 3 4 5 6 7 8 9 10 11 12 16 25 32 50 64 100 128 200 255) }
                0.0
            });
            used.set(i, rand::script::remove() as u32);
            for (q, x) in o.iter().enumerate() { out.set(w*i + q, *x) }
            st.set(i, e);
        }
    }); });
}
macro_rules! hist_go { ($k:literal, ($b:expr, $model:expr, $p:expr, $s:expr, $o:expr)) => { match $b {
    1 => hist_one!($k, 1, $model, $p, $s, $o), 2 => hist_one!($k, 2, $model, $p, $s, $o), 3 => hist_one!($k, 3, $model, $p, $s, $o),
    4 => hist_one!($k, 4, $model, $p, $s, $o), 7 => hist_one!($k, 7, $model, $p, $s, $o), 10 => hist_one!($k, 10, $model, $p, $s, $o),
    16 => hist_one!($k, 16, $model, $p, $s, $o), 50 => hist_one!($k, 50, $model, $p, $s, $o), 100 => hist_one!($k, 100, $model, $p, $s, $o), 300 => hist_one!($k, 300, $model, $p, $s, $o), _ => panic!("HARNESS: bins") } } }
macro_rules! hist_one { ($k:literal, $b:literal, $model:expr, $p:expr, $s:expr, $o:expr) => {{
    let (c, q): ([f64; $b], [f64; $b]) = match $model {
        0 => fjc::nondimensional_equilibrium_radial_distribution::<$b, $k>($s),
        1 => frc::nondimensional_equilibrium_radial_distribution::<$b, $k>(&$p[0], $s),
        2 => efjc::nondimensional_equilibrium_radial_distribution::<$b, $k>(&$p[2], &$p[1], $s),
        _ => efrc::nondimensional_equilibrium_radial_distribution::<$b, $k>(&$p[2], &$p[1], &$p[0], $s),
    };
    for i in 0..$b { $o[i] = c[i]; $o[$b + i] = q[i] }
}} }
/// One histogram of `samples` samples under the script u (k draws). p: theta, kappa, gamma_max. out: 2*bins.
#[no_mangle]
pub unsafe extern "C" fn mc_hist(model: u8, links: usize, bins: usize, p: *const f64, u: *const f64, k: usize, samples: usize, out: *mut f64, used: *mut u32, st: *mut u8) {
    let p = from_raw_parts(p, 3);
    let o = from_raw_parts_mut(out, 2*bins);
    rand::script::install(from_raw_parts(u, k).iter().map(|x| rand::script::word(*x)).collect());
    let (_, e) = guard(|| { links!(links, hist_go, (bins, model, p, samples, o); 1 2 3 4 5 6 8 9 12 25 64); 0.0 });
    *used = rand::script::remove() as u32;
    *st = e;
}
