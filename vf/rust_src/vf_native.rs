//! Boundaries in the native build: callbacks installed by the harness.
type Fun = extern "C" fn(*mut u8, f64) -> f64;
static mut H: [usize; 8] = [0; 8];
#[unsafe(no_mangle)]
pub extern "C" fn vf_set(k: i32, p: usize) { unsafe { H[k as usize] = p; } }
fn h(k: usize) -> usize { unsafe { H[k] } }
pub fn quad(f: Fun, ctx: *mut u8, a: f64, b: f64) -> f64 {
    let g: extern "C" fn(Fun, *mut u8, f64, f64) -> f64 = unsafe { std::mem::transmute(h(0)) };
    g(f, ctx, a, b)
}
pub fn failed() -> bool {
    let g: extern "C" fn() -> i32 = unsafe { std::mem::transmute(h(1)) };
    g() != 0
}
fn one(k: usize, x: f64) -> f64 {
    let g: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(h(k)) };
    g(x)
}
pub fn spence(x: f64) -> f64 { one(2, x) }
pub fn k0(x: f64) -> f64 { one(3, x) }
pub fn k1(x: f64) -> f64 { one(4, x) }
pub fn kn(n: i32, x: f64) -> f64 {
    let g: extern "C" fn(i32, f64) -> f64 = unsafe { std::mem::transmute(h(5)) };
    g(n, x)
}
pub fn table(which: i32, i: i32) -> f64 {
    let g: extern "C" fn(i32, i32) -> f64 = unsafe { std::mem::transmute(h(6)) };
    g(which, i)
}
