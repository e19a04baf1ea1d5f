//! Boundaries, left external: the interpreter supplies them.
type Fun = extern "C" fn(*mut u8, f64) -> f64;
unsafe extern "C" {
    fn vf_quad(f: Fun, ctx: *mut u8, a: f64, b: f64) -> f64;
    fn vf_failed() -> i32;
    fn vf_spence(x: f64) -> f64;
    fn vf_k0(x: f64) -> f64;
    fn vf_k1(x: f64) -> f64;
    fn vf_kn(n: i32, x: f64) -> f64;
    fn vf_table(which: i32, i: i32) -> f64;
}
pub fn quad(f: Fun, ctx: *mut u8, a: f64, b: f64) -> f64 { unsafe { vf_quad(f, ctx, a, b) } }
pub fn failed() -> bool { unsafe { vf_failed() != 0 } }
pub fn spence(x: f64) -> f64 { unsafe { vf_spence(x) } }
pub fn k0(x: f64) -> f64 { unsafe { vf_k0(x) } }
pub fn k1(x: f64) -> f64 { unsafe { vf_k1(x) } }
pub fn kn(n: i32, x: f64) -> f64 { unsafe { vf_kn(n, x) } }
pub fn table(which: i32, i: i32) -> f64 { unsafe { vf_table(which, i) } }
