#![allow(dead_code)]
pub fn spence(x: f64) -> f64 { crate::vf::spence(x) }
pub fn bessel_k1(x: f64) -> f64 { crate::vf::k1(x) }
pub fn bessel_kn(n: i32, x: f64) -> f64 { crate::vf::kn(n, x) }
