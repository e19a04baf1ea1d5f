//! Stand-in for the binding layer: a Python float argument, a result.
#![allow(dead_code)]
use std::marker::PhantomData;
pub struct PyAny;
pub struct PyModule;
pub struct Bound<'py, T> { v: f64, p: PhantomData<(&'py (), T)> }
impl<'py, T> Bound<'py, T> {
    pub fn new(v: f64) -> Self { Self { v, p: PhantomData } }
    pub fn value(&self) -> f64 { self.v }
    pub fn add_function(&self, _f: ()) -> PyResult<()> { Ok(()) }
}
pub struct Py<T> { pub v: [f64; 3], p: PhantomData<T> }
impl<T> Py<T> { pub fn new(v: [f64; 3]) -> Self { Self { v, p: PhantomData } } }
#[derive(Debug)]
pub struct PyErr(pub i32);
pub type PyResult<T> = Result<T, PyErr>;
pub trait Answer { fn answer(self) -> [f64; 3]; }
impl Answer for Py<PyAny> { fn answer(self) -> [f64; 3] { self.v } }
impl Answer for f64 { fn answer(self) -> [f64; 3] { [self, 0.0, 0.0] } }
pub mod exceptions {
    pub struct PyValueError;
    pub struct PyTypeError;
    impl PyValueError { pub fn new_err<T>(_m: T) -> super::PyErr { super::PyErr(1) } }
    impl PyTypeError { pub fn new_err<T>(_m: T) -> super::PyErr { super::PyErr(2) } }
}
#[macro_export]
macro_rules! wrap_pyfunction { ($f:ident, $m:expr) => {{ let _ = $f; Ok::<(), $crate::PyErr>(()) }}; }
pub mod prelude { pub use super::{Answer, Bound, Py, PyAny, PyErr, PyModule, PyResult}; pub use crate::wrap_pyfunction; }
