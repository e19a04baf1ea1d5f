#![allow(dead_code)]
use pyo3::prelude::*;
pub fn map_unary<F>(obj: &Bound<'_, PyAny>, _q: &str, kernel: F) -> PyResult<Py<PyAny>>
where F: Fn(f64) -> f64 {
    Ok(Py::new([kernel(obj.value()), 0.0, 0.0]))
}
pub fn map_unary_try<F>(obj: &Bound<'_, PyAny>, _q: &str, kernel: F) -> PyResult<Py<PyAny>>
where F: Fn(f64) -> PyResult<f64> {
    Ok(Py::new([kernel(obj.value())?, 0.0, 0.0]))
}
pub fn map_flavors<F>(obj: &Bound<'_, PyAny>, _q: &str, kernel: F) -> PyResult<Py<PyAny>>
where F: Fn(f64) -> [f64; 3] {
    Ok(Py::new(kernel(obj.value())))
}
