//! A stand-in for pyo3-object_store: a store object holds a store of the Rust crate.
use std::sync::Arc;

use object_store::ObjectStore;
use pyo3::prelude::*;
use pyo3::{Kind, Obj};

#[derive(Clone, Debug)]
pub struct PyObjectStore(Arc<dyn ObjectStore>);

struct Store(Arc<dyn ObjectStore>);

impl pyo3::Native for Store {
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
}

/// The Python object of a store.
pub fn store_object(store: Arc<dyn ObjectStore>) -> Obj {
    Obj::native(Store(store))
}

impl PyObjectStore {
    pub fn into_inner(self) -> Arc<dyn ObjectStore> {
        self.0
    }
    pub fn into_dyn(self) -> Arc<dyn ObjectStore> {
        self.0
    }
}

impl<'py> FromPyObject<'_, 'py> for PyObjectStore {
    type Error = PyErr;
    fn extract(obj: Borrowed<'_, 'py, PyAny>) -> Result<Self, PyErr> {
        if let Kind::Native(n) = obj.obj().kind() {
            if let Some(s) = n.as_any().downcast_ref::<Store>() {
                return Ok(Self(s.0.clone()));
            }
        }
        Err(pyo3::exceptions::PyTypeError::new_err("Expected an object store"))
    }
}

pub fn register_store_module(_py: Python<'_>, _m: &Bound<'_, PyModule>, _parent: &str, _name: &str) -> PyResult<()> {
    Ok(())
}

pub fn register_exceptions_module(_py: Python<'_>, _m: &Bound<'_, PyModule>, _parent: &str, _name: &str) -> PyResult<()> {
    Ok(())
}
