//! A stand-in for pyo3-bytes.
use bytes::Bytes;
use pyo3::prelude::*;
use pyo3::{Kind, Obj};

#[derive(Clone, Debug)]
pub struct PyBytes(Bytes);

impl PyBytes {
    pub fn new(b: Bytes) -> Self {
        Self(b)
    }
    pub fn into_inner(self) -> Bytes {
        self.0
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}

impl From<Bytes> for PyBytes {
    fn from(b: Bytes) -> Self {
        Self(b)
    }
}

impl From<Vec<u8>> for PyBytes {
    fn from(b: Vec<u8>) -> Self {
        Self(b.into())
    }
}

impl AsRef<[u8]> for PyBytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

impl<'py> FromPyObject<'_, 'py> for PyBytes {
    type Error = PyErr;
    fn extract(obj: Borrowed<'_, 'py, PyAny>) -> Result<Self, PyErr> {
        match obj.obj().kind() {
            Kind::Bytes(b) => Ok(Self(b.clone())),
            _ => Err(pyo3::exceptions::PyTypeError::new_err("a bytes-like object is required")),
        }
    }
}

impl<'py> IntoPyObject<'py> for PyBytes {
    type Target = PyAny;
    type Output = Bound<'py, PyAny>;
    type Error = PyErr;
    fn into_pyobject(self, _py: Python<'py>) -> Result<Self::Output, PyErr> {
        Ok(Bound::of(Obj::new(Kind::Bytes(self.0))))
    }
}
