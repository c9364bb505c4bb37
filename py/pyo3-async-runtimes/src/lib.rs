//! A stand-in for pyo3-async-runtimes: an awaitable is an object that holds the future, which
//! whoever awaits it polls.
pub mod tokio {
    use std::future::Future;

    use pyo3::prelude::*;
    use pyo3::Obj;

    pub fn future_into_py<'py, F, T>(_py: Python<'py>, fut: F) -> PyResult<Bound<'py, PyAny>>
    where
        F: Future<Output = PyResult<T>> + Send + 'static,
        T: for<'p> IntoPyObject<'p> + Send + 'static,
    {
        Ok(Bound::of(Obj::awaitable(Box::pin(async move {
            let v = fut.await?;
            Python::attach(|py| pyo3::rt::into_obj(v, py))
        }))))
    }

    pub fn into_future(awaitable: Bound<'_, PyAny>) -> PyResult<impl Future<Output = PyResult<Py<PyAny>>> + Send> {
        let f = awaitable.obj().take_future()?;
        Ok(async move { f.await.map(Py::of) })
    }
}
