//! A stand-in for tokio-rayon: the job runs when its future is first polled.
use std::future::Future;

pub trait AsyncThreadPool {
    fn spawn_async<F, R>(&self, f: F) -> impl Future<Output = R> + Send + 'static
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static;

    fn spawn_fifo_async<F, R>(&self, f: F) -> impl Future<Output = R> + Send + 'static
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static;
}

impl AsyncThreadPool for rayon::ThreadPool {
    fn spawn_async<F, R>(&self, f: F) -> impl Future<Output = R> + Send + 'static
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        async move { f() }
    }

    fn spawn_fifo_async<F, R>(&self, f: F) -> impl Future<Output = R> + Send + 'static
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        async move { f() }
    }
}
