pub mod unpin {
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Mutex, OnceLock};
    /// Runs its future once, when first asked for.
    pub struct Lazy<T> {
        fut: Mutex<Option<Pin<Box<dyn Future<Output = T> + Send>>>>,
        val: OnceLock<T>,
    }
    impl<T: 'static> Lazy<T> {
        pub fn new(f: Pin<Box<impl Future<Output = T> + Send + 'static>>) -> Self {
            Lazy { fut: Mutex::new(Some(f)), val: OnceLock::new() }
        }
        pub async fn get(&self) -> &T {
            let f = self.fut.lock().unwrap().take();
            if let Some(f) = f {
                let v = f.await;
                let _ = self.val.set(v);
            }
            self.val.get().expect("the job completed")
        }
    }
}
