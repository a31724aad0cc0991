//! The little of tokio the client library needs; nothing ever waits.
pub mod time {
    pub use std::time::{Duration, Instant};
    pub async fn sleep(_d: Duration) {}
    pub enum MissedTickBehavior {
        Burst,
        Delay,
        Skip,
    }
    pub struct Interval;
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            Instant::now()
        }
        pub fn set_missed_tick_behavior(&mut self, _b: MissedTickBehavior) {}
    }
    pub fn interval(_d: Duration) -> Interval {
        Interval
    }
}
pub mod sync {
    pub mod mpsc {
        pub mod error {
            pub enum TrySendError<T> {
                Full(T),
                Closed(T),
            }
        }
        pub struct Sender<T>(std::marker::PhantomData<T>);
        impl<T> Sender<T> {
            pub fn try_send(&self, v: T) -> Result<(), error::TrySendError<T>> {
                Err(error::TrySendError::Closed(v))
            }
        }
    }
}
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    struct W;
    impl std::task::Wake for W {
        fn wake(self: std::sync::Arc<Self>) {}
    }
    let mut f = Box::pin(f);
    let w = std::task::Waker::from(std::sync::Arc::new(W));
    let mut cx = std::task::Context::from_waker(&w);
    for _ in 0..100_000 {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("the future does not complete")
}
