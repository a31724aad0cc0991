//! The few stream and future combinators the client library uses; everything runs one after another.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub mod stream {
    pub use super::*;
    pub struct Iter<I>(pub(crate) I);
    impl<I> Unpin for Iter<I> {}
    impl<I: Iterator> Stream for Iter<I> {
        type Item = I::Item;
        fn poll_next(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<I::Item>> {
            Poll::Ready(self.get_mut().0.next())
        }
    }
    pub fn iter<I: IntoIterator>(i: I) -> Iter<I::IntoIter> {
        Iter(i.into_iter())
    }
}
pub trait Stream: Unpin {
    type Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
}
pub struct Map<S, F>(S, F);
impl<S, F> Unpin for Map<S, F> {}
impl<S: Stream, T, F: FnMut(S::Item) -> T> Stream for Map<S, F> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let t = self.get_mut();
        match Pin::new(&mut t.0).poll_next(cx) {
            Poll::Ready(x) => Poll::Ready(x.map(|x| (t.1)(x))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub struct Then<S, F, Fut>(S, F, Option<Pin<Box<Fut>>>);
impl<S, F, Fut> Unpin for Then<S, F, Fut> {}
impl<S: Stream, Fut: Future, F: FnMut(S::Item) -> Fut> Stream for Then<S, F, Fut> {
    type Item = Fut::Output;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Fut::Output>> {
        let t = self.get_mut();
        if t.2.is_none() {
            match Pin::new(&mut t.0).poll_next(cx) {
                Poll::Ready(Some(x)) => t.2 = Some(Box::pin((t.1)(x))),
                Poll::Ready(None) => return Poll::Ready(None),
                Poll::Pending => return Poll::Pending,
            }
        }
        match t.2.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => {
                t.2 = None;
                Poll::Ready(Some(v))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
pub struct Chunks<S: Stream>(S, usize, Vec<S::Item>);
impl<S: Stream> Unpin for Chunks<S> {}
impl<S: Stream> Stream for Chunks<S> {
    type Item = Vec<S::Item>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let t = self.get_mut();
        loop {
            match Pin::new(&mut t.0).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(x)) => {
                    t.2.push(x);
                    if t.2.len() >= t.1 {
                        return Poll::Ready(Some(std::mem::take(&mut t.2)));
                    }
                }
                Poll::Ready(None) if t.2.is_empty() => return Poll::Ready(None),
                Poll::Ready(None) => return Poll::Ready(Some(std::mem::take(&mut t.2))),
            }
        }
    }
}
pub struct Collect<S, C>(S, Option<C>);
impl<S, C> Unpin for Collect<S, C> {}
impl<S: Stream, C: Default + Extend<S::Item>> Future for Collect<S, C> {
    type Output = C;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<C> {
        let t = self.get_mut();
        loop {
            match Pin::new(&mut t.0).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(x)) => t.1.as_mut().unwrap().extend(Some(x)),
                Poll::Ready(None) => return Poll::Ready(t.1.take().unwrap()),
            }
        }
    }
}
pub struct TryCollect<S, C>(S, Option<C>);
impl<S, C> Unpin for TryCollect<S, C> {}
impl<T, E, S: Stream<Item = Result<T, E>>, C: Default + Extend<T>> Future for TryCollect<S, C> {
    type Output = Result<C, E>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let t = self.get_mut();
        loop {
            match Pin::new(&mut t.0).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(Ok(x))) => t.1.as_mut().unwrap().extend(Some(x)),
                Poll::Ready(Some(Err(e))) => return Poll::Ready(Err(e)),
                Poll::Ready(None) => return Poll::Ready(Ok(t.1.take().unwrap())),
            }
        }
    }
}
pub trait StreamExt: Stream + Sized {
    fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> Map<Self, F> {
        Map(self, f)
    }
    fn then<Fut: Future, F: FnMut(Self::Item) -> Fut>(self, f: F) -> Then<Self, F, Fut> {
        Then(self, f, None)
    }
    fn chunks(self, n: usize) -> Chunks<Self> {
        Chunks(self, n, vec![])
    }
    fn buffer_unordered(self, _n: usize) -> Then<Self, fn(Self::Item) -> Self::Item, Self::Item>
    where
        Self::Item: Future,
    {
        Then(self, std::convert::identity, None)
    }
    fn buffered(self, n: usize) -> Then<Self, fn(Self::Item) -> Self::Item, Self::Item>
    where
        Self::Item: Future,
    {
        self.buffer_unordered(n)
    }
    fn collect<C: Default + Extend<Self::Item>>(self) -> Collect<Self, C> {
        Collect(self, Some(C::default()))
    }
}
impl<S: Stream> StreamExt for S {}
pub trait TryStreamExt: Stream + Sized {
    fn try_collect<C>(self) -> TryCollect<Self, C>
    where
        C: Default,
    {
        TryCollect(self, Some(C::default()))
    }
}
impl<S: Stream> TryStreamExt for S {}
pub struct MapErr<Fut, F>(Pin<Box<Fut>>, Option<F>);
impl<Fut, F> Unpin for MapErr<Fut, F> {}
impl<T, E, G, Fut: Future<Output = Result<T, E>>, F: FnOnce(E) -> G> Future for MapErr<Fut, F> {
    type Output = Result<T, G>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let t = self.get_mut();
        match t.0.as_mut().poll(cx) {
            Poll::Ready(r) => Poll::Ready(r.map_err(t.1.take().unwrap())),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub trait TryFutureExt: Future + Sized {
    fn map_err<T, E, G, F: FnOnce(E) -> G>(self, f: F) -> MapErr<Self, F>
    where
        Self: Future<Output = Result<T, E>>,
    {
        MapErr(Box::pin(self), Some(f))
    }
}
impl<F: Future> TryFutureExt for F {}
pub mod future {
    use super::*;
    pub async fn join_all<I: IntoIterator>(i: I) -> Vec<<I::Item as Future>::Output>
    where
        I::Item: Future,
    {
        let mut out = vec![];
        for f in i {
            out.push(f.await);
        }
        out
    }
}
