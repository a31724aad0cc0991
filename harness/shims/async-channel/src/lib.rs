//! Single-threaded stand-in for async-channel: unbounded (or bounded, never blocking) queues whose
//! receivers are polled by the controlled executor in the tokio stand-in.
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

struct Chan<T> {
    q: VecDeque<T>,
    senders: usize,
    receivers: usize,
    closed: bool,
    wakers: Vec<Waker>,
}
pub struct Sender<T>(Arc<Mutex<Chan<T>>>);
pub struct Receiver<T>(Arc<Mutex<Chan<T>>>);

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Closed(T),
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Closed,
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SendError(..)")
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sending into a closed channel")
    }
}
impl<T> std::error::Error for SendError<T> {}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TrySendError(..)")
    }
}
impl<T> fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sending into a full or closed channel")
    }
}
impl<T> std::error::Error for TrySendError<T> {}
impl fmt::Display for RecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "receiving from an empty and closed channel")
    }
}
impl std::error::Error for RecvError {}
impl fmt::Display for TryRecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for TryRecvError {}

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Mutex::new(Chan { q: VecDeque::new(), senders: 1, receivers: 1, closed: false, wakers: vec![] }));
    (Sender(c.clone()), Receiver(c))
}
pub fn bounded<T>(_cap: usize) -> (Sender<T>, Receiver<T>) {
    unbounded()
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.lock().unwrap().senders += 1;
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.lock().unwrap().receivers += 1;
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let mut c = self.0.lock().unwrap();
        c.senders -= 1;
        if c.senders == 0 {
            c.closed = true;
            for w in c.wakers.drain(..) {
                w.wake();
            }
        }
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if let Ok(mut c) = self.0.lock() {
            c.receivers -= 1;
            if c.receivers == 0 {
                c.closed = true;
            }
        }
    }
}
impl<T> Sender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let mut c = self.0.lock().unwrap();
        if c.closed {
            return Err(TrySendError::Closed(t));
        }
        c.q.push_back(t);
        for w in c.wakers.drain(..) {
            w.wake();
        }
        Ok(())
    }
    pub async fn send(&self, t: T) -> Result<(), SendError<T>> {
        match self.try_send(t) {
            Ok(()) => Ok(()),
            Err(TrySendError::Full(t)) | Err(TrySendError::Closed(t)) => Err(SendError(t)),
        }
    }
    pub fn send_blocking(&self, t: T) -> Result<(), SendError<T>> {
        match self.try_send(t) {
            Ok(()) => Ok(()),
            Err(TrySendError::Full(t)) | Err(TrySendError::Closed(t)) => Err(SendError(t)),
        }
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        false
    }
    pub fn is_closed(&self) -> bool {
        self.0.lock().unwrap().closed
    }
    pub fn close(&self) -> bool {
        !std::mem::replace(&mut self.0.lock().unwrap().closed, true)
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Recv<'_, T> {
        Recv(self)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut c = self.0.lock().unwrap();
        match c.q.pop_front() {
            Some(t) => Ok(t),
            None if c.closed => Err(TryRecvError::Closed),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_closed(&self) -> bool {
        self.0.lock().unwrap().closed
    }
    pub fn close(&self) -> bool {
        !std::mem::replace(&mut self.0.lock().unwrap().closed, true)
    }
}
pub struct Recv<'a, T>(&'a Receiver<T>);
impl<'a, T> Future for Recv<'a, T> {
    type Output = Result<T, RecvError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut c = self.0 .0.lock().unwrap();
        match c.q.pop_front() {
            Some(t) => Poll::Ready(Ok(t)),
            None if c.closed => Poll::Ready(Err(RecvError)),
            None => {
                c.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
