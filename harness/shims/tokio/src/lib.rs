//! Controlled, single-threaded stand-in for tokio. Spawned tasks are polled by `mc_run` until none
//! can make progress. `select!` behaves like tokio's: branches are polled cyclically from a start
//! branch that tokio picks at random and the explorer picks here (`mc_select_start`); a branch whose
//! future completes with a value that does not match its pattern is disabled, and the value dropped.
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

thread_local! {
    static TASKS: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = RefCell::new(vec![]);
    static START: Cell<usize> = Cell::new(0);
    static WIDTH: Cell<usize> = Cell::new(0);
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}
pub fn mc_reset() {
    let old = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    drop(old);
    START.with(|s| s.set(0));
}
/// The branch every `select!` starts at, until set again.
pub fn mc_select_start(n: usize) {
    START.with(|s| s.set(n));
}
/// The largest number of branches of any `select!` polled in this thread so far.
pub fn mc_select_width() -> usize {
    WIDTH.with(|w| w.get())
}
pub fn mc_run() {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut rounds = 0;
    loop {
        flag.0.store(false, Ordering::SeqCst);
        let mut tasks = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
        let before = tasks.len();
        tasks.retain_mut(|t| {
            let mut cx = Context::from_waker(&waker);
            t.as_mut().poll(&mut cx).is_pending()
        });
        let finished = tasks.len() != before;
        let spawned = TASKS.with(|t| {
            let mut t = t.borrow_mut();
            let spawned = !t.is_empty();
            tasks.append(&mut t);
            *t = tasks;
            spawned
        });
        rounds += 1;
        if !(flag.0.load(Ordering::SeqCst) || finished || spawned) || rounds > 1000 {
            return;
        }
    }
}
/// Runs a future that needs no other task to complete.
pub fn mc_block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let waker = Waker::from(Arc::new(Flag(AtomicBool::new(true))));
    let mut cx = Context::from_waker(&waker);
    for _ in 0..1000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("the future does not complete")
}

pub struct JoinHandle<T>(std::rc::Rc<RefCell<Option<T>>>);
impl<T> JoinHandle<T> {
    pub fn abort(&self) {}
    pub fn is_finished(&self) -> bool {
        self.0.borrow().is_some()
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, task::JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.borrow_mut().take() {
            Some(t) => Poll::Ready(Ok(t)),
            None => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let slot = std::rc::Rc::new(RefCell::new(None));
    let s = slot.clone();
    TASKS.with(|t| t.borrow_mut().push(Box::pin(async move { *s.borrow_mut() = Some(f.await) })));
    JoinHandle(slot)
}
pub mod task {
    pub use super::{spawn, JoinHandle};
    #[derive(Debug)]
    pub struct JoinError;
    pub async fn yield_now() {}
}
pub mod time {
    pub use std::time::{Duration, Instant};
    pub async fn sleep(_d: Duration) {}
}

#[doc(hidden)]
pub fn mc_choose(n: usize) -> usize {
    WIDTH.with(|w| w.set(w.get().max(n)));
    START.with(|s| s.get()) % n
}
#[doc(hidden)]
pub enum Out<A = (), B = (), C = (), D = (), E = (), F = ()> {
    A(A),
    B(B),
    C(C),
    D(D),
    E(E),
    F(F),
    Else,
}

#[macro_export]
macro_rules! select {
    (@n [$($d:tt)*] [$($el:tt)*] else => $b:block $(,)?) => { $crate::select!(@go [$($d)*] [$b]) };
    (@n [$($d:tt)*] [$($el:tt)*] else => $b:expr $(,)?) => { $crate::select!(@go [$($d)*] [{ $b }]) };
    (@n [$($d:tt)*] [$($el:tt)*] $p:pat = $f:expr, if $c:expr => $b:block, $($r:tt)*) => { $crate::select!(@n [$($d)* {($p) ($f) ($c) ($b)}] [$($el)*] $($r)*) };
    (@n [$($d:tt)*] [$($el:tt)*] $p:pat = $f:expr, if $c:expr => $b:block $($r:tt)*) => { $crate::select!(@n [$($d)* {($p) ($f) ($c) ($b)}] [$($el)*] $($r)*) };
    (@n [$($d:tt)*] [$($el:tt)*] $p:pat = $f:expr, if $c:expr => $b:expr, $($r:tt)*) => { $crate::select!(@n [$($d)* {($p) ($f) ($c) ({ $b })}] [$($el)*] $($r)*) };
    (@n [$($d:tt)*] [$($el:tt)*] $p:pat = $f:expr, if $c:expr => $b:expr) => { $crate::select!(@n [$($d)* {($p) ($f) ($c) ({ $b })}] [$($el)*]) };
    (@n [$($d:tt)*] [$($el:tt)*] $p:pat = $f:expr => $b:block, $($r:tt)*) => { $crate::select!(@n [$($d)* {($p) ($f) (true) ($b)}] [$($el)*] $($r)*) };
    (@n [$($d:tt)*] [$($el:tt)*] $p:pat = $f:expr => $b:block $($r:tt)*) => { $crate::select!(@n [$($d)* {($p) ($f) (true) ($b)}] [$($el)*] $($r)*) };
    (@n [$($d:tt)*] [$($el:tt)*] $p:pat = $f:expr => $b:expr, $($r:tt)*) => { $crate::select!(@n [$($d)* {($p) ($f) (true) ({ $b })}] [$($el)*] $($r)*) };
    (@n [$($d:tt)*] [$($el:tt)*] $p:pat = $f:expr => $b:expr) => { $crate::select!(@n [$($d)* {($p) ($f) (true) ({ $b })}] [$($el)*]) };
    (@n [$($d:tt)*] [$($el:tt)*]) => { $crate::select!(@go [$($d)*] [$($el)*]) };

    (@poll $out:ident $var:ident $fut:ident $p:pat, $dis:ident, $i:expr, $pend:ident, $cx:ident) => {
        match $fut.as_mut().poll($cx) {
            ::std::task::Poll::Ready(v) => {
                $dis[$i] = true;
                #[allow(unused_variables, unreachable_patterns, unused_mut)]
                let hit = match &v { $p => true, _ => false };
                if hit { return ::std::task::Poll::Ready($crate::Out::$var(v)); }
            }
            ::std::task::Poll::Pending => $pend = true,
        }
    };
    (@go [{($p0:pat) ($f0:expr) ($c0:expr) ($b0:expr)}] [$($el:tt)*]) => {
        $crate::select!(@go [{($p0) ($f0) ($c0) ($b0)} {(_) (async {}) (false) (unreachable!())} {(_) (async {}) (false) (unreachable!())} {(_) (async {}) (false) (unreachable!())}] 1 [$($el)*])
    };
    (@go [$a:tt $b:tt] [$($el:tt)*]) => {
        $crate::select!(@go [$a $b {(_) (async {}) (false) (unreachable!())} {(_) (async {}) (false) (unreachable!())}] 2 [$($el)*])
    };
    (@go [$a:tt $b:tt $c:tt] [$($el:tt)*]) => {
        $crate::select!(@go [$a $b $c {(_) (async {}) (false) (unreachable!())}] 3 [$($el)*])
    };
    (@go [$a:tt $b:tt $c:tt $d:tt] [$($el:tt)*]) => {
        $crate::select!(@go [$a $b $c $d] 4 [$($el)*])
    };
    (@go [{($p0:pat) ($f0:expr) ($c0:expr) ($b0:expr)} {($p1:pat) ($f1:expr) ($c1:expr) ($b1:expr)} {($p2:pat) ($f2:expr) ($c2:expr) ($b2:expr)} {($p3:pat) ($f3:expr) ($c3:expr) ($b3:expr)}] $n:literal [$($el:tt)*]) => {{
        let out: $crate::Out<_, _, _, _, (), ()> = {
            #[allow(unused_imports)]
            use ::std::future::Future as _;
            let mut disabled = [!($c0), !($c1), !($c2), !($c3)];
            let mut f0 = ::std::boxed::Box::pin($f0);
            let mut f1 = ::std::boxed::Box::pin($f1);
            let mut f2 = ::std::boxed::Box::pin($f2);
            let mut f3 = ::std::boxed::Box::pin($f3);
            ::std::future::poll_fn(|cx| {
                let start = $crate::mc_choose($n);
                let mut pending = false;
                for i in 0..$n {
                    let b = (start + i) % $n;
                    if disabled[b] { continue; }
                    match b {
                        0 => $crate::select!(@poll Out A f0 $p0, disabled, 0, pending, cx),
                        1 => $crate::select!(@poll Out B f1 $p1, disabled, 1, pending, cx),
                        2 => $crate::select!(@poll Out C f2 $p2, disabled, 2, pending, cx),
                        _ => $crate::select!(@poll Out D f3 $p3, disabled, 3, pending, cx),
                    }
                }
                if pending { ::std::task::Poll::Pending } else { ::std::task::Poll::Ready($crate::Out::Else) }
            }).await
        };
        #[allow(unreachable_patterns, unreachable_code, irrefutable_let_patterns)]
        match out {
            $crate::Out::A($p0) => $b0,
            $crate::Out::B($p1) => $b1,
            $crate::Out::C($p2) => $b2,
            $crate::Out::D($p3) => $b3,
            _ => $crate::select!(@else [$($el)*]),
        }
    }};
    (@else []) => { panic!("all branches are disabled and there is no else branch") };
    (@else [$b:expr]) => { $b };
    (biased; $($r:tt)*) => { $crate::select!(@n [] [] $($r)*) };
    ($($r:tt)*) => { $crate::select!(@n [] [] $($r)*) };
}
