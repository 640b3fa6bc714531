//! One controlled execution: a fresh OS thread (clean thread-locals), the real
//! ntex runtime stepped one task poll at a time, virtual time, in-memory I/O.
use std::cell::RefCell;
use std::future::poll_fn;
use std::panic::AssertUnwindSafe;
use std::rc::Rc;
use std::task::Poll;

use ntex_rt::{Driver, Notify, PollResult, Runtime};

#[derive(Debug)]
struct Nop;
impl Notify for Nop {
    fn notify(&self) -> std::io::Result<()> {
        Ok(())
    }
}

pub trait Script {
    /// drive the execution; `poll` runs one task, returns false when quiescent
    fn run(&mut self, poll: &mut dyn FnMut() -> bool);
}

struct Drv<'a>(RefCell<Option<Box<dyn FnOnce(&mut dyn FnMut() -> bool) + 'a>>>);

impl Driver for Drv<'static> {
    fn run(&self, rt: &Runtime) -> std::io::Result<()> {
        let f = self.0.borrow_mut().take().unwrap();
        let mut poll = || matches!(rt.poll(), PollResult::PollAgain | PollResult::Ready);
        f(&mut poll);
        Ok(())
    }
    fn handle(&self) -> Box<dyn Notify> {
        Box::new(Nop)
    }
    fn clear(&self) {}
}

/// Runs `f(poll)` inside a fresh runtime on the current thread.
pub fn with_runtime<T: 'static>(f: impl FnOnce(&mut dyn FnMut() -> bool) -> T + 'static) -> T {
    let out = Rc::new(RefCell::new(None));
    let out2 = out.clone();
    let done = Rc::new(std::cell::Cell::new(false));
    let waker: Rc<RefCell<Option<std::task::Waker>>> = Rc::default();
    let (done2, waker2) = (done.clone(), waker.clone());
    let rt = Runtime::builder().event_interval(1).build(Box::new(Nop));
    let drv = Drv(RefCell::new(Some(Box::new(move |poll: &mut dyn FnMut() -> bool| {
        *out2.borrow_mut() = Some(f(poll));
        done2.set(true);
        if let Some(w) = waker2.borrow_mut().take() {
            w.wake()
        }
        for _ in 0..1000 {
            if !poll() {
                break;
            }
        }
    }))));
    rt.block_on(
        poll_fn(move |cx| {
            if done.get() {
                Poll::Ready(())
            } else {
                *waker.borrow_mut() = Some(cx.waker().clone());
                Poll::Pending
            }
        }),
        &drv,
    );
    // everything still alive in the runtime is dropped here, inside `Drop`
    let r = out.borrow_mut().take().unwrap();
    drop(rt);
    r
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{msg} at {loc}"))
            }
        });
    }));
}

pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Runs `f` on a fresh thread.  `Err` = the thread panicked.
pub fn isolated<T: Send + 'static>(
    stack: usize,
    f: impl FnOnce() -> T + Send + 'static,
) -> Result<T, String> {
    std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            VIRT.with(|v| v.set(true));
            let r = std::panic::catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(v) => Ok(v),
                Err(_) => Err(take_panic().unwrap_or_else(|| "panic".into())),
            }
        })
        .expect("thread")
        .join()
        .unwrap_or_else(|_| Err("panic in thread-local destructor".into()))
}

thread_local! {
    pub static VIRT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

const BASE: u64 = 1_000_000_000_000;

/// Interposed: every `Instant::now()` of an execution sees virtual time.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if VIRT.try_with(|v| v.get()).unwrap_or(false) {
        let now = BASE + futures_timer::mc_now();
        unsafe {
            (*ts).tv_sec = (now / 1_000_000_000) as i64;
            (*ts).tv_nsec = (now % 1_000_000_000) as i64;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int }
}
