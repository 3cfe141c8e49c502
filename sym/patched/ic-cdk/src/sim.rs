//! VERIF PATCH: a deterministic single-canister stand-in for the system API.
//!
//! * system reads (time, caller, id, balance) come from thread-local values the harness sets;
//! * an inter-canister call suspends its task; the harness (or `run_until_idle`) decides when and how it is answered;
//! * every poll of a task is one message execution: if it panics or traps, the registered restore hook puts the
//!   canister state back to what it was when the message started. A future whose callback trapped is dropped in
//!   the state in which it was suspended (what the cleanup callback does on the IC): the path is run again and the
//!   callback is not executed the second time.
#![allow(missing_docs, missing_debug_implementations)]
use crate::api::call::{CallResult, RejectionCode};
use candid::Principal;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct NoWake;
impl Wake for NoWake {
    fn wake(self: Arc<Self>) {}
}

#[derive(Clone)]
pub struct Call {
    pub id: u64,
    pub task: u64,
    pub callee: Principal,
    pub method: String,
    pub args: Vec<u8>,
    pub cycles: u128,
}

struct Task {
    id: u64,
    fut: Pin<Box<dyn Future<Output = ()>>>,
    caller: Principal,
    polled: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TaskEnd {
    Done,
    Trapped,
}

type Handler = Rc<dyn Fn(&Call) -> CallResult<Vec<u8>>>;
type Snapshot = fn() -> Box<dyn Any>;
type Restore = fn(&dyn Any);

thread_local! {
    static TIME: Cell<u64> = const { Cell::new(1_700_000_000_000_000_000) };
    static CALLER: Cell<Principal> = const { Cell::new(Principal::anonymous()) };
    static SELF_ID: Cell<Principal> = Cell::new(Principal::from_slice(&[0, 0, 0, 0, 0, 0, 0, 42, 1, 1]));
    static BALANCE: Cell<u128> = const { Cell::new(1 << 100) };
    static NEXT: Cell<u64> = const { Cell::new(1) };
    static TASKS: RefCell<Vec<Task>> = const { RefCell::new(Vec::new()) };
    static PENDING: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
    static ANSWERS: RefCell<Vec<(u64, CallResult<Vec<u8>>)>> = const { RefCell::new(Vec::new()) };
    static ENDED: RefCell<Vec<(u64, TaskEnd)>> = const { RefCell::new(Vec::new()) };
    static CURRENT: Cell<u64> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
    static HOOKS: Cell<Option<(Snapshot, Restore)>> = const { Cell::new(None) };
    static SNAP: RefCell<Option<Box<dyn Any>>> = const { RefCell::new(None) };
    static TRAP_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static MSG: Cell<u64> = const { Cell::new(0) };
    static UNWINDING: Cell<bool> = const { Cell::new(false) };
    static START: Cell<(u64, usize)> = const { Cell::new((0, 0)) };
    static NEWCALLS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}

pub fn set_time(t: u64) {
    TIME.with(|c| c.set(t))
}
pub fn time() -> u64 {
    TIME.with(|c| c.get())
}
pub fn set_caller(p: Principal) {
    CALLER.with(|c| c.set(p))
}
pub fn caller() -> Principal {
    CALLER.with(|c| c.get())
}
pub fn self_id() -> Principal {
    SELF_ID.with(|c| c.get())
}
/// Cycles of the canister. Calls do not draw on them: a harness that limits them looks at what was attached.
pub fn set_balance(b: u128) {
    BALANCE.with(|c| c.set(b))
}
pub fn balance() -> u128 {
    BALANCE.with(|c| c.get())
}
pub fn set_handler(h: impl Fn(&Call) -> CallResult<Vec<u8>> + 'static) {
    HANDLER.with(|c| *c.borrow_mut() = Some(Rc::new(h)))
}
pub fn set_hooks(s: Snapshot, r: Restore) {
    HOOKS.with(|c| c.set(Some((s, r))))
}
pub fn last_trap() -> Option<String> {
    TRAP_MSG.with(|t| t.borrow().clone())
}

/// To be called from the panic hook: roll the canister state back to the start of the message.
pub fn on_panic(msg: &str) {
    if DEPTH.with(|d| d.get()) > 0 {
        if UNWINDING.with(|u| u.replace(true)) {
            // a destructor of the half-executed message panicked; on the IC it would not have run
            let (m, pos) = START.with(|s| s.get());
            symx::restart_with_trap(m, pos);
            symx::abandon();
        }
        TRAP_MSG.with(|t| *t.borrow_mut() = Some(msg.to_string()));
        rollback();
    }
}
fn rollback() {
    let snap = SNAP.with(|s| s.borrow_mut().take());
    if let (Some(snap), Some((_, r))) = (snap, HOOKS.with(|h| h.get())) {
        r(&*snap);
        SNAP.with(|s| *s.borrow_mut() = Some(snap));
    }
    // calls made by the message that trapped were never sent
    let new = NEWCALLS.with(|n| std::mem::take(&mut *n.borrow_mut()));
    PENDING.with(|p| p.borrow_mut().retain(|c| !new.contains(&c.id)));
}

fn fresh() -> u64 {
    NEXT.with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    })
}

// ---------------------------------------------------------------------------------------------- futures

pub struct CallFut {
    id: Option<u64>,
    callee: Principal,
    method: String,
    args: Option<Vec<u8>>,
    cycles: u128,
    waker: Option<Waker>,
}
impl CallFut {
    pub fn new(callee: Principal, method: &str, args: Vec<u8>, cycles: u128) -> Self {
        CallFut { id: None, callee, method: method.to_string(), args: Some(args), cycles, waker: None }
    }
}
impl Future for CallFut {
    type Output = CallResult<Vec<u8>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.id {
            None => {
                let id = fresh();
                self.id = Some(id);
                let call = Call {
                    id,
                    task: CURRENT.with(|c| c.get()),
                    callee: self.callee,
                    method: self.method.clone(),
                    args: self.args.take().unwrap(),
                    cycles: self.cycles,
                };
                NEWCALLS.with(|n| n.borrow_mut().push(id));
                PENDING.with(|p| p.borrow_mut().push(call));
                WAKERS.with(|w| w.borrow_mut().push((id, cx.waker().clone())));
                Poll::Pending
            }
            Some(id) => {
                let r = ANSWERS.with(|a| {
                    let mut a = a.borrow_mut();
                    a.iter().position(|(i, _)| *i == id).map(|k| a.remove(k).1)
                });
                match r {
                    Some(r) => Poll::Ready(r),
                    None => {
                        self.waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            }
        }
    }
}
thread_local! {
    static WAKERS: RefCell<Vec<(u64, Waker)>> = const { RefCell::new(Vec::new()) };
}

// ---------------------------------------------------------------------------------------------- tasks

/// A message: `f` runs now, atomically; Err(()) if it trapped (state rolled back).
pub fn message<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    if DEPTH.with(|d| d.get()) > 0 {
        // nested: part of the enclosing message
        return Ok(f());
    }
    let m = MSG.with(|m| {
        m.set(m.get() + 1);
        m.get()
    });
    if symx::known_trap(m) {
        std::mem::forget(f);
        return Err(());
    }
    START.with(|s| s.set((m, symx::position())));
    if let Some((s, _)) = HOOKS.with(|h| h.get()) {
        let snap = s();
        SNAP.with(|x| *x.borrow_mut() = Some(snap));
    }
    NEWCALLS.with(|n| n.borrow_mut().clear());
    DEPTH.with(|x| x.set(1));
    UNWINDING.with(|u| u.set(false));
    let (cur, who) = (CURRENT.with(|c| c.get()), caller());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    UNWINDING.with(|u| u.set(false));
    DEPTH.with(|x| x.set(0));
    match r {
        Ok(v) => {
            SNAP.with(|x| *x.borrow_mut() = None);
            Ok(v)
        }
        Err(p) => {
            if p.is::<symx::PathKill>() {
                std::panic::resume_unwind(p)
            }
            // what destructors did while unwinding did not happen
            rollback();
            SNAP.with(|x| *x.borrow_mut() = None);
            CURRENT.with(|c| c.set(cur));
            set_caller(who);
            Err(())
        }
    }
}

/// Start a task; its first message runs at once if no message is running, otherwise it is part of the running one.
pub fn spawn(fut: impl Future<Output = ()> + 'static) -> u64 {
    let id = fresh();
    let caller = caller();
    TASKS.with(|t| t.borrow_mut().push(Task { id, fut: Box::pin(fut), caller, polled: false }));
    poll_task(id);
    id
}

fn poll_task(id: u64) {
    let Some(mut task) = TASKS.with(|t| {
        let mut t = t.borrow_mut();
        t.iter().position(|x| x.id == id).map(|k| t.remove(k))
    }) else {
        return;
    };
    let prev = CURRENT.with(|c| c.replace(id));
    let prev_caller = CALLER.with(|c| c.replace(task.caller));
    let outer = DEPTH.with(|d| d.get()) == 0;
    let first = std::mem::replace(&mut task.polled, true);
    let from = symx::position();
    let mut slot = Some(task);
    let r = message(|| {
        let mut task = slot.take().unwrap();
        let waker = Waker::from(Arc::new(NoWake));
        match task.fut.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(()) => None,
            Poll::Pending => Some(task),
        }
    });
    CURRENT.with(|c| c.set(prev));
    CALLER.with(|c| c.set(prev_caller));
    match r {
        Ok(Some(task)) => TASKS.with(|t| t.borrow_mut().push(task)),
        Ok(None) => ENDED.with(|e| e.borrow_mut().push((id, TaskEnd::Done))),
        Err(()) => {
            if let Some(task) = slot.take() {
                // known to trap: not executed. A suspended future is dropped by the cleanup callback,
                // a new one never came to life.
                if first {
                    let _ = message(move || drop(task));
                } else {
                    std::mem::forget(task);
                }
            } else if outer && first {
                symx::restart_with_trap(MSG.with(|m| m.get()), from);
                std::panic::panic_any(symx::PathKill)
            }
            // calls of the trapped task that are still pending stay pending: they take effect at the callee,
            // and their answer finds no task
            ENDED.with(|e| e.borrow_mut().push((id, TaskEnd::Trapped)))
        }
    }
}

pub fn pending() -> Vec<Call> {
    PENDING.with(|p| p.borrow().clone())
}
pub fn ended(task: u64) -> Option<TaskEnd> {
    ENDED.with(|e| e.borrow().iter().find(|(i, _)| *i == task).map(|(_, r)| *r))
}
pub fn live_tasks() -> usize {
    TASKS.with(|t| t.borrow().len())
}
/// Drop every suspended task and pending call (canister upgrade/stop without responses).
pub fn forget_all() {
    // dropping without running destructors: wasm memory is discarded, Drop does not run
    TASKS.with(|t| t.borrow_mut().drain(..).for_each(std::mem::forget));
    PENDING.with(|p| p.borrow_mut().clear());
}

/// Deliver an answer to a pending call and run the resulting message.
pub fn respond(call: u64, r: CallResult<Vec<u8>>) {
    let c = PENDING.with(|p| {
        let mut p = p.borrow_mut();
        let k = p.iter().position(|c| c.id == call).expect("no such call");
        p.remove(k)
    });
    ANSWERS.with(|a| a.borrow_mut().push((call, r)));
    let w = WAKERS.with(|w| {
        let mut w = w.borrow_mut();
        w.iter().position(|(i, _)| *i == call).map(|k| w.remove(k).1)
    });
    if let Some(w) = w {
        w.wake()
    }
    poll_task(c.task);
}

/// Answer one pending call (the k-th oldest) with the harness's handler.
pub fn step(k: usize) {
    let c = PENDING.with(|p| p.borrow()[k].clone());
    let h = HANDLER.with(|h| h.borrow().clone()).expect("no call handler");
    let r = h(&c);
    if matches!(&r, Err((_, m)) if m == TRAP) {
        return respond_trap(c.id);
    }
    respond(c.id, r);
}
const TRAP: &str = "\0the callback traps";
/// A reply of the handler: the call succeeded, but the callback that handles its answer traps.
pub fn callback_traps() -> CallResult<Vec<u8>> {
    Err((RejectionCode::Unknown, TRAP.to_string()))
}
/// The answer arrives but its callback traps before it has any effect: the cleanup callback drops the task.
pub fn respond_trap(call: u64) {
    let c = PENDING.with(|p| {
        let mut p = p.borrow_mut();
        let k = p.iter().position(|c| c.id == call).expect("no such call");
        p.remove(k)
    });
    WAKERS.with(|w| w.borrow_mut().retain(|(i, _)| *i != call));
    let task = TASKS.with(|t| {
        let mut t = t.borrow_mut();
        t.iter().position(|x| x.id == c.task).map(|k| t.remove(k))
    });
    if let Some(task) = task {
        let prev = CURRENT.with(|x| x.replace(c.task));
        let _ = message(move || drop(task));
        CURRENT.with(|x| x.set(prev));
        ENDED.with(|e| e.borrow_mut().push((c.task, TaskEnd::Trapped)));
    }
}

/// Answer calls until none is pending; `pick` chooses among several.
pub fn run_until_idle(mut pick: impl FnMut(usize) -> usize) {
    loop {
        let n = PENDING.with(|p| p.borrow().len());
        if n == 0 {
            return;
        }
        let k = if n == 1 { 0 } else { pick(n) };
        step(k);
    }
}

/// Run an async endpoint as its own call context, oldest call first; None if it trapped.
pub fn block_on<R: 'static>(fut: impl Future<Output = R> + 'static) -> Option<R> {
    let out = Rc::new(RefCell::new(None));
    let o2 = out.clone();
    let id = spawn(async move {
        let r = fut.await;
        *o2.borrow_mut() = Some(r);
    });
    while ended(id).is_none() {
        if pending().is_empty() {
            symx::fatal("task is stuck without a pending call");
        }
        step(0);
    }
    let r = out.borrow_mut().take();
    r
}

pub fn reject(code: RejectionCode, msg: &str) -> CallResult<Vec<u8>> {
    Err((code, msg.to_string()))
}
