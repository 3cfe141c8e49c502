//! VERIF PATCH: timers are recorded; the harness fires them.
use std::cell::RefCell;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct TimerId(u64);

enum Task {
    Once(Box<dyn FnOnce()>),
    Repeated(Box<dyn FnMut()>),
}
struct Timer {
    id: u64,
    delay: Duration,
    task: Option<Task>,
}
thread_local! {
    static TIMERS: RefCell<(u64, Vec<Timer>)> = const { RefCell::new((0, Vec::new())) };
}
fn add(delay: Duration, task: Task) -> TimerId {
    TIMERS.with(|t| {
        let mut t = t.borrow_mut();
        t.0 += 1;
        let id = t.0;
        t.1.push(Timer { id, delay, task: Some(task) });
        TimerId(id)
    })
}
pub fn set_timer(delay: Duration, func: impl FnOnce() + 'static) -> TimerId {
    add(delay, Task::Once(Box::new(func)))
}
pub fn set_timer_interval(interval: Duration, func: impl FnMut() + 'static) -> TimerId {
    add(interval, Task::Repeated(Box::new(func)))
}
pub fn clear_timer(id: TimerId) {
    TIMERS.with(|t| t.borrow_mut().1.retain(|x| x.id != id.0))
}
/// (delay, repeated) of every armed timer.
pub fn sim_timers() -> Vec<(Duration, bool)> {
    TIMERS.with(|t| t.borrow().1.iter().map(|x| (x.delay, matches!(x.task, Some(Task::Repeated(_))))).collect())
}
/// Timers armed so far (rollback of a trapped message forgets later ones).
pub fn sim_mark() -> u64 {
    TIMERS.with(|t| t.borrow().0)
}
pub fn sim_rollback(mark: u64) {
    TIMERS.with(|t| t.borrow_mut().1.retain(|x| x.id <= mark))
}
/// Fire the k-th armed timer as a message of its own.
pub fn sim_fire(k: usize) {
    let (id, mut task) = TIMERS.with(|t| {
        let mut t = t.borrow_mut();
        let x = &mut t.1[k];
        (x.id, x.task.take().unwrap())
    });
    match task {
        Task::Once(f) => {
            TIMERS.with(|t| t.borrow_mut().1.retain(|x| x.id != id));
            let _ = ic_cdk::sim::message(f);
        }
        Task::Repeated(ref mut f) => {
            let _ = ic_cdk::sim::message(|| f());
            TIMERS.with(|t| {
                if let Some(x) = t.borrow_mut().1.iter_mut().find(|x| x.id == id) {
                    x.task = Some(task);
                }
            });
        }
    }
}
