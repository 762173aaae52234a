//! A deterministic single-threaded executor. Code under test runs as tasks;
//! the environment (provider stand-ins) awaits `point` before every effect.
//! `explore` enumerates every order in which the tasks' effects can happen
//! (stateless search, replay of choice prefixes).
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}

thread_local! { static INTERLEAVE: RefCell<bool> = const { RefCell::new(false) }; }

/// A scheduling point: pending once when several tasks are being interleaved.
pub struct Point(bool);
pub fn point() -> Point {
    Point(false)
}
impl Future for Point {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 || !INTERLEAVE.with(|i| *i.borrow()) {
            Poll::Ready(())
        } else {
            self.0 = true;
            Poll::Pending
        }
    }
}

/// Run one future to completion with no interleaving.
pub fn run<T>(f: impl Future<Output = T>) -> T {
    let waker = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    let was = INTERLEAVE.with(|i| std::mem::replace(&mut *i.borrow_mut(), false));
    for _ in 0..1_000_000 {
        if let Poll::Ready(t) = f.as_mut().poll(&mut cx) {
            INTERLEAVE.with(|i| *i.borrow_mut() = was);
            return t;
        }
    }
    panic!("future never completes");
}

pub type Task<T> = Pin<Box<dyn Future<Output = T>>>;

/// One complete run: results per task, and the schedule as (choice, enabled).
pub struct Run<T> {
    pub results: Vec<T>,
    pub choices: Vec<(usize, usize)>,
    pub schedule: Vec<usize>,
}

/// Run the tasks under the schedule that follows `prefix` and then always
/// keeps running the first enabled task.
pub fn run_schedule<T>(mut tasks: Vec<Option<Task<T>>>, prefix: &[usize]) -> Run<T> {
    let waker = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&waker);
    let n = tasks.len();
    let mut results: Vec<Option<T>> = (0..n).map(|_| None).collect();
    let mut choices = vec![];
    let mut schedule = vec![];
    let mut last = None;
    INTERLEAVE.with(|i| *i.borrow_mut() = true);
    loop {
        // canonical order: the running task first, then ascending ids
        let mut enabled: Vec<usize> = (0..n).filter(|i| tasks[*i].is_some()).collect();
        if enabled.is_empty() {
            break;
        }
        if let Some(l) = last {
            if let Some(p) = enabled.iter().position(|e| *e == l) {
                enabled.remove(p);
                enabled.insert(0, l);
            }
        }
        let c = prefix.get(choices.len()).copied().unwrap_or(0);
        assert!(c < enabled.len(), "replay diverged: choice {c} of {}", enabled.len());
        assert!(choices.len() < 100_000, "schedule without end");
        choices.push((c, enabled.len()));
        let t = enabled[c];
        schedule.push(t);
        last = Some(t);
        if let Poll::Ready(r) = tasks[t].as_mut().unwrap().as_mut().poll(&mut cx) {
            results[t] = Some(r);
            tasks[t] = None;
        }
    }
    INTERLEAVE.with(|i| *i.borrow_mut() = false);
    Run { results: results.into_iter().map(Option::unwrap).collect(), choices, schedule }
}

/// Reset after a panic inside `run_schedule`.
pub fn reset() {
    INTERLEAVE.with(|i| *i.borrow_mut() = false);
}

/// Every schedule with at most `preemptions` switches away from a task that
/// could have continued. `body(prefix)` performs one run from scratch and
/// returns its choices. Returns the number of schedules.
pub fn explore(preemptions: usize, body: &mut dyn FnMut(&[usize]) -> Vec<(usize, usize)>) -> u64 {
    let mut stack = vec![vec![]];
    let mut count = 0;
    while let Some(prefix) = stack.pop() {
        let choices = body(&prefix);
        count += 1;
        for (i, c) in choices.iter().take(prefix.len()).enumerate() {
            assert_eq!(c.0, prefix[i], "replay diverged");
        }
        for i in (prefix.len()..choices.len()).rev() {
            // choice 0 continues the running task, so every non-zero choice
            // before i is counted as one preemption (an over-count at task
            // ends would only prune; ends are free below)
            let cost: usize = choices[..i].iter().filter(|c| c.0 != 0).count() + 1;
            if cost > preemptions {
                continue;
            }
            for alt in 1..choices[i].1 {
                let mut p: Vec<usize> = choices[..i].iter().map(|c| c.0).collect();
                p.push(alt);
                stack.push(p);
            }
        }
    }
    count
}

/// Poll a future effect by effect until it is done or `stop` holds in front
/// of the next effect; it is not dropped here.
pub fn run_until<T>(f: &mut Task<T>, stop: impl Fn() -> bool) -> Option<T> {
    let waker = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&waker);
    INTERLEAVE.with(|i| *i.borrow_mut() = true);
    let r = loop {
        if let Poll::Ready(t) = f.as_mut().poll(&mut cx) {
            break Some(t);
        }
        if stop() {
            break None;
        }
    };
    INTERLEAVE.with(|i| *i.borrow_mut() = false);
    r
}
