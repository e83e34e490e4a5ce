//! Deterministic single-threaded executor with one wake flag per task.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Task {
    name: String,
    fut: Pin<Box<dyn Future<Output = ()>>>,
    flag: Arc<Flag>,
}

pub type TaskId = usize;

#[derive(Default)]
pub struct Exec {
    tasks: BTreeMap<TaskId, Task>,
    next: TaskId,
    pub panics: Vec<String>,
    pub polls: u64,
    spawn_queue: Rc<RefCell<Vec<(String, Pin<Box<dyn Future<Output = ()>>>)>>>,
}

#[derive(Clone)]
pub struct Spawner(Rc<RefCell<Vec<(String, Pin<Box<dyn Future<Output = ()>>>)>>>);

impl Spawner {
    #[allow(dead_code)]
    pub fn spawn(&self, name: &str, fut: impl Future<Output = ()> + 'static) {
        self.0.borrow_mut().push((name.to_owned(), Box::pin(fut)));
    }
}

impl Exec {
    pub fn new() -> Self {
        Self::default()
    }

    #[allow(dead_code)]
    pub fn spawner(&self) -> Spawner {
        Spawner(self.spawn_queue.clone())
    }

    pub fn spawn(&mut self, name: &str, fut: impl Future<Output = ()> + 'static) -> TaskId {
        self.spawn_boxed(name, Box::pin(fut))
    }

    fn spawn_boxed(&mut self, name: &str, fut: Pin<Box<dyn Future<Output = ()>>>) -> TaskId {
        let id = self.next;
        self.next += 1;
        self.tasks.insert(
            id,
            Task {
                name: name.to_owned(),
                fut,
                flag: Arc::new(Flag(AtomicBool::new(true))),
            },
        );
        id
    }

    pub fn adopt(&mut self) -> bool {
        let new: Vec<_> = self.spawn_queue.borrow_mut().drain(..).collect();
        let any = !new.is_empty();
        for (name, fut) in new {
            self.spawn_boxed(&name, fut);
        }
        any
    }

    #[allow(dead_code)]
    pub fn drop_all(&mut self) {
        self.tasks.clear();
        self.spawn_queue.borrow_mut().clear();
    }

    pub fn drop_task(&mut self, id: TaskId) {
        if let Some(task) = self.tasks.remove(&id) {
            let r = catch_unwind(AssertUnwindSafe(|| drop(task)));
            if r.is_err() {
                self.panics.push("panic while dropping a task".into());
            }
        }
    }

    pub fn alive(&self, id: TaskId) -> bool {
        self.tasks.contains_key(&id)
    }

    #[allow(dead_code)]
    pub fn names(&self) -> Vec<String> {
        self.tasks.values().map(|t| t.name.clone()).collect()
    }

    pub fn ready(&self) -> Vec<TaskId> {
        self.tasks
            .iter()
            .filter(|(_, t)| t.flag.0.load(Ordering::SeqCst))
            .map(|(id, _)| *id)
            .collect()
    }

    #[allow(dead_code)]
    pub fn ready_names(&self) -> Vec<(TaskId, String)> {
        self.tasks
            .iter()
            .filter(|(_, t)| t.flag.0.load(Ordering::SeqCst))
            .map(|(id, t)| (*id, t.name.clone()))
            .collect()
    }

    /// Polls one task once. Returns false if it was not ready.
    pub fn poll(&mut self, id: TaskId) -> bool {
        let Some(task) = self.tasks.get_mut(&id) else {
            return false;
        };
        if !task.flag.0.swap(false, Ordering::SeqCst) {
            return false;
        }
        self.polls += 1;
        let w = Waker::from(task.flag.clone());
        let mut cx = Context::from_waker(&w);
        let r = catch_unwind(AssertUnwindSafe(|| task.fut.as_mut().poll(&mut cx)));
        match r {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(())) => {
                self.drop_task(id);
            }
            Err(e) => {
                let text = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let name = task.name.clone();
                self.panics.push(format!("{name}: {text}"));
                // Dropping a poisoned future may panic again.
                if let Some(task) = self.tasks.remove(&id) {
                    let _ = catch_unwind(AssertUnwindSafe(|| drop(task)));
                }
            }
        }
        true
    }

    /// Polls ready tasks until nothing is ready. Returns false if the budget was exhausted.
    pub fn run(&mut self, pick: &mut dyn FnMut(usize) -> usize, budget: u64) -> bool {
        let mut left = budget;
        loop {
            self.adopt();
            let ready = self.ready();
            if ready.is_empty() {
                return true;
            }
            if left == 0 {
                return false;
            }
            left -= 1;
            let id = ready[pick(ready.len())];
            self.poll(id);
        }
    }
}
