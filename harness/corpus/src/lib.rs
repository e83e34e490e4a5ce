//! What programs built from generated code and the check of type ids share.
pub mod drive;
pub mod record;
pub mod slots;

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|p| *PANIC.lock().unwrap() = p.to_string()));
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| std::mem::take(&mut *PANIC.lock().unwrap()))
}

pub fn arg(name: &str) -> Option<String> {
    let args: Vec<String> = std::env::args().collect();
    args.iter().position(|a| a == name).map(|n| args[n + 1].clone())
}
