//! Stand-in for `pager`: starting one is recorded.
use std::sync::Mutex;

pub static STARTED: Mutex<u32> = Mutex::new(0);

pub struct Pager;
impl Pager {
    pub fn new() -> Self {
        Pager
    }
    pub fn with_pager(_: &str) -> Self {
        Pager
    }
    pub fn setup(&mut self) {
        *STARTED.lock().unwrap() += 1;
    }
}
