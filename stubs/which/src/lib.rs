//! Stand-in for `which`.
use std::path::PathBuf;
use std::sync::Mutex;

pub static FOUND: Mutex<bool> = Mutex::new(true);
#[derive(Debug)]
pub struct Error;
pub fn which(name: &str) -> Result<PathBuf, Error> {
    if *FOUND.lock().unwrap() { Ok(PathBuf::from(name)) } else { Err(Error) }
}
