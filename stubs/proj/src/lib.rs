//! Stand-in for `proj` (PROJ is a C library outside what is encoded): the definition string is
//! recorded, projected coordinates are the radians themselves moved by an offset, and both
//! directions can be made to fail.
use std::sync::Mutex;

pub static LAST: Mutex<String> = Mutex::new(String::new());
/// 1: creation fails, 2: projecting fails, 3: the inverse fails
pub static FAIL: Mutex<u8> = Mutex::new(0);

#[derive(Debug)]
pub struct ProjError;
impl std::fmt::Display for ProjError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("stand-in failure")
    }
}
impl std::error::Error for ProjError {}
pub type ProjCreateError = ProjError;

pub struct Proj;

fn fails(k: u8) -> bool {
    *FAIL.lock().unwrap() == k
}

impl Proj {
    pub fn new(def: &str) -> Result<Self, ProjError> {
        *LAST.lock().unwrap() = def.to_owned();
        if fails(1) {
            return Err(ProjError);
        }
        Ok(Proj)
    }
    pub fn project(&self, (x, y): (f64, f64), inverse: bool) -> Result<(f64, f64), ProjError> {
        if fails(if inverse { 3 } else { 2 }) {
            return Err(ProjError);
        }
        Ok(if inverse { (x / 2.0, y / 4.0) } else { (x * 2.0, y * 4.0) })
    }
    pub fn project_array<'a>(&self, points: &'a mut [(f64, f64)], inverse: bool) -> Result<&'a mut [(f64, f64)], ProjError> {
        if fails(if inverse { 3 } else { 2 }) {
            return Err(ProjError);
        }
        for p in points.iter_mut() {
            *p = if inverse { (p.0 / 2.0, p.1 / 4.0) } else { (p.0 * 2.0, p.1 * 4.0) };
        }
        Ok(points)
    }
}
