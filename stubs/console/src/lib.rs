//! Stand-in for `console`: plain styles, a terminal of a given height.
use std::fmt;
use std::sync::Mutex;

/// (attended, height, colours switched on)
pub static TERM: Mutex<(bool, u16, bool)> = Mutex::new((false, 24, false));

pub fn user_attended() -> bool {
    TERM.lock().unwrap().0
}
pub fn set_colors_enabled(v: bool) {
    TERM.lock().unwrap().2 = v;
}
pub fn colors_enabled() -> bool {
    TERM.lock().unwrap().2
}

pub struct Term;
impl Term {
    pub fn stdout() -> Self {
        Term
    }
    pub fn size(&self) -> (u16, u16) {
        (TERM.lock().unwrap().1, 80)
    }
    pub fn is_term(&self) -> bool {
        user_attended()
    }
}

#[derive(Clone, Default)]
pub struct Style;
pub struct Styled<D>(D);

macro_rules! same { ($($n:ident)*) => { $(pub fn $n(self) -> Self { self })* } }
impl Style {
    pub fn new() -> Self {
        Style
    }
    same! { bold dim italic underlined black red green yellow blue magenta cyan white }
    pub fn apply_to<D>(&self, d: D) -> Styled<D> {
        Styled(d)
    }
}
pub fn style<D>(d: D) -> Styled<D> {
    Styled(d)
}
impl<D> Styled<D> {
    same! { bold dim italic underlined black red green yellow blue magenta cyan white }
}
impl<D: fmt::Display> fmt::Display for Styled<D> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
