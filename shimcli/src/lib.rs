//! gribber as a library: the arguments come from the stand-in of clap; what is printed and the
//! exit code are returned.
#![allow(dead_code, unused, clippy::all)]

macro_rules! print { ($($t:tt)*) => { $crate::shim::put(false, &format!($($t)*)) } }
macro_rules! println { () => { $crate::shim::put(false, "\n") }; ($($t:tt)*) => { { $crate::shim::put(false, &format!($($t)*)); $crate::shim::put(false, "\n") } } }
macro_rules! eprint { ($($t:tt)*) => { $crate::shim::put(true, &format!($($t)*)) } }
macro_rules! eprintln { () => { $crate::shim::put(true, "\n") }; ($($t:tt)*) => { { $crate::shim::put(true, &format!($($t)*)); $crate::shim::put(true, "\n") } } }

include!(concat!(env!("OUT_DIR"), "/cli/main.rs"));

pub mod shim {
    use std::sync::Mutex;

    static OUT: Mutex<String> = Mutex::new(String::new());
    static ERR: Mutex<String> = Mutex::new(String::new());
    static FAILED: Mutex<bool> = Mutex::new(false);

    pub fn put(err: bool, s: &str) {
        (if err { &ERR } else { &OUT }).lock().unwrap().push_str(s);
    }
    pub fn exit(code: i32) {
        *FAILED.lock().unwrap() = code != 0;
    }

    /// Standard output or standard error
    pub struct Stream(pub bool);
    impl Stream {
        pub fn lock(&self) -> Stream {
            Stream(self.0)
        }
    }
    impl std::io::Write for Stream {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            put(self.0, std::str::from_utf8(b).unwrap());
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }

    pub struct Ran {
        pub ok: bool,
        pub out: String,
        pub err: String,
    }

    trait Outcome {
        fn ok(self) -> bool;
    }
    impl Outcome for () {
        fn ok(self) -> bool {
            true
        }
    }
    impl<T: Outcome, E> Outcome for Result<T, E> {
        fn ok(self) -> bool {
            self.is_ok_and(|x| x.ok())
        }
    }
    impl Outcome for std::process::ExitCode {
        fn ok(self) -> bool {
            self == std::process::ExitCode::SUCCESS
        }
    }

    /// Runs the program with the arguments after its name.
    pub fn run(args: &[String]) -> Ran {
        *FAILED.lock().unwrap() = false;
        *clap::ARGS.lock().unwrap() = args.to_vec();
        let ok = crate::main().ok();
        let take = |m: &Mutex<String>| std::mem::take(&mut *m.lock().unwrap());
        Ran { ok: ok && !*FAILED.lock().unwrap(), out: take(&OUT), err: take(&ERR) }
    }
}
