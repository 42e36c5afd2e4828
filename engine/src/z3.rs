//! Z3 through its C API (dlopen'd), translating pool expressions to terms.

use crate::pool::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, name: *const c_char) -> P;
}

const LIBS: &[&str] = &[
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so.5.3",
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so.4",
];

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: P) -> Result<Api, String> {
                Ok(Api { $($name: {
                    let n = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    if p.is_null() { return Err(format!("missing {}", stringify!($name))); }
                    std::mem::transmute(p)
                },)* })
            }
        }
    };
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_set_param_value: fn(P, *const c_char, *const c_char);
    Z3_mk_context: fn(P) -> P;
    Z3_del_context: fn(P);
    Z3_set_error_handler: fn(P, unsafe extern "C" fn(P, c_uint));
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bool_sort: fn(P) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_func_decl: fn(P, P, c_uint, *const P, P) -> P;
    Z3_mk_app: fn(P, P, c_uint, *const P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_bvnot: fn(P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_fpa_sort_32: fn(P) -> P;
    Z3_mk_fpa_sort_64: fn(P) -> P;
    Z3_mk_fpa_rne: fn(P) -> P;
    Z3_mk_fpa_rna: fn(P) -> P;
    Z3_mk_fpa_rtz: fn(P) -> P;
    Z3_mk_fpa_rtp: fn(P) -> P;
    Z3_mk_fpa_rtn: fn(P) -> P;
    Z3_mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    Z3_mk_fpa_to_fp_float: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_ieee_bv: fn(P, P) -> P;
    Z3_mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_add: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sub: fn(P, P, P, P) -> P;
    Z3_mk_fpa_mul: fn(P, P, P, P) -> P;
    Z3_mk_fpa_div: fn(P, P, P, P) -> P;
    Z3_mk_fpa_rem: fn(P, P, P) -> P;
    Z3_mk_fpa_sqrt: fn(P, P, P) -> P;
    Z3_mk_fpa_round_to_integral: fn(P, P, P) -> P;
    Z3_mk_fpa_eq: fn(P, P, P) -> P;
    Z3_mk_fpa_lt: fn(P, P, P) -> P;
    Z3_mk_fpa_leq: fn(P, P, P) -> P;
    Z3_mk_fpa_is_nan: fn(P, P) -> P;
    Z3_mk_solver: fn(P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_tactic: fn(P, *const c_char) -> P;
    Z3_tactic_inc_ref: fn(P, P);
    Z3_mk_solver_from_tactic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_check_assumptions: fn(P, P, c_uint, *const P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_set_params: fn(P, P, P);
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_get_bool_value: fn(P, P) -> c_int;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_get_full_version: fn() -> *const c_char;
}

static mut ERR: u32 = 0;
unsafe extern "C" fn on_err(_c: P, e: c_uint) {
    ERR = e;
}

pub enum Res {
    Sat(Vec<(u32, u64)>), // (variable index, value)
    Unsat,
    Unknown,
}

pub struct Z3 {
    a: Api,
    c: P,
    solver: P,
    nq: u32,
    ast: HashMap<E, P>,
    fp: HashMap<E, P>,
    vars: HashMap<u32, P>,
    ufs: HashMap<(u32, u16, u8), P>,
    pub version: String,
    pub queries: u64,
    pub time: f64,
    pub max_time: f64,
    pub t_assert: f64,
    pub t_check: f64,
    pub unknowns: u64,
    pub timeout_ms: u32,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { (self.a.Z3_del_context)(self.c) }
    }
}

impl Z3 {
    pub fn new() -> Result<Z3, String> {
        unsafe {
            let mut h = std::ptr::null_mut();
            let env = std::env::var("LSX_Z3").unwrap_or_default();
            for l in std::iter::once(&env.as_str()).chain(LIBS) {
                if l.is_empty() {
                    continue;
                }
                let n = CString::new(*l).unwrap();
                h = dlopen(n.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                return Err("libz3 not found".into());
            }
            let a = Api::load(h)?;
            let cfg = (a.Z3_mk_config)();
            let c = (a.Z3_mk_context)(cfg);
            (a.Z3_set_error_handler)(c, on_err);
            let version = CStr::from_ptr((a.Z3_get_full_version)())
                .to_string_lossy()
                .into_owned();
            let mut z = Z3 {
                a,
                c,
                solver: std::ptr::null_mut(),
                nq: 0,
                ast: HashMap::new(),
                fp: HashMap::new(),
                vars: HashMap::new(),
                ufs: HashMap::new(),
                version,
                queries: 0,
                time: 0.0,
                max_time: 0.0,
                t_assert: 0.0,
                t_check: 0.0,
                unknowns: 0,
                timeout_ms: 30_000,
            };
            z.fresh_solver();
            Ok(z)
        }
    }

    unsafe fn fresh_solver(&mut self) {
        if !self.solver.is_null() {
            (self.a.Z3_solver_dec_ref)(self.c, self.solver);
        }
        self.solver = (self.a.Z3_mk_simple_solver)(self.c);
        (self.a.Z3_solver_inc_ref)(self.c, self.solver);
        self.params(self.solver);
        self.nq = 0;
    }

    unsafe fn params(&self, s: P) {
        let p = (self.a.Z3_mk_params)(self.c);
        (self.a.Z3_params_inc_ref)(self.c, p);
        let n = CString::new("rlimit").unwrap();
        let sym = (self.a.Z3_mk_string_symbol)(self.c, n.as_ptr());
        (self.a.Z3_params_set_uint)(self.c, p, sym, self.timeout_ms.saturating_mul(2000));
        (self.a.Z3_solver_set_params)(self.c, s, p);
    }

    unsafe fn num(&self, w: u16, k: u128) -> P {
        let s = (self.a.Z3_mk_bv_sort)(self.c, w as c_uint);
        if k >> 64 == 0 {
            (self.a.Z3_mk_unsigned_int64)(self.c, k as u64, s)
        } else {
            let t = CString::new(k.to_string()).unwrap();
            (self.a.Z3_mk_numeral)(self.c, t.as_ptr(), s)
        }
    }

    unsafe fn uf(&mut self, k: u32, w: u16, nargs: u8, w2: u16) -> P {
        if let Some(&p) = self.ufs.get(&(k, w, nargs)) {
            return p;
        }
        let name = CString::new(format!("uf{}_{}_{}", k, w, nargs)).unwrap();
        let sym = (self.a.Z3_mk_string_symbol)(self.c, name.as_ptr());
        let s1 = (self.a.Z3_mk_bv_sort)(self.c, w as c_uint);
        let s2 = (self.a.Z3_mk_bv_sort)(self.c, w2 as c_uint);
        let dom = [s1, s2];
        let f = (self.a.Z3_mk_func_decl)(self.c, sym, nargs as c_uint, dom.as_ptr(), s1);
        self.ufs.insert((k, w, nargs), f);
        f
    }

    /// Floating-point view of a 32/64-bit node.
    unsafe fn fpt(&mut self, pool: &Pool, e: E) -> P {
        if let Some(&p) = self.fp.get(&e) {
            return p;
        }
        let n = pool.n(e);
        let c = self.c;
        let srt = |z: &Z3, w: u16| {
            if w == 32 {
                (z.a.Z3_mk_fpa_sort_32)(c)
            } else {
                (z.a.Z3_mk_fpa_sort_64)(c)
            }
        };
        let rne = (self.a.Z3_mk_fpa_rne)(c);
        let r = match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let x = self.fpt(pool, n.a);
                let y = self.fpt(pool, n.b);
                let f = match n.op {
                    Op::FAdd => self.a.Z3_mk_fpa_add,
                    Op::FSub => self.a.Z3_mk_fpa_sub,
                    Op::FMul => self.a.Z3_mk_fpa_mul,
                    _ => self.a.Z3_mk_fpa_div,
                };
                f(c, rne, x, y)
            }
            Op::FSqrt => {
                let x = self.fpt(pool, n.a);
                (self.a.Z3_mk_fpa_sqrt)(c, rne, x)
            }
            Op::FCeil | Op::FFloor | Op::FTrunc | Op::FRint | Op::FRound => {
                let x = self.fpt(pool, n.a);
                let rm = match n.op {
                    Op::FCeil => (self.a.Z3_mk_fpa_rtp)(c),
                    Op::FFloor => (self.a.Z3_mk_fpa_rtn)(c),
                    Op::FTrunc => (self.a.Z3_mk_fpa_rtz)(c),
                    Op::FRint => rne,
                    _ => (self.a.Z3_mk_fpa_rna)(c),
                };
                (self.a.Z3_mk_fpa_round_to_integral)(c, rm, x)
            }
            Op::SiToF | Op::UiToF => {
                let x = self.t(pool, n.a);
                let x = if pool.w(n.a) == 1 { self.b2v(x) } else { x };
                let s = srt(self, n.w);
                if n.op == Op::SiToF {
                    (self.a.Z3_mk_fpa_to_fp_signed)(c, rne, x, s)
                } else {
                    (self.a.Z3_mk_fpa_to_fp_unsigned)(c, rne, x, s)
                }
            }
            Op::FExt | Op::FToF32 => {
                let x = self.fpt(pool, n.a);
                let s = srt(self, n.w);
                (self.a.Z3_mk_fpa_to_fp_float)(c, rne, x, s)
            }
            Op::Ite if self.is_fp(pool, n.b) || self.is_fp(pool, n.c) => {
                let q = self.t(pool, n.a);
                let x = self.fpt(pool, n.b);
                let y = self.fpt(pool, n.c);
                (self.a.Z3_mk_ite)(c, q, x, y)
            }
            _ => {
                let x = self.t(pool, e);
                let s = srt(self, n.w);
                (self.a.Z3_mk_fpa_to_fp_bv)(c, x, s)
            }
        };
        self.fp.insert(e, r);
        r
    }

    fn is_fp(&self, pool: &Pool, e: E) -> bool {
        matches!(
            pool.n(e).op,
            Op::FAdd
                | Op::FSub
                | Op::FMul
                | Op::FDiv
                | Op::FSqrt
                | Op::FCeil
                | Op::FFloor
                | Op::FTrunc
                | Op::FRint
                | Op::FRound
                | Op::SiToF
                | Op::UiToF
                | Op::FExt
                | Op::FToF32
        )
    }

    unsafe fn b2v(&self, b: P) -> P {
        (self.a.Z3_mk_ite)(self.c, b, self.num(1, 1), self.num(1, 0))
    }

    /// Bit-vector (or Bool for width 1) term.
    unsafe fn t(&mut self, pool: &Pool, e0: E) -> P {
        if let Some(&p) = self.ast.get(&e0) {
            return p;
        }
        let mut stack = vec![e0];
        while let Some(&e) = stack.last() {
            if self.ast.contains_key(&e) {
                stack.pop();
                continue;
            }
            let n = pool.n(e);
            let mut ready = true;
            for ch in [n.a, n.b, n.c] {
                if ch != NONE && !self.ast.contains_key(&ch) {
                    stack.push(ch);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let p = self.build(pool, e, n);
            self.ast.insert(e, p);
            stack.pop();
        }
        self.ast[&e0]
    }

    unsafe fn build(&mut self, pool: &Pool, e: E, n: Node) -> P {
        let c = self.c;
        let g = |z: &Z3, x: E| z.ast[&x];
        let bool1 = n.w == 1;
        macro_rules! bv2 {
            ($f:ident) => {
                (self.a.$f)(c, g(self, n.a), g(self, n.b))
            };
        }
        // arithmetic on width 1 goes through a 1-bit vector
        match n.op {
            Op::Const => {
                if bool1 {
                    if n.k == 1 {
                        (self.a.Z3_mk_true)(c)
                    } else {
                        (self.a.Z3_mk_false)(c)
                    }
                } else {
                    self.num(n.w, n.k)
                }
            }
            Op::Var => {
                let name = CString::new(format!("v{}", n.k)).unwrap();
                let sym = (self.a.Z3_mk_string_symbol)(c, name.as_ptr());
                let s = if bool1 {
                    (self.a.Z3_mk_bool_sort)(c)
                } else {
                    (self.a.Z3_mk_bv_sort)(c, n.w as c_uint)
                };
                let v = (self.a.Z3_mk_const)(c, sym, s);
                self.vars.insert(n.k as u32, v);
                v
            }
            Op::And | Op::Or if bool1 => {
                let args = [g(self, n.a), g(self, n.b)];
                if n.op == Op::And {
                    (self.a.Z3_mk_and)(c, 2, args.as_ptr())
                } else {
                    (self.a.Z3_mk_or)(c, 2, args.as_ptr())
                }
            }
            Op::Xor | Op::Add | Op::Sub if bool1 => bv2!(Z3_mk_xor),
            Op::Mul if bool1 => {
                let args = [g(self, n.a), g(self, n.b)];
                (self.a.Z3_mk_and)(c, 2, args.as_ptr())
            }
            Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr if bool1 => {
                let (x, y) = (self.b2v(g(self, n.a)), self.b2v(g(self, n.b)));
                let r = match n.op {
                    Op::UDiv => (self.a.Z3_mk_bvudiv)(c, x, y),
                    Op::SDiv => (self.a.Z3_mk_bvsdiv)(c, x, y),
                    Op::URem => (self.a.Z3_mk_bvurem)(c, x, y),
                    Op::SRem => (self.a.Z3_mk_bvsrem)(c, x, y),
                    Op::Shl => (self.a.Z3_mk_bvshl)(c, x, y),
                    Op::LShr => (self.a.Z3_mk_bvlshr)(c, x, y),
                    _ => (self.a.Z3_mk_bvashr)(c, x, y),
                };
                (self.a.Z3_mk_eq)(c, r, self.num(1, 1))
            }
            Op::Not if bool1 => (self.a.Z3_mk_not)(c, g(self, n.a)),
            Op::And => bv2!(Z3_mk_bvand),
            Op::Or => bv2!(Z3_mk_bvor),
            Op::Xor => bv2!(Z3_mk_bvxor),
            Op::Add => bv2!(Z3_mk_bvadd),
            Op::Sub => bv2!(Z3_mk_bvsub),
            Op::Mul => bv2!(Z3_mk_bvmul),
            Op::UDiv => bv2!(Z3_mk_bvudiv),
            Op::SDiv => bv2!(Z3_mk_bvsdiv),
            Op::URem => bv2!(Z3_mk_bvurem),
            Op::SRem => bv2!(Z3_mk_bvsrem),
            Op::Shl => bv2!(Z3_mk_bvshl),
            Op::LShr => bv2!(Z3_mk_bvlshr),
            Op::AShr => bv2!(Z3_mk_bvashr),
            Op::Not => (self.a.Z3_mk_bvnot)(c, g(self, n.a)),
            Op::Eq => bv2!(Z3_mk_eq),
            Op::Ult | Op::Slt => {
                let (mut x, mut y) = (g(self, n.a), g(self, n.b));
                if pool.w(n.a) == 1 {
                    x = self.b2v(x);
                    y = self.b2v(y);
                }
                if n.op == Op::Ult {
                    (self.a.Z3_mk_bvult)(c, x, y)
                } else {
                    (self.a.Z3_mk_bvslt)(c, x, y)
                }
            }
            Op::Ite => (self.a.Z3_mk_ite)(c, g(self, n.a), g(self, n.b), g(self, n.c)),
            Op::Concat => {
                let (mut x, mut y) = (g(self, n.a), g(self, n.b));
                if pool.w(n.a) == 1 {
                    x = self.b2v(x);
                }
                if pool.w(n.b) == 1 {
                    y = self.b2v(y);
                }
                (self.a.Z3_mk_concat)(c, x, y)
            }
            Op::Extract => {
                let x = (self.a.Z3_mk_extract)(
                    c,
                    n.k as c_uint + n.w as c_uint - 1,
                    n.k as c_uint,
                    g(self, n.a),
                );
                if bool1 {
                    (self.a.Z3_mk_eq)(c, x, self.num(1, 1))
                } else {
                    x
                }
            }
            Op::SExt => {
                let wa = pool.w(n.a);
                let mut x = g(self, n.a);
                if wa == 1 {
                    x = self.b2v(x);
                }
                (self.a.Z3_mk_sign_ext)(c, (n.w - wa) as c_uint, x)
            }
            Op::FEq | Op::FLt | Op::FLe => {
                let x = self.fpt(pool, n.a);
                let y = self.fpt(pool, n.b);
                match n.op {
                    Op::FEq => (self.a.Z3_mk_fpa_eq)(c, x, y),
                    Op::FLt => (self.a.Z3_mk_fpa_lt)(c, x, y),
                    _ => (self.a.Z3_mk_fpa_leq)(c, x, y),
                }
            }
            Op::FUno => {
                let x = self.fpt(pool, n.a);
                (self.a.Z3_mk_fpa_is_nan)(c, x)
            }
            Op::FToSiSat | Op::FToUiSat => {
                let wa = pool.w(n.a);
                let x = self.fpt(pool, n.a);
                let rtz = (self.a.Z3_mk_fpa_rtz)(c);
                let signed = n.op == Op::FToSiSat;
                let conv = if signed {
                    (self.a.Z3_mk_fpa_to_sbv)(c, rtz, x, n.w as c_uint)
                } else {
                    (self.a.Z3_mk_fpa_to_ubv)(c, rtz, x, n.w as c_uint)
                };
                // bounds as floats (powers of two are exact)
                let lo_f = if signed {
                    -(2f64.powi(n.w as i32 - 1))
                } else {
                    0.0
                };
                let hi_f = 2f64.powi(if signed { n.w as i32 - 1 } else { n.w as i32 });
                let fb = |z: &Z3, v: f64| {
                    let k = if wa == 32 {
                        (v as f32).to_bits() as u128
                    } else {
                        v.to_bits() as u128
                    };
                    let s = if wa == 32 {
                        (z.a.Z3_mk_fpa_sort_32)(c)
                    } else {
                        (z.a.Z3_mk_fpa_sort_64)(c)
                    };
                    (z.a.Z3_mk_fpa_to_fp_bv)(c, z.num(wa, k), s)
                };
                let lo = fb(self, lo_f);
                let hi = fb(self, hi_f);
                let lov = self.num(n.w, if signed { 1u128 << (n.w - 1) } else { 0 });
                let hiv = self.num(
                    n.w,
                    if signed {
                        (1u128 << (n.w - 1)) - 1
                    } else {
                        mask(n.w)
                    },
                );
                let below = (self.a.Z3_mk_fpa_leq)(c, x, lo);
                let above = (self.a.Z3_mk_fpa_leq)(c, hi, x);
                let nan = (self.a.Z3_mk_fpa_is_nan)(c, x);
                let zero = self.num(n.w, 0);
                let r = (self.a.Z3_mk_ite)(c, above, hiv, conv);
                let r = (self.a.Z3_mk_ite)(c, below, lov, r);
                (self.a.Z3_mk_ite)(c, nan, zero, r)
            }
            Op::Powi => {
                if let (Some(base), w) = (pool.cval(n.a), n.w) {
                    let b = if w == 32 {
                        f32::from_bits(base as u32) as f64
                    } else {
                        f64::from_bits(base as u64)
                    };
                    if b == 2.0 || b == 10.0 {
                        let lim: i32 = match (w, b == 2.0) {
                            (32, true) => 160,
                            (32, false) => 60,
                            (_, true) => 1100,
                            (_, false) => 340,
                        };
                        let y = g(self, n.b);
                        let ev = |k: i32| apply(Op::Powi, w, w, base, k as u32 as u128, 0, 0);
                        let mut r = self.num(w, ev(lim + 1));
                        let lov = self.num(w, ev(-lim - 1));
                        for k in -lim..=lim {
                            let kk = self.num(32, k as u32 as u128);
                            let cnd = (self.a.Z3_mk_eq)(c, y, kk);
                            r = (self.a.Z3_mk_ite)(c, cnd, self.num(w, ev(k)), r);
                        }
                        let l = self.num(32, (-lim) as u32 as u128);
                        let below = (self.a.Z3_mk_bvslt)(c, y, l);
                        return (self.a.Z3_mk_ite)(c, below, lov, r);
                    }
                }
                let f = self.uf(1000, n.w, 2, 32);
                let args = [g(self, n.a), g(self, n.b)];
                (self.a.Z3_mk_app)(c, f, 2, args.as_ptr())
            }
            Op::Math | Op::FRem => {
                let k = if n.op == Op::FRem { 999 } else { n.k as u32 };
                let nargs = if n.b == NONE { 1 } else { 2 };
                let w2 = if n.b == NONE { n.w } else { pool.w(n.b) };
                let f = self.uf(k, n.w, nargs, w2);
                let args = [
                    g(self, n.a),
                    if n.b == NONE {
                        g(self, n.a)
                    } else {
                        g(self, n.b)
                    },
                ];
                (self.a.Z3_mk_app)(c, f, nargs as c_uint, args.as_ptr())
            }
            _ => {
                let f = self.fpt(pool, e);
                (self.a.Z3_mk_fpa_to_ieee_bv)(c, f)
            }
        }
    }

    /// Decides the conjunction. `vars` are the variables whose values a model must report.
    pub fn check(&mut self, pool: &Pool, conj: &[E], vars: &[u32], has_fp: bool) -> Res {
        unsafe {
            let t0 = Instant::now();
            self.queries += 1;
            self.nq += 1;
            if self.nq > 4000 {
                self.fresh_solver();
            }
            ERR = 0;
            let mut tmp = std::ptr::null_mut();
            let s = if has_fp {
                let n = CString::new("qffp").unwrap();
                let tac = (self.a.Z3_mk_tactic)(self.c, n.as_ptr());
                (self.a.Z3_tactic_inc_ref)(self.c, tac);
                tmp = (self.a.Z3_mk_solver_from_tactic)(self.c, tac);
                (self.a.Z3_solver_inc_ref)(self.c, tmp);
                self.params(tmp);
                tmp
            } else {
                (self.a.Z3_solver_push)(self.c, self.solver);
                self.solver
            };
            for &e in conj {
                let p = self.t(pool, e);
                (self.a.Z3_solver_assert)(self.c, s, p);
            }
            let t1 = Instant::now();
            let r = (self.a.Z3_solver_check)(self.c, s);
            let t2 = Instant::now();
            self.t_assert += (t1 - t0).as_secs_f64();
            self.t_check += (t2 - t1).as_secs_f64();
            let out = if r == 1 {
                let m = (self.a.Z3_solver_get_model)(self.c, s);
                if m.is_null() {
                    Res::Unknown
                } else {
                    (self.a.Z3_model_inc_ref)(self.c, m);
                    let mut vals = vec![];
                    for &v in vars {
                        let Some(&p) = self.vars.get(&v) else {
                            continue;
                        };
                        let mut o = std::ptr::null_mut();
                        if (self.a.Z3_model_eval)(self.c, m, p, true, &mut o) && !o.is_null() {
                            let w = pool.var_names[v as usize].1;
                            let val = if w == 1 {
                                ((self.a.Z3_get_bool_value)(self.c, o) == 1) as u64
                            } else {
                                let t = CStr::from_ptr((self.a.Z3_get_numeral_string)(self.c, o));
                                t.to_str().unwrap().parse::<u64>().unwrap_or(0)
                            };
                            vals.push((v, val));
                        }
                    }
                    (self.a.Z3_model_dec_ref)(self.c, m);
                    Res::Sat(vals)
                }
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            if has_fp {
                (self.a.Z3_solver_dec_ref)(self.c, tmp);
            } else {
                (self.a.Z3_solver_pop)(self.c, s, 1);
            }
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            #[allow(static_mut_refs)]
            let err = ERR;
            if err != 0 {
                eprintln!("z3 error {}", err);
                self.unknowns += 1;
                return Res::Unknown;
            }
            if matches!(out, Res::Unknown) {
                self.unknowns += 1;
            }
            out
        }
    }
}
