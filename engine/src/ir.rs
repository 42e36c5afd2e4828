//! Reader for LLVM textual IR: indexes a module by line, parses functions on first use.

use crate::pool::Pool;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Struct(bool, Vec<T>),
    Array(u64, T),
    Vec(u32, T),
    Func,
    Other,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    A(Rc<[Val]>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32), // index into module.fns
    Ptr(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca {
        dst: u32,
        size: u64,
        cnt: Opd,
        align: u64,
    },
    Load {
        dst: u32,
        ty: T,
        ptr: Opd,
    },
    Store {
        ty: T,
        val: Opd,
        ptr: Opd,
    },
    Gep {
        dst: u32,
        base: Opd,
        off: u64,
        terms: Vec<(Opd, u16, u64)>,
    },
    Bin {
        dst: u32,
        op: crate::pool::Op,
        ty: T,
        a: Opd,
        b: Opd,
    },
    Icmp {
        dst: u32,
        pred: Pred,
        ty: T,
        a: Opd,
        b: Opd,
    },
    Fcmp {
        dst: u32,
        pred: String,
        ty: T,
        a: Opd,
        b: Opd,
    },
    Fneg {
        dst: u32,
        ty: T,
        a: Opd,
    },
    Cast {
        dst: u32,
        kind: CastKind,
        from: T,
        to: T,
        a: Opd,
    },
    Select {
        dst: u32,
        cty: T,
        ty: T,
        c: Opd,
        a: Opd,
        b: Opd,
    },
    ExtractValue {
        dst: u32,
        a: Opd,
        path: Vec<u32>,
    },
    InsertValue {
        dst: u32,
        a: Opd,
        b: Opd,
        path: Vec<u32>,
    },
    ExtractElement {
        dst: u32,
        a: Opd,
        i: Opd,
    },
    InsertElement {
        dst: u32,
        a: Opd,
        b: Opd,
        i: Opd,
    },
    Shuffle {
        dst: u32,
        a: Opd,
        b: Opd,
        mask: Vec<i32>,
    },
    Call {
        dst: Option<u32>,
        ret: T,
        callee: Callee,
        args: Vec<(T, Opd)>,
        normal: Option<u32>,
    },
    Cmpxchg {
        dst: u32,
        ty: T,
        ptr: Opd,
        cmp: Opd,
        new: Opd,
    },
    Rmw {
        dst: u32,
        op: String,
        ty: T,
        ptr: Opd,
        val: Opd,
    },
    Copy {
        dst: u32,
        a: Opd,
    },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch {
        ty: T,
        v: Opd,
        def: u32,
        cases: Vec<(u128, u32)>,
    },
    Ret(Option<(T, Opd)>),
    Unreachable,
}

impl Inst {
    /// Registers used and defined, and blocks that may follow.
    pub fn regs(
        &self,
        used: &mut dyn FnMut(u32),
        def: &mut Option<u32>,
        next: &mut dyn FnMut(u32),
    ) {
        let mut u = |o: &Opd| {
            if let Opd::R(r) = o {
                used(*r)
            }
        };
        match self {
            Inst::Alloca { dst, cnt, .. } => {
                u(cnt);
                *def = Some(*dst);
            }
            Inst::Load { dst, ptr, .. } => {
                u(ptr);
                *def = Some(*dst);
            }
            Inst::Store { val, ptr, .. } => {
                u(val);
                u(ptr);
            }
            Inst::Gep {
                dst, base, terms, ..
            } => {
                u(base);
                for t in terms {
                    u(&t.0);
                }
                *def = Some(*dst);
            }
            Inst::Bin { dst, a, b, .. }
            | Inst::Icmp { dst, a, b, .. }
            | Inst::Fcmp { dst, a, b, .. }
            | Inst::InsertValue { dst, a, b, .. }
            | Inst::Shuffle { dst, a, b, .. } => {
                u(a);
                u(b);
                *def = Some(*dst);
            }
            Inst::Fneg { dst, a, .. }
            | Inst::Cast { dst, a, .. }
            | Inst::ExtractValue { dst, a, .. }
            | Inst::Copy { dst, a } => {
                u(a);
                *def = Some(*dst);
            }
            Inst::Select { dst, c, a, b, .. } => {
                u(c);
                u(a);
                u(b);
                *def = Some(*dst);
            }
            Inst::ExtractElement { dst, a, i } => {
                u(a);
                u(i);
                *def = Some(*dst);
            }
            Inst::InsertElement { dst, a, b, i } => {
                u(a);
                u(b);
                u(i);
                *def = Some(*dst);
            }
            Inst::Call {
                dst,
                callee,
                args,
                normal,
                ..
            } => {
                if let Callee::Ptr(p) = callee {
                    u(p);
                }
                for a in args {
                    u(&a.1);
                }
                *def = *dst;
                if let Some(n) = normal {
                    next(*n);
                }
            }
            Inst::Cmpxchg {
                dst, ptr, cmp, new, ..
            } => {
                u(ptr);
                u(cmp);
                u(new);
                *def = Some(*dst);
            }
            Inst::Rmw { dst, ptr, val, .. } => {
                u(ptr);
                u(val);
                *def = Some(*dst);
            }
            Inst::Br(t) => next(*t),
            Inst::CondBr(c, a, b) => {
                u(c);
                next(*a);
                next(*b);
            }
            Inst::Switch { v, def, cases, .. } => {
                u(v);
                next(*def);
                for c in cases {
                    next(c.1);
                }
            }
            Inst::Ret(v) => {
                if let Some((_, v)) = v {
                    u(v);
                }
            }
            Inst::Unreachable => {}
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastKind {
    Zext,
    Sext,
    Trunc,
    Bit,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
    FpTrunc,
    PtrInt,
}

pub struct Phi {
    pub dst: u32,
    pub from: Vec<(u32, Opd)>,
}

pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: String,
    pub lines: Option<(usize, usize)>, // define line .. closing brace
    pub body: Option<Rc<Func>>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub init: Option<(T, usize, usize)>, // type, line, column of the initializer
    pub constant: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub lines: Vec<(usize, usize)>,
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, T>,
    named: HashMap<String, (usize, Option<T>)>, // text position of the body
    pub fns: Vec<FnDecl>,
    pub fnmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    aliases: HashMap<String, String>,
    layout: HashMap<T, (u64, u64)>,
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const GL_BASE: u64 = 0x2000_0000;

pub struct Cur<'a> {
    pub s: &'a [u8],
    pub i: usize,
}

impl<'a> Cur<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len()
            && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n')
        {
            self.i += 1;
        }
        if self.s[self.i.min(self.s.len())..].starts_with(b"/*") {
            while self.i < self.s.len() && !self.s[self.i..].starts_with(b"*/") {
                self.i += 1;
            }
            self.i = (self.i + 2).min(self.s.len());
            self.ws();
        }
        if self.i < self.s.len() && self.s[self.i] == b';' {
            while self.i < self.s.len() && self.s[self.i] != b'\n' {
                self.i += 1;
            }
            self.ws();
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at: {}", c as char, self.rest()))
        }
    }
    fn rest(&self) -> String {
        let e = (self.i + 80).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.i..e]).into_owned()
    }
    /// Bare word ([A-Za-z_][A-Za-z0-9_.$-]*) without consuming.
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len()
            && (self.s[j].is_ascii_alphanumeric() || b"_.$-".contains(&self.s[j]))
        {
            j += 1;
        }
        std::str::from_utf8(&self.s[st..j]).unwrap()
    }
    fn take_word(&mut self) -> &'a str {
        let w = self.word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// Skips a balanced (...) group.
    fn skip_paren(&mut self) {
        if self.peek() != b'(' {
            return;
        }
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// name after % or @ (quoted or plain)
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len()
                && (self.s[self.i].is_ascii_alphanumeric() || b"_.$-".contains(&self.s[self.i]))
            {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
}

fn parse_cstr(c: &mut Cur) -> Vec<u8> {
    // after c"
    let mut out = vec![];
    while c.s[c.i] != b'"' {
        if c.s[c.i] == b'\\' {
            let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
            if c.s[c.i + 1] == b'\\' {
                out.push(b'\\');
                c.i += 2;
                continue;
            }
            out.push(u8::from_str_radix(h, 16).unwrap());
            c.i += 3;
        } else {
            out.push(c.s[c.i]);
            c.i += 1;
        }
    }
    c.i += 1;
    out
}

impl Module {
    pub fn load(path: &str) -> Result<Module, String> {
        let text = std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut lines = vec![];
        let mut st = 0;
        for (i, &b) in text.iter().enumerate() {
            if b == b'\n' {
                lines.push((st, i));
                st = i + 1;
            }
        }
        if st < text.len() {
            lines.push((st, text.len()));
        }
        let mut m = Module {
            text,
            lines,
            tys: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            fns: vec![],
            fnmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            aliases: HashMap::new(),
            layout: HashMap::new(),
        };
        let mut glines = vec![];
        let mut i = 0;
        while i < m.lines.len() {
            let (a, b) = m.lines[i];
            if a == b {
                i += 1;
                continue;
            }
            let c0 = m.text[a];
            if c0 == b'%' {
                let mut c = Cur {
                    s: &m.text[..b],
                    i: a + 1,
                };
                let name = c.name();
                c.expect(b'=')?;
                c.eat_word("type");
                let pos = c.i;
                m.named.insert(name, (pos, None));
            } else if c0 == b'@' {
                glines.push(i);
            } else if m.text[a..b].starts_with(b"define ") || m.text[a..b].starts_with(b"declare ")
            {
                let def = m.text[a..b].starts_with(b"define ");
                let at = m.text[a..b].iter().position(|&x| x == b'@').unwrap() + a;
                let mut c = Cur {
                    s: &m.text[..b],
                    i: at + 1,
                };
                let name = c.name();
                let id = m.fns.len() as u32;
                let mut end = i;
                if def {
                    while !m.text[m.lines[end].0..m.lines[end].1].starts_with(b"}") {
                        end += 1;
                    }
                }
                m.fnmap.insert(name.clone(), id);
                m.fns.push(FnDecl {
                    name,
                    lines: if def { Some((i, end)) } else { None },
                    body: None,
                });
                i = end;
            }
            i += 1;
        }
        // globals: names and sizes first
        let mut addr = GL_BASE;
        for gi in glines {
            let (a, b) = m.lines[gi];
            let text = std::mem::take(&mut m.text);
            let r = (|| -> Result<(), String> {
                let mut c = Cur {
                    s: &text[..b],
                    i: a + 1,
                };
                let name = c.name();
                c.expect(b'=')?;
                let mut constant = false;
                let mut external = false;
                loop {
                    c.ws();
                    if c.s[c.i] == b'(' {
                        c.skip_paren();
                        continue;
                    }
                    let w = c.word();
                    match w {
                        "global" => {
                            c.take_word();
                            break;
                        }
                        "constant" => {
                            c.take_word();
                            constant = true;
                            break;
                        }
                        "alias" => {
                            let rest = &text[c.i..b];
                            let at =
                                rest.iter().rposition(|&x| x == b'@').ok_or("alias")? + c.i + 1;
                            let mut c2 = Cur {
                                s: &text[..b],
                                i: at,
                            };
                            let tgt = c2.name();
                            m.aliases.insert(name, tgt);
                            return Ok(());
                        }
                        "external" | "extern_weak" => {
                            external = true;
                            c.take_word();
                        }
                        "" => return Err(format!("global: {}", c.rest())),
                        _ => {
                            c.take_word();
                        }
                    }
                }
                let ty = m.ty(&mut c, &text)?;
                let (size, _) = m.lay(ty);
                let mut align = 16u64;
                // alignment
                let line = &text[a..b];
                if let Some(p) = find(line, b", align ") {
                    let mut c3 = Cur { s: line, i: p + 8 };
                    align = c3.take_word().parse().unwrap_or(16);
                }
                let align = align.max(16);
                addr = (addr + align - 1) / align * align;
                let id = m.globals.len() as u32;
                m.gmap.insert(name.clone(), id);
                let init = if external { None } else { Some((ty, gi, c.i)) };
                m.globals.push(Global {
                    name,
                    addr,
                    size,
                    init,
                    constant,
                });
                addr += size + 32;
                Ok(())
            })();
            m.text = text;
            r?;
        }
        Ok(m)
    }

    pub fn int(&mut self, ty: Ty) -> T {
        if let Some(&t) = self.tymap.get(&ty) {
            return t;
        }
        let t = self.tys.len() as T;
        self.tys.push(ty.clone());
        self.tymap.insert(ty, t);
        t
    }

    /// (size, align)
    pub fn lay(&mut self, t: T) -> (u64, u64) {
        if let Some(&l) = self.layout.get(&t) {
            return l;
        }
        let l = match self.tys[t as usize].clone() {
            Ty::Int(w) => {
                let b = (w as u64 + 7) / 8;
                if w > 64 {
                    ((b + 15) / 16 * 16, 16)
                } else {
                    let p = b.next_power_of_two();
                    (p, p)
                }
            }
            Ty::F32 => (4, 4),
            Ty::F64 | Ty::Ptr => (8, 8),
            Ty::Array(n, e) => {
                let (s, a) = self.lay(e);
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let bits = self.bits(e) as u64 * n as u64;
                let b = (bits + 7) / 8;
                let p = b.next_power_of_two();
                (p, p)
            }
            Ty::Struct(packed, fs) => {
                let mut off = 0u64;
                let mut al = 1;
                for f in fs {
                    let (s, a) = self.lay(f);
                    let a = if packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    off += s;
                    al = al.max(a);
                }
                ((off + al - 1) / al * al, al)
            }
            _ => (0, 1),
        };
        self.layout.insert(t, l);
        l
    }

    pub fn field_off(&mut self, t: T, k: usize) -> u64 {
        if let Ty::Struct(packed, fs) = self.tys[t as usize].clone() {
            let mut off = 0u64;
            for (i, f) in fs.iter().enumerate() {
                let (s, a) = self.lay(*f);
                let a = if packed { 1 } else { a };
                off = (off + a - 1) / a * a;
                if i == k {
                    return off;
                }
                off += s;
            }
        }
        0
    }

    pub fn bits(&self, t: T) -> u16 {
        match self.tys[t as usize] {
            Ty::Int(w) => w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }

    fn is_ty_start(c: &mut Cur) -> bool {
        let p = c.peek();
        if p == b'{' || p == b'<' || p == b'[' || p == b'%' {
            return true;
        }
        let w = c.word();
        matches!(
            w,
            "void"
                | "float"
                | "double"
                | "ptr"
                | "half"
                | "metadata"
                | "label"
                | "token"
                | "x86_fp80"
                | "fp128"
        ) || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
    }

    pub fn ty(&mut self, c: &mut Cur, text: &[u8]) -> Result<T, String> {
        match c.peek() {
            b'{' => {
                c.i += 1;
                let mut fs = vec![];
                if !c.eat(b'}') {
                    loop {
                        fs.push(self.ty(c, text)?);
                        if c.eat(b'}') {
                            break;
                        }
                        c.expect(b',')?;
                    }
                }
                Ok(self.int(Ty::Struct(false, fs)))
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    let t = self.ty(c, text)?;
                    c.expect(b'>')?;
                    let fs = match &self.tys[t as usize] {
                        Ty::Struct(_, fs) => fs.clone(),
                        _ => unreachable!(),
                    };
                    Ok(self.int(Ty::Struct(true, fs)))
                } else {
                    let n: u32 = c.take_word().parse().map_err(|_| "vec".to_string())?;
                    c.eat_word("x");
                    let e = self.ty(c, text)?;
                    c.expect(b'>')?;
                    Ok(self.int(Ty::Vec(n, e)))
                }
            }
            b'[' => {
                c.i += 1;
                let n: u64 = c.take_word().parse().map_err(|_| "arr".to_string())?;
                c.eat_word("x");
                let e = self.ty(c, text)?;
                c.expect(b']')?;
                Ok(self.int(Ty::Array(n, e)))
            }
            b'%' => {
                c.i += 1;
                let n = c.name();
                let Some(&(pos, done)) = self.named.get(&n) else {
                    return Err(format!("unknown type {}", n));
                };
                if let Some(t) = done {
                    return Ok(t);
                }
                let mut c2 = Cur { s: text, i: pos };
                let t = if c2.word() == "opaque" {
                    self.int(Ty::Other)
                } else {
                    self.ty(&mut c2, text)?
                };
                self.named.insert(n, (pos, Some(t)));
                Ok(t)
            }
            _ => {
                let w = c.take_word();
                let t = match w {
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "ptr" => {
                        if c.word() == "addrspace" {
                            c.take_word();
                            c.skip_paren();
                        }
                        Ty::Ptr
                    }
                    "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(
                        w[1..]
                            .parse()
                            .map_err(|_| format!("type {} / {}", w, c.rest()))?,
                    ),
                    _ => return Err(format!("type? '{}' {}", w, c.rest())),
                };
                Ok(self.int(t))
            }
        }
    }

    pub fn zero(&mut self, t: T, pool: &mut Pool) -> Val {
        match self.tys[t as usize].clone() {
            Ty::Int(w) if w > 64 => Val::S(pool.c(w, 0)),
            Ty::Struct(_, fs) => Val::A(fs.iter().map(|f| self.zero(*f, pool)).collect()),
            Ty::Array(n, e) => {
                let z = self.zero(e, pool);
                Val::A((0..n).map(|_| z.clone()).collect())
            }
            Ty::Vec(n, e) => {
                let z = self.zero(e, pool);
                Val::A((0..n).map(|_| z.clone()).collect())
            }
            _ => Val::C(0),
        }
    }

    pub fn sym_addr(&self, name: &str) -> Option<u64> {
        if let Some(&g) = self.gmap.get(name) {
            return Some(self.globals[g as usize].addr);
        }
        if let Some(&f) = self.fnmap.get(name) {
            return Some(FN_BASE + 16 * f as u64);
        }
        if let Some(t) = self.aliases.get(name) {
            return self.sym_addr(t);
        }
        None
    }

    fn fn_id(&self, name: &str) -> Option<u32> {
        if let Some(&f) = self.fnmap.get(name) {
            return Some(f);
        }
        self.aliases.get(name).and_then(|t| self.fn_id(t))
    }

    /// Constant of a known type.
    pub fn konst(
        &mut self,
        c: &mut Cur,
        t: T,
        text: &[u8],
        pool: &mut Pool,
    ) -> Result<Val, String> {
        let p = c.peek();
        match p {
            b'@' => {
                c.i += 1;
                let n = c.name();
                return match self.sym_addr(&n) {
                    Some(a) => Ok(Val::C(a)),
                    None => Err(format!("unknown symbol {}", n)),
                };
            }
            b'{' => return self.konst_list(c, b'}', text, pool),
            b'[' => return self.konst_list(c, b']', text, pool),
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    let v = self.konst_list(c, b'}', text, pool)?;
                    c.expect(b'>')?;
                    return Ok(v);
                }
                c.i -= 1;
                return self.konst_list(c, b'>', text, pool);
            }
            _ => {}
        }
        let w = c.word();
        if w == "c" && c.s.get(c.i + 1) == Some(&b'"') {
            c.i += 2;
            let b = parse_cstr(c);
            return Ok(Val::A(b.into_iter().map(|x| Val::C(x as u64)).collect()));
        }
        match w {
            "true" => {
                c.take_word();
                return Ok(Val::C(1));
            }
            "false" => {
                c.take_word();
                return Ok(Val::C(0));
            }
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => {
                c.take_word();
                return Ok(self.zero(t, pool));
            }
            "splat" => {
                c.take_word();
                c.expect(b'(')?;
                let et = self.ty(c, text)?;
                let v = self.konst(c, et, text, pool)?;
                c.expect(b')')?;
                let n = match self.tys[t as usize] {
                    Ty::Vec(n, _) => n,
                    _ => return Err("splat".into()),
                };
                return Ok(Val::A((0..n).map(|_| v.clone()).collect()));
            }
            "getelementptr" => {
                c.take_word();
                while c.peek() != b'(' {
                    c.take_word();
                }
                c.expect(b'(')?;
                let et = self.ty(c, text)?;
                c.expect(b',')?;
                let bt = self.ty(c, text)?;
                let Val::C(mut a) = self.konst(c, bt, text, pool)? else {
                    return Err("gep".into());
                };
                let mut cur = et;
                let mut first = true;
                while c.eat(b',') {
                    c.eat_word("inrange");
                    let it = self.ty(c, text)?;
                    let Val::C(ix) = self.konst(c, it, text, pool)? else {
                        return Err("gep".into());
                    };
                    let ix = sext64(ix, self.bits(it));
                    a = a.wrapping_add(self.gep_step(&mut cur, first, ix)? as u64);
                    first = false;
                }
                c.expect(b')')?;
                return Ok(Val::C(a));
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                c.take_word();
                c.expect(b'(')?;
                let ft = self.ty(c, text)?;
                let v = self.konst(c, ft, text, pool)?;
                c.eat_word("to");
                let tt = self.ty(c, text)?;
                c.expect(b')')?;
                let Val::C(x) = v else {
                    return Err("constcast".into());
                };
                let b = self.bits(tt);
                return Ok(Val::C(if b < 64 { x & ((1 << b) - 1) } else { x }));
            }
            "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                let op = c.take_word().to_string();
                while c.peek() != b'(' {
                    c.take_word();
                }
                c.expect(b'(')?;
                let ft = self.ty(c, text)?;
                let Val::C(x) = self.konst(c, ft, text, pool)? else {
                    return Err("cb".into());
                };
                c.expect(b',')?;
                let ft2 = self.ty(c, text)?;
                let Val::C(y) = self.konst(c, ft2, text, pool)? else {
                    return Err("cb".into());
                };
                c.expect(b')')?;
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "mul" => x.wrapping_mul(y),
                    "shl" => x << y,
                    _ => x >> y,
                };
                let b = self.bits(ft);
                return Ok(Val::C(if b < 64 { r & ((1 << b) - 1) } else { r }));
            }
            _ => {}
        }
        // numbers
        c.ws();
        let st = c.i;
        while c.i < c.s.len() && !b" ,)]}>\n".contains(&c.s[c.i]) {
            c.i += 1;
        }
        let tok = std::str::from_utf8(&c.s[st..c.i]).unwrap();
        match self.tys[t as usize] {
            Ty::Int(w) => {
                let v: i128 = if let Some(h) = tok.strip_prefix("u0x") {
                    i128::from_str_radix(h, 16).map_err(|e| e.to_string())?
                } else {
                    match tok.parse::<i128>() {
                        Ok(v) => v,
                        Err(_) => tok
                            .parse::<u128>()
                            .map_err(|_| format!("int '{}' {}", tok, c.rest()))?
                            as i128,
                    }
                };
                if w > 64 {
                    if w > 128 {
                        return Err("wide int".into());
                    }
                    return Ok(Val::S(pool.c(w, v as u128)));
                }
                Ok(Val::C(
                    v as u64 & if w < 64 { (1 << w) - 1 } else { u64::MAX },
                ))
            }
            Ty::F32 | Ty::F64 => {
                let f32t = self.tys[t as usize] == Ty::F32;
                if let Some(h) = tok.strip_prefix("f0x") {
                    return Ok(Val::C(
                        u64::from_str_radix(h, 16).map_err(|e| e.to_string())?,
                    ));
                }
                let d: f64 = if let Some(h) = tok.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                } else {
                    match tok {
                        "+qnan" => f64::NAN,
                        "-qnan" => -f64::NAN,
                        "+inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        _ => tok.parse().map_err(|_| format!("float '{}'", tok))?,
                    }
                };
                if tok == "+qnan" || tok == "-qnan" {
                    let neg = tok.starts_with('-');
                    let b = if f32t {
                        0x7fc00000u64
                    } else {
                        0x7ff8000000000000
                    };
                    let s = if f32t { 1u64 << 31 } else { 1 << 63 };
                    return Ok(Val::C(if neg { b | s } else { b }));
                }
                Ok(Val::C(if f32t {
                    (d as f32).to_bits() as u64
                } else {
                    d.to_bits()
                }))
            }
            Ty::Ptr => tok
                .parse::<u64>()
                .map(Val::C)
                .map_err(|_| format!("ptr const '{}'", tok)),
            _ => Err(format!("const '{}' : {:?}", tok, self.tys[t as usize])),
        }
    }

    fn konst_list(
        &mut self,
        c: &mut Cur,
        close: u8,
        text: &[u8],
        pool: &mut Pool,
    ) -> Result<Val, String> {
        c.i += 1;
        let mut v = vec![];
        if !c.eat(close) {
            loop {
                let t = self.ty(c, text)?;
                v.push(self.konst(c, t, text, pool)?);
                if c.eat(close) {
                    break;
                }
                c.expect(b',')?;
            }
        }
        Ok(Val::A(v.into()))
    }

    fn gep_step(&mut self, cur: &mut T, first: bool, ix: i64) -> Result<i64, String> {
        if first {
            return Ok(self.lay(*cur).0 as i64 * ix);
        }
        match self.tys[*cur as usize].clone() {
            Ty::Struct(_, fs) => {
                let o = self.field_off(*cur, ix as usize);
                *cur = fs[ix as usize];
                Ok(o as i64)
            }
            Ty::Array(_, e) | Ty::Vec(_, e) => {
                *cur = e;
                Ok(self.lay(e).0 as i64 * ix)
            }
            t => Err(format!("gep into {:?}", t)),
        }
    }

    pub fn func(&mut self, id: u32, pool: &mut Pool) -> Result<Rc<Func>, String> {
        if let Some(b) = &self.fns[id as usize].body {
            return Ok(b.clone());
        }
        let text = std::mem::take(&mut self.text);
        let r = self.parse_fn(id, &text, pool);
        self.text = text;
        let f = Rc::new(r.map_err(|e| format!("{}: {}", self.fns[id as usize].name, e))?);
        self.fns[id as usize].body = Some(f.clone());
        Ok(f)
    }

    fn parse_fn(&mut self, id: u32, text: &[u8], pool: &mut Pool) -> Result<Func, String> {
        let (l0, l1) = self.fns[id as usize].lines.ok_or("no body")?;
        let mut p = FnParser {
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        // header
        let (a, b) = self.lines[l0];
        let at = text[a..b].iter().position(|&x| x == b'@').unwrap() + a;
        let mut c = Cur {
            s: &text[..b],
            i: at + 1,
        };
        c.name();
        c.expect(b'(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !c.eat(b')') {
            loop {
                if c.peek() == b'.' {
                    c.i += 3;
                } else {
                    self.ty(&mut c, text)?;
                    skip_attrs(&mut c);
                    if c.peek() == b'%' {
                        c.i += 1;
                        let n = c.name();
                        if n.bytes().all(|x| x.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(p.reg(&n));
                    } else {
                        let n = unnamed.to_string();
                        unnamed += 1;
                        params.push(p.reg(&n));
                    }
                }
                if c.eat(b')') {
                    break;
                }
                c.expect(b',')?;
            }
        }
        // labels
        let mut order: Vec<(usize, usize)> = vec![]; // block -> line range
        let mut cur_start = l0 + 1;
        let mut have = false;
        for li in l0 + 1..l1 {
            let (a, b) = self.lines[li];
            if let Some(name) = label_of(&text[a..b]) {
                if have {
                    order.last_mut().unwrap().1 = li;
                } else if order.is_empty() && nonempty(text, &self.lines[cur_start..li]) {
                    p.blocks.insert(unnamed.to_string(), 0);
                    order.push((cur_start, li));
                }
                let id = order.len() as u32;
                p.blocks.insert(name, id);
                order.push((li + 1, l1));
                cur_start = li + 1;
                have = true;
            }
        }
        if order.is_empty() {
            p.blocks.insert(unnamed.to_string(), 0);
            order.push((l0 + 1, l1));
        }
        let mut blocks = vec![];
        for (s, e) in order {
            let mut blk = Block {
                phis: vec![],
                insts: vec![],
            };
            let mut li = s;
            while li < e {
                let (a, b) = self.lines[li];
                li += 1;
                let mut k = a;
                while k < b && (text[k] == b' ' || text[k] == b'\t') {
                    k += 1;
                }
                if k >= b || text[k] == b';' || text[k] == b'#' {
                    continue;
                }
                // multi-line instructions: switch tables, invoke's label line, landingpad clauses
                let mut end = b;
                let line = &text[k..b];
                if line.starts_with(b"switch") {
                    while !line_has_close(&text[self.lines[li - 1].0..self.lines[li - 1].1]) {
                        li += 1;
                    }
                    end = self.lines[li - 1].1;
                } else {
                    while li < e {
                        let (na, nb) = self.lines[li];
                        let t = trim(&text[na..nb]);
                        if t.starts_with(b"to label")
                            || t.starts_with(b"cleanup")
                            || t.starts_with(b"catch ")
                            || t.starts_with(b"filter ")
                        {
                            end = nb;
                            li += 1;
                        } else {
                            break;
                        }
                    }
                }
                let mut c = Cur {
                    s: &text[..end],
                    i: k,
                };
                self.inst(&mut c, text, &mut p, &mut blk, pool)
                    .map_err(|er| {
                        format!(
                            "line {}: {} in `{}`",
                            li,
                            er,
                            String::from_utf8_lossy(&text[k..end.min(k + 200)])
                        )
                    })?;
            }
            blocks.push(blk);
        }
        Ok(Func {
            id,
            params,
            nregs: p.regs.len() as u32,
            blocks,
        })
    }

    fn opd(
        &mut self,
        c: &mut Cur,
        t: T,
        text: &[u8],
        p: &mut FnParser,
        pool: &mut Pool,
    ) -> Result<Opd, String> {
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            return Ok(Opd::R(p.reg(&n)));
        }
        Ok(Opd::K(self.konst(c, t, text, pool)?))
    }

    fn topd(
        &mut self,
        c: &mut Cur,
        text: &[u8],
        p: &mut FnParser,
        pool: &mut Pool,
    ) -> Result<(T, Opd), String> {
        let t = self.ty(c, text)?;
        let o = self.opd(c, t, text, p, pool)?;
        Ok((t, o))
    }

    fn label(&mut self, c: &mut Cur, p: &FnParser) -> Result<u32, String> {
        if !c.eat_word("label") {
            return Err(format!("label: {}", c.rest()));
        }
        c.expect(b'%')?;
        let n = c.name();
        p.blocks.get(&n).copied().ok_or(format!("block {}", n))
    }

    fn inst(
        &mut self,
        c: &mut Cur,
        text: &[u8],
        p: &mut FnParser,
        blk: &mut Block,
        pool: &mut Pool,
    ) -> Result<(), String> {
        use crate::pool::Op;
        let mut dst = u32::MAX;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            dst = p.reg(&n);
            c.expect(b'=')?;
        }
        let mut op = c.take_word();
        if matches!(op, "tail" | "musttail" | "notail") {
            op = c.take_word();
        }
        macro_rules! push {
            ($e:expr) => {{
                let x = $e;
                blk.insts.push(x);
            }};
        }
        match op {
            "alloca" => {
                c.eat_word("inalloca");
                let t = self.ty(c, text)?;
                let mut cnt = Opd::K(Val::C(1));
                let mut align = self.lay(t).1;
                while c.eat(b',') {
                    if c.eat_word("align") {
                        align = c.take_word().parse().map_err(|_| "align")?;
                    } else if c.word() == "addrspace" {
                        c.take_word();
                        c.skip_paren();
                    } else if c.peek() == b'!' {
                        break;
                    } else {
                        cnt = self.topd(c, text, p, pool)?.1;
                    }
                }
                let size = self.lay(t).0;
                push!(Inst::Alloca {
                    dst,
                    size,
                    cnt,
                    align
                })
            }
            "load" => {
                c.eat_word("atomic");
                c.eat_word("volatile");
                let ty = self.ty(c, text)?;
                c.expect(b',')?;
                let (_, ptr) = self.topd(c, text, p, pool)?;
                push!(Inst::Load { dst, ty, ptr })
            }
            "store" => {
                c.eat_word("atomic");
                c.eat_word("volatile");
                let (ty, val) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (_, ptr) = self.topd(c, text, p, pool)?;
                push!(Inst::Store { ty, val, ptr })
            }
            "getelementptr" => {
                loop {
                    match c.word() {
                        "inbounds" | "nuw" | "nusw" => {
                            c.take_word();
                        }
                        "inrange" => {
                            c.take_word();
                            c.skip_paren();
                        }
                        _ => break,
                    }
                }
                let et = self.ty(c, text)?;
                c.expect(b',')?;
                let (_, base) = self.topd(c, text, p, pool)?;
                let mut cur = et;
                let mut first = true;
                let mut off = 0i64;
                let mut terms = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, ix) = self.topd(c, text, p, pool)?;
                    match ix {
                        Opd::K(Val::C(k)) => {
                            let k = sext64(k, self.bits(it));
                            off = off.wrapping_add(self.gep_step(&mut cur, first, k)?);
                        }
                        o => {
                            let scale = self.gep_step(&mut cur, first, 1)?;
                            terms.push((o, self.bits(it), scale as u64));
                        }
                    }
                    first = false;
                }
                push!(Inst::Gep {
                    dst,
                    base,
                    off: off as u64,
                    terms
                })
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor"
            | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let o = match op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "fadd" => Op::FAdd,
                    "fsub" => Op::FSub,
                    "fmul" => Op::FMul,
                    "fdiv" => Op::FDiv,
                    _ => Op::FRem,
                };
                skip_flags(c);
                let (ty, a) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let b = self.opd(c, ty, text, p, pool)?;
                push!(Inst::Bin {
                    dst,
                    op: o,
                    ty,
                    a,
                    b
                })
            }
            "icmp" => {
                c.eat_word("samesign");
                let pred = match c.take_word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("pred {}", x)),
                };
                let (ty, a) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let b = self.opd(c, ty, text, p, pool)?;
                push!(Inst::Icmp {
                    dst,
                    pred,
                    ty,
                    a,
                    b
                })
            }
            "fcmp" => {
                skip_flags(c);
                let pred = c.take_word().to_string();
                let (ty, a) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let b = self.opd(c, ty, text, p, pool)?;
                push!(Inst::Fcmp {
                    dst,
                    pred,
                    ty,
                    a,
                    b
                })
            }
            "fneg" => {
                skip_flags(c);
                let (ty, a) = self.topd(c, text, p, pool)?;
                push!(Inst::Fneg { dst, ty, a })
            }
            "zext" | "sext" | "trunc" | "bitcast" | "fptosi" | "fptoui" | "sitofp" | "uitofp"
            | "fpext" | "fptrunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                let kind = match op {
                    "zext" => CastKind::Zext,
                    "sext" => CastKind::Sext,
                    "trunc" => CastKind::Trunc,
                    "bitcast" => CastKind::Bit,
                    "fptosi" => CastKind::FpToSi,
                    "fptoui" => CastKind::FpToUi,
                    "sitofp" => CastKind::SiToFp,
                    "uitofp" => CastKind::UiToFp,
                    "fpext" => CastKind::FpExt,
                    "fptrunc" => CastKind::FpTrunc,
                    _ => CastKind::PtrInt,
                };
                skip_flags(c);
                let (from, a) = self.topd(c, text, p, pool)?;
                if !c.eat_word("to") {
                    return Err("cast to".into());
                }
                let to = self.ty(c, text)?;
                push!(Inst::Cast {
                    dst,
                    kind,
                    from,
                    to,
                    a
                })
            }
            "select" => {
                skip_flags(c);
                let (cty, cc) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (ty, a) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (_, b) = self.topd(c, text, p, pool)?;
                push!(Inst::Select {
                    dst,
                    cty,
                    ty,
                    c: cc,
                    a,
                    b
                })
            }
            "extractvalue" => {
                let (_, a) = self.topd(c, text, p, pool)?;
                let mut path = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    path.push(c.take_word().parse().map_err(|_| "idx")?);
                }
                push!(Inst::ExtractValue { dst, a, path })
            }
            "insertvalue" => {
                let (_, a) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (_, b) = self.topd(c, text, p, pool)?;
                let mut path = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    path.push(c.take_word().parse().map_err(|_| "idx")?);
                }
                push!(Inst::InsertValue { dst, a, b, path })
            }
            "extractelement" => {
                let (_, a) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (_, i) = self.topd(c, text, p, pool)?;
                push!(Inst::ExtractElement { dst, a, i })
            }
            "insertelement" => {
                let (_, a) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (_, b) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (_, i) = self.topd(c, text, p, pool)?;
                push!(Inst::InsertElement { dst, a, b, i })
            }
            "shufflevector" => {
                let (_, a) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (_, b) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (_, m) = self.topd(c, text, p, pool)?;
                let mut mask = vec![];
                if let Opd::K(Val::A(xs)) = m {
                    for x in xs.iter() {
                        if let Val::C(k) = x {
                            mask.push(*k as i32);
                        }
                    }
                } else {
                    return Err("shuffle mask".into());
                }
                push!(Inst::Shuffle { dst, a, b, mask })
            }
            "freeze" => {
                let (_, a) = self.topd(c, text, p, pool)?;
                push!(Inst::Copy { dst, a })
            }
            "phi" => {
                skip_flags(c);
                let ty = self.ty(c, text)?;
                let mut from = vec![];
                loop {
                    c.expect(b'[')?;
                    let o = self.opd(c, ty, text, p, pool)?;
                    c.expect(b',')?;
                    c.expect(b'%')?;
                    let n = c.name();
                    c.expect(b']')?;
                    let b = *p.blocks.get(&n).ok_or(format!("phi block {}", n))?;
                    from.push((b, o));
                    if !c.eat(b',') || c.peek() == b'!' {
                        break;
                    }
                }
                blk.phis.push(Phi { dst, from });
            }
            "br" => {
                if c.word() == "label" {
                    let l = self.label(c, p)?;
                    push!(Inst::Br(l))
                } else {
                    let (_, cc) = self.topd(c, text, p, pool)?;
                    c.expect(b',')?;
                    let a = self.label(c, p)?;
                    c.expect(b',')?;
                    let b = self.label(c, p)?;
                    push!(Inst::CondBr(cc, a, b))
                }
            }
            "switch" => {
                let (ty, v) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let def = self.label(c, p)?;
                c.expect(b'[')?;
                let mut cases = vec![];
                while !c.eat(b']') {
                    let t = self.ty(c, text)?;
                    let k = match self.konst(c, t, text, pool)? {
                        Val::C(k) => k as u128,
                        Val::S(e) => pool.cval(e).ok_or("case")?,
                        _ => return Err("case".into()),
                    };
                    c.expect(b',')?;
                    let l = self.label(c, p)?;
                    cases.push((k, l));
                }
                push!(Inst::Switch { ty, v, def, cases })
            }
            "ret" => {
                let t = self.ty(c, text)?;
                if self.tys[t as usize] == Ty::Void {
                    push!(Inst::Ret(None))
                } else {
                    let o = self.opd(c, t, text, p, pool)?;
                    push!(Inst::Ret(Some((t, o))))
                }
            }
            "unreachable" | "resume" => push!(Inst::Unreachable),
            "landingpad" => push!(Inst::Copy {
                dst,
                a: Opd::K(Val::C(0))
            }),
            "fence" => {}
            "cmpxchg" => {
                c.eat_word("weak");
                c.eat_word("volatile");
                let (_, ptr) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (ty, cmp) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (_, new) = self.topd(c, text, p, pool)?;
                push!(Inst::Cmpxchg {
                    dst,
                    ty,
                    ptr,
                    cmp,
                    new
                })
            }
            "atomicrmw" => {
                c.eat_word("volatile");
                let op = c.take_word().to_string();
                let (_, ptr) = self.topd(c, text, p, pool)?;
                c.expect(b',')?;
                let (ty, val) = self.topd(c, text, p, pool)?;
                push!(Inst::Rmw {
                    dst,
                    op,
                    ty,
                    ptr,
                    val
                })
            }
            "call" | "invoke" => {
                let is_invoke = op == "invoke";
                // flags, cc and return attributes
                while !Self::is_ty_start(c) {
                    let w = c.take_word();
                    if w.is_empty() {
                        return Err(format!("call: {}", c.rest()));
                    }
                    if c.s[c.i] == b'(' {
                        c.skip_paren();
                    } else if w == "align" {
                        c.take_word();
                    }
                }
                let ret = self.ty(c, text)?;
                if c.peek() == b'(' {
                    c.skip_paren();
                }
                let callee = if c.peek() == b'@' {
                    c.i += 1;
                    let n = c.name();
                    Callee::Fn(self.fn_id(&n).ok_or(format!("callee {}", n))?)
                } else if c.peek() == b'%' {
                    c.i += 1;
                    let n = c.name();
                    Callee::Ptr(Opd::R(p.reg(&n)))
                } else if c.eat_word("asm") {
                    while c.peek() != b'(' {
                        if c.peek() == b'"' {
                            c.i += 1;
                            while c.s[c.i] != b'"' {
                                c.i += 1;
                            }
                            c.i += 1;
                        } else if c.peek() == b',' {
                            c.i += 1;
                        } else if c.take_word().is_empty() {
                            return Err("asm".into());
                        }
                    }
                    Callee::Asm
                } else {
                    let pt = self.int(Ty::Ptr);
                    Callee::Ptr(Opd::K(self.konst(c, pt, text, pool)?))
                };
                c.expect(b'(')?;
                let mut args = vec![];
                if !c.eat(b')') {
                    loop {
                        if c.word() == "metadata" {
                            // skip to , or ) at depth 0
                            let mut d = 0;
                            while c.i < c.s.len() {
                                match c.s[c.i] {
                                    b'(' | b'{' => d += 1,
                                    b')' | b'}' if d > 0 => d -= 1,
                                    b')' | b',' if d == 0 => break,
                                    _ => {}
                                }
                                c.i += 1;
                            }
                        } else {
                            let t = self.ty(c, text)?;
                            skip_attrs(c);
                            let o = self.opd(c, t, text, p, pool)?;
                            args.push((t, o));
                        }
                        if c.eat(b')') {
                            break;
                        }
                        c.expect(b',')?;
                    }
                }
                let mut normal = None;
                if is_invoke {
                    // attributes / bundles, then: to label %a unwind label %b
                    while c.word() != "to" {
                        match c.peek() {
                            b'#' => {
                                c.i += 1;
                                c.take_word();
                            }
                            b'[' => {
                                while c.s[c.i] != b']' {
                                    c.i += 1;
                                }
                                c.i += 1;
                            }
                            _ => {
                                if c.take_word().is_empty() {
                                    return Err(format!("invoke: {}", c.rest()));
                                }
                                c.skip_paren();
                            }
                        }
                    }
                    c.take_word();
                    normal = Some(self.label(c, p)?);
                }
                let void = self.tys[ret as usize] == Ty::Void;
                let dst = if void || dst == u32::MAX {
                    None
                } else {
                    Some(dst)
                };
                if let Callee::Fn(f) = callee {
                    let n = &self.fns[f as usize].name;
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.x86.sse2.pause")
                        || n.starts_with("llvm.prefetch")
                    {
                        return Ok(());
                    }
                }
                push!(Inst::Call {
                    dst,
                    ret,
                    callee,
                    args,
                    normal
                })
            }
            _ => return Err(format!("unknown instruction '{}'", op)),
        }
        Ok(())
    }

    /// Type of a global's initializer value, as (type, value).
    pub fn global_init(&mut self, g: usize, pool: &mut Pool) -> Result<Option<(T, Val)>, String> {
        let Some((t, line, col)) = self.globals[g].init else {
            return Ok(None);
        };
        let text = std::mem::take(&mut self.text);
        let mut c = Cur {
            s: &text[..self.lines[line].1],
            i: col,
        };
        let r = self.konst(&mut c, t, &text, pool);
        self.text = text;
        r.map(|v| Some((t, v)))
            .map_err(|e| format!("global {}: {}", self.globals[g].name, e))
    }
}

struct FnParser {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl FnParser {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
}

pub fn sext64(v: u64, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).rposition(|w| w == n)
}

fn trim(mut s: &[u8]) -> &[u8] {
    while let Some(b' ' | b'\t') = s.first() {
        s = &s[1..];
    }
    s
}

fn nonempty(text: &[u8], ls: &[(usize, usize)]) -> bool {
    ls.iter().any(|&(a, b)| {
        let t = trim(&text[a..b]);
        !t.is_empty() && t[0] != b';'
    })
}

fn line_has_close(l: &[u8]) -> bool {
    l.iter().any(|&b| b == b']')
}

fn label_of(l: &[u8]) -> Option<String> {
    if l.is_empty() || l[0] == b' ' || l[0] == b';' || l[0] == b'}' {
        return None;
    }
    if l[0] == b'"' {
        let e = l[1..].iter().position(|&x| x == b'"')? + 1;
        if l.get(e + 1) == Some(&b':') {
            return Some(String::from_utf8_lossy(&l[1..e]).into_owned());
        }
        return None;
    }
    let e = l
        .iter()
        .position(|&x| !(x.is_ascii_alphanumeric() || b"_.$-".contains(&x)))?;
    if e > 0 && l[e] == b':' {
        Some(String::from_utf8_lossy(&l[..e]).into_owned())
    } else {
        None
    }
}

fn skip_flags(c: &mut Cur) {
    loop {
        match c.word() {
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan"
            | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => {
                c.take_word();
            }
            _ => return,
        }
    }
}

/// Parameter / argument attributes up to the value token.
fn skip_attrs(c: &mut Cur) {
    loop {
        let p = c.peek();
        if !(p.is_ascii_alphabetic() || p == b'"') {
            return;
        }
        if p == b'"' {
            // string attribute: "k"="v"
            c.i += 1;
            while c.s[c.i] != b'"' {
                c.i += 1;
            }
            c.i += 1;
            if c.s[c.i] == b'=' {
                c.i += 2;
                while c.s[c.i] != b'"' {
                    c.i += 1;
                }
                c.i += 1;
            }
            continue;
        }
        let w = c.word();
        if matches!(
            w,
            "true"
                | "false"
                | "null"
                | "undef"
                | "poison"
                | "zeroinitializer"
                | "none"
                | "splat"
                | "getelementptr"
                | "inttoptr"
                | "ptrtoint"
                | "ptrtoaddr"
                | "bitcast"
                | "add"
                | "sub"
                | "xor"
                | "trunc"
                | "c"
                | "f0x"
        ) || w.starts_with("f0x")
            || w.starts_with("u0x")
        {
            return;
        }
        c.take_word();
        if w == "align" {
            if c.peek() == b'(' {
                c.skip_paren();
            } else {
                c.take_word();
            }
        } else if c.s.get(c.i) == Some(&b'(') {
            c.skip_paren();
        }
    }
}
