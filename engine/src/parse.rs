//! Reader for the LLVM textual IR that `llvm-dis` prints.  Function bodies are decoded on demand.
use crate::expr::{mask, Op};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

/// Runtime value.  Integers of at most 64 bits and pointers are `C` when concrete; wider ones are
/// always expressions.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(u32),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    /// Constant of more than 64 bits.
    Wide(u128, u32),
    Agg(Rc<Vec<Opd>>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Copy,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fun(u32),
    Ext(Rc<str>),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Op, w: u32, dst: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u32, dst: u32, a: Opd, b: Opd },
    Cast { k: CastK, fw: u32, tw: u32, dst: u32, a: Opd },
    /// Floating point: the operands' width and the result's.
    Float { op: Rc<str>, fw: u32, tw: u32, dst: u32, a: Opd, b: Opd },
    Alloca { dst: u32, size: u64 },
    Load { dst: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, p: Opd, off: u64, idx: Vec<(Opd, u32, u64)> },
    Select { dst: u32, ty: Ty, c: Opd, a: Opd, b: Opd },
    Call {
        dst: Option<u32>,
        callee: Callee,
        args: Vec<(Ty, Opd)>,
        ret: Ty,
        noreturn: bool,
        normal: Option<u32>,
    },
    Extract { dst: u32, a: Opd, ix: Vec<u32> },
    Insert { dst: u32, ty: Ty, a: Opd, v: Opd, ix: Vec<u32> },
    CmpXchg { dst: u32, p: Opd, w: u32, c: Opd, n: Opd },
    Rmw { dst: u32, op: Rc<str>, p: Opd, w: u32, v: Opd },
    Nop,
    Ret(Option<Opd>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, dflt: u32, cases: Vec<(u64, u32)> },
    Unreachable,
    Unsupported(Rc<str>),
}

pub struct Phi {
    pub dst: u32,
    pub from: Vec<(Opd, u32)>,
}

pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
    /// Debug location of each instruction (0: none).
    pub dbg: Vec<u32>,
}

pub struct Func {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    /// Registers live after each instruction: `live[bb][i]`.
    pub live_in: Vec<Vec<u64>>,
}

pub struct FnDecl {
    pub name: Rc<str>,
    pub defined: bool,
    pub noreturn: bool,
    start: usize,
    end: usize,
    header: String,
}

pub struct Global {
    pub name: Rc<str>,
    pub mutable: bool,
    pub addr: u64,
    pub size: u64,
    pub bytes: Vec<u8>,
}

pub struct Module {
    lines: Vec<String>,
    types: HashMap<String, Ty>,
    attrs_noreturn: HashMap<String, bool>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    gaddr: HashMap<String, u64>,
    decoded: HashMap<u32, Rc<Func>>,
}

pub const BASE: u64 = 0x1000;
pub fn address(region: u64, slot: u64) -> u64 {
    region << 44 | slot << 24 | BASE
}
pub const R_CONST: u64 = 1;
pub const R_GLOBAL: u64 = 2;
pub const R_FN: u64 = 3;
pub const R_THREAD: u64 = 16;

fn align_of(t: &Ty) -> u64 {
    match t {
        Ty::Void | Ty::Other => 1,
        Ty::Int(w) => {
            let b = ((*w as u64 + 7) / 8).next_power_of_two();
            b.min(16)
        }
        Ty::Ptr => 8,
        Ty::Arr(_, e) => align_of(e),
        Ty::Vector(..) => size_of(t).next_power_of_two(),
        Ty::Struct(f, packed) => {
            if *packed {
                1
            } else {
                f.iter().map(align_of).max().unwrap_or(1)
            }
        }
    }
}
fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
/// Bytes a load or store of the type touches.
pub fn store_size(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => (*w as u64 + 7) / 8,
        _ => size_of(t),
    }
}
pub fn size_of(t: &Ty) -> u64 {
    match t {
        Ty::Void | Ty::Other => 0,
        Ty::Int(w) => up((*w as u64 + 7) / 8, align_of(t)),
        Ty::Ptr => 8,
        Ty::Arr(n, e) => n * size_of(e),
        Ty::Vector(n, e) => match &**e {
            Ty::Int(w) => (n * *w as u64 + 7) / 8,
            _ => n * size_of(e),
        },
        Ty::Struct(f, packed) => {
            let mut o = 0;
            for x in f.iter() {
                if !packed {
                    o = up(o, align_of(x));
                }
                o += size_of(x);
            }
            up(o, align_of(t))
        }
    }
}
pub fn field_offset(f: &[Ty], packed: bool, i: usize) -> u64 {
    let mut o = 0;
    for (k, x) in f.iter().enumerate() {
        if !packed {
            o = up(o, align_of(x));
        }
        if k == i {
            return o;
        }
        o += size_of(x);
    }
    o
}
pub fn width(t: &Ty) -> u32 {
    match t {
        Ty::Int(w) => *w,
        Ty::Ptr => 64,
        _ => 0,
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

type Res<T> = Result<T, String>;

impl<'a> P<'a> {
    fn new(s: &'a str) -> P<'a> {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> Res<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", t, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 80)]).to_string()
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len()
            && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_' || self.s[j] == b'.')
        {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, t: &str) -> bool {
        if self.peek_word() == t {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn number(&mut self) -> Res<i128> {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && self.s[self.i] == b'-' {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        t.parse::<i128>()
            .or_else(|_| t.parse::<u128>().map(|x| x as i128))
            .map_err(|_| format!("number at {:?}", self.rest()))
    }
    /// Name after `@` or `%`.
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            return r;
        }
        let st = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || b"_.$-".contains(&self.s[self.i]))
        {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn balanced(&mut self) {
        let mut d = 0;
        loop {
            match self.s.get(self.i) {
                None => return,
                Some(b'"') => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                Some(b'(') => d += 1,
                Some(b')') => d -= 1,
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    /// Parameter, return or function attributes.
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                self.name_str();
                if self.eat("=") {
                    self.need("\"").ok();
                    self.name_str();
                }
                continue;
            }
            let w = self.peek_word();
            if w.is_empty() || !w.as_bytes()[0].is_ascii_lowercase() {
                return;
            }
            if matches!(
                w,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                    | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "bitcast" | "ptr" | "void"
                    | "add" | "sub" | "trunc" | "float" | "double" | "metadata" | "c" | "asm" | "to" | "x86_fp80" | "half"
                    | "fp128" | "ptrtoaddr" | "label" | "xor" | "token" | "unwind"
            ) || (w.as_bytes()[0] == b'i' && w.len() > 1 && w.as_bytes()[1..].iter().all(u8::is_ascii_digit))
            {
                return;
            }
            self.i += w.len();
            if w == "align" || w == "cc" {
                if self.peek() == b'(' {
                    self.balanced();
                } else {
                    self.number().ok();
                }
                continue;
            }
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.balanced();
            }
        }
    }
    fn name_str(&mut self) {
        while self.s[self.i] != b'"' {
            self.i += 1;
        }
        self.i += 1;
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
}

impl Module {
    pub fn load(text: &str) -> Res<Module> {
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines: Vec::new(),
            types: HashMap::new(),
            attrs_noreturn: HashMap::new(),
            fns: Vec::new(),
            fn_by_name: HashMap::new(),
            globals: Vec::new(),
            gaddr: HashMap::new(),
            decoded: HashMap::new(),
        };
        let mut i = 0;
        let mut gl: Vec<(usize, String)> = Vec::new();
        let mut nc = 0;
        let mut nm = 0;
        while i < lines.len() {
            let l = &lines[i];
            if let Some(r) = l.strip_prefix('%') {
                let mut p = P::new(r);
                let n = p.name();
                if p.eat("=") && p.eat_word("type") {
                    if p.peek_word() != "opaque" {
                        let t = m.ty(&mut p)?;
                        m.types.insert(n, t);
                    }
                }
            } else if let Some(r) = l.strip_prefix('@') {
                let mut p = P::new(r);
                let n = p.name();
                gl.push((i, n));
            } else if l.starts_with("define") || l.starts_with("declare") {
                let defined = l.starts_with("define");
                let at = l.find('@').ok_or("no name")?;
                let mut p = P::new(&l[at + 1..]);
                let name = p.name();
                let start = i + 1;
                let mut end = start;
                if defined {
                    while lines[end] != "}" {
                        end += 1;
                    }
                    i = end;
                }
                let id = m.fns.len() as u32;
                m.fn_by_name.insert(name.clone(), id);
                m.gaddr.insert(name.clone(), address(R_FN, id as u64));
                m.fns.push(FnDecl {
                    name: name.into(),
                    defined,
                    noreturn: false,
                    start,
                    end,
                    header: l.clone(),
                });
            } else if let Some(r) = l.strip_prefix("attributes #") {
                let id: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
                let nr = r.split_whitespace().any(|w| w == "noreturn");
                m.attrs_noreturn.insert(id, nr);
            }
            i += 1;
        }
        for f in 0..m.fns.len() {
            let h = m.fns[f].header.clone();
            m.fns[f].noreturn = m.has_noreturn(&h);
        }
        // Addresses first, contents second: initialisers refer to each other.
        let mut todo = Vec::new();
        let mut aliases: Vec<(String, String)> = Vec::new();
        for (i, n) in gl {
            let l = &lines[i];
            let mut p = P::new(&l[1..]);
            p.name();
            p.need("=")?;
            let mut mutable = None;
            loop {
                let w = p.peek_word();
                if w.is_empty() {
                    break;
                }
                p.i += w.len();
                if p.i < p.s.len() && p.s[p.i] == b'(' {
                    p.balanced();
                }
                if w == "global" || w == "constant" {
                    mutable = Some(w == "global");
                    break;
                }
                if w == "alias" || w == "ifunc" {
                    break;
                }
            }
            let mutable = match mutable {
                Some(x) => x,
                None => {
                    // An alias: another name for a function or global.
                    if let Some(at) = l.rfind(", ptr @") {
                        let mut q = P::new(&l[at + 7..]);
                        aliases.push((n, q.name()));
                    }
                    continue;
                }
            };
            let t = m.ty(&mut p)?;
            let slot = if mutable { &mut nm } else { &mut nc };
            let addr = address(if mutable { R_GLOBAL } else { R_CONST }, *slot);
            *slot += 1;
            m.gaddr.insert(n.clone(), addr);
            let rest = l[1..][p.i..].to_string();
            let external = l.contains(" external ") || l.contains("extern_weak");
            todo.push((n, mutable, addr, t, rest, external));
        }
        for _ in 0..aliases.len() {
            for (n, of) in &aliases {
                if let Some(&a) = m.gaddr.get(of) {
                    m.gaddr.insert(n.clone(), a);
                }
                if let Some(&f) = m.fn_by_name.get(of) {
                    m.fn_by_name.insert(n.clone(), f);
                }
            }
        }
        for (n, mutable, addr, t, rest, external) in todo {
            let size = size_of(&t);
            let mut bytes = vec![0u8; size as usize];
            if !external {
                let mut p = P::new(&rest);
                m.init(&mut p, &t, &mut bytes, 0)?;
            }
            m.globals.push(Global { name: n.into(), mutable, addr, size, bytes });
        }
        m.lines = lines;
        Ok(m)
    }

    fn has_noreturn(&self, l: &str) -> bool {
        let mut rest = l;
        while let Some(i) = rest.find('#') {
            rest = &rest[i + 1..];
            let id: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
            if !id.is_empty() && self.attrs_noreturn.get(&id) == Some(&true) {
                return true;
            }
        }
        l.split_whitespace().any(|w| w == "noreturn")
    }

    fn ty(&self, p: &mut P) -> Res<Ty> {
        let c = p.peek();
        match c {
            b'[' => {
                p.i += 1;
                let n = p.number()? as u64;
                if !p.eat_word("x") {
                    return Err("array".into());
                }
                let e = self.ty(p)?;
                p.need("]")?;
                Ok(Ty::Arr(n, Rc::new(e)))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    let f = self.fields(p)?;
                    p.need(">")?;
                    return Ok(Ty::Struct(Rc::new(f), true));
                }
                let n = p.number()? as u64;
                if !p.eat_word("x") {
                    return Err("vector".into());
                }
                let e = self.ty(p)?;
                p.need(">")?;
                Ok(Ty::Vector(n, Rc::new(e)))
            }
            b'{' => Ok(Ty::Struct(Rc::new(self.fields(p)?), false)),
            b'%' => {
                p.i += 1;
                let n = p.name();
                self.types.get(&n).cloned().ok_or(format!("type {}", n))
            }
            _ => {
                let w = p.word();
                if w == "void" {
                    return Ok(Ty::Void);
                }
                if w == "ptr" {
                    if p.eat_word("addrspace") {
                        p.balanced();
                    }
                    return Ok(Ty::Ptr);
                }
                if let Some(n) = w.strip_prefix('i') {
                    if let Ok(n) = n.parse() {
                        return Ok(Ty::Int(n));
                    }
                }
                match w {
                    "float" => Ok(Ty::Int(32)),
                    "double" => Ok(Ty::Int(64)),
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" => Ok(Ty::Other),
                    _ => Err(format!("type {:?} before {:?}", w, p.rest())),
                }
            }
        }
    }
    fn fields(&self, p: &mut P) -> Res<Vec<Ty>> {
        p.need("{")?;
        let mut f = Vec::new();
        if p.eat("}") {
            return Ok(f);
        }
        loop {
            f.push(self.ty(p)?);
            if p.eat("}") {
                return Ok(f);
            }
            p.need(",")?;
        }
    }

    /// Global initialiser.
    fn init(&self, p: &mut P, t: &Ty, out: &mut [u8], off: usize) -> Res<()> {
        let w = p.peek_word();
        if matches!(w, "zeroinitializer" | "undef" | "poison" | "null" | "none") {
            p.i += w.len();
            return Ok(());
        }
        match t {
            Ty::Arr(n, e) | Ty::Vector(n, e) => {
                if w == "c" {
                    p.i += 1;
                    p.need("\"")?;
                    let mut o = off;
                    while p.s[p.i] != b'"' {
                        if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' {
                            out[o] = b'\\';
                            p.i += 2;
                        } else if p.s[p.i] == b'\\' {
                            let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                            out[o] = u8::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            p.i += 3;
                        } else {
                            out[o] = p.s[p.i];
                            p.i += 1;
                        }
                        o += 1;
                    }
                    p.i += 1;
                    return Ok(());
                }
                let close = if p.eat("[") {
                    "]"
                } else {
                    p.need("<")?;
                    ">"
                };
                for k in 0..*n as usize {
                    let et = self.ty(p)?;
                    self.init(p, &et, out, off + k * size_of(e) as usize)?;
                    if k + 1 < *n as usize {
                        p.need(",")?;
                    }
                }
                p.need(close)
            }
            Ty::Struct(f, packed) => {
                if *packed {
                    p.need("<")?;
                }
                p.need("{")?;
                for k in 0..f.len() {
                    let et = self.ty(p)?;
                    self.init(p, &et, out, off + field_offset(f, *packed, k) as usize)?;
                    if k + 1 < f.len() {
                        p.need(",")?;
                    }
                }
                p.need("}")?;
                if *packed {
                    p.need(">")?;
                }
                Ok(())
            }
            Ty::Int(_) | Ty::Ptr => {
                let mut no = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
                let v = match self.operand(p, t, &mut no)? {
                    Opd::C(v) => v as u128,
                    Opd::Wide(v, _) => v,
                    _ => return Err("initialiser".into()),
                };
                for k in 0..store_size(t) as usize {
                    out[off + k] = (v >> (8 * k)) as u8;
                }
                Ok(())
            }
            _ => Err("initialiser type".into()),
        }
    }

    fn zero(&self, t: &Ty) -> Opd {
        match t {
            Ty::Arr(n, e) | Ty::Vector(n, e) => {
                Opd::Agg(Rc::new((0..*n).map(|_| self.zero(e)).collect()))
            }
            Ty::Struct(f, _) => Opd::Agg(Rc::new(f.iter().map(|x| self.zero(x)).collect())),
            Ty::Int(w) if *w > 64 => Opd::Wide(0, *w),
            _ => Opd::C(0),
        }
    }

    fn operand(&self, p: &mut P, t: &Ty, cx: &mut FnCtx) -> Res<Opd> {
        let c = p.peek();
        match c {
            b'%' => {
                p.i += 1;
                let n = p.name();
                return Ok(Opd::R(cx.reg(n)));
            }
            b'@' => {
                p.i += 1;
                let n = p.name();
                return self.gaddr.get(&n).map(|a| Opd::C(*a)).ok_or(format!("global {}", n));
            }
            b'-' | b'0'..=b'9' => {
                let start = p.i;
                let v = p.number()?;
                if p.i < p.s.len() && (p.s[p.i] == b'.' || p.s[p.i] == b'x') {
                    // A floating-point constant: decimal, or the bits of a double.
                    let hex = p.s[p.i] == b'x';
                    while p.i < p.s.len()
                        && (p.s[p.i].is_ascii_alphanumeric() || b".+-".contains(&p.s[p.i]))
                    {
                        p.i += 1;
                    }
                    let t0 = std::str::from_utf8(&p.s[start..p.i]).unwrap().trim();
                    let x = if hex {
                        u64::from_str_radix(&t0[2..], 16).ok().map(f64::from_bits)
                    } else {
                        t0.parse::<f64>().ok()
                    };
                    let x = x.ok_or("floating point")?;
                    return Ok(Opd::C(match width(t) {
                        32 => (x as f32).to_bits() as u64,
                        _ => x.to_bits(),
                    }));
                }
                let w = width(t);
                return Ok(if w > 64 {
                    Opd::Wide(v as u128 & mask(w as u8), w)
                } else {
                    Opd::C((v as u128 & mask(w as u8)) as u64)
                });
            }
            b'{' | b'[' | b'<' => {
                let packed = p.eat("<{");
                if !packed {
                    p.i += 1;
                }
                let mut v = Vec::new();
                loop {
                    let q = p.peek();
                    if q == b'}' || q == b']' || q == b'>' {
                        p.i += 1;
                        if packed {
                            p.need(">")?;
                        }
                        return Ok(Opd::Agg(Rc::new(v)));
                    }
                    if q == b',' {
                        p.i += 1;
                        continue;
                    }
                    let et = self.ty(p)?;
                    v.push(self.operand(p, &et, cx)?);
                }
            }
            _ => {}
        }
        let w = p.word();
        match w {
            "true" => Ok(Opd::C(1)),
            "false" => Ok(Opd::C(0)),
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(self.zero(t)),
            "splat" => {
                p.need("(")?;
                let et = self.ty(p)?;
                let v = self.operand(p, &et, cx)?;
                p.need(")")?;
                match t {
                    Ty::Vector(n, _) | Ty::Arr(n, _) => {
                        Ok(Opd::Agg(Rc::new((0..*n).map(|_| v.clone()).collect())))
                    }
                    _ => Err("splat".into()),
                }
            }
            "getelementptr" => {
                while !p.eat("(") {
                    p.word();
                    if p.peek() == b'(' && p.s[..p.i].ends_with(b"inrange") {
                        p.balanced();
                    }
                }
                let bt = self.ty(p)?;
                p.need(",")?;
                let (base, off, idx) = self.gep(p, &bt, cx)?;
                p.need(")")?;
                if !idx.is_empty() {
                    return Err("symbolic constant gep".into());
                }
                match base {
                    Opd::C(a) => Ok(Opd::C(a.wrapping_add(off))),
                    _ => Err("constant gep".into()),
                }
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "ptrtoaddr" | "trunc" => {
                p.need("(")?;
                let ft = self.ty(p)?;
                let v = self.operand(p, &ft, cx)?;
                if !p.eat_word("to") {
                    return Err("cast constant".into());
                }
                let tt = self.ty(p)?;
                p.need(")")?;
                match v {
                    Opd::C(a) => Ok(Opd::C((a as u128 & mask(width(&tt) as u8)) as u64)),
                    _ => Err("cast constant".into()),
                }
            }
            "add" | "sub" | "xor" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.need("(")?;
                let at = self.ty(p)?;
                let a = self.operand(p, &at, cx)?;
                p.need(",")?;
                let bt = self.ty(p)?;
                let b = self.operand(p, &bt, cx)?;
                p.need(")")?;
                match (a, b) {
                    (Opd::C(a), Opd::C(b)) => {
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        };
                        Ok(Opd::C((r as u128 & mask(width(&at) as u8)) as u64))
                    }
                    _ => Err("constant arithmetic".into()),
                }
            }
            _ => Err(format!("operand {:?} before {:?}", w, p.rest())),
        }
    }

    /// After the element type and comma of a getelementptr.
    fn gep(&self, p: &mut P, bt: &Ty, cx: &mut FnCtx) -> Res<(Opd, u64, Vec<(Opd, u32, u64)>)> {
        let pt = self.ty(p)?;
        let base = self.operand(p, &pt, cx)?;
        let mut off = 0u64;
        let mut idx = Vec::new();
        let mut t = bt.clone();
        let mut first = true;
        loop {
            let save = p.i;
            if !p.eat(",") {
                break;
            }
            if p.peek() == b'!' {
                p.i = save;
                break;
            }
            let it = self.ty(p)?;
            let v = self.operand(p, &it, cx)?;
            let w = width(&it);
            let scale;
            if first {
                scale = size_of(&t);
                first = false;
            } else {
                match t.clone() {
                    Ty::Arr(_, e) | Ty::Vector(_, e) => {
                        scale = size_of(&e);
                        t = (*e).clone();
                    }
                    Ty::Struct(f, packed) => {
                        let k = match v {
                            Opd::C(k) => k as usize,
                            _ => return Err("struct index".into()),
                        };
                        off = off.wrapping_add(field_offset(&f, packed, k));
                        t = f[k].clone();
                        continue;
                    }
                    _ => return Err("gep type".into()),
                }
            }
            match v {
                Opd::C(k) => {
                    let k = crate::expr::sx(k as u128, w as u8) as i64 as u64;
                    off = off.wrapping_add(k.wrapping_mul(scale));
                }
                v => idx.push((v, w, scale)),
            }
        }
        Ok((base, off, idx))
    }

    pub fn func(&mut self, id: u32) -> Res<Rc<Func>> {
        if let Some(f) = self.decoded.get(&id) {
            return Ok(f.clone());
        }
        let f = Rc::new(self.decode(id)?);
        self.decoded.insert(id, f.clone());
        Ok(f)
    }

    pub fn decoded_names(&self) -> Vec<Rc<str>> {
        let mut v: Vec<Rc<str>> =
            self.decoded.keys().map(|k| self.fns[*k as usize].name.clone()).collect();
        v.sort();
        v
    }

    fn decode(&self, id: u32) -> Res<Func> {
        let d = &self.fns[id as usize];
        let mut cx = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        // Parameters.
        let mut params = Vec::new();
        let at = d.header.find('@').unwrap();
        let mut p = P::new(&d.header[at + 1..]);
        p.name();
        p.need("(")?;
        let mut unnamed = 0;
        while !p.eat(")") {
            if p.eat("...") {
                continue;
            }
            if p.eat(",") {
                continue;
            }
            self.ty(&mut p)?;
            p.attrs();
            p.need("%")?;
            let n = p.name();
            if n.chars().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            params.push(cx.reg(n));
        }
        // Logical lines and blocks.
        let mut blocks: Vec<(String, Vec<String>)> = Vec::new();
        let mut i = d.start;
        while i < d.end {
            let l = &self.lines[i];
            i += 1;
            if l.is_empty() {
                continue;
            }
            if !l.starts_with(' ') {
                let mut p = P::new(l);
                let n = p.name();
                blocks.push((n, Vec::new()));
                continue;
            }
            if blocks.is_empty() {
                blocks.push((unnamed.to_string(), Vec::new()));
            }
            let ls = &mut blocks.last_mut().unwrap().1;
            if l.starts_with("    ") || l.starts_with("  ]") {
                let prev: &mut String = ls.last_mut().ok_or("continuation")?;
                prev.push(' ');
                prev.push_str(l.trim());
            } else {
                ls.push(l.trim().to_string());
            }
        }
        for (k, (n, _)) in blocks.iter().enumerate() {
            cx.labels.insert(n.clone(), k as u32);
        }
        let mut out = Vec::new();
        for (_, ls) in &blocks {
            let mut b = Block { phis: Vec::new(), ins: Vec::new(), dbg: Vec::new() };
            for l in ls {
                match self.instr(l, &mut cx, &mut b) {
                    Ok(()) => {}
                    Err(e) => {
                        // The register it defines still has to exist.
                        b.ins.push(I::Unsupported(format!("{} [{}]", e, l).into()));
                    }
                }
                let d = match l.rfind("!dbg !") {
                    Some(k) => l[k + 6..]
                        .chars()
                        .take_while(|c| c.is_ascii_digit())
                        .collect::<String>()
                        .parse()
                        .unwrap_or(0),
                    None => 0,
                };
                b.dbg.resize(b.ins.len(), d);
            }
            if b.ins.is_empty() {
                b.ins.push(I::Unsupported("empty block".into()));
                b.dbg.push(0);
            }
            out.push(b);
        }
        let nregs = cx.regs.len() as u32;
        let live_in = liveness(&out, nregs);
        Ok(Func { nregs, params, blocks: out, live_in })
    }

    /// Source functions and lines behind debug locations, for files whose path contains `part`.
    pub fn sources(
        &self,
        hits: &[u32],
        part: &str,
    ) -> (std::collections::BTreeSet<String>, std::collections::BTreeSet<(String, u32)>) {
        let mut at: HashMap<u32, usize> = HashMap::new();
        for (i, l) in self.lines.iter().enumerate() {
            if let Some(r) = l.strip_prefix('!') {
                if let Some(k) = r.find(" = ") {
                    if let Ok(n) = r[..k].parse() {
                        at.insert(n, i);
                    }
                }
            }
        }
        let field = |l: &str, k: &str| -> Option<String> {
            let key = format!("{}: ", k);
            let mut from = 0;
            while let Some(i) = l[from..].find(&key) {
                let i = from + i;
                if i > 0 && !matches!(l.as_bytes()[i - 1], b'(' | b' ') {
                    from = i + 1;
                    continue;
                }
                let r = &l[i + key.len()..];
                if let Some(q) = r.strip_prefix('"') {
                    return q.find('"').map(|e| q[..e].to_string());
                }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(r[..e].to_string());
            }
            None
        };
        let num = |l: &str, k: &str| -> Option<u32> {
            field(l, k).and_then(|s| s.trim_start_matches('!').parse().ok())
        };
        let mut fns = std::collections::BTreeSet::new();
        let mut lns = std::collections::BTreeSet::new();
        let mut done = std::collections::HashSet::new();
        for &h in hits {
            let mut loc = Some(h);
            while let Some(x) = loc {
                if !done.insert(x) {
                    break;
                }
                let l = match at.get(&x) {
                    Some(&i) => &self.lines[i],
                    None => break,
                };
                loc = num(l, "inlinedAt");
                let line = num(l, "line").unwrap_or(0);
                let mut sc = num(l, "scope");
                while let Some(s) = sc {
                    let sl = match at.get(&s) {
                        Some(&i) => &self.lines[i],
                        None => break,
                    };
                    if sl.contains("DISubprogram(") {
                        let name = field(sl, "linkageName").or(field(sl, "name"));
                        let file = num(sl, "file")
                            .and_then(|f| at.get(&f))
                            .and_then(|&i| field(&self.lines[i], "filename"))
                            .unwrap_or_default();
                        if let Some(k) = file.find(part) {
                            let short = file[k + part.len()..].to_string();
                            fns.insert(format!("{}:{}", short, name.unwrap_or_default()));
                            lns.insert((short, line));
                        }
                        break;
                    }
                    sc = num(sl, "scope");
                }
            }
        }
        (fns, lns)
    }

    fn label(&self, p: &mut P, cx: &FnCtx) -> Res<u32> {
        if !p.eat_word("label") {
            return Err(format!("label at {:?}", p.rest()));
        }
        p.need("%")?;
        let n = p.name();
        cx.labels.get(&n).copied().ok_or(format!("label {}", n))
    }

    fn instr(&self, l: &str, cx: &mut FnCtx, b: &mut Block) -> Res<()> {
        let mut pp = P::new(l);
        let p = &mut pp;
        let mut dst = None;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            p.need("=")?;
            dst = Some(cx.reg(n));
        }
        let d = dst.unwrap_or(0);
        let op = p.word();
        let bin = |o: &str| -> Option<Op> {
            Some(match o {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "urem" => Op::URem,
                "sdiv" => Op::SDiv,
                "srem" => Op::SRem,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                _ => return None,
            })
        };
        if let Some(o) = bin(op) {
            while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                p.word();
            }
            let t = self.ty(p)?;
            let a = self.operand(p, &t, cx)?;
            p.need(",")?;
            let bb = self.operand(p, &t, cx)?;
            let w = width(&t);
            if w == 0 {
                return Err("vector arithmetic".into());
            }
            b.ins.push(I::Bin { op: o, w, dst: d, a, b: bb });
            return Ok(());
        }
        match op {
            "icmp" => {
                p.eat_word("samesign");
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("icmp {}", x)),
                };
                let t = self.ty(p)?;
                let a = self.operand(p, &t, cx)?;
                p.need(",")?;
                let bb = self.operand(p, &t, cx)?;
                let w = width(&t);
                if w == 0 {
                    return Err("vector comparison".into());
                }
                b.ins.push(I::ICmp { p: pr, w, dst: d, a, b: bb });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze"
            | "addrspacecast" | "ptrtoaddr" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "nneg") {
                    p.word();
                }
                let t = self.ty(p)?;
                let a = self.operand(p, &t, cx)?;
                if op == "freeze" {
                    b.ins.push(I::Cast { k: CastK::Copy, fw: 0, tw: 0, dst: d, a });
                    return Ok(());
                }
                if !p.eat_word("to") {
                    return Err("cast".into());
                }
                let tt = self.ty(p)?;
                let (fw, tw) = (width(&t), width(&tt));
                if fw == 0 || tw == 0 {
                    return Err("vector cast".into());
                }
                let k = match op {
                    "sext" => CastK::Sext,
                    _ if fw > tw => CastK::Trunc,
                    _ if fw < tw => CastK::Zext,
                    _ => CastK::Copy,
                };
                b.ins.push(I::Cast { k, fw, tw, dst: d, a });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" => {
                while matches!(
                    p.peek_word(),
                    "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast"
                ) {
                    p.word();
                }
                let name = if op == "fcmp" { format!("fcmp {}", p.word()) } else { op.to_string() };
                let t = self.ty(p)?;
                let a = self.operand(p, &t, cx)?;
                let bb = if op == "fneg" {
                    Opd::C(0)
                } else {
                    p.need(",")?;
                    self.operand(p, &t, cx)?
                };
                let w = width(&t);
                if w == 0 {
                    return Err("vector arithmetic".into());
                }
                let tw = if op == "fcmp" { 1 } else { w };
                b.ins.push(I::Float { op: name.into(), fw: w, tw, dst: d, a, b: bb });
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while matches!(p.peek_word(), "nneg" | "nnan" | "ninf" | "nsz" | "fast") {
                    p.word();
                }
                let t = self.ty(p)?;
                let a = self.operand(p, &t, cx)?;
                if !p.eat_word("to") {
                    return Err("cast".into());
                }
                let tt = self.ty(p)?;
                let (fw, tw) = (width(&t), width(&tt));
                if fw == 0 || tw == 0 || fw > 64 || tw > 64 {
                    return Err("vector or wide floating-point cast".into());
                }
                b.ins.push(I::Float { op: op.into(), fw, tw, dst: d, a, b: Opd::C(0) });
            }
            "alloca" => {
                p.eat_word("inalloca");
                let t = self.ty(p)?;
                let mut n = 1;
                if p.eat(",") && p.peek_word().starts_with('i') {
                    let it = self.ty(p)?;
                    match self.operand(p, &it, cx)? {
                        Opd::C(k) => n = k,
                        _ => return Err("dynamic alloca".into()),
                    }
                }
                b.ins.push(I::Alloca { dst: d, size: size_of(&t) * n });
            }
            "load" => {
                p.eat_word("atomic");
                p.eat_word("volatile");
                let ty = self.ty(p)?;
                p.need(",")?;
                let pt = self.ty(p)?;
                let ptr = self.operand(p, &pt, cx)?;
                b.ins.push(I::Load { dst: d, ty, p: ptr });
            }
            "store" => {
                p.eat_word("atomic");
                p.eat_word("volatile");
                let ty = self.ty(p)?;
                let v = self.operand(p, &ty, cx)?;
                p.need(",")?;
                let pt = self.ty(p)?;
                let ptr = self.operand(p, &pt, cx)?;
                b.ins.push(I::Store { ty, v, p: ptr });
            }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    if p.word() == "inrange" {
                        p.balanced();
                    }
                }
                let bt = self.ty(p)?;
                p.need(",")?;
                let (base, off, idx) = self.gep(p, &bt, cx)?;
                b.ins.push(I::Gep { dst: d, p: base, off, idx });
            }
            "select" => {
                let ct = self.ty(p)?;
                if ct != Ty::Int(1) {
                    return Err("vector select".into());
                }
                let c = self.operand(p, &ct, cx)?;
                p.need(",")?;
                let ty = self.ty(p)?;
                let a = self.operand(p, &ty, cx)?;
                p.need(",")?;
                self.ty(p)?;
                let bb = self.operand(p, &ty, cx)?;
                b.ins.push(I::Select { dst: d, ty, c, a, b: bb });
            }
            "phi" => {
                let ty = self.ty(p)?;
                let mut from = Vec::new();
                loop {
                    p.need("[")?;
                    let v = self.operand(p, &ty, cx)?;
                    p.need(",")?;
                    p.need("%")?;
                    let n = p.name();
                    p.need("]")?;
                    let bb = *cx.labels.get(&n).ok_or("phi label")?;
                    from.push((v, bb));
                    let save = p.i;
                    if !p.eat(",") || p.peek() != b'[' {
                        p.i = save;
                        break;
                    }
                }
                b.phis.push(Phi { dst: d, from });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" && !p.eat_word("call") {
                    return Err("tail".into());
                }
                p.attrs();
                let ret = self.ty(p)?;
                if p.peek() == b'(' {
                    p.balanced();
                }
                let c = p.peek();
                let callee = if c == b'@' {
                    p.i += 1;
                    let n = p.name();
                    match self.fn_by_name.get(&n) {
                        Some(&f) if self.fns[f as usize].defined => Callee::Fun(f),
                        _ => Callee::Ext(n.into()),
                    }
                } else if p.peek_word() == "asm" {
                    Callee::Ext("asm".into())
                } else {
                    Callee::Ind(self.operand(p, &Ty::Ptr, cx)?)
                };
                if let Callee::Ext(n) = &callee {
                    if &**n == "asm" {
                        b.ins.push(I::Unsupported("inline assembly".into()));
                        return Ok(());
                    }
                    if n.starts_with("llvm.experimental.noalias.scope")
                        || n.starts_with("llvm.lifetime.start")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.x86.sse2.pause")
                        || n.starts_with("llvm.pseudoprobe")
                    {
                        b.ins.push(I::Nop);
                        return Ok(());
                    }
                }
                p.need("(")?;
                let mut args = Vec::new();
                while !p.eat(")") {
                    if p.eat(",") {
                        continue;
                    }
                    let t = self.ty(p)?;
                    p.attrs();
                    if t == Ty::Other {
                        return Err("metadata argument".into());
                    }
                    let v = self.operand(p, &t, cx)?;
                    args.push((t, v));
                }
                let tail = String::from_utf8_lossy(&p.s[p.i..]).to_string();
                let mut noreturn = self.has_noreturn(&tail);
                match &callee {
                    Callee::Fun(f) => noreturn |= self.fns[*f as usize].noreturn,
                    Callee::Ext(n) => {
                        if let Some(f) = self.fn_by_name.get(&**n) {
                            noreturn |= self.fns[*f as usize].noreturn;
                        }
                    }
                    _ => {}
                }
                let mut normal = None;
                if op == "invoke" {
                    let k = tail.find("to label").ok_or("invoke")?;
                    let mut q = P::new(&tail[k + 2..]);
                    normal = Some(self.label(&mut q, cx)?);
                }
                b.ins.push(I::Call { dst, callee, args, ret, noreturn, normal });
            }
            "extractvalue" => {
                let t = self.ty(p)?;
                let a = self.operand(p, &t, cx)?;
                let ix = self.indices(p)?;
                b.ins.push(I::Extract { dst: d, a, ix });
            }
            "insertvalue" => {
                let ty = self.ty(p)?;
                let a = self.operand(p, &ty, cx)?;
                p.need(",")?;
                let vt = self.ty(p)?;
                let v = self.operand(p, &vt, cx)?;
                let ix = self.indices(p)?;
                b.ins.push(I::Insert { dst: d, ty, a, v, ix });
            }
            "cmpxchg" => {
                p.eat_word("weak");
                p.eat_word("volatile");
                let pt = self.ty(p)?;
                let ptr = self.operand(p, &pt, cx)?;
                p.need(",")?;
                let t = self.ty(p)?;
                let c = self.operand(p, &t, cx)?;
                p.need(",")?;
                self.ty(p)?;
                let n = self.operand(p, &t, cx)?;
                b.ins.push(I::CmpXchg { dst: d, p: ptr, w: width(&t), c, n });
            }
            "atomicrmw" => {
                p.eat_word("volatile");
                let o = p.word();
                let pt = self.ty(p)?;
                let ptr = self.operand(p, &pt, cx)?;
                p.need(",")?;
                let t = self.ty(p)?;
                let v = self.operand(p, &t, cx)?;
                b.ins.push(I::Rmw { dst: d, op: o.into(), p: ptr, w: width(&t), v });
            }
            "fence" => b.ins.push(I::Nop),
            "ret" => {
                let t = self.ty(p)?;
                if t == Ty::Void {
                    b.ins.push(I::Ret(None));
                } else {
                    let v = self.operand(p, &t, cx)?;
                    b.ins.push(I::Ret(Some(v)));
                }
            }
            "br" => {
                if p.peek_word() == "label" {
                    let t = self.label(p, cx)?;
                    b.ins.push(I::Br(t));
                } else {
                    self.ty(p)?;
                    let c = self.operand(p, &Ty::Int(1), cx)?;
                    p.need(",")?;
                    let t = self.label(p, cx)?;
                    p.need(",")?;
                    let f = self.label(p, cx)?;
                    b.ins.push(I::CondBr(c, t, f));
                }
            }
            "switch" => {
                let t = self.ty(p)?;
                let v = self.operand(p, &t, cx)?;
                p.need(",")?;
                let dflt = self.label(p, cx)?;
                p.need("[")?;
                let mut cases = Vec::new();
                while !p.eat("]") {
                    let ct = self.ty(p)?;
                    let c = match self.operand(p, &ct, cx)? {
                        Opd::C(c) => c,
                        _ => return Err("wide switch".into()),
                    };
                    p.need(",")?;
                    cases.push((c, self.label(p, cx)?));
                }
                b.ins.push(I::Switch { w: width(&t), v, dflt, cases });
            }
            "unreachable" => b.ins.push(I::Unreachable),
            _ => return Err(format!("instruction {}", op)),
        }
        Ok(())
    }

    fn indices(&self, p: &mut P) -> Res<Vec<u32>> {
        let mut ix = Vec::new();
        loop {
            let save = p.i;
            if !p.eat(",") {
                break;
            }
            if !p.peek().is_ascii_digit() {
                p.i = save;
                break;
            }
            ix.push(p.number()? as u32);
        }
        Ok(ix)
    }
}

fn opd_regs(o: &Opd, f: &mut dyn FnMut(u32)) {
    match o {
        Opd::R(r) => f(*r),
        Opd::Agg(v) => v.iter().for_each(|x| opd_regs(x, f)),
        _ => {}
    }
}

/// Registers an instruction reads.
pub fn uses(i: &I, f: &mut dyn FnMut(u32)) {
    match i {
        I::Bin { a, b, .. } | I::ICmp { a, b, .. } | I::Float { a, b, .. } => {
            opd_regs(a, f);
            opd_regs(b, f);
        }
        I::Cast { a, .. } | I::Extract { a, .. } => opd_regs(a, f),
        I::Alloca { .. } | I::Nop | I::Br(_) | I::Unreachable | I::Unsupported(_) => {}
        I::Load { p, .. } => opd_regs(p, f),
        I::Store { v, p, .. } | I::Rmw { v, p, .. } => {
            opd_regs(v, f);
            opd_regs(p, f);
        }
        I::Gep { p, idx, .. } => {
            opd_regs(p, f);
            idx.iter().for_each(|x| opd_regs(&x.0, f));
        }
        I::Select { c, a, b, .. } => {
            opd_regs(c, f);
            opd_regs(a, f);
            opd_regs(b, f);
        }
        I::Call { callee, args, .. } => {
            if let Callee::Ind(o) = callee {
                opd_regs(o, f);
            }
            args.iter().for_each(|x| opd_regs(&x.1, f));
        }
        I::Insert { a, v, .. } => {
            opd_regs(a, f);
            opd_regs(v, f);
        }
        I::CmpXchg { p, c, n, .. } => {
            opd_regs(p, f);
            opd_regs(c, f);
            opd_regs(n, f);
        }
        I::Ret(o) => {
            if let Some(o) = o {
                opd_regs(o, f)
            }
        }
        I::CondBr(o, _, _) => opd_regs(o, f),
        I::Switch { v, .. } => opd_regs(v, f),
    }
}

pub fn def(i: &I) -> Option<u32> {
    match i {
        I::Bin { dst, .. }
        | I::ICmp { dst, .. }
        | I::Cast { dst, .. }
        | I::Float { dst, .. }
        | I::Alloca { dst, .. }
        | I::Load { dst, .. }
        | I::Gep { dst, .. }
        | I::Select { dst, .. }
        | I::Extract { dst, .. }
        | I::Insert { dst, .. }
        | I::CmpXchg { dst, .. }
        | I::Rmw { dst, .. } => Some(*dst),
        I::Call { dst, .. } => *dst,
        _ => None,
    }
}

fn succs(i: &I, f: &mut dyn FnMut(u32)) {
    match i {
        I::Br(t) => f(*t),
        I::CondBr(_, t, e) => {
            f(*t);
            f(*e);
        }
        I::Switch { dflt, cases, .. } => {
            f(*dflt);
            cases.iter().for_each(|c| f(c.1));
        }
        I::Call { normal: Some(t), .. } => f(*t),
        _ => {}
    }
}

fn set(b: &mut [u64], r: u32) {
    b[r as usize / 64] |= 1 << (r % 64);
}
fn clr(b: &mut [u64], r: u32) {
    b[r as usize / 64] &= !(1 << (r % 64));
}

/// Live registers at the start of each block, before its phi nodes (whose inputs are charged to
/// the predecessors).
fn liveness(bs: &[Block], nregs: u32) -> Vec<Vec<u64>> {
    let words = (nregs as usize + 63) / 64;
    let mut live: Vec<Vec<u64>> = bs.iter().map(|_| vec![0; words]).collect();
    loop {
        let mut changed = false;
        for k in (0..bs.len()).rev() {
            let mut l = live_out(bs, &live, k as u32, words);
            for i in bs[k].ins.iter().rev() {
                if let Some(d) = def(i) {
                    clr(&mut l, d);
                }
                uses(i, &mut |r| set(&mut l, r));
            }
            for p in &bs[k].phis {
                clr(&mut l, p.dst);
            }
            if l != live[k] {
                live[k] = l;
                changed = true;
            }
        }
        if !changed {
            return live;
        }
    }
}

fn live_out(bs: &[Block], live: &[Vec<u64>], k: u32, words: usize) -> Vec<u64> {
    let mut l = vec![0u64; words];
    if let Some(i) = bs[k as usize].ins.last() {
        succs(i, &mut |t| {
            for (a, b) in l.iter_mut().zip(&live[t as usize]) {
                *a |= *b;
            }
            for p in &bs[t as usize].phis {
                for (v, from) in &p.from {
                    if *from == k {
                        opd_regs(v, &mut |r| l[r as usize / 64] |= 1 << (r % 64));
                    }
                }
            }
        });
    }
    l
}

/// Registers live just after instruction `ip` of block `bb`, its result excluded.
pub fn live_after(f: &Func, bb: u32, ip: u32) -> Vec<u32> {
    let words = (f.nregs as usize + 63) / 64;
    let b = &f.blocks[bb as usize];
    let mut l = live_out(&f.blocks, &f.live_in, bb, words);
    for i in b.ins[ip as usize + 1..].iter().rev() {
        if let Some(d) = def(i) {
            clr(&mut l, d);
        }
        uses(i, &mut |r| set(&mut l, r));
    }
    if let Some(d) = def(&b.ins[ip as usize]) {
        clr(&mut l, d);
    }
    let mut out = Vec::new();
    for (w, bits) in l.iter().enumerate() {
        for k in 0..64 {
            if bits >> k & 1 == 1 {
                out.push((w * 64 + k) as u32);
            }
        }
    }
    out
}
