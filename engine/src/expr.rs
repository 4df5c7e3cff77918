//! Hash-consed bit-vector terms, simplification, evaluation and the SMT back end.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, Eid, Eid),
    Ite(Eid, Eid, Eid),
    Ext(u8, u8, Eid),
    Concat(Eid, Eid),
    Zext(Eid),
    Sext(Eid),
}

pub type VarSet = [u64; 8];
pub const NOVARS: VarSet = [0; 8];
pub fn vs_or(a: &VarSet, b: &VarSet) -> VarSet {
    let mut r = *a;
    for i in 0..r.len() {
        r[i] |= b[i];
    }
    r
}
pub fn vs_meets(a: &VarSet, b: &VarSet) -> bool {
    (0..a.len()).any(|i| a[i] & b[i] != 0)
}
fn vs_one(v: u32) -> VarSet {
    let mut r = NOVARS;
    let v = v as usize % 512;
    r[v / 64] = 1 << (v % 64);
    r
}

#[derive(Clone, Copy)]
pub struct N {
    pub node: Node,
    pub w: u8,
    pub vars: VarSet,
}

pub struct Var {
    pub name: String,
    pub w: u8,
    pub tid: u32,
    pub seq: u32,
}

/// Assignment of variables; missing ones are zero.
pub type Model = Vec<u128>;

pub enum Ans {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}
impl Clone for Ans {
    fn clone(&self) -> Ans {
        match self {
            Ans::Sat(m) => Ans::Sat(m.clone()),
            Ans::Unsat => Ans::Unsat,
            Ans::Unknown => Ans::Unknown,
        }
    }
}

pub struct Ctx {
    pub n: Vec<N>,
    map: HashMap<(Node, u8), Eid>,
    pub vars: Vec<Var>,
    varmap: HashMap<(u32, u32, u8), Eid>,
    memo: Vec<(u32, u128)>,
    gen: u32,
    z3: [Option<(Child, ChildStdin, BufReader<ChildStdout>)>; 2],
    z3cmd: Vec<String>,
    pub timeout_ms: u64,
    cache: HashMap<Vec<Eid>, Ans>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cvc5_queries: u64,
    pub int_queries: u64,
    pub model_hits: u64,
    recent: Vec<Rc<Model>>,
    pub cache_hits: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub dump: Option<String>,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w);
            (if b >= w as u128 { x >> 127 } else { x >> b }) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => return (a == b) as u128,
        Op::Ult => return (a < b) as u128,
        Op::Slt => return (sx(a, w) < sx(b, w)) as u128,
    }) & m
}

impl Ctx {
    pub fn new(z3cmd: Vec<String>) -> Ctx {
        Ctx {
            n: Vec::new(),
            map: HashMap::new(),
            vars: Vec::new(),
            varmap: HashMap::new(),
            memo: Vec::new(),
            gen: 0,
            z3: [None, None],
            z3cmd,
            timeout_ms: 60000,
            cache: HashMap::new(),
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            cvc5_queries: 0,
            int_queries: 0,
            model_hits: 0,
            recent: Vec::new(),
            cache_hits: 0,
            solver_s: 0.0,
            max_query_s: 0.0,
            dump: None,
        }
    }
    fn raw(&mut self, node: Node, w: u8) -> Eid {
        if let Some(&e) = self.map.get(&(node, w)) {
            return e;
        }
        let vars = match node {
            Node::Const(_) => NOVARS,
            Node::Var(v) => vs_one(v),
            Node::Bin(_, a, b) | Node::Concat(a, b) => {
                vs_or(&self.n[a as usize].vars, &self.n[b as usize].vars)
            }
            Node::Ite(a, b, c) => vs_or(
                &vs_or(&self.n[a as usize].vars, &self.n[b as usize].vars),
                &self.n[c as usize].vars,
            ),
            Node::Ext(_, _, a) | Node::Zext(a) | Node::Sext(a) => self.n[a as usize].vars,
        };
        let id = self.n.len() as Eid;
        self.n.push(N { node, w, vars });
        self.map.insert((node, w), id);
        id
    }
    pub fn w(&self, e: Eid) -> u8 {
        self.n[e as usize].w
    }
    pub fn node(&self, e: Eid) -> Node {
        self.n[e as usize].node
    }
    pub fn cst(&self, e: Eid) -> Option<u128> {
        match self.n[e as usize].node {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn konst(&mut self, v: u128, w: u8) -> Eid {
        self.raw(Node::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, name: &str, w: u8, tid: u32, seq: u32) -> Eid {
        if let Some(&e) = self.varmap.get(&(tid, seq, w)) {
            return e;
        }
        let v = self.vars.len() as u32;
        self.vars.push(Var { name: name.to_string(), w, tid, seq });
        let e = self.raw(Node::Var(v), w);
        self.varmap.insert((tid, seq, w), e);
        e
    }
    pub fn not(&mut self, e: Eid) -> Eid {
        let w = self.w(e);
        let m = self.konst(mask(w), w);
        self.bin(Op::Xor, e, m)
    }
    pub fn ext(&mut self, hi: u8, lo: u8, e: Eid) -> Eid {
        let w = self.w(e);
        let nw = hi - lo + 1;
        if nw == w {
            return e;
        }
        match self.node(e) {
            Node::Const(c) => self.konst(c >> lo, nw),
            Node::Ext(_, l2, x) => self.ext(hi + l2, lo + l2, x),
            Node::Concat(a, b) => {
                let bw = self.w(b);
                if hi < bw {
                    self.ext(hi, lo, b)
                } else if lo >= bw {
                    self.ext(hi - bw, lo - bw, a)
                } else {
                    let x = self.ext(hi - bw, 0, a);
                    let y = self.ext(bw - 1, lo, b);
                    self.concat(x, y)
                }
            }
            Node::Zext(x) => {
                let xw = self.w(x);
                if hi < xw {
                    self.ext(hi, lo, x)
                } else if lo >= xw {
                    self.konst(0, nw)
                } else {
                    let y = self.ext(xw - 1, lo, x);
                    self.zext(y, nw)
                }
            }
            Node::Sext(x) if hi < self.w(x) => self.ext(hi, lo, x),
            Node::Sext(x) if lo == 0 => self.sext(x, nw),
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let x = self.ext(hi, lo, a);
                let y = self.ext(hi, lo, b);
                self.bin(op, x, y)
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
                let x = self.ext(hi, lo, a);
                let y = self.ext(hi, lo, b);
                self.bin(op, x, y)
            }
            Node::Ite(c, a, b) if self.cst(a).is_some() || self.cst(b).is_some() => {
                let x = self.ext(hi, lo, a);
                let y = self.ext(hi, lo, b);
                self.ite(c, x, y)
            }
            _ => self.raw(Node::Ext(hi, lo, e), nw),
        }
    }
    pub fn zext(&mut self, e: Eid, w: u8) -> Eid {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        debug_assert!(ew < w);
        match self.node(e) {
            Node::Const(c) => self.konst(c, w),
            Node::Zext(x) => self.zext(x, w),
            _ => self.raw(Node::Zext(e), w),
        }
    }
    pub fn sext(&mut self, e: Eid, w: u8) -> Eid {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.node(e) {
            Node::Const(c) => self.konst(sx(c, ew) as u128, w),
            Node::Sext(x) => self.sext(x, w),
            Node::Zext(x) => self.zext(x, w),
            _ => self.raw(Node::Sext(e), w),
        }
    }
    pub fn concat(&mut self, a: Eid, b: Eid) -> Eid {
        let (aw, bw) = (self.w(a), self.w(b));
        let w = aw + bw;
        match (self.node(a), self.node(b)) {
            (Node::Const(x), Node::Const(y)) => self.konst(x << bw | y, w),
            (Node::Const(0), _) => self.zext(b, w),
            (Node::Ext(h, m, x), Node::Ext(m2, l, y)) if x == y && m == m2 + 1 => {
                self.ext(h, l, x)
            }
            (Node::Ext(h, m, x), _) if x == b && m == bw => self.ext(h, 0, x),
            (Node::Zext(x), _) => {
                let i = self.concat(x, b);
                self.zext(i, w)
            }
            _ => self.raw(Node::Concat(a, b), w),
        }
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if a == b {
            return a;
        }
        let w = self.w(a);
        match self.node(c) {
            Node::Const(1) => return a,
            Node::Const(_) => return b,
            Node::Bin(Op::Xor, x, o) if self.cst(o) == Some(1) => return self.ite(x, b, a),
            _ => {}
        }
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(_), _) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(_)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            if y == 0 && x == 1 {
                return self.zext(c, w);
            }
            if x == 0 && y == 1 {
                let n = self.not(c);
                return self.zext(n, w);
            }
        }
        self.raw(Node::Ite(c, a, b), w)
    }
    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let rw = if matches!(op, Eq | Ult | Slt) { 1 } else { w };
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(fold(op, w, x, y), rw);
        }
        // Constants to the right.
        if ca.is_some() && matches!(op, Add | Mul | And | Or | Xor | Eq) {
            return self.bin(op, b, a);
        }
        let m = mask(w);
        match op {
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(y), Node::Bin(Add, x, k)) = (cb, self.node(a)) {
                    if let Some(z) = self.cst(k) {
                        let k = self.konst(y.wrapping_add(z), w);
                        return self.bin(Add, x, k);
                    }
                }
            }
            Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    let k = self.konst(y.wrapping_neg(), w);
                    return self.bin(Add, a, k);
                }
            }
            Mul => match cb {
                Some(0) => return b,
                Some(1) => return a,
                Some(y) if y.is_power_of_two() => {
                    let k = self.konst(y.trailing_zeros() as u128, w);
                    return self.bin(Shl, a, k);
                }
                _ => {}
            },
            UDiv | URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = y.trailing_zeros() as u8;
                        if op == UDiv {
                            let k = self.konst(k as u128, w);
                            return self.bin(LShr, a, k);
                        } else if k == 0 {
                            return self.konst(0, w);
                        } else {
                            let x = self.ext(k - 1, 0, a);
                            return self.zext(x, w);
                        }
                    }
                    // Narrow the operation when the dividend is a zero-extension.
                    if let Node::Zext(x) = self.node(a) {
                        let xw = self.w(x);
                        if y > mask(xw) {
                            return if op == UDiv { self.konst(0, w) } else { a };
                        }
                        let k = self.konst(y, xw);
                        let r = self.bin(op, x, k);
                        return self.zext(r, w);
                    }
                }
            }
            And => {
                if a == b {
                    return a;
                }
                match cb {
                    Some(0) => return b,
                    Some(y) if y == m => return a,
                    Some(y) => {
                        match self.node(a) {
                            Node::Bin(And, x, k) if self.cst(k).is_some() => {
                                let k = self.konst(self.cst(k).unwrap() & y, w);
                                return self.bin(And, x, k);
                            }
                            Node::Zext(x) => {
                                let xw = self.w(x);
                                let k = self.konst(y, xw);
                                let r = self.bin(And, x, k);
                                return self.zext(r, w);
                            }
                            Node::Concat(h, l) => {
                                let lw = self.w(l);
                                let hk = self.konst(y >> lw, w - lw);
                                let lk = self.konst(y, lw);
                                let h = self.bin(And, h, hk);
                                let l = self.bin(And, l, lk);
                                return self.concat(h, l);
                            }
                            Node::Ite(c, p, q)
                                if self.cst(p).is_some() && self.cst(q).is_some() =>
                            {
                                let p = self.bin(And, p, b);
                                let q = self.bin(And, q, b);
                                return self.ite(c, p, q);
                            }
                            _ => {}
                        }
                        if (y + 1).is_power_of_two() {
                            let k = y.trailing_ones() as u8;
                            let x = self.ext(k - 1, 0, a);
                            return self.zext(x, w);
                        }
                        // One contiguous run of bits at the bottom that is zero.
                    }
                    None => {
                        if w == 1 && self.is_not(a, b) {
                            return self.konst(0, 1);
                        }
                    }
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                match cb {
                    Some(0) => return a,
                    Some(y) if y == m => return b,
                    _ => {}
                }
                if w == 1 && self.is_not(a, b) {
                    return self.konst(1, 1);
                }
                for (p, q) in [(a, b), (b, a)] {
                    if let Node::Concat(h, l) = self.node(p) {
                        let lw = self.w(l);
                        if self.cst(l) == Some(0) {
                            match self.node(q) {
                                Node::Zext(z) if self.w(z) <= lw => {
                                    let z = self.zext(z, lw);
                                    return self.concat(h, z);
                                }
                                Node::Const(k) if k <= mask(lw) => {
                                    let z = self.konst(k, lw);
                                    return self.concat(h, z);
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if let (Some(y), Node::Bin(Xor, x, k)) = (cb, self.node(a)) {
                    if let Some(z) = self.cst(k) {
                        let k = self.konst(y ^ z, w);
                        return self.bin(Xor, x, k);
                    }
                }
            }
            Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u8;
                    let hi = self.ext(w - 1 - k, 0, a);
                    let lo = self.konst(0, k);
                    return self.concat(hi, lo);
                }
            }
            LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let x = self.ext(w - 1, k as u8, a);
                    return self.zext(x, w);
                }
            }
            AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = if k >= w as u128 { w - 1 } else { k as u8 };
                    let x = self.ext(w - 1, k, a);
                    return self.sext(x, w);
                }
            }
            Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(y) = cb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match self.node(a) {
                        Node::Zext(x) => {
                            let xw = self.w(x);
                            if y > mask(xw) {
                                return self.konst(0, 1);
                            }
                            let k = self.konst(y, xw);
                            return self.bin(Eq, x, k);
                        }
                        Node::Sext(x) => {
                            let xw = self.w(x);
                            if sx(y & mask(xw), xw) as u128 & m != y {
                                return self.konst(0, 1);
                            }
                            let k = self.konst(y, xw);
                            return self.bin(Eq, x, k);
                        }
                        Node::Concat(h, l) => {
                            let lw = self.w(l);
                            let hk = self.konst(y >> lw, w - lw);
                            let lk = self.konst(y, lw);
                            let p = self.bin(Eq, h, hk);
                            let q = self.bin(Eq, l, lk);
                            return self.bin(And, p, q);
                        }
                        Node::Bin(Or, p, q) if y == 0 => {
                            let p = self.bin(Eq, p, b);
                            let q = self.bin(Eq, q, b);
                            return self.bin(And, p, q);
                        }
                        Node::Bin(Xor, x, k) if self.cst(k).is_some() => {
                            let k = self.konst(y ^ self.cst(k).unwrap(), w);
                            return self.bin(Eq, x, k);
                        }
                        Node::Bin(Add, x, k) if self.cst(k).is_some() => {
                            let k = self.konst(y.wrapping_sub(self.cst(k).unwrap()), w);
                            return self.bin(Eq, x, k);
                        }
                        Node::Ite(c, p, q) => {
                            if let (Some(p), Some(q)) = (self.cst(p), self.cst(q)) {
                                return match (p == y, q == y) {
                                    (true, true) => self.konst(1, 1),
                                    (true, false) => c,
                                    (false, true) => self.not(c),
                                    (false, false) => self.konst(0, 1),
                                };
                            }
                            if self.cst(p).is_some() || self.cst(q).is_some() {
                                let x = self.bin(Eq, p, b);
                                let y = self.bin(Eq, q, b);
                                return self.ite(c, x, y);
                            }
                        }
                        _ => {}
                    }
                } else if let (Node::Zext(x), Node::Zext(y)) = (self.node(a), self.node(b)) {
                    if self.w(x) == self.w(y) {
                        return self.bin(Eq, x, y);
                    }
                }
                if a > b && cb.is_none() {
                    return self.bin(Eq, b, a);
                }
            }
            Ult => {
                if a == b || cb == Some(0) || ca == Some(m) {
                    return self.konst(0, 1);
                }
                if cb == Some(1) {
                    let z = self.konst(0, w);
                    return self.bin(Eq, a, z);
                }
                if ca == Some(0) {
                    let e = self.bin(Eq, b, a);
                    return self.not(e);
                }
                match (self.node(a), self.node(b)) {
                    (Node::Zext(x), Node::Zext(y)) if self.w(x) == self.w(y) => {
                        return self.bin(Ult, x, y)
                    }
                    (Node::Zext(x), Node::Const(k)) => {
                        let xw = self.w(x);
                        if k > mask(xw) {
                            return self.konst(1, 1);
                        }
                        let k = self.konst(k, xw);
                        return self.bin(Ult, x, k);
                    }
                    (Node::Const(k), Node::Zext(x)) => {
                        let xw = self.w(x);
                        if k >= mask(xw) {
                            return self.konst(0, 1);
                        }
                        let k = self.konst(k, xw);
                        return self.bin(Ult, k, x);
                    }
                    _ => {}
                }
                if w == 1 {
                    let n = self.not(a);
                    return self.bin(And, n, b);
                }
            }
            Slt => {
                if a == b {
                    return self.konst(0, 1);
                }
                match (self.node(a), self.node(b)) {
                    (Node::Zext(_), Node::Const(k)) => {
                        return if sx(k, w) < 0 {
                            self.konst(0, 1)
                        } else {
                            self.bin(Ult, a, b)
                        }
                    }
                    (Node::Const(k), Node::Zext(_)) => {
                        return if sx(k, w) < 0 {
                            self.konst(1, 1)
                        } else {
                            self.bin(Ult, a, b)
                        }
                    }
                    (Node::Zext(_), Node::Zext(_)) => return self.bin(Ult, a, b),
                    _ => {}
                }
            }
            _ => {}
        }
        self.raw(Node::Bin(op, a, b), rw)
    }
    fn is_not(&self, a: Eid, b: Eid) -> bool {
        let f = |p: Eid, q: Eid| match self.node(p) {
            Node::Bin(Op::Xor, x, k) => x == q && self.cst(k) == Some(mask(self.w(p))),
            _ => false,
        };
        f(a, b) || f(b, a)
    }

    pub fn eval(&mut self, e: Eid, m: &Model) -> u128 {
        self.gen += 1;
        self.memo.resize(self.n.len(), (0, 0));
        self.ev(e, m)
    }
    fn ev(&mut self, e: Eid, m: &Model) -> u128 {
        let (g, v) = self.memo[e as usize];
        if g == self.gen {
            return v;
        }
        let n = self.n[e as usize];
        let v = match n.node {
            Node::Const(c) => c,
            Node::Var(v) => m.get(v as usize).copied().unwrap_or(0) & mask(n.w),
            Node::Bin(op, a, b) => {
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                fold(op, self.w(a), x, y)
            }
            Node::Ite(c, a, b) => {
                if self.ev(c, m) == 1 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            Node::Ext(_, lo, a) => (self.ev(a, m) >> lo) & mask(n.w),
            Node::Concat(a, b) => self.ev(a, m) << self.w(b) | self.ev(b, m),
            Node::Zext(a) => self.ev(a, m),
            Node::Sext(a) => (sx(self.ev(a, m), self.w(a)) as u128) & mask(n.w),
        };
        self.memo[e as usize] = (self.gen, v);
        v
    }

    // ------------------------------------------------------------ solver

    fn smt(&self, root: Eid, out: &mut String, seen: &mut HashMap<Eid, ()>, vars: &mut Vec<u32>) {
        let mut stack = vec![(root, false)];
        while let Some((e, done)) = stack.pop() {
            if seen.contains_key(&e) {
                continue;
            }
            let n = self.n[e as usize];
            if !done {
                stack.push((e, true));
                match n.node {
                    Node::Bin(_, a, b) | Node::Concat(a, b) => {
                        stack.push((a, false));
                        stack.push((b, false));
                    }
                    Node::Ite(a, b, c) => {
                        stack.push((a, false));
                        stack.push((b, false));
                        stack.push((c, false));
                    }
                    Node::Ext(_, _, a) | Node::Zext(a) | Node::Sext(a) => stack.push((a, false)),
                    _ => {}
                }
                continue;
            }
            seen.insert(e, ());
            use std::fmt::Write;
            if let Node::Var(v) = n.node {
                vars.push(v);
                let _ = writeln!(out, "(declare-const e{} (_ BitVec {}))", e, n.w);
                continue;
            }
            let body = match n.node {
                Node::Const(c) => format!("(_ bv{} {})", c, n.w),
                Node::Var(_) => unreachable!(),
                Node::Bin(op, a, b) => {
                    let s = match op {
                        Op::Add => "bvadd",
                        Op::Sub => "bvsub",
                        Op::Mul => "bvmul",
                        Op::UDiv => "bvudiv",
                        Op::URem => "bvurem",
                        Op::SDiv => "bvsdiv",
                        Op::SRem => "bvsrem",
                        Op::Shl => "bvshl",
                        Op::LShr => "bvlshr",
                        Op::AShr => "bvashr",
                        Op::And => "bvand",
                        Op::Or => "bvor",
                        Op::Xor => "bvxor",
                        Op::Eq => "=",
                        Op::Ult => "bvult",
                        Op::Slt => "bvslt",
                    };
                    if matches!(op, Op::Eq | Op::Ult | Op::Slt) {
                        format!("(ite ({} e{} e{}) #b1 #b0)", s, a, b)
                    } else {
                        format!("({} e{} e{})", s, a, b)
                    }
                }
                Node::Ite(c, a, b) => format!("(ite (= e{} #b1) e{} e{})", c, a, b),
                Node::Ext(h, l, a) => format!("((_ extract {} {}) e{})", h, l, a),
                Node::Concat(a, b) => format!("(concat e{} e{})", a, b),
                Node::Zext(a) => format!("((_ zero_extend {}) e{})", n.w - self.w(a), a),
                Node::Sext(a) => format!("((_ sign_extend {}) e{})", n.w - self.w(a), a),
            };
            let _ = writeln!(out, "(define-fun e{} () (_ BitVec {}) {})", e, n.w, body);
        }
    }

    fn vars_of(&self, root: Eid, seen: &mut HashMap<Eid, ()>, vars: &mut Vec<u32>) {
        let mut stack = vec![root];
        while let Some(e) = stack.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            match self.n[e as usize].node {
                Node::Var(v) => vars.push(v),
                Node::Bin(_, a, b) | Node::Concat(a, b) => stack.extend([a, b]),
                Node::Ite(a, b, c) => stack.extend([a, b, c]),
                Node::Ext(_, _, a) | Node::Zext(a) | Node::Sext(a) => stack.push(a),
                Node::Const(_) => {}
            }
        }
    }

    /// 0: the solver for bit-vectors, 1: the one for integers.
    fn start(&mut self, which: usize) {
        let mut c = Command::new(if which == 0 { &self.z3cmd[0] } else { "z3-new" })
            .args(&self.z3cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("solver");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.z3[which] = Some((c, i, o));
    }

    fn values(text: &str, names: &[(u32, Eid)], pre: &str) -> Option<Ans> {
        let toks: Vec<&str> = text
            .split(|c: char| c == '(' || c == ')' || c.is_whitespace())
            .filter(|t| !t.is_empty())
            .collect();
        let mut by: HashMap<&str, u128> = HashMap::new();
        for p in toks.chunks(2) {
            let v = if p.get(1)?.as_bytes()[0].is_ascii_digit() {
                p[1].parse().ok()?
            } else if p[1] == "true" || p[1] == "false" {
                (p[1] == "true") as u128
            } else if let Some(h) = p[1].strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()?
            } else {
                u128::from_str_radix(p[1].strip_prefix("#b")?, 2).ok()?
            };
            by.insert(p[0], v);
        }
        let mut m = Vec::new();
        for (v, e) in names {
            m.push((*v, *by.get(format!("{}{}", pre, e).as_str())?));
        }
        Some(Ans::Sat(Rc::new(m)))
    }

    fn get_value(names: &[(u32, Eid)], pre: &str) -> String {
        let mut g = String::from("(get-value (");
        for (_, e) in names {
            g.push_str(&format!("{}{} ", pre, e));
        }
        g.push_str("))\n");
        g
    }

    fn cvc5(&mut self, q: &str, names: &[(u32, Eid)], ms: u64, opts: &[&str], pre: &str) -> Ans {
        self.cvc5_queries += 1;
        let c = Command::new("cvc5")
            .args(["--lang", "smt2", "--produce-models"])
            .args(if pre == "e" { &["--solve-bv-as-int=sum"][..] } else { &[] })
            .args(opts)
            .arg(format!("--tlimit={}", ms))
            .arg("-")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn();
        let mut c = match c {
            Ok(c) => c,
            Err(_) => return Ans::Unknown,
        };
        {
            let mut i = c.stdin.take().unwrap();
            let _ = i.write_all(q.as_bytes());
            if !names.is_empty() {
                let _ = i.write_all(Self::get_value(names, pre).as_bytes());
            }
        }
        let out = match c.wait_with_output() {
            Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(),
            Err(_) => return Ans::Unknown,
        };
        let (first, rest) = out.split_once('\n').unwrap_or((&out, ""));
        match first.trim() {
            "unsat" => Ans::Unsat,
            "sat" if names.is_empty() => Ans::Sat(Rc::new(Vec::new())),
            "sat" => Self::values(rest, names, pre).unwrap_or(Ans::Unknown),
            _ => Ans::Unknown,
        }
    }

    fn z3(&mut self, q: &str, names: &[(u32, Eid)], ms: u64, pre: &str) -> Ans {
        let which = (pre == "i") as usize;
        if self.z3[which].is_none() {
            self.start(which);
        }
        let (_, i, o) = self.z3[which].as_mut().unwrap();
        let head = format!("(reset)\n(set-option :timeout {})\n", ms);
        let ok = i
            .write_all(head.as_bytes())
            .and_then(|_| i.write_all(q.as_bytes()))
            .and_then(|_| i.flush())
            .is_ok();
        let mut line = String::new();
        if ok {
            let _ = o.read_line(&mut line);
        }
        match line.trim() {
            "unsat" => Ans::Unsat,
            "sat" if names.is_empty() => Ans::Sat(Rc::new(Vec::new())),
            "sat" => {
                let _ = i.write_all(Self::get_value(names, pre).as_bytes()).and_then(|_| i.flush());
                // The answer is an s-expression, possibly on several lines.
                let mut s = String::new();
                let mut depth = 0i32;
                loop {
                    let mut l = String::new();
                    if o.read_line(&mut l).unwrap_or(0) == 0 {
                        break;
                    }
                    for ch in l.chars() {
                        match ch {
                            '(' => depth += 1,
                            ')' => depth -= 1,
                            _ => {}
                        }
                    }
                    s.push_str(&l);
                    if depth == 0 {
                        break;
                    }
                }
                Self::values(&s, names, pre).unwrap_or(Ans::Unknown)
            }
            l => {
                if l != "unknown" && l != "timeout" {
                    eprintln!("solver said {:?}", line);
                    // Resynchronise.
                    if let Some((mut c, _, _)) = self.z3[which].take() {
                        let _ = c.kill();
                        let _ = c.wait();
                    }
                }
                Ans::Unknown
            }
        }
    }

    /// Satisfiability of the conjunction of `cs` (sorted, deduplicated).
    fn check(&mut self, cs: Vec<Eid>) -> Ans {
        if let Some(a) = self.cache.get(&cs) {
            self.cache_hits += 1;
            return a.clone();
        }
        // A model that answered an earlier query often answers this one.
        for k in (0..self.recent.len()).rev() {
            let m = self.recent[k].clone();
            self.gen += 1;
            self.memo.resize(self.n.len(), (0, 0));
            if cs.iter().all(|&c| self.ev(c, &m) == 1) {
                self.model_hits += 1;
                let mut vs = Vec::new();
                let mut seen = HashMap::new();
                for &c in &cs {
                    self.vars_of(c, &mut seen, &mut vs);
                }
                let a = Ans::Sat(Rc::new(
                    vs.iter().map(|&v| (v, m.get(v as usize).copied().unwrap_or(0))).collect(),
                ));
                self.cache.insert(cs, a.clone());
                return a;
            }
        }
        let mut q = String::from("(set-logic QF_BV)\n");
        let mut seen = HashMap::new();
        let mut vars = Vec::new();
        for &c in &cs {
            self.smt(c, &mut q, &mut seen, &mut vars);
        }
        for &c in &cs {
            q.push_str(&format!("(assert (= e{} #b1))\n", c));
        }
        q.push_str("(check-sat)\n");
        let mut names = Vec::new();
        for &v in &vars {
            let e = self.raw(Node::Var(v), self.vars[v as usize].w);
            names.push((v, e));
        }
        let hard = ["(bvadd", "(bvsub", "(bvmul", "(bvudiv", "(bvurem", "(bvsdiv", "(bvsrem"].iter().any(|x| q.contains(x));
        let t = Instant::now();
        // Bit-blasting first; multiplications and divisions by constants are easier as integers.
        let ints = crate::ints::Ints::translate(self, &cs);
        let mut a = Ans::Unknown;
        let plan: &[(bool, u64)] = if ints.is_none() {
            &[(false, if hard { 250 } else { 5000 })]
        } else if hard {
            &[(true, 3000), (false, 250)]
        } else {
            &[(false, 250), (true, 3000), (false, 5000)]
        };
        for &(int, ms) in plan {
            if !matches!(a, Ans::Unknown) {
                break;
            }
            if int {
                let (q, names) = ints.as_ref().unwrap();
                self.int_queries += 1;
                a = self.z3(q, names, ms, "i");
                if matches!(a, Ans::Unknown) {
                    let (q, names) = ints.as_ref().unwrap();
                    a = self.cvc5(q, names, ms, &[], "i");
                }
            } else {
                a = self.z3(&q, &names, ms.min(self.timeout_ms), "e");
            }
        }
        let simp: &[&str] = &["--ite-simp", "--repeat-simp"];
        for (ms, opts) in [(3000, &[][..]), (3000, simp), (0, simp), (20000, &[]), (20000, simp)] {
            if !matches!(a, Ans::Unknown) {
                break;
            }
            if ms == 0 {
                if let Some((q, names)) = &ints {
                    self.int_queries += 1;
                    a = self.cvc5(q, names, 15000, &[], "i");
                    if matches!(a, Ans::Unknown) {
                        a = self.z3(q, names, 15000, "i");
                    }
                }
                if !matches!(a, Ans::Unknown) {
                    break;
                }
            }
            a = if ms == 0 {
                self.z3(&q, &names, 20000.min(self.timeout_ms), "e")
            } else {
                self.cvc5(&q, &names, self.timeout_ms.min(ms), opts, "e")
            };
        }
        if matches!(a, Ans::Unknown) {
            a = self.z3(&q, &names, self.timeout_ms, "e");
        }
        if let Ans::Sat(m) = &a {
            // Nothing is believed without checking the model.
            let m = m.clone();
            let mut full = vec![0u128; m.iter().map(|x| x.0 as usize + 1).max().unwrap_or(0)];
            for &(v, x) in m.iter() {
                full[v as usize] = x;
            }
            self.gen += 1;
            self.memo.resize(self.n.len(), (0, 0));
            let bad = cs.iter().any(|&c| self.ev(c, &full) != 1);
            if bad {
                eprintln!("solver gave a wrong model");
                a = Ans::Unknown;
            } else {
                if self.recent.len() >= 16 {
                    self.recent.remove(0);
                }
                self.recent.push(Rc::new(full));
            }
        }
        let line = match a {
            Ans::Sat(_) => "sat",
            Ans::Unsat => "unsat",
            Ans::Unknown => "unknown",
        };
        let dt = t.elapsed().as_secs_f64();
        self.solver_s += dt;
        if dt > self.max_query_s {
            self.max_query_s = dt;
            if let Some(f) = &self.dump {
                let _ = std::fs::write(f, &q);
            }
        }
        if dt > 1.0 {
            if let Ok(d) = std::env::var("VSYM_DUMP") {
                let _ = std::fs::write(format!("{}/q{}-{:.0}s-{}.smt2", d, self.queries, dt, line), &q);
                if let Some((q, _)) = &ints {
                    let _ = std::fs::write(format!("{}/q{}-{:.0}s-{}.int.smt2", d, self.queries, dt, line), q);
                }
            }
        }
        self.queries += 1;
        match a {
            Ans::Sat(_) => self.sat += 1,
            Ans::Unsat => self.unsat += 1,
            Ans::Unknown => self.unknown += 1,
        }
        self.cache.insert(cs, a.clone());
        a
    }

    /// Is `c` satisfiable together with `path`?  Only the constraints that share variables with
    /// `c` (transitively) matter, because the path itself is satisfiable.
    pub fn feasible(&mut self, path: &[Eid], c: Eid) -> Ans {
        if let Some(k) = self.cst(c) {
            return if k == 1 { Ans::Sat(Rc::new(Vec::new())) } else { Ans::Unsat };
        }
        let mut vs = self.n[c as usize].vars;
        let mut pick = vec![false; path.len()];
        loop {
            let mut grew = false;
            for (i, &p) in path.iter().enumerate() {
                if !pick[i] && vs_meets(&self.n[p as usize].vars, &vs) {
                    pick[i] = true;
                    vs = vs_or(&vs, &self.n[p as usize].vars);
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        let mut cs: Vec<Eid> = (0..path.len()).filter(|&i| pick[i]).map(|i| path[i]).collect();
        cs.push(c);
        cs.sort_unstable();
        cs.dedup();
        self.check(cs)
    }
}
