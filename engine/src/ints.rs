//! Translation of a conjunction of bit-vector constraints into integer arithmetic.
//!
//! Every node becomes an integer term with the unsigned value of the bit-vector (a Boolean term
//! for single bits).  Intervals, refined by the top-level constraints, show where arithmetic
//! cannot wrap; where it can, the wrapped value is selected explicitly.  In every model of the
//! bit-vector constraints all intervals hold and all terms have the values of their nodes, so
//! `unsat` carries over.  Models are checked by the caller.
use crate::expr::{mask, Ctx, Eid, Node, Op};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

/// A linear expression over the integer values of nodes.
#[derive(Clone, Default)]
struct Lin {
    t: BTreeMap<Eid, i128>,
    k: i128,
}

impl Lin {
    fn atom(e: Eid) -> Lin {
        Lin { t: BTreeMap::from([(e, 1)]), k: 0 }
    }
    fn cst(k: i128) -> Lin {
        Lin { t: BTreeMap::new(), k }
    }
    /// `self + f * o`
    fn add(&self, f: i128, o: &Lin) -> T<Lin> {
        let mut r = self.clone();
        r.k = r.k.checked_add(f.checked_mul(o.k)?)?;
        for (&e, &c) in &o.t {
            let x = r.t.entry(e).or_insert(0);
            *x = x.checked_add(f.checked_mul(c)?)?;
            if *x == 0 {
                r.t.remove(&e);
            }
        }
        Some(r)
    }
    /// The coefficients reduced modulo 2^w to those of the smallest magnitude.
    fn reduced(&self, w: u8) -> Lin {
        let p = 1i128 << w;
        let f = |c: i128| {
            let c = c.rem_euclid(p);
            if c > p / 2 {
                c - p
            } else {
                c
            }
        };
        let t = self.t.iter().map(|(&e, &c)| (e, f(c))).filter(|x| x.1 != 0).collect();
        Lin { t, k: f(self.k) }
    }
}

/// Widths whose values are treated as linear expressions.
const WIDE: u8 = 100;

/// What `c` being `pos` says about the order of two values: `b - a >= strict`.
type Order = (Eid, Eid, bool);

pub struct Ints<'a> {
    cx: &'a Ctx,
    /// Declarations and constraints by the name they define, emitted only if they are needed.
    defs: Vec<(Vec<String>, String, String)>,
    by_name: HashMap<String, usize>,
    /// The value of a node as a linear expression, and one that is congruent to it modulo two to
    /// the power of its width.
    ex: HashMap<Eid, Lin>,
    md: HashMap<Eid, Lin>,
    orders: Vec<Order>,
    done: HashMap<Eid, (u128, u128)>,
    refine: HashMap<Eid, (u128, u128)>,
    divs: HashMap<(Eid, u128), ()>,
    /// Constraints the intervals come from: they are never dropped.
    used: HashMap<Eid, ()>,
    bools: HashMap<Eid, bool>,
    pub vars: Vec<(u32, Eid)>,
}

type T<X> = Option<X>;

impl<'a> Ints<'a> {
    pub fn translate(cx: &'a Ctx, cs: &[Eid]) -> T<(String, Vec<(u32, Eid)>)> {
        let mut t = Ints {
            cx,
            defs: Vec::new(),
            by_name: HashMap::new(),
            ex: HashMap::new(),
            md: HashMap::new(),
            orders: Vec::new(),
            done: HashMap::new(),
            refine: HashMap::new(),
            divs: HashMap::new(),
            used: HashMap::new(),
            bools: HashMap::new(),
            vars: Vec::new(),
        };
        // A few rounds, so that bounds carry over from one variable to the next.
        for _ in 0..3 {
            for &c in cs {
                t.bound(c, true);
            }
        }
        for &c in cs {
            let o = t.order(c, true);
            t.orders.extend(o);
        }
        t.orders.sort_unstable();
        t.orders.dedup();
        for &c in cs {
            t.node(c)?;
        }
        // Only what the constraints lead to.
        let mut need: Vec<String> = cs.iter().map(|c| format!("i{c}")).collect();
        need.extend(t.vars.iter().map(|v| format!("i{}", v.1)));
        let mut take = vec![false; t.defs.len()];
        while let Some(n) = need.pop() {
            if let Some(&d) = t.by_name.get(&n) {
                if !take[d] {
                    take[d] = true;
                    let mut w = String::new();
                    for ch in t.defs[d].2.chars().chain(" ".chars()) {
                        if ch.is_ascii_alphanumeric() || ch == '_' {
                            w.push(ch);
                        } else if !w.is_empty() {
                            need.push(std::mem::take(&mut w));
                        }
                    }
                }
            }
        }
        let mut q = String::from("(set-logic QF_LIA)\n");
        for (d, _) in t.defs.iter().zip(&take).filter(|x| *x.1) {
            q.push_str(&d.1);
        }
        for (d, _) in t.defs.iter().zip(&take).filter(|x| *x.1) {
            q.push_str(&d.2);
        }
        for &c in cs {
            let _ = writeln!(q, "(assert i{})", c);
        }
        q.push_str("(check-sat)\n");
        Some((q, t.vars))
    }

    fn known(&self, e: Eid) -> (u128, u128) {
        if let Some(c) = self.cx.cst(e) {
            return (c, c);
        }
        self.refine.get(&e).copied().unwrap_or((0, mask(self.cx.w(e))))
    }
    fn narrow(&mut self, e: Eid, lo: u128, hi: u128) {
        if self.cx.cst(e).is_some() || self.cx.w(e) == 1 {
            return;
        }
        let (a, b) = self.known(e);
        let n = (a.max(lo), b.min(hi));
        if n.0 > n.1 {
            return;
        }
        self.refine.insert(e, n);
        // The bounds of the term below follow for extensions.
        if let Node::Zext(x) = self.cx.node(e) {
            self.narrow(x, n.0, n.1.min(mask(self.cx.w(x))));
        }
    }
    /// Bounds that follow from the constraint `c` being `pos`.
    fn bound(&mut self, c: Eid, pos: bool) {
        self.used.insert(c, ());
        match self.cx.node(c) {
            Node::Bin(Op::Xor, x, k) if self.cx.w(c) == 1 && self.cx.cst(k) == Some(1) => {
                self.bound(x, !pos)
            }
            Node::Bin(Op::And, a, b) if self.cx.w(c) == 1 && pos => {
                self.bound(a, true);
                self.bound(b, true);
            }
            Node::Bin(Op::Or, a, b) if self.cx.w(c) == 1 && !pos => {
                self.bound(a, false);
                self.bound(b, false);
            }
            Node::Bin(Op::Ult, a, b) => {
                let ((alo, ahi), (blo, bhi)) = (self.known(a), self.known(b));
                if pos {
                    if bhi > 0 {
                        self.narrow(a, 0, bhi - 1);
                    }
                    if alo < u128::MAX {
                        self.narrow(b, alo + 1, u128::MAX);
                    }
                } else {
                    self.narrow(a, blo, u128::MAX);
                    self.narrow(b, 0, ahi);
                }
            }
            Node::Bin(Op::Slt, a, b) => {
                // Only against a constant, for values that are not negative.
                let half = mask(self.cx.w(a)) / 2;
                if let Some(k) = self.cx.cst(a) {
                    if pos && k <= half {
                        self.narrow(b, k + 1, half);
                    } else if pos && k == mask(self.cx.w(a)) {
                        self.narrow(b, 0, half);
                    }
                } else if let Some(k) = self.cx.cst(b) {
                    if !pos && k <= half {
                        self.narrow(a, k, half);
                    }
                }
            }
            Node::Bin(Op::Eq, a, b) if pos && self.cx.w(a) > 1 => {
                let ((alo, ahi), (blo, bhi)) = (self.known(a), self.known(b));
                self.narrow(a, blo, bhi);
                self.narrow(b, alo, ahi);
            }
            Node::Bin(Op::Eq, a, b) if !pos && self.cx.w(a) > 1 => {
                if self.cx.cst(b) == Some(0) {
                    self.narrow(a, 1, u128::MAX);
                }
            }
            _ => {}
        }
    }

    /// Names declared together, with what constrains them.
    fn def(&mut self, names: &[String], sort: &str, body: String) {
        let decl = names.iter().map(|n| format!("(declare-const {n} {sort})\n")).collect();
        for n in names {
            self.by_name.insert(n.clone(), self.defs.len());
        }
        self.defs.push((names.to_vec(), decl, body));
    }

    /// The orders that follow from `c` being `pos`.
    fn order(&mut self, c: Eid, pos: bool) -> Vec<Order> {
        let one = self.cx.w(c) == 1;
        let r = match self.cx.node(c) {
            Node::Bin(Op::Xor, x, k) if one && self.cx.cst(k) == Some(1) => self.order(x, !pos),
            Node::Bin(op @ (Op::And | Op::Or), a, b) if one => {
                let (x, y) = (self.order(a, pos), self.order(b, pos));
                if (op == Op::And) == pos {
                    x.into_iter().chain(y).collect()
                } else {
                    // What both say.
                    let says = |v: &[Order], a: Eid, b: Eid, s: bool| v.iter().any(|o| o.0 == a && o.1 == b && (o.2 || !s));
                    let mut r = Vec::new();
                    for &(a, b, s) in x.iter().chain(&y) {
                        for s in [s, false] {
                            if says(&x, a, b, s) && says(&y, a, b, s) {
                                r.push((a, b, s));
                            }
                        }
                    }
                    r
                }
            }
            Node::Bin(Op::Ult, a, b) => vec![if pos { (a, b, true) } else { (b, a, false) }],
            Node::Bin(Op::Eq, a, b) if pos && self.cx.w(a) > 1 => vec![(a, b, false), (b, a, false)],
            _ => vec![],
        };
        if !r.is_empty() {
            self.used.insert(c, ());
        }
        r
    }

    fn bounds_of(&self, l: &Lin) -> T<(i128, i128)> {
        let (mut lo, mut hi) = (l.k, l.k);
        for (&e, &c) in &l.t {
            let (a, b) = self.iv(e);
            let (a, b) = (i128::try_from(a).ok()?, i128::try_from(b).ok()?);
            let (x, y) = (a.checked_mul(c)?, b.checked_mul(c)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }

    /// The bounds of a linear expression, with the help of the known orders.
    fn bounds_by_orders(&self, l: &Lin, (mut lo, mut hi): (i128, i128)) -> (i128, i128) {
        for &(a, b, s) in &self.orders {
            let (Some(x), Some(y)) = (self.ex.get(&a), self.ex.get(&b)) else { continue };
            if !x.t.keys().chain(y.t.keys()).any(|e| l.t.contains_key(e)) {
                continue;
            }
            let Some(f) = y.add(-1, x) else { continue };
            let s = s as i128;
            // l = (l - f) + f, and f >= s; l = (l + f) - f.
            if let Some(d) = l.add(-1, &f).and_then(|d| self.bounds_of(&d)) {
                lo = lo.max(d.0.saturating_add(s));
            }
            if let Some(d) = l.add(1, &f).and_then(|d| self.bounds_of(&d)) {
                hi = hi.min(d.1.saturating_sub(s));
            }
        }
        (lo, hi)
    }

    fn lin_text(&self, l: &Lin) -> String {
        let mut v = Vec::new();
        for (&e, &c) in &l.t {
            let t = self.t(e);
            v.push(match c {
                1 => t,
                _ if c < 0 => format!("(* (- {}) {t})", -c),
                _ => format!("(* {c} {t})"),
            });
        }
        if l.k != 0 || v.is_empty() {
            v.push(if l.k < 0 { format!("(- {})", -l.k) } else { l.k.to_string() });
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            format!("(+ {})", v.join(" "))
        }
    }

    fn ex(&self, e: Eid) -> Lin {
        self.ex.get(&e).cloned().unwrap_or_else(|| Lin::atom(e))
    }
    fn md(&self, e: Eid) -> Lin {
        self.md.get(&e).cloned().unwrap_or_else(|| self.ex(e))
    }

    /// The node as a linear expression if it is one: exactly, and modulo 2^w.
    fn linear(&self, e: Eid) -> T<(T<Lin>, Lin)> {
        let w = self.cx.w(e);
        if w > WIDE {
            return None;
        }
        let m = mask(w) as i128;
        Some(match self.cx.node(e) {
            Node::Zext(a) => (Some(self.ex(a)), self.ex(a)),
            Node::Ext(h, 0, a) if self.cx.w(a) <= WIDE => {
                let fits = self.iv(a).1 <= mask(h + 1);
                (fits.then(|| self.ex(a)), self.md(a).reduced(w))
            }
            Node::Concat(a, b) => {
                let l = self.ex(b).add(1i128 << self.cx.w(b), &self.ex(a))?;
                (Some(l.clone()), l)
            }
            Node::Bin(Op::Add, a, b) => {
                let (x, y) = (self.iv(a).1, self.iv(b).1);
                let ex = if x + y <= mask(w) { self.ex(a).add(1, &self.ex(b)) } else { None };
                (ex, self.md(a).add(1, &self.md(b))?.reduced(w))
            }
            Node::Bin(Op::Sub, a, b) => {
                let ok = self.iv(a).0 >= self.iv(b).1;
                let ex = if ok { self.ex(a).add(-1, &self.ex(b)) } else { None };
                (ex, self.md(a).add(-1, &self.md(b))?.reduced(w))
            }
            Node::Bin(Op::Mul, a, b) => {
                let (x, c) = match (self.cx.cst(a), self.cx.cst(b)) {
                    (_, Some(c)) => (a, c),
                    (Some(c), _) => (b, c),
                    _ => return None,
                };
                let i = i128::try_from(c).ok()?;
                let fits = self.iv(x).1.checked_mul(c).is_some_and(|h| h <= mask(w));
                let ex = if fits { Lin::cst(0).add(i, &self.ex(x)) } else { None };
                let p = 1i128 << w;
                let i = if i > p / 2 { i - p } else { i };
                (ex, Lin::cst(0).add(i, &self.md(x))?.reduced(w))
            }
            Node::Bin(Op::Xor, a, b) => {
                let x = match (self.cx.cst(a), self.cx.cst(b)) {
                    (_, Some(c)) if c as i128 == m => a,
                    (Some(c), _) if c as i128 == m => b,
                    _ => return None,
                };
                (Lin::cst(m).add(-1, &self.ex(x)), Lin::cst(-1).add(-1, &self.md(x))?.reduced(w))
            }
            _ => return None,
        })
    }

    /// A node that is a linear expression of others, possibly wrapped.
    fn emit_linear(&mut self, e: Eid) -> T<()> {
        let w = self.cx.w(e);
        let (ex, md) = self.linear(e)?;
        let p = 1i128 << w;
        let mut best = (ex, 0, p - 1);
        if let Some(x) = &best.0 {
            let b = self.bounds_of(x)?;
            best.1 = b.0.max(0);
            best.2 = b.1.min(p - 1);
        }
        let mut b = self.bounds_of(&md)?;
        if best.0.is_none() && b.0.div_euclid(p) != b.1.div_euclid(p) {
            b = self.bounds_by_orders(&md, b);
            if b.0 > b.1 {
                return None;
            }
        }
        let (wl, wh) = (b.0.div_euclid(p), b.1.div_euclid(p));
        if wl == wh {
            let x = md.add(-wl.checked_mul(p)?, &Lin::cst(1))?;
            let (lo, hi) = (b.0 - wl * p, b.1 - wl * p);
            if best.0.is_none() {
                best = (Some(x), lo, hi);
            }
        }
        let (kl, kh) = self.known(e);
        let body;
        if let (Some(x), lo, hi) = best {
            body = format!("(assert (= i{e} {}))\n", self.lin_text(&x));
            let (mut lo, mut hi) = (lo as u128, hi as u128);
            if lo.max(kl) <= hi.min(kh) {
                lo = lo.max(kl);
                hi = hi.min(kh);
            }
            self.done.insert(e, (lo, hi));
            self.ex.insert(e, x);
            self.def(&[format!("i{e}")], "Int", body);
            return Some(());
        }
        let t = self.lin_text(&md);
        if wh == wl + 1 {
            let n = |k: i128| if k < 0 { format!("(+ s {})", -k) } else { format!("(- s {k})") };
            let (x, y) = (wl.checked_mul(p)?, wh.checked_mul(p)?);
            let lim = if y < 0 { format!("(- {})", -y) } else { y.to_string() };
            body = format!("(assert (= i{e} (let ((s {t})) (ite (< s {lim}) {} {}))))\n", n(x), n(y));
            self.def(&[format!("i{e}")], "Int", body);
        } else {
            let n = |k: i128| if k < 0 { format!("(- {})", -k) } else { k.to_string() };
            body = format!(
                "(assert (and (= {t} (+ (* {p} mq{e}) i{e})) (<= 0 i{e}) (< i{e} {p}) (<= {} mq{e}) (<= mq{e} {})))\n",
                n(wl),
                n(wh)
            );
            self.def(&[format!("i{e}"), format!("mq{e}")], "Int", body);
        }
        self.done.insert(e, (kl, kh));
        self.md.insert(e, md);
        Some(())
    }

    fn children(n: Node) -> Vec<Eid> {
        match n {
            Node::Bin(_, a, b) | Node::Concat(a, b) => vec![a, b],
            Node::Ite(a, b, c) => vec![a, b, c],
            Node::Ext(_, _, a) | Node::Zext(a) | Node::Sext(a) => vec![a],
            _ => vec![],
        }
    }

    fn node(&mut self, root: Eid) -> T<()> {
        let mut stack = vec![(root, false)];
        while let Some((e, ready)) = stack.pop() {
            if self.done.contains_key(&e) {
                continue;
            }
            if !ready {
                stack.push((e, true));
                for c in Self::children(self.cx.node(e)) {
                    stack.push((c, false));
                }
                continue;
            }
            self.emit(e)?;
        }
        Some(())
    }

    /// The integer term of a node.
    fn t(&self, e: Eid) -> String {
        if let (Some(c), true) = (self.cx.cst(e), self.cx.w(e) > 1) {
            return c.to_string();
        }
        if self.cx.w(e) == 1 {
            format!("(ite i{} 1 0)", e)
        } else {
            format!("i{}", e)
        }
    }
    fn iv(&self, e: Eid) -> (u128, u128) {
        self.done[&e]
    }

    /// Quotient and remainder of `e` by the constant `c`: names of the terms.
    fn divmod(&mut self, e: Eid, c: u128) -> (String, String) {
        if c == 1 {
            return (self.t(e), "0".into());
        }
        let (lo, hi) = self.iv(e);
        if lo / c == hi / c {
            let q = lo / c;
            let r = if q == 0 { self.t(e) } else { format!("(- {} {})", self.t(e), q * c) };
            return (q.to_string(), r);
        }
        let (q, r) = (format!("q{}_{}", e, c), format!("r{}_{}", e, c));
        if self.divs.insert((e, c), ()).is_none() {
            let t = self.t(e);
            let body = format!(
                "(assert (and (= {t} (+ (* {c} {q}) {r})) (<= 0 {r}) (< {r} {c}) (<= {} {q}) (<= {q} {})))\n",
                lo / c, hi / c
            );
            self.def(&[q.clone(), r.clone()], "Int", body);
        }
        (q, r)
    }

    /// `e & c` as an integer term.
    fn masked(&mut self, e: Eid, c: u128) -> String {
        let mut parts = Vec::new();
        let mut i = 0;
        while i < 128 {
            if c >> i & 1 == 0 {
                i += 1;
                continue;
            }
            let lo = i;
            while i < 128 && c >> i & 1 == 1 {
                i += 1;
            }
            // Bits lo..i: (e mod 2^i) - (e mod 2^lo).
            let up = if i >= 128 || self.iv(e).1 < (1u128 << i) {
                self.t(e)
            } else {
                self.divmod(e, 1 << i).1
            };
            let down = if lo == 0 { None } else { Some(self.divmod(e, 1 << lo).1) };
            parts.push(match down {
                None => up,
                Some(d) => format!("(- {up} {d})"),
            });
        }
        match parts.len() {
            0 => "0".into(),
            1 => parts.pop().unwrap(),
            _ => format!("(+ {})", parts.join(" ")),
        }
    }

    fn signed(&self, e: Eid) -> String {
        let w = self.cx.w(e);
        let (lo, hi) = self.iv(e);
        let half = mask(w) / 2 + 1;
        let t = self.t(e);
        if hi < half {
            t
        } else if lo >= half {
            format!("(- {t} {})", pow(w))
        } else {
            format!("(ite (< {t} {half}) {t} (- {t} {}))", pow(w))
        }
    }

    fn emit(&mut self, e: Eid) -> T<()> {
        let w = self.cx.w(e);
        let m = mask(w);
        let n = self.cx.node(e);
        if w == 1 {
            return self.emit_bool(e, n);
        }
        if let Some(()) = self.emit_linear(e) {
            return Some(());
        }
        let (body, lo, hi): (String, u128, u128) = match n {
            Node::Const(c) => {
                self.done.insert(e, (c, c));
                if let Ok(c) = i128::try_from(c) {
                    self.ex.insert(e, Lin::cst(c));
                }
                return Some(());
            }
            Node::Var(v) => {
                let (lo, hi) = self.known(e);
                let body = format!("(assert (and (<= 0 i{e}) (<= i{e} {m})))\n");
                self.def(&[format!("i{e}")], "Int", body);
                self.vars.push((v, e));
                self.done.insert(e, (lo, hi));
                return Some(());
            }
            Node::Zext(a) => {
                let (l, h) = self.iv(a);
                (self.t(a), l, h)
            }
            Node::Sext(a) => {
                let aw = self.cx.w(a);
                let half = mask(aw) / 2 + 1;
                let (l, h) = self.iv(a);
                let up = m - mask(aw);
                let t = self.t(a);
                if h < half {
                    (t, l, h)
                } else if l >= half {
                    (format!("(+ {t} {up})"), l + up, h + up)
                } else {
                    (format!("(ite (< {t} {half}) {t} (+ {t} {up}))"), 0, m)
                }
            }
            Node::Concat(a, b) => {
                let k = self.cx.w(b);
                let ((al, ah), (bl, bh)) = (self.iv(a), self.iv(b));
                let p = 1u128 << k;
                (
                    format!("(+ (* {p} {}) {})", self.t(a), self.t(b)),
                    al * p + bl,
                    ah.checked_mul(p)?.checked_add(bh)?,
                )
            }
            Node::Ext(h, l, a) => {
                let (alo, ahi) = self.iv(a);
                let aw = self.cx.w(a);
                // (a mod 2^(h+1)) div 2^l
                if h + 1 == aw || ahi <= mask(h + 1) {
                    if l == 0 {
                        (self.t(a), alo, ahi)
                    } else {
                        (self.divmod(a, 1 << l).0, alo >> l, ahi >> l)
                    }
                } else if l == 0 {
                    let same = alo >> (h + 1) == ahi >> (h + 1);
                    let (x, y) = if same { (alo & m, ahi & m) } else { (0, m) };
                    (self.divmod(a, 1 << (h + 1)).1, x, y)
                } else {
                    let q = self.divmod(a, 1 << (h + 1)).0;
                    let r = self.divmod(a, 1 << l).0;
                    (format!("(- {r} (* {} {q}))", 1u128 << (h + 1 - l)), 0, m)
                }
            }
            Node::Ite(c, a, b) => {
                let ((al, ah), (bl, bh)) = match self.bools.get(&c) {
                    Some(true) => (self.iv(a), self.iv(a)),
                    Some(false) => (self.iv(b), self.iv(b)),
                    None => (self.iv(a), self.iv(b)),
                };
                (format!("(ite i{c} {} {})", self.t(a), self.t(b)), al.min(bl), ah.max(bh))
            }
            Node::Bin(op, a, b) => {
                let ((al, ah), (bl, bh)) = (self.iv(a), self.iv(b));
                let (ta, tb) = (self.t(a), self.t(b));
                let (ca, cb) = (self.cx.cst(a), self.cx.cst(b));
                match op {
                    Op::Add => {
                        let neg = |c: Option<u128>| c.filter(|&c| c > m / 2).map(|c| (m - c) + 1);
                        if let Some(k) = neg(cb) {
                            self.sub(w, &ta, (al, ah), &k.to_string(), (k, k))
                        } else if let Some(k) = neg(ca) {
                            self.sub(w, &tb, (bl, bh), &k.to_string(), (k, k))
                        } else {
                            let (lo, hi) = (al.checked_add(bl)?, ah.checked_add(bh)?);
                            if hi <= m {
                                (format!("(+ {ta} {tb})"), lo, hi)
                            } else if lo > m {
                                (format!("(- (+ {ta} {tb}) {})", pow(w)), lo - m - 1, hi - m - 1)
                            } else {
                                let p = pow(w);
                                (
                                    format!("(let ((s (+ {ta} {tb}))) (ite (< s {p}) s (- s {p})))"),
                                    0,
                                    m,
                                )
                            }
                        }
                    }
                    Op::Sub => self.sub(w, &ta, (al, ah), &tb, (bl, bh)),
                    Op::Mul => {
                        let (c, x, (xl, xh)) = match (ca, cb) {
                            (_, Some(c)) => (c, ta, (al, ah)),
                            (Some(c), _) => (c, tb, (bl, bh)),
                            _ => return None,
                        };
                        let hi = xh.checked_mul(c)?;
                        if hi <= m {
                            (format!("(* {c} {x})"), xl * c, hi)
                        } else {
                            let (q, r) = (format!("mq{e}"), format!("mr{e}"));
                            let p = pow(w);
                            let body = format!(
                                "(assert (and (= (* {c} {x}) (+ (* {p} {q}) {r})) (<= 0 {q}) (<= 0 {r}) (< {r} {p})))\n"
                            );
                            self.def(&[q.clone(), r.clone()], "Int", body);
                            (r, 0, m)
                        }
                    }
                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
                        let c = cb?;
                        if c == 0 {
                            return None;
                        }
                        if matches!(op, Op::SDiv | Op::SRem) && (ah > m / 2 || c > m / 2) {
                            return None;
                        }
                        let (q, r) = self.divmod(a, c);
                        if matches!(op, Op::UDiv | Op::SDiv) {
                            (q, al / c, ah / c)
                        } else if al / c == ah / c {
                            (r, al % c, ah % c)
                        } else {
                            (r, 0, c - 1)
                        }
                    }
                    Op::And | Op::Or | Op::Xor => {
                        let (x, c) = match (ca, cb) {
                            (_, Some(c)) => (a, c),
                            (Some(c), _) => (b, c),
                            _ => return None,
                        };
                        let tx = self.t(x);
                        if op == Op::Xor && c == m {
                            let (l, h) = self.iv(x);
                            (format!("(- {m} {tx})"), m - h, m - l)
                        } else {
                            let a = self.masked(x, c);
                            match op {
                                Op::And => (a, 0, c),
                                Op::Or => (format!("(- (+ {tx} {c}) {a})"), c, m),
                                _ => (format!("(- (+ {tx} {c}) (* 2 {a}))"), 0, m),
                            }
                        }
                    }
                    _ => return None,
                }
            }
        };
        let (kl, kh) = self.known(e);
        let iv = (lo.max(kl), hi.min(kh));
        let iv = if iv.0 > iv.1 { (lo, hi) } else { iv };
        self.def(&[format!("i{e}")], "Int", format!("(assert (= i{e} {body}))\n"));
        self.done.insert(e, iv);
        Some(())
    }

    fn sub(
        &self,
        w: u8,
        ta: &str,
        (al, ah): (u128, u128),
        tb: &str,
        (bl, bh): (u128, u128),
    ) -> (String, u128, u128) {
        let m = mask(w);
        let p = pow(w);
        if al >= bh {
            (format!("(- {ta} {tb})"), al - bh, ah - bl)
        } else if ah < bl {
            (format!("(+ (- {ta} {tb}) {p})"), m - (bh - al) + 1, m - (bl - ah) + 1)
        } else {
            (format!("(let ((s (- {ta} {tb}))) (ite (< s 0) (+ s {p}) s))"), 0, m)
        }
    }

    /// The value of a single-bit node if the intervals decide it.
    fn decided(&self, n: Node) -> Option<bool> {
        let b = |x: Eid| match self.cx.cst(x) {
            Some(c) => Some(c == 1),
            None => self.bools.get(&x).copied(),
        };
        match n {
            Node::Const(c) => Some(c == 1),
            Node::Ite(c, x, y) => match b(c) {
                Some(true) => b(x),
                Some(false) => b(y),
                None => None,
            },
            Node::Bin(op, x, y) if self.cx.w(x) == 1 => match op {
                Op::And => match (b(x), b(y)) {
                    (Some(false), _) | (_, Some(false)) => Some(false),
                    (Some(true), v) | (v, Some(true)) => v,
                    _ => None,
                },
                Op::Or => match (b(x), b(y)) {
                    (Some(true), _) | (_, Some(true)) => Some(true),
                    (Some(false), v) | (v, Some(false)) => v,
                    _ => None,
                },
                Op::Xor => Some(b(x)? ^ b(y)?),
                _ => None,
            },
            Node::Bin(op, x, y) => {
                let ((al, ah), (bl, bh)) = (self.iv(x), self.iv(y));
                let half = mask(self.cx.w(x)) / 2;
                match op {
                    Op::Ult if ah < bl => Some(true),
                    Op::Ult if al >= bh => Some(false),
                    Op::Slt if ah <= half && bh <= half && ah < bl => Some(true),
                    Op::Slt if ah <= half && bh <= half && al >= bh => Some(false),
                    Op::Eq if ah < bl || bh < al => Some(false),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn emit_bool(&mut self, e: Eid, n: Node) -> T<()> {
        let b = |x: Eid| format!("i{x}");
        let body = match n {
            Node::Const(c) => (if c == 1 { "true" } else { "false" }).to_string(),
            Node::Var(v) => {
                self.def(&[format!("i{e}")], "Bool", String::new());
                self.vars.push((v, e));
                self.done.insert(e, (0, 1));
                return Some(());
            }
            Node::Ite(c, x, y) => format!("(ite i{c} i{x} i{y})"),
            Node::Ext(h, _, a) => {
                let (alo, ahi) = self.iv(a);
                let aw = self.cx.w(a);
                if h + 1 == aw || ahi <= mask(h + 1) {
                    let half = 1u128 << h;
                    if ahi < half {
                        "false".into()
                    } else if alo >= half {
                        "true".into()
                    } else {
                        format!("(>= {} {half})", self.t(a))
                    }
                } else {
                    let r = self.divmod(a, 1 << (h + 1)).1;
                    format!("(>= {r} {})", 1u128 << h)
                }
            }
            Node::Bin(op, x, y) => {
                let xw = self.cx.w(x);
                if xw == 1 {
                    match op {
                        Op::And | Op::Mul => format!("(and {} {})", b(x), b(y)),
                        Op::Or => format!("(or {} {})", b(x), b(y)),
                        Op::Xor | Op::Add | Op::Sub => format!("(xor {} {})", b(x), b(y)),
                        Op::Eq => format!("(= {} {})", b(x), b(y)),
                        Op::Ult => format!("(and (not {}) {})", b(x), b(y)),
                        Op::Slt => format!("(and {} (not {}))", b(x), b(y)),
                        _ => return None,
                    }
                } else {
                    match op {
                        Op::Eq => format!("(= {} {})", self.t(x), self.t(y)),
                        Op::Ult => format!("(< {} {})", self.t(x), self.t(y)),
                        Op::Slt => format!("(< {} {})", self.signed(x), self.signed(y)),
                        _ => return None,
                    }
                }
            }
            _ => return None,
        };
        let v = if self.used.contains_key(&e) { None } else { self.decided(n) };
        let body = match v {
            Some(v) => {
                self.bools.insert(e, v);
                v.to_string()
            }
            None => body,
        };
        // Defined rather than constrained: the solver sees the Boolean structure directly.
        self.def(&[format!("i{e}")], "Bool", format!("(assert (= i{e} {body}))\n"));
        self.done.insert(e, (0, 1));
        Some(())
    }
}

fn pow(w: u8) -> String {
    if w >= 128 {
        "340282366920938463463374607431768211456".into()
    } else {
        (1u128 << w).to_string()
    }
}
