//! Symbolic execution of the decoded IR, exploration of schedules, and the properties checked on
//! the way.
use crate::expr::*;
use crate::parse::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

// ---------------------------------------------------------------- hashing

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)]
pub struct H(u64, u64);
impl H {
    fn new(seed: u64) -> H {
        H(seed ^ 0x9e3779b97f4a7c15, seed.rotate_left(32) ^ 0xc2b2ae3d27d4eb4f)
    }
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0xff51afd7ed558ccd);
        self.0 ^= self.0 >> 32;
        self.1 = (self.1.rotate_left(29) ^ x ^ 0x5bd1e995).wrapping_mul(0xc4ceb9fe1a85ec53);
        self.1 ^= self.1 >> 29;
    }
    fn addh(&mut self, h: H) {
        self.add(h.0);
        self.add(h.1);
    }
}

// ---------------------------------------------------------------- memory

pub struct Obj {
    bytes: Vec<u8>,
    /// Symbolic bytes: expression and index of the byte in it.
    sym: BTreeMap<u32, (Eid, u8)>,
    cache: Cell<Option<H>>,
    vcache: Cell<Option<VarSet>>,
}
impl Clone for Obj {
    fn clone(&self) -> Obj {
        Obj {
            bytes: self.bytes.clone(),
            sym: self.sym.clone(),
            cache: Cell::new(None),
            vcache: Cell::new(None),
        }
    }
}
impl Obj {
    fn new(n: u64) -> Obj {
        Obj {
            bytes: vec![0; n as usize],
            sym: BTreeMap::new(),
            cache: Cell::new(None),
            vcache: Cell::new(None),
        }
    }
    fn touch(&mut self) {
        self.cache.set(None);
        self.vcache.set(None);
    }
    fn hash(&self) -> H {
        if let Some(h) = self.cache.get() {
            return h;
        }
        let mut h = H::new(self.bytes.len() as u64);
        for c in self.bytes.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h.add(u64::from_le_bytes(w));
        }
        for (k, (e, b)) in &self.sym {
            h.add((*k as u64) << 40 | (*e as u64) << 8 | *b as u64);
        }
        self.cache.set(Some(h));
        h
    }
    fn vars(&self, cx: &Ctx) -> VarSet {
        if let Some(v) = self.vcache.get() {
            return v;
        }
        let mut v = NOVARS;
        for (e, _) in self.sym.values() {
            v = vs_or(&v, &cx.n[*e as usize].vars);
        }
        self.vcache.set(Some(v));
        v
    }
    fn has_sym(&self, off: u32, n: u32) -> bool {
        !self.sym.is_empty() && self.sym.range(off..off + n).next().is_some()
    }
    fn clear_sym(&mut self, off: u32, n: u32) {
        if !self.sym.is_empty() {
            let ks: Vec<u32> = self.sym.range(off..off + n).map(|x| *x.0).collect();
            for k in ks {
                self.sym.remove(&k);
            }
        }
    }
}

type Region = Rc<Vec<Option<Rc<Obj>>>>;

// ---------------------------------------------------------------- states

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    id: u32,
    bb: u32,
    ip: u32,
    regs: Vec<V>,
    allocas: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    /// Not started.
    Fresh,
    /// At a call whose result is the resume value.
    Parked,
    Blocked { timed: bool, woken: bool },
    Joining(u32),
    Done,
}

#[derive(Clone)]
struct Thread {
    frames: Vec<Rc<Frame>>,
    st: Status,
    vars: Rc<Vec<u32>>,
}

struct Link<T> {
    v: T,
    prev: Option<Rc<Link<T>>>,
}
impl<T> Drop for Link<T> {
    fn drop(&mut self) {
        // Long chains must not be dropped recursively.
        let mut p = self.prev.take();
        while let Some(r) = p {
            match Rc::try_unwrap(r) {
                Ok(mut l) => p = l.prev.take(),
                Err(_) => break,
            }
        }
    }
}
type List<T> = Option<Rc<Link<T>>>;
fn push<T>(l: &mut List<T>, v: T) {
    let prev = l.take();
    *l = Some(Rc::new(Link { v, prev }));
}
fn list<T: Clone>(l: &List<T>) -> Vec<T> {
    let mut r = Vec::new();
    let mut p = l.as_ref();
    while let Some(x) = p {
        r.push(x.v.clone());
        p = x.prev.as_ref();
    }
    r.reverse();
    r
}

#[derive(Clone)]
struct State {
    threads: Vec<Thread>,
    cur: usize,
    regions: Vec<Region>,
    /// Thread-local variables of the threads other than the first, which uses the globals themselves.
    tls: Rc<std::collections::BTreeMap<(usize, u64), u64>>,
    path: Vec<Eid>,
    known: Rc<HashMap<Eid, u128>>,
    model: Rc<Model>,
    node: u32,
    sched: List<(u32, u32)>,
    obs: List<V>,
    steps: u64,
}

struct Visit {
    sched: List<(u32, u32)>,
    vars: Vec<Rc<Vec<u32>>>,
    model: Rc<Model>,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub tape: String,
}

pub struct Sample {
    pub tape: String,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub stops: u64,
    pub pruned: u64,
    pub states: u64,
    pub edges: u64,
    pub merged: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub max_threads: u64,
    pub max_depth: u64,
}

enum Halt {
    /// The state is finished (or merged, or pruned).
    End,
    /// Control moved by hand.
    Jumped,
    /// All threads are parked: schedule.
    Park,
    Fault(String, String),
    Unsupported(String),
}
type X<T> = Result<T, Halt>;

pub struct Limits {
    pub time_s: f64,
    pub states: u64,
    pub steps: u64,
    pub samples: usize,
}

pub struct Engine {
    pub m: Module,
    pub cx: Ctx,
    consts: Vec<Rc<Obj>>,
    /// Initial contents of the variables.
    globals: Region,
    work: Vec<State>,
    seen: HashMap<H, u32>,
    nodes: Vec<Visit>,
    edges: Vec<(u32, u32)>,
    terminal: BTreeSet<u32>,
    live: HashMap<(u32, u32, u32), Rc<Vec<u32>>>,
    pub violations: Vec<Violation>,
    reported: BTreeSet<String>,
    pub covers: BTreeSet<String>,
    pub samples: Vec<Sample>,
    pub stats: Stats,
    pub incomplete: BTreeSet<String>,
    pub lim: Limits,
    pub asserts: BTreeMap<String, u64>,
    start: Instant,
    pub hit: Vec<bool>,
}

fn as_c(v: &V) -> Option<u64> {
    match v {
        V::C(c) => Some(*c),
        _ => None,
    }
}

impl Engine {
    pub fn new(m: Module, cx: Ctx, lim: Limits) -> Engine {
        let mut consts = Vec::new();
        for g in &m.globals {
            if !g.mutable {
                let mut o = Obj::new(g.size);
                o.bytes.copy_from_slice(&g.bytes);
                consts.push(Rc::new(o));
            }
        }
        Engine {
            m,
            cx,
            consts,
            work: Vec::new(),
            seen: HashMap::new(),
            nodes: Vec::new(),
            edges: Vec::new(),
            terminal: BTreeSet::new(),
            live: HashMap::new(),
            violations: Vec::new(),
            reported: BTreeSet::new(),
            globals: Default::default(),
            covers: BTreeSet::new(),
            samples: Vec::new(),
            stats: Stats::default(),
            incomplete: BTreeSet::new(),
            lim,
            asserts: BTreeMap::new(),
            start: Instant::now(),
            hit: Vec::new(),
        }
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let id = *self.m.fn_by_name.get(entry).ok_or(format!("no function {}", entry))?;
        let mut globals = Vec::new();
        for g in &self.m.globals {
            if g.mutable {
                let mut o = Obj::new(g.size);
                o.bytes.copy_from_slice(&g.bytes);
                globals.push(Some(Rc::new(o)));
            }
        }
        self.globals = Rc::new(globals);
        let e = Rc::new(Vec::new());
        let mut st = State {
            threads: Vec::new(),
            cur: 0,
            regions: vec![self.globals.clone(), e.clone(), e.clone()],
            tls: Default::default(),
            path: Vec::new(),
            known: Rc::new(HashMap::new()),
            model: Rc::new(Vec::new()),
            node: 0,
            sched: None,
            obs: None,
            steps: 0,
        };
        let f = self.m.func(id)?;
        let fr = Frame { regs: vec![V::C(0); f.nregs as usize], f, id, bb: 0, ip: 0, allocas: vec![] };
        st.threads.push(Thread {
            frames: vec![Rc::new(fr)],
            st: Status::Parked,
            vars: Rc::new(Vec::new()),
        });
        self.nodes.push(Visit { sched: None, vars: vec![], model: st.model.clone() });
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.lim.time_s {
                self.incomplete.insert("time limit".into());
                break;
            }
            if self.nodes.len() as u64 > self.lim.states {
                self.incomplete.insert("state limit".into());
                break;
            }
            self.drive(st);
        }
        self.stats.states = self.nodes.len() as u64;
        self.stats.edges = self.edges.len() as u64;
        if self.incomplete.is_empty() {
            self.livelocks();
        }
        Ok(())
    }

    fn end(&mut self, st: &State) {
        self.terminal.insert(st.node);
    }

    fn drive(&mut self, mut st: State) {
        loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Halt::Jumped) => {}
                Err(Halt::End) => {
                    self.end(&st);
                    return;
                }
                Err(Halt::Park) => {
                    if !self.schedule(&mut st) {
                        return;
                    }
                }
                Err(Halt::Fault(kind, msg)) => {
                    self.violation(&st, &kind, &msg, None);
                    self.end(&st);
                    return;
                }
                Err(Halt::Unsupported(m)) => {
                    self.incomplete.insert(m);
                    self.end(&st);
                    return;
                }
            }
        }
    }

    // ------------------------------------------------------------ reports

    fn tape_of(
        &self,
        vars: &[Rc<Vec<u32>>],
        sched: &List<(u32, u32)>,
        model: &Model,
    ) -> String {
        let mut s = String::new();
        for (t, vs) in vars.iter().enumerate() {
            for v in vs.iter() {
                let x = model.get(*v as usize).copied().unwrap_or(0)
                    & mask(self.cx.vars[*v as usize].w);
                s.push_str(&format!("V {} {} {}\n", t, x, self.cx.vars[*v as usize].name));
            }
        }
        for (t, fired) in list(sched) {
            s.push_str(&format!("S {} {}\n", t, fired));
        }
        s
    }
    fn tape(&self, st: &State, model: &Model) -> String {
        let vars: Vec<_> = st.threads.iter().map(|t| t.vars.clone()).collect();
        self.tape_of(&vars, &st.sched, model)
    }

    fn location(&self, st: &State) -> String {
        let mut s = Vec::new();
        for f in st.threads[st.cur].frames.iter().rev().take(3) {
            s.push(self.m.fns[f.id as usize].name.to_string());
        }
        s.join(" < ")
    }

    fn violation(&mut self, st: &State, kind: &str, msg: &str, model: Option<&Model>) {
        let key = format!("{}:{}", kind, msg);
        if !self.reported.insert(key) {
            return;
        }
        let model = model.unwrap_or(&st.model);
        let tape = self.tape(st, model);
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), tape });
    }

    fn livelocks(&mut self) {
        let n = self.nodes.len();
        let mut rev: Vec<Vec<u32>> = vec![Vec::new(); n];
        for &(a, b) in &self.edges {
            rev[b as usize].push(a);
        }
        let mut ok = vec![false; n];
        let mut q: Vec<u32> = self.terminal.iter().copied().collect();
        for &t in &q {
            ok[t as usize] = true;
        }
        while let Some(x) = q.pop() {
            for &p in &rev[x as usize] {
                if !ok[p as usize] {
                    ok[p as usize] = true;
                    q.push(p);
                }
            }
        }
        if let Some(bad) = (0..n).find(|&i| !ok[i]) {
            let nd = &self.nodes[bad];
            let tape = self.tape_of(&nd.vars, &nd.sched, &nd.model);
            self.violations.push(Violation {
                kind: "livelock".into(),
                msg: "no continuation of this execution ever finishes".into(),
                tape,
            });
        }
    }

    // ------------------------------------------------------------ scheduling

    fn live_regs(&mut self, f: &Frame) -> Rc<Vec<u32>> {
        if let Some(l) = self.live.get(&(f.id, f.bb, f.ip)) {
            return l.clone();
        }
        let l = Rc::new(live_after(&f.f, f.bb, f.ip));
        self.live.insert((f.id, f.bb, f.ip), l.clone());
        l
    }

    fn hash_v(&self, h: &mut H, vs: &mut VarSet, v: &V) {
        match v {
            V::C(c) => {
                h.add(1);
                h.add(*c);
            }
            V::E(e) => {
                h.add(2);
                h.add(*e as u64);
                *vs = vs_or(vs, &self.cx.n[*e as usize].vars);
            }
            V::A(a) => {
                h.add(3 + ((a.len() as u64) << 8));
                for x in a.iter() {
                    self.hash_v(h, vs, x);
                }
            }
        }
    }

    fn state_hash(&mut self, st: &State) -> H {
        let mut h = H::new(7);
        let mut vs = NOVARS;
        for t in &st.threads {
            h.add(match t.st {
                Status::Fresh => 1,
                Status::Parked => 2,
                Status::Blocked { timed, woken } => 3 + timed as u64 + 2 * woken as u64,
                Status::Joining(t) => 100 + t as u64,
                Status::Done => 9,
            });
            for f in &t.frames {
                h.add((f.id as u64) << 40 | (f.bb as u64) << 16 | f.ip as u64);
                if t.st == Status::Fresh {
                    for r in &f.regs {
                        self.hash_v(&mut h, &mut vs, r);
                    }
                    continue;
                }
                let l = self.live_regs(f);
                for &r in l.iter() {
                    self.hash_v(&mut h, &mut vs, &f.regs[r as usize]);
                }
                for &a in &f.allocas {
                    h.add(a as u64);
                }
            }
        }
        for ((t, g), a) in st.tls.iter() {
            h.add(*t as u64);
            h.add(*g);
            h.add(*a);
        }
        for r in &st.regions {
            h.add(0xabcdef);
            for (i, o) in r.iter().enumerate() {
                if let Some(o) = o {
                    h.add(i as u64);
                    h.addh(o.hash());
                    vs = vs_or(&vs, &o.vars(&self.cx));
                }
            }
        }
        // Constraints that mention reachable variables, transitively.
        let mut pick = vec![false; st.path.len()];
        loop {
            let mut grew = false;
            for (i, p) in st.path.iter().enumerate() {
                if !pick[i] && vs_meets(&self.cx.n[*p as usize].vars, &vs) {
                    pick[i] = true;
                    vs = vs_or(&vs, &self.cx.n[*p as usize].vars);
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        let mut cs: Vec<Eid> =
            (0..pick.len()).filter(|&i| pick[i]).map(|i| st.path[i]).collect();
        cs.sort_unstable();
        cs.dedup();
        for c in cs {
            h.add(c as u64);
        }
        h
    }

    fn enabled(st: &State) -> Vec<(u32, u32)> {
        let mut v = Vec::new();
        for (i, t) in st.threads.iter().enumerate() {
            let i = i as u32;
            match t.st {
                Status::Fresh | Status::Parked => v.push((i, 0)),
                Status::Blocked { timed, woken } => {
                    if woken {
                        v.push((i, 0));
                    }
                    if timed {
                        v.push((i, 1));
                    }
                }
                Status::Joining(j) => {
                    if st.threads[j as usize].st == Status::Done {
                        v.push((i, 0));
                    }
                }
                Status::Done => {}
            }
        }
        v
    }

    /// Every thread is parked.  Registers the state and picks what runs next; false if the state
    /// is not explored any further.
    fn schedule(&mut self, st: &mut State) -> bool {
        let h = self.state_hash(st);
        if let Some(&n) = self.seen.get(&h) {
            self.edges.push((st.node, n));
            self.stats.merged += 1;
            return false;
        }
        let id = self.nodes.len() as u32;
        self.seen.insert(h, id);
        self.nodes.push(Visit {
            sched: st.sched.clone(),
            vars: st.threads.iter().map(|t| t.vars.clone()).collect(),
            model: st.model.clone(),
        });
        self.edges.push((st.node, id));
        st.node = id;
        st.steps = 0;
        let en = Self::enabled(st);
        if en.is_empty() {
            let who: Vec<String> = st
                .threads
                .iter()
                .enumerate()
                .filter(|t| t.1.st != Status::Done)
                .map(|t| {
                    let f = t.1.frames.iter().rev().take(4);
                    let names: Vec<_> =
                        f.map(|f| self.m.fns[f.id as usize].name.to_string()).collect();
                    format!("thread {} in {}", t.0, names.join(" < "))
                })
                .collect();
            let msg = format!("every thread is blocked forever: {}", who.join("; "));
            self.violation(st, "deadlock", &msg, None);
            self.end(st);
            return false;
        }
        for &c in en[1..].iter().rev() {
            let mut s = st.clone();
            Self::resume(&mut s, c);
            self.work.push(s);
        }
        Self::resume(st, en[0]);
        true
    }

    fn resume(st: &mut State, (t, fired): (u32, u32)) {
        if st.threads.len() > 1 {
            push(&mut st.sched, (t, fired));
        }
        st.cur = t as usize;
        let th = &mut st.threads[t as usize];
        let fresh = th.st == Status::Fresh;
        th.st = Status::Parked;
        if fresh {
            return;
        }
        let f = Rc::make_mut(th.frames.last_mut().unwrap());
        if let I::Call { dst: Some(d), .. } = f.f.blocks[f.bb as usize].ins[f.ip as usize] {
            f.regs[d as usize] = V::C(fired as u64);
        }
        f.ip += 1;
    }

    // ------------------------------------------------------------ decisions

    fn decide(&mut self, st: &mut State, c: Eid) -> X<bool> {
        if let Some(k) = self.cx.cst(c) {
            return Ok(k == 1);
        }
        if let Some(k) = st.known.get(&c) {
            return Ok(*k == 1);
        }
        let n = self.cx.not(c);
        if let Some(k) = st.known.get(&n) {
            return Ok(*k != 1);
        }
        let v = self.cx.eval(c, &st.model) == 1;
        let (pos, neg) = if v { (c, n) } else { (n, c) };
        match self.cx.feasible(&st.path, neg) {
            Ans::Unsat => {}
            Ans::Sat(m) => {
                self.stats.forks += 1;
                let mut o = st.clone();
                o.path.push(neg);
                Rc::make_mut(&mut o.known).insert(c, !v as u128);
                o.model = self.overlay(&st.model, &m);
                self.work.push(o);
                st.path.push(pos);
            }
            Ans::Unknown => {
                self.incomplete.insert("solver gave no answer on a branch".into());
                st.path.push(pos);
            }
        }
        Rc::make_mut(&mut st.known).insert(c, v as u128);
        Ok(v)
    }

    fn overlay(&self, base: &Rc<Model>, m: &[(u32, u128)]) -> Rc<Model> {
        let mut r = (**base).clone();
        for (v, x) in m {
            if r.len() <= *v as usize {
                r.resize(*v as usize + 1, 0);
            }
            r[*v as usize] = *x;
        }
        Rc::new(r)
    }

    /// A concrete value of `v`, forking over the others.
    fn conc(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::E(e) => {
                if let Some(k) = self.cx.cst(*e) {
                    return Ok(k as u64);
                }
                if let Some(k) = st.known.get(e) {
                    return Ok(*k as u64);
                }
                let x = self.cx.eval(*e, &st.model);
                let w = self.cx.w(*e);
                let k = self.cx.konst(x, w);
                let c = self.cx.bin(Op::Eq, *e, k);
                let r = self.decide(st, c)?;
                debug_assert!(r);
                Rc::make_mut(&mut st.known).insert(*e, x);
                Ok(x as u64)
            }
            V::A(_) => Err(Halt::Unsupported("aggregate used as a number".into())),
        }
    }

    /// The value of an operand of floating-point arithmetic.  Only a few values of a symbolic one
    /// are tried, and the run counts as incomplete.
    fn sample(&mut self, st: &mut State, v: &V) -> X<u64> {
        let V::E(e) = v else { return self.conc(st, v) };
        if let Some(k) = st.known.get(e) {
            return Ok(*k as u64);
        }
        self.incomplete
            .insert("floating-point arithmetic on a symbolic value: only some values tried".into());
        let w = self.cx.w(*e);
        for k in [0, 1, 2, 3, 1000, 1_500_000, 999_999_999, 1_234_567, 12_345_678_901, 1 << 33] {
            if k & mask(w) == k {
                let c = self.cx.konst(k, w);
                let c = self.cx.bin(Op::Eq, *e, c);
                if self.decide(st, c)? {
                    Rc::make_mut(&mut st.known).insert(*e, k);
                    return Ok(k as u64);
                }
            }
        }
        Err(Halt::End)
    }

    // ------------------------------------------------------------ values

    fn e(&mut self, v: &V, w: u32) -> Eid {
        match v {
            V::C(c) => self.cx.konst(*c as u128, w as u8),
            V::E(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: Eid) -> V {
        let n = &self.cx.n[e as usize];
        match n.node {
            Node::Const(c) if n.w <= 64 => V::C(c as u64),
            _ => V::E(e),
        }
    }
    fn opd(&mut self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.threads[st.cur].frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => V::C(*c),
            Opd::Wide(c, w) => V::E(self.cx.konst(*c, *w as u8)),
            Opd::Agg(a) => V::A(Rc::new(a.iter().map(|x| self.opd(st, x)).collect())),
        }
    }
    fn set(&mut self, st: &mut State, d: u32, v: V) {
        let c = st.cur;
        let f = Rc::make_mut(st.threads[c].frames.last_mut().unwrap());
        f.regs[d as usize] = v;
    }
    fn adv(&mut self, st: &mut State) {
        let c = st.cur;
        Rc::make_mut(st.threads[c].frames.last_mut().unwrap()).ip += 1;
    }
    fn zero_v(&mut self, t: &Ty) -> V {
        match t {
            Ty::Arr(n, e) | Ty::Vector(n, e) => {
                let z = self.zero_v(e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero_v(x)).collect())),
            Ty::Int(w) if *w > 64 => V::E(self.cx.konst(0, *w as u8)),
            _ => V::C(0),
        }
    }

    fn bin(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        if w <= 64 {
            if let (V::C(x), V::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                return V::C(
                    match op {
                        Op::Add => x.wrapping_add(y),
                        Op::Sub => x.wrapping_sub(y),
                        Op::Mul => x.wrapping_mul(y),
                        Op::And => x & y,
                        Op::Or => x | y,
                        Op::Xor => x ^ y,
                        Op::Shl if y < 64 => x << y,
                        Op::LShr if y < 64 => x >> y,
                        _ => fold(op, w as u8, x as u128, y as u128) as u64,
                    } & m,
                );
            }
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.cx.bin(op, x, y);
        self.v(r)
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let sh = 64 - w;
            let (sx, sy) = (((x << sh) as i64) >> sh, ((y << sh) as i64) >> sh);
            return V::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            } as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let (op, x, y, neg) = match p {
            Pred::Eq => (Op::Eq, x, y, false),
            Pred::Ne => (Op::Eq, x, y, true),
            Pred::Ult => (Op::Ult, x, y, false),
            Pred::Uge => (Op::Ult, x, y, true),
            Pred::Ugt => (Op::Ult, y, x, false),
            Pred::Ule => (Op::Ult, y, x, true),
            Pred::Slt => (Op::Slt, x, y, false),
            Pred::Sge => (Op::Slt, x, y, true),
            Pred::Sgt => (Op::Slt, y, x, false),
            Pred::Sle => (Op::Slt, y, x, true),
        };
        let mut r = self.cx.bin(op, x, y);
        if neg {
            r = self.cx.not(r);
        }
        self.v(r)
    }

    fn cast(&mut self, k: CastK, fw: u32, tw: u32, a: &V) -> V {
        if k == CastK::Copy {
            return a.clone();
        }
        if let V::C(x) = a {
            if tw <= 64 {
                let m = if tw == 64 { u64::MAX } else { (1u64 << tw) - 1 };
                return V::C(match k {
                    CastK::Trunc | CastK::Zext => *x & m,
                    _ => ((((*x) << (64 - fw)) as i64 >> (64 - fw)) as u64) & m,
                });
            }
        }
        let e = self.e(a, fw);
        let r = match k {
            CastK::Trunc => self.cx.ext(tw as u8 - 1, 0, e),
            CastK::Zext => self.cx.zext(e, tw as u8),
            _ => self.cx.sext(e, tw as u8),
        };
        self.v(r)
    }

    fn select(&mut self, ty: &Ty, c: Eid, a: &V, b: &V) -> V {
        match ty {
            Ty::Struct(f, _) => {
                if let (V::A(x), V::A(y)) = (a, b) {
                    let r = (0..f.len()).map(|i| self.select(&f[i], c, &x[i], &y[i])).collect();
                    return V::A(Rc::new(r));
                }
                a.clone()
            }
            Ty::Arr(n, e) | Ty::Vector(n, e) => {
                if let (V::A(x), V::A(y)) = (a, b) {
                    let r = (0..*n as usize).map(|i| self.select(e, c, &x[i], &y[i])).collect();
                    return V::A(Rc::new(r));
                }
                a.clone()
            }
            _ => {
                let w = width(ty);
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.cx.ite(c, x, y);
                self.v(r)
            }
        }
    }

    // ------------------------------------------------------------ memory access

    fn region_ix(tag: u64) -> Option<usize> {
        if tag == R_GLOBAL {
            Some(0)
        } else if tag >= R_THREAD {
            Some((tag - R_THREAD) as usize + 1)
        } else {
            None
        }
    }

    fn fault<T>(&self, st: &State, what: &str, a: u64, n: u64) -> X<T> {
        Err(Halt::Fault(
            "memory".into(),
            format!("{} of {} bytes at {:#x} in {}", what, n, a, self.location(st)),
        ))
    }

    fn find(&self, st: &State, a: u64, n: u64, what: &str) -> X<(Rc<Obj>, u32)> {
        let tag = a >> 44;
        let slot = (a >> 24 & 0xfffff) as usize;
        let off = (a & 0xffffff).wrapping_sub(BASE);
        let o = if tag == R_CONST {
            self.consts.get(slot).cloned()
        } else {
            Self::region_ix(tag)
                .and_then(|r| st.regions.get(r))
                .and_then(|r| r.get(slot))
                .and_then(|o| o.clone())
        };
        match o {
            Some(o) if off <= o.bytes.len() as u64 && off + n <= o.bytes.len() as u64 => {
                Ok((o, off as u32))
            }
            _ => self.fault(st, what, a, n),
        }
    }

    fn with_mut<T>(
        &self,
        st: &mut State,
        a: u64,
        n: u64,
        f: impl FnOnce(&mut Obj, u32) -> T,
    ) -> X<T> {
        let tag = a >> 44;
        let slot = (a >> 24 & 0xfffff) as usize;
        let off = (a & 0xffffff).wrapping_sub(BASE);
        if let Some(r) = Self::region_ix(tag) {
            if r < st.regions.len() {
                let ok = match st.regions[r].get(slot) {
                    Some(Some(o)) => {
                        off <= o.bytes.len() as u64 && off + n <= o.bytes.len() as u64
                    }
                    _ => false,
                };
                if ok {
                    let reg = Rc::make_mut(&mut st.regions[r]);
                    let o = Rc::make_mut(reg[slot].as_mut().unwrap());
                    o.touch();
                    return Ok(f(o, off as u32));
                }
            }
        }
        self.fault(st, "write", a, n)
    }

    fn read_scalar(&mut self, o: &Obj, off: u32, n: u32) -> V {
        if !o.has_sym(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(&o.bytes[off as usize..(off + n) as usize]);
                return V::C(u64::from_le_bytes(b));
            }
            let mut v = 0u128;
            for k in (0..n).rev() {
                v = v << 8 | o.bytes[(off + k) as usize] as u128;
            }
            return V::E(self.cx.konst(v, (n * 8) as u8));
        }
        // From the least significant byte up, in runs.
        let mut acc: Option<Eid> = None;
        let mut k = 0;
        while k < n {
            let piece;
            match o.sym.get(&(off + k)) {
                Some(&(e, b)) => {
                    let mut len = 1;
                    while k + len < n && o.sym.get(&(off + k + len)) == Some(&(e, b + len as u8)) {
                        len += 1;
                    }
                    piece = self.cx.ext(b * 8 + len as u8 * 8 - 1, b * 8, e);
                    k += len;
                }
                None => {
                    let mut len = 0;
                    let mut v = 0u128;
                    while k + len < n && !o.sym.contains_key(&(off + k + len)) {
                        v |= (o.bytes[(off + k + len) as usize] as u128) << (8 * len);
                        len += 1;
                    }
                    piece = self.cx.konst(v, (8 * len) as u8);
                    k += len;
                }
            }
            acc = Some(match acc {
                None => piece,
                Some(a) => self.cx.concat(piece, a),
            });
        }
        self.v(acc.unwrap())
    }

    fn load_obj(&mut self, o: &Obj, off: u32, ty: &Ty) -> V {
        match ty {
            Ty::Struct(f, p) => V::A(Rc::new(
                (0..f.len())
                    .map(|i| self.load_obj(o, off + field_offset(f, *p, i) as u32, &f[i]))
                    .collect(),
            )),
            Ty::Arr(n, e) | Ty::Vector(n, e) => V::A(Rc::new(
                (0..*n).map(|i| self.load_obj(o, off + (i * size_of(e)) as u32, e)).collect(),
            )),
            _ => {
                let n = store_size(ty) as u32;
                let v = self.read_scalar(o, off, n);
                let w = width(ty);
                if w < n * 8 {
                    self.cast(CastK::Trunc, n * 8, w, &v)
                } else {
                    v
                }
            }
        }
    }

    fn load(&mut self, st: &mut State, p: &V, ty: &Ty) -> X<V> {
        let a = self.conc(st, p)?;
        let n = store_size(ty);
        if let Ty::Vector(_, e) = ty {
            if width(e) % 8 != 0 {
                return Err(Halt::Unsupported("vector of bits".into()));
            }
        }
        let (o, off) = self.find(st, a, n, "read")?;
        Ok(self.load_obj(&o, off, ty))
    }

    fn put_scalar(cx: &Ctx, o: &mut Obj, off: u32, n: u32, v: &V) {
        o.clear_sym(off, n);
        match v {
            V::C(c) => {
                for k in 0..n {
                    o.bytes[(off + k) as usize] = if k < 8 { (*c >> (8 * k)) as u8 } else { 0 };
                }
            }
            V::E(e) => {
                if let Some(c) = cx.cst(*e) {
                    for k in 0..n {
                        o.bytes[(off + k) as usize] = (c >> (8 * k)) as u8;
                    }
                } else {
                    for k in 0..n {
                        o.bytes[(off + k) as usize] = 0;
                        o.sym.insert(off + k, (*e, k as u8));
                    }
                }
            }
            V::A(_) => {}
        }
    }

    fn flatten(&mut self, ty: &Ty, v: &V, off: u64, out: &mut Vec<(u64, u32, V)>) {
        match (ty, v) {
            (Ty::Struct(f, p), V::A(a)) => {
                for i in 0..f.len() {
                    self.flatten(&f[i], &a[i], off + field_offset(f, *p, i), out);
                }
            }
            (Ty::Arr(n, e), V::A(a)) | (Ty::Vector(n, e), V::A(a)) => {
                for i in 0..*n {
                    self.flatten(e, &a[i as usize], off + i * size_of(e), out);
                }
            }
            _ => {
                let n = store_size(ty) as u32;
                let w = width(ty);
                let v = match v {
                    V::E(_) if w < n * 8 => self.cast(CastK::Zext, w, n * 8, v),
                    v => v.clone(),
                };
                out.push((off, n, v));
            }
        }
    }

    fn store(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> X<()> {
        let a = self.conc(st, p)?;
        let mut parts = Vec::new();
        self.flatten(ty, v, 0, &mut parts);
        self.with_mut(st, a, store_size(ty), |o, off| {
            for (d, n, v) in &parts {
                Self::put_scalar(&self.cx, o, off + *d as u32, *n, v);
            }
        })
    }

    fn alloc(&mut self, st: &mut State, region: usize, n: u64) -> X<u64> {
        if n > 0xff0000 {
            return Err(Halt::Unsupported(format!("allocation of {} bytes", n)));
        }
        let r = Rc::make_mut(&mut st.regions[region]);
        let slot = match r.iter().position(|x| x.is_none()) {
            Some(i) => i,
            None => {
                r.push(None);
                r.len() - 1
            }
        };
        r[slot] = Some(Rc::new(Obj::new(n)));
        Ok(address(region as u64 - 1 + R_THREAD, slot as u64))
    }

    fn free(&mut self, st: &mut State, a: u64) -> X<()> {
        if a == 0 {
            return Ok(());
        }
        let tag = a >> 44;
        let slot = (a >> 24 & 0xfffff) as usize;
        if tag >= R_THREAD && a & 0xffffff == BASE {
            let r = (tag - R_THREAD) as usize + 1;
            if r < st.regions.len() && matches!(st.regions[r].get(slot), Some(Some(_))) {
                let reg = Rc::make_mut(&mut st.regions[r]);
                reg[slot] = None;
                while matches!(reg.last(), Some(None)) {
                    reg.pop();
                }
                return Ok(());
            }
        }
        Err(Halt::Fault("memory".into(), format!("free of {:#x} in {}", a, self.location(st))))
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, so) = self.find(st, s, n, "read")?;
        self.with_mut(st, d, n, |t, off| {
            t.clear_sym(off, n as u32);
            t.bytes[off as usize..off as usize + n as usize]
                .copy_from_slice(&o.bytes[so as usize..so as usize + n as usize]);
            if !o.sym.is_empty() {
                for (k, v) in o.sym.range(so..so + n as u32) {
                    t.sym.insert(k - so + off, *v);
                }
            }
        })
    }

    fn text(&self, st: &State, a: u64, n: u64) -> String {
        match self.find(st, a, n, "read") {
            Ok((o, off)) => {
                String::from_utf8_lossy(&o.bytes[off as usize..(off as u64 + n) as usize])
                    .to_string()
            }
            Err(_) => "?".into(),
        }
    }

    // ------------------------------------------------------------ instructions

    fn step(&mut self, st: &mut State) -> X<()> {
        self.stats.instrs += 1;
        st.steps += 1;
        if st.steps > self.lim.steps {
            return Err(Halt::Unsupported(format!("step limit in {}", self.location(st))));
        }
        if self.stats.instrs & 0xffff == 0
            && self.start.elapsed().as_secs_f64() > self.lim.time_s
        {
            return Err(Halt::Unsupported("time limit".into()));
        }
        let (func, bb, ip) = {
            let f = st.threads[st.cur].frames.last().unwrap();
            (f.f.clone(), f.bb, f.ip)
        };
        let ins = &func.blocks[bb as usize].ins[ip as usize];
        let d = func.blocks[bb as usize].dbg[ip as usize] as usize;
        if d != 0 {
            if d >= self.hit.len() {
                self.hit.resize(d + 1, false);
            }
            self.hit[d] = true;
        }
        match ins {
            I::Bin { op, w, dst, a, b } => {
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let r = self.bin(*op, *w, &x, &y);
                self.set(st, *dst, r);
            }
            I::ICmp { p, w, dst, a, b } => {
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let r = self.icmp(*p, *w, &x, &y);
                self.set(st, *dst, r);
            }
            I::Cast { k, fw, tw, dst, a } => {
                let x = self.opd(st, a);
                let r = self.cast(*k, *fw, *tw, &x);
                self.set(st, *dst, r);
            }
            I::Float { op, fw, tw, dst, a, b } => {
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let x = self.sample(st, &x)?;
                let y = self.sample(st, &y)?;
                match float(op, *fw, *tw, x, y) {
                    Some(r) => self.set(st, *dst, V::C(r)),
                    None => return Err(Halt::Unsupported(format!("{} in {}", op, self.location(st)))),
                }
            }
            I::Alloca { dst, size } => {
                let region = 2 + 2 * st.cur;
                let a = self.alloc(st, region, *size)?;
                let c = st.cur;
                let f = Rc::make_mut(st.threads[c].frames.last_mut().unwrap());
                f.allocas.push((a >> 24 & 0xfffff) as u32);
                f.regs[*dst as usize] = V::C(a);
            }
            I::Load { dst, ty, p } => {
                let p = self.opd(st, p);
                let v = self.load(st, &p, ty)?;
                self.set(st, *dst, v);
            }
            I::Store { ty, v, p } => {
                let v = self.opd(st, v);
                let p = self.opd(st, p);
                self.store(st, &p, ty, &v)?;
            }
            I::Gep { dst, p, off, idx } => {
                let mut a = self.opd(st, p);
                a = self.bin(Op::Add, 64, &a, &V::C(*off));
                for (i, w, scale) in idx {
                    let i = self.opd(st, i);
                    let i = if *w < 64 { self.cast(CastK::Sext, *w, 64, &i) } else { i };
                    let i = self.bin(Op::Mul, 64, &i, &V::C(*scale));
                    a = self.bin(Op::Add, 64, &a, &i);
                }
                self.set(st, *dst, a);
            }
            I::Select { dst, ty, c, a, b } => {
                let c = self.opd(st, c);
                let x = self.opd(st, a);
                let y = self.opd(st, b);
                let r = match c {
                    V::C(c) => {
                        if c & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    V::E(c) => match st.known.get(&c) {
                        Some(1) => x,
                        Some(_) => y,
                        None => {
                            // Pointers are picked by forking: their targets differ.
                            if *ty == Ty::Ptr {
                                if self.decide(st, c)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.select(ty, c, &x, &y)
                            }
                        }
                    },
                    V::A(_) => return Err(Halt::Unsupported("vector select".into())),
                };
                self.set(st, *dst, r);
            }
            I::Extract { dst, a, ix } => {
                let mut v = self.opd(st, a);
                for i in ix {
                    v = match &v {
                        V::A(a) => a[*i as usize].clone(),
                        _ => return Err(Halt::Unsupported("extractvalue".into())),
                    };
                }
                self.set(st, *dst, v);
            }
            I::Insert { dst, ty, a, v, ix } => {
                let mut base = self.opd(st, a);
                if !matches!(base, V::A(_)) {
                    base = self.zero_v(ty);
                }
                let v = self.opd(st, v);
                fn ins(b: &V, v: V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return v;
                    }
                    match b {
                        V::A(a) => {
                            let mut n = (**a).clone();
                            n[ix[0] as usize] = ins(&a[ix[0] as usize], v, &ix[1..]);
                            V::A(Rc::new(n))
                        }
                        x => x.clone(),
                    }
                }
                let r = ins(&base, v, ix);
                self.set(st, *dst, r);
            }
            I::CmpXchg { dst, p, w, c, n } => {
                let p = self.opd(st, p);
                let c = self.opd(st, c);
                let n = self.opd(st, n);
                let ty = Ty::Int(*w);
                let old = self.load(st, &p, &ty)?;
                let eq = self.icmp(Pred::Eq, *w, &old, &c);
                let ok = match &eq {
                    V::C(x) => *x == 1,
                    V::E(e) => self.decide(st, *e)?,
                    _ => false,
                };
                if ok {
                    self.store(st, &p, &ty, &n)?;
                }
                self.set(st, *dst, V::A(Rc::new(vec![old, V::C(ok as u64)])));
            }
            I::Rmw { dst, op, p, w, v } => {
                let p = self.opd(st, p);
                let v = self.opd(st, v);
                let ty = Ty::Int(*w);
                let old = self.load(st, &p, &ty)?;
                let new = match &**op {
                    "xchg" => v,
                    "add" => self.bin(Op::Add, *w, &old, &v),
                    "sub" => self.bin(Op::Sub, *w, &old, &v),
                    "and" => self.bin(Op::And, *w, &old, &v),
                    "or" => self.bin(Op::Or, *w, &old, &v),
                    "xor" => self.bin(Op::Xor, *w, &old, &v),
                    o => return Err(Halt::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store(st, &p, &ty, &new)?;
                self.set(st, *dst, old);
            }
            I::Nop => {}
            I::Br(t) => {
                self.jump(st, &func, bb, *t);
                return Ok(());
            }
            I::CondBr(c, t, e) => {
                let c = self.opd(st, c);
                let b = match c {
                    V::C(x) => x & 1 == 1,
                    V::E(c) => self.decide(st, c)?,
                    _ => false,
                };
                self.jump(st, &func, bb, if b { *t } else { *e });
                return Ok(());
            }
            I::Switch { w, v, dflt, cases } => {
                let v = self.opd(st, v);
                let mut to = *dflt;
                match v {
                    V::C(x) => {
                        if let Some(c) = cases.iter().find(|c| c.0 == x) {
                            to = c.1;
                        }
                    }
                    V::E(e) => {
                        let known = st.known.get(&e).copied();
                        for (c, t) in cases {
                            let hit = match known {
                                Some(k) => k as u64 == *c,
                                None => {
                                    let k = self.cx.konst(*c as u128, *w as u8);
                                    let q = self.cx.bin(Op::Eq, e, k);
                                    self.decide(st, q)?
                                }
                            };
                            if hit {
                                to = *t;
                                break;
                            }
                        }
                    }
                    _ => {}
                }
                self.jump(st, &func, bb, to);
                return Ok(());
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| self.opd(st, o));
                return self.ret(st, v);
            }
            I::Unreachable => {
                return Err(Halt::Fault(
                    "unreachable".into(),
                    format!("unreachable code reached in {}", self.location(st)),
                ))
            }
            I::Unsupported(m) => {
                return Err(Halt::Unsupported(format!("{} in {}", m, self.location(st))))
            }
            I::Call { dst, callee, args, ret, noreturn, normal } => {
                let vals: Vec<V> = args.iter().map(|a| self.opd(st, &a.1)).collect();
                let (target, name): (Option<u32>, Rc<str>) = match callee {
                    Callee::Fun(f) => (Some(*f), self.m.fns[*f as usize].name.clone()),
                    Callee::Ext(n) => (None, n.clone()),
                    Callee::Ind(o) => {
                        let p = self.opd(st, o);
                        let a = self.conc(st, &p)?;
                        let id = (a >> 24 & 0xfffff) as usize;
                        if a >> 44 != R_FN || id >= self.m.fns.len() {
                            return Err(Halt::Fault(
                                "memory".into(),
                                format!("call of {:#x} in {}", a, self.location(st)),
                            ));
                        }
                        let d = &self.m.fns[id];
                        (if d.defined { Some(id as u32) } else { None }, d.name.clone())
                    }
                };
                let nr = *noreturn
                    || target.map_or(false, |t| self.m.fns[t as usize].noreturn);
                if nr
                    && &*name != "vx_stop"
                    && !name.contains("2vx4stop")
                    && !name.contains("5vkern4hang")
                {
                    let m = self.panic_text(st, &name, args, &vals);
                    return Err(Halt::Fault("panic".into(), m));
                }
                match target {
                    Some(t) => {
                        let f = self.m.func(t).map_err(Halt::Unsupported)?;
                        let mut regs = vec![V::C(0); f.nregs as usize];
                        for (i, p) in f.params.iter().enumerate() {
                            if i < vals.len() {
                                regs[*p as usize] = vals[i].clone();
                            }
                        }
                        let fr =
                            Frame { f, id: t, bb: 0, ip: 0, regs, allocas: Vec::new() };
                        let th = &mut st.threads[st.cur];
                        th.frames.push(Rc::new(fr));
                        let d = th.frames.len() as u64;
                        if d > self.stats.max_depth {
                            self.stats.max_depth = d;
                        }
                        if d > 200 {
                            return Err(Halt::Unsupported("call depth".into()));
                        }
                        return Ok(());
                    }
                    None => {
                        let r = self.external(st, &name, args, &vals, ret)?;
                        if let (Some(d), Some(v)) = (dst, r) {
                            self.set(st, *d, v);
                        }
                        if let Some(t) = normal {
                            self.jump(st, &func, bb, *t);
                            return Ok(());
                        }
                    }
                }
            }
        }
        self.adv(st);
        Ok(())
    }

    fn jump(&mut self, st: &mut State, func: &Rc<Func>, from: u32, to: u32) {
        let b = &func.blocks[to as usize];
        let mut vals = Vec::with_capacity(b.phis.len());
        for p in &b.phis {
            let o = p.from.iter().find(|x| x.1 == from).map(|x| &x.0);
            let v = match o {
                Some(o) => self.opd(st, o),
                None => V::C(0),
            };
            vals.push((p.dst, v));
        }
        let c = st.cur;
        let f = Rc::make_mut(st.threads[c].frames.last_mut().unwrap());
        for (d, v) in vals {
            f.regs[d as usize] = v;
        }
        f.bb = to;
        f.ip = 0;
    }

    fn ret(&mut self, st: &mut State, v: Option<V>) -> X<()> {
        let c = st.cur;
        let fr = st.threads[c].frames.pop().unwrap();
        if !fr.allocas.is_empty() {
            let reg = Rc::make_mut(&mut st.regions[2 + 2 * c]);
            for a in &fr.allocas {
                reg[*a as usize] = None;
            }
            while matches!(reg.last(), Some(None)) {
                reg.pop();
            }
        }
        if st.threads[c].frames.is_empty() {
            st.threads[c].st = Status::Done;
            if c == 0 {
                self.finish(st);
                return Err(Halt::End);
            }
            return Err(Halt::Park);
        }
        let f = Rc::make_mut(st.threads[c].frames.last_mut().unwrap());
        let func = f.f.clone();
        let bb = f.bb;
        if let I::Call { dst, normal, .. } = &func.blocks[bb as usize].ins[f.ip as usize] {
            if let (Some(d), Some(v)) = (dst, v) {
                f.regs[*d as usize] = v;
            }
            match normal {
                Some(t) => self.jump(st, &func, bb, *t),
                None => f.ip += 1,
            }
        }
        Ok(())
    }

    fn finish(&mut self, st: &State) {
        self.stats.paths += 1;
        self.stats.max_threads = self.stats.max_threads.max(st.threads.len() as u64);
        // Keep a spread of completed paths for comparison with the native build.
        let n = self.stats.paths;
        let take = self.samples.len() < self.lim.samples / 2
            || (n.is_power_of_two() && self.samples.len() < self.lim.samples);
        if take {
            let obs = list(&st.obs);
            let mut vals = Vec::new();
            for v in obs {
                vals.push(match v {
                    V::C(c) => c,
                    V::E(e) => self.cx.eval(e, &st.model) as u64,
                    _ => 0,
                });
            }
            let tape = self.tape(st, &st.model);
            self.samples.push(Sample { tape, obs: vals });
        }
    }

    fn panic_text(&self, st: &State, name: &str, args: &[(Ty, Opd)], vals: &[V]) -> String {
        let mut loc = String::new();
        let mut msg = String::new();
        for (k, v) in vals.iter().enumerate() {
            let a = match v {
                V::C(a) if args[k].0 == Ty::Ptr => *a,
                _ => continue,
            };
            // A string?
            if let Some(V::C(n)) = vals.get(k + 1) {
                if a >> 44 == R_CONST && *n > 0 && *n < 200 && args[k + 1].0 == Ty::Int(64) {
                    if self.find(st, a, *n, "").is_ok() {
                        msg = self.text(st, a, *n);
                    }
                }
            }
            if let Ok((o, off)) = self.find(st, a, 24, "") {
                if a >> 44 == R_CONST && off == 0 && o.bytes.len() == 24 {
                    let g = |i: usize| {
                        u64::from_le_bytes(o.bytes[i * 8..i * 8 + 8].try_into().unwrap())
                    };
                    let (p, n, lc) = (g(0), g(1), g(2));
                    if p >> 44 == R_CONST && n < 300 {
                        loc = format!(" at {}:{}", self.text(st, p, n), lc & 0xffffffff);
                    }
                }
            }
        }
        let short = name.trim_start_matches("_R");
        format!("panic{} {} [{} from {}]", loc, msg, short, self.location(st))
    }

    // ------------------------------------------------------------ environment

    fn external(
        &mut self,
        st: &mut State,
        name: &str,
        args: &[(Ty, Opd)],
        v: &[V],
        ret: &Ty,
    ) -> X<Option<V>> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, args, v, ret);
        }
        match name {
            "vx_sym" => {
                let bits = self.conc(st, &v[2])? as u32;
                let p = self.conc(st, &v[0])?;
                let n = self.conc(st, &v[1])?;
                let nm = self.text(st, p, n);
                let t = st.cur;
                let seq = st.threads[t].vars.len() as u32;
                let e = self.cx.var(&nm, bits as u8, t as u32, seq);
                let id = match self.cx.node(e) {
                    Node::Var(i) => i,
                    _ => unreachable!(),
                };
                Rc::make_mut(&mut st.threads[t].vars).push(id);
                let z = self.cx.zext(e, 64);
                Ok(Some(self.v(z)))
            }
            "vx_assume" => {
                let c = self.icmp(Pred::Ne, 32, &v[0], &V::C(0));
                match c {
                    V::C(1) => {}
                    V::C(_) => {
                        self.stats.pruned += 1;
                        return Err(Halt::End);
                    }
                    V::E(c) => self.assume(st, c)?,
                    _ => {}
                }
                Ok(None)
            }
            "vx_assert" => {
                let p = self.conc(st, &v[1])?;
                let n = self.conc(st, &v[2])?;
                let msg = self.text(st, p, n);
                self.stats.asserts += 1;
                *self.asserts.entry(msg.clone()).or_insert(0) += 1;
                let c = self.icmp(Pred::Ne, 32, &v[0], &V::C(0));
                match c {
                    V::C(1) => {}
                    V::C(_) => return Err(Halt::Fault("assert".into(), msg)),
                    V::E(c) => {
                        self.stats.asserts_symbolic += 1;
                        let known = st.known.get(&c).copied();
                        if known == Some(1) {
                            return Ok(None);
                        }
                        let neg = self.cx.not(c);
                        match self.cx.feasible(&st.path, neg) {
                            Ans::Unsat => {
                                Rc::make_mut(&mut st.known).insert(c, 1);
                            }
                            Ans::Sat(m) => {
                                let m = self.overlay(&st.model, &m);
                                self.violation(st, "assert", &msg, Some(&m));
                                self.assume(st, c)?;
                            }
                            Ans::Unknown => {
                                self.incomplete
                                    .insert(format!("solver gave no answer on: {}", msg));
                                self.assume(st, c)?;
                            }
                        }
                    }
                    _ => {}
                }
                Ok(None)
            }
            "vx_cover" => {
                let p = self.conc(st, &v[0])?;
                let n = self.conc(st, &v[1])?;
                let t = self.text(st, p, n);
                self.covers.insert(t);
                Ok(None)
            }
            "vx_observe" => {
                push(&mut st.obs, v[0].clone());
                Ok(None)
            }
            "vx_yield" => Err(Halt::Park),
            "vx_block" => {
                let timed = self.conc(st, &v[0])? != 0;
                let c = st.cur;
                st.threads[c].st = Status::Blocked { timed, woken: false };
                Err(Halt::Park)
            }
            "vx_wake" => {
                for t in st.threads.iter_mut() {
                    if let Status::Blocked { timed, .. } = t.st {
                        t.st = Status::Blocked { timed, woken: true };
                    }
                }
                Ok(None)
            }
            "vx_spawn" => {
                let a = self.conc(st, &v[0])?;
                let id = (a >> 24 & 0xfffff) as u32;
                let f = self.m.func(id).map_err(Halt::Unsupported)?;
                let mut regs = vec![V::C(0); f.nregs as usize];
                if !f.params.is_empty() {
                    regs[f.params[0] as usize] = v[1].clone();
                }
                let t = st.threads.len();
                st.regions.push(Rc::new(Vec::new()));
                st.regions.push(Rc::new(Vec::new()));
                let fr = Frame { f, id, bb: 0, ip: 0, regs, allocas: Vec::new() };
                st.threads.push(Thread {
                    frames: vec![Rc::new(fr)],
                    st: Status::Fresh,
                    vars: Rc::new(Vec::new()),
                });
                Ok(Some(V::C(t as u64)))
            }
            "vx_join" => {
                let t = self.conc(st, &v[0])? as u32;
                let c = st.cur;
                st.threads[c].st = Status::Joining(t);
                Err(Halt::Park)
            }
            "vx_tid" => Ok(Some(V::C(st.cur as u64))),
            "vx_stop" => {
                self.stats.stops += 1;
                Err(Halt::End)
            }
            "malloc" | "calloc" => {
                let mut n = self.conc(st, &v[0])?;
                if name == "calloc" {
                    n *= self.conc(st, &v[1])?;
                }
                let r = 1 + 2 * st.cur;
                let a = self.alloc(st, r, n)?;
                Ok(Some(V::C(a)))
            }
            "aligned_alloc" => {
                let n = self.conc(st, &v[1])?;
                let r = 1 + 2 * st.cur;
                Ok(Some(V::C(self.alloc(st, r, n)?)))
            }
            "posix_memalign" => {
                let n = self.conc(st, &v[2])?;
                let p = self.conc(st, &v[0])?;
                let r = 1 + 2 * st.cur;
                let a = self.alloc(st, r, n)?;
                self.store(st, &V::C(p), &Ty::Ptr, &V::C(a))?;
                Ok(Some(V::C(0)))
            }
            "realloc" => {
                let p = self.conc(st, &v[0])?;
                let n = self.conc(st, &v[1])?;
                let r = 1 + 2 * st.cur;
                let a = self.alloc(st, r, n)?;
                if p != 0 {
                    let (o, _) = self.find(st, p, 0, "realloc")?;
                    let k = (o.bytes.len() as u64).min(n);
                    self.copy(st, a, p, k)?;
                    self.free(st, p)?;
                }
                Ok(Some(V::C(a)))
            }
            // The destructors of thread-local variables are not run.
            "__cxa_thread_atexit_impl" => Ok(Some(V::C(0))),
            "free" => {
                let p = self.conc(st, &v[0])?;
                self.free(st, p)?;
                Ok(None)
            }
            "bcmp" | "memcmp" => {
                let a = self.conc(st, &v[0])?;
                let b = self.conc(st, &v[1])?;
                let n = self.conc(st, &v[2])?;
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let (x, xo) = self.find(st, a, n, "read")?;
                let (y, yo) = self.find(st, b, n, "read")?;
                // Right to left, so that the first difference decides.
                let mut r = self.cx.konst(0, 32);
                for k in (0..n as u32).rev() {
                    let p = self.read_scalar(&x, xo + k, 1);
                    let q = self.read_scalar(&y, yo + k, 1);
                    let p = self.e(&p, 8);
                    let q = self.e(&q, 8);
                    let eq = self.cx.bin(Op::Eq, p, q);
                    let lt = self.cx.bin(Op::Ult, p, q);
                    let one = self.cx.konst(1, 32);
                    let m1 = self.cx.konst(mask(32), 32);
                    let d = if name == "bcmp" { one } else { self.cx.ite(lt, m1, one) };
                    r = self.cx.ite(eq, r, d);
                }
                Ok(Some(self.v(r)))
            }
            "strlen" => {
                let a = self.conc(st, &v[0])?;
                let mut n = 0;
                loop {
                    let c = self.load(st, &V::C(a + n), &Ty::Int(8))?;
                    if self.conc(st, &c)? == 0 {
                        return Ok(Some(V::C(n)));
                    }
                    n += 1;
                }
            }
            _ => Err(Halt::Unsupported(format!("call of {} in {}", name, self.location(st)))),
        }
    }

    fn assume(&mut self, st: &mut State, c: Eid) -> X<()> {
        if self.cx.eval(c, &st.model) == 1 {
            st.path.push(c);
            Rc::make_mut(&mut st.known).insert(c, 1);
            return Ok(());
        }
        match self.cx.feasible(&st.path, c) {
            Ans::Sat(m) => {
                st.model = self.overlay(&st.model, &m);
                st.path.push(c);
                Rc::make_mut(&mut st.known).insert(c, 1);
                Ok(())
            }
            Ans::Unsat => {
                self.stats.pruned += 1;
                Err(Halt::End)
            }
            Ans::Unknown => {
                self.incomplete.insert("solver gave no answer on an assumption".into());
                Err(Halt::End)
            }
        }
    }

    fn intrinsic(
        &mut self,
        st: &mut State,
        n: &str,
        args: &[(Ty, Opd)],
        v: &[V],
        ret: &Ty,
    ) -> X<Option<V>> {
        let w = args.first().map_or(0, |a| width(&a.0));
        let is = |p: &str| n.starts_with(p);
        if is("memcpy") || is("memmove") {
            let len = self.conc(st, &v[2])?;
            let d = self.conc(st, &v[0])?;
            let s = self.conc(st, &v[1])?;
            self.copy(st, d, s, len)?;
            return Ok(None);
        }
        if is("memset") {
            let len = self.conc(st, &v[2])?;
            let d = self.conc(st, &v[0])?;
            let c = self.conc(st, &v[1])? as u8;
            if len > 0 {
                self.with_mut(st, d, len, |o, off| {
                    o.clear_sym(off, len as u32);
                    o.bytes[off as usize..(off as u64 + len) as usize].fill(c);
                })?;
            }
            return Ok(None);
        }
        if is("lifetime.end") {
            let p = self.conc(st, v.last().unwrap())?;
            if p != 0 {
                let (o, off) = self.find(st, p, 0, "lifetime end")?;
                if off == 0 && (!o.sym.is_empty() || o.bytes.iter().any(|b| *b != 0)) {
                    let k = o.bytes.len() as u64;
                    self.with_mut(st, p, k, |o, _| {
                        o.sym.clear();
                        o.bytes.fill(0);
                    })?;
                }
            }
            return Ok(None);
        }
        if is("is.constant") {
            return Ok(Some(V::C(0)));
        }
        if is("expect") {
            return Ok(Some(v[0].clone()));
        }
        if is("threadlocal.address") {
            if st.cur == 0 {
                return Ok(Some(v[0].clone()));
            }
            let g = self.conc(st, &v[0])?;
            if let Some(a) = st.tls.get(&(st.cur, g)) {
                return Ok(Some(V::C(*a)));
            }
            let init = match self.globals.get((g >> 24 & 0xfffff) as usize) {
                Some(Some(o)) if g >> 44 == R_GLOBAL => o.clone(),
                _ => return Err(Halt::Unsupported(format!("thread-local variable in {}", self.location(st)))),
            };
            let r = 1 + 2 * st.cur;
            let a = self.alloc(st, r, init.bytes.len() as u64)?;
            self.with_mut(st, a, 0, |t, _| *t = (*init).clone())?;
            Rc::make_mut(&mut st.tls).insert((st.cur, g), a);
            return Ok(Some(V::C(a)));
        }
        if is("trap") {
            return Err(Halt::Fault("panic".into(), format!("trap in {}", self.location(st))));
        }
        let float_fn = n.split('.').next().unwrap_or("");
        if ["fptosi", "fptoui", "floor", "ceil", "trunc", "round", "roundeven", "rint", "nearbyint", "fabs",
            "minnum", "maxnum", "minimum", "maximum", "minimumnum", "maximumnum", "sqrt", "copysign"]
            .contains(&float_fn)
        {
            let x = self.sample(st, &v[0])?;
            let y = if v.len() > 1 { self.sample(st, &v[1])? } else { 0 };
            let name = if n.contains(".sat") { format!("{float_fn}.sat") } else { float_fn.to_string() };
            return match float(&name, w, width(ret), x, y) {
                Some(r) => Ok(Some(V::C(r))),
                None => Err(Halt::Unsupported(format!("intrinsic {} in {}", n, self.location(st)))),
            };
        }
        for (p, pr) in [
            ("umin", Pred::Ult),
            ("umax", Pred::Ugt),
            ("smin", Pred::Slt),
            ("smax", Pred::Sgt),
        ] {
            if is(p) {
                let c = self.icmp(pr, w, &v[0], &v[1]);
                let c = self.e(&c, 1);
                return Ok(Some(self.select(ret, c, &v[0], &v[1])));
            }
        }
        if is("ucmp") || is("scmp") {
            let (lt, gt) = if is("ucmp") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let a = self.icmp(lt, w, &v[0], &v[1]);
            let b = self.icmp(gt, w, &v[0], &v[1]);
            let rw = width(ret);
            let a = self.e(&a, 1);
            let b = self.e(&b, 1);
            let m1 = self.cx.konst(mask(rw as u8), rw as u8);
            let one = self.cx.konst(1, rw as u8);
            let z = self.cx.konst(0, rw as u8);
            let x = self.cx.ite(b, one, z);
            let r = self.cx.ite(a, m1, x);
            return Ok(Some(self.v(r)));
        }
        if n.contains(".with.overflow") {
            let signed = n.starts_with('s');
            let op = &n[1..4];
            let x = self.e(&v[0], w);
            let y = self.e(&v[1], w);
            let o = match op {
                "add" => Op::Add,
                "sub" => Op::Sub,
                _ => Op::Mul,
            };
            let r = self.cx.bin(o, x, y);
            let ov = if !signed && o == Op::Add {
                self.cx.bin(Op::Ult, r, x)
            } else if !signed && o == Op::Sub {
                self.cx.bin(Op::Ult, x, y)
            } else if o != Op::Mul {
                // Signs: of x and y (or not y) equal, of the result different.
                let a = self.cx.bin(Op::Xor, x, r);
                let b = if o == Op::Add { y } else { x };
                let c = if o == Op::Add { r } else { y };
                let b = self.cx.bin(Op::Xor, b, c);
                let a = self.cx.bin(Op::And, a, b);
                self.cx.ext(w as u8 - 1, w as u8 - 1, a)
            } else if w == 128 && !signed {
                let half = |s: &mut Ctx, e, hi: bool| {
                    let h = if hi { s.ext(127, 64, e) } else { s.ext(63, 0, e) };
                    s.zext(h, 128)
                };
                let (xh, xl) = (half(&mut self.cx, x, true), half(&mut self.cx, x, false));
                let (yh, yl) = (half(&mut self.cx, y, true), half(&mut self.cx, y, false));
                let z = self.cx.konst(0, 128);
                let a = self.cx.bin(Op::Eq, xh, z);
                let b = self.cx.bin(Op::Eq, yh, z);
                let ab = self.cx.bin(Op::Or, a, b);
                let both = self.cx.not(ab);
                // One of the summands is zero, if not both high halves are set.
                let c1 = self.cx.bin(Op::Mul, xh, yl);
                let c2 = self.cx.bin(Op::Mul, xl, yh);
                let c = self.cx.bin(Op::Or, c1, c2);
                let ch = half(&mut self.cx, c, true);
                let big = self.cx.bin(Op::Eq, ch, z);
                let big = self.cx.not(big);
                let lo = self.cx.bin(Op::Mul, xl, yl);
                let carry = self.cx.bin(Op::Ult, r, lo);
                let o1 = self.cx.bin(Op::Or, both, big);
                self.cx.bin(Op::Or, o1, carry)
            } else {
                let ww = 2 * w;
                if ww > 128 {
                    return Err(Halt::Unsupported(n.into()));
                }
                let f = |s: &mut Ctx, e| {
                    if signed {
                        s.sext(e, ww as u8)
                    } else {
                        s.zext(e, ww as u8)
                    }
                };
                let x2 = f(&mut self.cx, x);
                let y2 = f(&mut self.cx, y);
                let r2 = self.cx.bin(o, x2, y2);
                let r3 = f(&mut self.cx, r);
                let eq = self.cx.bin(Op::Eq, r2, r3);
                self.cx.not(eq)
            };
            let r = self.v(r);
            let ov = self.v(ov);
            return Ok(Some(V::A(Rc::new(vec![r, ov]))));
        }
        if is("uadd.sat") {
            let r = self.bin(Op::Add, w, &v[0], &v[1]);
            let ov = self.icmp(Pred::Ult, w, &r, &v[0]);
            let ov = self.e(&ov, 1);
            let m = self.cx.konst(mask(w as u8), w as u8);
            let m = self.v(m);
            return Ok(Some(self.select(ret, ov, &m, &r)));
        }
        if is("sadd.sat") || is("ssub.sat") {
            // One bit more is enough to see the overflow.
            let a = self.e(&v[0], w);
            let b = self.e(&v[1], w);
            let w1 = w as u8 + 1;
            let (a, b) = (self.cx.sext(a, w1), self.cx.sext(b, w1));
            let op = if is("sadd.sat") { Op::Add } else { Op::Sub };
            let r = self.cx.bin(op, a, b);
            let max = self.cx.konst(mask(w as u8 - 1), w1);
            let min = self.cx.konst((mask(w1) - mask(w as u8 - 1)) & mask(w1), w1);
            let hi = self.cx.bin(Op::Slt, max, r);
            let lo = self.cx.bin(Op::Slt, r, min);
            let x = self.cx.ite(hi, max, r);
            let x = self.cx.ite(lo, min, x);
            let x = self.cx.ext(w as u8 - 1, 0, x);
            return Ok(Some(self.v(x)));
        }
        if is("usub.sat") {
            let r = self.bin(Op::Sub, w, &v[0], &v[1]);
            let ov = self.icmp(Pred::Ult, w, &v[0], &v[1]);
            let ov = self.e(&ov, 1);
            let z = self.zero_v(ret);
            return Ok(Some(self.select(ret, ov, &z, &r)));
        }
        if is("ushl.sat") || is("sshl.sat") {
            let r = self.bin(Op::Shl, w, &v[0], &v[1]);
            let signed = is("sshl.sat");
            let back = self.bin(if signed { Op::AShr } else { Op::LShr }, w, &r, &v[1]);
            let ok = self.icmp(Pred::Eq, w, &back, &v[0]);
            let ok = self.e(&ok, 1);
            let lim = if !signed {
                let m = self.cx.konst(mask(w as u8), w as u8);
                self.v(m)
            } else {
                let max = self.cx.konst(mask(w as u8 - 1), w as u8);
                let min = self.cx.konst(mask(w as u8) - mask(w as u8 - 1), w as u8);
                let (max, min) = (self.v(max), self.v(min));
                let z = self.zero_v(ret);
                let neg = self.icmp(Pred::Slt, w, &v[0], &z);
                let neg = self.e(&neg, 1);
                self.select(ret, neg, &min, &max)
            };
            return Ok(Some(self.select(ret, ok, &r, &lim)));
        }
        if is("bitreverse") {
            let e = self.e(&v[0], w);
            let mut r = self.cx.ext(0, 0, e);
            for i in 1..w {
                let b = self.cx.ext(i as u8, i as u8, e);
                r = self.cx.concat(r, b);
            }
            return Ok(Some(self.v(r)));
        }
        if is("abs") {
            let z = self.zero_v(ret);
            let neg = self.bin(Op::Sub, w, &z, &v[0]);
            let c = self.icmp(Pred::Slt, w, &v[0], &z);
            let c = self.e(&c, 1);
            return Ok(Some(self.select(ret, c, &neg, &v[0])));
        }
        if is("fshl") || is("fshr") {
            let sh = match as_c(&v[2]) {
                Some(s) => (s % w as u64) as u32,
                None => self.conc(st, &v[2])? as u32 % w,
            };
            let left = if is("fshl") { sh } else { (w - sh) % w };
            if left == 0 {
                return Ok(Some(if is("fshl") { v[0].clone() } else { v[1].clone() }));
            }
            let a = self.bin(Op::Shl, w, &v[0], &V::C(left as u64));
            let b = self.bin(Op::LShr, w, &v[1], &V::C((w - left) as u64));
            return Ok(Some(self.bin(Op::Or, w, &a, &b)));
        }
        if is("ctpop") || is("cttz") || is("ctlz") {
            let e = self.e(&v[0], w);
            let k = |s: &mut Ctx, x: u32| s.konst(x as u128, w as u8);
            let mut r = if is("ctpop") { k(&mut self.cx, 0) } else { k(&mut self.cx, w) };
            for i in 0..w {
                // The bit that decides is examined last.
                let i = if is("cttz") { w - 1 - i } else { i };
                let b = self.cx.ext(i as u8, i as u8, e);
                if is("ctpop") {
                    let z = self.cx.zext(b, w as u8);
                    r = self.cx.bin(Op::Add, r, z);
                } else {
                    let c = k(&mut self.cx, if is("cttz") { i } else { w - 1 - i });
                    r = self.cx.ite(b, c, r);
                }
            }
            return Ok(Some(self.v(r)));
        }
        if is("bswap") {
            let e = self.e(&v[0], w);
            let mut r: Option<Eid> = None;
            for i in 0..w / 8 {
                let b = self.cx.ext((i * 8 + 7) as u8, (i * 8) as u8, e);
                r = Some(match r {
                    None => b,
                    Some(x) => self.cx.concat(x, b),
                });
            }
            return Ok(Some(self.v(r.unwrap())));
        }
        Err(Halt::Unsupported(format!("intrinsic {} in {}", n, self.location(st))))
    }
}

/// Concrete floating-point arithmetic on the bits of values.
fn float(op: &str, fw: u32, tw: u32, x: u64, y: u64) -> Option<u64> {
    let int_in = matches!(op, "uitofp" | "sitofp");
    if !matches!((int_in, fw), (false, 32 | 64) | (true, _)) {
        return None;
    }
    // Single precision: the operations below are exact enough in double precision, because the
    // result of one operation rounds the same way twice.
    let get = |b: u64| if fw == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
    let put = |v: f64| match tw {
        32 => Some((v as f32).to_bits() as u64),
        64 => Some(v.to_bits()),
        _ => None,
    };
    if int_in {
        let sh = 64 - fw;
        let s = ((x << sh) as i64) >> sh;
        return match (op, tw) {
            ("uitofp", 32) => Some((x as f32).to_bits() as u64),
            ("uitofp", _) => put(x as f64),
            (_, 32) => Some((s as f32).to_bits() as u64),
            _ => put(s as f64),
        };
    }
    let (a, b) = (get(x), get(y));
    if let Some(p) = op.strip_prefix("fcmp ") {
        let un = a.is_nan() || b.is_nan();
        let r = match &p[1..] {
            "eq" => a == b,
            "ne" => !un && a != b,
            "lt" => a < b,
            "le" => a <= b,
            "gt" => a > b,
            "ge" => a >= b,
            "rd" => !un,
            "no" => false,
            _ => match p {
                "true" => return Some(1),
                "false" => return Some(0),
                _ => return None,
            },
        };
        return Some((r || (p.starts_with('u') && un)) as u64);
    }
    let im = if tw >= 64 { u64::MAX } else { (1u64 << tw) - 1 };
    match op {
        "fadd" => put(a + b),
        "fsub" => put(a - b),
        "fmul" => put(a * b),
        "fdiv" => put(a / b),
        "frem" => put(a % b),
        "fneg" => put(-a),
        "fpext" | "fptrunc" => put(a),
        "floor" => put(a.floor()),
        "ceil" => put(a.ceil()),
        "trunc" => put(a.trunc()),
        "round" => put(a.round()),
        "roundeven" | "rint" | "nearbyint" => put(a.round_ties_even()),
        "fabs" => put(a.abs()),
        "sqrt" => put(a.sqrt()),
        "copysign" => put(a.copysign(b)),
        "minnum" | "minimumnum" => put(a.min(b)),
        "maxnum" | "maximumnum" => put(a.max(b)),
        "fptoui" | "fptoui.sat" => Some(if tw == 64 { a as u64 } else { (a as u64).min(im) }),
        "fptosi" | "fptosi.sat" => {
            let h = (im >> 1) as i64;
            Some((a as i64).clamp(-h - 1, h) as u64 & im)
        }
        _ => None,
    }
}
