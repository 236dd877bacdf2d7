//! Symbolic interpreter. One operating-system process per path: a branch whose two sides are both
//! satisfiable under the path condition forks.
use crate::ir::*;
use crate::mem::*;
use crate::parse::{mask, sext, Lex, Module, EXT_BASE, FN_BASE, GLOBAL_BASE};
use crate::solver::{Ast, Res, Solver};
use crate::term::*;
use std::collections::HashMap;
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::{Relaxed, SeqCst}};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn usleep(u: u32) -> i32;
    fn alarm(s: u32) -> u32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub const NLAB: usize = 512;
#[repr(C)]
pub struct Label {
    pub used: AtomicU64,
    pub count: AtomicU64,
    pub name: [AtomicU8; 112],
}
#[repr(C)]
pub struct Shared {
    pub tokens: AtomicI64,
    pub stop: AtomicBool,
    pub first_viol_ms: AtomicU64, // since the deadline clock started, plus one
    pub paths: AtomicU64,
    pub panics: AtomicU64,
    pub assumed_out: AtomicU64,
    pub instrs: AtomicU64,
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub solver_us: AtomicU64,
    pub forks: AtomicU64,
    pub asserts: AtomicU64,
    pub discharged: AtomicU64,
    pub trivial: AtomicU64,
    pub violations: AtomicU64,
    pub errors: AtomicU64,
    pub samples: AtomicU64,
    pub maxq_us: AtomicU64,
    pub tabled: AtomicU64,
    pub cov: [AtomicU8; 65536],
    pub ncov: AtomicU64,
    pub covlist: [AtomicU32; 65536],
    pub labels: [Label; NLAB],
}

#[derive(Default)]
pub struct Stats {
    instrs: u64,
    queries: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    us: u64,
    asserts: u64,
    discharged: u64,
    trivial: u64,
    maxq: u64,
    tabled: u64,
}

pub struct Frame {
    pub f: *const Func,
    pub base: usize,
    pub blk: u32,
    pub ip: u32,
    pub sp: u64,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

pub struct Cfg {
    pub rlimit: u32,
    pub rlimit_heavy: u32,
    pub tactic: String,
    pub deadline: Instant,
    pub start: Instant,
    pub grace: u64, // seconds to go on after the first violation, 0 = no limit
    pub max_instr: u64,
    pub max_viol: u64,
    pub events: String,
    pub verbose: bool,
    pub nopanic_default: bool,
    pub max_samples: u64,
    pub ite_limit: u64,
    pub no_table: bool,
}

pub struct Eng {
    pub m: Module,
    pub ts: Terms,
    pub sol: Solver,
    pub mem: Mem,
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub pc: Vec<T>,
    pub pending: Vec<T>,
    pub npcfp: usize,
    pub model: Vec<u128>,
    /// The model need not satisfy the path condition: the solver could not tell whether the path is feasible.
    pub loose: bool,
    brief: bool,
    pub memo: FxMap<T, u128>,
    pub known: FxMap<T, bool>,
    pub inputs: Vec<(String, T)>,
    pub notes: Vec<String>,
    pub printed: u64,
    pub sh: &'static Shared,
    pub st: Stats,
    pub cfg: Cfg,
    pub children: Vec<i32>,
    pub ext_kind: Vec<u16>,
    pub fn_kind: Vec<u16>,
    pub rings: Vec<RNode>,
    pub ring_idx: HashMap<RNode, u32>,
    pub ring_ast: HashMap<u32, Ast>,
    pub ring_known: HashMap<(u32, u32), bool>,
    pub nopanic: Option<String>,
    pub cones: crate::live::Cones,
    pub live: crate::live::Live,
    pub root: bool,
    pub synced: u64,
    qstat: bool,
    phitmp: Vec<(u32, Val)>,
    pub stop_at_depth: usize,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum RNode {
    Var(String),
    Const(String),
    Bin(u8, u32, u32),
    Uf(String, Vec<u32>),
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 8);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

impl Eng {
    pub fn new(m: Module, sh: &'static Shared, cfg: Cfg) -> Eng {
        let gend = m.globals.iter().map(|g| g.addr + g.ty.size().max(1)).max().unwrap_or(GLOBAL_BASE) + 65536;
        let mem = Mem::new(GLOBAL_BASE, gend);
        let sol = Solver::new(cfg.rlimit);
        let nf = m.fns.len();
        let mut e = Eng {
            m,
            ts: Terms::new(),
            sol,
            mem,
            frames: vec![],
            regs: vec![],
            pc: vec![],
            pending: vec![],
            npcfp: 0,
            model: vec![],
            loose: false,
            brief: false,
            memo: Default::default(),
            known: Default::default(),
            inputs: vec![],
            notes: vec![],
            printed: 0,
            sh,
            st: Stats::default(),
            cfg,
            children: vec![],
            ext_kind: vec![],
            fn_kind: vec![0; nf],
            rings: vec![],
            ring_idx: HashMap::new(),
            ring_ast: HashMap::new(),
            ring_known: HashMap::new(),
            nopanic: None,
            cones: Default::default(),
            live: Default::default(),
            root: true,
            synced: 0,
            qstat: std::env::var("LLSYM_QSTAT").is_ok(),
            phitmp: vec![],
            stop_at_depth: 0,
        };
        e.init_globals();
        e.init_hooks();
        e
    }

    fn init_globals(&mut self) {
        for i in 0..self.m.globals.len() {
            let g = &self.m.globals[i];
            if let Some(init) = g.init {
                let mut lx = Lex::new(init);
                match self.m.constant(&mut lx, &g.ty) {
                    Ok(v) => {
                        let (a, t) = (g.addr, g.ty.clone());
                        self.init_val(a, &t, &v);
                    }
                    Err(e) => {
                        if self.cfg.verbose {
                            eprintln!("global {}: {}", g.name, e);
                        }
                    }
                }
            }
        }
    }
    fn init_val(&mut self, a: u64, t: &Ty, v: &Val) {
        match (t, v) {
            (_, Val::I(x)) => self.mem.store(a, *x as u128, t.store_size()),
            (_, Val::W(x)) => self.mem.store(a, *x, t.store_size()),
            (_, Val::P) => {}
            (_, Val::A(xs)) => {
                for (i, x) in xs.iter().enumerate() {
                    let o = t.field_off(i);
                    self.init_val(a + o, &t.field_ty(i), x);
                }
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- process control
    fn try_token(&self) -> bool {
        let t = self.sh.tokens.fetch_sub(1, SeqCst);
        if t > 0 {
            true
        } else {
            self.sh.tokens.fetch_add(1, SeqCst);
            false
        }
    }
    fn get_token(&self) {
        while !self.try_token() {
            unsafe { usleep(300) };
        }
    }
    fn flush_stats(&mut self) {
        let s = std::mem::take(&mut self.st);
        let sh = self.sh;
        sh.instrs.fetch_add(s.instrs, SeqCst);
        sh.queries.fetch_add(s.queries, SeqCst);
        sh.sat.fetch_add(s.sat, SeqCst);
        sh.unsat.fetch_add(s.unsat, SeqCst);
        sh.unknown.fetch_add(s.unknown, SeqCst);
        sh.solver_us.fetch_add(s.us, SeqCst);
        sh.asserts.fetch_add(s.asserts, SeqCst);
        sh.discharged.fetch_add(s.discharged, SeqCst);
        sh.trivial.fetch_add(s.trivial, SeqCst);
        sh.maxq_us.fetch_max(s.maxq, SeqCst);
        sh.tabled.fetch_add(s.tabled, SeqCst);
    }
    /// Parses the functions other workers have met, so that workers forked from here need not.
    pub fn sync_parsed(&mut self) {
        let n = self.sh.ncov.load(Relaxed);
        while self.synced < n {
            let i = self.sh.covlist[self.synced as usize].load(SeqCst);
            if i == 0 {
                break;
            }
            let _ = self.m.func(i - 1);
            self.synced += 1;
        }
    }
    /// Returns true in the child.
    pub fn fork(&mut self) -> bool {
        self.flush_stats();
        self.sh.forks.fetch_add(1, SeqCst);
        self.sync_parsed();
        let par = self.try_token();
        let pid = unsafe { fork() };
        if pid < 0 {
            self.error("fork failed");
            self.end();
        }
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            self.watchdog();
            self.children.clear();
            self.root = false;
            return true;
        }
        if par {
            self.children.push(pid);
        } else {
            self.reap(pid);
            self.get_token();
        }
        false
    }
    /// A worker that is stuck in the solver ends some time after the deadline, which counts as an error.
    pub fn watchdog(&self) {
        let left = self.cfg.deadline.saturating_duration_since(Instant::now()).as_secs();
        unsafe { alarm(left as u32 + 20) };
    }
    fn reap(&mut self, pid: i32) {
        let mut st = 0;
        unsafe {
            loop {
                let r = waitpid(pid, &mut st, 0);
                if r == pid || r < 0 && *libc_errno() != 4 {
                    break;
                }
            }
        }
        if st != 0 {
            self.error(&format!("worker ended with status {:x}", st));
        }
    }
    pub fn event(&self, line: &str) {
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(&self.cfg.events) {
            let _ = f.write_all(format!("{}\n", line).as_bytes());
        }
    }
    pub fn error(&mut self, msg: &str) {
        let n = self.sh.errors.fetch_add(1, SeqCst);
        if n < 40 {
            let tr = self.trace(6);
            let ij = self.inputs_json();
            self.event(&format!("{{\"ev\":\"error\",\"msg\":\"{}\",\"at\":\"{}\",\"inputs\":{}}}", esc(msg), esc(&tr), ij));
        }
    }
    pub fn trace(&self, n: usize) -> String {
        self.frames.iter().rev().take(n).map(|f| unsafe { (*f.f).name.clone() }).collect::<Vec<_>>().join(" < ")
    }
    pub fn fatal(&mut self, msg: &str) -> ! {
        self.error(msg);
        self.end()
    }
    /// End of the current path.
    pub fn end(&mut self) -> ! {
        self.flush_stats();
        self.sh.tokens.fetch_add(1, SeqCst);
        let ch = std::mem::take(&mut self.children);
        for c in ch {
            self.reap(c);
        }
        unsafe { _exit(0) }
    }
    pub fn end_path(&mut self) -> ! {
        self.sh.paths.fetch_add(1, SeqCst);
        let k = self.sh.samples.fetch_add(1, SeqCst);
        if k < self.cfg.max_samples && !self.loose {
            let s = format!(
                "{{\"ev\":\"sample\",\"path\":{},\"notes\":[{}],\"path_condition_size\":{},\"inputs\":{}}}",
                k,
                self.notes.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(","),
                self.pc.len(),
                self.inputs_json()
            );
            self.event(&s);
        }
        self.end()
    }
    pub fn inputs_json(&mut self) -> String {
        let mut o = vec![];
        for (n, t) in self.inputs.clone() {
            let v = self.ev(t);
            o.push(format!("[\"{}\",{}]", esc(&n), v));
        }
        format!("[{}]", o.join(","))
    }
    pub fn label(&self, name: &str) {
        let mut h = 0usize;
        for b in name.bytes() {
            h = h.wrapping_mul(31).wrapping_add(b as usize);
        }
        let hv = (h as u64) | 1;
        let mut i = h % NLAB;
        for _ in 0..NLAB {
            let l = &self.sh.labels[i];
            let u = l.used.load(SeqCst);
            if u == 0 && l.used.compare_exchange(0, hv, SeqCst, SeqCst).is_ok() {
                for (k, b) in name.bytes().take(111).enumerate() {
                    l.name[k].store(b, SeqCst);
                }
                l.count.fetch_add(1, SeqCst);
                return;
            }
            if l.used.load(SeqCst) == hv {
                l.count.fetch_add(1, SeqCst);
                return;
            }
            i = (i + 1) % NLAB;
        }
    }
    fn check_deadline(&mut self) {
        if self.sh.stop.load(SeqCst) {
            self.end();
        }
        if self.cfg.grace > 0 {
            let f = self.sh.first_viol_ms.load(SeqCst);
            if f > 0 && self.cfg.start.elapsed().as_millis() as u64 > f + 1000 * self.cfg.grace {
                self.sh.stop.store(true, SeqCst);
                self.end();
            }
        }
        if Instant::now() > self.cfg.deadline {
            if !self.sh.stop.swap(true, SeqCst) {
                self.error("deadline exceeded");
            }
            self.end();
        }
    }

    // ---------------------------------------------------------------- values and terms
    pub fn ev(&mut self, t: T) -> u128 {
        self.ts.eval(t, &self.model, &mut self.memo)
    }
    pub fn term(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::S(t) => {
                debug_assert_eq!(self.ts.w(*t) as u32, w);
                *t
            }
            Val::I(x) => self.ts.cst(w as u16, *x as u128),
            Val::W(x) => self.ts.cst(w as u16, *x),
            Val::P => self.ts.cst(w as u16, 0),
            Val::A(_) => self.fatal("aggregate as scalar"),
        }
    }
    pub fn norm(&self, t: T) -> Val {
        match self.ts.as_const(t) {
            Some(c) => Self::cv(self.ts.w(t) as u32, c),
            None => Val::S(t),
        }
    }
    pub fn cv(w: u32, c: u128) -> Val {
        if w <= 64 {
            Val::I(c as u64)
        } else {
            Val::W(c)
        }
    }
    pub fn conc(v: &Val) -> Option<u128> {
        match v {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(*x),
            Val::P => Some(0),
            _ => None,
        }
    }

    // ---------------------------------------------------------------- path condition
    fn learn(&mut self, t: T, b: bool) {
        let n = self.ts.get(t);
        if n.k == K::Xor && n.w == 1 && self.ts.as_const(n.b) == Some(1) {
            return self.learn(n.a, !b);
        }
        self.known.insert(t, b);
        if n.w == 1 && ((n.k == K::And && b) || (n.k == K::Or && !b)) {
            self.learn(n.a, b);
            self.learn(n.b, b);
        }
    }
    fn lookup(&self, t: T) -> Option<bool> {
        let n = self.ts.get(t);
        if n.k == K::Const {
            return Some(n.imm != 0);
        }
        if n.k == K::Xor && n.w == 1 && self.ts.as_const(n.b) == Some(1) {
            return self.lookup(n.a).map(|b| !b);
        }
        if let Some(b) = self.known.get(&t) {
            return Some(*b);
        }
        if n.w == 1 && n.k == K::And {
            match (self.lookup(n.a), self.lookup(n.b)) {
                (Some(false), _) | (_, Some(false)) => return Some(false),
                (Some(true), Some(true)) => return Some(true),
                _ => {}
            }
        }
        if n.w == 1 && n.k == K::Or {
            match (self.lookup(n.a), self.lookup(n.b)) {
                (Some(true), _) | (_, Some(true)) => return Some(true),
                (Some(false), Some(false)) => return Some(false),
                _ => {}
            }
        }
        None
    }
    pub fn add_pc(&mut self, t: T) {
        if self.ts.as_const(t).is_some() {
            return;
        }
        self.pc.push(t);
        let vs = self.cone(t);
        self.live.add(&self.ts, t, &vs);
        if self.ts.fp[t as usize] {
            self.npcfp += 1;
        } else {
            self.pending.push(t);
        }
        self.learn(t, true);
    }
    /// The variables a term depends on (shared sets, computed once per term).
    fn cone(&mut self, t: T) -> Rc<Vec<u32>> {
        let mut cs = std::mem::take(&mut self.cones);
        let i = cs.of(&self.ts, t);
        let r = cs.sets[i as usize].clone();
        self.cones = cs;
        r
    }
    /// Conjuncts of the path condition that share variables (transitively) with t.
    fn slice(&mut self, t: T) -> (Vec<T>, Vec<u32>) {
        let mut vars: std::collections::HashSet<u32> = self.cone(t).iter().copied().collect();
        let pc = self.pc.clone();
        let cones: Vec<Rc<Vec<u32>>> = pc.iter().map(|x| self.cone(*x)).collect();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && cones[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(pc[i]);
                    vars.extend(cones[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        out.push(t);
        (out, vars.into_iter().collect())
    }
    /// Feasibility of a branch: from the explicit set of remaining assignments when there is one, else from the solver.
    fn feasible(&mut self, t: T) -> Res {
        if !self.cfg.no_table {
            if let Some(r) = self.tabled(t) {
                self.st.tabled += 1;
                return r;
            }
        }
        self.query(t)
    }
    fn tabled(&mut self, t: T) -> Option<Res> {
        let vs = self.cone(t);
        match self.live.ask(&self.ts, t, &vs) {
            crate::live::Ans::Unsat => Some(Res::Unsat),
            crate::live::Ans::Sat(a) => {
                let mut out: Vec<u128> = self.ts.vars.iter().enumerate().map(|(i, v)| self.model.get(i).copied().unwrap_or(v.lo)).collect();
                for (v, x) in a {
                    out[v as usize] = x;
                }
                Some(Res::Sat(out))
            }
            crate::live::Ans::DontKnow => None,
        }
    }
    /// A formula for a set of assignments: intervals of one variable with the same continuations are merged.
    fn rows_term(&mut self, vars: &[u32], mut rows: Vec<Vec<u128>>) -> T {
        if vars.is_empty() {
            return self.ts.bool(!rows.is_empty());
        }
        rows.sort();
        let mut parts: Vec<(u128, u128, Vec<Vec<u128>>)> = vec![];
        let mut i = 0;
        while i < rows.len() {
            let v = rows[i][0];
            let mut j = i;
            while j < rows.len() && rows[j][0] == v {
                j += 1;
            }
            let rest: Vec<Vec<u128>> = rows[i..j].iter().map(|r| r[1..].to_vec()).collect();
            match parts.last_mut() {
                Some(p) if p.1 + 1 == v && p.2 == rest => p.1 = v,
                _ => parts.push((v, v, rest)),
            }
            i = j;
        }
        let vt = self.ts.vars[vars[0] as usize].term;
        let w = self.ts.w(vt);
        let mut d = self.ts.bool(false);
        for (lo, hi, rest) in parts {
            let (l, h) = (self.ts.cst(w, lo), self.ts.cst(w, hi));
            let a = self.ts.cmp(Pred::Ule, l, vt);
            let b = self.ts.cmp(Pred::Ule, vt, h);
            let r = self.rows_term(&vars[1..], rest);
            let c = self.ts.bin(Bin::And, a, b);
            let c = self.ts.bin(Bin::And, c, r);
            d = self.ts.bin(Bin::Or, d, c);
        }
        d
    }
    /// A term equal to t on the remaining assignments: constant parts are folded, wide multiplications and
    /// divisions of few assignments become selections.
    fn specialise(&mut self, t: T, g: usize, vars: &[u32], rows: &[Vec<u128>], memo: &mut FxMap<T, T>) -> T {
        if let Some(x) = memo.get(&t) {
            return *x;
        }
        let n = self.ts.get(t);
        let r = if n.k == K::Const || n.k == K::Var {
            t
        } else {
            let mut done = None;
            let isfp = is_fp(n.k);
            if n.w > 1 || isfp {
                let v = self.live.values(&self.ts, t, g);
                if v.iter().all(|x| *x == v[0]) {
                    done = Some(self.ts.cst(n.w, v[0]));
                } else if isfp || matches!(n.k, K::UDiv | K::URem | K::SDiv | K::SRem | K::Mul) && rows.len() <= 512 && self.ts.rng[n.a as usize].1 > 4000 {
                    let it: Vec<(&[u128], u128)> = rows.iter().map(|r| &r[..]).zip(v).collect();
                    done = Some(self.selection(vars, n.w, it));
                }
            }
            match done {
                Some(x) => x,
                None => {
                    let mut f = |e: &mut Self, y: T| if y == NONE { NONE } else { e.specialise(y, g, vars, rows, memo) };
                    let (a, b, c) = (f(self, n.a), f(self, n.b), f(self, n.c));
                    if (a, b, c) == (n.a, n.b, n.c) {
                        t
                    } else {
                        self.ts.rebuild(n, a, b, c)
                    }
                }
            }
        };
        memo.insert(t, r);
        r
    }
    fn selection(&mut self, vars: &[u32], w: u16, mut rows: Vec<(&[u128], u128)>) -> T {
        if rows.iter().all(|r| r.1 == rows[0].1) {
            return self.ts.cst(w, rows[0].1);
        }
        rows.sort();
        let vt = self.ts.vars[vars[0] as usize].term;
        let vw = self.ts.w(vt);
        // (largest value of the variable, selection below it), in order
        let mut parts: Vec<(u128, T)> = vec![];
        let mut i = 0;
        while i < rows.len() {
            let v = rows[i].0[0];
            let mut j = i;
            while j < rows.len() && rows[j].0[0] == v {
                j += 1;
            }
            let rest = rows[i..j].iter().map(|r| (&r.0[1..], r.1)).collect();
            let x = self.selection(&vars[1..], w, rest);
            match parts.last_mut() {
                Some(p) if p.1 == x => p.0 = v,
                _ => parts.push((v, x)),
            }
            i = j;
        }
        let (_, mut r) = parts.pop().unwrap();
        for (hi, x) in parts.into_iter().rev() {
            let h = self.ts.cst(vw, hi);
            let c = self.ts.cmp(Pred::Ule, vt, h);
            r = self.ts.ite(c, x, r);
        }
        r
    }
    /// The negation of an assertion goes to the solver, with the path condition given as the remaining assignments when they are few.
    fn refute(&mut self, nc: T) -> Res {
        let vs = self.cone(nc);
        if !self.cfg.no_table {
            if let Some(rows) = self.live.rows(&self.ts, &vs, 4096) {
                self.check_deadline();
                let gv: Vec<u32> = rows.first().map(|r| r.iter().map(|x| x.0).collect()).unwrap_or_default();
                let tuples: Vec<Vec<u128>> = rows.iter().map(|r| r.iter().map(|x| x.1).collect()).collect();
                let d = self.rows_term(&gv, tuples.clone());
                let g = self.live.index(&self.ts, &vs).unwrap();
                let mut memo = Default::default();
                let nc = self.specialise(nc, g, &gv, &tuples, &mut memo);
                let t0 = Instant::now();
                let r = self.sol.check_narrow(&self.ts, &[d, nc], "qfbv", self.cfg.rlimit_heavy);
                let us = t0.elapsed().as_micros() as u64;
                if self.qstat {
                    let l = format!("{} {} {} | {}\n", us, "refute", self.ts.show(nc, 7), self.ts.show(d, 6));
                    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open("/tmp/llsym.qstat") {
                        let _ = f.write_all(l.as_bytes());
                    }
                }
                match &r {
                    Res::Unknown => {}
                    _ => {
                        self.count_query(us, if let Res::Sat(_) = r { 1 } else { -1 });
                        return self.merge_model(r, &gv);
                    }
                }
            }
        }
        match self.query(nc) {
            Res::Unknown => match self.tabled(nc) {
                Some(r) => {
                    self.st.tabled += 1;
                    r
                }
                None => Res::Unknown,
            },
            r => r,
        }
    }
    /// Satisfiability of the path condition together with t.
    pub fn query(&mut self, t: T) -> Res {
        self.check_deadline();
        let t0 = Instant::now();
        self.st.queries += 1;
        let r = if self.npcfp == 0 && !self.ts.fp[t as usize] {
            for p in std::mem::take(&mut self.pending) {
                self.sol.assert(&self.ts, p);
            }
            let r = self.sol.check_inc(&self.ts, t);
            if let Res::Unknown = r {
                let (c, vs) = self.slice(t);
                let tac = self.cfg.tactic.clone();
                let r = self.sol.check_once(&self.ts, &c, &tac, self.cfg.rlimit_heavy);
                self.merge_model(r, &vs)
            } else {
                r
            }
        } else {
            let (c, vs) = self.slice(t);
            let r = match self.guess(&c, &vs, 600, &[]) {
                Some(mv) => Res::Sat(mv),
                None => {
                    let deep = self.sol.deepest(&self.ts, &c);
                    // (innermost operations kept, innermost sums kept, outermost operations kept)
                    const LEVELS: [(u32, u32, u32); 11] =
                        [(0, 0, 0), (1, 1, 0), (0, 0, 1), (0, 2, 0), (0, 2, 1), (1, 2, 1), (2, 2, 0), (2, 2, 1), (1, 1, 2), (3, 3, 1), (6, 6, 2)];
                    let mut done = false;
                    for (l, j, k) in LEVELS {
                        if !done && l + k < deep {
                            let t0 = Instant::now();
                            done = self.sol.check_abstract(&self.ts, &c, l, j, k, self.cfg.rlimit_heavy / 8);
                            if std::env::var("LLSYM_ABS").is_ok() {
                                eprintln!("abstraction {} {} {} of {}: {} {:?} {:?}", l, j, k, deep, done, t0.elapsed(), self.inputs.last().map(|x| self.ts.as_const(x.1)));
                            }
                        }
                    }
                    // what no abstraction refutes is often refutable near a constant's multiples
                    let hard = if done || deep < 2 { None } else { let k = self.fconsts(&c); self.guess(&c, &vs, if self.brief { 3000 } else { 200000 }, &k) };
                    if std::env::var("LLSYM_ABS").is_ok() {
                        eprintln!("constants {:?} {:?} vars {:?}", self.fconsts(&c), hard.is_some(), vs);
                    }
                    if done {
                        Res::Unsat
                    } else if let Some(mv) = hard {
                        Res::Sat(mv)
                    } else {
                        let tac = self.cfg.tactic.clone();
                        // whether a path is feasible need not be known at any cost
                        let limit = if self.brief && deep > 2 { self.cfg.rlimit_heavy / 16 } else { self.cfg.rlimit_heavy };
                        self.sol.check_once(&self.ts, &c, &tac, limit)
                    }
                }
            };
            self.merge_model(r, &vs)
        };
        let us = t0.elapsed().as_micros() as u64;
        self.st.us += us;
        self.st.maxq = self.st.maxq.max(us);
        if self.qstat {
            let l = format!("{} {} {} | {}\n", us, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }, self.ts.show(t, 7), self.trace(2));
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open("/tmp/llsym.qstat") {
                let _ = f.write_all(l.as_bytes());
            }
        }
        if us > 2_000_000 && std::env::var("LLSYM_SLOW").is_ok() {
            eprintln!("slow query {} ms {}: {}\n   at {}\n   notes {:?}", us / 1000, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }, self.ts.show(t, 14), self.trace(4), self.notes);
        }
        match &r {
            Res::Sat(mv) => {
                self.st.sat += 1;
                // the model must satisfy the query under our own evaluator
                let mut memo = Default::default();
                let mv2 = mv.clone();
                if self.ts.eval(t, &mv2, &mut memo) != 1 {
                    let s = self.ts.show(t, 4);
                    if !self.has_uf(t) {
                        self.fatal(&format!("solver model does not satisfy the query: {}", s));
                    }
                }
            }
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        r
    }
    /// Looks for an assignment among special and pseudo-random values before the solver is asked for one.
    /// Floating-point constants that operations in the conjunction take.
    fn fconsts(&mut self, conj: &[T]) -> Vec<f64> {
        let mut seen: std::collections::HashSet<T> = Default::default();
        let mut st = conj.to_vec();
        let mut out: Vec<f64> = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.ts.get(x);
            let flt = matches!(n.k, K::FAdd | K::FSub | K::FMul | K::FDiv | K::FCmp | K::Fma);
            for y in [n.a, n.b, n.c] {
                if y != NONE {
                    if flt {
                        let w = self.ts.get(y).w;
                        if let Some(c) = self.ts.as_const(y) {
                            let f = if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                            if f.is_finite() && f != 0.0 && !out.contains(&f) && out.len() < 64 {
                                out.push(f);
                            }
                        }
                    }
                    st.push(y);
                }
            }
        }
        out
    }
    fn guess(&mut self, conj: &[T], vs: &[u32], rounds: usize, consts: &[f64]) -> Option<Vec<u128>> {
        if vs.is_empty() || vs.len() > 6 || conj.iter().any(|t| self.has_uf(*t)) {
            return None;
        }
        let mut seed = 0x9e3779b97f4a7c15u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        let mut mv: Vec<u128> = self.ts.vars.iter().enumerate().map(|(i, v)| self.model.get(i).copied().unwrap_or(v.lo)).collect();
        for i in 0..rounds {
            for (k, v) in vs.iter().enumerate() {
                let var = &self.ts.vars[*v as usize];
                let r = rnd();
                let one = |x: f64| if var.hi <= u32::MAX as u128 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
                const SPECIAL: [f64; 16] = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 0.25, 3.0, 1.5, -1.5, 1e30, -1e30, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
                let x = match (if k == 0 { i as u64 } else { r }) % (if consts.is_empty() { 4 } else { 7 }) {
                    4 | 5 | 6 => {
                        // a small multiple of a half, times or over a constant, within a few ulps
                        let c = consts[(r >> 8) as usize % consts.len()];
                        // or next to a power of two
                        let n = match (r >> 41) % 4 {
                            0 | 1 => ((r >> 16) % 129) as f64 / 2.0 - 32.0,
                            2 => ((1u64 << ((r >> 16) % 54)) as f64 + ((r >> 50) % 5) as f64 / 2.0 - 1.0) * if r >> 63 == 1 { -1.0 } else { 1.0 },
                            _ => (1u64 << ((r >> 16) % 64)) as f64 / (1u64 << ((r >> 50) % 64)) as f64,
                        };
                        let y = match (r >> 24) % 4 {
                            0 => n * c,
                            1 => n / c,
                            2 => c.abs().log2() * (if n == 0.0 { 1.0 } else { n }),
                            _ => c,
                        };
                        one(y).wrapping_add(((r >> 32) % 17) as u128).wrapping_sub(8) & if var.hi <= u32::MAX as u128 { u32::MAX as u128 } else { u64::MAX as u128 }
                    }
                    0 => one(SPECIAL[(r >> 8) as usize % 16]),
                    1 => one((r >> 40) as f64 / 262144.0 - 32.0),
                    2 => one(((r >> 40) as f64 / 8388608.0 - 1.0) * 2000.0),
                    _ => r as u128,
                };
                let span = var.hi - var.lo;
                mv[*v as usize] = if span == u128::MAX { x } else { var.lo + (x.wrapping_sub(if x >= var.lo { var.lo } else { 0 })) % (span + 1) };
            }
            let mut memo = Default::default();
            if conj.iter().all(|t| self.ts.eval(*t, &mv, &mut memo) == 1) {
                return Some(mv);
            }
        }
        None
    }
    fn has_uf(&mut self, t: T) -> bool {
        let mut seen: std::collections::HashSet<T> = Default::default();
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.ts.get(x);
            if n.k == K::Uf {
                return true;
            }
            for y in [n.a, n.b, n.c] {
                if y != NONE {
                    st.push(y);
                }
            }
        }
        false
    }
    fn merge_model(&self, r: Res, vs: &[u32]) -> Res {
        if let Res::Sat(mv) = r {
            let mut out: Vec<u128> = self.ts.vars.iter().enumerate().map(|(i, v)| self.model.get(i).copied().unwrap_or(v.lo)).collect();
            for v in vs {
                out[*v as usize] = mv[*v as usize];
            }
            Res::Sat(out)
        } else {
            r
        }
    }
    fn set_model(&mut self, mv: Vec<u128>) {
        self.model = mv;
        self.memo.clear();
        if self.loose {
            let pc = self.pc.clone();
            self.loose = pc.iter().any(|t| self.ev(*t) == 0);
        }
    }
    /// Finds a model of the whole path condition when there is none: false if the solver cannot say.
    pub fn firm(&mut self) -> bool {
        if !self.loose {
            return true;
        }
        let vs: Vec<u32> = (0..self.ts.vars.len() as u32).collect();
        let pc = self.pc.clone();
        let k = self.fconsts(&pc);
        let r = match self.guess(&pc, &vs, 200000, &k) {
            Some(mv) => Res::Sat(mv),
            None => {
                let tac = self.cfg.tactic.clone();
                self.sol.check_once(&self.ts, &pc, &tac, self.cfg.rlimit_heavy)
            }
        };
        match self.merge_model(r, &vs) {
            Res::Sat(mv) => {
                self.set_model(mv);
                !self.loose
            }
            Res::Unsat => self.end(),
            Res::Unknown => false,
        }
    }

    pub fn branch(&mut self, c: T) -> bool {
        if let Some(b) = self.lookup(c) {
            return b;
        }
        let v = self.ev(c) != 0;
        let nc = self.ts.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if self.loose {
            // the model need not satisfy the path condition: this side has to be asked for too
            match self.feasible(mine) {
                Res::Unsat => {
                    self.learn(other, true);
                    return !v;
                }
                Res::Sat(mv) => {
                    self.set_model(mv);
                }
                Res::Unknown => {}
            }
        }
        self.brief = true;
        let r = self.feasible(other);
        self.brief = false;
        match r {
            Res::Unsat => {
                self.learn(mine, true);
                v
            }
            Res::Sat(mv) => {
                if self.fork() {
                    self.set_model(mv);
                    self.add_pc(other);
                    !v
                } else {
                    self.add_pc(mine);
                    v
                }
            }
            Res::Unknown => {
                // Possibly infeasible, but followed: whatever is shown on it is shown for the real paths as well.
                if self.fork() {
                    self.loose = true;
                    self.add_pc(other);
                    !v
                } else {
                    self.add_pc(mine);
                    v
                }
            }
        }
    }
    pub fn concretize(&mut self, v: &Val, w: u32) -> u128 {
        match v {
            Val::S(t) => {
                let t = *t;
                loop {
                    if !self.firm() {
                        self.fatal("solver gave up on a value");
                    }
                    let v = self.ev(t);
                    let k = self.ts.cst(w as u16, v);
                    let c = self.ts.cmp(Pred::Eq, t, k);
                    if self.branch(c) {
                        return v;
                    }
                }
            }
            Val::I(x) => *x as u128,
            Val::W(x) => *x,
            Val::P => 0,
            Val::A(_) => self.fatal("aggregate address"),
        }
    }
    pub fn assume(&mut self, c: T) {
        match self.lookup(c) {
            Some(true) => return,
            Some(false) => {
                self.sh.assumed_out.fetch_add(1, SeqCst);
                self.end();
            }
            None => {}
        }
        if self.ev(c) == 0 || self.loose {
            match self.feasible(c) {
                Res::Sat(mv) => {
                    self.set_model(mv);
                }
                Res::Unsat => {
                    self.sh.assumed_out.fetch_add(1, SeqCst);
                    self.end();
                }
                Res::Unknown => self.fatal("solver gave up on an assumption"),
            }
        }
        self.add_pc(c);
    }
    pub fn violation(&mut self, label: &str, mv: Option<Vec<u128>>) {
        let save = match mv {
            Some(mv) => {
                let o = (self.model.clone(), self.loose);
                self.set_model(mv);
                Some(o)
            }
            None => None,
        };
        if if save.is_some() { self.loose } else { !self.firm() } {
            self.error(&format!("solver gave up on the path to {}", label));
            return;
        }
        let n = self.sh.violations.fetch_add(1, SeqCst);
        let _ = self.sh.first_viol_ms.compare_exchange(0, self.cfg.start.elapsed().as_millis() as u64 + 1, SeqCst, SeqCst);
        self.label(&format!("VIOL {}", label));
        if n < self.cfg.max_viol {
            let s = format!(
                "{{\"ev\":\"violation\",\"label\":\"{}\",\"notes\":[{}],\"inputs\":{},\"at\":\"{}\"}}",
                esc(label),
                self.notes.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(","),
                self.inputs_json(),
                esc(&self.trace(8))
            );
            self.event(&s);
        }
        if let Some((o, l)) = save {
            self.model = o;
            self.loose = l;
            self.memo.clear();
        }
        if n + 1 >= self.cfg.max_viol {
            self.sh.stop.store(true, SeqCst);
        }
    }
    pub fn assert_t(&mut self, c: T, label: &str) {
        self.st.asserts += 1;
        match self.lookup(c) {
            Some(true) => {
                self.st.trivial += 1;
                return;
            }
            Some(false) => {
                self.violation(label, None);
                self.end();
            }
            None => {}
        }
        let nc = self.ts.not(c);
        if self.ev(c) == 0 && !self.loose {
            // the current model already breaks it
            self.st.queries += 0;
            self.violation(label, None);
        } else {
            match self.refute(nc) {
                Res::Unsat => {
                    self.st.discharged += 1;
                    self.learn(c, true);
                    return;
                }
                Res::Sat(mv) => self.violation(label, Some(mv)),
                Res::Unknown => {
                    self.error(&format!("solver gave up on assertion {}", label));
                }
            }
        }
        // continue on the passing side when there is one
        if self.ev(c) == 0 || self.loose {
            match self.feasible(c) {
                Res::Sat(mv) => {
                    self.set_model(mv);
                }
                _ => self.end(),
            }
        }
        self.add_pc(c);
    }
    pub fn input(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> Val {
        if lo == hi {
            let t = self.ts.cst(w as u16, lo);
            self.inputs.push((name.to_string(), t));
            return Self::cv(w, lo);
        }
        let t = self.ts.var(name, w as u16, lo, hi, true);
        let i = self.ts.vars.len() - 1;
        while self.model.len() <= i {
            self.model.push(lo);
        }
        self.model[i] = lo;
        self.inputs.push((name.to_string(), t));
        Val::S(t)
    }
    pub fn choose(&mut self, n: u64, name: &str) -> u64 {
        self.check_deadline();
        let mut k = 0;
        while k + 1 < n {
            if self.fork() {
                break;
            }
            k += 1;
        }
        let t = self.ts.cst(64, k as u128);
        self.inputs.push((name.to_string(), t));
        k
    }

    // ---------------------------------------------------------------- scalar operations
    fn fold64(op: Bin, w: u32, a: u64, b: u64) -> Option<u64> {
        let mk = mask(w);
        Some(
            match op {
                Bin::Add => a.wrapping_add(b),
                Bin::Sub => a.wrapping_sub(b),
                Bin::Mul => a.wrapping_mul(b),
                Bin::And => a & b,
                Bin::Or => a | b,
                Bin::Xor => a ^ b,
                Bin::Shl if b < w as u64 => a << b,
                Bin::LShr if b < w as u64 => a >> b,
                Bin::AShr if b < w as u64 => (sext(a, w) >> b) as u64,
                Bin::UDiv if b != 0 => a / b,
                Bin::URem if b != 0 => a % b,
                Bin::SDiv if b != 0 => sext(a, w).wrapping_div(sext(b, w)) as u64,
                Bin::SRem if b != 0 => sext(a, w).wrapping_rem(sext(b, w)) as u64,
                _ => return None,
            } & mk,
        )
    }
    pub fn bin1(&mut self, op: Bin, st: St, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if st.fp {
                return Val::I(ffold(op, st.w as u16, *x, *y));
            }
            if let Some(r) = Self::fold64(op, st.w, *x, *y) {
                return Val::I(r);
            }
            return Val::P;
        }
        if matches!(a, Val::P) && matches!(b, Val::P) {
            return Val::P;
        }
        let mut x = self.term(a, st.w);
        let y = self.term(b, st.w);
        if matches!(op, Bin::UDiv | Bin::URem) && st.w >= 32 {
            x = self.shrink(x);
        }
        let t = self.ts.bin(op, x, y);
        self.norm(t)
    }
    /// A difference of small values that the path condition keeps from being negative is small.
    fn shrink(&mut self, t: T) -> T {
        let n = self.ts.get(t);
        if n.k != K::Sub || self.ts.rng[t as usize].1 != m(n.w) || self.ts.fp[t as usize] {
            return t;
        }
        let h = bits(self.ts.rng[n.a as usize].1) as u16;
        if h + 8 > n.w || h == 0 {
            return t;
        }
        let lt = self.ts.cmp(Pred::Ult, n.a, n.b);
        if let Res::Unsat = self.query(lt) {
            let x = self.ts.extract(t, 0, h);
            return self.ts.zext(x, n.w);
        }
        t
    }
    pub fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return Val::I(r as u64);
        }
        let x = self.term(a, w);
        let y = self.term(b, w);
        let t = self.ts.cmp(p, x, y);
        self.norm(t)
    }
    fn fcmp1(&mut self, p: FPred, w: u32, a: &Val, b: &Val) -> Val {
        let x = self.term(a, w);
        let y = self.term(b, w);
        let t = self.ts.fcmp(p, x, y);
        self.norm(t)
    }
    fn cast1(&mut self, c: Cast, fw: u32, tw: u32, a: &Val) -> Val {
        if let Val::I(x) = a {
            if tw <= 64 && fw <= 64 {
                match c {
                    Cast::Trunc => return Val::I(*x & mask(tw)),
                    Cast::ZExt | Cast::Same => return Val::I(*x),
                    Cast::SExt => return Val::I(sext(*x, fw) as u64 & mask(tw)),
                    _ => {}
                }
            }
        }
        if let Val::P = a {
            return Val::P;
        }
        let x = self.term(a, fw);
        let w = tw as u16;
        let t = match c {
            Cast::Trunc => self.ts.extract(x, 0, w),
            Cast::ZExt => self.ts.zext(x, w),
            Cast::SExt => self.ts.sext(x, w),
            Cast::Same => x,
            Cast::FpToSi => self.ts.funary(K::FToSi, 0, w, x),
            Cast::FpToUi => self.ts.funary(K::FToUi, 0, w, x),
            Cast::SiToFp => self.ts.funary(K::SiToF, 0, w, x),
            Cast::UiToFp => self.ts.funary(K::UiToF, 0, w, x),
            Cast::FpTrunc | Cast::FpExt => self.ts.funary(K::FConv, 0, w, x),
            Cast::BitcastVec => x,
        };
        self.norm(t)
    }
    pub fn map1(&mut self, n: u32, a: &Val, mut f: impl FnMut(&mut Self, &Val) -> Val) -> Val {
        if n == 0 {
            return f(self, a);
        }
        let mut o = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let x = Self::elem(a, i);
            o.push(f(self, &x));
        }
        Val::A(Rc::new(o))
    }
    pub fn elem(a: &Val, i: usize) -> Val {
        match a {
            Val::A(v) => v[i].clone(),
            _ => Val::P,
        }
    }
    pub fn map2(&mut self, n: u32, a: &Val, b: &Val, mut f: impl FnMut(&mut Self, &Val, &Val) -> Val) -> Val {
        if n == 0 {
            return f(self, a, b);
        }
        let mut o = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let (x, y) = (Self::elem(a, i), Self::elem(b, i));
            o.push(f(self, &x, &y));
        }
        Val::A(Rc::new(o))
    }
    fn select1(&mut self, w: Option<u32>, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::I(x) => {
                if *x != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::S(t) => {
                if let Some(k) = self.lookup(*t) {
                    return if k { a.clone() } else { b.clone() };
                }
                match w {
                    Some(w) => {
                        if let Val::P = a {
                            return b.clone();
                        }
                        if let Val::P = b {
                            return a.clone();
                        }
                        let x = self.term(a, w);
                        let y = self.term(b, w);
                        let t = self.ts.ite(*t, x, y);
                        self.norm(t)
                    }
                    None => {
                        if self.branch(*t) {
                            a.clone()
                        } else {
                            b.clone()
                        }
                    }
                }
            }
            _ => self.fatal("select on poison"),
        }
    }
    fn bits_of(&mut self, v: &Val, st: St) -> (T, u32) {
        if st.n == 0 {
            return (self.term(v, st.w), st.w);
        }
        let mut t = {
            let e = Self::elem(v, 0);
            self.term(&e, st.w)
        };
        for i in 1..st.n as usize {
            let e = Self::elem(v, i);
            let x = self.term(&e, st.w);
            t = self.ts.concat(x, t);
        }
        (t, st.w * st.n)
    }
    fn from_bits(&mut self, t: T, st: St) -> Val {
        if st.n == 0 {
            return self.norm(t);
        }
        let mut o = vec![];
        for i in 0..st.n {
            let e = self.ts.extract(t, i * st.w, st.w as u16);
            o.push(self.norm(e));
        }
        Val::A(Rc::new(o))
    }

    // ---------------------------------------------------------------- memory
    fn tz(&self, t: T) -> u32 {
        let n = self.ts.get(t);
        match n.k {
            K::Const => {
                if n.imm == 0 {
                    n.w as u32
                } else {
                    n.imm.trailing_zeros()
                }
            }
            K::Shl => match self.ts.as_const(n.b) {
                Some(s) => (self.tz(n.a) + s as u32).min(n.w as u32),
                None => self.tz(n.a),
            },
            K::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w as u32),
            K::Add | K::Sub | K::Or | K::Xor => self.tz(n.a).min(self.tz(n.b)),
            K::And => self.tz(n.a).max(self.tz(n.b)),
            K::Ite => self.tz(n.b).min(self.tz(n.c)),
            K::ZExt | K::SExt => {
                let z = self.tz(n.a);
                if z == self.ts.w(n.a) as u32 {
                    n.w as u32
                } else {
                    z
                }
            }
            K::Concat => {
                let z = self.tz(n.b);
                if z == self.ts.w(n.b) as u32 {
                    z + self.tz(n.a)
                } else {
                    z
                }
            }
            _ => 0,
        }
    }
    fn load_scalar(&mut self, ptr: &Val, w: u32, n: u64) -> Val {
        match ptr {
            Val::I(a) => {
                let a = *a;
                if !self.mem.valid(a, n) {
                    self.fatal(&format!("invalid load at {:x}", a));
                }
                match self.mem.load(&mut self.ts, a, w, n) {
                    Ld::C(v) => Self::cv(w, v),
                    Ld::S(t) => Val::S(t),
                }
            }
            Val::S(t) => {
                let t = *t;
                // base + offset decomposition through Add(x, const)
                let (lo, hi) = self.ts.rng[t as usize];
                let nd = self.ts.get(t);
                let stride = {
                    let z = if nd.k == K::Add {
                        if self.ts.as_const(nd.b).is_some() {
                            self.tz(nd.a)
                        } else if self.ts.as_const(nd.a).is_some() {
                            self.tz(nd.b)
                        } else {
                            self.tz(t)
                        }
                    } else {
                        self.tz(t)
                    };
                    1u128 << z.min(12)
                };
                let cnt = (hi - lo) / stride + 1;
                if cnt > self.cfg.ite_limit as u128 {
                    let a = self.concretize(ptr, 64) as u64;
                    return self.load_scalar(&Val::I(a), w, n);
                }
                let mut cands = vec![];
                let mut a = lo;
                while a <= hi {
                    if self.mem.valid(a as u64, n) {
                        cands.push(a as u64);
                    }
                    a += stride;
                }
                if (cands.len() as u128) < cnt {
                    // addresses outside mapped memory must be infeasible
                    let mut any = self.ts.bool(false);
                    for c in &cands {
                        let k = self.ts.cst(64, *c as u128);
                        let e = self.ts.cmp(Pred::Eq, t, k);
                        any = self.ts.bin(Bin::Or, any, e);
                    }
                    let na = self.ts.not(any);
                    match self.query(na) {
                        Res::Unsat => {}
                        _ => self.fatal("symbolic load may leave mapped memory"),
                    }
                }
                // group equal values
                let mut groups: Vec<(T, Vec<u64>)> = vec![];
                for c in cands {
                    let v = match self.mem.load(&mut self.ts, c, w, n) {
                        Ld::C(v) => self.ts.cst(w as u16, v),
                        Ld::S(x) => x,
                    };
                    match groups.iter_mut().find(|g| g.0 == v) {
                        Some(g) => g.1.push(c),
                        None => groups.push((v, vec![c])),
                    }
                }
                groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                let mut it = groups.into_iter();
                let mut r = match it.next() {
                    Some(g) => g.0,
                    None => self.fatal("symbolic load without targets"),
                };
                for (v, cs) in it {
                    let mut any = self.ts.bool(false);
                    let mut i = 0;
                    while i < cs.len() {
                        // contiguous runs become range tests
                        let mut j = i;
                        while j + 1 < cs.len() && cs[j + 1] as u128 == cs[j] as u128 + stride {
                            j += 1;
                        }
                        let l = self.ts.cst(64, cs[i] as u128);
                        let e = if i == j {
                            self.ts.cmp(Pred::Eq, t, l)
                        } else {
                            let h = self.ts.cst(64, cs[j] as u128);
                            let p = self.ts.cmp(Pred::Ule, l, t);
                            let q = self.ts.cmp(Pred::Ule, t, h);
                            self.ts.bin(Bin::And, p, q)
                        };
                        any = self.ts.bin(Bin::Or, any, e);
                        i = j + 1;
                    }
                    r = self.ts.ite(any, v, r);
                }
                self.norm(r)
            }
            _ => self.fatal("load through poison"),
        }
    }
    fn load_ty(&mut self, ptr: &Val, ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) => self.load_scalar(ptr, *w, ty.store_size()),
            Ty::F32 => self.load_scalar(ptr, 32, 4),
            Ty::F64 | Ty::Ptr => self.load_scalar(ptr, 64, 8),
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let n = match ty {
                    Ty::Arr(n, _) => *n as usize,
                    Ty::Struct(f, _) => f.len(),
                    Ty::Vec(n, t) => {
                        if t.bits() % 8 != 0 {
                            let a = self.concretize(ptr, 64) as u64;
                            let bytes = ty.store_size();
                            let bits = ty.bits() as u32;
                            let t0 = match self.mem.load(&mut self.ts, a, bits, bytes) {
                                Ld::C(v) => self.ts.cst(bits as u16, v),
                                Ld::S(x) => x,
                            };
                            return self.from_bits(t0, St { w: t.bits() as u32, fp: false, n: *n });
                        }
                        *n as usize
                    }
                    _ => 0,
                };
                let a = self.concretize(ptr, 64) as u64;
                let mut o = vec![];
                for i in 0..n {
                    let p = Val::I(a + ty.field_off(i));
                    o.push(self.load_ty(&p, &ty.field_ty(i)));
                }
                Val::A(Rc::new(o))
            }
            _ => self.fatal(&format!("load {:?}", ty)),
        }
    }
    fn store_ty(&mut self, a: u64, ty: &Ty, v: &Val) {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                if let Val::A(xs) = v {
                    if let Ty::Vec(n, t) = ty {
                        if t.bits() % 8 != 0 {
                            let (b, w) = self.bits_of(v, St { w: t.bits() as u32, fp: false, n: *n });
                            let x = self.norm(b);
                            return self.store_ty(a, &Ty::Int(w), &x);
                        }
                    }
                    for (i, x) in xs.iter().enumerate() {
                        self.store_ty(a + ty.field_off(i), &ty.field_ty(i), x);
                    }
                }
            }
            _ => {
                let n = ty.store_size();
                if !self.mem.valid(a, n) || a >= FN_BASE && a < GLOBAL_BASE {
                    self.fatal(&format!("invalid store at {:x}", a));
                }
                match v {
                    Val::I(x) => self.mem.store(a, *x as u128, n),
                    Val::W(x) => self.mem.store(a, *x, n),
                    Val::S(t) => self.mem.store_sym(&mut self.ts, a, *t, n),
                    Val::P => self.mem.clear(a, n),
                    Val::A(_) => self.fatal("aggregate store"),
                }
            }
        }
    }

    // ---------------------------------------------------------------- calls
    pub fn push_frame(&mut self, idx: u32, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) {
        let f = match self.m.func(idx) {
            Ok(f) => f,
            Err(e) => self.fatal(&format!("parse: {}", e)),
        };
        if (idx as usize) < 65536 {
            let c = &self.sh.cov[idx as usize];
            if c.load(Relaxed) == 0 && c.swap(1, SeqCst) == 0 {
                let n = self.sh.ncov.fetch_add(1, SeqCst);
                self.sh.covlist[n as usize].store(idx + 1, SeqCst);
            }
        }
        let fp = Rc::as_ptr(&f);
        if self.frames.len() > 20000 {
            self.fatal("call depth");
        }
        let base = self.regs.len();
        self.regs.resize(base + f.nregs as usize, Val::P);
        for (i, a) in args.into_iter().enumerate() {
            if i < f.nargs as usize {
                self.regs[base + i] = a;
            }
        }
        self.frames.push(Frame { f: fp, base, blk: 0, ip: 0, sp: self.mem.sp, dst, normal });
    }

    fn jump(&mut self, f: &Func, base: usize, from: u32, to: u32) {
        let b = &f.blocks[to as usize];
        if b.phis.is_empty() {
            return;
        }
        if b.phis.len() == 1 {
            let (d, inc) = &b.phis[0];
            let v = self.phi_val(base, inc, from);
            self.regs[base + *d as usize] = v;
            return;
        }
        let mut tmp = std::mem::take(&mut self.phitmp);
        tmp.clear();
        for (d, inc) in &b.phis {
            let v = self.phi_val(base, inc, from);
            tmp.push((*d, v));
        }
        for (d, v) in tmp.drain(..) {
            self.regs[base + d as usize] = v;
        }
        self.phitmp = tmp;
    }
    fn phi_val(&self, base: usize, inc: &[(u32, Op)], from: u32) -> Val {
        for (b, o) in inc {
            if *b == from {
                return match o {
                    Op::R(r) => self.regs[base + *r as usize].clone(),
                    Op::C(v) => v.clone(),
                };
            }
        }
        Val::P
    }

    pub fn run(&mut self) -> ! {
        loop {
            let fi = self.frames.len() - 1;
            let fr = &self.frames[fi];
            let f: &Func = unsafe { &*fr.f };
            let base = fr.base;
            let mut blk = fr.blk;
            let mut ip = fr.ip as usize;
            // inner loop within one frame
            'frame: loop {
                let ins = &f.blocks[blk as usize].ins[ip];
                self.st.instrs += 1;
                if self.st.instrs & 0x3ffff == 0 {
                    self.check_deadline();
                    if self.st.instrs > self.cfg.max_instr {
                        self.fatal("instruction limit on one path");
                    }
                }
                macro_rules! get {
                    ($o:expr) => {
                        match $o {
                            Op::R(r) => self.regs[base + *r as usize].clone(),
                            Op::C(v) => v.clone(),
                        }
                    };
                }
                macro_rules! set {
                    ($d:expr, $v:expr) => {{
                        let v = $v;
                        self.regs[base + $d as usize] = v;
                    }};
                }
                macro_rules! goto {
                    ($t:expr) => {{
                        let t = $t;
                        self.jump(f, base, blk, t);
                        blk = t;
                        ip = 0;
                        continue 'frame;
                    }};
                }
                match ins {
                    Ins::Bin { op, st, dst, a, b } => {
                        let (x, y) = (get!(a), get!(b));
                        let r = if st.n == 0 {
                            self.bin1(*op, *st, &x, &y)
                        } else {
                            let s = *st;
                            self.map2(st.n, &x, &y, |e, p, q| e.bin1(*op, s, p, q))
                        };
                        set!(*dst, r);
                    }
                    Ins::FNeg { st, dst, a } => {
                        let x = get!(a);
                        let w = st.w;
                        let r = self.map1(st.n, &x, |e, v| {
                            let t = e.term(v, w);
                            let sgn = e.ts.cst(w as u16, 1u128 << (w - 1));
                            let t = e.ts.bin(Bin::Xor, t, sgn);
                            e.norm(t)
                        });
                        set!(*dst, r);
                    }
                    Ins::Icmp { p, st, dst, a, b } => {
                        let (x, y) = (get!(a), get!(b));
                        let r = if st.n == 0 {
                            self.icmp1(*p, st.w, &x, &y)
                        } else {
                            let w = st.w;
                            self.map2(st.n, &x, &y, |e, s, t| e.icmp1(*p, w, s, t))
                        };
                        set!(*dst, r);
                    }
                    Ins::Fcmp { p, st, dst, a, b } => {
                        let (x, y) = (get!(a), get!(b));
                        let w = st.w;
                        let r = self.map2(st.n, &x, &y, |e, s, t| e.fcmp1(*p, w, s, t));
                        set!(*dst, r);
                    }
                    Ins::Cast { c, from, to, dst, a } => {
                        let x = get!(a);
                        let r = if *c == Cast::BitcastVec {
                            let (t, _) = self.bits_of(&x, *from);
                            self.from_bits(t, *to)
                        } else {
                            let (fw, tw) = (from.w, to.w);
                            self.map1(from.n, &x, |e, v| e.cast1(*c, fw, tw, v))
                        };
                        set!(*dst, r);
                    }
                    Ins::Select { st, cond_vec, dst, c, a, b } => {
                        let (cv, x, y) = (get!(c), get!(a), get!(b));
                        let r = if *cond_vec {
                            let s = st.unwrap();
                            let mut o = vec![];
                            for i in 0..s.n as usize {
                                let (ci, xi, yi) = (Self::elem(&cv, i), Self::elem(&x, i), Self::elem(&y, i));
                                o.push(self.select1(Some(s.w), &ci, &xi, &yi));
                            }
                            Val::A(Rc::new(o))
                        } else {
                            match st {
                                Some(s) if s.n == 0 => self.select1(Some(s.w), &cv, &x, &y),
                                _ => self.select1(None, &cv, &x, &y),
                            }
                        };
                        set!(*dst, r);
                    }
                    Ins::Gep { dst, base: bo, off, idx, vec } => {
                        if *vec {
                            self.fatal("vector gep");
                        }
                        let b = get!(bo);
                        let mut o = *off;
                        let mut symt: Option<T> = None;
                        for (op, w, scale) in idx {
                            let v = get!(op);
                            match v {
                                Val::I(x) => o = o.wrapping_add(sext(x, *w).wrapping_mul(*scale as i64)),
                                Val::P => {}
                                Val::S(t) => {
                                    let t = self.ts.sext(t, 64);
                                    let k = self.ts.cst(64, *scale as u128);
                                    let t = self.ts.bin(Bin::Mul, t, k);
                                    symt = Some(match symt {
                                        Some(s) => self.ts.bin(Bin::Add, s, t),
                                        None => t,
                                    });
                                }
                                _ => self.fatal("gep index"),
                            }
                        }
                        let r = match (b, symt) {
                            (Val::I(x), None) => Val::I(x.wrapping_add(o as u64)),
                            (Val::P, _) => Val::P,
                            (b, s) => {
                                let mut t = self.term(&b, 64);
                                if let Some(s) = s {
                                    t = self.ts.bin(Bin::Add, s, t);
                                }
                                let k = self.ts.cst(64, o as u64 as u128);
                                let t = self.ts.bin(Bin::Add, t, k);
                                self.norm(t)
                            }
                        };
                        set!(*dst, r);
                    }
                    Ins::Load { dst, ty, ptr } => {
                        let p = get!(ptr);
                        self.frames[fi].blk = blk;
                        self.frames[fi].ip = ip as u32;
                        let r = self.load_ty(&p, ty);
                        set!(*dst, r);
                    }
                    Ins::Store { ty, val, ptr } => {
                        let p = get!(ptr);
                        let v = get!(val);
                        let a = self.concretize(&p, 64) as u64;
                        self.store_ty(a, ty, &v);
                    }
                    Ins::Alloca { dst, size, align, count } => {
                        let mut n = *size;
                        if let Some((c, w)) = count {
                            let c = get!(c);
                            n *= self.concretize(&c, *w) as u64;
                        }
                        let a = self.mem.alloca(n, *align);
                        set!(*dst, Val::I(a));
                    }
                    Ins::Call { dst, callee, args, ret, normal } => {
                        let mut av: Vec<Val> = Vec::with_capacity(args.len());
                        for (_, o) in args {
                            av.push(get!(o));
                        }
                        let target = match callee {
                            Callee::Direct(i) => Some((*i, false)),
                            Callee::Named(i) => Some((*i, true)),
                            Callee::Indirect(o) => {
                                let v = get!(o);
                                let a = self.concretize(&v, 64) as u64;
                                if a >= FN_BASE && a < EXT_BASE && (a & 15) == 0 && ((a - FN_BASE) / 16) < self.m.fns.len() as u64 {
                                    Some((((a - FN_BASE) / 16) as u32, false))
                                } else if a >= EXT_BASE && a < GLOBAL_BASE {
                                    Some((((a - EXT_BASE) / 16) as u32, true))
                                } else {
                                    self.fatal(&format!("indirect call to {:x}", a))
                                }
                            }
                            Callee::Asm => None,
                        };
                        self.frames[fi].blk = blk;
                        self.frames[fi].ip = ip as u32;
                        let mut direct = None;
                        match target {
                            None => {}
                            Some((i, false)) => {
                                let k = self.fn_kind[i as usize];
                                if k != 0 {
                                    let r = self.hook(k, args, &av, ret);
                                    if let Some(d) = dst {
                                        set!(*d, r);
                                    }
                                } else {
                                    direct = Some(i);
                                }
                            }
                            Some((i, true)) => {
                                while self.ext_kind.len() <= i as usize {
                                    let n = self.m.externs.borrow()[self.ext_kind.len()].clone();
                                    let k = self.classify(&n);
                                    self.ext_kind.push(k);
                                }
                                let k = self.ext_kind[i as usize];
                                if k == 0 {
                                    let n = self.m.externs.borrow()[i as usize].clone();
                                    self.fatal(&format!("call to unmodelled external {}", n));
                                }
                                let r = self.hook(k, args, &av, ret);
                                if let Some(d) = dst {
                                    set!(*d, r);
                                }
                            }
                        }
                        if let Some(i) = direct {
                            // resume after the call
                            self.push_frame(i, av, *dst, *normal);
                            break 'frame;
                        }
                        if let Some(n) = normal {
                            goto!(*n);
                        }
                    }
                    Ins::Br { to } => goto!(*to),
                    Ins::CondBr { c, t, f: fl } => {
                        let v = get!(c);
                        let b = match v {
                            Val::I(x) => x != 0,
                            Val::S(t) => self.branch(t),
                            _ => {
                                self.frames[fi].blk = blk;
                                self.fatal("branch on poison")
                            }
                        };
                        goto!(if b { *t } else { *fl });
                    }
                    Ins::Switch { w, v, def, cases } => {
                        let x = get!(v);
                        let to = match x {
                            Val::I(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                            Val::W(k) => cases.iter().find(|c| c.0 as u128 == k).map(|c| c.1).unwrap_or(*def),
                            Val::S(t) => self.sym_switch(t, *w, *def, cases),
                            _ => self.fatal("switch on poison"),
                        };
                        goto!(to);
                    }
                    Ins::Ret { v } => {
                        let r = v.as_ref().map(|o| get!(o));
                        let fr = self.frames.pop().unwrap();
                        self.regs.truncate(fr.base);
                        self.mem.sp = fr.sp;
                        if self.frames.len() == self.stop_at_depth {
                            self.end_path();
                        }
                        let ci = self.frames.len() - 1;
                        let cf: &Func = unsafe { &*self.frames[ci].f };
                        let cb = self.frames[ci].base;
                        if let (Some(d), Some(r)) = (fr.dst, r) {
                            self.regs[cb + d as usize] = r;
                        }
                        if let Some(n) = fr.normal {
                            let from = self.frames[ci].blk;
                            self.jump(cf, cb, from, n);
                            self.frames[ci].blk = n;
                            self.frames[ci].ip = 0;
                        } else {
                            self.frames[ci].ip += 1;
                        }
                        break 'frame;
                    }
                    Ins::Unreachable => self.fatal("reached unreachable"),
                    Ins::ExtractValue { dst, a, idx, .. } => {
                        let mut v = get!(a);
                        for i in idx {
                            v = Self::elem(&v, *i as usize);
                        }
                        set!(*dst, v);
                    }
                    Ins::InsertValue { dst, a, v, idx, ty } => {
                        let x = get!(a);
                        let nv = get!(v);
                        let r = Self::insert(x, nv, idx, ty);
                        set!(*dst, r);
                    }
                    Ins::ExtractElem { dst, a, i, .. } => {
                        let x = get!(a);
                        let iv = get!(i);
                        let k = self.concretize(&iv, 64) as usize;
                        set!(*dst, Self::elem(&x, k));
                    }
                    Ins::InsertElem { dst, a, v, i, n } => {
                        let x = get!(a);
                        let nv = get!(v);
                        let iv = get!(i);
                        let k = self.concretize(&iv, 64) as usize;
                        let mut o = match x {
                            Val::A(v) => (*v).clone(),
                            _ => vec![Val::P; *n as usize],
                        };
                        o[k] = nv;
                        set!(*dst, Val::A(Rc::new(o)));
                    }
                    Ins::Shuffle { dst, a, b, mask, n } => {
                        let (x, y) = (get!(a), get!(b));
                        let mut o = vec![];
                        for k in mask {
                            o.push(if *k < 0 {
                                Val::P
                            } else if (*k as u32) < *n {
                                Self::elem(&x, *k as usize)
                            } else {
                                Self::elem(&y, *k as usize - *n as usize)
                            });
                        }
                        set!(*dst, Val::A(Rc::new(o)));
                    }
                    Ins::Freeze { dst, a } => {
                        let v = get!(a);
                        let v = if let Val::P = v { Val::I(0) } else { v };
                        set!(*dst, v);
                    }
                    Ins::AtomicRmw { op, w, dst, ptr, val } => {
                        let p = get!(ptr);
                        let v = get!(val);
                        let a = self.concretize(&p, 64) as u64;
                        let ty = Ty::Int(*w);
                        let old = self.load_ty(&Val::I(a), &ty);
                        let st = St { w: *w, fp: false, n: 0 };
                        let nv = match op {
                            0 => v,
                            1 => self.bin1(Bin::Add, st, &old, &v),
                            2 => self.bin1(Bin::Sub, st, &old, &v),
                            3 => self.bin1(Bin::And, st, &old, &v),
                            4 => self.bin1(Bin::Or, st, &old, &v),
                            _ => self.bin1(Bin::Xor, st, &old, &v),
                        };
                        self.store_ty(a, &ty, &nv);
                        set!(*dst, old);
                    }
                    Ins::CmpXchg { w, dst, ptr, cmp, new } => {
                        let p = get!(ptr);
                        let c = get!(cmp);
                        let n = get!(new);
                        let a = self.concretize(&p, 64) as u64;
                        let ty = Ty::Int(*w);
                        let old = self.load_ty(&Val::I(a), &ty);
                        let eq = self.icmp1(Pred::Eq, *w, &old, &c);
                        let b = match &eq {
                            Val::I(x) => *x != 0,
                            Val::S(t) => self.branch(*t),
                            _ => false,
                        };
                        if b {
                            self.store_ty(a, &ty, &n);
                        }
                        set!(*dst, Val::A(Rc::new(vec![old, Val::I(b as u64)])));
                    }
                    Ins::Nop => {}
                    Ins::Unsupported(s) => {
                        let s = s.clone();
                        self.frames[fi].blk = blk;
                        self.fatal(&format!("unsupported instruction {}", s));
                    }
                }
                ip += 1;
            }
        }
    }

    fn insert(x: Val, nv: Val, idx: &[u32], ty: &Ty) -> Val {
        if idx.is_empty() {
            return nv;
        }
        let mut o = match x {
            Val::A(v) => (*v).clone(),
            _ => match Module::poison(ty) {
                Val::A(v) => (*v).clone(),
                _ => vec![],
            },
        };
        let i = idx[0] as usize;
        let inner = std::mem::replace(&mut o[i], Val::P);
        o[i] = Self::insert(inner, nv, &idx[1..], &ty.field_ty(i));
        Val::A(Rc::new(o))
    }

    fn sym_switch(&mut self, t: T, w: u32, def: u32, cases: &[(u64, u32)]) -> u32 {
        let (lo, hi) = self.ts.rng[t as usize];
        // group by target
        let mut groups: Vec<(u32, T)> = vec![];
        let mut anyc = self.ts.bool(false);
        for (c, to) in cases {
            if (*c as u128) < lo || (*c as u128) > hi {
                continue;
            }
            let k = self.ts.cst(w as u16, *c as u128);
            let e = self.ts.cmp(Pred::Eq, t, k);
            anyc = self.ts.bin(Bin::Or, anyc, e);
            match groups.iter_mut().find(|g| g.0 == *to) {
                Some(g) => g.1 = self.ts.bin(Bin::Or, g.1, e),
                None => groups.push((*to, e)),
            }
        }
        let nd = self.ts.not(anyc);
        match groups.iter_mut().find(|g| g.0 == def) {
            Some(g) => g.1 = self.ts.bin(Bin::Or, g.1, nd),
            None => groups.push((def, nd)),
        }
        // the group the current model takes goes last; every other feasible one forks
        let n = groups.len();
        for i in 0..n {
            if self.ev(groups[i].1) != 0 {
                let g = groups.remove(i);
                groups.push(g);
                break;
            }
        }
        for i in 0..n - 1 {
            let c = groups[i].1;
            match self.lookup(c) {
                Some(true) => return groups[i].0,
                Some(false) => continue,
                None => {}
            }
            match self.feasible(c) {
                Res::Unsat => self.learn(c, false),
                Res::Sat(mv) => {
                    if self.fork() {
                        self.set_model(mv);
                        self.add_pc(c);
                        return groups[i].0;
                    }
                }
                Res::Unknown => {
                    if self.fork() {
                        self.loose = true;
                        self.add_pc(c);
                        return groups[i].0;
                    }
                }
            }
        }
        let c = groups[n - 1].1;
        if self.loose && self.lookup(c).is_none() {
            match self.feasible(c) {
                Res::Unsat => self.end(),
                Res::Sat(mv) => self.set_model(mv),
                Res::Unknown => {}
            }
        }
        self.add_pc(c);
        groups[n - 1].0
    }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn libc_errno() -> *mut i32 {
    __errno_location()
}
impl Eng {
    pub fn count_assert(&mut self) {
        self.st.asserts += 1;
    }
    pub fn count(&mut self, trivial: bool) {
        if trivial {
            self.st.trivial += 1
        } else {
            self.st.discharged += 1
        }
    }
    pub fn count_query(&mut self, us: u64, r: i32) {
        self.st.queries += 1;
        self.st.us += us;
        self.st.maxq = self.st.maxq.max(us);
        match r {
            1 => self.st.sat += 1,
            -1 => self.st.unsat += 1,
            _ => self.st.unknown += 1,
        }
    }
}
