//! Exact sets of the remaining assignments of small groups of variables.
//! A group is a set of variables tied together by path conditions. While the number of assignments that
//! satisfy the path condition stays small they are kept explicitly, so that branch feasibility inside the group needs no solver.
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

const LIMIT: usize = 12000;
/// Cells kept as columns per group.
const CELLS: usize = 72_000_000;

#[derive(Clone)]
enum Col {
    C(u128),
    V(Rc<Vec<u64>>),
    W(Rc<Vec<u128>>),
}
impl Col {
    fn at(&self, i: usize) -> u128 {
        match self {
            Col::C(c) => *c,
            Col::V(v) => v[i] as u128,
            Col::W(v) => v[i],
        }
    }
}
pub struct Group {
    pub vars: Vec<u32>,
    n: usize,
    rows: Vec<Rc<Vec<u64>>>, // one column per variable
    cols: FxMap<T, Col>,
    /// Every path condition over these variables is reflected in the rows.
    exact: bool,
}
#[derive(Default)]
pub struct Live {
    pub of: Vec<usize>, // variable -> group, usize::MAX when none yet
    pub groups: Vec<Option<Group>>,
}
pub enum Ans {
    Unsat,
    /// (variable, value) pairs of a satisfying assignment
    Sat(Vec<(u32, u128)>),
    DontKnow,
}

impl Group {
    fn col(&mut self, ts: &Terms, t: T) -> Col {
        if self.cols.len() > (CELLS / self.n.max(1)).min(1_500_000) {
            self.cols.clear();
        }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.cols.contains_key(&x) {
                st.pop();
                continue;
            }
            let nd = ts.get(x);
            let c = match nd.k {
                K::Const => Col::C(nd.imm),
                K::Var => {
                    let i = self.vars.iter().position(|v| *v == nd.imm as u32).unwrap();
                    Col::V(self.rows[i].clone())
                }
                _ => {
                    let mut ready = true;
                    for y in [nd.a, nd.b, nd.c] {
                        if y != NONE && !self.cols.contains_key(&y) {
                            st.push(y);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                    let g = |y: T| if y == NONE { Col::C(0) } else { self.cols[&y].clone() };
                    let (a, b, c) = (g(nd.a), g(nd.b), g(nd.c));
                    let wa = if nd.a == NONE { 0 } else { ts.w(nd.a) };
                    let wb = if nd.b == NONE { 0 } else { ts.w(nd.b) };
                    let mk = m(nd.w);
                    if let (Col::C(a), Col::C(b), Col::C(c)) = (&a, &b, &c) {
                        Col::C(eval_node(&nd, wa, wb, *a, *b, *c) & mk)
                    } else if nd.w <= 64 {
                        Col::V(Rc::new(self.narrow(&nd, wa, wb, &a, &b, &c)))
                    } else if nd.k == K::Ite {
                        Col::W(Rc::new((0..self.n).map(|i| if a.at(i) != 0 { b.at(i) } else { c.at(i) }).collect()))
                    } else {
                        Col::W(Rc::new((0..self.n).map(|i| eval_node(&nd, wa, wb, a.at(i), b.at(i), c.at(i)) & mk).collect()))
                    }
                }
            };
            self.cols.insert(x, c);
            st.pop();
        }
        self.cols[&t].clone()
    }
    fn narrow(&self, nd: &Node, wa: u16, wb: u16, a: &Col, b: &Col, c: &Col) -> Vec<u64> {
        let n = self.n;
        let mk = m(nd.w) as u64;
        fn two(n: usize, a: &Col, b: &Col, f: impl Fn(u64, u64) -> u64) -> Vec<u64> {
            match (a, b) {
                (Col::V(a), Col::V(b)) => a.iter().zip(b.iter()).map(|(x, y)| f(*x, *y)).collect(),
                (Col::V(a), Col::C(b)) => a.iter().map(|x| f(*x, *b as u64)).collect(),
                (Col::C(a), Col::V(b)) => b.iter().map(|y| f(*a as u64, *y)).collect(),
                _ => (0..n).map(|i| f(a.at(i) as u64, b.at(i) as u64)).collect(),
            }
        }
        let small = wa <= 64 && wb <= 64;
        let sx = |x: u64| ((x << (64 - wa)) as i64) >> (64 - wa);
        match nd.k {
            K::Ite => (0..n).map(|i| if a.at(i) != 0 { b.at(i) as u64 } else { c.at(i) as u64 }).collect(),
            K::Add if small => two(n, a, b, |x, y| x.wrapping_add(y) & mk),
            K::Sub if small => two(n, a, b, |x, y| x.wrapping_sub(y) & mk),
            K::Mul if small => two(n, a, b, |x, y| x.wrapping_mul(y) & mk),
            K::UDiv if small => two(n, a, b, |x, y| if y == 0 { mk } else { x / y }),
            K::URem if small => two(n, a, b, |x, y| if y == 0 { x } else { x % y }),
            K::And if small => two(n, a, b, |x, y| x & y),
            K::Or if small => two(n, a, b, |x, y| x | y),
            K::Xor if small => two(n, a, b, |x, y| x ^ y),
            K::Eq if small => two(n, a, b, |x, y| (x == y) as u64),
            K::Ult if small => two(n, a, b, |x, y| (x < y) as u64),
            K::Ule if small => two(n, a, b, |x, y| (x <= y) as u64),
            K::Slt if small => two(n, a, b, |x, y| (sx(x) < sx(y)) as u64),
            K::Sle if small => two(n, a, b, |x, y| (sx(x) <= sx(y)) as u64),
            K::ZExt if small => two(n, a, &Col::C(0), |x, _| x),
            K::Extract if wa <= 64 => two(n, a, &Col::C(nd.imm), |x, l| (x >> l) & mk),
            _ => (0..n).map(|i| (eval_node(nd, wa, wb, a.at(i), b.at(i), c.at(i)) & m(nd.w)) as u64).collect(),
        }
    }
    fn filter(&mut self, keep: &Col) {
        let idx: Vec<usize> = (0..self.n).filter(|i| keep.at(*i) != 0).collect();
        if idx.len() == self.n {
            return;
        }
        let take = |v: &Rc<Vec<u64>>| Rc::new(idx.iter().map(|i| v[*i]).collect::<Vec<_>>());
        let wide = |v: &Rc<Vec<u128>>| Rc::new(idx.iter().map(|i| v[*i]).collect::<Vec<_>>());
        for r in self.rows.iter_mut() {
            *r = take(r);
        }
        for c in self.cols.values_mut() {
            match c {
                Col::V(v) => *c = Col::V(take(v)),
                Col::W(v) => *c = Col::W(wide(v)),
                Col::C(_) => {}
            }
        }
        self.n = idx.len();
    }
}

impl Live {
    fn group_of(&mut self, ts: &Terms, v: u32) -> Option<usize> {
        if self.of.len() <= v as usize {
            self.of.resize(v as usize + 1, usize::MAX);
        }
        if self.of[v as usize] == usize::MAX {
            let vi = &ts.vars[v as usize];
            if vi.w > 64 || vi.hi - vi.lo >= LIMIT as u128 {
                return None;
            }
            let r: Vec<u64> = (vi.lo..=vi.hi).map(|x| x as u64).collect();
            self.of[v as usize] = self.groups.len();
            self.groups.push(Some(Group { vars: vec![v], n: r.len(), rows: vec![Rc::new(r)], cols: Default::default(), exact: true }));
        }
        Some(self.of[v as usize])
    }
    /// The group over which a term with these variables can be evaluated, joining groups when the product is small.
    fn join(&mut self, ts: &Terms, vars: &[u32]) -> Option<usize> {
        let mut gs: Vec<usize> = vec![];
        let mut miss = false;
        for v in vars {
            match self.group_of(ts, *v) {
                Some(g) => {
                    if !gs.contains(&g) {
                        gs.push(g)
                    }
                }
                None => miss = true,
            }
        }
        if miss || gs.is_empty() {
            return None;
        }
        let mut prod = 1usize;
        for g in &gs {
            prod = prod.saturating_mul(self.groups[*g].as_ref().unwrap().n);
        }
        if prod > LIMIT {
            return None;
        }
        let mut it = gs.into_iter();
        let mut acc = it.next().unwrap();
        for g in it {
            let a = self.groups[acc].take().unwrap();
            let b = self.groups[g].take().unwrap();
            let n = a.n * b.n;
            let ea = |v: &Rc<Vec<u64>>| Rc::new((0..n).map(|i| v[i / b.n.max(1)]).collect::<Vec<_>>());
            let eb = |v: &Rc<Vec<u64>>| Rc::new((0..n).map(|i| v[i % b.n.max(1)]).collect::<Vec<_>>());
            let mut rows: Vec<_> = a.rows.iter().map(ea).collect();
            rows.extend(b.rows.iter().map(eb));
            let mut vars = a.vars.clone();
            vars.extend(&b.vars);
            for v in &vars {
                self.of[*v as usize] = acc;
            }
            self.groups[acc] = Some(Group { vars, n, rows, cols: Default::default(), exact: a.exact && b.exact });
        }
        Some(acc)
    }
    /// A path condition that is true from here on.
    pub fn add(&mut self, ts: &Terms, t: T, vars: &[u32]) {
        let j = if ts.uf[t as usize] { None } else { self.join(ts, vars) };
        match j {
            Some(g) => {
                let g = self.groups[g].as_mut().unwrap();
                let c = g.col(ts, t);
                g.filter(&c);
            }
            None => {
                for v in vars {
                    if let Some(g) = self.group_of(ts, *v) {
                        self.groups[g].as_mut().unwrap().exact = false;
                    }
                }
            }
        }
    }
    pub fn ask(&mut self, ts: &Terms, t: T, vars: &[u32]) -> Ans {
        if ts.uf[t as usize] {
            return Ans::DontKnow;
        }
        let Some(g) = self.join(ts, vars) else { return Ans::DontKnow };
        let g = self.groups[g].as_mut().unwrap();
        let c = g.col(ts, t);
        match (0..g.n).find(|i| c.at(*i) != 0) {
            None => Ans::Unsat,
            Some(i) if g.exact => Ans::Sat(g.vars.iter().zip(&g.rows).map(|(v, r)| (*v, r[i] as u128)).collect()),
            _ => Ans::DontKnow,
        }
    }
    /// Values of a term on the rows of the group holding these variables.
    pub fn values(&mut self, ts: &Terms, t: T, g: usize) -> Vec<u128> {
        let g = self.groups[g].as_mut().unwrap();
        let c = g.col(ts, t);
        (0..g.n).map(|i| c.at(i)).collect()
    }
    pub fn index(&mut self, ts: &Terms, vars: &[u32]) -> Option<usize> {
        self.join(ts, vars)
    }
    /// The rows of the exact group holding these variables, when there are at most `max`.
    pub fn rows(&mut self, ts: &Terms, vars: &[u32], max: usize) -> Option<Vec<Vec<(u32, u128)>>> {
        let g = self.join(ts, vars)?;
        let g = self.groups[g].as_ref().unwrap();
        if !g.exact || g.n > max {
            return None;
        }
        Some((0..g.n).map(|i| g.vars.iter().zip(&g.rows).map(|(v, r)| (*v, r[i] as u128)).collect()).collect())
    }
}

/// Sets of variables that terms depend on.
#[derive(Default)]
pub struct Cones {
    id: Vec<u32>, // term -> set + 1, 0 when not known yet
    pub sets: Vec<Rc<Vec<u32>>>,
    find: HashMap<Vec<u32>, u32>,
    union: FxMap<u64, u32>,
}
impl Cones {
    fn intern(&mut self, v: Vec<u32>) -> u32 {
        if let Some(i) = self.find.get(&v) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(Rc::new(v.clone()));
        self.find.insert(v, i);
        i
    }
    fn join(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return a;
        }
        let k = (a.min(b) as u64) << 32 | a.max(b) as u64;
        if let Some(i) = self.union.get(&k) {
            return *i;
        }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).copied().collect();
        v.sort();
        v.dedup();
        let i = self.intern(v);
        self.union.insert(k, i);
        i
    }
    pub fn of(&mut self, ts: &Terms, t: T) -> u32 {
        if self.id.len() < ts.n.len() {
            self.id.resize(ts.n.len(), 0);
        }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.id[x as usize] != 0 {
                st.pop();
                continue;
            }
            let n = ts.get(x);
            let mut ready = true;
            for y in [n.a, n.b, n.c] {
                if y != NONE && self.id[y as usize] == 0 {
                    st.push(y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let mut s = if n.k == K::Var { self.intern(vec![n.imm as u32]) } else { self.intern(vec![]) };
            for y in [n.a, n.b, n.c] {
                if y != NONE {
                    s = self.join(s, self.id[y as usize] - 1);
                }
            }
            self.id[x as usize] = s + 1;
            st.pop();
        }
        self.id[t as usize] - 1
    }
}
