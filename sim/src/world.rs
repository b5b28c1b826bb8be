//! Model state of a run: which terms exist, what they denote, which operations are legal.
//! Knows nothing about the crate under test.

use crate::aci::{Aci, AstId};
use crate::dfa::{Dfa, DfaId, Langs};
use crate::plan::*;
use std::collections::BTreeMap;
use std::sync::Arc;

/// horizon of terms with gigantic loop bounds: the model is exact for words up to this length
pub const HZ: u32 = 6;
/// loop bounds above this are "gigantic"
pub const BIG: u32 = 1200;
pub const EXACT: u32 = u32::MAX;
/// closure operations are scheduled only if a textbook derivative engine needs at most this many
pub const CLOSURE_CAP: usize = 400;

#[derive(Clone, Debug)]
pub struct Info {
    pub dfa: Arc<Dfa>,
    pub id: DfaId,
    pub h: u32,
    /// reference closure size, 0 = closure operations not allowed / not computed
    pub nref: u32,
    /// effort of the textbook engine for that closure
    pub work: u64,
}

#[derive(Clone, Debug)]
pub struct MTerm {
    pub th: u8,
    pub mg: u8,
    pub dfa: DfaId,
    pub h: u32,
    pub ast: Option<AstId>,
    /// upper bound on the loop bounds a flattening implementation may compute for this term
    pub mag: u64,
    pub step: Step,
}

/// a step annotated with everything the executing thread needs to know from the model
#[derive(Clone, Debug)]
pub struct Ann {
    pub step: Step,
    pub args: Vec<Info>,
    pub out: Option<Info>,
    pub recipe: Vec<Step>,
}

pub struct World {
    pub cfg: Cfg,
    pub langs: Langs,
    pub aci: Aci,
    pub terms: BTreeMap<u32, MTerm>,
    pub pool: BTreeMap<(u8, u8), Vec<u32>>,
    pub builders: BTreeMap<u32, u8>,
    pub autos: BTreeMap<u32, u8>,
    /// thread and end of the last interval
    pub parts: BTreeMap<u32, (u8, Option<u32>)>,
    /// circulating strings: thread
    pub strs: BTreeMap<u32, u8>,
    pub fillers: BTreeMap<u32, (u8, u8)>,
}

fn needs_closure(op: Op) -> bool {
    matches!(
        op,
        Op::Compile
            | Op::TryCompile
            | Op::IsEmpty
            | Op::GetString
            | Op::StartChar
            | Op::StartClass
            | Op::Iter
            | Op::AFromT
    )
}

/// operations that exist only as ReManager methods
pub fn explicit_only(op: Op) -> bool {
    needs_closure(op)
        || matches!(
            op,
            Op::CharDeriv
                | Op::StrDeriv
                | Op::ClassDeriv
                | Op::SetDeriv
                | Op::IterCancel
                | Op::Classes
                | Op::NewMgr
        )
}

impl World {
    pub fn new(cfg: &Cfg) -> World {
        let k = cfg.k();
        World {
            cfg: cfg.clone(),
            langs: Langs::new(k, cfg.raw_cap as usize, cfg.cap as usize),
            aci: Aci::new(k),
            terms: BTreeMap::new(),
            pool: BTreeMap::new(),
            builders: BTreeMap::new(),
            autos: BTreeMap::new(),
            parts: BTreeMap::new(),
            strs: BTreeMap::new(),
            fillers: BTreeMap::new(),
        }
    }

    /// (closure size, work) of the textbook engine
    pub fn closure(&mut self, id: u32) -> Option<(u32, u64)> {
        let t = self.terms.get(&id)?;
        if t.h != EXACT {
            return None;
        }
        self.aci.closure(t.ast?, CLOSURE_CAP)
    }


    /// Is this a small term: cheap for an engine that knows no simplification but associativity,
    /// commutativity, idempotence and the neutral elements, and without large loop bounds?
    pub fn light(&self, id: u32) -> bool {
        use crate::aci::{LIGHT, LIGHT_BOUNDS};
        let t = match self.terms.get(&id) {
            Some(t) if t.h == EXACT && t.mag <= LIGHT_BOUNDS => t,
            _ => return false,
        };
        let a = match t.ast {
            Some(a) => a,
            None => return false,
        };
        let mut b = Aci::new(self.cfg.k());
        b.absorb = false;
        let a = b.import(&self.aci, a);
        b.closure(a, CLOSURE_CAP).map_or(false, |x| x.1 <= LIGHT)
    }

    fn info(&mut self, id: u32, closure: bool) -> Info {
        let t = &self.terms[&id];
        let (d, h) = (t.dfa, t.h);
        let cl = if closure { self.closure(id).unwrap_or((0, 0)) } else { (0, 0) };
        Info {
            dfa: self.langs.get(d),
            id: d,
            h,
            nref: cl.0,
            work: cl.1,
        }
    }

    fn live(&self, id: u32, th: u8, mg: u8) -> Option<&MTerm> {
        self.terms.get(&id).filter(|t| t.th == th && t.mg == mg)
    }

    /// language, horizon and textbook AST of the result of a term-making step
    fn denote(&mut self, s: &Step) -> Option<(DfaId, u32, Option<AstId>, u64)> {
        let k = self.cfg.k();
        let args: Vec<(DfaId, u32, Option<AstId>)> = s
            .a
            .iter()
            .map(|id| self.live(*id, s.th, s.mg).map(|t| (t.dfa, t.h, t.ast)))
            .collect::<Option<Vec<_>>>()?;
        let h = args.iter().map(|x| x.1).min().unwrap_or(EXACT);
        let asts: Option<Vec<AstId>> = args.iter().map(|x| x.2).collect();
        let asts = if self.aci.overfull() { None } else { asts };
        let n = |i: usize| s.n.get(i).copied();
        let need = |c: usize| if args.len() == c { Some(()) } else { None };
        let l = &mut self.langs;
        let aci = &mut self.aci;
        let mut h_out = h;
        // clamp gigantic loop bounds
        let mut lp = |l: &mut Langs, aci: &mut Aci, i: u32, j: Option<u32>| -> Option<(DfaId, Option<AstId>)> {
            let (mut i2, mut j2, mut big) = (i, j, false);
            if i > BIG {
                i2 = HZ + 1;
                j2 = match j {
                    Some(j) if j < i => return Some((l.empty(), Some(Aci::EMPTY))),
                    _ => None,
                };
                big = true;
            } else if let Some(jj) = j {
                if jj > BIG {
                    j2 = None;
                    big = true;
                }
            }
            if big {
                h_out = h_out.min(HZ);
            }
            let d = l.looped(args[0].0, i2, j2)?;
            let a = if big {
                None
            } else {
                asts.as_ref().map(|v| aci.looped(v[0], i, j))
            };
            Some((d, a))
        };
        let (d, a) = match s.op {
            Op::Const => match n(0)? {
                0 => (l.empty(), Some(Aci::EMPTY)),
                1 => (l.full(), Some(Aci::FULL)),
                2 => (l.eps(), Some(Aci::EPS)),
                3 => {
                    let e = l.eps();
                    (l.compl(e), Some(aci.not(Aci::EPS)))
                }
                _ => (l.range(0, k - 1), Some(Aci::SIGMA)),
            },
            Op::Range => {
                let (lo, hi) = (n(0)? as usize, n(1)? as usize);
                if lo > hi || hi >= k {
                    return None;
                }
                (l.range(lo, hi), Some(aci.range(lo as u8, hi as u8)))
            }
            Op::Str => {
                let w: Vec<u8> = s.n.iter().map(|x| *x as u8).collect();
                if w.iter().any(|b| *b as usize >= k || !self.cfg.singleton(*b as usize)) {
                    return None;
                }
                let mut a = Aci::EPS;
                for b in w.iter().rev() {
                    let r = aci.range(*b, *b);
                    a = aci.cat(r, a);
                }
                (l.word(&w)?, Some(a))
            }
            Op::BadRange => (l.empty(), Some(Aci::EMPTY)),
            Op::Concat => {
                need(2)?;
                let d = l.concat(args[0].0, args[1].0)?;
                (d, asts.map(|v| aci.cat(v[0], v[1])))
            }
            Op::ConcatList => {
                let mut d = l.eps();
                for x in args.iter().rev() {
                    d = l.concat(x.0, d)?;
                }
                let a = asts.map(|v| v.iter().rev().fold(Aci::EPS, |r, x| aci.cat(*x, r)));
                (d, a)
            }
            Op::Union | Op::UnionList => {
                if s.op == Op::Union {
                    need(2)?;
                }
                let mut d = l.empty();
                for x in &args {
                    d = l.union(d, x.0)?;
                }
                (d, asts.map(|v| aci.or(&v)))
            }
            Op::Inter | Op::InterList => {
                if s.op == Op::Inter {
                    need(2)?;
                }
                let mut d = l.full();
                for x in &args {
                    d = l.inter(d, x.0)?;
                }
                (d, asts.map(|v| aci.and(&v)))
            }
            Op::Diff | Op::DiffList => {
                if s.op == Op::Diff {
                    need(2)?;
                }
                if args.is_empty() {
                    return None;
                }
                let mut d = args[0].0;
                for x in &args[1..] {
                    let c = l.compl(x.0);
                    d = l.inter(d, c)?;
                }
                let a = asts.map(|v| {
                    let w: Vec<AstId> = v
                        .iter()
                        .enumerate()
                        .map(|(i, x)| if i == 0 { *x } else { aci.not(*x) })
                        .collect();
                    aci.and(&w)
                });
                (d, a)
            }
            Op::Compl => {
                need(1)?;
                (l.compl(args[0].0), asts.map(|v| aci.not(v[0])))
            }
            Op::Star => {
                need(1)?;
                lp(l, aci, 0, None)?
            }
            Op::Plus => {
                need(1)?;
                lp(l, aci, 1, None)?
            }
            Op::Opt => {
                need(1)?;
                lp(l, aci, 0, Some(1))?
            }
            Op::Exp => {
                need(1)?;
                let k = n(0)?;
                lp(l, aci, k, Some(k))?
            }
            Op::Loop => {
                need(1)?;
                let (i, j) = (n(0)?, n(1)?);
                if i > j {
                    return None;
                }
                lp(l, aci, i, Some(j))?
            }
            Op::LoopInf => {
                need(1)?;
                let i = n(0)?;
                if s.mg == 0 && i > 1 {
                    return None;
                }
                lp(l, aci, i, None)?
            }
            Op::SmtLoop => {
                need(1)?;
                lp(l, aci, n(0)?, Some(n(1)?))?
            }
            Op::CharDeriv | Op::ClassDeriv | Op::SetDeriv | Op::StrDeriv => {
                need(1)?;
                let w: Vec<u32> = if s.op == Op::StrDeriv {
                    s.n.clone()
                } else {
                    vec![n(0)?]
                };
                let mut d = args[0].0;
                let mut a = asts.map(|v| v[0]);
                for b in &w {
                    if *b as usize >= k {
                        return None;
                    }
                    d = l.quot(d, *b as usize);
                    a = a.map(|x| aci.deriv(x, *b as u8));
                }
                if h != EXACT {
                    if (w.len() as u32) > h {
                        return None;
                    }
                    h_out = h - w.len() as u32;
                }
                (d, a)
            }
            _ => return None,
        };
        // arithmetic on loop bounds may legitimately overflow once bounds multiply up
        let mags: Vec<u64> = s.a.iter().map(|id| self.terms[id].mag).collect();
        let sum = mags.iter().fold(0u64, |x, y| x.saturating_add(*y)).max(1);
        let mag = match s.op {
            Op::Exp => sum.saturating_mul(n(0)?.max(1) as u64),
            Op::Loop | Op::SmtLoop => sum.saturating_mul(n(0)?.max(n(1)?).max(1) as u64),
            Op::LoopInf => sum.saturating_mul(n(0)? as u64 + 2),
            Op::Star | Op::Plus => sum.saturating_mul(3),
            Op::Str => (s.n.len() as u64).max(1),
            _ => sum,
        };
        if mag > 100_000_000 {
            h_out = h_out.min(HZ);
        }
        let a = if h_out != EXACT { None } else { a };
        Some((d, h_out, a, mag))
    }

    fn recipe(&self, id: u32) -> Option<Vec<Step>> {
        let mut need = vec![id];
        let mut set = std::collections::BTreeSet::new();
        while let Some(x) = need.pop() {
            if set.insert(x) {
                let t = self.terms.get(&x)?;
                need.extend(t.step.a.iter().copied());
            }
            if set.len() > 150 {
                return None;
            }
        }
        Some(set.iter().map(|x| self.terms[x].step.clone()).collect())
    }

    /// Check legality, update the model.  None: the step is not applicable (skipped).
    pub fn apply(&mut self, s: &Step) -> Option<Ann> {
        if s.th >= self.cfg.threads {
            return None;
        }
        if s.mg == 0 && explicit_only(s.op) {
            return None;
        }
        let mut ann = Ann {
            step: s.clone(),
            args: vec![],
            out: None,
            recipe: vec![],
        };
        match s.op {
            op if op.makes_term() => {
                let (d, h, ast, mag) = self.denote(s)?;
                for a in &s.a {
                    let i = self.info(*a, false);
                    ann.args.push(i);
                }
                ann.out = Some(Info {
                    dfa: self.langs.get(d),
                    id: d,
                    h,
                    nref: 0,
                    work: 0,
                });
                self.terms.insert(
                    s.id,
                    MTerm {
                        th: s.th,
                        mg: s.mg,
                        dfa: d,
                        h,
                        ast,
                        mag,
                        step: s.clone(),
                    },
                );
                self.pool.entry((s.th, s.mg)).or_default().push(s.id);
            }
            Op::EqAudit | Op::BadArg => (),
            Op::Filler => {
                self.fillers.insert(s.id, (s.th, s.mg));
            }
            Op::FillerAudit => {
                let f = self.fillers.get(s.a.first()?)?;
                if *f != (s.th, s.mg) {
                    return None;
                }
            }
            Op::NewMgr => self.forget(|t| t.0 == s.th && t.1 == s.mg),
            Op::ThreadRestart => self.forget(|t| t.0 == s.th),
            Op::BNew => {
                self.builders.insert(s.id, s.th);
            }
            Op::BFinal | Op::BDef | Op::BTrans | Op::BBulk | Op::BBuild | Op::BBuildU => {
                if *self.builders.get(s.a.first()?)? != s.th {
                    return None;
                }
            }
            Op::AGen => {
                self.autos.insert(s.id, s.th);
            }
            Op::AMin | Op::APrune | Op::AAudit | Op::ACancel | Op::ADrop => {
                if *self.autos.get(s.a.first()?)? != s.th {
                    return None;
                }
                if s.op == Op::ADrop {
                    self.autos.remove(&s.a[0]);
                }
            }
            Op::PNew => {
                if let Some(v) = crate::parts::made(&s.n) {
                    self.parts.insert(s.id, (s.th, v.last().map(|l| l.1)));
                } else if matches!(crate::parts::spec(&s.n).0, 3 | 5) {
                    return None;
                }
            }
            Op::PMerge => {
                let mut last = None;
                for a in &s.a {
                    let p = self.parts.get(a)?;
                    if p.0 != s.th {
                        return None;
                    }
                    last = last.max(p.1);
                }
                self.parts.insert(s.id, (s.th, last));
            }
            Op::PPush | Op::PClone | Op::PAudit | Op::PDrop => {
                let p = *self.parts.get(s.a.first()?)?;
                if p.0 != s.th {
                    return None;
                }
                match s.op {
                    Op::PPush => {
                        let mut last = p.1;
                        if s.n.is_empty() || s.n.len() % 2 != 0 {
                            return None;
                        }
                        for c in s.n.chunks(2) {
                            if c[0] > c[1] || c[1] > MAX_CHAR || last.map_or(false, |l| c[0] <= l) {
                                return None;
                            }
                            last = Some(c[1]);
                        }
                        self.parts.insert(s.a[0], (s.th, last));
                    }
                    Op::PClone => {
                        self.parts.insert(s.id, p);
                    }
                    Op::PDrop => {
                        self.parts.remove(&s.a[0]);
                    }
                    _ => (),
                }
            }
            Op::SNew => {
                self.strs.insert(s.id, s.th);
            }
            Op::SOp | Op::SUse | Op::SRepl | Op::SGet | Op::SDrop => {
                // the term, if any, comes first
                let terms = match s.op {
                    Op::SGet | Op::SRepl => 1,
                    _ => 0,
                };
                if s.a.len() < terms + (s.op != Op::SGet) as usize || (s.op == Op::SRepl && s.mg != 0) || (s.op == Op::SGet && s.mg == 0) {
                    return None;
                }
                for (i, a) in s.a.iter().enumerate() {
                    if i < terms {
                        self.live(*a, s.th, s.mg)?;
                    } else if *self.strs.get(a)? != s.th {
                        return None;
                    }
                }
                if terms > 0 {
                    let i = self.info(s.a[0], s.op == Op::SGet);
                    if s.op == Op::SGet && i.nref == 0 {
                        return None;
                    }
                    ann.args.push(i);
                }
                match s.op {
                    Op::SDrop => {
                        self.strs.remove(&s.a[0]);
                    }
                    Op::SUse => (),
                    _ => {
                        self.strs.insert(s.id, s.th);
                    }
                }
            }
            Op::Repl | Op::ReplAll if s.mg != 0 => return None,
            Op::Reissue | Op::Twin => {
                let t = self.live(*s.a.first()?, s.th, s.mg)?;
                if s.op == Op::Reissue {
                    if !t.step.op.is_ctor() {
                        return None;
                    }
                    ann.recipe = vec![t.step.clone()];
                    // arguments must still be live (same epoch); they are if the term is
                } else {
                    ann.recipe = self.recipe(s.a[0])?;
                }
                let i = self.info(s.a[0], s.op == Op::Twin);
                ann.args.push(i);
            }
            Op::Reentrant if s.mg != 0 => return None,
            _ => {
                // queries and faults over live terms
                for a in &s.a {
                    self.live(*a, s.th, s.mg)?;
                }
                let first_only = matches!(s.op, Op::Incl | Op::InclAll | Op::UnionLoss);
                if s.a.is_empty() {
                    return None;
                }
                let cl = !first_only
                    && (needs_closure(s.op) || matches!(s.op, Op::Lang | Op::Classes | Op::ComplInv));
                for a in &s.a {
                    let i = self.info(*a, cl);
                    if needs_closure(s.op) && i.nref == 0 {
                        // a bounded compile is fine on anything
                        let bounded = s.op == Op::TryCompile && s.n.first().map_or(false, |x| *x <= 64);
                        if !bounded {
                            return None;
                        }
                    }
                    ann.args.push(i);
                }
                if s.op == Op::AFromT {
                    self.autos.insert(s.id, s.th);
                }
                if s.op == Op::UnionLoss {
                    let mut d = self.langs.empty();
                    let mut h = EXACT;
                    for a in &s.a {
                        let t = self.terms[a].clone();
                        d = self.langs.union(d, t.dfa)?;
                        h = h.min(t.h);
                    }
                    ann.out = Some(Info {
                        dfa: self.langs.get(d),
                        id: d,
                        h,
                        nref: 0,
                        work: 0,
                    });
                }
            }
        }
        Some(ann)
    }

    fn forget(&mut self, f: impl Fn((u8, u8)) -> bool) {
        self.terms.retain(|_, t| !f((t.th, t.mg)));
        self.pool.retain(|k, _| !f(*k));
        self.fillers.retain(|_, k| !f(*k));
        // builders belong to a thread; a manager replacement does not touch them
        let gone: Vec<u32> = self
            .builders
            .iter()
            .filter(|(_, th)| (0..=8u8).all(|m| f((**th, m))))
            .map(|x| *x.0)
            .collect();
        for g in gone {
            self.builders.remove(&g);
        }
        let gone: Vec<u32> = self
            .autos
            .iter()
            .filter(|(_, th)| (0..=8u8).all(|m| f((**th, m))))
            .map(|x| *x.0)
            .collect();
        for g in gone {
            self.autos.remove(&g);
        }
        self.strs.retain(|_, p| !(0..=8u8).all(|m| f((*p, m))));
        self.parts.retain(|_, p| !(0..=8u8).all(|m| f((p.0, m))));
    }
}
