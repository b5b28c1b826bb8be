//! The executing side: one instance per simulated thread.  Performs the real calls on the real
//! crate and judges the answers against the model information attached to each step.

use crate::dfa::Dfa;
use crate::plan::*;
use crate::prng::*;
use crate::rt;
use crate::world::{Ann, Info, EXACT};
use aws_smt_strings::automata::{Automaton, AutomatonBuilder, State};
use aws_smt_strings::character_sets::{CharSet, ClassId};
use aws_smt_strings::errors::Error;
use aws_smt_strings::loop_ranges::LoopRange;
use aws_smt_strings::regular_expressions::{leaves, sub_terms, ReManager, RegLan, RE};
use aws_smt_strings::smt_regular_expressions as smt;
use aws_smt_strings::smt_strings::SmtString;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: u8,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub digest: u64,
    pub viol: Option<Viol>,
    pub stats: Vec<(&'static str, u64)>,
    pub skipped: bool,
    pub trace: String,
}

/// allocations one step may spend on language comparisons before it settles for what it has seen
pub const WALK_BUDGET: u64 = 3_000_000;

thread_local! {
    static MAX_CALL: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i
            .location()
            .map(|l| format!(" at {}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = format!("{s}{loc}"));
    }));
}

/// run code of the crate under test: allocation points armed, panics caught
fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    rt::arm(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    let n = rt::arm(false);
    MAX_CALL.with(|m| m.set(m.get().max(n)));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

const INJECTED: &str = "simulated client iterator failure";

struct Filler {
    kind: u32,
    items: Vec<(Vec<u32>, RegLan)>,
}

pub struct Exec {
    cfg: Arc<Cfg>,
    prop: u8,
    mgrs: Vec<ReManager>,
    terms: Map<u32, RegLan>,
    by_mg: Vec<Vec<(u32, RegLan)>>,
    canon: Vec<Map<usize, u64>>,
    fillers: Map<u32, Filler>,
    builders: Map<u32, crate::builder::BState>,
    autos: Map<u32, crate::autos::Auto>,
    parts: Map<u32, crate::parts::Part>,
    strs: Map<u32, aws_smt_strings::smt_strings::SmtString>,
    stats: Map<&'static str, u64>,
    dig: Digest,
    viol: Option<Viol>,
    trace: String,
    tracing: bool,
}

pub const NMGR: usize = 4;

pub fn chars_of(cfg: &Cfg, w: &[u8], salt: u64) -> Vec<u32> {
    let mut x = salt;
    if w.len() > 20 && salt % 3 == 0 {
        // the same character of a block every time
        return w.iter().map(|b| cfg.pick(*b as usize, { let mut y = salt ^ *b as u64; splitmix(&mut y) })).collect();
    }
    w.iter().map(|b| cfg.pick(*b as usize, splitmix(&mut x))).collect()
}

/// the iterator hands out terms with the lifetime of the borrow; terms live as long as the manager
fn forever(x: &RE) -> RegLan {
    unsafe { &*(x as *const RE) }
}

pub fn smt_str(v: &[u32]) -> SmtString {
    SmtString::from(v)
}

fn show_w(v: &[u32]) -> String {
    if v.len() > 400 {
        return format!("[{} ... {} characters]", show_w(&v[..200]).trim_matches(['[', ']']), v.len());
    }
    let s: Vec<String> = v.iter().map(|c| format!("{c:x}")).collect();
    format!("[{}]", s.join(" "))
}

/// iterator that yields `k` items of the list and then panics
struct Faulty {
    v: Vec<RegLan>,
    i: usize,
    k: usize,
}
impl Iterator for Faulty {
    type Item = RegLan;
    fn next(&mut self) -> Option<RegLan> {
        if self.i == self.k {
            panic!("{INJECTED}");
        }
        let r = self.v.get(self.i).copied();
        self.i += 1;
        r
    }
}

/// legal iterator without a useful size hint
struct Shy {
    v: Vec<RegLan>,
    i: usize,
}
impl Iterator for Shy {
    type Item = RegLan;
    fn next(&mut self) -> Option<RegLan> {
        let r = self.v.get(self.i).copied();
        self.i += 1;
        r
    }
}

/// Perform a term-making step with the real API.  `m` = None: the thread-local manager through the
/// SMT-LIB-named wrappers.
fn construct(cfg: &Cfg, m: Option<&mut ReManager>, s: &Step, a: &[RegLan]) -> Result<RegLan, String> {
    let n = |i: usize| s.n.get(i).copied().unwrap_or(0);
    let style = s.salt % 3;
    macro_rules! lst {
        ($f:expr) => {{
            match style {
                0 => $f(a.to_vec()),
                1 => $f(Shy { v: a.to_vec(), i: 0 }.collect::<Vec<_>>()),
                _ => $f(a.iter().copied().collect::<Vec<_>>()),
            }
        }};
    }
    // a set inside the derivative class of c
    fn class_of(e: RegLan, c: u32) -> ClassId {
        for (i, r) in e.char_ranges().enumerate() {
            if r.contains(c) {
                return ClassId::Interval(i);
            }
        }
        ClassId::Complement
    }
    Ok(match m {
        None => match s.op {
            Op::Const => match n(0) {
                0 => smt::re_none(),
                1 => smt::re_all(),
                2 => smt::str_to_re(&SmtString::from("")),
                3 => smt::re_plus(smt::re_allchar()),
                _ => smt::re_allchar(),
            },
            Op::Range => {
                let (x, y) = (cfg.start(n(0) as usize), cfg.end(n(1) as usize));
                if x == y && n(2) == 3 {
                    smt::str_to_re(&smt_str(&[x]))
                } else {
                    smt::re_range(&smt_str(&[x]), &smt_str(&[y]))
                }
            }
            Op::Str => {
                let w: Vec<u32> = s.n.iter().map(|b| cfg.start(*b as usize)).collect();
                smt::str_to_re(&smt_str(&w))
            }
            Op::BadRange => {
                let (x, y) = bad_range(n(0));
                smt::re_range(&smt_str(&x), &smt_str(&y))
            }
            Op::Concat => smt::re_concat(a[0], a[1]),
            Op::ConcatList => lst!(smt::re_concat_list),
            Op::Union => smt::re_union(a[0], a[1]),
            Op::UnionList => lst!(smt::re_union_list),
            Op::Inter => smt::re_inter(a[0], a[1]),
            Op::InterList => lst!(smt::re_inter_list),
            Op::Diff => smt::re_diff(a[0], a[1]),
            Op::DiffList => smt::re_diff_list(a[0], a[1..].iter().copied()),
            Op::Compl => smt::re_comp(a[0]),
            Op::Star => smt::re_star(a[0]),
            Op::Plus => smt::re_plus(a[0]),
            Op::Opt => smt::re_opt(a[0]),
            Op::Exp => smt::re_power(a[0], n(0)),
            Op::Loop | Op::SmtLoop => smt::re_loop(a[0], n(0), n(1)),
            Op::LoopInf => match n(0) {
                0 => smt::re_star(a[0]),
                _ => smt::re_plus(a[0]),
            },
            _ => return Err("harness: not a wrapper operation".into()),
        },
        Some(m) => match s.op {
            Op::Const => match n(0) {
                0 => m.empty(),
                1 => m.full(),
                2 => m.epsilon(),
                3 => m.sigma_plus(),
                _ => m.all_chars(),
            },
            Op::Range => {
                let (x, y) = (cfg.start(n(0) as usize), cfg.end(n(1) as usize));
                match n(2) {
                    0 => m.range(x, y),
                    1 => m.char_set(CharSet::range(x, y)),
                    3 if x == y => m.char(x),
                    4 if x == y => m.char_set(CharSet::singleton(x)),
                    5 if x == y => m.str(&smt_str(&[x])),
                    _ => m.smt_range(&smt_str(&[x]), &smt_str(&[y])),
                }
            }
            Op::Str => {
                let w: Vec<u32> = s.n.iter().map(|b| cfg.start(*b as usize)).collect();
                m.str(&smt_str(&w))
            }
            Op::BadRange => {
                let (x, y) = bad_range(n(0));
                m.smt_range(&smt_str(&x), &smt_str(&y))
            }
            Op::Concat => m.concat(a[0], a[1]),
            Op::ConcatList => lst!(|v| m.concat_list(v)),
            Op::Union => m.union(a[0], a[1]),
            Op::UnionList => lst!(|v| m.union_list(v)),
            Op::Inter => m.inter(a[0], a[1]),
            Op::InterList => lst!(|v| m.inter_list(v)),
            Op::Diff => m.diff(a[0], a[1]),
            Op::DiffList => m.diff_list(a[0], a[1..].iter().copied()),
            Op::Compl => m.complement(a[0]),
            Op::Star => m.star(a[0]),
            Op::Plus => m.plus(a[0]),
            Op::Opt => m.opt(a[0]),
            Op::Exp => m.exp(a[0], n(0)),
            Op::Loop => m.mk_loop(a[0], LoopRange::finite(n(0), n(1))),
            Op::LoopInf => m.mk_loop(a[0], LoopRange::infinite(n(0))),
            Op::SmtLoop => m.smt_loop(a[0], n(0), n(1)),
            Op::CharDeriv => m.char_derivative(a[0], cfg.pick(n(0) as usize, s.salt)),
            Op::StrDeriv => {
                let w: Vec<u8> = s.n.iter().map(|x| *x as u8).collect();
                m.str_derivative(a[0], &smt_str(&chars_of(cfg, &w, s.salt)))
            }
            Op::ClassDeriv => {
                let c = cfg.pick(n(0) as usize, s.salt);
                let cid = class_of(a[0], c);
                if n(1) % 2 == 0 {
                    match m.class_derivative(a[0], cid) {
                        Ok(r) => r,
                        Err(e) => return Err(format!("class_derivative of listed class {cid} failed: {e:?}")),
                    }
                } else {
                    m.class_derivative_unchecked(a[0], cid)
                }
            }
            Op::SetDeriv => {
                let c = cfg.pick(n(0) as usize, s.salt);
                let (lo, hi) = class_interval(a[0], c);
                let lo = lo + if n(2) % 2 == 0 { 0 } else { c - lo };
                let hi = if n(2) % 3 == 0 { hi } else { c };
                let set = CharSet::range(lo, hi);
                if n(1) % 2 == 0 {
                    match m.set_derivative(a[0], &set) {
                        Ok(r) => r,
                        Err(e) => {
                            return Err(format!(
                                "set_derivative for [{lo:x},{hi:x}] inside one class failed: {e:?}"
                            ))
                        }
                    }
                } else {
                    m.set_derivative_unchecked(a[0], &set)
                }
            }
            _ => return Err("harness: not a constructor".into()),
        },
    })
}

/// maximal interval around c lying inside c's derivative class of e
pub fn class_interval(e: RegLan, c: u32) -> (u32, u32) {
    let (mut lo, mut hi) = (0, MAX_CHAR);
    for r in e.char_ranges() {
        let (s, t) = ends(r);
        if s <= c && c <= t {
            return (s, t);
        }
        if t < c {
            lo = lo.max(t + 1);
        }
        if s > c {
            hi = hi.min(s - 1);
        }
    }
    (lo, hi)
}

/// end points of a CharSet through its public interface
pub fn ends(r: &CharSet) -> (u32, u32) {
    let s = r.pick();
    // pick() is documented as "pick a character in the set": find the real end points by
    // bisection with contains()
    let (mut lo, mut hi) = (0u32, s);
    while lo < hi {
        let mid = (lo + hi) / 2;
        if r.contains(mid) {
            hi = mid
        } else {
            lo = mid + 1
        }
    }
    let start = lo;
    let (mut lo, mut hi) = (s, MAX_CHAR);
    while lo < hi {
        let mid = (lo + hi + 1) / 2;
        if r.contains(mid) {
            lo = mid
        } else {
            hi = mid - 1
        }
    }
    (start, lo)
}

fn bad_range(kind: u32) -> (Vec<u32>, Vec<u32>) {
    match kind % 5 {
        0 => (vec![], vec![97]),
        1 => (vec![97], vec![]),
        2 => (vec![97, 98], vec![99]),
        3 => (vec![98], vec![97]),
        _ => (vec![97], vec![98, 99]),
    }
}

fn filler_word(kind: u32, i: u32, base: u32) -> Vec<u32> {
    let a = (base.wrapping_add(i.wrapping_mul(7))) % (MAX_CHAR + 1);
    let b = (base.wrapping_add(i.wrapping_mul(13)).wrapping_add(5)) % (MAX_CHAR + 1);
    match kind % 4 {
        0 => vec![a, b],
        1 => vec![a],
        2 => vec![a.min(b), a.max(b)],
        _ => vec![a, b, a],
    }
}

/// filler terms: kind 0: x.y; 1: [x, x+3] (clamped) ; 2: x | [y,z]; 3: the string xyx
fn filler_make(m: Option<&mut ReManager>, kind: u32, w: &[u32]) -> RegLan {
    match m {
        Some(m) => match kind % 4 {
            0 => {
                let (x, y) = (m.char(w[0]), m.char(w[1]));
                m.concat(x, y)
            }
            1 => m.range(w[0], (w[0] + 3).min(MAX_CHAR)),
            2 => {
                let (x, y) = (m.char(w[0]), m.range(w[1], MAX_CHAR));
                m.union(x, y)
            }
            _ => m.str(&smt_str(w)),
        },
        None => match kind % 4 {
            0 => smt::re_concat(smt::str_to_re(&smt_str(&w[..1])), smt::str_to_re(&smt_str(&w[1..2]))),
            1 => smt::re_range(&smt_str(&w[..1]), &smt_str(&[(w[0] + 3).min(MAX_CHAR)])),
            2 => smt::re_union(
                smt::str_to_re(&smt_str(&w[..1])),
                smt::re_range(&smt_str(&w[1..2]), &smt_str(&[MAX_CHAR])),
            ),
            _ => smt::str_to_re(&smt_str(w)),
        },
    }
}

fn filler_accepts(kind: u32, w: &[u32], s: &[u32]) -> bool {
    match kind % 4 {
        0 => s == w,
        1 => s.len() == 1 && s[0] >= w[0] && s[0] <= (w[0] + 3).min(MAX_CHAR),
        2 => s.len() == 1 && (s[0] == w[0] || s[0] >= w[1]),
        _ => s == w,
    }
}

impl Exec {
    pub fn new(cfg: Arc<Cfg>, tracing: bool) -> Exec {
        Exec {
            prop: cfg.prop,
            cfg,
            mgrs: (0..NMGR).map(|_| ReManager::new()).collect(),
            terms: Map::default(),
            by_mg: vec![vec![]; NMGR],
            canon: vec![Map::default(); NMGR],
            fillers: Map::default(),
            builders: Map::default(),
            autos: Map::default(),
            parts: Map::default(),
            strs: Map::default(),
            stats: Map::default(),
            dig: Digest::new(),
            viol: None,
            trace: String::new(),
            tracing,
        }
    }

    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    fn statn(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }

    fn fail(&mut self, prop: u8, class: &str, msg: String) {
        if prop == self.prop && self.viol.is_none() {
            self.viol = Some(Viol {
                prop,
                class: class.into(),
                msg,
            });
        }
    }

    fn mgr(&mut self, mg: u8) -> Option<&mut ReManager> {
        if mg == 0 {
            None
        } else {
            Some(&mut self.mgrs[mg as usize])
        }
    }

    /// stable small number of a term within its manager (never its address)
    fn cn(&mut self, mg: u8, t: RegLan) -> u64 {
        let c = &mut self.canon[mg as usize];
        let n = c.len() as u64;
        *c.entry(t as *const _ as usize).or_insert(n)
    }

    fn in_re(&mut self, mg: u8, w: &[u32], t: RegLan) -> Result<bool, String> {
        let s = smt_str(w);
        match self.mgr(mg) {
            None => call(|| smt::str_in_re(&s, t)),
            Some(m) => call(|| m.str_in_re(&s, t)),
        }
    }

    pub fn step(&mut self, ann: &Ann) -> Outcome {
        self.dig = Digest::new();
        self.stats = Map::default();
        self.viol = None;
        self.trace = String::new();
        rt::step_begin(ann.step.pre as u64);
        MAX_CALL.with(|m| m.set(0));
        let skipped = !self.dispatch(ann);
        let (n, fired) = rt::step_counts();
        if fired > 0 {
            self.stat("fault.preempt_at_alloc");
        }
        self.statn("alloc_points", n);
        let mx = MAX_CALL.with(|m| m.get());
        self.statn("max.call_allocations", mx);
        let work = ann.args.iter().map(|i| i.work).max().unwrap_or(0);
        if work > 0 {
            if work <= crate::aci::LIGHT {
                self.statn("max.light_call_allocations", mx);
            }
            self.statn("max.allocations_per_work", mx / work);
        }
        self.dig.add(skipped as u64);
        let mut st: Vec<(&'static str, u64)> = self.stats.iter().map(|(k, v)| (*k, *v)).collect();
        st.sort();
        Outcome {
            digest: self.dig.0,
            viol: self.viol.take(),
            stats: st,
            skipped,
            trace: std::mem::take(&mut self.trace),
        }
    }

    fn tr(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push_str(&s);
            self.trace.push(' ');
        }
    }

    fn args(&self, s: &Step) -> Option<Vec<RegLan>> {
        s.a.iter().map(|x| self.terms.get(x).copied()).collect()
    }

    /// returns false if the step could not be performed (an argument is missing)
    fn dispatch(&mut self, ann: &Ann) -> bool {
        let s = &ann.step;
        let mg = s.mg;
        if s.op.makes_term() {
            let a = match self.args(s) {
                Some(a) => a,
                None => return false,
            };
            return self.do_make(ann, &a);
        }
        match s.op {
            Op::Filler => {
                self.do_filler(s);
                return true;
            }
            Op::FillerAudit => {
                self.do_filler_audit(s);
                return true;
            }
            Op::EqAudit => {
                self.do_eq_audit(mg);
                return true;
            }
            Op::BadArg => {
                let t = s.a.first().and_then(|x| self.terms.get(x).copied());
                self.do_bad_arg(s, t);
                return true;
            }
            Op::NewMgr => {
                self.forget(mg);
                self.fillers.retain(|_, f| f.kind >> 8 != mg as u32);
                self.mgrs[mg as usize] = ReManager::new();
                self.stat("fault.manager_replaced");
                return true;
            }
            Op::BNew | Op::BFinal | Op::BDef | Op::BTrans | Op::BBulk | Op::BBuild | Op::BBuildU => {
                let mut b = std::mem::take(&mut self.builders);
                let r = crate::builder::step(&mut b, s, |f| call(f).map_err(|e| e));
                self.builders = b;
                if s.op == Op::BBuild && self.prop == 13 {
                    let mut rng = Rng::new(s.salt ^ 0x7a57);
                    if rng.below(30_000) == 0 {
                        let v = crate::vast::automaton(&mut rng, 13, &|f| call(f));
                        self.vast(v);
                    }
                }
                for (k, v) in r.stats {
                    self.statn(k, v);
                }
                self.dig.add(r.digest);
                if let Some((c, m)) = r.viol {
                    self.fail(13, &c, m);
                }
                return true;
            }
            Op::AGen | Op::AMin | Op::APrune | Op::AAudit | Op::ACancel | Op::ADrop => return self.do_auto(s),
            Op::PNew | Op::PPush | Op::PMerge | Op::PClone | Op::PAudit | Op::PDrop => return self.do_part(s),
            Op::SNew | Op::SOp | Op::SUse | Op::SRepl | Op::SGet | Op::SDrop => return self.do_str(ann),
            _ => (),
        }
        let a = match self.args(s) {
            Some(a) => a,
            None => return false,
        };
        let (t, info) = (a[0], &ann.args[..]);
        match s.op {
            Op::Reissue => self.do_reissue(ann, t),
            Op::Twin => self.do_twin(ann, t),
            Op::ComplInv => self.do_compl_inv(s, t),
            Op::InRe => {
                let salt = s.salt;
                let d = &info[0].dfa;
                let mut rng = Rng::new(salt);
                let len = rng.below(9).min(info[0].h as u64) as usize;
                let w = d.random_word(&mut rng, len);
                if self.one_word(1, mg, t, &info[0], &w, salt) && self.prop == 1 {
                    if let Some(len) = long_len(&mut rng, info[0].nref as u32) {
                        let w = d.long_word(&mut rng, len.min(info[0].h as usize));
                        self.stat("probe.long_word");
                        self.one_word(1, mg, t, &info[0], &w, salt);
                    }
                }
            }
            Op::Lang => self.do_lang(s, t, &info[0]),
            Op::Compile => self.do_compile(s, t, &info[0]),
            Op::TryCompile => self.do_try_compile(s, t, &info[0]),
            Op::AFromT => self.do_auto_of_term(s, t),
            Op::IsEmpty => self.do_is_empty(s, t, &info[0]),
            Op::GetString => self.do_get_string(s, t, &info[0]),
            Op::StartChar => self.do_start_char(s, t, &info[0]),
            Op::StartClass => self.do_start_class(s, t, &info[0]),
            Op::Incl => {
                if a.len() < 2 {
                    return false;
                }
                self.do_incl(&a[..2], &[info[0].clone(), info[1].clone()]);
            }
            Op::InclAll => self.do_incl(&a, info),
            Op::UnionLoss => self.do_union_loss(ann, &a),
            Op::Iter => self.do_iter(s, t, &info[0]),
            Op::IterCancel => {
                let k = s.n.first().copied().unwrap_or(1).min(64) as usize;
                let m = self.mgr(mg).unwrap();
                let r = call(|| m.iter_derivatives(t).take(k).map(forever).collect::<Vec<RegLan>>());
                self.stat("fault.cancelled_iteration");
                match r {
                    Ok(v) => {
                        self.dig.add(v.len() as u64);
                        if v.is_empty() && k > 0 {
                            self.fail(19, "first", format!("iter_derivatives({t}) yields nothing"));
                        }
                        self.check_prefix(&v, t);
                    }
                    Err(e) => self.unexpected(19, "panic", &info[0], format!("iter_derivatives panicked: {e}")),
                }
            }
            Op::Classes => self.do_classes(s, t, &info[0]),
            Op::Repl | Op::ReplAll => self.do_replace(s, t, &info[0]),
            Op::Show => {
                let r = call(|| {
                    let x = format!("{t}");
                    (x.len(), sub_terms(t).count(), leaves(t).count())
                });
                if let Ok(r) = r {
                    self.dig.add(r.1 as u64);
                    self.dig.add(r.2 as u64);
                    if self.tracing {
                        let x = format!("{t}");
                        self.tr(|| x);
                    }
                }
            }
            Op::PanicIter => {
                let k = s.n.get(1).copied().unwrap_or(0) as usize % (a.len() + 1);
                let it = Faulty {
                    v: a.clone(),
                    i: 0,
                    k,
                };
                let kind = s.n.first().copied().unwrap_or(0) % 4;
                let r = match self.mgr(mg) {
                    None => call(|| match kind {
                        0 => smt::re_concat_list(it),
                        1 => smt::re_union_list(it),
                        2 => smt::re_inter_list(it),
                        _ => smt::re_diff_list(t, it),
                    }),
                    Some(m) => call(|| match kind {
                        0 => m.concat_list(it),
                        1 => m.union_list(it),
                        2 => m.inter_list(it),
                        _ => m.diff_list(t, it),
                    }),
                };
                self.stat("fault.iterator_panic");
                self.dig.add(r.is_ok() as u64);
            }
            Op::Reentrant => {
                let kind = s.n.first().copied().unwrap_or(0) % 4;
                let inner = s.n.get(1).copied().unwrap_or(0) % 10;
                let lit: Vec<u32> = (0..1 + s.salt % 3)
                    .map(|i| self.cfg.start(((s.salt >> (8 + 4 * i)) % self.cfg.k() as u64) as usize))
                    .collect();
                let lit = smt_str(&lit);
                let f = |x: RegLan| -> RegLan {
                    match inner {
                        0 => smt::re_star(x),
                        1 => smt::re_union(x, t),
                        2 => smt::re_comp(x),
                        3 => {
                            smt::str_in_re(&lit, x);
                            x
                        }
                        4 => smt::str_to_re(&lit),
                        5 => smt::re_range(&smt_str(&[lit.char(0)]), &smt_str(&[MAX_CHAR])),
                        6 => smt::re_loop(x, 1, 3),
                        7 => smt::re_concat(x, smt::re_allchar()),
                        8 => smt::re_inter(x, smt::re_comp(t)),
                        _ => {
                            smt::str_replace_re(&lit, x, &lit);
                            smt::re_opt(x)
                        }
                    }
                };
                let seen = std::cell::RefCell::new(vec![]);
                let r = {
                    let it = a.iter().map(|x| {
                        let y = f(x);
                        seen.borrow_mut().push((*x, y));
                        y
                    });
                    match kind {
                        0 => call(|| smt::re_concat_list(it)),
                        1 => call(|| smt::re_union_list(it)),
                        2 => call(|| smt::re_inter_list(it)),
                        _ => call(|| smt::re_diff_list(t, it)),
                    }
                };
                // an implementation may refuse re-entrant use (panic), but whatever it answers must
                // be the terms the same constructions yield outside
                let again = call(|| {
                    let ys: Vec<(RegLan, RegLan)> = seen.borrow().iter().map(|(x, y)| (*y, f(x))).collect();
                    let z = if r.is_ok() {
                        let v: Vec<RegLan> = a.iter().map(|x| f(x)).collect();
                        Some(match kind {
                            0 => smt::re_concat_list(v),
                            1 => smt::re_union_list(v),
                            2 => smt::re_inter_list(v),
                            _ => smt::re_diff_list(t, v),
                        })
                    } else {
                        None
                    };
                    (ys, z)
                });
                if let Ok((ys, z)) = again {
                    for (y, y2) in ys {
                        if !std::ptr::eq(y, y2) {
                            self.fail(
                                7,
                                "reentrant-term",
                                format!("a term built inside an operand iterator ({y}) is not the term the same construction gives outside ({y2})"),
                            );
                        }
                    }
                    if let (Ok(r), Some(z)) = (&r, z) {
                        if !std::ptr::eq(*r, z) {
                            self.fail(
                                7,
                                "reentrant-list",
                                format!("list constructor with a re-entrant iterator gave {r}, with the same operands in a vector {z}"),
                            );
                        }
                    }
                }
                self.stat("fault.reentrant_iterator");
                self.dig.add(r.is_ok() as u64);
            }
            _ => return false,
        }
        true
    }

    fn forget(&mut self, mg: u8) {
        for (id, _) in self.by_mg[mg as usize].drain(..) {
            self.terms.remove(&id);
        }
        self.canon[mg as usize].clear();
    }

    /// a panic is a legitimate outcome only when loop bounds may overflow
    fn unexpected(&mut self, prop: u8, class: &str, info: &Info, msg: String) {
        if info.h == EXACT {
            self.fail(prop, class, msg);
        } else {
            self.stat("fault.overflow_abort");
        }
        self.dig.add(0xdead);
    }

    fn do_make(&mut self, ann: &Ann, a: &[RegLan]) -> bool {
        let s = &ann.step;
        let out = ann.out.as_ref().unwrap();
        let cfg = self.cfg.clone();
        let r = {
            let m = self.mgr(s.mg);
            call(|| construct(&cfg, m, s, a))
        };
        let prop = if s.op.is_ctor() { 1 } else { 3 };
        match r {
            Ok(Ok(t)) => {
                self.terms.insert(s.id, t);
                self.by_mg[s.mg as usize].push((s.id, t));
                let c = self.cn(s.mg, t);
                self.dig.add(c);
                self.dig.add(t.nullable as u64);
                self.tr(|| format!("= #{c} {t}"));
                if t.nullable != out.dfa.fin[0] {
                    self.fail(
                        1,
                        "nullable",
                        format!("step {}: nullable flag of the new term is {}", s.id, t.nullable),
                    );
                }
                if prop == 3 && self.prop == 3 {
                    self.check_words(3, "quotient", s.mg, t, out, s.salt, 30);
                }
            }
            Ok(Err(e)) => {
                if !e.starts_with("harness") {
                    self.fail(3, "class-rejected", e);
                }
            }
            Err(e) => {
                self.tr(|| format!("= panic {e}"));
                let mut worst = out.clone();
                for x in &ann.args {
                    if x.h != EXACT {
                        worst.h = x.h;
                    }
                }
                self.unexpected(prop, "panic", &worst, format!("step {} ({}) panicked: {e}", s.id, s.op.name()));
            }
        }
        true
    }

    // ------------------------------------------------------------------ language comparison

    fn one_word(&mut self, prop: u8, mg: u8, t: RegLan, info: &Info, w: &[u8], salt: u64) -> bool {
        let cs = chars_of(&self.cfg.clone(), w, salt);
        match self.in_re(mg, &cs, t) {
            Ok(v) => {
                self.dig.add(v as u64);
                let exp = info.dfa.accepts(w);
                if v != exp {
                    self.fail(
                        prop,
                        "membership",
                        format!("str_in_re({}, {t}) = {v}, reference says {exp}", show_w(&cs)),
                    );
                    return false;
                }
            }
            Err(e) => {
                self.unexpected(prop, "panic", info, format!("str_in_re({}, {t}) panicked: {e}", show_w(&cs)));
                return false;
            }
        }
        true
    }

    fn check_words(&mut self, prop: u8, _class: &str, mg: u8, t: RegLan, info: &Info, salt: u64, max: usize) -> bool {
        let mut rng = Rng::new(salt ^ 0xabcdef);
        let suite = info.dfa.suite(&mut rng, max);
        self.statn("words", suite.len() as u64);
        for w in suite {
            if info.h != EXACT && w.len() as u32 > info.h {
                continue;
            }
            if !self.one_word(prop, mg, t, info, &w, rng.next()) {
                return false;
            }
        }
        true
    }

    /// product of derivatives with the reference DFA from state `start`: complete comparison on
    /// class representatives.  Ok(true): equal; Ok(false): gave up; Err: a word that disagrees.
    fn walk(&mut self, mg: u8, t: RegLan, dfa: &Dfa, start: usize, cap: usize, salt: u64) -> Result<bool, (Vec<u32>, String)> {
        if mg == 0 {
            return Ok(false);
        }
        let cfg = self.cfg.clone();
        let k = cfg.k();
        let mut seen: Map<(usize, usize), usize> = Map::default();
        let mut q: Vec<(RegLan, usize, usize, u32)> = vec![(t, start, usize::MAX, 0)];
        seen.insert((t as *const _ as usize, start), 0);
        let mut x = salt;
        let mut i = 0;
        let path = |q: &Vec<(RegLan, usize, usize, u32)>, mut j: usize| {
            let mut w = vec![];
            while q[j].2 != usize::MAX {
                w.push(q[j].3);
                j = q[j].2;
            }
            w.reverse();
            w
        };
        while i < q.len() {
            let (r, st, _, _) = q[i];
            if r.nullable != dfa.fin[st] {
                let w = path(&q, i);
                return Err((w, format!("derivative is {}nullable", if r.nullable { "" } else { "not " })));
            }
            for b in 0..k {
                let c = cfg.pick(b, splitmix(&mut x));
                let m = &mut self.mgrs[mg as usize];
                let d = match call(|| m.char_derivative(r, c)) {
                    Ok(d) => d,
                    Err(e) => {
                        let mut w = path(&q, i);
                        w.push(c);
                        return Err((w, format!("char_derivative panicked: {e}")));
                    }
                };
                let key = (d as *const _ as usize, dfa.next(st, b));
                if !seen.contains_key(&key) {
                    seen.insert(key, q.len());
                    q.push((d, key.1, i, c));
                }
            }
            if q.len() > cap || rt::step_counts().0 > WALK_BUDGET {
                self.stat("walk_capped");
                return Ok(false);
            }
            i += 1;
        }
        self.statn("walk_pairs", q.len() as u64);
        self.dig.add(q.len() as u64);
        Ok(true)
    }

    /// full language check of t against info; reports under `prop`
    fn lang(&mut self, prop: u8, mg: u8, t: RegLan, info: &Info, salt: u64, words: usize) -> bool {
        if !self.check_words(prop, "membership", mg, t, info, salt, words) {
            return false;
        }
        if info.nref > 0 && info.h == EXACT {
            let cap = 30 * info.nref as usize + 300;
            if let Err((w, why)) = self.walk(mg, t, &info.dfa.clone(), 0, cap, salt ^ 77) {
                // confirm through the membership test
                let cfg = self.cfg.clone();
                let bw: Vec<u8> = w.iter().map(|c| cfg.block_of(*c) as u8).collect();
                let exp = info.dfa.accepts(&bw);
                let got = self.in_re(mg, &w, t);
                if prop != 1 || got != Ok(exp) {
                    self.fail(
                        prop,
                        if why.contains("panicked") { "panic" } else { "language" },
                        format!("{t} on {}: {why}; membership {got:?}, reference {exp}", show_w(&w)),
                    );
                    return false;
                }
            }
        }
        true
    }

    fn do_lang(&mut self, s: &Step, t: RegLan, info: &Info) {
        if self.prop != 1 {
            self.one_word(1, s.mg, t, info, &[], s.salt);
            return;
        }
        if t.nullable != info.dfa.fin[0] {
            self.fail(1, "nullable", format!("{t}: nullable flag {}", t.nullable));
        }
        self.lang(1, s.mg, t, info, s.salt, 60);
        let mut rng = Rng::new(s.salt ^ 0x10f6);
        if info.h == EXACT {
            if let Some(len) = long_len(&mut rng, info.nref as u32) {
                let w = info.dfa.long_word(&mut rng, len);
                self.stat("probe.long_word");
                self.one_word(1, s.mg, t, info, &w, s.salt);
            }
        }
        self.stat("checks.language");
    }

    // ------------------------------------------------------------------ C02

    /// compare the automaton with the reference DFA; None = same
    fn auto_mismatch(&mut self, auto: &Automaton, dfa: &Dfa, salt: u64) -> Option<(String, String)> {
        let cfg = self.cfg.clone();
        let k = cfg.k();
        let mut x = salt;
        // critical characters: both ends and an inner character of every block
        let mut crit: Vec<(u32, usize)> = vec![];
        for b in 0..k {
            let (s, e) = (cfg.start(b), cfg.end(b));
            crit.push((s, b));
            if e != s {
                crit.push((e, b));
                crit.push((cfg.pick(b, splitmix(&mut x) | 2), b));
            }
        }
        let n = auto.num_states();
        let r = call(|| auto.initial_state().id());
        let q0 = match r {
            Ok(q) => q,
            Err(e) => return Some(("panic".into(), format!("initial_state panicked: {e}"))),
        };
        let mut seen: Set<(usize, usize)> = Set::default();
        let mut q = vec![(q0, 0usize, usize::MAX, 0u32)];
        seen.insert((q0, 0));
        let path = |q: &Vec<(usize, usize, usize, u32)>, mut j: usize| {
            let mut w = vec![];
            while q[j].2 != usize::MAX {
                w.push(q[j].3);
                j = q[j].2;
            }
            w.reverse();
            w
        };
        let mut i = 0;
        let mut used = vec![false; n];
        while i < q.len() {
            let (sid, st, _, _) = q[i];
            if sid >= n {
                return Some(("state-id".into(), format!("state id {sid} out of range")));
            }
            used[sid] = true;
            let state: &State = auto.state(sid);
            if state.is_final() != dfa.fin[st] {
                let w = path(&q, i);
                return Some((
                    "language".into(),
                    format!("after {} the automaton is in a {} state", show_w(&w), if dfa.fin[st] { "rejecting" } else { "accepting" }),
                ));
            }
            for (c, b) in &crit {
                let r = call(|| auto.next(state, *c).id());
                match r {
                    Ok(t) => {
                        let key = (t, dfa.next(st, *b));
                        if seen.insert(key) {
                            q.push((key.0, key.1, i, *c));
                        }
                    }
                    Err(e) => {
                        return Some(("not-total".into(), format!("next(state {sid}, {c:x}) panicked: {e}")));
                    }
                }
            }
            i += 1;
        }
        // states of the automaton that are not reachable still must be total
        for sid in 0..n {
            if !used[sid] {
                let state = auto.state(sid);
                for (c, _) in &crit {
                    if let Err(e) = call(|| auto.next(state, *c).id()) {
                        return Some(("not-total".into(), format!("next(state {sid}, {c:x}) panicked: {e}")));
                    }
                }
            }
        }
        // accepts / str_next agree with stepping on words
        let mut rng = Rng::new(salt);
        let mut suite = dfa.suite(&mut rng, 24);
        if let Some(len) = long_len(&mut rng, 1) {
            suite.push(dfa.long_word(&mut rng, len));
            self.stat("probe.long_word");
        }
        for w in suite {
            let cs = chars_of(&cfg, &w, rng.next());
            let ss = smt_str(&cs);
            let exp = dfa.accepts(&w);
            let r = call(|| (auto.accepts(&ss), auto.str_next(auto.initial_state(), &ss).is_final()));
            match r {
                Ok((a, f)) => {
                    if a != exp || f != exp {
                        return Some((
                            "accepts".into(),
                            format!("accepts({}) = {a}, str_next final = {f}, reference {exp}", show_w(&cs)),
                        ));
                    }
                }
                Err(e) => return Some(("not-total".into(), format!("accepts({}) panicked: {e}", show_w(&cs)))),
            }
        }
        None
    }

    fn do_compile(&mut self, s: &Step, t: RegLan, info: &Info) {
        let m = self.mgr(s.mg).unwrap();
        let r = call(|| m.compile(t));
        self.stat("ops.compile");
        match r {
            Ok(a) => {
                self.dig.add(a.num_states() as u64);
                self.dig.add(a.num_final_states() as u64);
                self.judge_auto(t, &a, info, s.salt, "compile");
            }
            Err(e) => {
                let p = self.prop;
                self.unexpected(if p == 19 { 19 } else { 2 }, "panic", info, format!("compile({t}) panicked: {e}"))
            }
        }
    }

    fn judge_auto(&mut self, t: RegLan, a: &Automaton, info: &Info, salt: u64, what: &str) {
        if self.prop == 2 && info.h == EXACT {
            self.stat("checks.automaton");
            if let Some((c, m)) = self.auto_mismatch(a, &info.dfa, salt) {
                self.fail(2, &c, format!("{what}({t}): {m}"));
            }
        }
    }

    fn do_try_compile(&mut self, s: &Step, t: RegLan, info: &Info) {
        let n = match s.n.first() {
            Some(n) if *n == u32::MAX => usize::MAX,
            Some(n) => *n as usize,
            None => 0,
        };
        let m = self.mgr(s.mg).unwrap();
        let r = call(|| m.try_compile(t, n));
        match r {
            Ok(Some(a)) => {
                self.dig.add(a.num_states() as u64);
                if n == 0 {
                    self.fail(19, "bound", format!("try_compile({t}, 0) returned an automaton"));
                }
                if a.num_states() > n {
                    self.fail(19, "bound", format!("try_compile({t}, {n}) returned {} states", a.num_states()));
                }
                self.judge_auto(t, &a, info, s.salt, "try_compile");
            }
            Ok(None) => {
                self.stat("fault.compile_refused_at_bound");
                self.dig.add(1);
            }
            Err(e) => {
                let p = if self.prop == 19 { 19 } else { 2 };
                self.unexpected(p, "panic", info, format!("try_compile({t},{n}) panicked: {e}"))
            }
        }
    }

    // ------------------------------------------------------------------ C04, C14

    fn auto_out(&mut self, o: crate::autos::AOut) {
        for (k, v) in o.stats {
            self.statn(k, v);
        }
        self.dig.add(o.digest);
        if let Some((p, c, m)) = o.viol {
            self.fail(p, &c, m);
        }
    }

    fn do_auto_of_term(&mut self, s: &Step, t: RegLan) {
        let mut rng = Rng::new(s.salt ^ 0x7a58);
        let large = matches!(self.prop, 4 | 14) && rng.below(40) == 0;
        let m = self.mgr(s.mg).unwrap();
        let r = call(|| {
            if large {
                // many classes, or many states with long common suffixes
                let x = crate::vast::term(&mut rng, m);
                return m.try_compile(x, 600);
            }
            if s.salt % 4 == 0 { m.try_compile(t, 300) } else { Some(m.compile(t)) }
        });
        if large && matches!(r, Ok(Some(_))) {
            self.stat("work.large_automata_compiled");
        }
        if let Ok(Some(a)) = r {
            let mut o = Default::default();
            let x = crate::autos::Auto::new(a, s.salt, &[], &|f| call(f), &mut o, "compiled");
            if let Some(x) = x {
                self.stat("work.automata_compiled");
                self.autos.insert(s.id, x);
            }
            self.auto_out(o);
        } else if r.is_err() {
            self.stat("fault.compile_aborted");
        }
    }

    fn do_auto(&mut self, s: &Step) -> bool {
        use crate::autos;
        let mut o = autos::AOut::default();
        let c: &dyn Fn(&mut dyn FnMut()) -> Result<(), String> = &|f| call(f);
        if s.op == Op::AGen {
            if let Some(x) = autos::generated(&s.n, s.salt, c, &mut o) {
                self.autos.insert(s.id, x);
            }
            self.auto_out(o);
            let mut rng = Rng::new(s.salt ^ 0x7a57);
            if matches!(self.prop, 4 | 14) && rng.below(4000) == 0 {
                let v = crate::vast::automaton(&mut rng, self.prop, &|f| call(f));
                self.vast(v);
            }
            return true;
        }
        let id = s.a[0];
        let mut x = match self.autos.remove(&id) {
            Some(x) => x,
            None => return false,
        };
        let keep = match s.op {
            Op::AMin => autos::minimize(&mut x, s.salt, c, &mut o),
            Op::APrune => autos::prune(&mut x, s.salt, c, &mut o),
            Op::AAudit => {
                autos::audit(&x, s.salt, c, &mut o);
                true
            }
            Op::ACancel => {
                autos::cancel(&x, s.n.first().copied().unwrap_or(0) as usize, c, &mut o);
                true
            }
            _ => false,
        };
        if keep {
            self.autos.insert(id, x);
        }
        self.auto_out(o);
        true
    }

    // ------------------------------------------------------------------ C17

    fn do_str(&mut self, ann: &Ann) -> bool {
        use crate::strs;
        let s = &ann.step;
        let mut o = strs::SOut::default();
        let c: &dyn Fn(&mut dyn FnMut()) -> Result<(), String> = &|f| call(f);
        let skip = match s.op {
            Op::SGet | Op::SRepl => 1,
            _ => 0,
        };
        let t = match skip {
            0 => None,
            _ => match self.terms.get(&s.a[0]) {
                Some(t) => Some(*t),
                None => return false,
            },
        };
        let mut xs = vec![];
        for a in s.a.iter().skip(skip) {
            match self.strs.get(a) {
                Some(x) => xs.push(x.clone()),
                None => return false,
            }
        }
        let mut new = None;
        match s.op {
            Op::SNew => {
                new = strs::create(&s.n, c, &mut o);
                let mut rng = Rng::new(s.salt ^ 0x7a57);
                if self.prop == 17 && rng.below(1500) == 0 {
                    let v = crate::vast::string(&mut rng, c);
                    self.vast(v);
                }
            }
            Op::SOp => {
                let v: Vec<&_> = xs.iter().collect();
                new = strs::transform(&v, &s.n, c, &mut o);
            }
            Op::SUse => {
                let b = xs.get(1).unwrap_or(&xs[0]);
                strs::use_plain(&xs[0], b, s.salt, c, &mut o);
                if xs[0].len() <= 400 && b.len() <= 400 {
                    match self.mgr(s.mg) {
                        Some(m) => strs::use_in(m, &xs[0], b, c, &mut o),
                        None => {
                            let r = call(|| {
                                let x = smt::str_to_re(&xs[0]);
                                let y = smt::re_range(&xs[0], b);
                                smt::str_in_re(b, x) as u64 * 2 + smt::str_in_re(b, y) as u64
                            });
                            match r {
                                Ok(x) => o.digest = mix(o.digest, x),
                                Err(e) => {
                                    let v = xs.iter().map(|x| strs::show(x.as_ref())).collect::<Vec<_>>().join(" ");
                                    o.viol = o.viol.or(Some(("use-panic".into(), format!("the wrappers given {v} panicked: {e}"))));
                                }
                            }
                        }
                    }
                }
            }
            Op::SGet => {
                let t = t.unwrap();
                let m = self.mgr(s.mg).unwrap();
                match call(|| m.get_string(t)) {
                    Ok(Some(w)) => {
                        self.stat("work.witnesses");
                        if o.judge(&w, &|| format!("get_string({t})"), None) {
                            new = Some(w)
                        }
                    }
                    Ok(None) => (),
                    Err(_) => self.dig.add(0xdead),
                }
            }
            Op::SRepl => {
                let t = t.unwrap();
                let all = s.n.first().copied().unwrap_or(0) % 2 == 1;
                let (a, b) = (&xs[0], xs.get(1).unwrap_or(&xs[0]));
                // long subjects and terms with huge bounds are C10's business
                let max = if ann.args[0].h == EXACT { 40 } else { ann.args[0].h as usize };
                if a.len() > max || b.len() > 100 {
                    return false;
                }
                let r = call(|| {
                    if all {
                        smt::str_replace_re_all(a, t, b)
                    } else {
                        smt::str_replace_re(a, t, b)
                    }
                });
                match r {
                    Ok(w) => {
                        self.stat("work.replacements");
                        if o.judge(&w, &|| format!("str_replace_re{}({}, {t}, {})", if all { "_all" } else { "" }, strs::show(a.as_ref()), strs::show(b.as_ref())), None) {
                            new = Some(w)
                        }
                    }
                    Err(e) => self.unexpected(17, "use-panic", &ann.args[0], format!("replacing in {} by {t} panicked: {e}", strs::show(a.as_ref()))),
                }
            }
            _ => {
                self.strs.remove(&s.a[0]);
            }
        }
        if let Some(x) = new {
            if x.len() <= strs::LONGEST {
                self.strs.insert(s.id, x);
            }
        }
        for (k, v) in o.stats {
            self.statn(k, v);
        }
        self.dig.add(o.digest);
        if let Some((c, m)) = o.viol {
            self.fail(17, &c, m);
        }
        true
    }

    // ------------------------------------------------------------------ C11, C12

    fn do_part(&mut self, s: &Step) -> bool {
        use crate::parts;
        let mut o = parts::POut::default();
        let c: &dyn Fn(&mut dyn FnMut()) -> Result<(), String> = &|f| call(f);
        let mut ok = true;
        let new = match s.op {
            Op::PNew => parts::create(&s.n, s.salt, c, &mut o),
            Op::PMerge => {
                let xs: Option<Vec<&parts::Part>> = s.a.iter().map(|a| self.parts.get(a)).collect();
                match xs {
                    Some(xs) => parts::merge(&xs, &s.n, s.salt, c, &mut o),
                    None => return false,
                }
            }
            _ => {
                let x = match self.parts.get_mut(&s.a[0]) {
                    Some(x) => x,
                    None => return false,
                };
                match s.op {
                    Op::PPush => {
                        parts::push(x, &s.n, s.salt, c, &mut o);
                        None
                    }
                    Op::PClone => Some(parts::copy(x)),
                    Op::PAudit => {
                        parts::audit(x, s.salt, c, &mut o);
                        None
                    }
                    _ => {
                        self.parts.remove(&s.a[0]);
                        ok = true;
                        None
                    }
                }
            }
        };
        if let Some(x) = new {
            self.parts.insert(s.id, x);
        }
        for (k, v) in o.stats {
            self.statn(k, v);
        }
        self.dig.add(o.digest);
        if let Some((c, m)) = o.viol {
            self.fail(11, &c, m);
        }
        if let Some((c, m)) = o.merge_viol {
            self.fail(12, &c, m);
        }
        ok
    }

    // ------------------------------------------------------------------ C05

    fn do_is_empty(&mut self, s: &Step, t: RegLan, info: &Info) {
        let m = self.mgr(s.mg).unwrap();
        match call(|| m.is_empty_re(t)) {
            Ok(v) => {
                self.dig.add(v as u64);
                self.stat("checks.emptiness");
                if info.dfa.is_empty() {
                    self.stat("probe.semantically_empty");
                }
                if v != info.dfa.is_empty() {
                    self.fail(5, "is_empty", format!("is_empty_re({t}) = {v}"));
                }
            }
            Err(e) => self.unexpected(5, "panic", info, format!("is_empty_re({t}) panicked: {e}")),
        }
    }

    fn do_get_string(&mut self, s: &Step, t: RegLan, info: &Info) {
        let m = self.mgr(s.mg).unwrap();
        match call(|| m.get_string(t)) {
            Ok(None) => {
                self.dig.add(0);
                if !info.dfa.is_empty() {
                    self.fail(5, "no-witness", format!("get_string({t}) = None but the language is not empty"));
                }
            }
            Ok(Some(w)) => {
                let v: Vec<u32> = w.iter().copied().collect();
                self.dig.add(v.len() as u64 + 1);
                if self.prop != 5 {
                    return;
                }
                self.stat("checks.witness");
                if v.iter().any(|c| *c > MAX_CHAR) || !w.is_good() {
                    self.fail(5, "bad-witness", format!("get_string({t}) = {} is not a well-formed string", show_w(&v)));
                    return;
                }
                let cfg = self.cfg.clone();
                let b: Vec<u8> = v.iter().map(|c| cfg.block_of(*c) as u8).collect();
                if !info.dfa.accepts(&b) {
                    self.fail(5, "wrong-witness", format!("get_string({t}) = {} is not a member", show_w(&v)));
                    return;
                }
                match self.in_re(s.mg, &v, t) {
                    Ok(true) => (),
                    x => self.fail(5, "witness-rejected", format!("str_in_re rejects the witness {} of {t}: {x:?}", show_w(&v))),
                }
                let m = self.mgr(s.mg).unwrap();
                match call(|| m.compile(t).accepts(&w)) {
                    Ok(true) => (),
                    x => self.fail(5, "witness-rejected", format!("compiled automaton rejects the witness {} of {t}: {x:?}", show_w(&v))),
                }
            }
            Err(e) => self.unexpected(5, "panic", info, format!("get_string({t}) panicked: {e}")),
        }
    }

    // ------------------------------------------------------------------ C18

    fn do_start_char(&mut self, s: &Step, t: RegLan, info: &Info) {
        let cfg = self.cfg.clone();
        let mut x = s.salt;
        for b in 0..cfg.k() {
            let c = cfg.pick(b, splitmix(&mut x));
            let exp = !info.dfa.dead(info.dfa.next(0, b));
            let m = self.mgr(s.mg).unwrap();
            match call(|| m.start_char(t, c)) {
                Ok(v) => {
                    self.dig.add(v as u64);
                    self.stat("checks.start_char");
                    if v != exp {
                        self.fail(18, "start_char", format!("start_char({t}, {c:x}) = {v}"));
                    }
                }
                Err(e) => self.unexpected(18, "panic", info, format!("start_char({t}, {c:x}) panicked: {e}")),
            }
            if self.prop != 18 {
                break;
            }
        }
    }

    fn do_start_class(&mut self, s: &Step, t: RegLan, info: &Info) {
        let cfg = self.cfg.clone();
        let k = cfg.k();
        for (cid, ivs) in classes_of(t) {
            // blocks met by the class
            let mut exp = None;
            let mut uniform = true;
            for b in 0..k {
                if ivs.iter().any(|(lo, hi)| *lo <= cfg.end(b) && cfg.start(b) <= *hi) {
                    let e = !info.dfa.dead(info.dfa.next(0, b));
                    if exp.map_or(false, |x| x != e) {
                        uniform = false;
                    }
                    exp = Some(e);
                }
            }
            let m = self.mgr(s.mg).unwrap();
            match call(|| m.start_class(t, cid)) {
                Ok(Ok(v)) => {
                    self.dig.add(v as u64);
                    self.stat("checks.start_class");
                    if !uniform || Some(v) != exp {
                        self.fail(18, "start_class", format!("start_class({t}, {cid}) = {v}, reference {exp:?}"));
                    }
                }
                Ok(Err(e)) => {
                    self.fail(18, "start_class", format!("start_class({t}, {cid}) = {e:?} for a valid class"));
                }
                Err(e) => self.unexpected(18, "panic", info, format!("start_class({t}, {cid}) panicked: {e}")),
            }
        }
        for cid in bad_classes(t) {
            let m = self.mgr(s.mg).unwrap();
            match call(|| m.start_class(t, cid)) {
                Ok(Err(Error::BadClassId)) => self.stat("fault.bad_class_id"),
                x => self.fail(18, "bad-class", format!("start_class({t}, {cid}) = {x:?}, expected BadClassId")),
            }
        }
    }

    // ------------------------------------------------------------------ C16

    fn do_incl(&mut self, a: &[RegLan], info: &[Info]) {
        for i in 0..a.len() {
            for j in 0..a.len() {
                if i == j && a.len() > 2 {
                    continue;
                }
                let (x, y) = (a[i], a[j]);
                match call(|| x.included_in(y)) {
                    Ok(v) => {
                        self.dig.add(v as u64);
                        self.stat("checks.inclusion");
                        if v && self.prop == 16 {
                            self.stat("probe.inclusion_claimed");
                            if x != y && !info[i].dfa.is_empty() && !info[j].dfa.is_full() {
                                self.stat("probe.inclusion_claimed_nontrivial");
                            }
                            if let Some(w) = info[i].dfa.diff_word(&info[j].dfa) {
                                let h = info[i].h.min(info[j].h);
                                if w.len() as u64 <= h as u64 {
                                    let cs = chars_of(&self.cfg.clone(), &w, 0);
                                    self.fail(
                                        16,
                                        "inclusion",
                                        format!("({x}).included_in({y}) is true but {} is in the first only", show_w(&cs)),
                                    );
                                }
                            }
                        }
                    }
                    Err(e) => {
                        let inf = if info[i].h != EXACT { &info[i] } else { &info[j] };
                        self.unexpected(16, "panic", &inf.clone(), format!("included_in({x}, {y}) panicked: {e}"))
                    }
                }
            }
        }
    }

    fn do_union_loss(&mut self, ann: &Ann, a: &[RegLan]) {
        let s = &ann.step;
        let out = ann.out.as_ref().unwrap();
        let v = a.to_vec();
        let pairwise = s.n.first().copied().unwrap_or(0) == 1;
        let u = match self.mgr(s.mg) {
            None if pairwise => call(|| v[1..].iter().fold(v[0], |x, y| smt::re_union(x, *y))),
            None => call(|| smt::re_union_list(v)),
            Some(m) if pairwise => call(|| v[1..].iter().fold(v[0], |x, y| m.union(x, *y))),
            Some(m) => call(|| m.union_list(v)),
        };
        let u = match u {
            Ok(u) => u,
            Err(e) => {
                self.unexpected(16, "panic", out, format!("union panicked: {e}"));
                return;
            }
        };
        let c = self.cn(s.mg, u);
        self.dig.add(c);
        if self.prop != 16 {
            return;
        }
        self.stat("checks.union_loss");
        let mut words: Vec<Vec<u8>> = vec![];
        let mut rng = Rng::new(s.salt);
        words.extend(out.dfa.suite(&mut rng, 40));
        for i in 0..ann.args.len() {
            for j in 0..ann.args.len() {
                if i != j && words.len() < 120 {
                    if let Some(w) = ann.args[i].dfa.diff_word(&ann.args[j].dfa) {
                        words.push(w);
                    }
                }
            }
            // words only operand i contributes
            if words.len() < 160 {
                words.extend(ann.args[i].dfa.suite(&mut rng, 8));
            }
        }
        for w in words {
            if w.len() as u64 > out.h as u64 || !out.dfa.accepts(&w) {
                continue;
            }
            let cs = chars_of(&self.cfg.clone(), &w, rng.next());
            match self.in_re(s.mg, &cs, u) {
                Ok(true) => (),
                Ok(false) => {
                    // blame the union only if some operand really accepts the word
                    for x in a {
                        if self.in_re(s.mg, &cs, x) == Ok(true) {
                            self.fail(
                                16,
                                "union-loss",
                                format!("{} is in operand {x} but not in the union {u}", show_w(&cs)),
                            );
                            return;
                        }
                    }
                }
                Err(e) => self.unexpected(16, "panic", out, format!("str_in_re on a union panicked: {e}")),
            }
        }
    }

    // ------------------------------------------------------------------ C19

    fn check_prefix(&mut self, v: &[RegLan], e: RegLan) {
        if v.first().map_or(false, |x| !std::ptr::eq(*x, e)) {
            self.fail(19, "first", format!("iter_derivatives({e}) does not yield the term first"));
        }
        let mut seen: Set<usize> = Set::default();
        for x in v {
            if !seen.insert(*x as *const _ as usize) {
                self.fail(19, "duplicate", format!("iter_derivatives({e}) yields {x} twice"));
            }
        }
    }

    fn do_iter(&mut self, s: &Step, t: RegLan, info: &Info) {
        let bound = (100 * info.nref as usize + 2000) * rt::patience() as usize;
        let m = self.mgr(s.mg).unwrap();
        let v = match call(|| m.iter_derivatives(t).take(bound + 1).map(forever).collect::<Vec<RegLan>>()) {
            Ok(v) => v,
            Err(e) => {
                self.unexpected(19, "panic", info, format!("iter_derivatives({t}) panicked: {e}"));
                return;
            }
        };
        self.dig.add(v.len() as u64);
        self.stat("ops.iter_full");
        if v.len() > info.nref as usize * 3 + 30 {
            self.stat("probe.closure_3x_reference");
        }
        if self.prop != 19 {
            return;
        }
        if v.len() > bound {
            // the same as running out of fuel: a violation only where it is confirmed with patience
            // and the term is a small one
            unsafe { rt::c::_exit(rt::EXIT_FUEL) }
        }
        self.stat("checks.closure");
        let n = v.len();
        self.check_prefix(&v, t);
        let set: Set<usize> = v.iter().map(|x| *x as *const _ as usize).collect();
        // pairwise different according to == as well
        let hs: HashSet<RegLan> = v.iter().copied().collect();
        if hs.len() != n {
            self.fail(19, "duplicate", format!("iter_derivatives({t}) yields equal terms"));
        }
        // closed under char_derivative, and exactly the reachable set
        let cfg = self.cfg.clone();
        let mut x = s.salt;
        let mut reach: Set<usize> = Set::default();
        let mut q = vec![t];
        reach.insert(t as *const _ as usize);
        let mut i = 0;
        while i < q.len() {
            let e = q[i];
            i += 1;
            // one character per block plus the first character of each listed class
            let mut cs: Vec<u32> = (0..cfg.k()).map(|b| cfg.pick(b, splitmix(&mut x))).collect();
            for r in e.char_ranges() {
                cs.push(ends(r).0);
            }
            for c in cs {
                let m = self.mgr(s.mg).unwrap();
                match call(|| m.char_derivative(e, c)) {
                    Ok(d) => {
                        let p = d as *const _ as usize;
                        if !set.contains(&p) {
                            self.fail(
                                19,
                                "not-closed",
                                format!("iter_derivatives({t}) yields {n} terms but misses {d}, the derivative of {e} by {c:x}"),
                            );
                            return;
                        }
                        if reach.insert(p) {
                            q.push(d);
                        }
                    }
                    Err(e) => {
                        self.unexpected(19, "panic", info, format!("char_derivative panicked: {e}"));
                        return;
                    }
                }
            }
        }
        if reach.len() != n {
            self.fail(
                19,
                "too-many",
                format!("iter_derivatives({t}) yields {n} terms, {} are iterated derivatives", reach.len()),
            );
        }
        // a second enumeration gives the same set
        let m = self.mgr(s.mg).unwrap();
        if let Ok(v2) = call(|| m.iter_derivatives(t).take(bound + 1).map(|x| x as *const _ as usize).collect::<Set<usize>>()) {
            if v2 != set {
                self.fail(19, "unstable", format!("two enumerations of the derivatives of {t} differ"));
            }
        }
        // bounds
        let mut rng = Rng::new(s.salt ^ 5);
        let mut bs = vec![0usize, n, n + 1, usize::MAX];
        if n > 1 {
            bs.push(n - 1);
            bs.push(1);
            bs.push(rng.idx(n));
        }
        bs.push(n + rng.idx(2 * n + 3));
        // bounds that look smaller than they are in fewer bits
        let bit = 1usize << *rng.pick(&[8u32, 15, 16, 20, 31, 32, 33, 48, 62, 63]);
        bs.push((bit | rng.idx(n + 1)).max(n));
        bs.push((bit - rng.idx(2)).max(n));
        if rng.pct(50) {
            bs.reverse();
        }
        for b in bs {
            let m = self.mgr(s.mg).unwrap();
            match call(|| m.try_compile(t, b).map(|a| (a.num_states(), a.states().count()))) {
                Ok(r) => {
                    let ok = match r {
                        Some((x, y)) => b >= n && b > 0 && x == n && y == n,
                        None => b < n,
                    };
                    if !ok {
                        self.fail(19, "bound", format!("try_compile({t}, {b}) = {r:?} states, {n} derivatives"));
                        return;
                    }
                }
                Err(e) => {
                    self.unexpected(19, "panic", info, format!("try_compile({t}, {b}) panicked: {e}"));
                    return;
                }
            }
        }
        let m = self.mgr(s.mg).unwrap();
        match call(|| m.compile(t).num_states()) {
            Ok(x) if x == n => (),
            x => self.fail(19, "states", format!("compile({t}) has {x:?} states, {n} derivatives")),
        }
    }

    // ------------------------------------------------------------------ C03

    fn do_classes(&mut self, s: &Step, t: RegLan, info: &Info) {
        if self.prop != 3 {
            let n = t.class_ids().count();
            self.dig.add(n as u64);
            return;
        }
        self.stat("checks.classes");
        let cfg = self.cfg.clone();
        let k = cfg.k();
        let mut rng = Rng::new(s.salt);
        let ranges: Vec<(u32, u32)> = t.char_ranges().map(ends).collect();
        let ids: Vec<ClassId> = t.class_ids().collect();
        // the listed classes cover the alphabet
        let gap = gaps(&ranges);
        for i in 0..ranges.len() {
            if !ids.contains(&ClassId::Interval(i)) {
                self.fail(3, "coverage", format!("class {i} of {t} is not listed"));
            }
        }
        if !gap.is_empty() && !ids.contains(&ClassId::Complement) {
            self.fail(3, "coverage", format!("the class ids of {t} do not cover {:x}", gap[0].0));
        }
        if gap.is_empty() && ids.contains(&ClassId::Complement) {
            self.fail(3, "coverage", format!("{t} lists an empty complementary class"));
        }
        if ids.len() != ranges.len() + !gap.is_empty() as usize {
            self.fail(3, "coverage", format!("{t} lists {} class ids for {} classes", ids.len(), ranges.len()));
        }
        let mut class_d: Vec<(ClassId, RegLan, Vec<(u32, u32)>)> = vec![];
        for (cid, ivs) in classes_of(t) {
            if ivs.is_empty() {
                continue;
            }
            let m = self.mgr(s.mg).unwrap();
            let d = match call(|| m.class_derivative(t, cid)) {
                Ok(Ok(d)) => d,
                Ok(Err(e)) => {
                    self.fail(3, "class-rejected", format!("class_derivative({t}, {cid}) = {e:?}"));
                    continue;
                }
                Err(e) => {
                    self.unexpected(3, "panic", info, format!("class_derivative({t}, {cid}) panicked: {e}"));
                    continue;
                }
            };
            let m = self.mgr(s.mg).unwrap();
            if let Ok(d2) = call(|| m.class_derivative_unchecked(t, cid)) {
                if d2 != d && info.h == EXACT {
                    // must at least denote the same language; checked below through d2 as well
                    self.quot_check(s, t, d2, info, &ivs, cid, rng.next());
                }
            }
            if !self.quot_check(s, t, d, info, &ivs, cid, rng.next()) {
                return;
            }
            class_d.push((cid, d, ivs));
        }
        // char_derivative at the ends of the classes and of the blocks, and just outside
        let mut chars: Vec<u32> = vec![0, MAX_CHAR];
        for (lo, hi) in &ranges {
            chars.extend([*lo, *hi, lo.saturating_sub(1), (*hi + 1).min(MAX_CHAR)]);
        }
        for b in 0..k {
            chars.push(cfg.pick(b, rng.next()));
        }
        chars.sort();
        chars.dedup();
        while chars.len() > 40 {
            let i = rng.idx(chars.len());
            chars.swap_remove(i);
        }
        for c in chars {
            let m = self.mgr(s.mg).unwrap();
            let d = match call(|| m.char_derivative(t, c)) {
                Ok(d) => d,
                Err(e) => {
                    self.unexpected(3, "panic", info, format!("char_derivative({t}, {c:x}) panicked: {e}"));
                    continue;
                }
            };
            self.stat("checks.char_derivative");
            let same = class_d
                .iter()
                .any(|(_, x, ivs)| std::ptr::eq(*x, d) && ivs.iter().any(|(l, h)| *l <= c && c <= *h));
            if !same && !self.quot_check(s, t, d, info, &[(c, c)], ClassId::Complement, rng.next()) {
                return;
            }
        }
        // invalid class ids
        for cid in bad_classes(t) {
            let m = self.mgr(s.mg).unwrap();
            match call(|| m.class_derivative(t, cid)) {
                Ok(Err(Error::BadClassId)) => self.stat("fault.bad_class_id"),
                x => self.fail(3, "bad-class", format!("class_derivative({t}, {cid}) = {x:?}, expected BadClassId")),
            }
            if t.valid_class_id(cid) {
                self.fail(3, "bad-class", format!("{cid} is reported valid for {t}"));
            }
        }
        // set derivatives
        for _ in 0..12 {
            let (mut lo, mut hi) = match rng.below(6) {
                0 | 1 if !ranges.is_empty() => {
                    let r = *rng.pick(&ranges);
                    let lo = if rng.pct(60) { r.0 } else { r.0 + rng.below((r.1 - r.0) as u64 + 1) as u32 };
                    let hi = if rng.pct(60) { r.1 } else { lo + rng.below((r.1 - lo) as u64 + 1) as u32 };
                    (lo, hi)
                }
                2 if !gap.is_empty() => *rng.pick(&gap),
                3 => (0, MAX_CHAR),
                4 => {
                    let (b, c) = (rng.idx(k), rng.idx(k));
                    (cfg.start(b.min(c)), cfg.end(b.max(c)))
                }
                _ => {
                    let c = cfg.pick(rng.idx(k), rng.next());
                    (c, c)
                }
            };
            match rng.below(6) {
                0 => lo = lo.saturating_sub(1),
                1 => hi = (hi + 1).min(MAX_CHAR),
                2 if lo < hi => lo += 1,
                3 if lo < hi => hi -= 1,
                _ => (),
            }
            let set = CharSet::range(lo, hi);
            let inside = ranges.iter().find(|(l, h)| *l <= lo && hi <= *h).copied();
            let disjoint = ranges.iter().all(|(l, h)| hi < *l || *h < lo);
            let m = self.mgr(s.mg).unwrap();
            let r = match call(|| m.set_derivative(t, &set)) {
                Ok(r) => r,
                Err(e) => {
                    self.unexpected(3, "panic", info, format!("set_derivative({t}, [{lo:x},{hi:x}]) panicked: {e}"));
                    continue;
                }
            };
            self.stat("checks.set_derivative");
            match r {
                Ok(d) => {
                    if inside.is_none() && !disjoint {
                        self.fail(
                            3,
                            "set-straddles",
                            format!("set_derivative({t}, [{lo:x},{hi:x}]) succeeded although the set meets several classes"),
                        );
                        return;
                    }
                    if !self.quot_check(s, t, d, info, &[(lo, hi)], ClassId::Complement, rng.next()) {
                        return;
                    }
                }
                Err(e) => {
                    if inside.is_some() || disjoint {
                        self.fail(
                            3,
                            "set-rejected",
                            format!("set_derivative({t}, [{lo:x},{hi:x}]) = {e:?} although the set lies in one class"),
                        );
                        return;
                    }
                    self.stat("fault.ambiguous_set");
                    self.dig.add(7);
                }
            }
        }
        // str_derivative composes
        let len = 1 + rng.below(5).min(if info.h == EXACT { 5 } else { info.h.saturating_sub(1) as u64 }) as usize;
        if len as u64 <= info.h as u64 {
            let w = info.dfa.random_word(&mut rng, len);
            let cs = chars_of(&cfg, &w, rng.next());
            let m = self.mgr(s.mg).unwrap();
            match call(|| m.str_derivative(t, &smt_str(&cs))) {
                Ok(d) => {
                    let st = info.dfa.run(0, &w);
                    self.same_as_state(s, t, d, info, st, &format!("str_derivative by {}", show_w(&cs)), len as u32, rng.next());
                }
                Err(e) => self.unexpected(3, "panic", info, format!("str_derivative({t}, {}) panicked: {e}", show_w(&cs))),
            }
        }
        if info.h == EXACT {
            if let Some(len) = long_len(&mut rng, info.nref as u32) {
                let w = info.dfa.long_word(&mut rng, len);
                let cs = chars_of(&cfg, &w, rng.next());
                self.stat("probe.long_word");
                let m = self.mgr(s.mg).unwrap();
                match call(|| m.str_derivative(t, &smt_str(&cs))) {
                    Ok(d) => {
                        let st = info.dfa.run(0, &w);
                        self.same_as_state(s, t, d, info, st, &format!("str_derivative by {}", show_w(&cs)), 0, rng.next());
                    }
                    Err(e) => self.unexpected(3, "panic", info, format!("str_derivative({t}, {}) panicked: {e}", show_w(&cs))),
                }
            }
        }
    }

    /// L(d) must be the quotient of L(t) for every block met by the intervals
    fn quot_check(&mut self, s: &Step, t: RegLan, d: RegLan, info: &Info, ivs: &[(u32, u32)], cid: ClassId, salt: u64) -> bool {
        let cfg = self.cfg.clone();
        let mut done: Vec<usize> = vec![];
        for b in 0..cfg.k() {
            if ivs.iter().any(|(lo, hi)| *lo <= cfg.end(b) && cfg.start(b) <= *hi) {
                let st = info.dfa.next(0, b);
                if done.contains(&st) {
                    continue;
                }
                done.push(st);
                let what = format!("derivative for class {cid} / chars {ivs:x?} (block {b})");
                if !self.same_as_state(s, t, d, info, st, &what, 1, salt) {
                    return false;
                }
            }
        }
        true
    }

    /// compare L(d) with the residual language of reference state st
    fn same_as_state(&mut self, s: &Step, t: RegLan, d: RegLan, info: &Info, st: usize, what: &str, used: u32, salt: u64) -> bool {
        let cfg = self.cfg.clone();
        let k = cfg.k();
        let dfa = info.dfa.clone();
        if info.h != EXACT || info.nref == 0 {
            // words only
            let h = if info.h == EXACT { 20 } else { info.h.saturating_sub(used) };
            let mut rng = Rng::new(salt);
            for _ in 0..16 {
                let len = rng.below(h as u64 + 1).min(8) as usize;
                let mut w = vec![];
                let mut q = st;
                for _ in 0..len {
                    let mut b = rng.idx(k);
                    for _ in 0..3 {
                        if !dfa.dead(dfa.next(q, b)) {
                            break;
                        }
                        b = rng.idx(k);
                    }
                    q = dfa.next(q, b);
                    w.push(b as u8);
                }
                let cs = chars_of(&cfg, &w, rng.next());
                match self.in_re(s.mg, &cs, d) {
                    Ok(v) if v == dfa.fin[q] => (),
                    Ok(v) => {
                        self.fail(
                            3,
                            "quotient",
                            format!("{what} of {t} is {d}: membership of {} is {v}", show_w(&cs)),
                        );
                        return false;
                    }
                    Err(e) => {
                        self.unexpected(3, "panic", info, format!("{what} of {t}: str_in_re panicked: {e}"));
                        return false;
                    }
                }
            }
            return true;
        }
        let cap = 30 * info.nref as usize + 300;
        match self.walk(s.mg, d, &dfa, st, cap, salt) {
            Ok(_) => true,
            Err((w, why)) => {
                self.fail(
                    3,
                    if why.contains("panicked") { "panic" } else { "quotient" },
                    format!("{what} of {t} is {d}: wrong on {}: {why}", show_w(&w)),
                );
                false
            }
        }
    }

    // ------------------------------------------------------------------ C07

    fn do_reissue(&mut self, ann: &Ann, t: RegLan) {
        let orig = &ann.recipe[0];
        let a = match self.args(orig) {
            Some(a) => a,
            None => return,
        };
        let cfg = self.cfg.clone();
        let mut o = orig.clone();
        if ann.step.n.first() == Some(&1) {
            // same list through a differently shaped iterator
            o.salt = o.salt.wrapping_add(1);
        }
        let r = {
            let m = self.mgr(ann.step.mg);
            call(|| construct(&cfg, m, &o, &a))
        };
        self.stat("checks.reissue");
        match r {
            Ok(Ok(u)) => {
                let c = self.cn(ann.step.mg, u);
                self.dig.add(c);
                if !std::ptr::eq(u, t) || u != t {
                    self.fail(
                        7,
                        "reissue",
                        format!("{} on the same arguments gave {u} (not the identical term {t})", orig.op.name()),
                    );
                }
            }
            Ok(Err(_)) => (),
            Err(e) => self.unexpected(7, "panic", &ann.args[0], format!("repeated {} panicked: {e}", orig.op.name())),
        }
    }

    fn do_compl_inv(&mut self, s: &Step, t: RegLan) {
        let r = match self.mgr(s.mg) {
            None => call(|| {
                let c = smt::re_comp(t);
                (c, smt::re_comp(c))
            }),
            Some(m) => call(|| {
                let c = m.complement(t);
                (c, m.complement(c))
            }),
        };
        self.stat("checks.complement");
        match r {
            Ok((c, d)) => {
                if !std::ptr::eq(d, t) || d != t {
                    self.fail(7, "involution", format!("complement(complement({t})) is {d}"));
                }
                if c == t || std::ptr::eq(c, t) {
                    self.fail(7, "fixed-point", format!("complement({t}) is itself"));
                }
            }
            Err(e) => self.fail(7, "panic", format!("complement({t}) panicked: {e}")),
        }
    }

    fn do_eq_audit(&mut self, mg: u8) {
        if self.prop != 7 {
            return;
        }
        self.stat("checks.equality_audit");
        let mut v: Vec<RegLan> = self.by_mg[mg as usize].iter().map(|x| x.1).collect();
        for t in v.clone() {
            let c = match self.mgr(mg) {
                None => call(|| smt::re_comp(t)),
                Some(m) => call(|| m.complement(t)),
            };
            if let Ok(c) = c {
                v.push(c);
            }
        }
        for i in 0..v.len() {
            for j in 0..=i {
                let (p, e) = (std::ptr::eq(v[i], v[j]), v[i] == v[j]);
                if p != e {
                    self.fail(7, "equality", format!("{} == {} is {e} but pointer identity is {p}", v[i], v[j]));
                    return;
                }
            }
        }
        let mut fs: Vec<&u32> = self.fillers.keys().collect();
        fs.sort();
        let mut all: Vec<RegLan> = v;
        for f in fs {
            let f = &self.fillers[f];
            if f.kind >> 8 == mg as u32 {
                all.extend(f.items.iter().map(|x| x.1));
            }
        }
        let ptrs: Set<usize> = all.iter().map(|x| *x as *const _ as usize).collect();
        let hs: HashSet<RegLan, FxB> = all.iter().copied().collect();
        self.dig.add(ptrs.len() as u64);
        if ptrs.len() != hs.len() {
            self.fail(
                7,
                "equality",
                format!("{} distinct term objects but only {} distinct values of ==", ptrs.len(), hs.len()),
            );
        }
    }

    fn do_twin(&mut self, ann: &Ann, t: RegLan) {
        let s = &ann.step;
        let info = &ann.args[0];
        if self.prop != 7 {
            return;
        }
        let cfg = self.cfg.clone();
        // rebuild the same construction on a manager without history
        let mut fresh = ReManager::new();
        let mut map: Map<u32, RegLan> = Map::default();
        for st in &ann.recipe {
            let a: Option<Vec<RegLan>> = st.a.iter().map(|x| map.get(x).copied()).collect();
            let a = match a {
                Some(a) => a,
                None => return,
            };
            match call(|| construct(&cfg, Some(&mut fresh), st, &a)) {
                Ok(Ok(x)) => {
                    map.insert(st.id, x);
                }
                Ok(Err(e)) => {
                    self.fail(7, "history", format!("construction fails on a fresh manager only: {e}"));
                    return;
                }
                Err(e) => {
                    self.unexpected(7, "history", info, format!("construction panics on a fresh manager only: {e}"));
                    return;
                }
            }
        }
        let u = map[&s.a[0]];
        self.stat("checks.twin");
        // compare languages: words, then a product walk
        let mut rng = Rng::new(s.salt);
        for w in info.dfa.suite(&mut rng, 40) {
            if w.len() as u64 > info.h as u64 {
                continue;
            }
            let cs = chars_of(&cfg, &w, rng.next());
            let x = self.in_re(s.mg, &cs, t);
            let y = call(|| fresh.str_in_re(&smt_str(&cs), u));
            self.dig.add(x.is_ok() as u64);
            match (x, y) {
                (Ok(x), Ok(y)) if x != y => {
                    self.fail(
                        7,
                        "history",
                        format!("membership of {} in {t} is {x}; on a manager without history it is {y}", show_w(&cs)),
                    );
                    return;
                }
                (Err(x), Ok(_)) => {
                    self.unexpected(7, "history", info, format!("membership in {t} panics only with history: {x}"));
                    return;
                }
                (Ok(_), Err(y)) => {
                    self.unexpected(7, "history", info, format!("membership in {t} panics only without history: {y}"));
                    return;
                }
                _ => (),
            }
        }
        if info.h != EXACT || info.nref == 0 {
            return;
        }
        if s.mg == 0 {
            return;
        }
        if rng.pct(40) {
            // through the compiled automata, as observed by a client
            let m = self.mgr(s.mg).unwrap();
            let a = call(|| m.compile(t));
            let b = call(|| fresh.compile(u));
            if let (Ok(a), Ok(b)) = (a, b) {
                self.auto_pair(&a, &b, t);
            }
            return;
        }
        let cap = 60 * info.nref as usize + 500;
        let mut seen: Set<(usize, usize)> = Set::default();
        let mut q = vec![(t, u)];
        seen.insert((t as *const _ as usize, u as *const _ as usize));
        let mut i = 0;
        while i < q.len() && q.len() < cap && rt::step_counts().0 < WALK_BUDGET {
            let (x, y) = q[i];
            i += 1;
            if x.nullable != y.nullable {
                self.fail(7, "history", format!("language of {t} depends on history: derivative {x} vs {y}"));
                return;
            }
            for b in 0..cfg.k() {
                let c = cfg.pick(b, rng.next());
                let m = &mut self.mgrs[s.mg as usize];
                let d1 = call(|| m.char_derivative(x, c));
                let d2 = call(|| fresh.char_derivative(y, c));
                if let (Ok(d1), Ok(d2)) = (d1, d2) {
                    if seen.insert((d1 as *const _ as usize, d2 as *const _ as usize)) {
                        q.push((d1, d2));
                    }
                }
            }
        }
        self.statn("twin_pairs", q.len() as u64);
    }

    fn auto_pair(&mut self, a: &Automaton, b: &Automaton, t: RegLan) {
        let cfg = self.cfg.clone();
        let mut seen: Set<(usize, usize)> = Set::default();
        let mut q = vec![(a.initial_state().id(), b.initial_state().id())];
        seen.insert(q[0]);
        let mut i = 0;
        while i < q.len() {
            let (x, y) = q[i];
            i += 1;
            let (sx, sy) = (a.state(x), b.state(y));
            if sx.is_final() != sy.is_final() {
                self.fail(7, "history", format!("compiled automaton of {t} depends on history"));
                return;
            }
            for k in 0..cfg.k() {
                for c in [cfg.start(k), cfg.end(k)] {
                    match (call(|| a.next(sx, c).id()), call(|| b.next(sy, c).id())) {
                        (Ok(x), Ok(y)) => {
                            if seen.insert((x, y)) {
                                q.push((x, y));
                            }
                        }
                        (Err(_), Err(_)) => (),
                        _ => {
                            self.fail(7, "history", format!("compiled automaton of {t} is partial depending on history"));
                            return;
                        }
                    }
                }
            }
        }
        self.statn("twin_pairs", q.len() as u64);
    }

    // ------------------------------------------------------------------ bulk history

    fn do_filler(&mut self, s: &Step) {
        let kind = s.n.first().copied().unwrap_or(0);
        let count = s.n.get(1).copied().unwrap_or(0);
        let base = s.salt as u32;
        let mut items = Vec::with_capacity(count as usize);
        for i in 0..count {
            let w = filler_word(kind, i, base);
            let m = self.mgr(s.mg);
            let t = match call(|| filler_make(m, kind, &w)) {
                Ok(t) => t,
                Err(e) => {
                    self.fail(1, "panic", format!("constructor panicked after {i} unrelated terms: {e}"));
                    self.fail(7, "panic", format!("constructor panicked after {i} unrelated terms: {e}"));
                    break;
                }
            };
            if s.mg != 0 && kind >= 4 {
                // also fill the derivative cache
                let c = w[0];
                let m = &mut self.mgrs[s.mg as usize];
                let _ = call(|| m.char_derivative(t, c));
            }
            items.push((w, t));
        }
        self.statn("bulk_terms", items.len() as u64);
        self.dig.add(items.len() as u64);
        self.fillers.insert(
            s.id,
            Filler {
                kind: (kind & 0xff) | (s.mg as u32) << 8,
                items,
            },
        );
    }

    fn do_filler_audit(&mut self, s: &Step) {
        let f = match self.fillers.remove(&s.a[0]) {
            Some(f) => f,
            None => return,
        };
        let kind = f.kind & 0xff;
        let mut rng = Rng::new(s.salt);
        let samples = s.n.first().copied().unwrap_or(20) as usize;
        let n = f.items.len();
        let mut fresh = ReManager::new();
        for _ in 0..samples.min(n) {
            let (w, t) = &f.items[rng.idx(n)];
            let t = *t;
            self.stat("checks.bulk_reissue");
            let m = self.mgr(s.mg);
            match call(|| filler_make(m, kind, w)) {
                Ok(u) => {
                    if !std::ptr::eq(u, t) || u != t {
                        self.fail(7, "reissue", format!("after a long history the construction of {t} gives another term ({u})"));
                        break;
                    }
                }
                Err(e) => {
                    self.fail(7, "panic", format!("repeated constructor panicked: {e}"));
                    break;
                }
            }
            // its language, and that of its derivative
            let mut cand: Vec<Vec<u32>> = vec![w.clone(), vec![], w[..1].to_vec()];
            let mut w2 = w.clone();
            let l = w2.len() - 1;
            w2[l] = if w2[l] == MAX_CHAR { 0 } else { w2[l] + 1 };
            cand.push(w2.clone());
            w2[0] = w2[0].saturating_sub(1);
            cand.push(w2);
            for c in cand {
                let exp = filler_accepts(kind, w, &c);
                let got = self.in_re(s.mg, &c, t);
                if got != Ok(exp) {
                    let msg = format!("after a long history str_in_re({}, {t}) = {got:?}, expected {exp}", show_w(&c));
                    self.fail(1, "membership", msg.clone());
                    if self.prop == 7 {
                        let u = call(|| filler_make(Some(&mut fresh), kind, w));
                        if let Ok(u) = u {
                            let g2 = call(|| fresh.str_in_re(&smt_str(&c), u));
                            if g2 != got {
                                self.fail(7, "history", msg.clone());
                            }
                        }
                    }
                    self.fail(3, "quotient", msg);
                    break;
                }
            }
            if s.mg != 0 {
                let m = &mut self.mgrs[s.mg as usize];
                let c = w[0];
                match call(|| m.char_derivative(t, c)) {
                    Ok(d) => {
                        let exp = filler_accepts(kind, w, &[c]);
                        if d.nullable != exp {
                            self.fail(3, "quotient", format!("after a long history char_derivative({t}, {c:x}) = {d}"));
                        }
                    }
                    Err(e) => self.fail(3, "panic", format!("char_derivative({t}) panicked: {e}")),
                }
                if self.prop == 5 || self.prop == 18 || self.prop == 2 || self.prop == 19 {
                    self.bulk_other(s, t, kind, w, &mut rng);
                }
            }
        }
        if matches!(self.prop, 1 | 16 | 7) && n > 1 {
            self.bulk_pairs(s.mg, kind, &f.items, &mut rng);
        }
        let rounds = if n > 4000 { 3 } else { rng.pct(35) as u32 };
        if matches!(self.prop, 1 | 3 | 7 | 16) && n > 1 {
            for _ in 0..rounds {
                self.family(s.mg, kind, &f.items, &mut rng);
            }
        }
        if matches!(self.prop, 1 | 3 | 7 | 19) && rng.pct(35) {
            self.loop_grid(s.mg, &mut rng);
        }
        if matches!(self.prop, 2 | 5 | 19) && s.mg != 0 && rng.below(120) == 0 {
            let p = self.prop;
            let m = &mut self.mgrs[s.mg as usize];
            let v = crate::vast::closure(&mut rng, p, m, &|f| call(f));
            self.vast(v);
        }
        if matches!(self.prop, 1 | 2 | 3 | 5 | 7 | 16 | 18 | 19) && rng.pct(50) {
            let p = self.prop;
            let m = if s.mg == 0 { None } else { Some(&mut self.mgrs[s.mg as usize]) };
            let v = if rng.pct(35) {
                crate::vast::constant(&mut rng, p, m, &|f| call(f))
            } else {
                crate::vast::expression(&mut rng, p, m, &|f| call(f))
            };
            self.vast(v);
        }
        self.dig.add(n as u64);
        self.fillers.insert(s.a[0], f);
    }

    /// many loops of one character class, with bounds that differ in few bits or by little
    fn vast(&mut self, v: Option<crate::vast::Bad>) {
        self.stat("checks.vast");
        if let Some((p, c, m)) = v {
            self.fail(p, c, m);
        }
    }

    fn loop_grid(&mut self, mg: u8, rng: &mut Rng) {
        let lo = rng.below(MAX_CHAR as u64 - 1000) as u32;
        let hi = lo + rng.below(900) as u32;
        const INF: u32 = u32::MAX;
        let bound = |rng: &mut Rng| match rng.below(5) {
            0 => rng.range(0, 12),
            1 => (1u32 << rng.range(3, 16)) + rng.range(0, 2) - 1,
            2 => rng.range(12, 600),
            3 => rng.range(250, 520),
            _ => rng.range(0, 70_000),
        };
        let mut pairs: Vec<(u32, u32)> = vec![];
        for _ in 0..rng.range(3, 12) {
            let (a, b) = (bound(rng), bound(rng));
            let (i, j) = if rng.pct(20) { (a, INF) } else { (a.min(b), a.max(b)) };
            pairs.push((i, j));
            for _ in 0..5 {
                let bit = 1u32 << rng.below(17);
                let (p, q) = match rng.below(5) {
                    0 => (i ^ bit, j),
                    1 if j != INF => (i, j ^ bit),
                    2 if j != INF => (i ^ bit, j ^ bit),
                    3 => (i, INF),
                    _ => (i, i),
                };
                if p <= q {
                    pairs.push((p, q));
                }
            }
        }
        let make = |m: Option<&mut ReManager>, i: u32, j: u32| match m {
            Some(m) => {
                let x = m.range(lo, hi);
                if j == INF {
                    m.mk_loop(x, LoopRange::infinite(i))
                } else if i == j {
                    m.exp(x, i)
                } else {
                    m.smt_loop(x, i, j)
                }
            }
            None => {
                let x = smt::re_range(&smt_str(&[lo]), &smt_str(&[hi]));
                if j == INF {
                    let p = smt::re_power(x, i);
                    smt::re_concat(p, smt::re_star(x))
                } else {
                    smt::re_loop(x, i, j)
                }
            }
        };
        let mut made: Vec<((u32, u32), RegLan)> = vec![];
        for (i, j) in pairs {
            let m = self.mgr(mg);
            let t = match call(|| make(m, i, j)) {
                Ok(t) => t,
                Err(e) => {
                    self.fail(1, "panic", format!("the loop [{i},{j}] of a range panicked: {e}"));
                    self.fail(7, "panic", format!("the loop [{i},{j}] of a range panicked: {e}"));
                    return;
                }
            };
            self.stat("checks.loop_grid");
            let inside = |n: u32| n >= i && (j == INF || n <= j);
            let mut ns: Vec<u32> = vec![0, 1, i.saturating_sub(1), i, i + 1];
            if j != INF {
                ns.extend([j.saturating_sub(1), j, j + 1]);
            }
            // what tells it from a pair that gave the same term
            let mut far = vec![];
            for ((p, q), u) in &made {
                if std::ptr::eq(*u, t) && (*p, *q) != (i, j) {
                    far.push(if *p != i { i.min(*p) } else { j.min(*q) + 1 });
                } else if !std::ptr::eq(*u, t) && (*p, *q) == (i, j) {
                    self.fail(7, "reissue", format!("the loop [{i},{j}] of one range is {u} and then {t}"));
                }
            }
            ns.retain(|n| *n <= 400);
            if ns.len() > 4 {
                let k = rng.idx(ns.len());
                ns.swap(0, k);
                ns.truncate(4);
            }
            ns.extend(far);
            for n in ns {
                let w: Vec<u32> = (0..n).map(|_| rng.range(lo, hi)).collect();
                let got = self.in_re(mg, &w, t);
                if got != Ok(inside(n)) {
                    let msg = format!("{n} characters in the loop [{i},{j}] of [{lo:x}..{hi:x}], which is {t}: {got:?}");
                    self.fail(1, "membership", msg.clone());
                    self.fail(3, "quotient", msg.clone());
                    if self.prop == 7 {
                        let mut f = ReManager::new();
                        let g2 = call(|| {
                            let t = make(Some(&mut f), i, j);
                            f.str_in_re(&smt_str(&w), t)
                        });
                        if g2 != got {
                            self.fail(7, "history", msg);
                        }
                    }
                    return;
                }
            }
            if self.prop == 19 && mg != 0 && (if j == INF { i } else { j }) <= 300 {
                let m = &mut self.mgrs[mg as usize];
                let got = call(|| m.iter_derivatives(t).take(2000).count());
                let a = call(|| m.compile(t).num_states());
                if a != got {
                    self.fail(19, "states", format!("{got:?} derivatives but {a:?} states for {t}"));
                    return;
                }
            }
            made.push(((i, j), t));
        }
        self.dig.add(made.len() as u64);
    }

    /// combinations of bulk terms (and of Sigma*.x, x.Sigma*, not x), languages known in closed form
    /// One operation on every bulk term with the same partner: results of different languages are
    /// different terms, and a sample of them is asked for members.
    fn family(&mut self, mg: u8, kind: u32, items: &[(Vec<u32>, RegLan)], rng: &mut Rng) {
        let ch = if rng.pct(50) { *rng.pick(&[0, 0x61, 0xffff, 0x10000, MAX_CHAR]) } else { rng.range(0, MAX_CHAR) };
        let op = match self.prop {
            3 if mg != 0 => rng.range(7, 8),
            16 => 2,
            _ => rng.below(if mg == 0 { 7 } else { 9 }) as u32,
        };
        const NAMES: [&str; 9] = [
            "concat(x, c)", "concat(c, x)", "union(x, c)", "diff(x, c)", "loop(x, 2, 3)", "complement(x)", "concat(x, full)",
            "derivative of concat(c, x) by c", "derivative of union(concat(c, x), concat(x, c)) by c",
        ];
        let make = |m: Option<&mut ReManager>, x: RegLan| match m {
            Some(m) => {
                let p = m.char(ch);
                match op {
                    0 => m.concat(x, p),
                    1 => m.concat(p, x),
                    2 => m.union(x, p),
                    3 => m.diff(x, p),
                    4 => m.smt_loop(x, 2, 3),
                    5 => m.complement(x),
                    6 => {
                        let f = m.full();
                        m.concat(x, f)
                    }
                    7 => {
                        let u = m.concat(p, x);
                        m.char_derivative(u, ch)
                    }
                    _ => {
                        let (u, v) = (m.concat(p, x), m.concat(x, p));
                        let u = m.union(u, v);
                        m.char_derivative(u, ch)
                    }
                }
            }
            None => {
                let p = smt::str_to_re(&smt_str(&[ch]));
                match op {
                    0 => smt::re_concat(x, p),
                    1 => smt::re_concat(p, x),
                    2 => smt::re_union(x, p),
                    3 => smt::re_diff(x, p),
                    4 => smt::re_loop(x, 2, 3),
                    5 => smt::re_comp(x),
                    _ => smt::re_concat(x, smt::re_all()),
                }
            }
        };
        let accepts = |w: &[u32], v: &[u32]| {
            let a = |v: &[u32]| filler_accepts(kind, w, v);
            let n = v.len();
            match op {
                0 => n > 0 && v[n - 1] == ch && a(&v[..n - 1]),
                1 => n > 0 && v[0] == ch && a(&v[1..]),
                2 => a(v) || v == [ch],
                3 => a(v) && v != [ch],
                4 => {
                    let two = |v: &[u32]| (0..=v.len()).any(|i| a(&v[..i]) && a(&v[i..]));
                    two(v) || (0..=n).any(|i| a(&v[..i]) && two(&v[i..]))
                }
                5 => !a(v),
                6 => (0..=n).any(|i| a(&v[..i])),
                7 => a(v),
                _ => {
                    let cv: Vec<u32> = std::iter::once(ch).chain(v.iter().copied()).collect();
                    a(v) || v.last() == Some(&ch) && a(&cv[..n])
                }
            }
        };
        let words = |w: &[u32]| -> Vec<Vec<u32>> {
            let mut l = w.to_vec();
            l.push(ch);
            let mut f = vec![ch];
            f.extend(w);
            let mut d = w.to_vec();
            d.extend(w);
            let mut near = w.to_vec();
            near[0] ^= 1;
            vec![w.to_vec(), l, f, d, near, vec![], vec![ch], w[1..].to_vec()]
        };
        let n = items.len();
        let mut first: Map<usize, usize> = Map::default();
        // (item, word) to ask about
        let mut ask: Vec<(usize, Vec<u32>)> = vec![];
        let mut made: Vec<RegLan> = Vec::with_capacity(n);
        for (i, (w, x)) in items.iter().enumerate() {
            let m = self.mgr(mg);
            let t = match call(|| make(m, x)) {
                Ok(t) => t,
                Err(e) => {
                    let msg = format!("{} panicked for x = {x}, c = {ch:x}: {e}", NAMES[op as usize]);
                    for p in [1, 3, 7] {
                        self.fail(p, "panic", msg.clone());
                    }
                    return;
                }
            };
            made.push(t);
            if let Some(j) = first.insert(t as *const _ as usize, i) {
                let v = &items[j].0;
                for u in words(w).into_iter().chain(words(v)) {
                    if accepts(w, &u) != accepts(v, &u) {
                        ask.push((i, u.clone()));
                        ask.push((j, u));
                        break;
                    }
                }
            }
            if ask.len() > 20 {
                break;
            }
        }
        self.statn("checks.family", made.len() as u64);
        for _ in 0..8 {
            let i = rng.idx(made.len());
            for u in words(&items[i].0) {
                ask.push((i, u));
            }
        }
        for (i, u) in ask {
            let (w, x) = (&items[i].0, items[i].1);
            let t = made[i];
            let exp = accepts(w, &u);
            let got = self.in_re(mg, &u, t);
            if got == Ok(exp) {
                continue;
            }
            let msg = format!(
                "after a long history {} for x = {x}, c = {ch:x} is {t}: str_in_re({}) = {got:?}, expected {exp}",
                NAMES[op as usize],
                show_w(&u)
            );
            if op <= 6 {
                self.fail(1, "membership", msg.clone());
            }
            if op == 2 && exp {
                self.fail(16, "union-loss", msg.clone());
            }
            if op >= 7 {
                self.fail(3, "quotient", msg.clone());
            }
            if self.prop == 7 {
                let mut f = ReManager::new();
                let g2 = call(|| {
                    let x = filler_make(Some(&mut f), kind, w);
                    let t = make(Some(&mut f), x);
                    f.str_in_re(&smt_str(&u), t)
                });
                if g2 != got {
                    self.fail(7, "history", msg);
                }
            }
            return;
        }
    }

    fn bulk_pairs(&mut self, mg: u8, kind: u32, items: &[(Vec<u32>, RegLan)], rng: &mut Rng) {
        let acc = |wrap: u64, w: &[u32], v: &[u32]| match wrap {
            0 => filler_accepts(kind, w, v),
            1 => (0..=v.len()).any(|i| filler_accepts(kind, w, &v[i..])),
            2 => (0..=v.len()).any(|i| filler_accepts(kind, w, &v[..i])),
            _ => !filler_accepts(kind, w, v),
        };
        let n = items.len();
        for _ in 0..if self.prop == 16 { 200 } else { 60 } {
            let i = rng.idx(n);
            let j = if rng.pct(50) { (i + 1 + rng.idx(3)) % n } else { rng.idx(n) };
            let mut k = [rng.below(4), rng.below(4)];
            for x in &mut k {
                if rng.pct(40) {
                    *x = 0;
                }
            }
            let op = rng.below(8);
            let (wx, x) = (&items[i].0, items[i].1);
            let (wy, y) = (&items[j].0, items[j].1);
            let m = self.mgr(mg);
            let made = match m {
                Some(m) => call(|| {
                    let f = m.full();
                    let mut wrap = |k: u64, t: RegLan| match k {
                        0 => t,
                        1 => m.concat(f, t),
                        2 => m.concat(t, f),
                        _ => m.complement(t),
                    };
                    let (a, b) = (wrap(k[0], x), wrap(k[1], y));
                    let u = match op {
                        0..=4 => m.union(a, b),
                        5 => m.inter(a, b),
                        6 => m.diff(a, b),
                        _ => m.concat(x, y),
                    };
                    (a, b, u)
                }),
                None => call(|| {
                    let f = smt::re_all();
                    let wrap = |k: u64, t: RegLan| match k {
                        0 => t,
                        1 => smt::re_concat(f, t),
                        2 => smt::re_concat(t, f),
                        _ => smt::re_comp(t),
                    };
                    let (a, b) = (wrap(k[0], x), wrap(k[1], y));
                    let u = match op {
                        0..=4 => smt::re_union(a, b),
                        5 => smt::re_inter(a, b),
                        6 => smt::re_diff(a, b),
                        _ => smt::re_concat(x, y),
                    };
                    (a, b, u)
                }),
            };
            let (a, b, u) = match made {
                Ok(x) => x,
                Err(e) => {
                    self.fail(1, "panic", format!("a constructor panicked after a long history: {e}"));
                    return;
                }
            };
            self.stat("checks.bulk_pairs");
            let mut xy = wx.clone();
            xy.extend(wy);
            let mut x1 = wx.clone();
            x1.push(wy[0]);
            let mut y1 = vec![wx[0]];
            y1.extend(wy);
            let mut x2 = wx.clone();
            x2[0] ^= 1;
            let words = [wx.clone(), wy.clone(), xy, x1, y1, x2, vec![]];
            let (i1, i2) = (call(|| a.included_in(b)), call(|| b.included_in(a)));
            for v in &words {
                let (p, q) = (acc(k[0], wx, v), acc(k[1], wy, v));
                for (r, s, inc, l, g) in [(a, b, &i1, p, q), (b, a, &i2, q, p)] {
                    if *inc == Ok(true) && l && !g {
                        self.fail(16, "inclusion", format!("({r}).included_in({s}) holds after a long history but {} is a counterexample", show_w(v)));
                        return;
                    }
                }
                let exp = match op {
                    0..=4 => p || q,
                    5 => p && q,
                    6 => p && !q,
                    _ => (0..=v.len()).any(|c| filler_accepts(kind, wx, &v[..c]) && filler_accepts(kind, wy, &v[c..])),
                };
                let got = self.in_re(mg, v, u);
                if got != Ok(exp) {
                    let how = ["union", "union", "union", "union", "union", "inter", "diff", "concat"][op as usize];
                    let msg = format!("after a long history {} of {a} and {b} is {u}: str_in_re({}) = {got:?}, expected {exp}", how, show_w(v));
                    self.fail(1, "membership", msg.clone());
                    if op <= 4 && exp {
                        self.fail(16, "union-loss", msg.clone());
                    }
                    if self.prop == 7 {
                        // only a matter of history if a manager without one answers otherwise
                        let mut f = ReManager::new();
                        let w = call(|| {
                            let (x, y, full) = (filler_make(Some(&mut f), kind, wx), filler_make(Some(&mut f), kind, wy), f.full());
                            let mut wrap = |k: u64, t: RegLan| match k {
                                0 => t,
                                1 => f.concat(full, t),
                                2 => f.concat(t, full),
                                _ => f.complement(t),
                            };
                            let (a, b) = (wrap(k[0], x), wrap(k[1], y));
                            let u = match op {
                                0..=4 => f.union(a, b),
                                5 => f.inter(a, b),
                                6 => f.diff(a, b),
                                _ => f.concat(x, y),
                            };
                            f.str_in_re(&smt_str(v), u)
                        });
                        if w != got {
                            self.fail(7, "history", msg);
                        }
                    }
                    return;
                }
            }
        }
    }

    /// other observers on a bulk term, language known in closed form
    fn bulk_other(&mut self, s: &Step, t: RegLan, kind: u32, w: &[u32], rng: &mut Rng) {
        let m = &mut self.mgrs[s.mg as usize];
        match self.prop {
            5 => {
                if call(|| m.is_empty_re(t)) != Ok(false) {
                    self.fail(5, "is_empty", format!("after a long history is_empty_re({t}) is not false"));
                    return;
                }
                match call(|| m.get_string(t)) {
                    Ok(Some(x)) => {
                        let v: Vec<u32> = x.iter().copied().collect();
                        if !filler_accepts(kind, w, &v) {
                            self.fail(5, "wrong-witness", format!("after a long history get_string({t}) = {}", show_w(&v)));
                        }
                    }
                    x => {
                        let x = format!("{x:?}");
                        self.fail(5, "no-witness", format!("after a long history get_string({t}) = {x}"))
                    }
                }
            }
            18 => {
                for c in [w[0], w[0].saturating_sub(1), (w[0] + 1).min(MAX_CHAR), MAX_CHAR] {
                    let exp = match kind % 4 {
                        0 | 3 => c == w[0],
                        _ => filler_accepts(kind, w, &[c]),
                    };
                    let m = &mut self.mgrs[s.mg as usize];
                    let got = call(|| m.start_char(t, c));
                    if got != Ok(exp) {
                        self.fail(18, "start_char", format!("after a long history start_char({t}, {c:x}) = {got:?}"));
                    }
                }
            }
            2 => {
                if let Ok(a) = call(|| m.compile(t)) {
                    let mut w2 = w.to_vec();
                    let l = rng.idx(w2.len());
                    w2[l] = w2[l].saturating_sub(1);
                    for c in [w.to_vec(), vec![], w2] {
                        let got = call(|| a.accepts(&smt_str(&c)));
                        let exp = filler_accepts(kind, w, &c);
                        if got != Ok(exp) {
                            self.fail(2, "accepts", format!("after a long history compile({t}) on {}: {got:?}", show_w(&c)));
                        }
                    }
                } else {
                    self.fail(2, "panic", format!("compile({t}) panicked after a long history"));
                }
            }
            _ => {
                let n = call(|| m.iter_derivatives(t).take(50).count());
                let c = call(|| m.compile(t).num_states());
                if n != c {
                    self.fail(19, "states", format!("after a long history {n:?} derivatives but {c:?} states for {t}"));
                }
            }
        }
    }

    fn do_bad_arg(&mut self, s: &Step, t: Option<RegLan>) {
        let kind = s.n.first().copied().unwrap_or(0);
        let r = if s.mg == 0 {
            call(|| {
                // a malformed range is the empty language; a panic is fine too
                smt::re_range(&smt_str(&[98]), &smt_str(&[97]));
            })
        } else {
            let m = &mut self.mgrs[s.mg as usize];
            call(|| match kind % 5 {
                0 => {
                    m.char(MAX_CHAR + 1);
                }
                1 => {
                    m.range(5, 3);
                }
                2 => {
                    m.range(0, MAX_CHAR + 1);
                }
                3 => {
                    if let Some(t) = t {
                        m.class_derivative_unchecked(t, ClassId::Interval(t.num_deriv_classes() + 3));
                    }
                }
                _ => {
                    if let Some(t) = t {
                        let r: Vec<(u32, u32)> = t.char_ranges().map(ends).collect();
                        if let Some((lo, hi)) = r.first() {
                            let _ = m.set_derivative(t, &CharSet::range(lo.saturating_sub(1), (hi + 1).min(MAX_CHAR)));
                        }
                    }
                }
            })
        };
        self.stat("fault.bad_argument");
        self.dig.add(r.is_ok() as u64);
    }

    // ------------------------------------------------------------------ C10

    /// Replacement in a subject beyond 2^16 characters, by an expression that dies after a few
    /// characters: a union of words over ranges.
    fn vast_replace(&mut self, rng: &mut Rng) {
        let base = rng.below(MAX_CHAR as u64 - 4000) as u32;
        // letters of the game
        let ls: Vec<(u32, u32)> = (0..4).map(|k| (base + 900 * k, base + 900 * k + rng.below(600) as u32)).collect();
        let mut alts: Vec<Vec<usize>> = vec![];
        for _ in 0..rng.range(1, 3) {
            alts.push((0..rng.range(1, 5)).map(|_| rng.idx(ls.len())).collect());
        }
        let nullable = rng.pct(10);
        let mut t = if nullable { smt::re_opt(smt::re_none()) } else { smt::re_none() };
        for w in &alts {
            let l: Vec<RegLan> = w.iter().map(|k| smt::re_range(&smt_str(&[ls[*k].0]), &smt_str(&[ls[*k].1]))).collect();
            let x = smt::re_concat_list(l.into_iter());
            t = smt::re_union(t, x);
        }
        let n = rng.range(60_000, 140_000) as usize;
        // matches seldom, often, or only in the end
        let style = rng.below(3);
        let filler = base + 3900;
        let mut subj: Vec<u32> = Vec::with_capacity(n + 8);
        while subj.len() < n {
            let go = match style {
                0 => rng.pct(1) && rng.pct(2),
                1 => rng.pct(60),
                _ => false,
            };
            if go {
                let w = &alts[rng.idx(alts.len())];
                let cut = if rng.pct(70) { w.len() } else { rng.idx(w.len() + 1) };
                for k in &w[..cut] {
                    subj.push(rng.range(ls[*k].0, ls[*k].1));
                }
            } else if rng.pct(1) {
                let k = rng.idx(ls.len());
                subj.push(rng.range(ls[k].0, ls[k].1));
            } else {
                subj.push(filler + rng.below(20) as u32);
            }
        }
        for k in &alts[0] {
            subj.push(rng.range(ls[*k].0, ls[*k].1));
        }
        let rep: Vec<u32> = (0..rng.below(4)).map(|_| rng.range(base, base + 3990)).collect();
        let all = rng.pct(70);
        let at = |i: usize| -> Option<usize> {
            alts.iter()
                .filter(|w| i + w.len() <= subj.len() && w.iter().enumerate().all(|(d, k)| (ls[*k].0..=ls[*k].1).contains(&subj[i + d])))
                .map(|w| w.len())
                .min()
        };
        let mut exp: Vec<u32> = Vec::with_capacity(subj.len());
        let mut i = 0;
        if !all && nullable {
            exp.extend(&rep);
        } else {
            while i < subj.len() {
                match at(i) {
                    Some(l) => {
                        exp.extend(&rep);
                        i += l;
                        if !all {
                            break;
                        }
                    }
                    None => {
                        exp.push(subj[i]);
                        i += 1;
                    }
                }
            }
        }
        exp.extend(&subj[i..]);
        self.stat("checks.vast_replace");
        let (a, b) = (smt_str(&subj), smt_str(&rep));
        let got = call(|| if all { smt::str_replace_re_all(&a, t, &b) } else { smt::str_replace_re(&a, t, &b) });
        let name = if all { "replace_all" } else { "replace" };
        match got {
            Ok(g) => {
                self.dig.add(g.len() as u64);
                let v: &[u32] = g.as_ref();
                if v != &exp[..] {
                    let d = v.iter().zip(&exp).take_while(|(x, y)| x == y).count();
                    self.fail(
                        10,
                        name,
                        format!(
                            "replacing {t} in {} by {}: result of {} characters, {} expected, first difference at {d}",
                            show_w(&subj),
                            show_w(&rep),
                            v.len(),
                            exp.len()
                        ),
                    );
                }
            }
            Err(e) => self.fail(10, "panic", format!("replacing {t} in {} characters panicked: {e}", subj.len())),
        }
    }

    fn do_replace(&mut self, s: &Step, t: RegLan, info: &Info) {
        let cfg = self.cfg.clone();
        let mut rng = Rng::new(s.salt);
        let rounds = if self.prop == 10 { 6 } else { 1 };
        if self.prop == 10 && rng.pct(2) && rng.pct(5) {
            self.vast_replace(&mut rng);
            return;
        }
        if self.prop == 10 && rng.below(150) == 0 {
            let v = crate::vast::replace(&mut rng, &|f| call(f));
            self.vast(v);
            return;
        }
        for _ in 0..rounds {
            let dfa = &info.dfa;
            let mut bw: Vec<u8> = vec![];
            // now and then a long subject and a long replacement
            let long = self.prop == 10 && info.h == EXACT && rng.pct(4);
            let huge = long && info.nref > 0 && rng.pct(10);
            let parts = if huge {
                200 + rng.below(1000)
            } else if long {
                20 + rng.below(120)
            } else {
                rng.below(5)
            };
            let max = if info.h != EXACT {
                info.h as usize
            } else if huge {
                2000
            } else if long {
                600
            } else {
                24
            };
            let sh = dfa.shortest();
            for _ in 0..parts {
                match rng.below(4) {
                    0 => bw.push(rng.idx(cfg.k()) as u8),
                    1 if huge && rng.pct(3) => {
                        let l = 30 + rng.below(300) as usize;
                        bw.extend(dfa.long_word(&mut rng, l))
                    }
                    1 => {
                        let l = rng.below(5) as usize;
                        bw.extend(dfa.random_word(&mut rng, l))
                    }
                    2 => {
                        if let Some(w) = &sh {
                            bw.extend(w)
                        }
                    }
                    _ => {
                        // an accepted word extended or cut
                        let l = 1 + rng.below(6) as usize;
                        let w = dfa.random_word(&mut rng, l);
                        bw.extend(&w[..rng.idx(w.len() + 1)]);
                    }
                }
            }
            bw.truncate(max);
            let subj = chars_of(&cfg, &bw, rng.next());
            let rl = if huge && rng.pct(20) { 300 + rng.below(3000) } else if long && rng.pct(50) { 4 + rng.below(300) } else { rng.below(4) } as usize;
            let rep: Vec<u32> = (0..rl).map(|_| cfg.pick(rng.idx(cfg.k()), rng.next())).collect();
            let all = s.op == Op::ReplAll;
            let exp = ref_replace(dfa, &cfg, &subj, &rep, all);
            let (a, b) = (smt_str(&subj), smt_str(&rep));
            let got = call(|| {
                if all {
                    smt::str_replace_re_all(&a, t, &b)
                } else {
                    smt::str_replace_re(&a, t, &b)
                }
            });
            match got {
                Ok(g) => {
                    let v: Vec<u32> = g.iter().copied().collect();
                    self.dig.add(v.len() as u64);
                    self.stat("checks.replace");
                    if v != subj {
                        self.stat("probe.replacement_happened");
                    }
                    if v != exp {
                        self.fail(
                            10,
                            if all { "replace_all" } else { "replace" },
                            format!(
                                "{}({}, {t}, {}) = {}, expected {}",
                                if all { "str_replace_re_all" } else { "str_replace_re" },
                                show_w(&subj),
                                show_w(&rep),
                                show_w(&v),
                                show_w(&exp)
                            ),
                        );
                        return;
                    }
                }
                Err(e) => {
                    self.unexpected(10, "panic", info, format!("replace in {} by {t} panicked: {e}", show_w(&subj)));
                    return;
                }
            }
        }
    }
}

/// now and then the length of a long word (a few in a thousand: beyond 2^16)
fn long_len(rng: &mut Rng, nref: u32) -> Option<usize> {
    match rng.below(1000) {
        _ if nref == 0 => None,
        0 if nref <= 24 => Some(rng.range(60_000, 72_000) as usize),
        1..=3 if nref <= 100 => Some(rng.range(1000, 9000) as usize),
        4..=40 => Some(rng.range(30, 600) as usize),
        _ => None,
    }
}

/// str.replace_re / str.replace_re_all by definition
pub fn ref_replace(dfa: &Dfa, cfg: &Cfg, s: &[u32], t: &[u32], all: bool) -> Vec<u32> {
    let b: Vec<usize> = s.iter().map(|c| cfg.block_of(*c)).collect();
    let find = |from: usize, empty_ok: bool| -> Option<(usize, usize)> {
        for i in from..=s.len() {
            let mut q = 0;
            if empty_ok && dfa.fin[0] {
                return Some((i, i));
            }
            for j in i..s.len() {
                q = dfa.next(q, b[j]);
                if dfa.fin[q] {
                    return Some((i, j + 1));
                }
            }
        }
        None
    };
    let mut out = vec![];
    let mut at = 0;
    if all {
        while let Some((i, j)) = find(at, false) {
            out.extend_from_slice(&s[at..i]);
            out.extend_from_slice(t);
            at = j;
        }
    } else if let Some((i, j)) = find(0, true) {
        out.extend_from_slice(&s[..i]);
        out.extend_from_slice(t);
        at = j;
    }
    out.extend_from_slice(&s[at..]);
    out
}

pub fn gaps(r: &[(u32, u32)]) -> Vec<(u32, u32)> {
    let mut v = r.to_vec();
    v.sort();
    let mut at = 0u32;
    let mut out = vec![];
    for (s, e) in v {
        if s > at {
            out.push((at, s - 1));
        }
        at = at.max(e + 1);
    }
    if at <= MAX_CHAR {
        out.push((at, MAX_CHAR));
    }
    out
}

/// listed classes with the intervals they stand for
pub fn classes_of(t: RegLan) -> Vec<(ClassId, Vec<(u32, u32)>)> {
    let ranges: Vec<(u32, u32)> = t.char_ranges().map(ends).collect();
    t.class_ids()
        .map(|c| match c {
            ClassId::Interval(i) => (c, ranges.get(i).map(|r| vec![*r]).unwrap_or_default()),
            ClassId::Complement => (c, gaps(&ranges)),
        })
        .collect()
}

pub fn bad_classes(t: RegLan) -> Vec<ClassId> {
    let ranges: Vec<(u32, u32)> = t.char_ranges().map(ends).collect();
    let n = ranges.len();
    let mut v = vec![
        ClassId::Interval(n),
        ClassId::Interval(n + 1),
        ClassId::Interval(n + 1000),
        ClassId::Interval(usize::MAX),
    ];
    // valid in fewer bits
    for b in [8, 16, 31, 32, 63] {
        let i = (1usize << b) + n / 2;
        if i >= n {
            v.push(ClassId::Interval(i));
        }
    }
    if gaps(&ranges).is_empty() {
        v.push(ClassId::Complement);
    }
    v
}

// keep the unused import list honest
#[allow(dead_code)]
fn _types(_: &AutomatonBuilder<u32>) {}
