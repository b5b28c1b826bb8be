//! One run inside one forked process: spawns the executing threads, decides who runs when.

use crate::exec::{Exec, Outcome, Viol};
use crate::gen;
use crate::plan::*;
use crate::prng::*;
use crate::rt::{self, c, page, St};
use crate::world::{Ann, World};
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Mutex};

pub enum Source<'a> {
    Gen(u8, u64),
    Plan(&'a Plan),
}

enum Cmd {
    Step(Ann),
    Exit,
}
struct Slot {
    cmd: Mutex<Option<Cmd>>,
    out: Mutex<Option<Outcome>>,
}
static SLOTS: [Slot; rt::MAXT] = [const {
    Slot {
        cmd: Mutex::new(None),
        out: Mutex::new(None),
    }
}; rt::MAXT];

#[derive(Default, Debug, Clone)]
pub struct RunRes {
    pub ended: bool,
    pub digest: u64,
    pub sched: u64,
    pub ops_digest: u64,
    pub steps: u64,
    pub skipped: u64,
    pub viol: Option<(u32, Viol)>,
    /// crash / hang / fuel / memory: (kind, step id, op)
    pub abort: Option<(String, u32, Option<Op>)>,
    /// the aborted step works on terms that a textbook implementation handles with little effort
    pub light: bool,
    pub stats: Vec<(String, u64)>,
    pub ops: Vec<(String, u64)>,
    pub langs: Vec<u64>,
    pub model_err: Option<String>,
    pub trace: String,
}

fn thread_main(slot: usize, cfg: Arc<Cfg>, tracing: bool) {
    rt::set_slot(slot);
    let mut exec: Option<Exec> = None;
    loop {
        rt::wait_cmd(slot);
        let cmd = SLOTS[slot].cmd.lock().unwrap().take();
        match cmd {
            Some(Cmd::Step(ann)) => {
                let e = exec.get_or_insert_with(|| Exec::new(cfg.clone(), tracing));
                let o = e.step(&ann);
                *SLOTS[slot].out.lock().unwrap() = Some(o);
                rt::report_done(slot);
            }
            _ => {
                drop(exec);
                rt::report_done(slot);
                return;
            }
        }
    }
}

/// counters add up, maxima do not
pub fn merge(at: &mut u64, key: &str, v: u64) {
    if key.starts_with("max.") {
        *at = (*at).max(v)
    } else {
        *at += v
    }
}

pub fn dfa_hash(d: &crate::dfa::Dfa) -> u64 {
    let mut g = Digest::new();
    g.add(d.k as u64);
    for f in &d.fin {
        g.add(*f as u64);
    }
    for t in &d.tr {
        g.add(*t as u64);
    }
    g.0
}

/// step annotations of a plan
pub fn annotate(plan: &Plan) -> (World, Vec<Ann>) {
    let mut w = World::new(&plan.cfg);
    let mut v = vec![];
    for s in &plan.steps {
        if let Some(a) = w.apply(s) {
            v.push(a);
        }
    }
    (w, v)
}

/// does the model agree with itself (two independent constructions of the same language)?
fn model_check(cfg: &Cfg, anns: &[Ann]) -> Option<String> {
    let mut w = World::new(cfg);
    let mut n = 0;
    for a in anns {
        if w.apply(&a.step).is_none() {
            return Some(format!("step {} is not accepted twice", a.step.id));
        }
        if !a.step.op.makes_term() {
            continue;
        }
        let t = w.terms[&a.step.id].clone();
        if let (Some(ast), true) = (t.ast, t.h == crate::world::EXACT) {
            if let Some(d) = w.aci.dfa(ast, 300) {
                n += 1;
                let e = w.langs.get(t.dfa);
                if *e != d {
                    return Some(format!("step {}: the two reference constructions differ", a.step.id));
                }
            }
        }
        if n > 60 {
            break;
        }
    }
    None
}

struct Runner {
    cfg: Arc<Cfg>,
    tracing: bool,
    th: Vec<Option<std::thread::JoinHandle<()>>>,
    res: RunRes,
    dig: Digest,
    sched: Digest,
    stats: std::collections::BTreeMap<&'static str, u64>,
    ops: std::collections::BTreeMap<&'static str, u64>,
}

impl Runner {
    fn start(&mut self, ann: &Ann, nested: bool, parked: &[usize]) -> St {
        let slot = ann.step.th as usize;
        if self.th[slot].is_none() {
            rt::reset_slot(slot);
            let (c, t) = (self.cfg.clone(), self.tracing);
            self.th[slot] = Some(
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn(move || thread_main(slot, c, t))
                    .unwrap(),
            );
        }
        page().step.store(ann.step.id as u64, SeqCst);
        page().op.store(ann.step.op as u64 + 1, SeqCst);
        let mut a = ann.clone();
        if nested {
            a.step.pre = 0;
        }
        *SLOTS[slot].cmd.lock().unwrap() = Some(Cmd::Step(a));
        self.sched.add(slot as u64 + if nested { 100 } else { 0 });
        rt::run_until_stop(slot, parked)
    }

    fn finish(&mut self, ann: &Ann) {
        let slot = ann.step.th as usize;
        let o = SLOTS[slot].out.lock().unwrap().take().unwrap();
        self.dig.add(ann.step.id as u64);
        self.dig.add(ann.step.op as u64);
        self.dig.add(o.digest);
        for (k, v) in &o.stats {
            merge(self.stats.entry(k).or_insert(0), k, *v);
        }
        *self.ops.entry(ann.step.op.name()).or_insert(0) += 1;
        self.res.steps += 1;
        self.res.skipped += o.skipped as u64;
        if self.tracing {
            self.res.trace.push_str(&format!("{}  {}\n", ann.step.text(), o.trace));
        }
        if let Some(v) = o.viol {
            if self.res.viol.is_none() {
                self.res.viol = Some((ann.step.id, v));
            }
        }
    }

    fn restart(&mut self, slot: usize) {
        if let Some(h) = self.th[slot].take() {
            *SLOTS[slot].cmd.lock().unwrap() = Some(Cmd::Exit);
            rt::run_until_stop(slot, &[]);
            let _ = h.join();
            *self.stats.entry("fault.thread_restart").or_insert(0) += 1;
        }
    }

    /// nobody else is inside an operation: a client that waits can only be waiting for itself
    fn alone(&mut self, slot: usize, st: St) {
        let mut st = st;
        let mut n = 0;
        while st == St::Blocked {
            n += 1;
            if n > 1000 {
                unsafe { c::_exit(rt::EXIT_DEADLOCK) }
            }
            st = rt::run_until_stop(slot, &[slot]);
        }
    }

    fn go(&mut self, anns: &[Ann]) {
        let mut ops = Digest::new();
        let mut i = 0;
        let mut turns = 0;
        while i < anns.len() && self.res.viol.is_none() {
            let a = &anns[i];
            ops.add(a.step.op as u64);
            if a.step.op == Op::ThreadRestart {
                self.restart(a.step.th as usize);
                i += 1;
                continue;
            }
            let st = self.start(a, false, &[]);
            i += 1;
            if st == St::Parked {
                let p = a.step.th as usize;
                let mut n = 0;
                let mut waiting: Option<&Ann> = None;
                while n < a.step.prelen
                    && i < anns.len()
                    && anns[i].step.th as usize != p
                    && anns[i].step.op != Op::ThreadRestart
                {
                    let b = &anns[i];
                    ops.add(b.step.op as u64);
                    let st = self.start(b, true, &[p]);
                    i += 1;
                    n += 1;
                    if st == St::Blocked {
                        // waits for something that the parked client holds: that one goes on first
                        waiting = Some(b);
                        break;
                    }
                    self.finish(b);
                }
                if n > 0 {
                    *self.stats.entry("fault.interleaved_inside_operation").or_insert(0) += 1;
                }
                page().step.store(a.step.id as u64, SeqCst);
                page().op.store(a.step.op as u64 + 1, SeqCst);
                let mut st = rt::run_until_stop(p, &[p]);
                while let (Some(b), true) = (waiting, st == St::Blocked) {
                    // they wait for each other in turn, or for good
                    let q = b.step.th as usize;
                    turns += 1;
                    if turns > 2_000 {
                        // a client that re-enters the crate from its iterator may have locked itself out
                        if b.step.op == Op::Reentrant {
                            page().op.store(b.step.op as u64 + 1, SeqCst);
                        }
                        unsafe { c::_exit(rt::EXIT_DEADLOCK) }
                    }
                    if rt::run_until_stop(q, &[q]) != St::Blocked {
                        self.finish(b);
                        waiting = None;
                    }
                    st = rt::run_until_stop(p, &[p]);
                }
                self.alone(p, st);
                self.finish(a);
                if let Some(b) = waiting {
                    page().step.store(b.step.id as u64, SeqCst);
                    page().op.store(b.step.op as u64 + 1, SeqCst);
                    let q = b.step.th as usize;
                    let st = rt::run_until_stop(q, &[q]);
                    self.alone(q, st);
                    self.finish(b);
                }
                continue;
            }
            self.alone(a.step.th as usize, st);
            self.finish(a);
        }
        self.res.ops_digest = ops.0;
    }
}

const MEM: usize = 3 << 30;

/// body of the forked process; writes the result to fd and never returns
fn child(src: &Source, fd: i32, tracing: bool, check_model: bool) -> ! {
    unsafe {
        c::prctl(1, 9, 0, 0, 0); // die with the parent
        c::setrlimit(0, &[rt::CPU.load(SeqCst), rt::CPU.load(SeqCst) + 1]); // CPU seconds
        c::setrlimit(4, &[0, 0]); // no core files
    }
    rt::HEAP.rebase(MEM);
    crate::exec::install_panic_hook();
    page().step.store(0, SeqCst);
    page().op.store(0, SeqCst);
    page().phase.store(0, SeqCst);
    let (plan, anns) = match src {
        Source::Gen(p, s) => gen::generate(*p, *s),
        Source::Plan(p) => ((*p).clone(), annotate(p).1),
    };
    let mut res = RunRes::default();
    if check_model {
        res.model_err = model_check(&plan.cfg, &anns);
    }
    let mut langs: Set<u64> = Set::default();
    for a in &anns {
        if let Some(o) = &a.out {
            langs.insert(dfa_hash(&o.dfa));
        }
    }
    page().phase.store(1, SeqCst);
    rt::RAND_STATE.store(plan.cfg.hash_seed, SeqCst);
    let mut r = Runner {
        cfg: Arc::new(plan.cfg.clone()),
        tracing,
        th: (0..rt::MAXT).map(|_| None).collect(),
        res,
        dig: Digest::new(),
        sched: Digest::new(),
        stats: Default::default(),
        ops: Default::default(),
    };
    r.go(&anns);
    page().phase.store(2, SeqCst);
    let mut out = String::new();
    use std::fmt::Write;
    let fb = rt::FALLBACKS.load(SeqCst);
    if fb > 0 {
        r.stats.insert("scheduler_fallbacks", fb);
    }
    let bl = rt::BLOCKS.load(SeqCst);
    if bl > 0 {
        r.stats.insert("fault.blocked_on_lock", bl);
    }
    writeln!(
        out,
        "D {} {} {} {} {}",
        r.dig.0, r.sched.0, r.res.ops_digest, r.res.steps, r.res.skipped
    )
    .unwrap();
    for (k, v) in &r.stats {
        writeln!(out, "S {k} {v}").unwrap();
    }
    for (k, v) in &r.ops {
        writeln!(out, "O {k} {v}").unwrap();
    }
    for l in &langs {
        writeln!(out, "L {l}").unwrap();
    }
    if let Some((s, v)) = &r.res.viol {
        writeln!(out, "V {} {} {} {}", s, v.prop, v.class, v.msg.replace('\n', " ")).unwrap();
    }
    if let Some(m) = &r.res.model_err {
        writeln!(out, "M {m}").unwrap();
    }
    if tracing {
        for l in r.res.trace.lines() {
            writeln!(out, "T {l}").unwrap();
        }
    }
    writeln!(out, "E").unwrap();
    write_all(fd, out.as_bytes());
    unsafe { c::_exit(0) }
}

pub fn write_all(fd: i32, b: &[u8]) {
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { c::write(fd, b[i..].as_ptr(), b.len() - i) };
        if n <= 0 {
            return;
        }
        i += n as usize;
    }
}

/// As `run`, but an operation that did not return gets twenty times the fuel before that counts.
pub fn run_patient(prop: u8, src: &Source, tracing: bool, check_model: bool) -> RunRes {
    let r = run(src, tracing, check_model);
    match &r.abort {
        Some((k, ..)) if matches!(k.as_str(), "fuel" | "hang" | "memory") && abort_class(prop, &r).is_some() => (),
        _ => return r,
    }
    let (f, t) = (rt::CALL_FUEL.load(SeqCst), rt::CPU.load(SeqCst));
    rt::CALL_FUEL.store(f * 20, SeqCst);
    rt::CPU.store(t * 4, SeqCst);
    rt::PATIENCE.store(20, SeqCst);
    let r = run(src, tracing, check_model);
    rt::CALL_FUEL.store(f, SeqCst);
    rt::CPU.store(t, SeqCst);
    rt::PATIENCE.store(1, SeqCst);
    r
}

/// fork, run, collect
pub fn run(src: &Source, tracing: bool, check_model: bool) -> RunRes {
    let mut fds = [0i32; 2];
    let pid = unsafe {
        assert_eq!(c::pipe(fds.as_mut_ptr()), 0);
        c::fork()
    };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            c::close(fds[0]);
        }
        child(src, fds[1], tracing, check_model);
    }
    unsafe {
        c::close(fds[1]);
    }
    let mut buf = vec![];
    let mut tmp = vec![0u8; 65536];
    let start = std::time::Instant::now();
    let mut stalled = false;
    loop {
        let mut p = c::pollfd {
            fd: fds[0],
            events: 1,
            revents: 0,
        };
        let r = unsafe { c::poll(&mut p, 1, 1000) };
        if r > 0 {
            let n = unsafe { c::read(fds[0], tmp.as_mut_ptr(), tmp.len()) };
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        } else if start.elapsed().as_secs() > 300 {
            stalled = true;
            unsafe {
                c::kill(pid, 9);
            }
            break;
        }
    }
    let mut st = 0i32;
    unsafe {
        c::close(fds[0]);
        c::waitpid(pid, &mut st, 0);
    }
    let mut res = parse(&String::from_utf8_lossy(&buf));
    if !res.ended {
        let sig = st & 0x7f;
        let code = (st >> 8) & 0xff;
        let kind = if stalled {
            "stall".to_string()
        } else if sig == 24 || sig == 9 {
            "hang".to_string()
        } else if sig != 0 {
            format!("signal{sig}")
        } else if code == rt::EXIT_FUEL {
            "fuel".into()
        } else if code == rt::EXIT_DEADLOCK {
            "deadlock".into()
        } else if code == rt::EXIT_MEM {
            "memory".into()
        } else {
            format!("exit{code}")
        };
        let kind = match page().phase.load(SeqCst) {
            1 => kind,
            x => format!("harness-{kind}-phase{x}"),
        };
        let op = page().op.load(SeqCst);
        res.abort = Some((
            kind,
            page().step.load(SeqCst) as u32,
            if op == 0 { None } else { Op::ALL.get(op as usize - 1).copied() },
        ));
        res.light = light(src, page().step.load(SeqCst) as u32);
    }
    res
}

/// Is the given step one that must not need much: all terms it works on have an exact textbook AST
/// whose complete derivative closure is cheap?
fn light(src: &Source, step: u32) -> bool {
    let plan = match src {
        Source::Gen(p, s) => gen::generate(*p, *s).0,
        Source::Plan(p) => (*p).clone(),
    };
    let mut w = World::new(&plan.cfg);
    let ok = |w: &mut World, id: u32| w.light(id);
    for s in &plan.steps {
        if w.apply(s).is_some() && s.id == step {
            let mut ids = s.a.clone();
            if s.op.makes_term() {
                ids.push(s.id);
            }
            return s.op >= Op::BNew || matches!(s.op, Op::Filler | Op::FillerAudit) || ids.into_iter().all(|i| ok(&mut w, i));
        }
    }
    false
}

fn parse(t: &str) -> RunRes {
    let mut r = RunRes::default();
    for l in t.lines() {
        let (k, v) = match l.split_once(' ') {
            Some(x) => x,
            None => (l, ""),
        };
        match k {
            "D" => {
                let w: Vec<u64> = v.split(' ').filter_map(|x| x.parse().ok()).collect();
                if w.len() == 5 {
                    r.digest = w[0];
                    r.sched = w[1];
                    r.ops_digest = w[2];
                    r.steps = w[3];
                    r.skipped = w[4];
                }
            }
            "S" | "O" => {
                if let Some((a, b)) = v.split_once(' ') {
                    let e = (a.to_string(), b.parse().unwrap_or(0));
                    if k == "S" {
                        r.stats.push(e)
                    } else {
                        r.ops.push(e)
                    }
                }
            }
            "L" => r.langs.push(v.parse().unwrap_or(0)),
            "V" => {
                let mut w = v.splitn(4, ' ');
                let s = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let p = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let c = w.next().unwrap_or("").to_string();
                let m = w.next().unwrap_or("").to_string();
                r.viol = Some((
                    s,
                    Viol {
                        prop: p,
                        class: c,
                        msg: m,
                    },
                ));
            }
            "M" => r.model_err = Some(v.to_string()),
            "T" => {
                r.trace.push_str(v);
                r.trace.push('\n');
            }
            "E" => r.ended = true,
            _ => (),
        }
    }
    r
}

/// Is the abnormal end of a run a violation of the property?  Only when it happened inside an
/// operation the property speaks about.
pub fn abort_class(prop: u8, res: &RunRes) -> Option<String> {
    let (kind, _, op) = res.abort.as_ref()?;
    if kind.starts_with("harness") || kind == "stall" {
        return None;
    }
    // running out of fuel, time or memory says something only about cheap operations
    if matches!(kind.as_str(), "fuel" | "hang" | "memory") && !res.light {
        return None;
    }
    let op = (*op)?;
    let mine = match prop {
        1 => op.is_ctor() || matches!(op, Op::InRe | Op::Lang),
        2 => matches!(op, Op::Compile | Op::TryCompile),
        3 => (op.makes_term() && !op.is_ctor()) || op == Op::Classes,
        5 => matches!(op, Op::IsEmpty | Op::GetString),
        7 => matches!(op, Op::Reissue | Op::ComplInv | Op::EqAudit | Op::Twin | Op::Filler | Op::FillerAudit),
        10 => matches!(op, Op::Repl | Op::ReplAll),
        4 => op == Op::AMin,
        11 => matches!(op, Op::PNew | Op::PPush | Op::PClone | Op::PAudit),
        12 => op == Op::PMerge,
        14 => matches!(op, Op::APrune | Op::AAudit),
        13 => matches!(op, Op::BNew | Op::BFinal | Op::BDef | Op::BTrans | Op::BBulk | Op::BBuild),
        16 => matches!(op, Op::Incl | Op::InclAll | Op::UnionLoss),
        17 => matches!(op, Op::SNew | Op::SOp),
        18 => matches!(op, Op::StartChar | Op::StartClass),
        19 => matches!(op, Op::Iter | Op::Compile | Op::TryCompile | Op::IterCancel),
        _ => false,
    };
    if mine {
        Some(format!("abort-{}", kind))
    } else {
        None
    }
}

/// violation class of a result, if any
pub fn verdict(prop: u8, r: &RunRes) -> Option<(u32, String, String)> {
    if let Some((s, v)) = &r.viol {
        return Some((*s, v.class.clone(), v.msg.clone()));
    }
    let c = abort_class(prop, r)?;
    let (kind, s, op) = r.abort.as_ref().unwrap();
    Some((
        *s,
        c,
        format!("operation {} did not return: {kind}", op.map(|o| o.name()).unwrap_or("?")),
    ))
}
