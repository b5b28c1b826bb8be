//! Deterministic simulator for aws-smt-strings: see /verif/DESIGN.md.

mod aci;
mod autos;
mod parts;
mod strs;
mod builder;
mod dfa;
mod exec;
mod gen;
mod plan;
mod prng;
mod rt;
mod sched;
mod vast;
mod world;

use crate::plan::*;
use crate::prng::*;
use crate::rt::{c, page};
use crate::sched::{Source, RunRes};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::*;
use std::time::Instant;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(d)
}
fn prop_num(s: &str) -> u8 {
    s.trim_start_matches('C').parse().unwrap_or(0)
}

pub fn run_seed(seed: u64, prop: u8, index: u64) -> u64 {
    mix(mix(seed, 0x5151 + prop as u64), index)
}

fn main() {
    // identical address space layout in every process
    unsafe {
        if c::personality(0xffff_ffff) & 0x0040000 == 0 && std::env::var("SMTSIM_REEXEC").is_err() {
            c::personality(0x0040000);
            use std::os::unix::process::CommandExt;
            let e = std::env::current_exe().unwrap();
            let _ = std::process::Command::new(e)
                .args(std::env::args().skip(1))
                .env("SMTSIM_REEXEC", "1")
                .exec();
        }
    }
    rt::make_page();
    if let Some(f) = arg("--fuel").and_then(|x| x.parse().ok()) {
        rt::CALL_FUEL.store(f, SeqCst);
    }
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let code = match cmd.as_str() {
        "run" => cmd_run(),
        "replay" => cmd_replay(),
        "gen" => cmd_gen(),
        "digests" => cmd_digests(),
        "selfcheck" => cmd_selfcheck(),
        "closures" => cmd_closures(),
        _ => {
            eprintln!("usage: smtsim run|replay|gen|digests|selfcheck ...");
            2
        }
    };
    std::process::exit(code);
}

// ------------------------------------------------------------------------------- batch

#[derive(Default)]
struct Agg {
    runs: u64,
    steps: u64,
    skipped: u64,
    stats: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    digests: Set<u64>,
    scheds: Set<u64>,
    seqs: Set<u64>,
    langs: Set<u64>,
    faulted: u64,
    nontrivial: Set<u64>,
    aborts: BTreeMap<String, u64>,
    /// (index, class, msg)
    fails: Vec<(u64, String, String)>,
    model: Vec<String>,
    model_checked: u64,
}

const WALL_STOP: u64 = 1 << 62;

fn worker(fd: i32, prop: u8, seed: u64, first: u64, stride: u64, runs: u64, wall: f64, t0: Instant, main_page: usize) -> ! {
    // own page for the runs of this worker; the common one only carries the best index
    let best = unsafe { &(*(main_page as *const rt::Page)).best };
    rt::make_page();
    let mut a = Agg::default();
    let mut i = first;
    let checks = checks_key(prop);
    while i < runs {
        if i > best.load(SeqCst) || t0.elapsed().as_secs_f64() > wall {
            break;
        }
        let cm = i % 50 == 7;
        let r = sched::run_patient(prop, &Source::Gen(prop, run_seed(seed, prop, i)), false, cm);
        a.model_checked += cm as u64;
        a.runs += 1;
        a.steps += r.steps;
        a.skipped += r.skipped;
        let mut faulted = false;
        let mut nt = false;
        for (k, v) in &r.stats {
            sched::merge(a.stats.entry(k.clone()).or_insert(0), k, *v);
            faulted |= k.starts_with("fault.");
            nt |= checks.iter().any(|c| c == k);
        }
        for (k, v) in &r.ops {
            *a.ops.entry(k.clone()).or_insert(0) += v;
        }
        a.faulted += faulted as u64;
        a.digests.insert(r.digest);
        if nt {
            a.nontrivial.insert(r.digest);
        }
        a.scheds.insert(r.sched);
        a.seqs.insert(r.ops_digest);
        for l in &r.langs {
            if a.langs.len() < 2_000_000 {
                a.langs.insert(*l);
            }
        }
        if let Some(m) = &r.model_err {
            a.model.push(format!("run {i}: {m}"));
        }
        if let Some((k, s, op)) = &r.abort {
            let key = format!("{k}/{}", op.map(|o| o.name()).unwrap_or("-"));
            *a.aborts.entry(key).or_insert(0) += 1;
            let _ = s;
        }
        if let Some((_, cl, m)) = sched::verdict(prop, &r) {
            a.fails.push((i, cl, m));
            best.fetch_min(i, SeqCst);
            break;
        }
        i += stride;
    }
    let mut o = String::new();
    writeln!(o, "N {} {} {} {} {}", a.runs, a.steps, a.skipped, a.faulted, a.model_checked).unwrap();
    for (k, v) in &a.stats {
        writeln!(o, "S {k} {v}").unwrap();
    }
    for (k, v) in &a.ops {
        writeln!(o, "O {k} {v}").unwrap();
    }
    for (k, v) in &a.aborts {
        writeln!(o, "A {k} {v}").unwrap();
    }
    for x in &a.digests {
        writeln!(o, "d {x}").unwrap();
    }
    for x in &a.nontrivial {
        writeln!(o, "n {x}").unwrap();
    }
    for x in &a.scheds {
        writeln!(o, "s {x}").unwrap();
    }
    for x in &a.seqs {
        writeln!(o, "q {x}").unwrap();
    }
    for x in &a.langs {
        writeln!(o, "l {x}").unwrap();
    }
    for (i, c, m) in &a.fails {
        writeln!(o, "F {i} {c} {m}").unwrap();
    }
    for m in &a.model {
        writeln!(o, "M {m}").unwrap();
    }
    writeln!(o, "E").unwrap();
    sched::write_all(fd, o.as_bytes());
    unsafe { c::_exit(0) }
}

/// what counts as "the property was actually exercised" in a run
fn checks_key(prop: u8) -> &'static [&'static str] {
    match prop {
        1 => &["checks.language"],
        2 => &["checks.automaton"],
        3 => &["checks.classes"],
        5 => &["checks.emptiness", "checks.witness"],
        7 => &["checks.reissue", "checks.twin", "checks.equality_audit"],
        10 => &["checks.replace"],
        4 => &["checks.minimize"],
        11 => &["checks.partition"],
        12 => &["checks.merge"],
        13 => &["checks.build"],
        14 => &["checks.auto_audit", "checks.prune"],
        16 => &["probe.inclusion_claimed_nontrivial", "checks.union_loss"],
        17 => &["checks.string"],
        18 => &["checks.start_char", "checks.start_class"],
        19 => &["checks.closure"],
        _ => &[],
    }
}

fn batch(prop: u8, seed: u64, runs: u64, jobs: u64, wall: f64) -> (Agg, bool) {
    let t0 = Instant::now();
    page().best.store(WALL_STOP, SeqCst);
    let mp = rt::PAGE.load(SeqCst);
    let mut fds = vec![];
    for w in 0..jobs {
        let mut p = [0i32; 2];
        unsafe {
            assert_eq!(c::pipe(p.as_mut_ptr()), 0);
            let pid = c::fork();
            assert!(pid >= 0);
            if pid == 0 {
                c::prctl(1, 9, 0, 0, 0);
                c::close(p[0]);
                worker(p[1], prop, seed, w, jobs, runs, wall, t0, mp);
            }
            c::close(p[1]);
            fds.push((p[0], pid));
        }
    }
    let mut a = Agg::default();
    let mut ok = true;
    for (fd, pid) in fds {
        let mut buf: Vec<u8> = vec![];
        let mut tmp = vec![0u8; 1 << 16];
        loop {
            let n = unsafe { c::read(fd, tmp.as_mut_ptr(), tmp.len()) };
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        unsafe {
            c::close(fd);
            let mut st = 0;
            c::waitpid(pid, &mut st, 0);
        }
        let t = String::from_utf8_lossy(&buf);
        let mut ended = false;
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let n = || v.parse::<u64>().unwrap_or(0);
            let kv = || {
                let (x, y) = v.rsplit_once(' ').unwrap();
                (x.to_string(), y.parse::<u64>().unwrap_or(0))
            };
            match k {
                "N" => {
                    let w: Vec<u64> = v.split(' ').map(|x| x.parse().unwrap()).collect();
                    a.runs += w[0];
                    a.steps += w[1];
                    a.skipped += w[2];
                    a.faulted += w[3];
                    a.model_checked += w[4];
                }
                "S" => {
                    let (x, y) = kv();
                    sched::merge(a.stats.entry(x.clone()).or_insert(0), &x, y);
                }
                "O" => {
                    let (x, y) = kv();
                    *a.ops.entry(x).or_insert(0) += y;
                }
                "A" => {
                    let (x, y) = kv();
                    *a.aborts.entry(x).or_insert(0) += y;
                }
                "d" => {
                    a.digests.insert(n());
                }
                "n" => {
                    a.nontrivial.insert(n());
                }
                "s" => {
                    a.scheds.insert(n());
                }
                "q" => {
                    a.seqs.insert(n());
                }
                "l" => {
                    a.langs.insert(n());
                }
                "F" => {
                    let mut w = v.splitn(3, ' ');
                    let i = w.next().unwrap().parse().unwrap();
                    let c = w.next().unwrap_or("").to_string();
                    a.fails.push((i, c, w.next().unwrap_or("").to_string()));
                }
                "M" => a.model.push(v.to_string()),
                "E" => ended = true,
                _ => (),
            }
        }
        ok &= ended;
    }
    a.fails.sort();
    (a, ok)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o
}

fn map_json(m: &BTreeMap<String, u64>, prefix: &str) -> String {
    let v: Vec<String> = m
        .iter()
        .filter(|(k, _)| k.starts_with(prefix))
        .map(|(k, v)| format!("\"{}\": {}", esc(&k[prefix.len()..]), v))
        .collect();
    format!("{{{}}}", v.join(", "))
}

fn cmd_run() -> i32 {
    let prop = prop_num(&arg("--prop").unwrap());
    let seed = num("--seed", 1);
    let tier = arg("--tier").unwrap_or("quick".into());
    let runs = num("--runs", 1000);
    let jobs = num("--jobs", 8).max(1);
    let wall = num("--wall", 300) as f64;
    let evidence = arg("--evidence");
    let replays = arg("--replays").unwrap_or("replays".into());
    let profile = arg("--profile").unwrap_or("checked".into());
    let t0 = Instant::now();
    println!("smtsim property=C{prop:02} tier={tier} VERIF_SEED={seed} runs<={runs} jobs={jobs} build={profile}");
    let (a, ok) = batch(prop, seed, runs, jobs, wall);
    let batch_s = t0.elapsed().as_secs_f64();

    // determinism self-test: the first runs once more, in this process' children
    let mut det_checked = 0;
    let mut det_bad = vec![];
    for i in 0..12.min(a.runs) {
        let s = run_seed(seed, prop, i);
        let x = sched::run(&Source::Gen(prop, s), false, false);
        let (plan, _) = gen::generate(prop, s);
        let y = sched::run(&Source::Plan(&plan), false, false);
        det_checked += 1;
        if x.digest != y.digest || x.sched != y.sched || !a.digests.contains(&x.digest) {
            det_bad.push(i);
        }
    }

    let mut code = 0;
    let mut lines = vec![];
    let mut unconfirmed = vec![];
    let mut reported = 0;
    for (idx, class, _) in &a.fails {
        if reported > 0 {
            break;
        }
        let s = run_seed(seed, prop, *idx);
        let (plan, _) = gen::generate(prop, s);
        let r = sched::run_patient(prop, &Source::Plan(&plan), false, false);
        let v = sched::verdict(prop, &r);
        match v {
            None => {
                unconfirmed.push(format!("run {idx} class {class}"));
                continue;
            }
            Some((at, class, _)) => {
                let min = minimise(&plan, prop, &class, at, num("--min-wall", 25) as f64);
                let r2 = sched::run_patient(prop, &Source::Plan(&min), true, false);
                let v2 = sched::verdict(prop, &r2);
                let (min, r2, v2) = match v2 {
                    Some(v2) => (min, r2, v2),
                    None => {
                        let r = sched::run(&Source::Plan(&plan), true, false);
                        let v = sched::verdict(prop, &r).unwrap_or((at, class.clone(), String::new()));
                        (plan.clone(), r, v)
                    }
                };
                let _ = std::fs::create_dir_all(&replays);
                let f = format!("{replays}/C{prop:02}-s{seed}-r{idx}-{profile}.plan");
                let mut text = String::new();
                writeln!(text, "# property C{prop:02} violated: {} at step {}", v2.1, v2.0).unwrap();
                writeln!(text, "# {}", v2.2).unwrap();
                writeln!(text, "# VERIF_SEED={seed} run={idx} run_seed={s} build={profile}").unwrap();
                writeln!(text, "# {} of {} steps left after minimisation", min.steps.len(), plan.steps.len()).unwrap();
                text.push_str(&min.text());
                for l in r2.trace.lines() {
                    writeln!(text, "# trace: {l}").unwrap();
                }
                let _ = std::fs::write(&f, text);
                lines.push(format!("violation: {} at step {}: {}", v2.1, v2.0, v2.2));
                lines.push(format!("VIOLATION property=C{prop:02} replay={f}"));
                reported += 1;
                code = 1;
            }
        }
    }
    for l in &lines {
        println!("{l}");
    }
    for u in &unconfirmed {
        println!("note: {u} did not repeat and is not reported");
    }
    let wall_s = t0.elapsed().as_secs_f64();
    if code == 0 && (!a.model.is_empty() || !ok || a.runs == 0) {
        for m in &a.model {
            println!("harness error: reference model disagrees with itself: {m}");
        }
        if !ok {
            println!("harness error: a worker ended early");
        }
        code = 3;
    }
    if code == 0 && !det_bad.is_empty() {
        println!("note: runs {det_bad:?} were not reproduced exactly");
    }
    println!(
        "runs={} steps={} distinct_histories={} faulted_runs={} aborted={:?} wall={:.1}s",
        a.runs,
        a.steps,
        a.digests.len(),
        a.faulted,
        a.aborts,
        wall_s
    );
    if let Some(f) = evidence {
        let mut samples = vec![];
        for i in [0u64, 1, 2] {
            if i < a.runs {
                let (p, _) = gen::generate(prop, run_seed(seed, prop, i));
                let t = p.text();
                let t: String = t.chars().take(2500).collect();
                samples.push(format!("\"{}\"", esc(&t)));
            }
        }
        let reps = |k: &str| a.stats.get(k).copied().unwrap_or(0);
        let mut j = String::new();
        writeln!(j, "{{").unwrap();
        writeln!(j, " \"property\": \"C{prop:02}\", \"tier\": \"{tier}\", \"seed\": {seed}, \"level\": \"exploration\",").unwrap();
        writeln!(j, " \"wall_s\": {wall_s:.2}, \"violations\": {reported},").unwrap();
        writeln!(j, " \"coverage\": {{").unwrap();
        writeln!(j, "  \"evaluations\": {}, \"distinct_nontrivial\": {},", a.runs, a.nontrivial.len()).unwrap();
        writeln!(j, "  \"rule\": \"one evaluation = one simulated run (a seeded configuration, a schedule of client operations on real managers in real threads, and a fault sequence); counted as distinct and non-trivial when the digest of its complete history of operations and answers is new and at least one of these checks of the property was made in it: {}\",", checks_key(prop).join(", ")).unwrap();
        writeln!(j, "  \"samples\": [{}],", samples.join(", ")).unwrap();
        writeln!(j, "  \"build_profile\": \"{profile}\",").unwrap();
        writeln!(j, "  \"runs_per_hour\": {:.0}, \"seeds_per_hour\": {:.0}, \"batch_wall_s\": {:.2}, \"worker_processes\": {jobs},", a.runs as f64 / batch_s * 3600.0, a.runs as f64 / batch_s * 3600.0, batch_s).unwrap();
        writeln!(j, "  \"simulated_time\": {{\"unit\": \"logical steps (the code has no clock); allocation points inside operations are the sub-step clock\", \"steps\": {}, \"allocation_points\": {}}},", a.steps, reps("alloc_points")).unwrap();
        writeln!(j, "  \"faults_fired\": {},", map_json(&a.stats, "fault.")).unwrap();
        writeln!(j, "  \"runs_with_faults\": {}, \"runs_without_faults\": {},", a.faulted, a.runs - a.faulted).unwrap();
        writeln!(j, "  \"reach_probes\": {},", map_json(&a.stats, "probe.")).unwrap();
        writeln!(j, "  \"checks_made\": {},", map_json(&a.stats, "checks.")).unwrap();
        writeln!(j, "  \"operations\": {},", map_json(&a.ops, "")).unwrap();
        let other: BTreeMap<String, u64> = a
            .stats
            .iter()
            .filter(|(k, _)| !k.contains('.') || k.starts_with("max."))
            .map(|(k, v)| (k.clone(), *v))
            .collect();
        writeln!(j, "  \"work\": {},", map_json(&other, "")).unwrap();
        writeln!(j, "  \"distinct_histories\": {}, \"distinct_operation_sequences\": {}, \"distinct_thread_schedules\": {}, \"distinct_model_languages\": {},", a.digests.len(), a.seqs.len(), a.scheds.len(), a.langs.len()).unwrap();
        writeln!(j, "  \"runs_cut_short\": {},", map_json(&a.aborts, "")).unwrap();
        writeln!(j, "  \"determinism_selftest\": {{\"runs_repeated\": {det_checked}, \"mismatches\": {}}},", det_bad.len()).unwrap();
        writeln!(j, "  \"model_selfcheck\": {{\"runs\": {}, \"mismatches\": {}}},", a.model_checked, a.model.len()).unwrap();
        writeln!(j, "  \"real_components\": [\"all of aws-smt-strings built from /repo's working tree (managers, hash-consing store, derivative cache, automata, builder, thread-local manager, wrappers)\", \"std threads\"],").unwrap();
        writeln!(j, "  \"simulated_components\": [\"thread scheduling (baton; preemption at allocation points)\", \"heap (deterministic addresses, fuel, memory limit)\", \"getrandom / hash keys\", \"client code: iterators that panic, re-enter, stop early\"],").unwrap();
        writeln!(j, "  \"stubs\": []").unwrap();
        writeln!(j, " }},").unwrap();
        writeln!(j, " \"assumptions\": [\"languages are compared on representatives of the alphabet blocks of the run (every character range the run uses is a union of blocks)\", \"terms with loop bounds above {} are judged only on words of length at most {}\", \"closure operations are asked only of terms whose textbook derivative closure has at most {} elements\"]", world::BIG, world::HZ, world::CLOSURE_CAP).unwrap();
        writeln!(j, "}}").unwrap();
        if let Some(d) = std::path::Path::new(&f).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if std::fs::write(&f, j).is_err() {
            eprintln!("cannot write {f}");
            if code == 0 {
                code = 3;
            }
        }
    }
    code
}

// ------------------------------------------------------------------------------- minimise

fn fails_same(p: &Plan, prop: u8, class: &str) -> Option<u32> {
    let r = sched::run(&Source::Plan(p), false, false);
    match sched::verdict(prop, &r) {
        Some((s, c, _)) if c == class => Some(s),
        _ => None,
    }
}

fn minimise(plan: &Plan, prop: u8, class: &str, at: u32, wall: f64) -> Plan {
    let t0 = Instant::now();
    let slow = class.contains("hang");
    let out = |t0: &Instant| t0.elapsed().as_secs_f64() > wall;
    let mut best = plan.clone();
    let try_plan = |p: Plan, best: &mut Plan| -> bool {
        if fails_same(&p, prop, class).is_some() {
            *best = p;
            true
        } else {
            false
        }
    };
    // nothing after the failing step
    let mut p = best.clone();
    p.steps.retain(|s| s.id <= at);
    if p.steps.len() < best.steps.len() {
        try_plan(p, &mut best);
    }
    if slow {
        return best;
    }
    // only what the failing step depends on
    {
        let ids: BTreeMap<u32, Step> = best.steps.iter().map(|s| (s.id, s.clone())).collect();
        let mut need = std::collections::BTreeSet::new();
        let mut st = vec![at];
        while let Some(x) = st.pop() {
            if need.insert(x) {
                if let Some(s) = ids.get(&x) {
                    st.extend(&s.a);
                }
            }
        }
        let mut p = best.clone();
        p.steps.retain(|s| need.contains(&s.id) || (prop == 13));
        if p.steps.len() < best.steps.len() {
            try_plan(p, &mut best);
        }
    }
    let mut changed = true;
    while changed && !out(&t0) {
        changed = false;
        // drop chunks of steps
        let mut size = (best.steps.len() / 2).max(1);
        loop {
            let mut i = best.steps.len();
            while i > 0 && !out(&t0) {
                let lo = i.saturating_sub(size);
                let mut p = best.clone();
                p.steps.drain(lo..i);
                if try_plan(p, &mut best) {
                    changed = true;
                    i = lo.min(best.steps.len());
                } else {
                    i = lo;
                }
            }
            if size == 1 || out(&t0) {
                break;
            }
            size /= 2;
        }
        // no preemption, one thread
        for i in 0..best.steps.len() {
            if out(&t0) {
                break;
            }
            if best.steps[i].pre != 0 {
                let mut p = best.clone();
                p.steps[i].pre = 0;
                p.steps[i].prelen = 0;
                changed |= try_plan(p, &mut best);
            }
        }
        // fewer list arguments
        for i in 0..best.steps.len() {
            let mut j = 0;
            while j < best.steps[i].a.len() && best.steps[i].a.len() > 1 && !out(&t0) {
                let mut p = best.clone();
                p.steps[i].a.remove(j);
                if try_plan(p, &mut best) {
                    changed = true;
                } else {
                    j += 1;
                }
            }
        }
        // shorter data
        for i in 0..best.steps.len() {
            let unit = match best.steps[i].op {
                Op::SNew | Op::Str => 1,
                Op::PNew | Op::PPush => 2,
                _ => continue,
            };
            let mut size = best.steps[i].n.len() / 2 / unit * unit;
            while size >= unit && !out(&t0) {
                let mut j = best.steps[i].n.len();
                while j >= size && !out(&t0) {
                    let mut p = best.clone();
                    p.steps[i].n.drain(j - size..j);
                    changed |= try_plan(p, &mut best);
                    j -= size;
                }
                size = size / 2 / unit * unit;
            }
        }
        // smaller numbers
        for i in 0..best.steps.len() {
            for j in 0..best.steps[i].n.len() {
                let mut cands = vec![0u32, 1, best.steps[i].n[j] / 2, best.steps[i].n[j].saturating_sub(1)];
                cands.dedup();
                for v in cands {
                    if out(&t0) {
                        break;
                    }
                    if v < best.steps[i].n[j] {
                        let mut p = best.clone();
                        p.steps[i].n[j] = v;
                        if try_plan(p, &mut best) {
                            changed = true;
                            break;
                        }
                    }
                }
            }
        }
        // replace a term by one of its arguments
        for i in 0..best.steps.len() {
            for j in 0..best.steps[i].a.len() {
                let x = best.steps[i].a[j];
                let sub = best.steps.iter().find(|s| s.id == x).map(|s| s.a.clone()).unwrap_or_default();
                for y in sub {
                    if out(&t0) {
                        break;
                    }
                    let mut p = best.clone();
                    p.steps[i].a[j] = y;
                    if try_plan(p, &mut best) {
                        changed = true;
                        break;
                    }
                }
            }
        }
    }
    best
}

// ------------------------------------------------------------------------------- other commands

fn cmd_replay() -> i32 {
    let f = std::env::args().nth(2).unwrap_or_default();
    let t = match std::fs::read_to_string(&f) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{f}: {e}");
            return 2;
        }
    };
    let plan = match Plan::parse(&t) {
        Some(p) => p,
        None => {
            eprintln!("{f}: not a plan");
            return 2;
        }
    };
    let prop = plan.cfg.prop;
    let r: RunRes = sched::run_patient(prop, &Source::Plan(&plan), true, true);
    print!("{}", r.trace);
    if let Some(m) = &r.model_err {
        println!("model: {m}");
    }
    println!("digest {:016x} steps {}", r.digest, r.steps);
    match sched::verdict(prop, &r) {
        Some((s, c, m)) => {
            println!("violation: {c} at step {s}: {m}");
            println!("VIOLATION property=C{prop:02} replay={f}");
            1
        }
        None => {
            if let Some(a) = &r.abort {
                println!("run ended early: {a:?}");
            }
            println!("no violation");
            0
        }
    }
}

fn cmd_gen() -> i32 {
    let prop = prop_num(&arg("--prop").unwrap());
    let (p, _) = gen::generate(prop, run_seed(num("--seed", 1), prop, num("--index", 0)));
    print!("{}", p.text());
    0
}

/// digests of runs, for determinism comparisons between processes
fn cmd_digests() -> i32 {
    let prop = prop_num(&arg("--prop").unwrap());
    let seed = num("--seed", 1);
    let from = num("--from", 0);
    let step = num("--stride", 1);
    for i in 0..num("--runs", 100) {
        let i = from + i * step;
        let r = sched::run(&Source::Gen(prop, run_seed(seed, prop, i)), false, false);
        println!("{i} {:016x} {:016x} {} {:?}", r.digest, r.sched, r.steps, r.abort);
    }
    0
}

fn cmd_selfcheck() -> i32 {
    let prop = prop_num(&arg("--prop").unwrap_or("1".into()));
    let seed = num("--seed", 1);
    let mut bad = 0;
    for i in 0..num("--runs", 100) {
        let r = sched::run(&Source::Gen(prop, run_seed(seed, prop, i)), false, true);
        if let Some(m) = r.model_err {
            println!("run {i}: {m}");
            bad += 1;
        }
    }
    println!("model self-check: {bad} disagreements");
    (bad > 0) as i32
}

/// textbook closure sizes of the terms of a plan (debugging aid)
fn cmd_closures() -> i32 {
    let t = std::fs::read_to_string(std::env::args().nth(2).unwrap_or_default()).unwrap();
    let plan = Plan::parse(&t).unwrap();
    let mut w = world::World::new(&plan.cfg);
    for s in &plan.steps {
        if w.apply(s).is_some() && s.op.makes_term() {
            println!("{} {:?} ast {:?} h {}", s.text(), w.closure(s.id), w.terms[&s.id].ast.map(|a| w.aci.show(a)), w.terms[&s.id].h);
        }
    }
    0
}
