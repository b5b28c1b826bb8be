//! C11, C12: character partitions as long-lived values that clients build up, copy, merge and query.
//! The model of a partition is the list of its intervals; the object carries a summary (the
//! complement witness) that every way of building it must keep right.

use crate::plan::*;
use crate::prng::*;
use aws_smt_strings::character_sets::*;

pub struct Part {
    p: CharPartition,
    iv: Vec<(u32, u32)>,
    hist: String,
}

#[derive(Default)]
pub struct POut {
    pub digest: u64,
    pub viol: Option<(String, String)>,
    /// what a merge got wrong (C12)
    pub merge_viol: Option<(String, String)>,
    pub stats: Vec<(&'static str, u64)>,
}

impl POut {
    fn fail(&mut self, class: &str, msg: String) {
        if self.viol.is_none() {
            self.viol = Some((class.into(), msg));
        }
    }
}

type Call<'a> = &'a dyn Fn(&mut dyn FnMut()) -> Result<(), String>;

/// first element of a compact description of many intervals
pub const GRID: u32 = 1000;

/// (kind, intervals in the order the client lists them)
pub fn spec(n: &[u32]) -> (u32, Vec<(u32, u32)>) {
    let kind = n.first().copied().unwrap_or(0);
    let mut v = vec![];
    if kind >= GRID {
        // [kind, first, step, width, count, order, displaced interval, displacement]
        let g = |i: usize| n.get(i).copied().unwrap_or(0) as u64;
        let (step, width) = (g(2).max(1), g(3).min(g(2).max(1) - 1));
        for i in 0..g(4) {
            let mut lo = g(1) + i * step;
            if i + 1 == g(6) {
                lo += g(7);
            }
            if lo + width > MAX_CHAR as u64 {
                break;
            }
            v.push((lo as u32, (lo + width) as u32));
        }
        match g(5) % 4 {
            0 => (),
            1 => v.reverse(),
            x => {
                let k = v.len();
                let d = [7919, 31, 101, 3][x as usize] as usize;
                if k > 0 && k % d != 0 {
                    v = (0..k).map(|i| v[i * d % k]).collect();
                }
            }
        }
        let kind = (kind - GRID) % 6;
        if kind == 2 {
            v.truncate(1);
        }
        return (kind, v);
    }
    let kind = kind % 6;
    for c in n.get(1..).unwrap_or(&[]).chunks(2) {
        if let [x, y] = c {
            let (x, y) = ((*x).min(MAX_CHAR), (*y).min(MAX_CHAR));
            v.push((x.min(y), x.max(y)));
        }
    }
    if kind == 2 {
        v.truncate(1);
    }
    (kind, v)
}

/// the intervals in order, if they are pairwise disjoint
pub fn disjoint(v: &[(u32, u32)]) -> Option<Vec<(u32, u32)>> {
    let mut v = v.to_vec();
    v.sort();
    for w in v.windows(2) {
        if w[1].0 <= w[0].1 {
            return None;
        }
    }
    Some(v)
}

/// what the model says a PNew leaves behind: None = rejected
pub fn made(n: &[u32]) -> Option<Vec<(u32, u32)>> {
    let (kind, v) = spec(n);
    if kind == 2 && v.is_empty() {
        return Some(vec![]);
    }
    disjoint(&v)
}

fn set(x: (u32, u32)) -> CharSet {
    CharSet::range(x.0, x.1)
}

fn show(v: &[(u32, u32)]) -> String {
    if v.len() > 14 {
        return format!("{} intervals", v.len());
    }
    let s: Vec<String> = v.iter().map(|x| format!("[{:x},{:x}]", x.0, x.1)).collect();
    s.join(" ")
}

/// an iterator of a client that fails after some items
struct Failing<I> {
    inner: I,
    left: usize,
}

impl<I: Iterator> Iterator for Failing<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.left == 0 {
            panic!("simulated client iterator failure");
        }
        self.left -= 1;
        self.inner.next()
    }
}

pub fn create(n: &[u32], salt: u64, call: Call, o: &mut POut) -> Option<Part> {
    let (kind, v) = spec(n);
    let want = made(n);
    let mut r = Rng::new(salt);
    let build = |v: &[(u32, u32)], kind: u32| -> Result<Result<CharPartition, ()>, String> {
        let mut res = None;
        let sets: Vec<CharSet> = v.iter().map(|x| set(*x)).collect();
        call(&mut || {
            res = Some(match kind {
                0 => CharPartition::try_from_list(&sets).map_err(|_| ()),
                1 | 4 => CharPartition::try_from_iter(sets.iter().copied()).map_err(|_| ()),
                2 => Ok(match sets.first() {
                    Some(s) => CharPartition::from_set(s),
                    None => CharPartition::new(),
                }),
                _ => {
                    let mut p = if kind == 3 { CharPartition::new() } else { CharPartition::default() };
                    for s in v {
                        p.push(s.0, s.1);
                    }
                    Ok(p)
                }
            })
        })?;
        Ok(res.unwrap())
    };
    if kind == 4 && !v.is_empty() {
        let left = r.idx(v.len());
        let sets: Vec<CharSet> = v.iter().map(|x| set(*x)).collect();
        let e = call(&mut || {
            let _ = CharPartition::try_from_iter(Failing { inner: sets.iter().copied(), left });
        });
        if e.is_err() {
            o.stats.push(("fault.iterator_panic", 1));
        }
    }
    let list = if matches!(kind, 3 | 5) {
        // push has a precondition: ascending and disjoint
        match &want {
            Some(w) => w.clone(),
            None => return None,
        }
    } else {
        v.clone()
    };
    let name = ["try_from_list", "try_from_iter", "from_set", "new+push", "try_from_iter", "default+push"][kind as usize];
    let got = match build(&list, kind) {
        Ok(g) => g,
        Err(e) => {
            o.fail("panic", format!("{name} of {} panicked: {e}", show(&list)));
            return None;
        }
    };
    o.digest = mix(o.digest, got.is_ok() as u64);
    match (got, want) {
        (Err(()), None) => {
            o.stats.push(("fault.partition_rejected", 1));
            None
        }
        (Ok(p), None) => {
            o.fail("accepted", format!("{name} of overlapping {} gives {p}", show(&list)));
            None
        }
        (Err(()), Some(_)) => {
            o.fail("rejected", format!("{name} rejects the disjoint {}", show(&list)));
            None
        }
        (Ok(p), Some(iv)) => {
            let x = Part {
                p,
                iv,
                hist: name.into(),
            };
            // the same partition whatever the order
            if matches!(kind, 0 | 1 | 4) && list.len() > 1 {
                for round in 0..2 {
                    let mut l2 = list.clone();
                    if round == 0 {
                        l2.reverse();
                    } else {
                        for i in (1..l2.len()).rev() {
                            l2.swap(i, r.idx(i + 1));
                        }
                    }
                    match build(&l2, kind) {
                        Ok(Ok(q)) if q == x.p => o.stats.push(("checks.order", 1)),
                        Ok(Ok(q)) => {
                            o.fail("order", format!("{} listed in another order gives {q:?} instead of {:?}", show(&list), x.p));
                            return None;
                        }
                        _ => {
                            o.fail("order", format!("{} listed in another order is rejected", show(&list)));
                            return None;
                        }
                    }
                }
            }
            audit(&x, salt, call, o);
            if o.viol.is_some() {
                return None;
            }
            Some(x)
        }
    }
}

/// append intervals (the model guarantees the precondition)
pub fn push(x: &mut Part, n: &[u32], salt: u64, call: Call, o: &mut POut) {
    for c in n.chunks(2) {
        if let [lo, hi] = c {
            let (lo, hi) = (*lo.min(hi), *hi.max(lo));
            if hi > MAX_CHAR || x.iv.last().map_or(false, |l| lo <= l.1) {
                return;
            }
            let p = &mut x.p;
            if let Err(e) = call(&mut || p.push(lo, hi)) {
                o.fail("panic", format!("push({lo:x},{hi:x}) on {} panicked: {e}", show(&x.iv)));
                return;
            }
            x.iv.push((lo, hi));
            o.stats.push(("work.pushes", 1));
        }
    }
    if x.hist.len() < 200 {
        x.hist.push_str("; push");
    }
    audit(x, salt, call, o);
}

pub fn copy(x: &Part) -> Part {
    Part {
        p: x.p.clone(),
        iv: x.iv.clone(),
        hist: format!("{}; clone", x.hist),
    }
}

/// the coarsest refinement whose classes are intervals and one common complement
pub fn refine(xs: &[&[(u32, u32)]]) -> Vec<(u32, u32)> {
    // +1/-1 at interval starts and ends; every border is a cut
    let mut cuts: Vec<(u32, i32)> = vec![];
    for v in xs {
        for i in v.iter() {
            cuts.push((i.0, 1));
            cuts.push((i.1 + 1, -1));
        }
    }
    cuts.sort();
    let mut res = vec![];
    let mut depth = 0;
    let mut from = 0;
    for (c, d) in cuts {
        if c > from && depth > 0 {
            res.push((from, c - 1));
        }
        from = c;
        depth += d;
    }
    res
}

/// merge live partitions.  Under C11 the intervals of the result are read off the result (which
/// they should be is C12's business).
pub fn merge(xs: &[&Part], n: &[u32], salt: u64, call: Call, o: &mut POut) -> Option<Part> {
    let ps: Vec<&CharPartition> = xs.iter().map(|x| &x.p).collect();
    let ivs: Vec<&[(u32, u32)]> = xs.iter().map(|x| &x.iv[..]).collect();
    if let Some(k) = n.first() {
        // the client's iterator fails first
        let e = call(&mut || {
            let _ = merge_partition_list(Failing {
                inner: ps.iter().copied(),
                left: *k as usize,
            });
        });
        if e.is_err() {
            o.stats.push(("fault.iterator_panic", 1));
        }
    }
    let what = || {
        let v: Vec<String> = xs.iter().map(|x| format!("{} ({})", show(&x.iv), x.hist)).collect();
        format!("merge of {}", v.join(" and "))
    };
    let want = refine(&ivs);
    o.stats.push(("checks.merge", 1));
    let mut res = None;
    let r = call(&mut || {
        res = Some(match ps.len() {
            2 if salt % 2 == 0 => merge_partitions(ps[0], ps[1]),
            _ => merge_partition_list(ps.iter().copied()),
        })
    });
    if let Err(e) = r {
        o.merge_viol = Some(("panic".into(), format!("{} panicked: {e}", what())));
        return None;
    }
    let p = res?;
    let mut seen = None;
    let r = call(&mut || {
        let iv: Vec<(u32, u32)> = p.ranges().map(crate::exec::ends).collect();
        let by_get: Vec<(u32, u32)> = (0..p.len()).map(|i| p.get(i)).collect();
        let full = crate::exec::gaps(&want).is_empty();
        let w = if full { 0 } else { p.pick_complement() };
        seen = Some((iv, by_get, p.empty_complement(), w));
    });
    let (iv, by_get, none_left, w) = match (r, seen) {
        (Ok(()), Some(x)) => x,
        (e, _) => {
            o.merge_viol = Some(("panic".into(), format!("reading the {} panicked: {e:?}", what())));
            return None;
        }
    };
    o.digest = mix(o.digest, iv.len() as u64);
    let gaps = crate::exec::gaps(&want);
    if iv != want || by_get != want {
        let i = iv.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(iv.len().min(want.len()));
        let f = |v: &[(u32, u32)]| show(v.get(i..(i + 3).min(v.len())).unwrap_or(&[]));
        o.merge_viol = Some((
            "refinement".into(),
            format!("{} has {} intervals, from number {i} on {} ..., expected {} intervals, {} ...", what(), iv.len(), f(&iv), want.len(), f(&want)),
        ));
    } else if none_left != gaps.is_empty() {
        o.merge_viol = Some(("complement".into(), format!("{}: empty_complement is {none_left}", what())));
    } else if !gaps.is_empty() && !gaps.iter().any(|g| g.0 <= w && w <= g.1) {
        o.merge_viol = Some(("witness".into(), format!("{}: the complement witness is {w:x}", what())));
    }
    disjoint(&iv).filter(|d| *d == iv)?;
    let x = Part {
        p,
        iv,
        hist: "merge".into(),
    };
    o.stats.push(("work.merges", 1));
    audit(&x, salt, call, o);
    Some(x)
}

pub fn last_end(x: &Part) -> Option<u32> {
    x.iv.last().map(|l| l.1)
}

/// every query at every character that could matter
pub fn audit(x: &Part, salt: u64, call: Call, o: &mut POut) {
    let mut res = None;
    let mut sets = 0;
    let r = call(&mut || res = Some(audit_inner(x, salt, &mut sets)));
    o.stats.push(("checks.partition", 1));
    o.stats.push(("checks.query_sets", sets));
    o.digest = mix(o.digest, x.iv.len() as u64);
    match r {
        Err(e) => o.fail("panic", format!("query on {} ({}) panicked: {e}", show(&x.iv), x.hist)),
        Ok(()) => {
            if let Err((c, m)) = res.unwrap() {
                o.fail(&c, format!("{m}; partition {} ({})", show(&x.iv), x.hist));
            }
        }
    }
}

fn audit_inner(x: &Part, salt: u64, sets: &mut u64) -> Result<(), (String, String)> {
    let (p, iv) = (&x.p, &x.iv);
    let m = iv.len();
    let mut r = Rng::new(salt);
    let er = |c: &str, s: String| Err((c.to_string(), s));
    let class = |c: u32| match iv.binary_search_by(|i| if i.1 < c { std::cmp::Ordering::Less } else if i.0 > c { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }) {
        Ok(i) => ClassId::Interval(i),
        Err(_) => ClassId::Complement,
    };
    let gaps = crate::exec::gaps(iv);
    let full = gaps.is_empty();
    // structure
    if p.len() != m || p.is_empty() != (m == 0) {
        return er("intervals", format!("len is {}", p.len()));
    }
    let seen: Vec<(u32, u32)> = p.ranges().map(crate::exec::ends).collect();
    if seen != *iv {
        return er("intervals", format!("ranges gives {}", show(&seen)));
    }
    let some: Vec<usize> = if m <= 24 { (0..m).collect() } else { (0..24).map(|_| r.idx(m)).collect() };
    for &i in &some {
        if p.get(i) != iv[i] || p.start(i) != iv[i].0 || p.end(i) != iv[i].1 || p.interval(i) != set(iv[i]) {
            return er("intervals", format!("interval {i} is {:x?}", p.get(i)));
        }
        let c = p.pick(i);
        let d = p.pick_in_class(ClassId::Interval(i));
        for c in [c, d] {
            if class(c) != ClassId::Interval(i) {
                return er("pick", format!("pick of interval {i} is {c:x}"));
            }
        }
        if !p.valid_class_id(ClassId::Interval(i)) {
            return er("valid_class_id", format!("Interval({i}) is not valid"));
        }
    }
    let h = m / 2;
    for i in [m, m + 1, m + 1000, usize::MAX, h + (1 << 8), h + (1 << 16), h + (1 << 31), h + (1 << 32), h + (1 << 63)] {
        if i >= m && p.valid_class_id(ClassId::Interval(i)) {
            return er("valid_class_id", format!("Interval({i}) is valid"));
        }
    }
    // complement
    if p.empty_complement() != full {
        return er("empty_complement", format!("empty_complement is {}", p.empty_complement()));
    }
    if p.valid_class_id(ClassId::Complement) == full {
        return er("valid_class_id", "Complement".into());
    }
    if p.num_classes() != m + !full as usize {
        return er("num_classes", format!("num_classes is {}", p.num_classes()));
    }
    if !full {
        for c in [p.pick_complement(), p.pick_in_class(ClassId::Complement)] {
            if c > MAX_CHAR || class(c) != ClassId::Complement {
                return er("witness", format!("the complement pick is {c:x}"));
            }
        }
    }
    // enumerations
    let mut want: Vec<ClassId> = (0..m).map(ClassId::Interval).collect();
    if !full {
        want.push(ClassId::Complement);
    }
    let key = |c: &ClassId| match c {
        ClassId::Interval(i) => *i,
        ClassId::Complement => usize::MAX,
    };
    let mut ids: Vec<ClassId> = p.class_ids().take(m + 5).collect();
    ids.sort_by_key(key);
    if ids != want {
        return er("class_ids", format!("class_ids lists {} classes", ids.len()));
    }
    let picks: Vec<u32> = p.picks().take(m + 5).collect();
    if let Some(c) = picks.iter().find(|c| **c > MAX_CHAR) {
        return er("picks", format!("picks contains {c:x}"));
    }
    let mut ids: Vec<ClassId> = picks.iter().map(|c| class(*c)).collect();
    ids.sort_by_key(key);
    if ids != want {
        return er("picks", format!("picks gives {} characters, not one per class", picks.len()));
    }
    // characters
    let mut pts: Vec<u32> = vec![0, MAX_CHAR];
    for i in iv {
        for c in [i.0.saturating_sub(1), i.0, i.0 + 1, i.1.saturating_sub(1), i.1, i.1 + 1] {
            pts.push(c.min(MAX_CHAR));
        }
    }
    for _ in 0..6 {
        pts.push(r.range(0, MAX_CHAR));
    }
    for _ in 0..4 {
        if m > 0 {
            let i = iv[r.idx(m)];
            pts.push(r.range(i.0, i.1));
        }
        if !full {
            let g = gaps[r.idx(gaps.len())];
            pts.push(r.range(g.0, g.1));
        }
    }
    pts.sort();
    pts.dedup();
    for &c in &pts {
        let got = p.class_of_char(c);
        if got != class(c) {
            return er("class_of_char", format!("class_of_char({c:x}) = {got}, expected {}", class(c)));
        }
    }
    // sets
    let judge = |a: u32, b: u32| -> Result<(), (String, String)> {
        let i = iv.partition_point(|i| i.1 < a);
        let want = match iv.get(i) {
            Some(v) if v.0 <= a && b <= v.1 => CoverResult::CoveredBy(i),
            Some(v) if v.0 <= b => CoverResult::Overlaps,
            _ => CoverResult::DisjointFromAll,
        };
        let s = CharSet::range(a, b);
        let got = p.interval_cover(&s);
        if got != want {
            return Err(("interval_cover".into(), format!("interval_cover([{a:x},{b:x}]) = {got:?}, expected {want:?}")));
        }
        let w2 = match want {
            CoverResult::CoveredBy(i) => Some(ClassId::Interval(i)),
            CoverResult::DisjointFromAll => Some(ClassId::Complement),
            _ => None,
        };
        let got = p.class_of_set(&s);
        let ok = match (&got, w2) {
            (Ok(c), Some(d)) => *c == d,
            (Err(e), None) => *e == aws_smt_strings::errors::Error::AmbiguousCharSet,
            _ => false,
        };
        if !ok {
            return Err(("class_of_set".into(), format!("class_of_set([{a:x},{b:x}]) = {got:?}")));
        }
        if p.good_char_set(&s) != w2.is_some() {
            return Err(("good_char_set".into(), format!("good_char_set([{a:x},{b:x}]) = {}", w2.is_none())));
        }
        Ok(())
    };
    // the same questions to an automaton whose initial state has these classes
    if m <= 40 && r.pct(20) {
        auto_agrees(iv, full, &pts, &mut r)?;
    }
    let l = pts.len();
    if l <= 48 {
        for i in 0..l {
            for j in i..l {
                judge(pts[i], pts[j])?;
                *sets += 1;
            }
        }
    } else {
        for i in 0..l {
            for j in [i, i + 1, i + 2, i + 3, i + 5, i + 9] {
                if j < l {
                    judge(pts[i], pts[j])?;
                    *sets += 1;
                }
            }
        }
        for _ in 0..400 {
            let (i, j) = (r.idx(l), r.idx(l));
            judge(pts[i.min(j)], pts[i.max(j)])?;
            *sets += 1;
        }
    }
    Ok(())
}

fn auto_agrees(iv: &[(u32, u32)], full: bool, pts: &[u32], r: &mut Rng) -> Result<(), (String, String)> {
    use aws_smt_strings::automata::AutomatonBuilder;
    let m = iv.len() as u32;
    let mut b = AutomatonBuilder::new(&0u32);
    for (i, x) in iv.iter().enumerate() {
        b.add_transition(&0, &set(*x), &(i as u32 + 1));
        b.set_default_successor(&(i as u32 + 1), &0);
    }
    if !full {
        b.set_default_successor(&0, &(m + 1));
        b.set_default_successor(&(m + 1), &0);
    }
    // whether it can be built is another property's business
    let Ok(a) = b.build() else { return Ok(()) };
    let s = a.initial_state();
    for _ in 0..60 {
        let (i, j) = (r.idx(pts.len()), r.idx(pts.len()));
        let j = if r.pct(50) { (i + r.idx(4)).min(pts.len() - 1) } else { j };
        let (x, y) = (pts[i.min(j)], pts[i.max(j)]);
        let k = iv.partition_point(|i| i.1 < x);
        let one = match iv.get(k) {
            Some(v) if v.0 <= x && y <= v.1 => true,
            Some(v) if v.0 <= y => false,
            _ => true,
        };
        let got = a.char_set_next(s, &CharSet::range(x, y)).map(|t| t.id());
        let ok = match &got {
            Ok(t) => one && *t == a.next(s, x).id(),
            Err(e) => !one && *e == aws_smt_strings::errors::Error::AmbiguousCharSet,
        };
        if !ok {
            return Err(("char_set_next".into(), format!("char_set_next([{x:x},{y:x}]) = {got:?} in a state with the classes of the partition")));
        }
    }
    Ok(())
}
