//! Objects beyond 2^16: automata, derivative closures and strings of that size, with answers known
//! in closed form.

use crate::plan::MAX_CHAR;
use crate::prng::Rng;
use aws_smt_strings::automata::{Automaton, AutomatonBuilder};
use aws_smt_strings::character_sets::CharSet;
use aws_smt_strings::regular_expressions::{ReManager, RegLan};
use aws_smt_strings::smt_regular_expressions as smt;
use aws_smt_strings::smt_strings::SmtString;

pub type Bad = (u8, &'static str, String);
type Call<'a> = &'a dyn Fn(&mut dyn FnMut()) -> Result<(), String>;

fn size(r: &mut Rng) -> u32 {
    65_530 + r.below(1500) as u32
}

fn word(n: usize, mut f: impl FnMut(usize) -> u32) -> SmtString {
    (0..n).map(|i| f(i)).collect::<Vec<u32>>().into()
}

/// A ring of n states through the default, or with a second character that moves by d, final at the
/// multiples of p, with a tail of states that nobody reaches.
struct Ring {
    n: u32,
    p: u32,
    c: u32,
    d: Option<u32>,
    tail: u32,
}

impl Ring {
    fn new(r: &mut Rng) -> Ring {
        let p = *r.pick(&[2, 3, 5, 16, 100, 257]);
        let n = size(r) / p * p + if r.pct(50) { p } else { 0 };
        Ring {
            n,
            p,
            c: r.range(0, MAX_CHAR),
            d: if r.pct(50) { Some(r.range(0, n - 1)) } else { None },
            tail: if r.pct(50) { r.range(1, 400) } else { 0 },
        }
    }
    fn next(&self, i: u32, c: u32) -> u32 {
        if i >= self.n {
            // the tail runs into the ring
            return if i == self.n { 0 } else { i - 1 };
        }
        match self.d {
            Some(d) if c == self.c => (i + d) % self.n,
            _ => (i + 1) % self.n,
        }
    }
    /// states in order of first mention: 0, 1, 2, ...
    fn build(&self, unchecked: bool) -> Result<Automaton, String> {
        let mut b = AutomatonBuilder::new(&0u32);
        for i in 0..self.n {
            b.set_default_successor(&i, &((i + 1) % self.n));
        }
        for i in 0..self.n {
            if let Some(d) = self.d {
                b.add_transition(&i, &CharSet::singleton(self.c), &((i + d) % self.n));
            }
            if i % self.p == 0 {
                b.mark_final(&i);
            }
        }
        for i in 0..self.tail {
            b.set_default_successor(&(self.n + i), &if i == 0 { 0 } else { self.n + i - 1 });
        }
        if unchecked {
            Ok(b.build_unchecked())
        } else {
            b.build().map_err(|e| format!("{e:?}"))
        }
    }
    fn finals(&self) -> usize {
        (self.n / self.p) as usize
    }
    fn describe(&self) -> String {
        format!(
            "a ring of {} states, every {}th final, {:x} moving by {:?}, {} unreachable states before it",
            self.n, self.p, self.c, self.d, self.tail
        )
    }
}

/// the first state where the automaton differs from the ring
fn differs(x: &Ring, a: &Automaton, total: u32) -> Option<String> {
    if a.num_states() != total as usize {
        return Some(format!("{} states, expected {total}", a.num_states()));
    }
    if a.num_final_states() != x.finals() || a.final_states().count() != x.finals() {
        return Some(format!("{} final states, expected {}", a.num_final_states(), x.finals()));
    }
    // walk along the default, then compare everything
    let other = if x.c == 0 { 1 } else { 0 };
    let mut of = vec![usize::MAX; total as usize];
    let mut s = a.initial_state();
    for i in 0..x.n {
        of[i as usize] = s.id();
        s = a.next(s, other);
    }
    if s.id() != of[0] {
        return Some(format!("{} steps do not lead back", x.n));
    }
    let mut seen = std::collections::HashSet::new();
    for i in 0..x.n {
        if !seen.insert(of[i as usize]) {
            return Some(format!("state {i} is the same as an earlier one"));
        }
        let st = a.state(of[i as usize]);
        if st.is_final() != (i % x.p == 0) {
            return Some(format!("finality of state {i} is {}", st.is_final()));
        }
        for c in [x.c, 0, MAX_CHAR, other] {
            let want = of[x.next(i, c) as usize];
            let got = a.next(st, c).id();
            if got != want {
                return Some(format!("next(state {i}, {c:x}) = s{got}, expected s{want}"));
            }
        }
    }
    None
}

pub fn automaton(r: &mut Rng, prop: u8, call: Call) -> Option<Bad> {
    let x = Ring::new(r);
    let total = x.n + x.tail;
    let mut a = None;
    let e = call(&mut || a = Some(x.build(false)));
    let mut a = match (e, a) {
        (Ok(()), Some(Ok(a))) => a,
        (Ok(()), Some(Err(e))) => return Some((13, "rejects-valid", format!("{} is rejected: {e}", x.describe()))),
        (e, _) => return Some((13, "panic", format!("building {}: {e:?}", x.describe()))),
    };
    let mut d = None;
    let e = call(&mut || d = differs(&x, &a, total));
    if let Err(e) = e {
        return Some((13, "panic", format!("stepping {}: {e}", x.describe())));
    }
    if let Some(d) = d {
        return Some((13, "delta", format!("{}: {d}", x.describe())));
    }
    match prop {
        14 => {
            let mut bad = None;
            let e = call(&mut || {
                // once in a while the table, which takes a second or two
                let al = a.pick_alphabet();
                let want = 1 + x.d.map_or(0, |d| (d != 1) as usize);
                if al.len() < want || al.len() != a.combined_char_partition().num_classes() {
                    bad = Some(format!("pick_alphabet gives {} characters", al.len()));
                    return;
                }
                if x.d.is_none() || x.tail % 4 == 1 {
                    let t = a.compile_successors();
                    for s in a.states() {
                        for (k, c) in al.iter().enumerate() {
                            let (got, want) = (t.eval(s.id() as u32, k as u32), a.next(s, *c).id());
                            if got as usize != want {
                                bad = Some(format!("the table maps (s{}, {c:x}) to s{got}, next gives s{want}", s.id()));
                                return;
                            }
                        }
                    }
                }
                for s in a.states() {
                    let listed: Vec<_> = a.edges(s).map(|e| e.0).collect();
                    if let Some(c) = s.char_classes().find(|c| !listed.contains(c)) {
                        bad = Some(format!("edges of s{} has none for {c}", s.id()));
                        return;
                    }
                    for (cid, t) in a.edges(s) {
                        if a.class_next(s, cid).id() != t.id() {
                            bad = Some(format!("edges of s{} for {cid} gives s{}", s.id(), t.id()));
                            return;
                        }
                    }
                }
            });
            if let Err(e) = e {
                return Some((14, "panic", format!("reading {}: {e}", x.describe())));
            }
            if let Some(b) = bad {
                return Some((14, "table", format!("{}: {b}", x.describe())));
            }
            let mut d = None;
            let e = call(&mut || {
                a.remove_unreachable_states();
                d = differs(&x, &a, x.n);
            });
            match (e, d) {
                (Err(e), _) => Some((14, "panic", format!("pruning {}: {e}", x.describe()))),
                (_, Some(d)) => Some((14, "prune", format!("{} after pruning: {d}", x.describe()))),
                _ => None,
            }
        }
        4 => {
            let mut bad = None;
            let len = x.n as usize + r.idx(3 * x.p as usize);
            let at = r.idx(len);
            let w = word(len, |i| if i == at { x.c } else if x.c == 5 { 6 } else { 5 });
            let before = a.accepts(&w);
            let e = call(&mut || {
                a.remove_unreachable_states();
                a.minimize();
                // the states of the ring are told apart by their index modulo p, where the second
                // character moves by d modulo p
                let want = x.p as usize;
                if a.num_states() != want {
                    bad = Some(format!("{} states after minimize, the index is {want}", a.num_states()));
                } else if a.num_final_states() != 1 || a.final_states().count() != 1 {
                    bad = Some(format!("{} final states after minimize", a.num_final_states()));
                } else if a.accepts(&w) != before {
                    bad = Some("minimize changed the language".into());
                } else {
                    let other = if x.c == 0 { 1 } else { 0 };
                    let mut s = a.initial_state();
                    for i in 0..2 * x.p {
                        let t = a.next(s, x.c);
                        let want = x.d.map_or(i + 1, |d| i + d) % x.p;
                        let back = (0..(x.p - want) % x.p).fold(t, |t, _| a.next(t, other));
                        if s.is_final() != (i % x.p == 0) || !back.is_final() {
                            bad = Some(format!("minimize changed the language after {i} steps"));
                            return;
                        }
                        s = a.next(s, other);
                    }
                }
            });
            match (e, bad) {
                (Err(e), _) => Some((4, "panic", format!("minimizing {}: {e}", x.describe()))),
                (_, Some(d)) => Some((4, "language", format!("{}: {d}", x.describe()))),
                _ => None,
            }
        }
        _ => None,
    }
}

/// R^[n,m] of a range has m + 2 derivatives (n > 0)
pub fn closure(r: &mut Rng, prop: u8, m: &mut ReManager, call: Call) -> Option<Bad> {
    let lo = r.range(0, MAX_CHAR - 10);
    let hi = lo + r.range(0, 9);
    let n = size(r);
    let i = if r.pct(50) { n } else { r.range(1, n) };
    let mut out: Option<Bad> = None;
    let what = format!("[{lo:x},{hi:x}]^[{i},{n}]");
    let full = lo == 0 && hi == MAX_CHAR;
    let k = n as usize + 2 - full as usize;
    let w = |l: usize| word(l, |j| lo + (j as u32 * 7) % (hi - lo + 1));
    let e = call(&mut || {
        let x = m.range(lo, hi);
        let t = m.smt_loop(x, i, n);
        match prop {
            19 => {
                // distinct lengths left to go are distinct languages
                let v: Vec<usize> = m.iter_derivatives(t).map(|x| x as *const _ as usize).collect();
                let c = v.len();
                if c < k {
                    out = Some((19, "not-closed", format!("{what} has {k} quotients, iter_derivatives yields {c} terms")));
                    return;
                }
                let set: std::collections::HashSet<usize> = v.iter().copied().collect();
                if set.len() != c || v[0] != t as *const _ as usize {
                    out = Some((19, "duplicate", format!("iter_derivatives({what}) yields {c} terms, {} distinct", set.len())));
                    return;
                }
                let mut x = t;
                for l in 0..n + 2 {
                    if !set.contains(&(x as *const _ as usize)) {
                        out = Some((19, "not-closed", format!("iter_derivatives({what}) misses the derivative after {l} steps, {x}")));
                        return;
                    }
                    x = m.char_derivative(x, lo);
                }
                let k = c;
                for b in [k - 1, k, 65_535, 65_536, 1 << 32] {
                    let got = m.try_compile(t, b).map(|a| a.num_states());
                    let want = if b >= k { Some(k) } else { None };
                    if got != want {
                        out = Some((19, "bound", format!("try_compile({what}, {b}) has {got:?} states, {k} derivatives")));
                        return;
                    }
                }
            }
            2 => {
                let a = m.compile(t);
                for l in [i as usize - 1, i as usize, n as usize, n as usize + 1, 0, 1] {
                    let want = (i as usize..=n as usize).contains(&l);
                    if a.accepts(&w(l)) != want {
                        out = Some((2, "accepts", format!("compile({what}) on a word of {l} characters: {}", !want)));
                        return;
                    }
                }
                let mut s = a.initial_state();
                for l in 0..=n + 1 {
                    let want = i <= l && l <= n;
                    if s.is_final() != want {
                        out = Some((2, "accepts", format!("compile({what}): finality after {l} steps is {}", !want)));
                        return;
                    }
                    let dead = a.next(s, hi + 1);
                    if dead.is_final() || a.next(dead, lo).id() != dead.id() {
                        out = Some((2, "language", format!("compile({what}): no sink by {:x} after {l} steps", hi + 1)));
                        return;
                    }
                    s = a.next(s, if l % 2 == 0 { lo } else { hi });
                }
            }
            5 => {
                if m.is_empty_re(t) {
                    out = Some((5, "is_empty", format!("{what} is said to be empty")));
                    return;
                }
                match m.get_string(t) {
                    Some(s) if (i as usize..=n as usize).contains(&s.len()) && s.iter().all(|c| lo <= *c && *c <= hi) => {
                        if !m.str_in_re(&s, t) {
                            out = Some((5, "wrong-witness", format!("the witness of {what} is no member")));
                        }
                    }
                    s => out = Some((5, "wrong-witness", format!("the witness of {what} has length {:?}", s.map(|s| s.len())))),
                }
                // nothing of length n is of length n + 1
                let u = m.exp(x, n + 1);
                let v = m.inter(t, u);
                if !m.is_empty_re(v) {
                    out = Some((5, "is_empty", format!("{what} and exactly {} characters: said not to be empty", n + 1)));
                } else if m.get_string(v).is_some() {
                    out = Some((5, "wrong-witness", format!("{what} and exactly {} characters: has a witness", n + 1)));
                }
            }
            _ => (),
        }
    });
    match e {
        Err(e) => Some((prop, "panic", format!("{what}: {e}"))),
        _ => out,
    }
}

/// long arrays and texts with few bad elements
pub fn string(r: &mut Rng, call: Call) -> Option<Bad> {
    let n = 60_000 + r.below(80_000) as usize;
    let mut v: Vec<u32> = (0..n).map(|_| if r.pct(90) { r.range(0, 0xd7ff) } else { r.range(0xe000, MAX_CHAR) }).collect();
    for _ in 0..r.range(0, 4) {
        let i = if r.pct(30) { n - 1 - r.idx(3) } else { r.idx(n) };
        v[i] = *r.pick(&[0x30000, 0x40000, 0x10ffff, 0x30001, 0xe0001]);
    }
    if r.pct(50) {
        let k = v.len();
        v[k - 1] = 0x30000;
    }
    let want: Vec<u32> = v.iter().map(|c| if *c > MAX_CHAR { 0xfffd } else { *c }).collect();
    let kind = r.below(4);
    let mut s = None;
    let e = call(&mut || {
        s = Some(match kind {
            0 => SmtString::from(&v[..]),
            1 => SmtString::from(v.clone()),
            _ => {
                let t: String = v.iter().map(|c| char::from_u32(*c).unwrap()).collect();
                if kind == 2 {
                    SmtString::from(t.as_str())
                } else {
                    SmtString::from(t)
                }
            }
        })
    });
    let name = ["SmtString::from(&[u32])", "SmtString::from(Vec<u32>)", "SmtString::from(&str)", "SmtString::from(String)"][kind as usize];
    match (e, s) {
        (Ok(()), Some(s)) => {
            let got: &[u32] = s.as_ref();
            let scan = got.iter().position(|c| *c > MAX_CHAR);
            if let Some(i) = scan {
                return Some((17, "not-good", format!("{name} of {n} elements contains {:x} at {i}", got[i])));
            }
            if !s.is_good() {
                return Some((17, "not-good", format!("{name} of {n} elements: is_good is false")));
            }
            if kind < 2 && got != want {
                let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                return Some((17, "changed", format!("{name} of {n} elements differs at {i} ({} elements)", got.len())));
            }
            None
        }
        (e, _) => Some((17, "panic", format!("{name} of {n} elements panicked: {e:?}"))),
    }
}

fn make_str(m: &mut Option<&mut ReManager>, w: &[u32]) -> RegLan {
    let s: SmtString = w.to_vec().into();
    match m {
        Some(m) => m.str(&s),
        None => smt::str_to_re(&s),
    }
}

fn in_re(m: &mut Option<&mut ReManager>, w: &[u32], t: RegLan) -> bool {
    let s: SmtString = w.to_vec().into();
    match m {
        Some(m) => m.str_in_re(&s, t),
        None => smt::str_in_re(&s, t),
    }
}

fn show(w: &[u32]) -> String {
    let s: Vec<String> = w.iter().take(12).map(|c| format!("{c:x}")).collect();
    format!("[{}{}]", s.join(" "), if w.len() > 12 { " ..." } else { "" })
}

/// one long word as an expression: its language is that word
pub fn constant(r: &mut Rng, prop: u8, mut m: Option<&mut ReManager>, call: Call) -> Option<Bad> {
    if m.is_none() && !matches!(prop, 1 | 7) {
        return None;
    }
    let n = match r.below(30) {
        0 if matches!(prop, 1 | 3 | 7) => r.range(60_000, 72_000),
        1..=12 => r.range(20, 600),
        _ if prop == 16 => r.range(600, 1500),
        _ => r.range(600, 9000),
    } as usize;
    let base = r.range(0, MAX_CHAR - 50);
    let letters = r.range(1, 6);
    let mut w: Vec<u32> = vec![];
    while w.len() < n {
        let c = base + r.range(0, letters - 1) * 7;
        let k = if r.pct(70) { 1 } else { 1 + r.idx(40) };
        for _ in 0..k.min(n - w.len()) {
            w.push(c);
        }
    }
    // near misses
    let spot = match r.below(4) {
        0 => n - 1,
        1 => 0,
        2 => n - 1 - r.idx(n.min(600)),
        _ => r.idx(n),
    };
    let mut wrong = w.clone();
    wrong[spot] = base + r.range(0, letters) * 7 + r.range(0, 1);
    let same = wrong == w;
    let cut = w[..n - 1 - r.idx(n.min(700))].to_vec();
    let mut more = w.clone();
    more.extend((0..r.range(1, 3)).map(|_| base));
    let route = r.below(3);
    let at = r.idx(n + 1);
    let mut out: Option<Bad> = None;
    let what = format!("the constant {} of {n} characters", show(&w));
    let u = r.next();
    let e = call(&mut || {
        let build = |m: &mut Option<&mut ReManager>| match (route, m) {
            (0, Some(m)) => {
                let l: Vec<RegLan> = w.iter().map(|c| m.char(*c)).collect();
                m.concat_list(l)
            }
            (1, m) => {
                let (a, b) = (make_str(m, &w[..at]), make_str(m, &w[at..]));
                match m {
                    Some(m) => m.concat(a, b),
                    None => smt::re_concat(a, b),
                }
            }
            (_, m) => make_str(m, &w),
        };
        let t = build(&mut m);
        match prop {
            1 => {
                for (x, want) in [(&w, true), (&wrong, same), (&cut, false), (&more, false)] {
                    if in_re(&mut m, x, t) != want {
                        out = Some((1, "membership", format!("{what}: membership of {} ({} characters, position {spot} altered or cut) is {}", show(x), x.len(), !want)));
                        return;
                    }
                }
                if t.nullable {
                    out = Some((1, "nullable", format!("{what} is nullable")));
                }
            }
            7 => {
                let x = build(&mut m);
                if !std::ptr::eq(t, x) || t != x {
                    out = Some((7, "reissue", format!("{what}: the same construction gave another term")));
                }
                if !same {
                    let x = make_str(&mut m, &wrong);
                    if std::ptr::eq(t, x) || t == x {
                        out = Some((7, "collision", format!("{what} is the same term as the one altered at {spot}")));
                    }
                }
            }
            _ => {
                let m = m.as_mut().unwrap();
                match prop {
                    3 => {
                        let k = (u % (n as u64 + 1)) as usize;
                        let d = m.str_derivative(t, &w[..k].to_vec().into());
                        let rest: SmtString = w[k..].to_vec().into();
                        if !m.str_in_re(&rest, d) || d.nullable != (k == n) {
                            out = Some((3, "quotient", format!("{what}: the derivative along {k} characters does not contain the rest")));
                            return;
                        }
                        let d = m.str_derivative(t, &wrong.clone().into());
                        if d.nullable != same {
                            out = Some((3, "quotient", format!("{what}: derivative along the word altered at {spot}: nullable is {}", !same)));
                            return;
                        }
                        let d = m.str_derivative(t, &more.clone().into());
                        if d.nullable || !m.is_empty_re(d) {
                            out = Some((3, "quotient", format!("{what}: derivative along a longer word is not empty")));
                        }
                    }
                    5 => {
                        if m.is_empty_re(t) {
                            out = Some((5, "is_empty", format!("{what} is said to be empty")));
                            return;
                        }
                        let got = m.get_string(t);
                        let ok = matches!(&got, Some(s) if { let v: &[u32] = s.as_ref(); v == w });
                        if !ok {
                            out = Some((5, "wrong-witness", format!("{what}: the witness has {:?} characters or others", got.map(|s| s.len()))));
                            return;
                        }
                        let x = m.str(&wrong.clone().into());
                        let y = m.inter(t, x);
                        if m.is_empty_re(y) == same {
                            out = Some((5, "is_empty", format!("{what} and the word altered at {spot}: is_empty_re = {}", same)));
                        } else if m.get_string(y).is_some() != same {
                            out = Some((5, "wrong-witness", format!("{what} and the word altered at {spot}: witness exists = {}", !same)));
                        }
                    }
                    2 => {
                        let a = m.compile(t);
                        for (x, want) in [(&w, true), (&wrong, same), (&cut, false), (&more, false)] {
                            if a.accepts(&x.clone().into()) != want {
                                out = Some((2, "accepts", format!("{what}: the automaton on {} ({} characters) says {}", show(x), x.len(), !want)));
                                return;
                            }
                        }
                    }
                    18 => {
                        if !m.start_char(t, w[0]) || m.start_char(t, w[0] + 1) {
                            out = Some((18, "start_char", format!("{what}: start_char of {:x} and the next character", w[0])));
                        }
                    }
                    19 => {
                        let k = m.iter_derivatives(t).count();
                        if k < n + 2 {
                            out = Some((19, "not-closed", format!("{what} has {} quotients, iter_derivatives yields {k}", n + 2)));
                            return;
                        }
                        for b in [k, k - 1, k + 1] {
                            let got = m.try_compile(t, b).map(|a| a.num_states());
                            let want = if b >= k { Some(k) } else { None };
                            if got != want {
                                out = Some((19, "bound", format!("try_compile({what}, {b}) has {got:?} states, {k} derivatives")));
                                return;
                            }
                        }
                    }
                    _ => {
                        // u.Sigma*.v contains w only if u is a prefix, v a suffix and both fit
                        let i = (u % (n as u64 + 1)) as usize;
                        let j = ((u >> 20) % (n as u64 + 1)) as usize;
                        let j = if u >> 60 < 8 { i.saturating_sub((u >> 50) as usize % 3) } else { j };
                        let src = if (u >> 59) & 1 == 0 { &w } else { &wrong };
                        let (pre, suf) = (&src[..i], &w[j.min(n)..]);
                        let holds = w.starts_with(pre) && pre.len() + suf.len() <= n;
                        let a = m.str(&pre.to_vec().into());
                        let b = m.str(&suf.to_vec().into());
                        let f = m.full();
                        let p = m.concat_list([a, f, b]);
                        if t.included_in(p) && !holds {
                            out = Some((16, "inclusion", format!("{what} is said to be in (its first {i}).Sigma*.(from {j}), altered at {spot}")));
                            return;
                        }
                        let x = m.union(p, t);
                        if n <= 250 && !m.str_in_re(&w.clone().into(), x) {
                            out = Some((16, "union-lost", format!("the union of {what} with (its first {i}).Sigma*.(from {j}) lost the word")));
                        }
                    }
                }
            }
        }
    });
    match e {
        Err(e) => Some((prop, "panic", format!("{what}: {e}"))),
        _ => out,
    }
}

type Build = Box<dyn Fn(&mut Option<&mut ReManager>) -> RegLan>;

/// an expression whose language is known in closed form, and words worth asking about
pub struct Case {
    what: String,
    build: Build,
    want: Box<dyn Fn(&[u32]) -> bool>,
    starts: Box<dyn Fn(u32) -> bool>,
    words: Vec<Vec<u32>>,
    empty: bool,
}

fn m_range(m: &mut Option<&mut ReManager>, a: u32, b: u32) -> RegLan {
    let s = |c: u32| -> SmtString { vec![c].into() };
    match m {
        Some(m) => m.range(a, b),
        None => smt::re_range(&s(a), &s(b)),
    }
}
fn m_concat(m: &mut Option<&mut ReManager>, l: Vec<RegLan>) -> RegLan {
    match m {
        Some(m) => m.concat_list(l),
        None => smt::re_concat_list(l),
    }
}
fn m_compl(m: &mut Option<&mut ReManager>, x: RegLan) -> RegLan {
    match m {
        Some(m) => m.complement(x),
        None => smt::re_comp(x),
    }
}
fn m_union(m: &mut Option<&mut ReManager>, l: Vec<RegLan>) -> RegLan {
    match m {
        Some(m) => m.union_list(l),
        None => smt::re_union_list(l),
    }
}
fn m_inter(m: &mut Option<&mut ReManager>, l: Vec<RegLan>) -> RegLan {
    match m {
        Some(m) => m.inter_list(l),
        None => smt::re_inter_list(l),
    }
}
fn m_loop(m: &mut Option<&mut ReManager>, x: RegLan, i: u32, j: u32) -> RegLan {
    match m {
        Some(m) => m.smt_loop(x, i, j),
        None => smt::re_loop(x, i, j),
    }
}
fn m_full(m: &mut Option<&mut ReManager>) -> RegLan {
    match m {
        Some(m) => m.full(),
        None => smt::re_all(),
    }
}

/// the same case for the complement
fn negated(c: Case) -> Case {
    let Case { what, build, want, words, .. } = c;
    Case {
        what: format!("the complement of {what}"),
        build: Box::new(move |m| {
            let x = build(m);
            m_compl(m, x)
        }),
        want: Box::new(move |w| !want(w)),
        // the languages used here contain no word of one character for some next character
        starts: Box::new(|_| true),
        words,
        empty: false,
    }
}

/// large unions of [a,b].[c,d] and large intersections of their complements
fn boxes(r: &mut Rng, inter: bool) -> Case {
    let n = match r.below(10) {
        0 | 1 => r.range(257, 350),
        2..=4 => r.range(100, 257),
        _ => r.range(17, 130),
    };
    let base = r.range(0, MAX_CHAR - 100_000);
    let gap = r.range(1, 20);
    // up to two clusters far from the others
    let far: Vec<(u32, u32)> = (0..r.below(3)).map(|_| (r.range(1, n - 1), r.range(1000, 40_000))).collect();
    let pos = |i: u32| base + i * gap + far.iter().filter(|(k, _)| i >= *k).map(|(_, d)| *d).sum::<u32>();
    let wide = r.pct(50);
    let b2 = base + r.range(0, 400);
    let mut bs: Vec<[u32; 4]> = (0..n)
        .map(|i| {
            let a = pos(i);
            let b = if wide && r.pct(20) { a + r.range(0, 3 * gap) } else { a };
            let c = b2 + r.range(0, 9);
            let d = if r.pct(40) { c } else { c + r.range(0, 6) };
            [a, b, c, d]
        })
        .collect();
    match r.below(3) {
        0 => bs.reverse(),
        1 => shuffle(r, &mut bs),
        _ => (),
    }
    // singles among the operands
    let one: Vec<u32> = (0..r.below(4)).map(|_| pos(r.range(0, n)) + r.range(0, gap)).collect();
    let mut words: Vec<Vec<u32>> = vec![vec![], vec![base], vec![base, b2, b2]];
    words.extend(one.iter().map(|c| vec![*c]));
    for _ in 0..60 {
        let b = bs[r.idx(bs.len())];
        let y = match r.below(3) {
            0 => b[2],
            1 => b[3],
            _ => b2 + r.range(0, 16),
        };
        let x = if r.pct(80) { r.range(b[0], b[1]) } else { pos(r.range(0, n)) + r.range(0, gap) };
        words.push(vec![x, y]);
    }
    for b in &bs {
        words.push(vec![b[0], b[2]]);
    }
    let cut = r.idx(bs.len());
    let style = r.below(3);
    // epsilon among the operands, alone or with one that does not contain it
    let extra = if r.pct(30) { r.range(1, 1 + inter as u32) } else { 0 };
    let spot = (r.idx(bs.len()), r.idx(bs.len()));
    let what = format!(
        "the {} of {n} {} [a,b].[c,d] from {base:x} with step {gap}",
        if inter { "intersection" } else { "union" },
        if inter { "complements of" } else { "terms" }
    );
    let (bs2, one2, bs3, one3) = (bs.clone(), one.clone(), bs.clone(), one.clone());
    Case {
        what,
        build: Box::new(move |m| {
            let mut l: Vec<RegLan> = vec![];
            for b in &bs {
                let (x, y) = (m_range(m, b[0], b[1]), m_range(m, b[2], b[3]));
                let t = m_concat(m, vec![x, y]);
                l.push(if inter { m_compl(m, t) } else { t });
            }
            for c in &one {
                let t = make_str(m, &[*c]);
                l.push(if inter { m_compl(m, t) } else { t });
            }
            if extra > 0 {
                let e = make_str(m, &[]);
                l.insert(spot.0, e);
            }
            if extra > 1 {
                let x = make_str(m, &[b2, b2, b2]);
                l.insert(spot.1, x);
            }
            match (inter, style) {
                (false, 0) => {
                    let b = l.split_off(cut);
                    let (x, y) = (m_union(m, l), m_union(m, b));
                    m_union(m, vec![x, y])
                }
                (false, _) => m_union(m, l),
                (true, 0) => {
                    let b = l.split_off(cut);
                    let (x, y) = (m_inter(m, l), m_inter(m, b));
                    m_inter(m, vec![x, y])
                }
                (true, 1) => {
                    let all = m_full(m);
                    let l: Vec<RegLan> = l.into_iter().map(|x| m_compl(m, x)).collect();
                    match m {
                        Some(m) => m.diff_list(all, l),
                        None => smt::re_diff_list(all, l),
                    }
                }
                (true, _) => m_inter(m, l),
            }
        }),
        want: Box::new(move |w| {
            if extra > 0 && (inter || w.is_empty()) {
                return w.is_empty() && extra == 1;
            }
            inter
                != match w {
                    [x] => one2.contains(x),
                    [x, y] => bs2.iter().any(|b| b[0] <= *x && *x <= b[1] && b[2] <= *y && *y <= b[3]),
                    _ => false,
                }
        }),
        starts: Box::new(move |c| !(inter && extra > 0) && (inter || one3.contains(&c) || bs3.iter().any(|b| b[0] <= c && c <= b[1]))),
        words,
        empty: extra > 1,
    }
}

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.idx(i + 1));
    }
}

/// a word with a letter changed, dropped, doubled or added
fn mutate(r: &mut Rng, w: &[u32], letters: &[u32]) -> Vec<u32> {
    let mut w = w.to_vec();
    let i = r.idx(w.len() + 1);
    match r.below(5) {
        0 if i < w.len() => w[i] = *r.pick(letters),
        1 if i < w.len() => {
            w.remove(i);
        }
        2 => w.insert(i, *r.pick(letters)),
        3 => w.truncate(i),
        _ => w.push(*r.pick(letters)),
    }
    w
}

fn letters(r: &mut Rng, k: u32) -> Vec<u32> {
    let base = r.range(0, MAX_CHAR - 3000);
    let step = *r.pick(&[1, 1, 2, 7, 256]);
    (0..k).map(|i| base + i * step).collect()
}

/// many words that share prefixes and suffixes
fn trie(r: &mut Rng) -> Case {
    let n = match r.below(4) {
        0 => r.range(100, 300),
        _ => r.range(5, 100),
    } as usize;
    let k = r.range(1, 5);
    let ls = letters(r, k);
    let mut ws: Vec<Vec<u32>> = vec![];
    let max = if r.pct(30) { 40 } else { 8 };
    for _ in 0..n {
        let mut w: Vec<u32> = vec![];
        if !ws.is_empty() && r.pct(70) {
            let p: &Vec<u32> = r.pick(&ws);
            w = p[..r.idx(p.len() + 1)].to_vec();
        }
        while w.len() < 2 || r.pct(60) && w.len() < max {
            w.push(*r.pick(&ls));
        }
        if !ws.is_empty() && r.pct(20) {
            let p: &Vec<u32> = r.pick(&ws);
            w.extend(&p[r.idx(p.len())..]);
            w.truncate(max + 2);
        }
        ws.push(w);
    }
    let set: std::collections::HashSet<Vec<u32>> = ws.iter().cloned().collect();
    let mut words: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..80 {
        let w: Vec<u32> = r.pick(&ws).clone();
        words.push(mutate(r, &w, &ls));
        words.push(w);
    }
    let heads: Vec<u32> = ws.iter().map(|w| w[0]).collect();
    let cut = r.idx(n);
    let style = r.below(3);
    // a union inside a union: a list of pieces, one after the other, or two lists
    Case {
        what: format!("the union of {n} words such as {} and {}", show(&ws[0]), show(&ws[n - 1])),
        build: Box::new(move |m| {
            let mut l: Vec<RegLan> = ws.iter().map(|w| make_str(m, w)).collect();
            match style {
                0 => {
                    let b = l.split_off(cut);
                    let (x, y) = (m_union(m, l), m_union(m, b));
                    m_union(m, vec![x, y])
                }
                1 if l.len() < 60 => l[1..].iter().fold(l[0], |x, y| m_union(m, vec![x, y])),
                _ => m_union(m, l),
            }
        }),
        want: Box::new(move |w| set.contains(w)),
        starts: Box::new(move |c| heads.contains(&c)),
        words,
        empty: false,
    }
}

/// p.Sigma*.w.Sigma*.q, with any of the parts missing
fn subword(r: &mut Rng) -> Case {
    let k = r.range(1, 4);
    let ls = letters(r, k);
    let piece = |r: &mut Rng, n: usize| -> Vec<u32> {
        let period = 1 + r.idx(6);
        let per = r.pct(60);
        let mut w: Vec<u32> = vec![];
        for i in 0..n {
            w.push(if per && i >= period && r.pct(97) { w[i - period] } else { *r.pick(&ls) });
        }
        w
    };
    let n = r.range(2, 50) as usize;
    let w = piece(r, n);
    let (n1, n2) = (r.idx(5), r.idx(5));
    let (p, q) = (if r.pct(50) { vec![] } else { piece(r, n1) }, if r.pct(50) { vec![] } else { piece(r, n2) });
    let kind = r.below(4); // 0: p S w S q, 1: p S w, 2: w S q, 3: two stars apart
    let parts: Vec<Option<Vec<u32>>> = match kind {
        0 => vec![Some(p), None, Some(w.clone()), None, Some(q)],
        1 => vec![Some(p), None, Some(w.clone())],
        2 => vec![Some(w.clone()), None, Some(q)],
        _ => vec![None, Some(p), None, Some(w.clone()), Some(q), None],
    };
    // merge neighbouring fixed parts
    let mut merged: Vec<Option<Vec<u32>>> = vec![];
    for x in parts {
        match (merged.last_mut(), x) {
            (Some(Some(a)), Some(b)) => a.extend(b),
            (Some(None), None) => (),
            (_, Some(b)) if b.is_empty() => (),
            (_, x) => merged.push(x),
        }
    }
    let mut stars: Vec<Option<Vec<u32>>> = vec![];
    for x in merged {
        if !(x.is_none() && matches!(stars.last(), Some(None))) {
            stars.push(x);
        }
    }
    let pat = stars;
    let mut words: Vec<Vec<u32>> = vec![vec![], w.clone()];
    for _ in 0..60 {
        let mut v = vec![];
        for x in &pat {
            match x {
                Some(x) if r.pct(90) => v.extend(x),
                _ => {
                    let n = r.idx(2 * w.len() + 2).min(r.idx(40));
                    let c = piece(r, n);
                    if r.pct(50) && !w.is_empty() {
                        v.extend(&w[..r.idx(w.len())]);
                    }
                    v.extend(c);
                }
            }
        }
        if r.pct(40) {
            v = mutate(r, &v, &ls);
        }
        words.push(v);
    }
    let pat2 = pat.clone();
    let first = pat.first().cloned().flatten();
    Case {
        what: format!(
            "{}",
            pat.iter().map(|x| x.as_ref().map_or("Sigma*".to_string(), |w| show(w))).collect::<Vec<_>>().join(".")
        ),
        build: Box::new(move |m| {
            let l: Vec<RegLan> = pat
                .iter()
                .map(|x| match x {
                    Some(w) => make_str(m, w),
                    None => m_full(m),
                })
                .collect();
            m_concat(m, l)
        }),
        want: Box::new(move |w| {
            // greedy: fixed ends, then leftmost occurrences
            let mut lo = 0;
            let mut hi = w.len();
            let k = pat2.len();
            let mut a = 0;
            let mut b = k;
            if let Some(x) = &pat2[0] {
                if k == 1 {
                    return w == &x[..];
                }
                if !w.starts_with(x) {
                    return false;
                }
                lo = x.len();
                a = 1;
            }
            if let Some(x) = &pat2[k - 1] {
                if w.len() < lo + x.len() || !w.ends_with(x) {
                    return false;
                }
                hi -= x.len();
                b = k - 1;
            }
            for x in pat2[a..b].iter().flatten() {
                match (lo..=hi).find(|i| i + x.len() <= hi && w[*i..*i + x.len()] == x[..]) {
                    Some(i) => lo = i + x.len(),
                    None => return false,
                }
            }
            true
        }),
        starts: Box::new(move |c| first.as_ref().is_none_or(|x| x[0] == c)),
        words,
        empty: false,
    }
}

/// (u^[a,b].v)^[c,d] for words u, v with different first letters
fn counted(r: &mut Rng) -> Case {
    let k = r.range(2, 4);
    let ls = letters(r, k);
    let word = |r: &mut Rng, first: u32, n: usize| -> Vec<u32> {
        let mut w = vec![first];
        w.extend((0..n).map(|_| *r.pick(&ls)));
        w
    };
    let (n1, n2) = (r.idx(4), r.idx(3));
    let u = word(r, ls[0], n1);
    let v = if r.pct(40) { vec![] } else { word(r, ls[1], n2) };
    let (b, d) = if v.is_empty() {
        (r.range(2, 300), 1)
    } else {
        match r.below(3) {
            0 => (r.range(1, 20), r.range(1, 12)),
            1 => (r.range(1, 4), r.range(1, 60)),
            _ => (r.range(1, 80), r.range(1, 3)),
        }
    };
    let a = if r.pct(30) { b } else { r.range(0, b) };
    let c = if r.pct(30) { d } else { r.range(1, d) };
    let mut words: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..60 {
        let mut w = vec![];
        let reps = match r.below(5) {
            0 => c,
            1 => d,
            2 => d + 1,
            3 => c - 1,
            _ => r.range(c, d),
        };
        for _ in 0..reps {
            let n = match r.below(40) {
                0..=12 => a,
                13..=25 => b,
                26 => b + 1,
                27 => a.saturating_sub(1),
                _ => r.range(a, b),
            };
            for _ in 0..n {
                w.extend(&u);
            }
            w.extend(&v);
        }
        if r.pct(25) {
            w = mutate(r, &w, &ls);
        }
        if w.len() < 3000 {
            words.push(w);
        }
    }
    let what = format!("({}^[{a},{b}].{})^[{c},{d}]", show(&u), show(&v));
    let (u2, v2) = (u.clone(), v.clone());
    let (h1, h2) = (u[0], v.first().copied());
    Case {
        what,
        build: Box::new(move |m| {
            let x = make_str(m, &u);
            let y = make_str(m, &v);
            let x = m_loop(m, x, a, b);
            let x = m_concat(m, vec![x, y]);
            m_loop(m, x, c, d)
        }),
        want: Box::new(move |w| {
            if v2.is_empty() {
                // u^[a,b] only
                let n = w.len() / u2.len();
                return w.len() % u2.len() == 0 && w.chunks(u2.len()).all(|x| x == u2) && a as usize <= n && n <= b as usize;
            }
            // deterministic: u and v differ in the first letter
            let mut i = 0;
            let mut reps = 0;
            while i < w.len() {
                let mut n = 0;
                while w[i..].starts_with(&u2) {
                    i += u2.len();
                    n += 1;
                }
                if !w[i..].starts_with(&v2) || n < a || n > b {
                    return false;
                }
                i += v2.len();
                reps += 1;
            }
            c <= reps && reps <= d
        }),
        starts: Box::new(move |x| x == h1 || a == 0 && h2 == Some(x)),
        words,
        empty: false,
    }
}

fn case(r: &mut Rng) -> (Case, bool) {
    let k = r.below(6);
    let c = match k {
        0 => boxes(r, false),
        1 => boxes(r, true),
        2 | 3 => trie(r),
        4 => subword(r),
        _ => counted(r),
    };
    (c, k != 1)
}

pub fn expression(r: &mut Rng, prop: u8, mut m: Option<&mut ReManager>, call: Call) -> Option<Bad> {
    if m.is_none() && !matches!(prop, 1 | 7 | 16) {
        return None;
    }
    let (mut c, small) = case(r);
    if small && r.pct(20) {
        c = negated(c);
    }
    let mut out: Option<Bad> = None;
    let e = call(&mut || {
        let t = (c.build)(&mut m);
        out = probe(prop, &mut m, t, &c);
    });
    match e {
        Err(e) => Some((prop, "panic", format!("{}: {e}", c.what))),
        _ => out,
    }
}

/// such an expression, as a term
pub fn term(r: &mut Rng, m: &mut ReManager) -> RegLan {
    let (mut c, _) = case(r);
    if r.pct(20) {
        c = negated(c);
    }
    (c.build)(&mut Some(m))
}

/// replacements with such an expression in the thread-local manager
pub fn replace(r: &mut Rng, call: Call) -> Option<Bad> {
    let (c, _) = case(r);
    let n = r.range(20, 160) as usize;
    let mut subj: Vec<u32> = vec![];
    while subj.len() < n {
        let w = r.pick(&c.words).clone();
        let k = r.idx(w.len() + 1);
        match r.below(4) {
            0 => subj.extend(&w[..k]),
            1 => subj.extend(&w[k..]),
            2 => subj.extend(w.iter().take(90)),
            _ => subj.push(r.range(0, MAX_CHAR)),
        }
    }
    subj.truncate(n + 60);
    let rep: Vec<u32> = (0..r.below(4)).map(|_| *r.pick(&subj)).collect();
    let all = r.pct(60);
    let mut exp = vec![];
    let mut i = 0;
    if !all && (c.want)(&[]) {
        exp.extend(&rep);
    } else {
        while i < subj.len() {
            match (i + 1..=subj.len()).find(|j| (c.want)(&subj[i..*j])) {
                Some(j) => {
                    exp.extend(&rep);
                    i = j;
                    if !all {
                        break;
                    }
                }
                None => {
                    exp.push(subj[i]);
                    i += 1;
                }
            }
        }
    }
    exp.extend(&subj[i..]);
    let mut got: Vec<u32> = vec![];
    let e = call(&mut || {
        let t = (c.build)(&mut None);
        let (s, x): (SmtString, SmtString) = (subj.clone().into(), rep.clone().into());
        let g = if all { smt::str_replace_re_all(&s, t, &x) } else { smt::str_replace_re(&s, t, &x) };
        got = g.iter().copied().collect();
    });
    let name = if all { "str_replace_re_all" } else { "str_replace_re" };
    match e {
        Err(e) => Some((10, "panic", format!("{name} with {}: {e}", c.what))),
        _ if got != exp => {
            let i = got.iter().zip(&exp).take_while(|(a, b)| a == b).count();
            Some((10, "replace", format!("{name} with {} in {} characters {}: differs at {i}", c.what, subj.len(), show(&subj))))
        }
        _ => None,
    }
}

fn probe(prop: u8, m: &mut Option<&mut ReManager>, t: RegLan, case: &Case) -> Option<Bad> {
    let (what, want, words) = (&case.what, &case.want, &case.words);
    if matches!(prop, 1 | 16 | 7) {
        let p = prop;
        for w in words {
            if in_re(m, w, t) != want(w) && (p != 16 || want(w)) {
                let class = if p == 16 { "union-lost" } else if p == 7 { "history" } else { "membership" };
                return Some((p, class, format!("{what}: membership of {} is {}", show(w), !want(w))));
            }
        }
    }
    if prop == 1 && t.nullable != want(&[]) {
        return Some((1, "nullable", format!("{what}: nullable is {}", t.nullable)));
    }
    if prop == 7 {
        // something in between
        let l = words.len();
        let w = &words[l - 1];
        for k in 0..if l < 120 { 12 } else { 4 } {
            let x = (case.build)(m);
            if !std::ptr::eq(t, x) || x != t {
                return Some((7, "reissue", format!("{what}: the same construction gave another term")));
            }
            let mut v = w.clone();
            v.extend([x.nullable as u32, k % 5, k]);
            let _ = make_str(m, &v[v.len().saturating_sub(4)..]);
        }
    }
    if let Some(m) = m.as_mut() {
        match prop {
            2 => {
                let a = m.compile(t);
                for w in words {
                    if a.accepts(&w.clone().into()) != want(w) {
                        return Some((2, "accepts", format!("{what}: the automaton on {} says {}", show(w), !want(w))));
                    }
                }
            }
            3 => {
                for w in words {
                    let d = m.str_derivative(t, &w.clone().into());
                    if d.nullable != want(w) {
                        return Some((3, "quotient", format!("{what}: the derivative along {} is nullable: {}", show(w), d.nullable)));
                    }
                }
            }
            5 => {
                if m.is_empty_re(t) != case.empty {
                    return Some((5, "is_empty", format!("{what}: is_empty_re = {}", !case.empty)));
                }
                match m.get_string(t) {
                    None if case.empty => (),
                    Some(s) if want(s.as_ref()) => (),
                    s => return Some((5, "wrong-witness", format!("{what}: the witness is {:?}", s.map(|s| show(s.as_ref()))))),
                }
            }
            18 => {
                for w in words {
                    for c in w.iter().take(2) {
                        let exp = (case.starts)(*c);
                        if m.start_char(t, *c) != exp {
                            return Some((18, "start_char", format!("{what}: start_char of {c:x} is {}", !exp)));
                        }
                    }
                }
            }
            19 => {
                let v: Vec<RegLan> = m.iter_derivatives(t).map(|x| unsafe { &*(x as *const _) }).collect();
                let set: std::collections::HashSet<usize> = v.iter().map(|x| *x as *const _ as usize).collect();
                if set.len() != v.len() || !std::ptr::eq(v[0], t) {
                    return Some((19, "duplicate", format!("iter_derivatives of {what} yields {} terms, {} distinct", v.len(), set.len())));
                }
                for w in words {
                    let d = m.str_derivative(t, &w.clone().into());
                    if !set.contains(&(d as *const _ as usize)) {
                        return Some((19, "not-closed", format!("iter_derivatives of {what} misses the derivative along {}", show(w))));
                    }
                }
                let k = v.len();
                for b in [k, k - 1, k + 1] {
                    let got = m.try_compile(t, b).map(|a| a.num_states());
                    let want = if b >= k { Some(k) } else { None };
                    if got != want {
                        return Some((19, "bound", format!("try_compile({what}, {b}) has {got:?} states, {k} derivatives")));
                    }
                }
            }
            _ => (),
        }
    }
    None
}
