//! C17: strings as values that circulate among clients.  They enter the system through the public
//! constructors and the literal parser (clients offer corrupted data as well: integers and code points
//! that are no SMT-LIB characters, broken escapes), are transformed again and again, come out of
//! regular expressions as witnesses and replacement results, and are used with everything else.
//! Invariant on every one that is handed out: SMT-LIB characters only.

use crate::plan::MAX_CHAR;
use crate::prng::*;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_strings::*;

#[derive(Default)]
pub struct SOut {
    pub digest: u64,
    pub viol: Option<(String, String)>,
    pub stats: Vec<(&'static str, u64)>,
}

type Call<'a> = &'a dyn Fn(&mut dyn FnMut()) -> Result<(), String>;

/// strings longer than this leave the system
pub const LONGEST: usize = 3000;

pub fn show(v: &[u32]) -> String {
    let s: Vec<String> = v.iter().take(24).map(|c| format!("{c:x}")).collect();
    format!("<{}{}>", s.join(" "), if v.len() > 24 { format!(" ... {} in all", v.len()) } else { String::new() })
}

impl SOut {
    fn fail(&mut self, class: &str, msg: String) {
        if self.viol.is_none() {
            self.viol = Some((class.into(), msg));
        }
    }

    /// the invariant; `want` = the content it must have, where the property fixes it
    pub fn judge(&mut self, s: &SmtString, how: &dyn Fn() -> String, want: Option<&[u32]>) -> bool {
        self.stats.push(("checks.string", 1));
        let v: Vec<u32> = s.iter().copied().collect();
        for c in v.iter().take(64) {
            self.digest = mix(self.digest, *c as u64);
        }
        self.digest = mix(self.digest, v.len() as u64);
        let a: &[u32] = s.as_ref();
        if let Some(c) = v.iter().chain(a).find(|c| **c > MAX_CHAR) {
            self.fail("not-good", format!("{} is {} with the character {c:x}", how(), show(&v)));
        } else if !s.is_good() {
            self.fail("is-good", format!("{} is {}, is_good says false", how(), show(&v)));
        } else if let Some(w) = want {
            if v != w || a != w || s.len() != w.len() {
                self.fail("kept", format!("{} is {}, expected {}", how(), show(&v), show(w)));
            }
        }
        self.viol.is_none()
    }
}

fn chr(x: u32) -> char {
    match x {
        0xd800..=0xdfff => '\u{e000}',
        _ => char::from_u32(x).unwrap_or('\u{3ffff}'),
    }
}

/// kind 0 &str, 1 String, 2 char, 3 u32, 4 &[u32], 5 Vec<u32>, 6 &[u32; N], 7 literal,
/// 8 str_from_code, 9 str_from_int
pub fn create(n: &[u32], call: Call, o: &mut SOut) -> Option<SmtString> {
    let kind = n.first().copied().unwrap_or(0) % 10;
    let data = n.get(1..).unwrap_or(&[]);
    let first = data.first().copied().unwrap_or(0);
    let text: String = data.iter().map(|x| chr(*x)).collect();
    let fixed = |d: &[u32]| -> Vec<u32> { d.iter().map(|c| if *c <= MAX_CHAR { *c } else { 0xfffd }).collect() };
    let (name, want) = match kind {
        0 => ("SmtString::from(&str)", None),
        1 => ("SmtString::from(String)", None),
        2 => ("SmtString::from(char)", None),
        3 => ("SmtString::from(u32)", Some(fixed(&[first]))),
        4 => ("SmtString::from(&[u32])", Some(fixed(data))),
        5 => ("SmtString::from(Vec<u32>)", Some(fixed(data))),
        6 => ("SmtString::from(&[u32; N])", Some(fixed(&data[..[8, 5, 3, 1, 0].into_iter().find(|k| *k <= data.len()).unwrap()]))),
        7 => ("parse_smt_literal", None),
        8 => ("str_from_code", None),
        _ => ("str_from_int", None),
    };
    if data.iter().any(|c| *c > MAX_CHAR) {
        o.stats.push(("fault.corrupt_input", 1));
    }
    let mut res = None;
    let r = call(&mut || {
        res = Some(match kind {
            0 => SmtString::from(text.as_str()),
            1 => SmtString::from(text.clone()),
            2 => SmtString::from(chr(first)),
            3 => SmtString::from(first),
            4 => SmtString::from(data),
            5 => SmtString::from(data.to_vec()),
            6 => match data.len() {
                0 => SmtString::from(&[0u32; 0]),
                1 | 2 => SmtString::from(&[data[0]]),
                3 | 4 => SmtString::from(&[data[0], data[1], data[2]]),
                5..=7 => SmtString::from(<&[u32; 5]>::try_from(&data[..5]).unwrap()),
                _ => SmtString::from(<&[u32; 8]>::try_from(&data[..8]).unwrap()),
            },
            7 => parse_smt_literal(&text),
            8 => str_from_code(first as i32),
            _ => str_from_int(first as i32),
        })
    });
    let how = || {
        if kind == 7 {
            format!("parse_smt_literal of {text:?}")
        } else {
            format!("{name} of {}", show(data))
        }
    };
    if let Err(e) = r {
        o.fail("panic", format!("{} panicked: {e}", how()));
        return None;
    }
    let s = res.unwrap();
    if !o.judge(&s, &how, want.as_deref()) {
        return None;
    }
    Some(s)
}

/// transformations of strings the clients hold
pub fn transform(xs: &[&SmtString], n: &[u32], call: Call, o: &mut SOut) -> Option<SmtString> {
    let kind = n.first().copied().unwrap_or(0) % 9;
    let i = n.get(1).copied().unwrap_or(0) as i32;
    let j = n.get(2).copied().unwrap_or(0) as i32;
    let a = xs.first()?;
    let b = xs.get(1).unwrap_or(a);
    let c = xs.get(2).unwrap_or(b);
    // a documented limit on lengths is not approached
    let limit = match kind {
        0 => a.len() + b.len(),
        4 => (a.len() + 1) * (c.len() + 1),
        _ => 0,
    };
    if limit > LONGEST * 4 {
        return None;
    }
    let mut res = None;
    let r = call(&mut || {
        res = Some(match kind {
            0 => str_concat(a, b),
            1 => str_at(a, i),
            2 => str_substr(a, i, j),
            3 => str_replace(a, b, c),
            4 => str_replace_all(a, b, c),
            5 => (*a).clone(),
            6 => parse_smt_literal(&a.to_string()),
            7 => SmtString::from(a.to_unicode_string()),
            _ => str_from_code(str_to_code(a)),
        })
    });
    let name = ["str_concat", "str_at", "str_substr", "str_replace", "str_replace_all", "clone", "parse of the printed", "from(to_unicode_string)", "str_from_code(str_to_code)"][kind as usize];
    let how = || {
        let v: Vec<String> = [a, b, c].iter().map(|s| show(s.as_ref().as_ref())).collect();
        format!("{name} {} {i} {j}", v.join(" "))
    };
    if let Err(e) = r {
        o.fail("panic", format!("{} panicked: {e}", how()));
        return None;
    }
    let s = res.unwrap();
    o.judge(&s, &how, None).then_some(s)
}

/// every function of the crate that takes strings and no regular expression
pub fn use_plain(a: &SmtString, b: &SmtString, salt: u64, call: Call, o: &mut SOut) {
    let mut r = Rng::new(salt);
    let l = a.len() as u64 + 2;
    let (i, j) = (r.below(l) as i32 - 1, r.below(l) as i32 - 1);
    let mut d = 0u64;
    let long_number = a.len() > 8;
    let e = call(&mut || {
        let x = [
            str_len(a) as u64,
            str_lt(a, b) as u64,
            str_le(b, a) as u64,
            str_prefixof(b, a) as u64,
            str_suffixof(b, a) as u64,
            str_contains(a, b) as u64,
            str_indexof(a, b, i) as u64,
            str_is_digit(a) as u64,
            str_to_code(a) as u64,
            if long_number { 0 } else { str_to_int(a) as u64 },
            a.to_string().len() as u64,
            a.to_unicode_string().len() as u64,
            a.is_unicode() as u64,
            a.is_empty() as u64,
            good_string(a.as_ref()) as u64,
            str_at(a, j).len() as u64,
            str_substr(a, i, j).len() as u64,
        ];
        d = x.iter().fold(0, |h, y| mix(h, *y));
        for k in 0..a.len().min(40) {
            let c = a.char(k);
            d = mix(d, good_char(c) as u64 + char_to_smt(c).len() as u64 + smt_char_as_string(c).len() as u64);
        }
    });
    o.digest = mix(o.digest, d);
    o.stats.push(("work.uses", 1));
    if let Err(e) = e {
        o.fail("use-panic", format!("using {} and {} panicked: {e}", show(a.as_ref()), show(b.as_ref())));
    }
}

/// ... and in a manager
pub fn use_in(m: &mut ReManager, a: &SmtString, b: &SmtString, call: Call, o: &mut SOut) {
    let mut d = 0;
    let e = call(&mut || {
        let t = m.str(a);
        d = t.nullable as u64;
        d = mix(d, m.str_in_re(b, t) as u64);
        let x = m.smt_range(a, b);
        d = mix(d, m.str_in_re(a, x) as u64);
        for k in 0..a.len().min(6) {
            let c = m.char(a.char(k));
            d = mix(d, m.start_char(c, b.as_ref().first().copied().unwrap_or(0)) as u64);
        }
        let u = m.str_derivative(t, b);
        d = mix(d, u.nullable as u64);
    });
    o.digest = mix(o.digest, d);
    o.stats.push(("work.uses_in_manager", 1));
    if let Err(e) = e {
        o.fail("use-panic", format!("a manager given {} and {} panicked: {e}", show(a.as_ref()), show(b.as_ref())));
    }
}
