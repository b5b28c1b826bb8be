//! A run = configuration + a list of steps.  Both are plain text, so a run can be recorded,
//! minimised and replayed; executing a plan is a pure function of the text and the code.

use std::fmt::Write;

macro_rules! ops {
    ($($v:ident = $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        pub enum Op { $($v),* }
        impl Op {
            pub const ALL: &'static [Op] = &[$(Op::$v),*];
            pub fn name(self) -> &'static str { match self { $(Op::$v => $s),* } }
            pub fn parse(s: &str) -> Option<Op> { match s { $($s => Some(Op::$v),)* _ => None } }
        }
    };
}

ops! {
    // constructors (each yields one term)
    Const = "const", Range = "range", Str = "str", BadRange = "badrange",
    Concat = "concat", ConcatList = "concatlist", Union = "union", UnionList = "unionlist",
    Inter = "inter", InterList = "interlist", Diff = "diff", DiffList = "difflist",
    Compl = "compl", Star = "star", Plus = "plus", Opt = "opt", Exp = "exp",
    Loop = "loop", LoopInf = "loopinf", SmtLoop = "smtloop",
    // derivative operations (each yields one term)
    CharDeriv = "charderiv", StrDeriv = "strderiv", ClassDeriv = "classderiv", SetDeriv = "setderiv",
    // queries
    InRe = "inre", Lang = "lang", Compile = "compile", TryCompile = "trycompile",
    IsEmpty = "isempty", GetString = "getstring", StartChar = "startchar", StartClass = "startclass",
    Incl = "incl", InclAll = "inclall", UnionLoss = "unionloss", Iter = "iter", IterCancel = "itercancel",
    Classes = "classes", Repl = "repl", ReplAll = "replall", AFromT = "afromt",
    Reissue = "reissue", EqAudit = "eqaudit", ComplInv = "complinv", Twin = "twin",
    Filler = "filler", FillerAudit = "filleraudit", Show = "show",
    // faults
    PanicIter = "paniciter", Reentrant = "reentrant", BadArg = "badarg", NewMgr = "newmgr",
    ThreadRestart = "threadrestart",
    // automaton builder
    BNew = "bnew", BFinal = "bfinal", BDef = "bdef", BTrans = "btrans", BBulk = "bbulk", BBuild = "bbuild", BBuildU = "bbuildu",
    // live automata
    AGen = "agen", AMin = "amin", APrune = "aprune", AAudit = "aaudit", ACancel = "acancel", ADrop = "adrop",
    // live character partitions
    PNew = "pnew", PPush = "ppush", PMerge = "pmerge", PClone = "pclone", PAudit = "paudit", PDrop = "pdrop",
    // circulating strings
    SNew = "snew", SOp = "sop", SGet = "sget", SRepl = "srepl", SUse = "suse", SDrop = "sdrop",
}

impl Op {
    pub fn makes_term(self) -> bool {
        self <= Op::SetDeriv
    }
    pub fn is_ctor(self) -> bool {
        self <= Op::SmtLoop
    }
}

#[derive(Clone, Debug)]
pub struct Step {
    pub id: u32,
    pub th: u8,
    pub mg: u8,
    pub op: Op,
    /// term / builder arguments (ids of steps)
    pub a: Vec<u32>,
    /// numeric arguments
    pub n: Vec<u32>,
    pub salt: u64,
    /// preempt at this allocation of the step (0 = never) ...
    pub pre: u32,
    /// ... and let up to this many following steps of other threads run meanwhile
    pub prelen: u32,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub prop: u8,
    /// cut points: block b is [cuts[b], cuts[b+1]-1]; cuts[0] = 0, implicit end MAX+1
    pub cuts: Vec<u32>,
    pub threads: u8,
    pub raw_cap: u32,
    pub cap: u32,
    pub hash_seed: u64,
    pub label: String,
}

pub const MAX_CHAR: u32 = 0x2FFFF;

impl Cfg {
    pub fn k(&self) -> usize {
        self.cuts.len()
    }
    pub fn start(&self, b: usize) -> u32 {
        self.cuts[b]
    }
    pub fn end(&self, b: usize) -> u32 {
        if b + 1 < self.cuts.len() {
            self.cuts[b + 1] - 1
        } else {
            MAX_CHAR
        }
    }
    pub fn block_of(&self, c: u32) -> usize {
        match self.cuts.binary_search(&c) {
            Ok(i) => i,
            Err(i) => i - 1,
        }
    }
    pub fn singleton(&self, b: usize) -> bool {
        self.start(b) == self.end(b)
    }
    /// a character of block b; `sel` picks first / last / something inside
    pub fn pick(&self, b: usize, sel: u64) -> u32 {
        let (s, e) = (self.start(b), self.end(b));
        match sel % 4 {
            0 => s,
            1 => e,
            _ => s + ((sel >> 3) % (e - s + 1) as u64) as u32,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub cfg: Cfg,
    pub steps: Vec<Step>,
}

fn list(v: &[u32]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    s.join(",")
}

impl Step {
    pub fn text(&self) -> String {
        let mut s = format!("step {} t{} m{} {}", self.id, self.th, self.mg, self.op.name());
        if !self.a.is_empty() {
            write!(s, " a={}", list(&self.a)).unwrap();
        }
        if !self.n.is_empty() {
            write!(s, " n={}", list(&self.n)).unwrap();
        }
        if self.salt != 0 {
            write!(s, " s={}", self.salt).unwrap();
        }
        if self.pre != 0 {
            write!(s, " pre={} prelen={}", self.pre, self.prelen).unwrap();
        }
        s
    }
}

impl Plan {
    pub fn text(&self) -> String {
        let c = &self.cfg;
        let mut s = String::new();
        writeln!(s, "smtsim-plan 1").unwrap();
        writeln!(s, "property C{:02}", c.prop).unwrap();
        writeln!(s, "label {}", c.label).unwrap();
        writeln!(s, "cuts {}", list(&c.cuts)).unwrap();
        writeln!(s, "threads {}", c.threads).unwrap();
        writeln!(s, "caps {} {}", c.raw_cap, c.cap).unwrap();
        writeln!(s, "hashseed {}", c.hash_seed).unwrap();
        for x in &self.steps {
            writeln!(s, "{}", x.text()).unwrap();
        }
        s
    }

    pub fn parse(t: &str) -> Option<Plan> {
        let nums = |s: &str| -> Option<Vec<u32>> {
            if s.is_empty() {
                return Some(vec![]);
            }
            s.split(',').map(|x| x.parse().ok()).collect()
        };
        let mut cfg = Cfg {
            prop: 0,
            cuts: vec![0],
            threads: 1,
            raw_cap: 1000,
            cap: 100,
            hash_seed: 0,
            label: String::new(),
        };
        let mut steps = vec![];
        let mut magic = false;
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let mut w = l.split(' ');
            match w.next()? {
                "smtsim-plan" => magic = true,
                "property" => cfg.prop = w.next()?[1..].parse().ok()?,
                "label" => cfg.label = w.collect::<Vec<_>>().join(" "),
                "cuts" => cfg.cuts = nums(w.next()?)?,
                "threads" => cfg.threads = w.next()?.parse().ok()?,
                "caps" => {
                    cfg.raw_cap = w.next()?.parse().ok()?;
                    cfg.cap = w.next()?.parse().ok()?;
                }
                "hashseed" => cfg.hash_seed = w.next()?.parse().ok()?,
                "step" => {
                    let mut st = Step {
                        id: w.next()?.parse().ok()?,
                        th: w.next()?[1..].parse().ok()?,
                        mg: w.next()?[1..].parse().ok()?,
                        op: Op::parse(w.next()?)?,
                        a: vec![],
                        n: vec![],
                        salt: 0,
                        pre: 0,
                        prelen: 0,
                    };
                    for x in w {
                        let (key, v) = x.split_once('=')?;
                        match key {
                            "a" => st.a = nums(v)?,
                            "n" => st.n = nums(v)?,
                            "s" => st.salt = v.parse().ok()?,
                            "pre" => st.pre = v.parse().ok()?,
                            "prelen" => st.prelen = v.parse().ok()?,
                            _ => return None,
                        }
                    }
                    steps.push(st);
                }
                _ => return None,
            }
        }
        if !magic {
            return None;
        }
        Some(Plan { cfg, steps })
    }
}
