//! A case is one complete simulated run written out: inputs, faults, schedule, environment.
//! Running a case is a pure function of the case and the code under test.
use crate::exec::Op;
use crate::os::Env;
use crate::scene::{Fault, FAULTS};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub base: String,
    pub old: String,
    pub faults: Vec<Fault>,
    pub ops: Vec<Op>,
    /// Indices into `ops`, per simulated thread.
    pub threads: Vec<Vec<usize>>,
    pub first: usize,
    pub env: Env,
    pub nums: Vec<i64>,
    pub plan: Vec<(u64, u64, u64)>,
}

impl Case {
    pub fn new(prop: &str) -> Case {
        Case {
            prop: prop.into(), base: String::new(), old: String::new(), faults: vec![], ops: vec![], threads: vec![],
            first: 0, env: Env::default(), nums: vec![], plan: vec![],
        }
    }

    pub fn write(&self) -> String {
        let mut s = String::from("pbrtrs-simulation-case 1\n");
        s.push_str(&format!("property {}\n", self.prop));
        s.push_str(&format!("config {}\n", if cfg!(feature = "f64") { "f64" } else { "f32" }));
        if !self.base.is_empty() {
            s.push_str(&format!("base {}\n", esc(&self.base)));
        }
        if !self.old.is_empty() {
            s.push_str(&format!("old {}\n", esc(&self.old)));
        }
        for f in &self.faults {
            s.push_str(&format!("fault {} {} {} {}\n", FAULTS[f.kind], f.a, f.b, f.c));
        }
        for o in &self.ops {
            match o {
                Op::Parse(t) => s.push_str(&format!("op parse {}\n", esc(t))),
                Op::Mat(k, a, b) => {
                    s.push_str(&format!("op mat {}", k));
                    for v in a.iter().chain(b) {
                        s.push_str(&format!(" {}", v));
                    }
                    s.push('\n');
                }
            }
        }
        for t in &self.threads {
            s.push_str("thread");
            let mut k = 0;
            while k < t.len() {
                let n = t[k..].iter().take_while(|x| **x == t[k]).count();
                s.push_str(&if n > 1 { format!(" {}*{}", t[k], n) } else { format!(" {}", t[k]) });
                k += n;
            }
            s.push('\n');
        }
        s.push_str(&format!("first {}\n", self.first));
        let e = &self.env;
        let d = Env::default();
        if e.budget != d.budget {
            s.push_str(&format!("budget {}\n", e.budget));
        }
        for p in &e.preempt {
            s.push_str(&format!("preempt {} {}\n", p.0, p.1));
        }
        if let Some(a) = e.alloc_fail {
            s.push_str(&format!("alloc-fail {} {} {}\n", a.0, a.1, a.2));
        }
        if let Some(b) = e.fill {
            s.push_str(&format!("memory-fill {}\n", b));
        }
        if e.junk > 0 {
            s.push_str(&format!("layout-shift {}\n", e.junk));
        }
        if (e.clock0, e.clock_step, e.clock_jump_at, e.clock_jump) != (d.clock0, d.clock_step, d.clock_jump_at, d.clock_jump) {
            s.push_str(&format!("clock {} {} {} {}\n", e.clock0, e.clock_step, e.clock_jump_at, e.clock_jump));
        }
        if e.entropy != d.entropy {
            s.push_str(&format!("entropy {}\n", e.entropy));
        }
        if e.envvars != 0 {
            s.push_str(&format!("envvars {}\n", e.envvars));
        }
        if !e.word.is_empty() {
            s.push_str(&format!("envword {}\n", esc(&e.word)));
        }
        if e.fs != 0 {
            s.push_str(&format!("filesystem {}\n", e.fs));
        }
        if e.place != (0, 0) {
            s.push_str(&format!("place {} {}\n", e.place.0, e.place.1));
        }
        for n in &self.nums {
            s.push_str(&format!("num {}\n", n));
        }
        for p in &self.plan {
            s.push_str(&format!("plan {} {} {}\n", p.0, p.1, p.2));
        }
        s.push_str("end\n");
        s
    }

    pub fn read(text: &str) -> Option<Case> {
        let mut c = Case::new("");
        for line in text.lines() {
            let (k, v) = line.split_once(' ').unwrap_or((line, ""));
            let f: Vec<&str> = v.split(' ').collect();
            match k {
                "property" => c.prop = v.into(),
                "base" => c.base = unesc(v),
                "old" => c.old = unesc(v),
                "fault" => c.faults.push(Fault {
                    kind: FAULTS.iter().position(|x| *x == f[0])?,
                    a: f[1].parse().ok()?,
                    b: f[2].parse().ok()?,
                    c: f[3].parse().ok()?,
                }),
                "op" if f[0] == "parse" => c.ops.push(Op::Parse(unesc(v.strip_prefix("parse ").unwrap_or("")))),
                "op" => {
                    let mut m = [[0i64; 16]; 2];
                    for i in 0..32 {
                        m[i / 16][i % 16] = f[2 + i].parse().ok()?;
                    }
                    c.ops.push(Op::Mat(f[1].parse().ok()?, m[0], m[1]));
                }
                "thread" => c.threads.push(if v.is_empty() { vec![] } else { {
                    let mut t = vec![];
                    for x in f {
                        let (a, n) = x.split_once('*').unwrap_or((x, "1"));
                        t.extend(std::iter::repeat(a.parse::<usize>().ok()?).take(n.parse().ok()?));
                    }
                    t
                } }),
                "first" => c.first = v.parse().ok()?,
                "budget" => c.env.budget = v.parse().ok()?,
                "preempt" => c.env.preempt.push((f[0].parse().ok()?, f[1].parse().ok()?)),
                "alloc-fail" => c.env.alloc_fail = Some((f[0].parse().ok()?, f[1].parse().ok()?, f[2].parse().ok()?)),
                "memory-fill" => c.env.fill = Some(v.parse().ok()?),
                "layout-shift" => c.env.junk = v.parse().ok()?,
                "clock" => {
                    c.env.clock0 = f[0].parse().ok()?;
                    c.env.clock_step = f[1].parse().ok()?;
                    c.env.clock_jump_at = f[2].parse().ok()?;
                    c.env.clock_jump = f[3].parse().ok()?;
                }
                "entropy" => c.env.entropy = v.parse().ok()?,
                "envvars" => c.env.envvars = v.parse().ok()?,
                "envword" => c.env.word = unesc(v),
                "filesystem" => c.env.fs = v.parse().ok()?,
                "place" => c.env.place = (f[0].parse().ok()?, f[1].parse().ok()?),
                "num" => c.nums.push(v.parse().ok()?),
                "plan" => c.plan.push((f[0].parse().ok()?, f[1].parse().ok()?, f[2].parse().ok()?)),
                _ => {}
            }
        }
        Some(c)
    }
}

/// One line, reversible: %-escapes for control characters, '%' and line breaks of any kind.
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c == '%' || c.is_control() || (c.is_whitespace() && c != ' ') {
            o.push_str(&format!("%{:x};", c as u32));
        } else {
            o.push(c);
        }
    }
    o
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '%' {
            let h: String = it.by_ref().take_while(|x| *x != ';').collect();
            if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                o.push(x);
            }
        } else {
            o.push(c);
        }
    }
    o
}
