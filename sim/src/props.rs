//! The properties: how a case is generated from the seed, how it is run, and the oracle.
use crate::case::Case;
use crate::exec::{self, End, Op, Out, RunOut};
use crate::model::{self, Verdict, Why, T};
use crate::os::{self, Env};
use crate::rng::Rng;
use crate::scene::{self, Fault, Gen, Style};
use crate::tree;
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub runs: u64,
    pub nontrivial: HashSet<u64>,
    pub interleavings: HashSet<u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub events: u64,
    pub switches: u64,
    pub samples: Vec<String>,
    /// Over everything observable of the executions: equal digests mean equal executions.
    pub digest: u64,
}

impl Stats {
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.into()).or_default() += n;
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.into()).or_default() += 1;
    }
    fn ran(&mut self, r: &RunOut) {
        self.runs += 1;
        self.events += r.events;
        self.switches += r.switches;
        let mut h = crate::rng::hash(format!("{:?} {} {}", r.end, r.events, r.switch_hash).as_bytes());
        for (t, i, o) in &r.outs {
            h = crate::rng::mix(h ^ crate::rng::hash(format!("{} {} {} {} {} ", t, i, o.kind, o.events, o.allocs).as_bytes()));
            h = crate::rng::mix(h ^ crate::rng::hash(o.text.as_bytes()));
        }
        for n in r.notes.iter().chain(&r.effects) {
            h = crate::rng::mix(h ^ crate::rng::hash(n.as_bytes()));
        }
        self.digest = crate::rng::mix(self.digest ^ h);
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

fn viol<S: Into<String>>(class: &str, d: S) -> Option<Violation> {
    Some(Violation { class: class.into(), detail: d.into() })
}

pub const PROPS: [&str; 13] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"];

pub fn stream(p: &str) -> u64 {
    crate::rng::hash(p.as_bytes())
}

/// Steps allowed for reading a text: far above what linear work needs, far below quadratic work
/// on the longer texts generated.
pub fn budget(chars: usize) -> u64 {
    50_000 + 500 * chars as u64
}

pub fn gen(prop: &str, r: &mut Rng) -> Case {
    let mut c = Case::new(prop);
    match prop {
        "C01" => gen_c01(r, &mut c),
        "C02" | "C03" => {
            gen_damaged(r, &mut c, prop == "C03");
        }
        "C04" => gen_c04(r, &mut c),
        "C05" => gen_c05(r, &mut c),
        "C06" => gen_c06(r, &mut c),
        "C07" => gen_c07(r, &mut c),
        "C08" => gen_c08(r, &mut c),
        "C09" => gen_c09(r, &mut c),
        "C10" => gen_c10(r, &mut c),
        "C11" => gen_c11(r, &mut c),
        "C12" => gen_c12(r, &mut c),
        "C13" => {
            gen_damaged(r, &mut c, false);
            if c.faults.is_empty() {
                c.faults.push(Fault::gen(r, c.base.len()));
            }
        }
        _ => panic!("unknown property {}", prop),
    }
    c
}

pub fn run(c: &Case, st: &mut Stats) -> Option<Violation> {
    st.evals += 1;
    match &c.prop[..] {
        "C01" => run_c01(c, st),
        "C02" | "C03" => run_model(c, st),
        "C04" => run_c04(c, st),
        "C05" => run_c05(c, st),
        "C06" => run_c06(c, st),
        "C07" => run_c07(c, st),
        "C08" => run_c08(c, st),
        "C09" => run_c09(c, st),
        "C10" => run_c10(c, st),
        "C11" => run_c11(c, st),
        "C12" => run_c12(c, st),
        "C13" => run_c13(c, st),
        _ => None,
    }
}

fn key(c: &Case) -> u64 {
    crate::rng::hash(c.write().as_bytes())
}

/// A run that did not come back with an answer.
fn crash(r: &RunOut) -> Option<Violation> {
    match &r.end {
        End::Done => None,
        End::Die(w) => viol(w, format!("the run was stopped by the simulator: {}", w)),
        End::Signal(s) => viol("crash", format!("the process was killed by signal {}", s)),
        End::Exit(x) => viol("crash", format!("the process exited with status {}", x)),
        End::Timeout => viol("hang", "no answer"),
    }
}

fn show(o: &Out) -> String {
    let t: String = o.text.chars().take(300).collect();
    format!("{} {}", match o.kind { 'O' => "value", 'E' => "error", _ => "panic" }, t)
}

fn one(env: &Env, text: &str, st: &mut Stats) -> Result<Out, Violation> {
    let op = Op::Parse(text.into());
    let r = exec::run_seq(env, &[&op]);
    st.ran(&r);
    if let Some(v) = crash(&r) {
        return Err(v);
    }
    Ok(r.outs[0].2.clone())
}

// ---------------------------------------------------------------- C01

fn gen_c01(r: &mut Rng, c: &mut Case) {
    c.base = match r.below(6) {
        0 => {
            let d = r.range(1, 12);
            scene::nested(r, d)
        }
        1 => {
            let n = r.range(20, 60);
            let mut s = Style::gen(r);
            s.max_dirs = n;
            Gen::new(r, s).scene()
        }
        _ => scene::scene(r),
    };
    let n = c.base.len();
    let ws = scene::words(c.base.as_bytes());
    // the reader looks at a copy in progress at these points
    for _ in 0..r.range(4, 16) {
        let at = match r.below(4) {
            0 => r.below(n + 1),
            1 => n - r.below(n.min(24) + 1),
            // right after or inside a word; closing words first
            _ => {
                let ends: Vec<(usize, usize)> =
                    ws.iter().cloned().filter(|(s, e)| c.base[*s..*e].ends_with("End")).collect();
                // also inside strings and comments
                let texts: Vec<usize> = c.base.match_indices("End").map(|(i, _)| i + 3).collect();
                if !texts.is_empty() && r.chance(1, 4) {
                    c.plan.push((*r.pick(&texts) as u64, 0, 0));
                }
                let w = if !ends.is_empty() && r.chance(2, 3) { *r.pick(&ends) } else { *r.pick(&ws) };
                if r.chance(3, 4) { w.1 } else { w.0 + r.below(w.1 - w.0) }
            }
        };
        // what the tail that did not arrive looks like, and how long it is: a little, up to the old size,
        // up to the next sector or page
        let fill = match r.below(4) {
            0 => n.saturating_sub(at),
            1 => 512 - at % 512 + 512 * r.below(3),
            2 => 4096 - at % 4096,
            _ => r.below(200),
        };
        c.plan.push((at as u64, *r.pick(&[0, 0, 0, 1, 2, 3]), fill as u64));
    }
}

fn run_c01(c: &Case, st: &mut Stats) -> Option<Violation> {
    let (v, _) = model::read(&c.base);
    if !matches!(v, Verdict::Accept { free: false, .. }) {
        return None;
    }
    let end = c.base.rfind("WorldEnd")? + "WorldEnd".len();
    let mut texts = vec![c.base.clone()];
    for (at, mode, fill) in &c.plan {
        let at = (*at as usize).min(c.base.len());
        let mut t = c.base.as_bytes()[..at].to_vec();
        let n = (*fill as usize).min(1 << 20);
        match mode {
            1 => t.extend(std::iter::repeat(0).take(n)),
            2 => t.extend(std::iter::repeat(b' ').take(n)),
            3 => t.extend(std::iter::repeat(b'\n').take(n)),
            _ => {}
        }
        texts.push(String::from_utf8_lossy(&t).into_owned());
    }
    let ops: Vec<Op> = texts.iter().map(|t| Op::Parse(t.clone())).collect();
    let refs: Vec<&Op> = ops.iter().collect();
    let mut env = Env::default();
    env.budget = texts.iter().map(|t| budget(t.chars().count())).sum();
    let r = exec::run_seq(&env, &refs);
    st.ran(&r);
    if let Some(v) = crash(&r) {
        return Some(v);
    }
    let full = &r.outs[0].2;
    for (i, (at, mode, fill)) in c.plan.iter().enumerate() {
        let o = &r.outs[i + 1].2;
        let at = (*at as usize).min(c.base.len());
        let name = ["cut", "cut-zero-filled", "cut-blank-filled", "cut-newline-filled"][*mode as usize % 4];
        st.fault(name, 1);
        if at < end {
            st.probe("cut before the end of the world block");
            st.nontrivial.insert(crate::rng::hash(format!("{}|{}|{}|{}", c.base, at, mode, fill).as_bytes()));
            if o.kind == 'O' {
                return viol("cut-accepted", format!("cut at byte {} of {} ({}) was accepted: {}", at, c.base.len(), name, show(o)));
            }
            if o.kind == 'P' {
                return viol("panic", format!("cut at byte {}: {}", at, show(o)));
            }
        } else {
            st.probe("cut after the end of the world block");
            if *mode == 1 && *fill > 0 || !c.base.is_char_boundary(at) {
                continue;
            }
            if full.kind != 'O' {
                // refusing whole scenes is the business of C02 and C03
                continue;
            }
            // a cut inside the tail can split a character of a comment; the scene is unaffected
            if o.kind != 'O' || o.text != full.text {
                return viol("whole-differs", format!("cut at byte {} after the world block: {} instead of {}", at, show(o), show(full)));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C02, C03, C13

fn gen_damaged(r: &mut Rng, c: &mut Case, params: bool) {
    let mut s = Style::gen(r);
    s.odd = r.chance(1, 5);
    if params && r.chance(1, 2) {
        s.max_dirs = r.range(1, 3);
    }
    c.base = if params && r.chance(1, 3) {
        // one directive rich in parameters
        let mut g = Gen::new(r, s.clone());
        g.word("WorldBegin");
        g.word("Shape");
        g.string("sphere");
        for _ in 0..g.r.range(1, 6) {
            g.param();
        }
        if g.r.chance(1, 2) {
            g.directive(0);
        }
        g.word("WorldEnd");
        g.out.push('\n');
        g.out
    } else if r.chance(1, 30) {
        let d = r.range(1, 63);
        scene::nested(r, d)
    } else {
        Gen::new(r, s).scene()
    };
    c.old = if r.chance(1, 2) { scene::neighbour(r, &c.base) } else { scene::scene(r) };
    let n = *r.pick(&[0, 0, 1, 1, 1, 1, 2, 2, 3, 5]);
    let len = c.base.len();
    // swarm: some runs enable a few fault kinds only
    let kinds: Vec<usize> = if r.chance(1, 2) {
        (0..2).map(|_| r.range(1, scene::FAULTS.len() - 1)).collect()
    } else {
        vec![]
    };
    for _ in 0..n {
        let mut f = Fault::gen(r, len);
        if !kinds.is_empty() {
            f.kind = *r.pick(&kinds);
        }
        c.faults.push(f);
    }
}

fn delivered(c: &Case, st: &mut Stats) -> String {
    let (t, fired) = scene::deliver(&c.base, &c.old, &c.faults);
    for (f, b) in c.faults.iter().zip(fired) {
        if b {
            st.fault(f.name(), 1);
        }
    }
    t
}

fn run_model(c: &Case, st: &mut Stats) -> Option<Violation> {
    let text = delivered(c, st);
    let (want, _) = model::read(&text);
    let mut env = Env::default();
    env.budget = budget(text.chars().count());
    let o = match one(&env, &text, st) {
        Ok(o) => o,
        Err(v) => return Some(v),
    };
    if o.kind == 'P' {
        return viol("panic", show(&o));
    }
    let structural = c.prop == "C02";
    if c.faults.is_empty() || text != c.base {
        st.nontrivial.insert(crate::rng::hash(text.as_bytes()));
    }
    match want {
        Verdict::Open => {
            st.probe("the format leaves the answer open");
            None
        }
        Verdict::Reject { why, .. } => {
            st.probe(match why {
                Why::Structure => "model rejects: directives or nesting",
                Why::Param => "model rejects: parameter",
                Why::Lexical => "model rejects: unreadable word",
            });
            let mine = match why {
                Why::Structure => structural,
                Why::Param => !structural,
                Why::Lexical => true,
            };
            if mine && o.kind == 'O' {
                return viol("malformed-accepted", format!("{:?}: accepted as {}", why, show(&o)));
            }
            None
        }
        Verdict::Accept { tree, free } => {
            st.probe(if free { "model accepts, text follows the world block" } else { "model accepts" });
            if text != c.base {
                st.probe("damaged text that is well formed");
            }
            if o.kind == 'E' {
                if free {
                    return None;
                }
                return viol("well-formed-refused", show(&o));
            }
            let Some(got) = tree::parse(&o.text) else {
                return viol("unreadable-rendering", show(&o));
            };
            let d = if structural {
                tree::diff(&tree::without_params(&tree), &tree::without_params(&got), "")
            } else {
                let (mut a, mut b) = (vec![], vec![]);
                tree::params(&tree, &mut a);
                tree::params(&got, &mut b);
                if a.len() != b.len() {
                    Some(format!("{} parameter sets expected, {} found", a.len(), b.len()))
                } else {
                    a.iter().zip(b).enumerate().find_map(|(i, (x, y))| tree::diff(x, y, &format!("set {}", i)))
                }
            };
            d.and_then(|d| viol("differs", d))
        }
    }
}

fn lead_pos(s: &str) -> Option<(usize, usize)> {
    let s = s.strip_prefix('(')?;
    let (r, s) = s.split_once(", ")?;
    let (c, _) = s.split_once(')')?;
    Some((r.parse().ok()?, c.parse().ok()?))
}

fn run_c13(c: &Case, st: &mut Stats) -> Option<Violation> {
    let (v, base) = model::read(&c.base);
    if !matches!(v, Verdict::Accept { .. }) {
        return None;
    }
    let text = delivered(c, st);
    if text == c.base {
        return None;
    }
    let lx = model::lex(&text);
    let mut env = Env::default();
    env.budget = budget(text.chars().count());
    let o = match one(&env, &text, st) {
        Ok(o) => o,
        Err(_) => return None, // C09's business
    };
    if o.kind != 'E' || lx.toks.iter().any(|t| matches!(t.t, T::Odd)) {
        return None;
    }
    let places = if text.contains('(') { lead_pos(&o.text).into_iter().collect() } else { all_pos(&o.text) };
    if places.is_empty() {
        st.probe("rejection without a location");
        return None;
    }
    st.probe("rejection with a location");
    st.nontrivial.insert(crate::rng::hash(text.as_bytes()));
    places.into_iter().find_map(|p| judge_place(c, &text, &base, &lx, &o, p))
}

/// Every "(line, column)" of a message.
fn all_pos(s: &str) -> Vec<(usize, usize)> {
    s.match_indices('(').filter_map(|(i, _)| lead_pos(&s[i..])).collect()
}

fn judge_place(c: &Case, text: &str, base: &model::Lexed, lx: &model::Lexed, o: &Out, p: (usize, usize)) -> Option<Violation> {
    let exists = p.0 >= 1 && p.1 >= 1 && p.0 <= lx.lines.len() && p.1 <= lx.lines[p.0 - 1] + 1;
    if !exists {
        return viol("no-such-place", format!("{} names a place outside the text", show(o)));
    }
    let on_word = lx.toks.iter().any(|t| (t.r, t.c) == p)
        || p == lx.end
        || lx.bad.map(|(a, b)| p >= a && p <= b).unwrap_or(false);
    if !on_word {
        return viol("not-a-word", format!("{} names a place where no word starts", show(o)));
    }
    if let Some((a, b)) = lx.bad {
        // words are read before sentences: an unreadable word is what gets reported
        let at_word = lx.toks.iter().any(|t| (t.r, t.c) == p);
        if !(p >= a && p <= b) && !at_word {
            return viol("not-the-bad-word", show(o));
        }
    }
    // first damaged character, in characters, and the directive before the one it lies in
    let same = c.base.chars().zip(text.chars()).take_while(|(a, b)| a == b).count();
    let at = {
        let pre: String = c.base.chars().take(same).collect();
        model::lex(&pre).end
    };
    let mut starts = vec![];
    let mut prev_active = false;
    for t in &base.toks {
        if let T::Id(s) = &t.t {
            if !prev_active {
                starts.push((t.r, t.c, s.chars().count()));
            }
            prev_active = s == "ActiveTransform" && !prev_active;
        } else {
            prev_active = false;
        }
    }
    let before: Vec<_> = starts.into_iter().filter(|s| (s.0, s.1) <= at).collect();
    // damage beyond the directive's name leaves everything before that directive out of it
    let whole = before.last().map_or(false, |s| s.0 < at.0 || s.1 + s.2 < at.1);
    let back = if whole { 1 } else { 2 };
    let bound = if before.len() >= back { before[before.len() - back] } else { (1, 1, 0) };
    let bound = (bound.0, bound.1);
    if p < bound {
        return viol(
            "blames-the-past",
            format!("{}; the damage starts at {:?} and the directive before it at {:?}", show(o), at, bound),
        );
    }
    None
}

// ---------------------------------------------------------------- C04, C05

fn small_scene(r: &mut Rng) -> String {
    let mut s = Style::gen(r);
    s.max_dirs = *r.pick(&[0, 1, 1, 2, 3, 5]);
    Gen::new(r, s).scene()
}

/// A pool of related calls: scenes, near-identical scenes, damaged scenes, matrices.
fn pool(r: &mut Rng, n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let deep = r.chance(1, 6);
    let mats = r.chance(1, 2);
    while v.len() < n {
        let texts: Vec<String> = v.iter().filter_map(|o| if let Op::Parse(t) = o { Some(t.clone()) } else { None }).collect();
        match r.below(8) {
            0 | 1 => v.push(Op::Parse(small_scene(r))),
            2 | 3 if !texts.is_empty() => {
                let t = r.pick(&texts).clone();
                v.push(Op::Parse(scene::neighbour(r, &t)));
            }
            4 if !texts.is_empty() => {
                let t = r.pick(&texts).clone();
                let f = Fault::gen(r, t.len());
                v.push(Op::Parse(scene::deliver(&t, &t, &[f]).0));
            }
            5 if !texts.is_empty() => {
                let t = r.pick(&texts).clone();
                let cut = r.below(t.len() + 1);
                v.push(Op::Parse(String::from_utf8_lossy(&t.as_bytes()[..cut]).into_owned()));
            }
            6 if mats => {
                let old: Vec<Op> = v.iter().filter(|o| matches!(o, Op::Mat(..))).cloned().collect();
                let m = if !old.is_empty() && r.chance(2, 3) {
                    let o = r.pick(&old).clone();
                    exec::near_mat(r, &o)
                } else {
                    exec::gen_mat(r)
                };
                v.push(m)
            }
            7 if deep => {
                let d = r.size(60);
                let mut t = scene::nested(r, d);
                if r.chance(1, 2) {
                    // left unfinished deep inside
                    let cut = t.len() / 2 + r.below(t.len() / 4);
                    t = String::from_utf8_lossy(&t.as_bytes()[..cut]).into_owned();
                }
                v.push(Op::Parse(t));
            }
            _ if r.chance(1, 4) => {
                let row = r.below(2) * r.below(30);
                v.push(Op::Parse(format!("{}{}{}", "\n".repeat(row), " ".repeat(r.below(2) * r.below(20)), r.pick(&REJECTED))))
            }
            _ => {}
        }
    }
    v
}

/// Texts refused for different reasons, some of them over several lines.
const REJECTED: [&str; 30] = [
    "WorldBegin", "Shape", "1..2", "$", "\"a", "\"a\nb", "\"a\\", "\"a\n\nb\\", "1e1e", "-", "+", "1e", "5", "[", "WorldBegin AttributeBegin\nTransformBegin",
    "WorldBegin Shape \"s\" \"float f\" x WorldEnd", "WorldBegin Shape \"s\" \"float f\" [1 \"x\"] WorldEnd",
    "WorldBegin Shape \"s\" \"integer f\" [1 2", "WorldBegin Shape \"s\"\n\"integer f\" [ ] WorldEnd", "Translate 1 2", "Translate 1\n\"x\" 2 WorldBegin WorldEnd",
    "WorldBegin 7 WorldEnd", "WorldBegin Shape \"s\" \"bool b\" \"maybe\" WorldEnd", "WorldBegin Shape \"s\" \"wrong\" 1 WorldEnd",
    "WorldBegin Shape \"s\" \"colour c\" 1 WorldEnd", "WorldBegin Nothing WorldEnd", "Nothing", "WorldBegin Include 5 WorldEnd",
    "WorldBegin Texture \"a\" \"b\" WorldEnd", "WorldBegin Material \"m\" \"rgb c\" [1 2] WorldEnd",
];

fn gen_c04(r: &mut Rng, c: &mut Case) {
    let nt = *r.pick(&[2, 2, 2, 3, 3, 4, 6, 8]);
    let np = r.range(1, 2 + nt);
    c.ops = pool(r, np);
    c.nums = vec![r.chance(1, 3) as i64];
    for _ in 0..nt {
        let k = r.range(1, 3);
        c.threads.push((0..k).map(|_| r.below(np)).collect());
    }
    c.first = r.below(nt);
    // where pre-emptions make sense depends on how long the calls are: measured alone, here
    let mut total = 0u64;
    let mut len = vec![0u64; np];
    let mut rare = vec![vec![]; np];
    let mut shared = vec![vec![]; np];
    for (i, o) in c.ops.iter().enumerate() {
        let s = exec::profile(&Env { budget: 50_000_000, ..Env::default() }, o);
        len[i] = s.0;
        rare[i] = s.1;
        shared[i] = s.2;
    }
    for t in &c.threads {
        total += t.iter().map(|i| len[*i]).sum::<u64>();
    }
    let total = total.max(2);
    let mut p = vec![];
    match r.below(10) {
        // around what threads can share (locks, atomics, cells), if the code does anything of the kind
        6..=9 if shared.iter().any(|s| !s.is_empty()) && r.chance(2, 3) => p = directed(r, c, &len, &shared, true),
        6..=9 => {
            let only = r.chance(1, 2);
            p = directed(r, c, &len, &rare, only)
        }
        0 | 1 => {
            for _ in 0..r.range(1, 60) {
                p.push((1 + r.u64() % total, r.below(nt)));
            }
        }
        2 => {
            // few pre-emptions, anywhere
            for _ in 0..r.range(1, 4) {
                p.push((1 + r.u64() % total, r.below(nt)));
            }
        }
        3 => {
            // bursts
            for _ in 0..r.range(1, 6) {
                let at = 1 + r.u64() % total;
                for k in 0..r.range(2, 40) {
                    p.push((at + k as u64 * r.range(1, 3) as u64, r.below(nt)));
                }
            }
        }
        4 => {
            // fixed quantum, round robin
            let q = (total / r.range(2, 600) as u64).max(1);
            let mut at = q;
            let mut t = 0;
            while at < total && p.len() < 1500 {
                t += 1;
                p.push((at, t));
                at += q;
            }
        }
        _ => {
            // every call of one thread starts before the others get on: early pre-emptions
            for k in 0..nt * 4 {
                p.push((1 + r.u64() % (total / 8 + 1), k));
            }
        }
    }
    p.sort();
    p.dedup_by_key(|x| x.0);
    c.env.preempt = p;
    c.env.budget = 4 * total + 2_000_000;
}

/// A schedule that stops threads at chosen points of their own progress: mostly where they do something they
/// do only once or twice in a call, or between two calls.
fn directed(r: &mut Rng, c: &Case, len: &[u64], rare: &[Vec<u64>], only_rare: bool) -> Vec<(u64, usize)> {
    let nt = c.threads.len();
    let mut at = vec![0u64; nt];
    let total: Vec<u64> = c.threads.iter().map(|t| t.iter().map(|i| len[*i]).sum()).collect();
    let mut now = 0u64;
    let mut t = c.first;
    let mut p = vec![];
    for _ in 0..*r.pick(&[1, 2, 3, 4, 8, 20, 50]) {
        // the next stop of this thread
        let mut stops: Vec<u64> = vec![];
        let mut base = 0;
        for i in &c.threads[t] {
            if base + len[*i] > at[t] {
                stops.extend(rare[*i].iter().map(|x| base + x).filter(|x| *x > at[t]));
                stops.push(base + len[*i]);
            }
            base += len[*i];
        }
        let left = total[t].saturating_sub(at[t]);
        if left > 0 {
            let stop = if !stops.is_empty() && (only_rare || r.chance(2, 3)) {
                // the next few, or any
                let k = if r.chance(1, 2) { r.below(stops.len().min(8)) } else { r.below(stops.len()) };
                stops.sort();
                (stops[k] + r.below(4) as u64).max(at[t] + 1)
            } else {
                at[t] + 1 + r.u64() % left
            };
            now += stop - at[t];
            at[t] = stop;
        }
        t = (t + 1 + r.below(nt.max(2) - 1)) % nt;
        p.push((now.max(1), t));
    }
    p
}

/// Outcomes of every distinct op alone in a fresh process.
fn alone(ops: &[Op], used: &[bool], st: &mut Stats) -> Result<Vec<Option<Out>>, Violation> {
    let mut v = vec![];
    for (i, o) in ops.iter().enumerate() {
        if !used[i] {
            v.push(None);
            continue;
        }
        let r = exec::run_seq(&Env { budget: 50_000_000, ..Env::default() }, &[o]);
        st.ran(&r);
        if crash(&r).is_some() {
            // the call does not come back even alone: C09's business
            v.push(None);
            continue;
        }
        v.push(Some(r.outs[0].2.clone()));
    }
    Ok(v)
}

fn same(a: &Out, b: &Out) -> bool {
    a.kind == b.kind && a.text == b.text
}

fn run_c04(c: &Case, st: &mut Stats) -> Option<Violation> {
    let mut used = vec![false; c.ops.len()];
    c.threads.iter().flatten().for_each(|i| used[*i] = true);
    let solo = match alone(&c.ops, &used, st) {
        Ok(s) => s,
        Err(v) => return Some(v),
    };
    if (0..c.ops.len()).any(|i| used[i] && solo[i].is_none()) {
        return None;
    }
    if c.threads.is_empty() {
        return None;
    }
    let threads: Vec<Vec<Op>> = c.threads.iter().map(|t| t.iter().map(|i| c.ops[*i].clone()).collect()).collect();
    let r = exec::run_threads(&c.env, &threads, c.first, c.nums == [1]);
    st.ran(&r);
    st.fault("pre-emption", r.switches);
    st.fault("blocked-on-lock", r.blocks);
    if r.switches > 0 {
        st.nontrivial.insert(key(c));
        st.interleavings.insert(r.switch_hash);
    }
    if let Some(v) = crash(&r) {
        return Some(v);
    }
    let mut seen = 0;
    for (t, i, o) in &r.outs {
        seen += 1;
        let want = solo[c.threads[*t][*i]].as_ref().unwrap();
        match o.kind {
            'P' => st.probe("a call panicked while others ran"),
            'E' => st.probe("a call was refused while others ran"),
            _ => {}
        }
        if !same(o, want) {
            return viol("differs", format!("thread {} call {}: {} instead of {}", t, i, show(o), show(want)));
        }
    }
    if seen != c.threads.iter().map(|t| t.len()).sum::<usize>() {
        return viol("lost-call", "a call did not finish");
    }
    None
}

fn gen_c05(r: &mut Rng, c: &mut Case) {
    if r.chance(1, 16) {
        // a very long history of very small calls
        let a = [
            "WorldBegin WorldEnd", "WorldBegin Shape \"s\" WorldEnd", "WorldBegin Include \"f\" WorldEnd", "# c\nScale 1 2 3.5 WorldBegin WorldEnd",
            "WorldBegin", "Shape", "1..2", "$", "\"a", "1e1e", "WorldBegin AttributeBegin TransformBegin", "WorldBegin Shape \"s\" \"float f\" x WorldEnd",
            "WorldBegin Shape \"s\" \"integer f\" [1 2", "Translate 1 2", "WorldBegin 7 WorldEnd", "WorldBegin Shape \"s\" \"bool b\" \"maybe\" WorldEnd",
        ];
        let mut first = Op::Parse(r.pick(&a).to_string());
        if r.chance(1, 10) {
            // an inversion that panics
            first = Op::Mat(0, [1; 16], [0; 16]);
        }
        c.ops = vec![first, Op::Parse(r.pick(&a).to_string()), exec::gen_mat(r), Op::Parse(small_scene(r))];
        let n = match r.below(12) {
            0 => scene::boundary(r, 66_000) + 2,
            1 => *r.pick(&[20_000, 66_000]),
            2 => 5_000,
            _ => r.range(1_030, 2_200),
        };
        let mut h = vec![0; n];
        if r.chance(1, 2) {
            for k in 0..n / 2 {
                h[2 * k] = 1;
            }
        }
        h.extend([0, 1, 2, 3, 3, 0]);
        c.threads = vec![h];
        return;
    }
    let np = r.range(1, 9);
    c.ops = pool(r, np);
    c.nums = vec![r.chance(1, 3) as i64];
    let len = match r.below(12) {
        0 => r.range(300, 800),
        1..=3 => r.range(40, 150),
        _ => r.range(2, 25),
    };
    // phases: mostly one call repeated, then a mix
    let mut h = vec![];
    while h.len() < len {
        let i = r.below(np);
        let k = if r.chance(1, 3) { r.size(60) } else { 1 };
        for _ in 0..k {
            h.push(i);
        }
    }
    h.truncate(len);
    for i in 0..np {
        h.push(i);
    }
    // the history may be spread over several threads, one after the other
    let nt = *r.pick(&[1, 1, 1, 2, 3, 6]);
    if nt > 1 && r.chance(1, 2) {
        // each thread ends before the next one starts
        c.nums = vec![2];
    }
    let per = (h.len() + nt - 1) / nt;
    c.threads = h.chunks(per).map(|x| x.to_vec()).collect();
}

fn run_c05(c: &Case, st: &mut Stats) -> Option<Violation> {
    let mut used = vec![false; c.ops.len()];
    c.threads.iter().flatten().for_each(|i| used[*i] = true);
    let solo = match alone(&c.ops, &used, st) {
        Ok(s) => s,
        Err(v) => return Some(v),
    };
    if (0..c.ops.len()).any(|i| used[i] && solo[i].is_none()) || c.threads.is_empty() {
        return None;
    }
    let threads: Vec<Vec<Op>> = c.threads.iter().map(|t| t.iter().map(|i| c.ops[*i].clone()).collect()).collect();
    let mut env = Env::default();
    env.budget = 2_000_000
        + c.threads.iter().flatten().map(|i| 4 * solo[*i].as_ref().unwrap().events).sum::<u64>();
    let r = if c.nums == [2] {
        st.fault("thread ended before the next call", threads.len() as u64 - 1);
        exec::run_relay(&env, &threads)
    } else {
        exec::run_threads(&env, &threads, 0, c.nums == [1])
    };
    st.ran(&r);
    if r.outs.len() > 1 {
        st.nontrivial.insert(key(c));
    }
    if let Some(v) = crash(&r) {
        return Some(v);
    }
    let mut fails = 0;
    for (n, (t, i, o)) in r.outs.iter().enumerate() {
        let want = solo[c.threads[*t][*i]].as_ref().unwrap();
        if !same(o, want) {
            return viol("differs", format!("call {} of the history (thread {}): {} instead of {}", n, t, show(o), show(want)));
        }
        match o.kind {
            'P' => st.fault("earlier call panicked", 1),
            'E' => {
                fails += 1;
                st.fault("earlier call refused", 1)
            }
            _ => {}
        }
    }
    if fails > 100 {
        st.probe("more than 100 refused calls in one history");
    }
    None
}

// ---------------------------------------------------------------- C06

/// A value for environment variables and arguments: words of the code under test and usual ones.
fn env_word(r: &mut Rng) -> String {
    let d = &scene::dict().words;
    if !d.is_empty() && r.chance(2, 3) {
        return r.pick(d).clone();
    }
    let w = [
        "C", "POSIX", "de_DE.UTF-8", "de_DE", "fr", "tr_TR", "UTF-8", "yes", "on", "debug", "strict", "lenient", "-1", "64",
        "4096", "verbose", "full", "dumb", "UTC", "root", "/", ".", "no", "off", "0.5",
    ];
    r.pick(&w).to_string()
}

fn gen_c06(r: &mut Rng, c: &mut Case) {
    let n = r.range(1, 4);
    for _ in 0..n {
        let o = if r.chance(1, 5) {
            exec::gen_mat(r)
        } else {
            let mut d = Case::new("C02");
            gen_damaged(r, &mut d, false);
            Op::Parse(scene::deliver(&d.base, &d.old, &d.faults).0)
        };
        c.ops.push(o);
    }
    c.env = Env {
        fill: *r.pick(&[None, Some(0), Some(0xaa), Some(0xff), Some(0x22)]),
        junk: *r.pick(&[0, 0, 13, 200, 1000]),
        clock0: *r.pick(&[0, 1, -1_000_000_000, 1_500_000_000_000_000_000, 2_200_000_000_000_000_000, 4_000_000_000_000_000_000]),
        clock_step: *r.pick(&[0, 1, 1000, 1_000_000_000, 3_600_000_000_000]),
        clock_jump_at: 1 + r.below(6) as u64,
        clock_jump: *r.pick(&[0, 1_000_000_000, 86_400_000_000_000, 31_536_000_000_000_000, -3_600_000_000_000, -1_000_000_000]),
        entropy: r.u64(),
        envvars: r.below(9).min(7) as u8,
        word: String::new(),
        fs: r.below(5) as u8,
        place: (r.below(2) * r.below(260), r.below(2) * r.below(64)),
        ..Env::default()
    };
    if c.env.envvars == 7 {
        c.env.word = env_word(r);
    }
}

fn run_c06(c: &Case, st: &mut Stats) -> Option<Violation> {
    let refs: Vec<&Op> = c.ops.iter().collect();
    let bud = c.ops.iter().map(|o| if let Op::Parse(t) = o { budget(t.len()) } else { 1_000_000 }).sum();
    let a = exec::run_seq(&Env { budget: bud, ..Env::default() }, &refs);
    st.ran(&a);
    if crash(&a).is_some() {
        return None;
    }
    let b = exec::run_seq(&Env { budget: 2 * bud, ..c.env.clone() }, &refs);
    st.ran(&b);
    st.nontrivial.insert(key(c));
    let d = Env::default();
    st.fault("memory filled with garbage", c.env.fill.is_some() as u64);
    st.fault("memory layout shifted", (c.env.junk > 0) as u64);
    st.fault("clock moved", (c.env.clock0 != d.clock0 || c.env.clock_jump != 0) as u64);
    st.fault("entropy changed", 1);
    st.fault("stack at another address", (c.env.place.0 > 0) as u64);
    st.fault("text at another address", (c.env.place.1 > 0) as u64);
    st.fault("environment variables changed", (c.env.envvars != 0) as u64);
    st.fault("file system answers changed", (c.env.fs != 0) as u64);
    if let Some(v) = crash(&b) {
        return Some(Violation { class: v.class, detail: format!("only in the changed environment: {}", v.detail) });
    }
    if b.env_touch > 0 {
        st.probe("the code consulted the environment");
    }
    for (x, y) in a.outs.iter().zip(&b.outs) {
        if !same(&x.2, &y.2) {
            return viol("differs", format!("call {}: {} in one environment, {} in another", x.1, show(&x.2), show(&y.2)));
        }
    }
    for r in [&a, &b] {
        if !r.effects.is_empty() {
            return viol("side-effect", format!("the call did: {}", r.effects.join(", ")));
        }
    }
    None
}

// ---------------------------------------------------------------- C07

fn gen_c07(r: &mut Rng, c: &mut Case) {
    let o = if r.chance(1, 20) {
        exec::gen_mat(r)
    } else if r.chance(1, 3) {
        let mut d = Case::new("C02");
        gen_damaged(r, &mut d, true);
        Op::Parse(scene::deliver(&d.base, &d.old, &d.faults).0)
    } else {
        Op::Parse(scene::scene(r))
    };
    // requests made in few places of the code are tried as often as those made in many
    let (places, fine) = if r.chance(2, 3) {
        (exec::alloc_sites(&Env { budget: 50_000_000, ..Env::default() }, &o), r.below(3))
    } else {
        (vec![], 0)
    };
    let mut by: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
    for (i, s) in places.iter().enumerate() {
        by.entry(s[fine]).or_default().push(i as u64);
    }
    let by: Vec<Vec<u64>> = by.into_values().collect();
    c.ops.push(o);
    // (position among the allocations, number that fail, smallest size that can fail)
    for _ in 0..r.range(3, 10) {
        let k = match r.below(5) {
            _ if !by.is_empty() && r.chance(3, 4) => {
                let at = r.pick(&by);
                10_000_000 + *r.pick(at)
            }
            0 => r.below(12) as u64,
            1 => 1000 + r.below(12) as u64,
            _ => 2000 + r.below(1_000_000) as u64,
        };
        c.plan.push(if r.chance(1, 4) {
            // memory is tight: only large requests fail
            (r.below(4) as u64, *r.pick(&[1, 1_000_000_000]), 1 << r.range(4, 12))
        } else {
            (k, *r.pick(&[1, 1, 1, 2, 5, 1_000_000_000]), 0)
        });
    }
}

fn run_c07(c: &Case, st: &mut Stats) -> Option<Violation> {
    let Op::Parse(t) = &c.ops[0] else { return run_c07_with(c, st, 1_000_000) };
    run_c07_with(c, st, budget(t.len()))
}

fn run_c07_with(c: &Case, st: &mut Stats, bud: u64) -> Option<Violation> {
    let base = exec::run_seq(&Env { budget: bud, ..Env::default() }, &[&c.ops[0]]);
    st.ran(&base);
    if crash(&base).is_some() {
        return None;
    }
    let want = &base.outs[0].2;
    if want.allocs == 0 {
        return None;
    }
    for (k, n, min) in &c.plan {
        // first few, last few, or anywhere
        let at = if *k >= 10_000_000 {
            *k - 10_000_000
        } else if *k < 1000 {
            *k
        } else if *k < 2000 {
            want.allocs.saturating_sub(1 + (*k - 1000))
        } else {
            (*k - 2000) * want.allocs / 1_000_000
        }
        .min(want.allocs - 1);
        let env = Env { budget: 4 * bud, alloc_fail: Some((at, *n, *min)), ..Env::default() };
        let r = exec::run_seq(&env, &[&c.ops[0]]);
        st.ran(&r);
        if r.end == End::Done && r.alloc_failed == 0 {
            continue;
        }
        st.fault(if *min > 0 { "large allocations failed" } else if *n == 1 { "one allocation failed" } else if *n > 100 { "allocations failed for good" } else { "several allocations failed" }, 1);
        st.nontrivial.insert(crate::rng::hash(format!("{:?}{}{}{}", c.ops[0], at, n, min).as_bytes()));
        match r.end {
            End::Signal(6) | End::Signal(4) => st.probe("aborted"),
            End::Exit(_) => st.probe("exited with a failure status"),
            End::Done => {
                let o = &r.outs[0].2;
                match o.kind {
                    'P' => st.probe("panicked"),
                    'E' => st.probe("reported an error"),
                    _ => {
                        st.probe("completed without the memory");
                        if !same(o, want) {
                            return viol("wrong-answer", format!("allocation {} (x{}) failed and the call returned {} instead of {}", at, n, show(o), show(want)));
                        }
                    }
                }
            }
            _ => {
                let v = crash(&r).unwrap();
                return viol(&v.class, format!("allocation {} (x{}) failed: {}", at, n, v.detail));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C08

/// Texts that share no names: (style, index).
fn distinct(style: i64, i: i64) -> String {
    match style % 8 {
        0 => format!("WorldBegin Shape \"kind{i}\" \"float name{i}\" {i} WorldEnd"),
        1 => format!("WorldBegin Texture \"a{i}\" \"b{i}\" \"c{i}\" \"string s{i}\" \"v{i}\" WorldEnd"),
        2 => format!("WorldBegin Include \"dir{i}/file{i}.pbrt\" WorldEnd"),
        3 => format!("Unknown{i} WorldBegin WorldEnd"),
        4 => format!("WorldBegin Shape \"s\" \"wrong{i} x\" 1 WorldEnd"),
        5 => format!("ActiveTransform Time{i} CoordinateSystem \"cs{i}\" WorldBegin WorldEnd"),
        6 => format!("WorldBegin Material \"m\" \"texture t{i}\" \"x{i}\" \"spectrum s{i}\" \"f{i}.spd\" WorldEnd # c{i}"),
        _ => format!("WorldBegin Shape \"unclosed{i} WorldEnd"),
    }
}

fn gen_c08(r: &mut Rng, c: &mut Case) {
    if r.chance(1, 8) {
        let mut d = Case::new("C09");
        gen_scaling(r, &mut d);
        c.ops.extend(scaled(&d).iter().map(|t| Op::Parse(t.clone())));
        c.nums = vec![-8];
        return;
    }
    if r.chance(1, 5) {
        c.nums = vec![r.range(200, 1500) as i64, r.below(8) as i64];
    }
    let n = r.range(2, 24);
    for _ in 0..n {
        let mut d = Case::new("C02");
        let params = r.chance(1, 2);
        gen_damaged(r, &mut d, params);
        let t = match r.below(8) {
            0 => {
                let dep = r.size(40);
                scene::nested(r, dep)
            }
            1 => {
                let u = unit(r);
                let k = if r.chance(1, 20) { r.size(8000) / u.text.chars().count().max(1) + 1 } else { r.range(2, 40) };
                wrap(&u, k, *r.pick(&[0, 12]))
            }
            _ => scene::deliver(&d.base, &d.old, &d.faults).0,
        };
        c.ops.push(Op::Parse(t));
    }
}

pub const PEAK_PER_CHAR: i64 = 300;
pub const PEAK_BASE: i64 = 16 * 1024;
const GROWTH_SLACK: i64 = 4096;
const THREADS_ENDED: u64 = 8;

fn run_c08(c: &Case, st: &mut Stats) -> Option<Violation> {
    let texts: Vec<&String> = c.ops.iter().filter_map(|o| if let Op::Parse(t) = o { Some(t) } else { None }).collect();
    let (many, style) = if c.nums.len() == 2 { (c.nums[0], c.nums[1]) } else { (0, 0) };
    let bud = many as u64 * budget(100) + texts.len() as u64 * 6 * budget(2000) + 3 * texts.iter().map(|t| budget(t.len())).sum::<u64>() + 1_000_000;
    let r = exec::run_custom(&Env { budget: bud, ..Env::default() }, |buf| {
        let mut line = Vec::with_capacity(texts.len() * 4 + 8);
        unsafe {
            os::TRACK = true;
            // warm up whatever is set up once per process
            let warm = std::panic::catch_unwind(|| drop(os::session(|| calls::parse("WorldBegin WorldEnd"))));
            drop(warm);
            let live0 = os::LIVE;
            for (i, t) in texts.iter().enumerate() {
                for rep in 0..3i64 {
                    let (l0, n0) = (os::LIVE, os::NLIVE);
                    os::PEAK = os::LIVE;
                    let ok = std::panic::catch_unwind(|| {
                        let v = os::session(|| calls::parse(t));
                        drop(v);
                    })
                    .is_ok();
                    let (d, n, pk) = (os::LIVE - l0, os::NLIVE - n0, os::PEAK - l0);
                    if ok && rep == 2 && line.len() < line.capacity() {
                        line.push((i as i64, d, n, pk));
                    }
                }
            }
            // a text read before, again and again: twice as many readings as so far, so that a table
            // that doubles has to grow
            let short = texts.iter().min_by_key(|t| t.len()).unwrap();
            let again = if short.len() <= 2000 { 6 * texts.len() as i64 + 8 } else { 0 };
            let l0 = os::LIVE;
            for _ in 0..again {
                let _ = std::panic::catch_unwind(|| {
                    let v = os::session(|| calls::parse(short));
                    drop(v);
                });
            }
            let repeat = os::LIVE - l0;
            for i in 0..many {
                os::TRACK = false;
                let t = distinct(style, i);
                os::TRACK = true;
                let _ = std::panic::catch_unwind(|| {
                    let v = os::session(|| calls::parse(&t));
                    drop(v);
                });
                os::TRACK = false;
                drop(t);
                os::TRACK = true;
            }
            let grow = os::LIVE - live0;
            // threads one after another, each reading the text once and ending
            let mut ended = 0;
            if again > 0 {
                let text: &'static str = std::mem::transmute(short.as_str());
                let mut l0 = os::LIVE;
                for i in 0..THREADS_ENDED {
                    if i == 2 {
                        l0 = os::LIVE;
                    }
                    let gate = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
                    let g = gate.clone();
                    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
                        // not before the starting thread has finished its own part: one at a time
                        while !g.load(std::sync::atomic::Ordering::SeqCst) {
                            std::thread::yield_now();
                        }
                        let _ = std::panic::catch_unwind(|| {
                            let v = os::session(|| calls::parse(text));
                            drop(v);
                        });
                    });
                    gate.store(true, std::sync::atomic::Ordering::SeqCst);
                    if let Ok(h) = h {
                        let _ = h.join();
                    }
                }
                ended = os::LIVE - l0;
            }
            os::TRACK = false;
            for (i, d, n, pk) in line {
                buf.extend_from_slice(format!("NOTE {} {} {} {}\n", i, d, n, pk).as_bytes());
            }
            buf.extend_from_slice(format!("NOTE grow {} 0 0\n", grow).as_bytes());
            buf.extend_from_slice(format!("NOTE again {} {} 0\n", repeat, again).as_bytes());
            buf.extend_from_slice(format!("NOTE ended {} 0 0\n", ended).as_bytes());
        }
    });
    st.ran(&r);
    if crash(&r).is_some() {
        return None; // C09's business
    }
    st.nontrivial.insert(key(c));
    st.fault("reading repeated", 3 * texts.len() as u64);
    st.fault("reading with names never seen before", many as u64);
    let mut peaks = vec![];
    for n in &r.notes {
        let f: Vec<&str> = n.split(' ').collect();
        let v = |k: usize| f[k].parse::<i64>().unwrap_or(0);
        if f[0] == "grow" {
            if v(1) > GROWTH_SLACK {
                return viol("growth", format!("memory in use grew by {} bytes over {} readings", v(1), 3 * texts.len() as i64 + many));
            }
            continue;
        }
        if f[0] == "ended" {
            st.fault("thread that read and ended", THREADS_ENDED);
            if v(1) > 0 {
                return viol("leak", format!("{} threads that each read one text and ended left {} bytes", THREADS_ENDED - 2, v(1)));
            }
            continue;
        }
        if f[0] == "again" {
            st.fault("reading repeated", v(2) as u64);
            if v(1) > 0 {
                return viol("leak", format!("{} more readings of one text left {} bytes", v(2), v(1)));
            }
            continue;
        }
        let t = texts[v(0) as usize];
        if v(1) != 0 || v(2) != 0 {
            return viol("leak", format!("reading text {} once more left {} bytes in {} blocks", v(0), v(1), v(2)));
        }
        peaks.push(v(3));
        let chars = t.chars().count() as i64;
        let lim = PEAK_BASE + PEAK_PER_CHAR * chars;
        let e = st.probes.entry("max peak bytes per character (texts over 500 characters)".into()).or_default();
        if chars > 500 {
            *e = (*e).max((v(3) / chars) as u64);
        }
        if v(3) > lim {
            return viol("peak", format!("reading text {} ({} characters) held {} bytes", v(0), chars, v(3)));
        }
    }
    // the second text is the first with its repeated part eight times as long
    if c.nums == [-8] && texts.len() == 2 && peaks.len() == 2 && texts[1].len() > 4 * texts[0].len() {
        let e = st.probes.entry("max percent of linear growth in memory held".into()).or_default();
        *e = (*e).max((100 * peaks[1] / (8 * peaks[0]).max(1)) as u64);
        if texts[1].len() < 10 * texts[0].len() && peaks[1] > 28 * peaks[0] + 64 * 1024 {
            return viol("peak", format!("{} characters held {} bytes, {} held {}", texts[0].len(), peaks[0], texts[1].len(), peaks[1]));
        }
    }
    None
}

// ---------------------------------------------------------------- C09

fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = r.size(400);
    let kinds = r.range(1, 6);
    const W: [&str; 40] = [
        "WorldBegin", "WorldEnd", "AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd", "Shape", "Texture",
        "Material", "Include", "Translate", "LookAt", "Camera", "ActiveTransform", "Identity", "\"float x\"", "\"rgb L\"",
        "\"point2 p\"", "\"integer i\"", "\"spectrum s\"", "\"bool b\"", "\"string s\"", "\"texture t\"", "\"blackbody k\"",
        "\"true\"", "\"a\"", "[", "]", "1", "-2.5", "1e20", "1e-400", "99999999999999999999", "\"", "#", "\\", "\n", ".", "-", "\u{2028}",
    ];
    const CH: [&str; 24] = [
        "e", "E", "+", "-", ".", "0", "9", "\"", "[", "]", "#", "\n", "\r", "\t", " ", "a", "Z", "é", "日", "😀", "½", "\u{0}", "\u{feff}", "_",
    ];
    for _ in 0..n {
        match r.below(kinds) {
            0 | 1 => {
                s.push_str(*r.pick(&W));
                s.push(' ');
            }
            2 => s.push_str(*r.pick(&CH)),
            3 => s.push(char::from_u32(r.below(0xd000) as u32).unwrap_or('x')),
            4 => s.push(char::from(r.below(128) as u8)),
            _ => {
                // number-like
                for _ in 0..r.range(1, 6) {
                    s.push(*r.pick(&['0', '1', '9', 'e', '.', '-', '+', '5']));
                }
                s.push(' ');
            }
        }
    }
    s
}

/// A family of texts: one piece repeated n and 8n times.
fn gen_scaling(r: &mut Rng, c: &mut Case) {
    let u = unit(r);
    let nests = u.text.contains("Begin ") || u.text.contains("Begin\n");
    let n = if nests { r.range(8, 12) } else { (r.range(600, 4000) / u.text.chars().count().max(1)).clamp(12, 1500) };
    c.base = u.text;
    let depth = if nests { 0 } else { *r.pick(&[0, 0, 0, 1, 5, 40]) };
    c.nums = vec![u.place, n as i64, *r.pick(&[0, 0, 0, 9, 30]), depth];
}
fn scaled(c: &Case) -> [String; 2] {
    let u = Unit { text: c.base.clone(), place: c.nums[0] };
    let n = c.nums[1].max(1) as usize;
    [deepen(&wrap(&u, n, c.nums[2]), c.nums[3]), deepen(&wrap(&u, 8 * n, c.nums[2]), c.nums[3])]
}

/// Eight times the text may take up to sixteen times the steps (room for sorting and such; quadratic work
/// takes up to 64 times as many).
fn run_scaling(c: &Case, st: &mut Stats) -> Option<Violation> {
    let [a, b] = scaled(c);
    let mut got = vec![];
    for t in [&a, &b] {
        let mut env = Env::default();
        env.budget = budget(t.chars().count());
        match one(&env, t, st) {
            Ok(o) => got.push(o),
            Err(v) => return Some(v),
        }
    }
    st.fault("text lengthened", 1);
    st.nontrivial.insert(key(c));
    let (x, y) = (&got[0], &got[1]);
    for o in &got {
        if o.kind == 'P' {
            return viol("panic", show(o));
        }
    }
    if x.kind == y.kind && b.len() > 4 * a.len() {
        for (what, p, q, factor, slack) in [
            ("steps", x.events, y.events, 16, 20_000),
            ("allocations", x.allocs, y.allocs, 16, 2_000),
            ("bytes", x.bytes, y.bytes, 28, 200_000),
        ] {
            let e = st.probes.entry(format!("max percent of linear growth in {}", what)).or_default();
            if p > slack / 2 {
                *e = (*e).max(100 * q / (8 * p));
            }
            if q > factor * p + slack {
                return viol("no-progress", format!(
                    "{} {} for {} characters, {} for {}", what, p, a.chars().count(), q, b.chars().count()));
            }
        }
    }
    None
}

fn gen_c09(r: &mut Rng, c: &mut Case) {
    if r.chance(1, 12) {
        return gen_scaling(r, c);
    }
    match r.below(13) {
        12 => {
            // long
            let u = unit(r);
            let k = r.size(30_000) / u.text.chars().count().max(1) + 1;
            c.base = wrap(&u, k, *r.pick(&[0, 0, 9, 30]));
        }
        0..=3 => {
            c.base = soup(r);
            if r.chance(1, 2) {
                c.base = format!("WorldBegin {}", c.base);
            }
        }
        4 => {
            let u = unit(r);
            let k = r.size(900);
            c.base = wrap(&u, k, *r.pick(&[0, 0, 0, 9, 30]));
            let n = r.below(3);
            for _ in 0..n {
                c.faults.push(Fault::gen(r, c.base.len()));
            }
        }
        5 => {
            let d = r.size(60);
            c.base = scene::nested(r, d);
            let n = r.below(4);
            for _ in 0..n {
                c.faults.push(Fault::gen(r, c.base.len()));
            }
        }
        _ => {
            let params = r.chance(1, 2);
            gen_damaged(r, c, params);
            let n = r.below(8);
            for _ in 0..n {
                c.faults.push(Fault::gen(r, c.base.len()));
            }
        }
    }
}

const BYTES_PER_CHAR: u64 = 2000;

fn run_c09(c: &Case, st: &mut Stats) -> Option<Violation> {
    if c.nums.len() == 4 {
        return run_scaling(c, st);
    }
    let text = delivered(c, st);
    let chars = text.chars().count();
    let mut env = Env::default();
    env.budget = budget(chars);
    let o = match one(&env, &text, st) {
        Ok(o) => o,
        Err(v) => return Some(v),
    };
    st.nontrivial.insert(crate::rng::hash(text.as_bytes()));
    st.probe(match o.kind {
        'O' => "accepted",
        'E' => "refused",
        _ => "panicked",
    });
    if chars > 400 {
        let e = st.probes.entry("max steps per character (texts over 400 characters)".into()).or_default();
        *e = (*e).max(o.events / chars as u64);
    }
    if o.kind == 'P' {
        return viol("panic", show(&o));
    }
    if o.allocs > 10_000 + 60 * chars as u64 {
        return viol("no-progress", format!("{} allocations for {} characters", o.allocs, chars));
    }
    if chars > 400 {
        let e = st.probes.entry("max bytes moved or requested per character (texts over 400 characters)".into()).or_default();
        *e = (*e).max(o.bytes / chars as u64);
    }
    if o.bytes > 1_000_000 + BYTES_PER_CHAR * chars as u64 {
        return viol("no-progress", format!("{} bytes requested or moved for {} characters", o.bytes, chars));
    }
    None
}

// ---------------------------------------------------------------- C10

/// A piece of text that can be repeated, and where (see `wrap`).
#[derive(Clone, Debug)]
pub struct Unit {
    pub text: String,
    pub place: i64,
}

fn unit(r: &mut Rng) -> Unit {
    let mut s = Style::gen(r);
    s.max_dirs = 2;
    s.max_depth = 1;
    let mut g = Gen::new(r, s);
    let (text, place) = match g.r.below(19) {
        16 | 17 => {
            // values where there may be values
            let v = [g.float(), g.r.below(999).to_string(), "\"true\"".into(), "\"false\" ".into(), "\"x y\"".into(), format!("{} {}", g.float(), g.float())];
            (v[g.r.below(6)].clone() + " ", 11 + g.r.below(LISTS.len()) as i64)
        }
        18 => {
            let d = *g.r.pick(&["Include \"a\" ", "Shape \"s\"\n", "Texture \"a\" \"b\" \"c\" ", "Material \"\" ", "Include \"a\"\nShape \"s\"\n", "AttributeBegin AttributeEnd "]);
            (d.to_string(), 0)
        }
        0 => ("# note\n".to_string(), g.r.below(3) as i64),
        1 => ([" ", "\n", "\t", "\r\n", " \n", "\u{a0}"][g.r.below(6)].to_string(), g.r.below(3) as i64),
        2 => {
            let t = ["#\n\n  ", "# a\n#b\n", " #x\r\n", "# \" [\n\t"][g.r.below(4)].to_string();
            (t, g.r.below(3) as i64)
        }
        3 => {
            g.directive(0);
            (g.out + "\n", 0)
        }
        4 => {
            g.pre();
            (g.out + "\n", 1)
        }
        5 => {
            g.param();
            (g.out + " ", 2)
        }
        6 => {
            let v = g.float();
            (format!("{} ", v), 3)
        }
        7 => ("\"s\" ".to_string(), 4),
        8 => (["x", "é", "\\n", "\\\\", "a b", "\n", "\r\n"][g.r.below(7)].to_string(), 5),
        9 => (["7", "0", "1e"][g.r.below(3)].to_string(), 6),
        10 => (["ab", "Z9", "ß"][g.r.below(3)].to_string(), 7),
        14 => {
            // anything at all, anywhere
            let mut t = soup(g.r);
            let n = g.r.range(1, 12);
            t = t.chars().take(n).collect();
            (t, g.r.below(11) as i64)
        }
        15 => (["+", "-", ".", "[", "]", "\"", "] [", "[ ]", "\"float f\" ", "[ 1", "\\\"", "e", "1 e", "-1 ", "\"a\" \"b\" "][g.r.below(15)].to_string(), g.r.below(10) as i64),
        13 => (["AttributeBegin ", "TransformBegin\n", "WorldBegin ", "AttributeBegin Shape \"s\" "][g.r.below(4)].to_string(), 10 * (g.r.below(2) as i64)),
        11 => {
            let v = (g.float(), g.float());
            (format!("{} {} ", v.0, v.1), 8)
        }
        _ => (" #c\n".to_string(), 9),
    };
    Unit { text, place }
}

/// What values can follow.
const LISTS: [&str; 14] = [
    "Translate", "Rotate", "LookAt", "Transform", "ConcatTransform", "TransformTimes", "integer", "bool", "point2", "vector2", "rgb",
    "spectrum", "blackbody", "texture",
];

fn wrap(u: &Unit, n: usize, cut: i64) -> String {
    let x = u.text.repeat(n);
    let mut s = match u.place {
        0 => format!("WorldBegin\n{}WorldEnd\n", x),
        1 => format!("{}WorldBegin Shape \"s\" WorldEnd\n", x),
        2 => format!("WorldBegin Shape \"s\" {} AttributeBegin AttributeEnd WorldEnd\n", x),
        3 => format!("WorldBegin Shape \"s\" \"float f\" [ {}] WorldEnd\n", x),
        4 => format!("WorldBegin Shape \"s\" \"string f\" [ {}] WorldEnd\n", x),
        5 => format!("WorldBegin Shape \"s{}\" WorldEnd\n", x),
        6 => format!("WorldBegin Shape \"s\" \"float f\" {} WorldEnd\n", x),
        7 => format!("ActiveTransform {}\nWorldBegin WorldEnd\n", x),
        10 => {
            // properly closed
            let w = u.text.split_whitespace().next().unwrap_or("").replace("Begin", "End ");
            format!("WorldBegin\n{}{}WorldEnd\n", x, w.repeat(n))
        }
        k if k >= 11 => {
            let w = LISTS[(k as usize - 11) % LISTS.len()];
            if w.starts_with(char::is_uppercase) {
                format!("{} {}\nWorldBegin WorldEnd\n", w, x)
            } else {
                format!("WorldBegin Shape \"s\" \"{} f\" [ {}] WorldEnd\n", w, x)
            }
        }
        8 => format!("WorldBegin Shape \"s\" \"point2 f\" [ {}] \"spectrum g\" [ {}] WorldEnd\n", x, x),
        _ => format!("WorldBegin Shape \"s\" \"float f\" [ 1 {} ] WorldEnd {}", x, x),
    };
    // the same piece is missing at the end whatever the length
    if cut > 0 {
        let mut k = s.len().saturating_sub(cut as usize);
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
    }
    s
}

fn gen_c10(r: &mut Rng, c: &mut Case) {
    let u = unit(r);
    c.base = u.text;
    c.nums = vec![u.place, r.range(8, 40) as i64, r.range(8, 40) as i64, *r.pick(&[0, 0, 0, 9, 20]), r.range(0, 8) as i64];
}

const STACK_SLACK: usize = 8 * 1024;
/// The default of std::thread.
const SMALL_STACK: usize = 2 * 1024 * 1024;

/// Blocks around the repeated part.
fn deepen(s: &str, depth: i64) -> String {
    if depth == 0 || !s.contains("WorldBegin") {
        return s.to_string();
    }
    let d = depth as usize;
    let a = format!("WorldBegin {}", "AttributeBegin ".repeat(d));
    let b = format!(" {}WorldEnd", "AttributeEnd ".repeat(d));
    match (s.find("WorldBegin"), s.rfind("WorldEnd")) {
        (Some(i), Some(j)) if j > i => format!("{}{}{}{}{}", &s[..i], a, &s[i + 10..j], b, &s[j + 8..]),
        _ => s.to_string(),
    }
}

/// Stack bytes per level of nesting, as built here, for the code as first seen.
const LEVEL: usize = if cfg!(debug_assertions) { 13_000 } else { 6_000 };

fn stack_of(t: &str, st: &mut Stats) -> Option<usize> {
    let r = exec::run_custom(&Env { budget: 4 * budget(t.len()), ..Env::default() }, |buf| {
        let t = t.to_string();
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let top = 0u8;
            exec::call(&Op::Parse(t));
            os::stack_used(&top as *const u8 as usize)
        });
        if let Ok(u) = h.expect("spawn").join() {
            buf.extend_from_slice(format!("NOTE {}\n", u).as_bytes());
        }
    });
    st.ran(&r);
    r.notes.first().and_then(|n| n.parse().ok())
}

/// The frames of an unoptimised build are several times those of an optimised one and change with every
/// local variable; the check is about their number.  A small stack is made larger, up to a quarter, by the
/// factor by which one level of nesting has grown.
fn small_stack(st: &mut Stats) -> usize {
    let t = |n: usize| format!("WorldBegin {}{}WorldEnd", "AttributeBegin ".repeat(n), "AttributeEnd ".repeat(n));
    match (stack_of(&t(20), st), stack_of(&t(60), st)) {
        (Some(a), Some(b)) if b > a => {
            let level = (b - a) / 40;
            let e = st.probes.entry("max stack bytes per level of nesting".into()).or_default();
            *e = (*e).max(level as u64);
            SMALL_STACK * level.clamp(LEVEL, LEVEL * 5 / 4) / LEVEL
        }
        _ => SMALL_STACK,
    }
}

fn run_c10(c: &Case, st: &mut Stats) -> Option<Violation> {
    if c.nums.len() < 5 {
        return None;
    }
    let u = Unit { text: c.base.clone(), place: c.nums[0] };
    let n1 = c.nums[1].max(1) as usize;
    let n2 = n1 * c.nums[2].max(2) as usize;
    let sizes = [n1, n2, 2 * n2];
    let texts: Vec<String> = sizes.iter().map(|n| deepen(&wrap(&u, *n, c.nums[3]), c.nums[4])).collect();
    st.fault("text lengthened", 1);
    st.nontrivial.insert(key(c));
    let mut used = [0usize; 3];
    let mut kinds = [' '; 3];
    for (i, t) in texts.iter().enumerate() {
        let r = exec::run_custom(&Env { budget: 4 * budget(t.len()), ..Env::default() }, |buf| {
            let t = t.clone();
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let top = 0u8;
                let o = exec::call(&Op::Parse(t));
                (o.kind, os::stack_used(&top as *const u8 as usize))
            });
            if let Ok((k, u)) = h.expect("spawn").join() {
                buf.extend_from_slice(format!("NOTE {} {}\n", k, u).as_bytes());
            }
        });
        st.ran(&r);
        if let Some(v) = crash(&r) {
            // anything but running out of a quarter gigabyte of stack is C09's business
            if r.end == End::Signal(6) || r.end == End::Signal(11) {
                return viol("stack-exhausted", format!("{} repetitions exhausted 256 MiB: {}", sizes[i], v.detail));
            }
            return None;
        }
        let Some(n) = r.notes.first() else { return None };
        let f: Vec<&str> = n.split(' ').collect();
        kinds[i] = f[0].chars().next().unwrap_or(' ');
        used[i] = f[1].parse().unwrap_or(0);
    }
    let e = st.probes.entry("max stack bytes used".into()).or_default();
    *e = (*e).max(used[2] as u64);
    let nests = u.text.contains("Begin");
    if !nests && used[1] > used[0] + STACK_SLACK && used[2] > used[1] + STACK_SLACK {
        return viol("stack-grows", format!("{:?} repetitions needed {:?} bytes of stack", sizes, used));
    }
    // the same long text on a thread with a small stack
    let t = texts[2].clone();
    let size = if nests { small_stack(st) } else { SMALL_STACK };
    let small = exec::run_custom(&Env { budget: 4 * budget(t.len()), ..Env::default() }, |buf| {
        let h = std::thread::Builder::new().stack_size(size).spawn(move || exec::call(&Op::Parse(t)).kind);
        if let Ok(k) = h.expect("spawn").join() {
            buf.extend_from_slice(format!("NOTE {}\n", k).as_bytes());
        }
    });
    st.ran(&small);
    st.fault("small stack", 1);
    if let End::Signal(_) = small.end {
        return viol("stack-exhausted", format!("{} repetitions exhausted a stack of {} bytes", sizes[2], size));
    }
    if let Some(k) = small.notes.first() {
        if k.chars().next() != Some(kinds[2]) {
            return viol("differs", format!("outcome {} on a small stack, {} on a large one", k, kinds[2]));
        }
    }
    None
}

// ---------------------------------------------------------------- C11

pub const WFAULTS: [&str; 8] = ["short write", "EINTR", "EPIPE", "ENOSPC", "EIO", "EAGAIN", "write returns 0", "malloc fails"];

fn gen_c11(r: &mut Rng, c: &mut Case) {
    // plan entries: (call number, what, amount)
    let n = *r.pick(&[0, 1, 1, 2, 3, 6, 12, 40]);
    let fatal = r.chance(1, 2);
    for _ in 0..n {
        let what = if fatal && r.chance(1, 4) { r.range(2, 6) } else { r.below(2) };
        c.plan.push((r.below(60) as u64, what as u64, 1 + r.below(9) as u64));
    }
    if r.chance(1, 8) {
        c.plan.push((r.below(90) as u64, 7, *r.pick(&[1, 1_000_000])));
    }
    if r.chance(1, 6) {
        // every write is short
        for k in 0..200 {
            c.plan.push((k, 0, 1 + r.below(3) as u64));
        }
    }
    c.plan.sort();
    c.plan.dedup_by_key(|x| (x.0, x.1 == 7));
}

pub fn expected_output() -> String {
    // what the program computes, through the library it is built on
    let m = pbrtrs::Matrix4::new([[7i64, 1, 9, 5], [4, 5, 2, 4], [3, 7, 8, 8], [1, 9, 8, 9]]);
    format!("{:#?}\n", m.inverse())
}

fn run_c11(c: &Case, st: &mut Stats) -> Option<Violation> {
    use std::io::Read;
    use std::process::{Command, Stdio};
    let want = expected_output();
    let bin = std::env::var("SIM_PBRT").expect("SIM_PBRT");
    let shim = std::env::var("SIM_SHIM").expect("SIM_SHIM");
    let plan: Vec<String> = c.plan.iter().map(|p| format!("{},{},{}", p.0, p.1, p.2)).collect();
    let mut child = match Command::new(&bin)
        .env_clear()
        .env("LD_PRELOAD", &shim)
        .env("SHIM_PLAN", plan.join(";"))
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start {}: {}", bin, e);
            std::process::exit(2);
        }
    };
    let mut out = vec![];
    let mut err = String::new();
    let _ = child.stdout.take().unwrap().read_to_end(&mut out);
    let mut eb = vec![];
    let _ = child.stderr.take().unwrap().read_to_end(&mut eb);
    err.push_str(&String::from_utf8_lossy(&eb));
    let status = child.wait().ok()?;
    st.runs += 1;
    let mut fatal = false;
    let mut fired = 0;
    // the shim reports on standard error what it injected and how many writes it saw
    for l in err.lines() {
        if let Some(k) = l.strip_prefix("SHIM-FIRED ") {
            let k: usize = k.parse().unwrap_or(0);
            st.fault(WFAULTS[k % 8], 1);
            fired += 1;
            if k >= 2 {
                fatal = true;
            }
        }
        if let Some(k) = l.strip_prefix("SHIM-WRITES ") {
            st.events += k.parse::<u64>().unwrap_or(0);
        }
    }
    if fired > 0 {
        st.nontrivial.insert(key(c));
    }
    st.digest = crate::rng::mix(st.digest ^ crate::rng::hash(format!("{:?} {:?} {}", status, out, fired).as_bytes()));
    let ok = status.success();
    let full = out == want.as_bytes();
    if ok && !full {
        return viol(
            "success-without-output",
            format!("exit status 0, but {} of {} bytes were delivered{}", out.len(), want.len(),
                if want.as_bytes().starts_with(&out) { "" } else { " and they differ" }),
        );
    }
    if !ok && !fatal {
        return viol("fails-needlessly", format!("{} although only short or interrupted writes occurred", status));
    }
    if !want.as_bytes().starts_with(&out) {
        return viol("not-a-prefix", format!("{} bytes were delivered that are not a prefix of the output", out.len()));
    }
    st.probe(if ok { "complete" } else { "failed with a status" });
    None
}

// ---------------------------------------------------------------- C12

fn gen_c12(r: &mut Rng, c: &mut Case) {
    let params = r.chance(1, 2);
    gen_damaged(r, c, params);
    if r.chance(1, 6) {
        // every ending rewritten, and one of them, preferably inside a string, across the end of a buffer
        let inside: Vec<usize> = scene::words(c.base.as_bytes())
            .into_iter()
            .flat_map(|(s, e)| (s..e).filter(|k| c.base.as_bytes()[*k] == b'\n').collect::<Vec<_>>())
            .collect();
        let any: Vec<usize> = c.base.match_indices('\n').map(|x| x.0).collect();
        let from = if inside.is_empty() { any } else { inside };
        if !from.is_empty() {
            let at = *r.pick(&from);
            let bytes = r.chance(1, 2);
            let head = &c.base[..at];
            // the CR will stand right before this place
            let off = if bytes { head.len() } else { head.chars().count() } + head.matches('\n').count();
            c.base = scene::pad_to(r, &c.base, off, 1);
            c.faults.clear();
            for k in 0..c.base.matches('\n').count() as u64 {
                c.plan.push((k, 1, 0));
            }
            return;
        }
    }
    if r.chance(1, 2) {
        c.faults.clear();
    }
    let n = scene::deliver(&c.base, &c.old, &c.faults).0.matches('\n').count() as u64;
    let mode = r.below(4);
    let mut k = 0;
    while k < n.max(1) && c.plan.len() < 400 {
        let crs = match mode {
            0 => 1,
            1 => r.below(2) as u64,
            2 => (r.below(6) == 0) as u64,
            _ => r.below(3) as u64,
        };
        if crs > 0 {
            c.plan.push((k, crs, 0));
        }
        k += 1;
    }
}

fn run_c12(c: &Case, st: &mut Stats) -> Option<Violation> {
    let text = delivered(c, st).replace('\r', "");
    let mut twice = false;
    let mut other = String::new();
    let mut k = 0u64;
    for ch in text.chars() {
        if ch == '\n' {
            if let Some(p) = c.plan.iter().find(|p| p.0 == k) {
                for _ in 0..p.1.min(2) {
                    other.push('\r');
                }
                twice |= p.1 > 1;
                st.fault(if p.1 > 1 { "line ending rewritten twice" } else { "line ending rewritten" }, 1);
            }
            k += 1;
        }
        other.push(ch);
    }
    if other == text {
        return None;
    }
    let env = Env { budget: budget(other.chars().count()), ..Env::default() };
    let (a, b) = match (one(&env, &text, st), one(&env, &other, st)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return None,
        (Ok(_), Err(v)) | (Err(v), Ok(_)) => return Some(v),
    };
    st.nontrivial.insert(crate::rng::hash(other.as_bytes()));
    if twice {
        // promised for scenes (not for errors) without line breaks in strings
        let lx = model::lex(&text);
        if a.kind != 'O' || !clean_strings(&text) || lx.bad.is_some() {
            return None;
        }
    }
    if !same(&a, &b) {
        return viol("differs", format!("with LF: {}; rewritten: {}", show(&a), show(&b)));
    }
    st.probe(if a.kind == 'O' { "accepted either way" } else { "refused either way" });
    None
}

fn clean_strings(t: &str) -> bool {
    scene::words(t.as_bytes()).iter().all(|(s, e)| !t.as_bytes()[*s..*e].contains(&b'\n'))
}
