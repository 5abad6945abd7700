//! Seeded search over cases, minimisation, replay, and the numbers for the evidence file.
use crate::case::{esc, Case};
use crate::os;
use crate::props::{self, Stats, Violation};
use crate::rng::Rng;
use crate::scene;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn waitpid(pid: i32, st: *mut i32, opts: i32) -> i32;
    fn execv(path: *const std::ffi::c_char, argv: *const *const std::ffi::c_char) -> i32;
}

/// Runs of one seed must not differ in addresses: switch off address randomisation and start over.
pub fn fixed_addresses() {
    const ADDR_NO_RANDOMIZE: usize = 0x0040000;
    unsafe {
        let p = os::raw(135, 0xffffffff, 0, 0, 0, 0, 0);
        if p < 0 || p as usize & ADDR_NO_RANDOMIZE != 0 || std::env::var_os("SIM_REEXEC").is_some() {
            return;
        }
        if os::raw(135, p as usize | ADDR_NO_RANDOMIZE, 0, 0, 0, 0, 0) < 0 {
            return;
        }
        std::env::set_var("SIM_REEXEC", "1");
        let args: Vec<std::ffi::CString> =
            std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut argv: Vec<*const std::ffi::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        argv.push(std::ptr::null());
        execv(b"/proc/self/exe\0".as_ptr() as *const _, argv.as_ptr());
    }
}

fn shared(n: usize) -> &'static [AtomicU64] {
    unsafe {
        let p = os::raw(9, 0, n * 8, 3, 0x21, usize::MAX, 0);
        assert!(p > 0, "mmap");
        std::slice::from_raw_parts(p as *const AtomicU64, n)
    }
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let num = |k: &str, d: u64| get(k).map(|v| v.parse().expect("number")).unwrap_or(d);
    match a.get(1).map(|s| &s[..]) {
        Some("run") => {
            let prop = get("--prop").expect("--prop");
            search(
                &prop,
                num("--seed", 1),
                num("--start", 0),
                num("--cases", 100),
                num("--workers", 8),
                num("--wall", 600),
                &get("--out").unwrap_or_default(),
                &get("--replay-dir").unwrap_or_else(|| ".".into()),
            )
        }
        Some("show") => {
            let prop = get("--prop").expect("--prop");
            let mut r = Rng::new(num("--seed", 1), props::stream(&prop), num("--index", 0));
            print!("{}", props::gen(&prop, &mut r).write());
            0
        }
        Some("replay") => replay(&a[2]),
        _ => {
            eprintln!("usage: sim run|show|replay ...");
            2
        }
    }
}

fn case_of(prop: &str, seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed, props::stream(prop), i);
    props::gen(prop, &mut r)
}

/// One worker: cases first, first+step, ... below n.
#[allow(clippy::too_many_arguments)]
fn worker(prop: &str, seed: u64, first: u64, step: u64, n: u64, min: &AtomicU64, stop: Instant, file: &str) {
    let mut st = Stats::default();
    let mut audited = 0u64;
    let mut unstable = vec![];
    let mut found: Option<(u64, Violation)> = None;
    let mut i = first;
    let mut cut = false;
    while i < n {
        if i > min.load(SeqCst) {
            break;
        }
        if Instant::now() > stop {
            cut = true;
            break;
        }
        let c = case_of(prop, seed, i);
        if st.samples.len() < 2 && i / step % 97 == 3 {
            st.samples.push(c.write());
        }
        let d0 = st.digest;
        st.digest = 0;
        let v = props::run(&c, &mut st);
        let d = st.digest;
        st.digest = d0 ^ d;
        // determinism audit: the same case again must give the same execution
        if v.is_some() || i / step % 41 == 0 {
            let mut again = Stats::default();
            let v2 = props::run(&c, &mut again);
            audited += 1;
            let same = match (&v, &v2) {
                (None, None) => again.digest == d,
                (Some(x), Some(y)) => x.class == y.class,
                _ => false,
            };
            if !same {
                unstable.push(i);
            }
            if let (Some(x), Some(_)) = (v, v2) {
                min.fetch_min(i, SeqCst);
                found = Some((i, x));
                break;
            }
        }
        i += step;
    }
    let mut s = String::new();
    s.push_str(&format!("evals {}\nruns {}\nevents {}\nswitches {}\n", st.evals, st.runs, st.events, st.switches));
    s.push_str(&format!("audited {}\ncut {}\n", audited, cut as u64));
    s.push_str(&format!("digest {}\n", st.digest));
    for u in unstable {
        s.push_str(&format!("unstable {}\n", u));
    }
    for h in &st.nontrivial {
        s.push_str(&format!("nt {}\n", h));
    }
    for h in &st.interleavings {
        s.push_str(&format!("il {}\n", h));
    }
    for (k, v) in &st.faults {
        s.push_str(&format!("fault {} {}\n", v, k));
    }
    for (k, v) in &st.probes {
        s.push_str(&format!("probe {} {}\n", v, k));
    }
    for x in &st.samples {
        s.push_str(&format!("sample {}\n", esc(x)));
    }
    if let Some((i, v)) = found {
        s.push_str(&format!("found {} {} {}\n", i, v.class, esc(&v.detail)));
    }
    s.push_str("complete\n");
    std::fs::write(file, s).expect("write worker file");
}

#[allow(clippy::too_many_arguments)]
fn search(prop: &str, seed: u64, start: u64, cases: u64, workers: u64, wall: u64, out: &str, replays: &str) -> i32 {
    let t0 = Instant::now();
    os::cov_init();
    if prop == "C04" {
        let n = os::find_shared();
        if std::env::var_os("SIM_DEBUG").is_some() { eprintln!("shared edges: {} of {}", n, os::guards()); }
    }
    let sh = shared(1);
    sh[0].store(u64::MAX, SeqCst);
    let dir = std::env::temp_dir().join(format!("sim-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let stop = t0 + Duration::from_secs(wall);
    let mut pids = vec![];
    for w in 0..workers {
        let file = dir.join(format!("w{}", w)).to_string_lossy().into_owned();
        let pid = unsafe { os::fork() };
        if pid == 0 {
            worker(prop, seed, start + w, workers, start + cases, &sh[0], stop, &file);
            os::exit_now(0);
        }
        if pid < 0 {
            eprintln!("fork failed");
            return 2;
        }
        pids.push(pid);
    }
    let mut broken = false;
    for p in pids {
        let mut st = 0;
        while unsafe { waitpid(p, &mut st, 0) } < 0 {}
        broken |= st != 0;
    }
    let mut st = Stats::default();
    let (mut audited, mut cut, mut digest) = (0u64, 0u64, 0u64);
    let mut unstable: Vec<u64> = vec![];
    let mut found: Option<(u64, String, String)> = None;
    for w in 0..workers {
        let Ok(s) = std::fs::read_to_string(dir.join(format!("w{}", w))) else {
            broken = true;
            continue;
        };
        broken |= !s.ends_with("complete\n");
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let n = || v.parse::<u64>().unwrap_or(0);
            match k {
                "evals" => st.evals += n(),
                "runs" => st.runs += n(),
                "events" => st.events += n(),
                "switches" => st.switches += n(),
                "audited" => audited += n(),
                "cut" => cut += n(),
                "digest" => digest ^= n(),
                "unstable" => unstable.push(n()),
                "nt" => {
                    st.nontrivial.insert(n());
                }
                "il" => {
                    st.interleavings.insert(n());
                }
                "fault" | "probe" => {
                    let (c, name) = v.split_once(' ').unwrap_or(("0", v));
                    let c: u64 = c.parse().unwrap_or(0);
                    let m: &mut BTreeMap<String, u64> = if k == "fault" { &mut st.faults } else { &mut st.probes };
                    let e = m.entry(name.into()).or_default();
                    *e = if name.starts_with("max ") { (*e).max(c) } else { *e + c };
                }
                "sample" => {
                    if st.samples.len() < 3 {
                        st.samples.push(crate::case::unesc(v))
                    }
                }
                "found" => {
                    let f: Vec<&str> = v.splitn(3, ' ').collect();
                    let i = f[0].parse::<u64>().unwrap();
                    if found.as_ref().map(|x| i < x.0).unwrap_or(true) {
                        found = Some((i, f[1].to_string(), crate::case::unesc(f[2])));
                    }
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if broken {
        eprintln!("a worker of the simulator failed");
        return 2;
    }
    let searched = t0.elapsed().as_secs_f64();
    let mut replay_path = String::new();
    if let Some((i, class, detail)) = &found {
        let c = case_of(prop, seed, *i);
        let (small, v) = minimise(&c, class, 60);
        let v = v.unwrap_or(Violation { class: class.clone(), detail: detail.clone() });
        std::fs::create_dir_all(replays).expect("replay dir");
        replay_path = format!("{}/{}-{}-seed{}-{}.case", replays, prop, config(), seed, i);
        let mut text = small.write();
        text.push_str(&format!("seed {}\nindex {}\nclass {}\ndetail {}\n", seed, i, v.class, esc(&v.detail)));
        if !small.base.is_empty() {
            text.push_str(&format!("delivered {}\n", esc(&scene::deliver(&small.base, &small.old, &small.faults).0)));
        }
        std::fs::write(&replay_path, text).expect("write replay");
        eprintln!("violation [{}] {}", v.class, v.detail);
    }
    unstable.sort();
    let mut j = String::from("{");
    let q = |s: &str| {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    };
    let map = |m: &BTreeMap<String, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", "))
    };
    j.push_str(&format!(
        "\"config\": {}, \"seed\": {}, \"cases_planned\": {}, \"evaluations\": {}, \"runs\": {}, \"steps\": {}, \"switches\": {}, \
         \"distinct_nontrivial\": {}, \"distinct_interleavings\": {}, \"edges_reached\": {}, \"edges_total\": {}, \"search_s\": {:.3}, \
         \"wall_s\": {:.3}, \"cut_by_wall\": {}, \"audited\": {}, \"unstable\": {:?}, \"digest\": {}, \"faults\": {}, \"probes\": {}, \"samples\": [{}], \
         \"violation\": {}",
        q(config()), seed, cases, st.evals, st.runs, st.events, st.switches, st.nontrivial.len(), st.interleavings.len(),
        os::cov_count(), os::guards(), searched, t0.elapsed().as_secs_f64(), cut > 0, audited, unstable, digest,
        map(&st.faults), map(&st.probes), st.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "),
        if let Some((i, c, d)) = &found {
            format!("{{\"index\": {}, \"class\": {}, \"detail\": {}, \"replay\": {}}}", i, q(c), q(d), q(&replay_path))
        } else {
            "null".into()
        }
    ));
    j.push_str("}\n");
    if out.is_empty() {
        print!("{}", j);
    } else {
        std::fs::write(out, j).expect("write out");
    }
    if found.is_some() {
        1
    } else {
        0
    }
}

pub fn config() -> &'static str {
    match (cfg!(feature = "f64"), cfg!(debug_assertions)) {
        (false, true) => "f32",
        (true, true) => "f64",
        (false, false) => "f32-release",
        (true, false) => "f64-release",
    }
}

fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let Some(c) = Case::read(&text) else {
        eprintln!("not a case file: {}", path);
        return 2;
    };
    let mut st = Stats::default();
    match props::run(&c, &mut st) {
        Some(v) => {
            println!("reproduced property={} class={} digest={:x}\n{}", c.prop, v.class, st.digest, v.detail);
            1
        }
        None => {
            println!("not reproduced property={} digest={:x}", c.prop, st.digest);
            0
        }
    }
}

// ---------------------------------------------------------------- minimisation

struct Min {
    class: String,
    stop: Instant,
    best: Case,
    v: Option<Violation>,
}

impl Min {
    fn over(&self) -> bool {
        Instant::now() > self.stop
    }
    fn attempt(&mut self, c: Case) -> bool {
        if self.over() || c == self.best {
            return false;
        }
        let mut st = Stats::default();
        match props::run(&c, &mut st) {
            Some(v) if v.class == self.class => {
                self.best = c;
                self.v = Some(v);
                true
            }
            _ => false,
        }
    }
    /// Drops chunks of a vector inside the case, large chunks first.
    fn drop_from<T: Clone>(&mut self, get: fn(&Case) -> Vec<T>, set: fn(&mut Case, Vec<T>)) {
        let mut size = get(&self.best).len();
        while size > 0 && !self.over() {
            let mut i = 0;
            while i < get(&self.best).len() && !self.over() {
                let mut v = get(&self.best);
                let e = (i + size).min(v.len());
                v.drain(i..e);
                let mut c = self.best.clone();
                set(&mut c, v);
                if !self.attempt(c) {
                    i += size;
                }
            }
            size /= 2;
        }
    }
    fn shorten(&mut self, get: &dyn Fn(&Case) -> String, set: &dyn Fn(&mut Case, String)) {
        let mut size = get(&self.best).chars().count() / 2;
        while size > 0 && !self.over() {
            let mut i = 0;
            loop {
                let v: Vec<char> = get(&self.best).chars().collect();
                if i >= v.len() || self.over() {
                    break;
                }
                let e = (i + size).min(v.len());
                let t: String = v[..i].iter().chain(&v[e..]).collect();
                let mut c = self.best.clone();
                set(&mut c, t);
                if !self.attempt(c) {
                    i += size;
                }
            }
            size /= 2;
        }
    }
}

pub fn minimise(c: &Case, class: &str, secs: u64) -> (Case, Option<Violation>) {
    let mut st = Stats::default();
    let v = props::run(c, &mut st);
    let mut m = Min { class: class.into(), stop: Instant::now() + Duration::from_secs(secs), best: c.clone(), v };
    for _ in 0..3 {
        let before = m.best.clone();
        m.drop_from(|c| c.faults.clone(), |c, v| c.faults = v);
        m.drop_from(|c| c.plan.clone(), |c, v| c.plan = v);
        m.drop_from(|c| c.threads.clone(), |c, v| c.threads = v);
        for t in 0..m.best.threads.len() {
            let mut i = 0;
            while t < m.best.threads.len() && i < m.best.threads[t].len() && !m.over() {
                let mut size = m.best.threads[t].len() - i;
                let mut done = false;
                while size > 0 {
                    let mut c = m.best.clone();
                    c.threads[t].drain(i..i + size);
                    if m.attempt(c) {
                        done = true;
                        break;
                    }
                    size /= 2;
                }
                if !done {
                    i += 1;
                }
            }
        }
        m.drop_from(|c| c.env.preempt.clone(), |c, v| c.env.preempt = v);
        if c.prop == "C08" {
            m.drop_from(|c| c.ops.clone(), |c, v| c.ops = v);
        } else if c.prop == "C06" && m.best.ops.len() > 1 {
            m.drop_from(|c| c.ops.clone(), |c, v| c.ops = v);
        } else {
            // unused calls
            let used: std::collections::HashSet<usize> = m.best.threads.iter().flatten().cloned().collect();
            if !m.best.threads.is_empty() {
                let keep: Vec<usize> = (0..m.best.ops.len()).filter(|i| used.contains(i)).collect();
                let mut c = m.best.clone();
                c.ops = keep.iter().map(|i| m.best.ops[*i].clone()).collect();
                for t in c.threads.iter_mut() {
                    for x in t.iter_mut() {
                        *x = keep.iter().position(|k| k == x).unwrap();
                    }
                }
                m.attempt(c);
            }
        }
        let d = os::Env::default();
        for f in 0..8 {
            let mut c = m.best.clone();
            match f {
                0 => c.env.fill = None,
                1 => c.env.junk = 0,
                2 => {
                    c.env.clock0 = d.clock0;
                    c.env.clock_step = d.clock_step;
                    c.env.clock_jump = 0;
                    c.env.clock_jump_at = d.clock_jump_at;
                }
                3 => c.env.entropy = d.entropy,
                4 => {
                    c.env.envvars = 0;
                    c.env.word = String::new();
                }
                5 => c.env.place.0 = 0,
                6 => c.env.place.1 = 0,
                _ => c.env.fs = 0,
            }
            m.attempt(c);
        }
        let mut c1 = m.best.clone();
        c1.old = String::new();
        m.attempt(c1);
        m.shorten(&|c| c.base.clone(), &|c, v| c.base = v);
        m.shorten(&|c| c.old.clone(), &|c, v| c.old = v);
        for k in 0..m.best.ops.len() {
            if let crate::exec::Op::Parse(_) = m.best.ops[k] {
                m.shorten(
                    &|c| if let Some(crate::exec::Op::Parse(t)) = c.ops.get(k) { t.clone() } else { String::new() },
                    &|c, v| c.ops[k] = crate::exec::Op::Parse(v),
                );
            }
        }
        for k in 0..m.best.nums.len() {
            while m.best.nums[k] > 1 {
                let mut c = m.best.clone();
                c.nums[k] /= 2;
                if !m.attempt(c) {
                    break;
                }
            }
        }
        if m.best == before || m.over() {
            break;
        }
    }
    (m.best, m.v)
}
