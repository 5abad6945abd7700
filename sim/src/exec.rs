//! Runs calls into the code under test in a forked child under a simulated environment.
use crate::os::{self, Env};
use crate::rng::Rng;
use calls::{Float, Render};
use pbrtrs::Matrix4;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Parse(String),
    /// kind: 0 inverse (integer), 1 inverse (float), 2 mul, 3 add, 4 transpose, 5 mul (integer)
    Mat(u8, [i64; 16], [i64; 16]),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    /// O value, E error, P panic
    pub kind: char,
    pub text: String,
    pub events: u64,
    pub allocs: u64,
    /// Bytes requested, moved or copied.
    pub bytes: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Die(String),
    Signal(i32),
    Exit(i32),
    Timeout,
}

#[derive(Clone, Debug)]
pub struct RunOut {
    /// (thread, op index in the thread, outcome), in order of completion.
    pub outs: Vec<(usize, usize, Out)>,
    pub end: End,
    pub events: u64,
    pub switches: u64,
    pub switch_hash: u64,
    pub alloc_failed: u64,
    pub env_touch: u64,
    pub blocks: u64,
    pub effects: Vec<String>,
    pub notes: Vec<String>,
}

extern "C" {
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opts: i32) -> i32;
    fn poll(f: *mut PollFd, n: u64, ms: i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn dup2(a: i32, b: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

/// Forks; the child runs `f` with a pipe descriptor and exits; the parent gets what it wrote.
pub fn in_child(timeout_ms: i32, f: impl FnOnce(i32)) -> (Vec<u8>, End) {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            eprintln!("pipe failed");
            std::process::exit(2);
        }
        let pid = os::fork();
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            close(fds[0]);
            let z = os::open(b"/dev/null\0".as_ptr() as usize, 1, 0) as i32;
            dup2(z, 2);
            os::REPORT_FD = fds[1];
            std::panic::set_hook(Box::new(|_| {
                os::HOOKED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            }));
            f(fds[1]);
            os::exit_now(0);
        }
        close(fds[1]);
        let mut data = vec![];
        let mut buf = [0u8; 65536];
        let mut timeout = false;
        loop {
            let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
            let k = poll(&mut p, 1, timeout_ms);
            if k < 0 {
                continue;
            }
            if k == 0 {
                timeout = true;
                os::kill(pid as usize, 9);
                break;
            }
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n < 0 {
                continue;
            }
            if n == 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        let end = if timeout {
            End::Timeout
        } else if st & 0x7f != 0 {
            End::Signal(st & 0x7f)
        } else if (st >> 8) & 0xff == 70 {
            let s = String::from_utf8_lossy(&data).into_owned();
            let w = s.lines().rev().find(|l| l.starts_with("DIE ")).unwrap_or("DIE ?").to_string();
            End::Die(w[4..].to_string())
        } else if (st >> 8) & 0xff != 0 {
            End::Exit((st >> 8) & 0xff)
        } else {
            End::Done
        };
        (data, end)
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

fn fm(m: &[i64; 16]) -> Matrix4<Float> {
    let mut a = [[0.0 as Float; 4]; 4];
    for i in 0..16 {
        a[i / 4][i % 4] = m[i] as Float / 8.0;
    }
    Matrix4::new(a)
}
fn im(m: &[i64; 16]) -> Matrix4<i64> {
    let mut a = [[0i64; 4]; 4];
    for i in 0..16 {
        a[i / 4][i % 4] = m[i];
    }
    Matrix4::new(a)
}

/// One call into the code under test, with the seams on; the value is rendered outside.
pub fn call(op: &Op) -> Out {
    call_at(op, None)
}

fn call_at(op: &Op, at: Option<&str>) -> Out {
    let c0 = (os::counters().events, os::counters().allocs, os::counters().bytes);
    let r = match op {
        Op::Parse(s) => std::panic::catch_unwind(|| {
            let s = at.unwrap_or(s);
            let v = os::session(|| calls::parse(s));
            let r = v.render();
            os::session_more(move || drop(v));
            r
        }),
        Op::Mat(k, a, b) => std::panic::catch_unwind(|| {
            let (fa, fb, ia, ib) = (fm(a), fm(b), im(a), im(b));
            let s = match k {
                0 => {
                    let v = os::session(|| calls::inverse_i(ia));
                    format!("{:?}", v)
                }
                1 => {
                    let v = os::session(|| calls::inverse_f(fa));
                    format!("{:?}", v)
                }
                2 => {
                    let v = os::session(|| calls::mul_f(fa, fb));
                    format!("{:?}", v)
                }
                3 => {
                    let v = os::session(|| calls::add_i(ia, ib));
                    format!("{:?}", v)
                }
                4 => {
                    let v = os::session(|| calls::transpose_f(fa));
                    format!("{:?}", v)
                }
                _ => {
                    let v = os::session(|| calls::mul_i(ia, ib));
                    format!("{:?}", v)
                }
            };
            ('O', s)
        }),
    };
    let c1 = (os::counters().events, os::counters().allocs, os::counters().bytes);
    let (kind, text) = match r {
        Ok(x) => x,
        Err(e) => ('P', panic_text(e)),
    };
    Out { kind, text, events: c1.0 - c0.0, allocs: c1.1 - c0.1, bytes: c1.2 - c0.2 }
}

fn put(buf: &mut Vec<u8>, t: usize, i: usize, o: &Out) {
    buf.extend_from_slice(
        format!("OP {} {} {} {} {} {} {}\n", t, i, o.kind, o.events, o.allocs, o.bytes, o.text.len()).as_bytes(),
    );
    buf.extend_from_slice(o.text.as_bytes());
    buf.push(b'\n');
}

fn get(data: &[u8], end: End) -> RunOut {
    let mut r = RunOut {
        outs: vec![], end, events: 0, switches: 0, switch_hash: 0, alloc_failed: 0, env_touch: 0, blocks: 0,
        effects: vec![], notes: vec![],
    };
    let mut i = 0;
    while i < data.len() {
        let e = data[i..].iter().position(|b| *b == b'\n').map(|k| i + k).unwrap_or(data.len());
        let line = String::from_utf8_lossy(&data[i..e]).into_owned();
        i = e + 1;
        let f: Vec<&str> = line.split(' ').collect();
        match f[0] {
            "OP" if f.len() == 8 => {
                let n: usize = f[7].parse().unwrap_or(0);
                let stop = (i + n).min(data.len());
                let text = String::from_utf8_lossy(&data[i.min(data.len())..stop]).into_owned();
                i = stop + 1;
                r.outs.push((
                    f[1].parse().unwrap(),
                    f[2].parse().unwrap(),
                    Out {
                        kind: f[3].chars().next().unwrap(),
                        text,
                        events: f[4].parse().unwrap(),
                        allocs: f[5].parse().unwrap(),
                        bytes: f[6].parse().unwrap(),
                    },
                ));
            }
            "CTR" if f.len() == 7 => {
                r.events = f[1].parse().unwrap();
                r.switches = f[2].parse().unwrap();
                r.switch_hash = f[3].parse().unwrap();
                r.alloc_failed = f[4].parse().unwrap();
                r.env_touch = f[5].parse().unwrap();
                r.blocks = f[6].parse().unwrap();
            }
            "EFF" => r.effects.push(line[4..].to_string()),
            "NOTE" => r.notes.push(line[5..].to_string()),
            _ => {}
        }
    }
    r
}

fn ctr_line() -> String {
    let c = os::counters();
    let mut s = format!(
        "CTR {} {} {} {} {} {}\n",
        c.events, c.switches, c.switch_hash, c.alloc_failed,
        c.clock_reads + c.entropy_reads + c.env_reads + c.fs_calls, c.futex_blocks
    );
    for e in os::effects() {
        s.push_str(&format!("EFF {}\n", e));
    }
    s
}

pub const TIMEOUT: i32 = 60_000;

/// One op alone: the steps it takes, and the times of those it takes only once or twice.
pub fn profile(env: &Env, op: &Op) -> (u64, Vec<u64>, Vec<u64>) {
    let r = seq(env, &[op], true);
    let rare = r.notes.iter().filter_map(|n| n.parse().ok()).collect();
    let shared = r.notes.iter().filter_map(|n| n.strip_prefix('s').and_then(|n| n.parse().ok())).collect();
    (r.events.max(1), rare, shared)
}

/// All ops one after another on one thread of a fresh child.
pub fn run_seq(env: &Env, ops: &[&Op]) -> RunOut {
    seq(env, ops, false)
}

/// Calls `f` some frames further down the stack.
#[inline(never)]
fn deeper<R>(n: usize, f: &mut dyn FnMut() -> R) -> R {
    if n == 0 {
        return f();
    }
    let pad = [n as u8; 16];
    std::hint::black_box(&pad);
    let r = deeper(n - 1, f);
    std::hint::black_box(&pad);
    r
}

/// The call at the place in memory the environment asks for.
fn placed(op: &Op, place: (usize, usize)) -> Out {
    match op {
        Op::Parse(s) if place.1 > 0 => {
            let mut v = vec![b' '; s.len() + 128];
            let at = (64 - v.as_ptr() as usize % 64) % 64 + place.1 % 64;
            v[at..at + s.len()].copy_from_slice(s.as_bytes());
            let t = std::str::from_utf8(&v[at..at + s.len()]).unwrap();
            deeper(place.0, &mut || call_at(op, Some(t)))
        }
        _ => deeper(place.0, &mut || call(op)),
    }
}

fn seq(env: &Env, ops: &[&Op], trace: bool) -> RunOut {
    let (data, end) = in_child(TIMEOUT, |fd| {
        os::begin(env);
        if trace {
            os::trace_on();
        }
        // a thread of its own: nothing set up earlier per thread is inherited
        let mut buf = vec![];
        let before = os::process();
        std::thread::scope(|s| {
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || {
                let mut buf = vec![];
                let before = os::thread_state();
                for (i, op) in ops.iter().enumerate() {
                    let o = placed(op, env.place);
                    put(&mut buf, 0, i, &o);
                }
                os::thread_changed(&before);
                buf
            });
            buf = h.expect("spawn").join().unwrap_or_default();
        });
        // anything the calls left in standard output's buffer is an effect of theirs
        let _ = os::session(|| std::io::Write::flush(&mut std::io::stdout()));
        os::process_changed(&before);
        for t in os::rare_times() {
            buf.extend_from_slice(format!("NOTE {}\n", t).as_bytes());
        }
        for a in os::sites() {
            buf.extend_from_slice(format!("NOTE a{} {} {}\n", a[0], a[1], a[2]).as_bytes());
        }
        for t in os::shared_times() {
            buf.extend_from_slice(format!("NOTE s{}\n", t).as_bytes());
        }
        buf.extend_from_slice(ctr_line().as_bytes());
        os::raw_write(fd, &buf);
    });
    get(&data, end)
}

/// Where the allocation requests of one call come from.
pub fn alloc_sites(env: &Env, op: &Op) -> Vec<[u32; 3]> {
    let r = seq(env, &[op], true);
    let f = |n: &String| {
        let mut i = n.strip_prefix('a')?.split(' ').map(|x| x.parse().unwrap_or(0));
        Some([i.next()?, i.next()?, i.next()?])
    };
    r.notes.iter().filter_map(f).collect()
}

/// One list of ops per simulated thread; the environment's schedule decides who runs.
/// With `reuse`, every thread reads all its texts from the same piece of memory.
pub fn run_threads(env: &Env, threads: &[Vec<Op>], first: usize, reuse: bool) -> RunOut {
    let (data, end) = in_child(TIMEOUT, |fd| {
        let results = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
        os::begin(env);
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (t, ops) in threads.iter().enumerate() {
            let ops = ops.clone();
            let results = results.clone();
            bodies.push(Box::new(move || {
                let mut buf = Op::Parse(String::with_capacity(
                    ops.iter().map(|o| if let Op::Parse(s) = o { s.len() } else { 0 }).max().unwrap_or(0),
                ));
                for (i, op) in ops.iter().enumerate() {
                    let o = match (op, &mut buf) {
                        (Op::Parse(s), Op::Parse(b)) if reuse => {
                            b.clear();
                            b.push_str(s);
                            call(&buf)
                        }
                        _ => call(op),
                    };
                    put(&mut results.lock().unwrap(), t, i, &o);
                }
            }));
        }
        os::run_threads(bodies, 64 << 20, first);
        let mut buf: Vec<u8> = std::mem::take(&mut *results.lock().unwrap());
        buf.extend_from_slice(ctr_line().as_bytes());
        os::raw_write(fd, &buf);
    });
    get(&data, end)
}

/// One list of ops per thread; every thread ends before the next one starts.
pub fn run_relay(env: &Env, threads: &[Vec<Op>]) -> RunOut {
    let (data, end) = in_child(TIMEOUT, |fd| {
        os::begin(env);
        let mut buf = vec![];
        for (t, ops) in threads.iter().enumerate() {
            let part = std::thread::scope(|s| {
                let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
                    let mut buf = vec![];
                    for (i, op) in ops.iter().enumerate() {
                        put(&mut buf, t, i, &call(op));
                    }
                    buf
                });
                // joined by hand: the end of a scope does not wait for what a thread does while it ends
                h.expect("spawn").join().unwrap_or_default()
            });
            buf.extend_from_slice(&part);
        }
        buf.extend_from_slice(ctr_line().as_bytes());
        os::raw_write(fd, &buf);
    });
    get(&data, end)
}

/// Like `in_child`, with `f` filling a report buffer of NOTE lines.
pub fn run_custom(env: &Env, f: impl FnOnce(&mut Vec<u8>)) -> RunOut {
    let (data, end) = in_child(TIMEOUT, |fd| {
        os::begin(env);
        let mut buf = vec![];
        f(&mut buf);
        buf.extend_from_slice(ctr_line().as_bytes());
        os::raw_write(fd, &buf);
    });
    get(&data, end)
}

pub fn gen_mat(r: &mut Rng) -> Op {
    let mut m = [[0i64; 16]; 2];
    for x in m.iter_mut() {
        match r.below(4) {
            0 => {
                // a permuted, scaled identity
                let mut p = [0, 1, 2, 3];
                for i in (1..4).rev() {
                    p.swap(i, r.below(i + 1));
                }
                for i in 0..4 {
                    x[i * 4 + p[i]] = 1 + r.below(20) as i64;
                }
            }
            1 => {
                // singular: two equal rows
                for v in x.iter_mut() {
                    *v = r.below(21) as i64 - 10;
                }
                for i in 0..4 {
                    x[12 + i] = x[i];
                }
            }
            _ => {
                for v in x.iter_mut() {
                    *v = r.below(41) as i64 - 20;
                }
            }
        }
    }
    Op::Mat(r.below(6) as u8, m[0], m[1])
}

/// A matrix call that a careless cache key would confuse with another one.
pub fn near_mat(r: &mut Rng, o: &Op) -> Op {
    let Op::Mat(k, a, b) = o else { return gen_mat(r) };
    let (mut k, mut a, mut b) = (*k, *a, *b);
    let m = if r.chance(3, 4) { &mut a } else { &mut b };
    match r.below(5) {
        0 => {
            // transposed
            for i in 0..4 {
                for j in 0..i {
                    m.swap(4 * i + j, 4 * j + i);
                }
            }
        }
        1 => m.swap(r.below(16), r.below(16)),
        2 => k = r.below(6) as u8,
        3 => {
            let i = r.below(16);
            m[i] = -m[i];
        }
        _ => {
            let i = r.below(16);
            m[i] += 1 + r.below(3) as i64;
        }
    }
    Op::Mat(k, a, b)
}
