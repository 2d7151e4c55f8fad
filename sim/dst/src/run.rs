//! Running, searching, minimising and replaying simulated executions.
use crate::app::Stop;
use crate::interpose::*;
use crate::scen;
use simcore::choice::*;
use simcore::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct RunOut {
    pub stop: Option<Stop>,
    pub hash: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub calls: u64,
    pub draws: u64,
    pub conns: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub record: Record,
    pub trace: Vec<String>,
}

impl RunOut {
    pub fn class(&self) -> Option<&'static str> {
        match &self.stop {
            Some(Stop::Viol(c, _)) => Some(c),
            Some(Stop::Harness(_)) => Some("harness"),
            None => None,
        }
    }
    pub fn detail(&self) -> String {
        match &self.stop {
            Some(Stop::Viol(_, d)) | Some(Stop::Harness(d)) => d.clone(),
            None => String::new(),
        }
    }
}

pub fn prop_seed(prop: &str, seed: u64, idx: u64) -> u64 {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx;
    for b in prop.bytes() {
        x = splitmix(&mut x) ^ b as u64;
    }
    splitmix(&mut x)
}

/// One simulated execution, on the calling thread, which must be a fresh one.
fn run_here(prop: &str, ch: Choices, trace: bool) -> RunOut {
    SIM_THREAD.with(|s| s.set(true));
    RAND.with(|r| r.set(ch.seed ^ 0x5eed));
    let mut w = World::new(ch, Cfg::base());
    if trace {
        w.trace = Some(vec![]);
    }
    WORLD.with(|c| *c.borrow_mut() = Some(Box::new(w)));
    let r = std::panic::catch_unwind(|| scen::run(prop));
    ACTIVE.with(|a| a.set(false));
    SIM_THREAD.with(|s| s.set(false));
    let w = WORLD.with(|c| c.borrow_mut().take().unwrap());
    let stop = match r {
        Ok(Ok(())) => None,
        Ok(Err(s)) => Some(s),
        Err(_) => Some(Stop::Harness(format!("scenario panicked: {}", PANIC_MSG.with(|m| m.borrow().clone())))),
    };
    RunOut {
        stop,
        hash: w.hash,
        sim_ns: w.now - SEC,
        steps: w.steps,
        calls: w.calls,
        draws: w.ch.draws,
        conns: w.conns.len() as u64,
        record: w.ch.record(),
        faults: w.faults,
        probes: w.probes,
        trace: w.trace.unwrap_or_default(),
    }
}

/// One simulated execution, on a thread of its own (so that thread-local state, the keys of
/// hash maps among it, starts from this run's seed).
fn run_once(prop: &str, ch: Choices, trace: bool) -> RunOut {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || run_here(prop, ch, trace)).expect("thread").join().expect("run"))
}

/// Why an isolated execution gave no answer.
#[derive(Clone, Copy, PartialEq)]
pub enum Died {
    /// one library call computed without end
    Hang,
    /// too long to be decided
    GivenUp,
    Signal(i32),
    Exit(i32),
}
impl Died {
    pub fn class(self) -> Option<&'static str> {
        match self {
            Died::Hang => Some("hang"),
            Died::Signal(s) if s != libc::SIGKILL => Some("abort"),
            _ => None,
        }
    }
    pub fn text(self) -> String {
        match self {
            Died::Hang => "a library call computes without end".into(),
            Died::GivenUp => "given up".into(),
            Died::Signal(s) => format!("process ended by signal {}", s),
            Died::Exit(c) => format!("process ended with {}", c),
        }
    }
}

/// Seconds of CPU time between looks at a running execution.
const TICK_S: i64 = 5;
const WALL_TICK_S: i64 = 45;
/// Odd while the library is executing; see `app::lib`.
pub static CALLS: AtomicU64 = AtomicU64::new(0);
static SEEN: AtomicU64 = AtomicU64::new(0);
static BLOCKED: AtomicU64 = AtomicU64::new(u64::MAX);
static TICKS: AtomicU64 = AtomicU64::new(0);
static SAME: AtomicU64 = AtomicU64::new(0);

/// A single library call which computes for 10 to 15 s is a hang; an execution which takes
/// 40 s of CPU time in another way is given up without a verdict.
extern "C" fn tick(sig: i32) {
    let c = CALLS.load(Ordering::SeqCst);
    let code = if sig == libc::SIGALRM {
        // no progress for a long time although it is not computing: blocked for good
        match BLOCKED.swap(c, Ordering::SeqCst) {
            x if x != c => return,
            _ => 78 - (c & 1) as i32,
        }
    } else {
        let same = if c & 1 == 1 && SEEN.swap(c, Ordering::SeqCst) == c { SAME.fetch_add(1, Ordering::SeqCst) + 1 } else {
            SAME.store(0, Ordering::SeqCst);
            0
        };
        match TICKS.fetch_add(1, Ordering::SeqCst) {
            _ if same >= 2 => 77,
            7.. => 78,
            _ => return,
        }
    };
    unsafe { libc::_exit(code) }
}

/// Runs `f` in a process of its own, forked from this one, so that no state that the
/// library keeps for the whole process leads from one execution to the next.
pub fn isolated(f: impl FnOnce() -> String) -> Result<String, Died> {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(p[0]);
            let t = |s: i64| libc::itimerval { it_interval: libc::timeval { tv_sec: s, tv_usec: 0 }, it_value: libc::timeval { tv_sec: s, tv_usec: 0 } };
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = tick as *const () as usize;
            sa.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGPROF, &sa, std::ptr::null_mut());
            libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
            libc::setitimer(libc::ITIMER_PROF, &t(TICK_S), std::ptr::null_mut());
            libc::setitimer(libc::ITIMER_REAL, &t(WALL_TICK_S), std::ptr::null_mut());
            let s = f();
            let mut b = s.as_bytes();
            while !b.is_empty() {
                let n = libc::write(p[1], b.as_ptr() as *const _, b.len());
                if n <= 0 {
                    libc::_exit(3);
                }
                b = &b[n as usize..];
            }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(p[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n > 0 {
                out.extend_from_slice(&buf[..n as usize]);
            } else if n == 0 || std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                break;
            }
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {}
        if libc::WIFSIGNALED(st) {
            return Err(Died::Signal(libc::WTERMSIG(st)));
        }
        match libc::WEXITSTATUS(st) {
            0 => Ok(String::from_utf8_lossy(&out).into_owned()),
            77 => Err(Died::Hang),
            78 => Err(Died::GivenUp),
            c => Err(Died::Exit(c)),
        }
    }
}

/// What of an isolated execution its parent gets to see.
pub struct Seen {
    pub class: Option<String>,
    pub detail: String,
    pub hash: u64,
    pub record: Record,
    pub trace: Vec<String>,
}

/// One simulated execution in a process of its own.
pub fn run_isolated(prop: &str, ch: Choices, trace: bool) -> Result<Seen, Died> {
    let s = isolated(move || {
        let r = run_once(prop, ch, trace);
        let mut s = format!("{}\n{}\n{:x}\n{}\n", r.class().unwrap_or("-"), esc(&r.detail()), r.hash, r.trace.len());
        for l in &r.trace {
            s.push_str(&esc(l));
            s.push('\n');
        }
        s.push_str(&record_to_text(&r.record));
        s
    })?;
    let mut l = s.lines();
    let mut next = || l.next().unwrap_or("").to_string();
    let class = next();
    let detail = unesc(&next());
    let hash = u64::from_str_radix(&next(), 16).unwrap_or(0);
    let n: usize = next().parse().unwrap_or(0);
    let trace = (0..n).map(|_| unesc(&next())).collect();
    Ok(Seen { class: (class != "-").then_some(class), detail, hash, trace, record: record_from_lines(l) })
}

// ---------- worker ----------
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    s.replace("\\n", "\n").replace("\\\\", "\\")
}

/// Makes forking cheap: one heap for all threads, grown in large steps.
pub fn tune_heap() {
    unsafe {
        libc::mallopt(libc::M_ARENA_MAX, 1);
        libc::mallopt(libc::M_TOP_PAD, 2 << 20);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 64 << 20);
    }
}

pub fn worker(prop: &str, seed: u64, first: u64, step: u64, runs: u64, until_ms: u64, known: &[Known]) {
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = first;
    while i < runs {
        if t0.elapsed().as_millis() as u64 > until_ms {
            break;
        }
        {
            let mut o = out.lock();
            let _ = writeln!(o, "S {}", i);
            let _ = o.flush();
        }
        let r = isolated(|| {
            let r = run_once(prop, Choices::from_seed(prop_seed(prop, seed, i)), false);
            let nf: u64 = r.faults.values().sum();
            let mut s = format!("R {} {:x} {} {} {} {} {} {}\n", i, r.hash, r.sim_ns, r.steps, r.calls, r.draws, r.conns, nf);
            match &r.stop {
                Some(Stop::Viol(c, d)) => match known.iter().find(|k| k.matches(prop, c, d)) {
                    Some(k) => s.push_str(&format!("K {}\n", esc(&k.text))),
                    None => s.push_str(&format!("V {} {} {}\n", i, c, esc(d))),
                },
                Some(Stop::Harness(d)) => s.push_str(&format!("H {} {}\n", i, esc(d))),
                None => {}
            }
            for (k, v) in &r.faults {
                s.push_str(&format!("F {} {}\n", v, k));
            }
            for (k, v) in &r.probes {
                s.push_str(&format!("P {} {}\n", v, k));
            }
            s
        });
        let mut o = out.lock();
        let mut stop = false;
        match r {
            Ok(s) => {
                for l in s.lines() {
                    let m = match l.as_bytes()[0] {
                        b'F' => &mut faults,
                        b'P' => &mut probes,
                        c => {
                            stop |= c == b'V' || c == b'H';
                            let _ = writeln!(o, "{}", l);
                            continue;
                        }
                    };
                    let mut f = l.splitn(3, ' ').skip(1);
                    let n: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    *m.entry(f.next().unwrap_or("").to_string()).or_insert(0) += n;
                }
            }
            Err(Died::GivenUp) => {
                let _ = writeln!(o, "A {}", i);
            }
            Err(d) => {
                stop = true;
                let _ = match d.class() {
                    Some(c) => writeln!(o, "V {} {} {}", i, c, d.text()),
                    None => writeln!(o, "H {} {}", i, d.text()),
                };
            }
        }
        if stop {
            break;
        }
        i += step;
    }
    let mut o = out.lock();
    for (k, v) in &faults {
        let _ = writeln!(o, "F {} {}", v, k);
    }
    for (k, v) in &probes {
        let _ = writeln!(o, "P {} {}", v, k);
    }
    let _ = writeln!(o, "E");
    let _ = o.flush();
}

// ---------- known findings ----------
pub struct Known {
    pub prop: String,
    pub class: String,
    pub needle: String,
    pub text: String,
}
impl Known {
    pub fn matches(&self, p: &str, c: &str, d: &str) -> bool {
        self.prop == p && self.class == c && d.contains(&self.needle)
    }
}
/// Lines `known: property=<id> class=<class> match="<text>" <description>`.
pub fn load_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let Some((prop, r)) = r.split_once(" class=") else { continue };
        let Some((class, r)) = r.split_once(" match=\"") else { continue };
        let Some((needle, text)) = r.split_once("\" ") else { continue };
        v.push(Known { prop: prop.into(), class: class.into(), needle: needle.into(), text: text.into() });
    }
    v
}

// ---------- campaign ----------
#[derive(Default)]
pub struct Tally {
    pub runs: u64,
    pub sim_ns: u128,
    pub steps: u64,
    pub calls: u64,
    pub draws: u64,
    pub conns: u64,
    pub faulty: u64,
    pub hashes: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub given_up: u64,
    pub by_idx: BTreeMap<u64, u64>,
}

pub struct Found {
    pub idx: u64,
    pub class: String,
    pub detail: String,
}

fn self_cmd(args: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args);
    c
}

pub fn campaign(prop: &str, seed: u64, runs: u64, until_ms: u64, jobs: u64, t: &mut Tally) -> Result<Option<Found>, String> {
    enum Msg {
        Line(u64, String),
        Done(u64, Option<i32>),
    }
    let (tx, rx) = mpsc::channel();
    let mut pids = BTreeMap::new();
    for j in 0..jobs {
        let args: Vec<String> = ["worker", prop, &seed.to_string(), &j.to_string(), &jobs.to_string(), &runs.to_string(), &until_ms.to_string()].iter().map(|s| s.to_string()).collect();
        let mut ch = self_cmd(&args).stdout(Stdio::piped()).stdin(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        pids.insert(j, ch.id());
        let out = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                let _ = tx.send(Msg::Line(j, l));
            }
            let st = ch.wait().ok();
            use std::os::unix::process::ExitStatusExt;
            let code = st.and_then(|s| s.code().or(s.signal().map(|x| -x)));
            let _ = tx.send(Msg::Done(j, code));
        });
    }
    drop(tx);
    let mut best: Option<Found> = None;
    let mut started: BTreeMap<u64, u64> = BTreeMap::new();
    let mut ended: BTreeSet<u64> = BTreeSet::new();
    let mut harness: Option<String> = None;
    let mut left = jobs;
    let better = |b: &Option<Found>, i: u64| b.as_ref().map_or(true, |f| i < f.idx);
    while left > 0 {
        let Ok(m) = rx.recv() else { break };
        match m {
            Msg::Line(j, l) => {
                let f: Vec<&str> = l.splitn(4, ' ').collect();
                let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                match f[0] {
                    "S" => {
                        started.insert(j, num(1));
                        if best.as_ref().map_or(false, |b| num(1) > b.idx) {
                            unsafe { libc::kill(pids[&j] as i32, libc::SIGKILL) };
                        }
                    }
                    "R" => {
                        let f: Vec<&str> = l.split(' ').collect();
                        let n = |i: usize| f[i].parse::<u64>().unwrap_or(0);
                        let h = u64::from_str_radix(f[2], 16).unwrap_or(0);
                        t.runs += 1;
                        t.sim_ns += n(3) as u128;
                        t.steps += n(4);
                        t.calls += n(5);
                        t.draws += n(6);
                        t.conns += n(7);
                        if n(8) > 0 {
                            t.faulty += 1;
                            t.nontrivial.insert(h);
                        }
                        t.hashes.insert(h);
                        t.by_idx.insert(n(1), h);
                    }
                    "V" => {
                        if better(&best, num(1)) {
                            best = Some(Found { idx: num(1), class: f[2].into(), detail: unesc(f.get(3).unwrap_or(&"")) });
                        }
                    }
                    "A" => t.given_up += 1,
                    "H" => harness = Some(l.clone()),
                    "K" => *t.known.entry(unesc(&l[2..])).or_insert(0) += 1,
                    "F" | "P" => {
                        let name = l.splitn(3, ' ').nth(2).unwrap_or("").to_string();
                        *(if f[0] == "F" { &mut t.faults } else { &mut t.probes }).entry(name).or_insert(0) += num(1);
                    }
                    "E" => {
                        ended.insert(j);
                    }
                    _ => {}
                }
            }
            Msg::Done(j, code) => {
                left -= 1;
                let killed = best.as_ref().map_or(false, |b| started.get(&j).map_or(true, |s| *s > b.idx));
                if !ended.contains(&j) && !killed {
                    let i = started.get(&j).copied().unwrap_or(0);
                    harness = Some(format!("worker {} ended with {:?} in run {}", j, code, i));
                }
            }
        }
    }
    match (best, harness) {
        (Some(b), _) => Ok(Some(b)),
        (None, Some(h)) => Err(h),
        _ => Ok(None),
    }
}

// ---------- replay files ----------
pub struct Replay {
    pub prop: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub idx: u64,
    pub hash: u64,
    pub record: Option<Record>,
}

pub fn write_replay(path: &str, r: &Replay, trace: &[String]) {
    let mut s = String::new();
    let _ = writeln!(s, "# replay of a simulated execution; run: /verif/replay <this file>");
    let _ = writeln!(s, "property {}\nclass {}\ndetail {}\nseed {}\nrun {}\nhash {:x}", r.prop, r.class, esc(&r.detail), r.seed, r.idx, r.hash);
    match &r.record {
        Some(rec) => {
            let _ = writeln!(s, "choices");
            s.push_str(&record_to_text(rec));
        }
        None => {
            let _ = writeln!(s, "generate");
        }
    }
    let _ = writeln!(s, "trace");
    for l in trace {
        let _ = writeln!(s, "  {}", l);
    }
    let tmp = format!("{}.tmp", path);
    let _ = std::fs::write(&tmp, s);
    let _ = std::fs::rename(&tmp, path);
}

pub fn read_replay(path: &str) -> Result<Replay, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    let mut r = Replay { prop: String::new(), class: String::new(), detail: String::new(), seed: 0, idx: 0, hash: 0, record: None };
    let mut it = s.lines();
    while let Some(l) = it.next() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.prop = v.into(),
            "class" => r.class = v.into(),
            "detail" => r.detail = unesc(v),
            "seed" => r.seed = v.parse().unwrap_or(0),
            "run" => r.idx = v.parse().unwrap_or(0),
            "hash" => r.hash = u64::from_str_radix(v, 16).unwrap_or(0),
            "choices" => {
                let lines: Vec<&str> = it.by_ref().take_while(|l| *l != "trace").collect();
                r.record = Some(record_from_lines(lines.into_iter()));
                break;
            }
            "generate" => break,
            _ => {}
        }
    }
    Ok(r)
}

pub fn choices_of(r: &Replay) -> Choices {
    let seed = prop_seed(&r.prop, r.seed, r.idx);
    match &r.record {
        Some(rec) => Choices::from_record(seed, rec.clone()),
        None => Choices::from_seed(seed),
    }
}

/// Turns a finding into a minimised replay file; None if it does not recur.
pub fn settle(prop: &str, seed: u64, f: &Found, path: &str, secs: u64) -> Result<String, String> {
    let base = Replay { prop: prop.into(), class: f.class.clone(), detail: f.detail.clone(), seed, idx: f.idx, hash: 0, record: None };
    write_replay(path, &base, &[]);
    if f.class == "abort" || f.class == "hang" {
        // the process dies in this run: confirm that it does so again
        let seed = prop_seed(prop, seed, f.idx);
        match run_isolated(prop, Choices::from_seed(seed), false) {
            Err(d) if d.class() == Some(f.class.as_str()) => return Ok(f.detail.clone()),
            // the simulator sees it and can go on to minimise it
            Ok(Seen { class: Some(c), .. }) if c == f.class => {}
            _ => return Err(format!("run {} ended with {} but passes when repeated", f.idx, f.class)),
        }
    }
    let mut ch = self_cmd(&["minimise".into(), path.into(), secs.to_string()]).stdin(Stdio::null()).stdout(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let _ = ch.wait();
    let r = read_replay(path)?;
    if r.record.is_none() {
        return Err(format!("run {} violated {} but passes when repeated", f.idx, f.class));
    }
    Ok(r.detail)
}

/// Shrinks the choices of a failing run while the same violation remains.
pub fn minimise(path: &str, secs: u64) -> Result<(), String> {
    let rp = read_replay(path)?;
    let t0 = Instant::now();
    let limit = Duration::from_secs(secs);
    let first = run_isolated(&rp.prop, choices_of(&rp), true).map_err(|d| d.text())?;
    if first.class.as_deref() != Some(rp.class.as_str()) {
        return Err("does not reproduce".into());
    }
    let seed = prop_seed(&rp.prop, rp.seed, rp.idx);
    let mut best = first.record.clone();
    let save = |rec: &Record| -> bool {
        let Ok(r) = run_isolated(&rp.prop, Choices::from_record(seed, rec.clone()), true) else { return false };
        if r.class.as_deref() != Some(rp.class.as_str()) {
            return false;
        }
        let out = Replay { prop: rp.prop.clone(), class: rp.class.clone(), detail: r.detail.clone(), seed: rp.seed, idx: rp.idx, hash: r.hash, record: Some(r.record.clone()) };
        write_replay(path, &out, &r.trace);
        true
    };
    if !save(&best) {
        return Err("record does not reproduce".into());
    }
    let mut attempts = 0;
    let mut test = |rec: &Record| -> Option<Record> {
        attempts += 1;
        if attempts > 3000 || t0.elapsed() > limit {
            return None;
        }
        let r = run_isolated(&rp.prop, Choices::from_record(seed, rec.clone()), false).ok()?;
        (r.class.as_deref() == Some(rp.class.as_str())).then_some(r.record)
    };
    let size = |r: &Record| -> (usize, u128) { (r.values().map(|v| v.len()).sum(), r.values().flatten().map(|x| *x as u128).sum()) };
    loop {
        let before = size(&best);
        // whole streams at once
        for k in best.keys().copied().collect::<Vec<_>>() {
            let mut c = best.clone();
            if c.remove(&k).is_some() {
                if let Some(r) = test(&c) {
                    best = r;
                }
            }
        }
        // then tails, blocks, single values
        for k in best.keys().copied().collect::<Vec<_>>() {
            let mut cut = best.get(&k).map_or(0, |v| v.len()) / 2;
            while cut > 0 {
                let n = best.get(&k).map_or(0, |v| v.len());
                if cut >= n {
                    cut = n / 2;
                    if cut == 0 {
                        break;
                    }
                }
                let mut c = best.clone();
                c.get_mut(&k).unwrap().truncate(n - cut);
                match test(&c) {
                    Some(r) => best = r,
                    None => cut /= 2,
                }
            }
            let n = best.get(&k).map_or(0, |v| v.len());
            let mut blk = (n / 2).max(1);
            while blk >= 1 && n > 1 {
                let mut i = 0;
                while i < best.get(&k).map_or(0, |v| v.len()) {
                    let mut c = best.clone();
                    let v = c.get_mut(&k).unwrap();
                    let e = (i + blk).min(v.len());
                    if v[i..e].iter().any(|x| *x != 0) {
                        v[i..e].iter_mut().for_each(|x| *x = 0);
                        if let Some(r) = test(&c) {
                            best = r;
                        } else if blk <= 4 {
                            let mut c = best.clone();
                            let v = c.get_mut(&k).unwrap();
                            let e = (i + blk).min(v.len());
                            v.drain(i..e);
                            if let Some(r) = test(&c) {
                                if size(&r) < size(&best) {
                                    best = r;
                                }
                            }
                        }
                    }
                    i += blk;
                }
                if blk == 1 {
                    break;
                }
                blk /= 2;
            }
            // smaller values
            for i in 0..best.get(&k).map_or(0, |v| v.len()).min(64) {
                loop {
                    let Some(v) = best.get(&k).and_then(|v| v.get(i).copied()) else { break };
                    if v < 2 {
                        break;
                    }
                    let mut c = best.clone();
                    c.get_mut(&k).unwrap()[i] = v / 2;
                    match test(&c) {
                        Some(r) if size(&r) < size(&best) => best = r,
                        _ => break,
                    }
                }
            }
            if t0.elapsed() > limit {
                break;
            }
        }
        if size(&best) >= before || t0.elapsed() > limit {
            break;
        }
    }
    save(&best);
    Ok(())
}

/// Re-executes a replay file; true if the same violation occurs.
pub fn replay(path: &str) -> Result<bool, String> {
    let rp = read_replay(path)?;
    let r = match run_isolated(&rp.prop, choices_of(&rp), true) {
        Ok(r) => r,
        Err(d) => {
            println!("{}", d.text());
            return Ok(d.class() == Some(rp.class.as_str()));
        }
    };
    for l in &r.trace {
        println!("{}", l);
    }
    if let Some(c) = &r.class {
        println!("CLASS {}", c);
        println!("DETAIL {}", r.detail);
    }
    println!("HASH {:x} (recorded {:x})", r.hash, rp.hash);
    Ok(r.class.as_deref() == Some(rp.class.as_str()) && (rp.hash == 0 || rp.hash == r.hash))
}
