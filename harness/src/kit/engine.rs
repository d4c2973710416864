//! A small property-based testing engine in the style of Hypothesis: a check draws
//! every random choice from a `Src`; the choices made form a tape; a failing tape is
//! shrunk (blocks removed, values lowered) and saved as the replay file.
//! Every job (sub-check x parameter) runs in its own child process, so that a global
//! state of the code under test is fresh and a crash cannot take the driver down.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash64(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in s {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h);
    r.next()
}

pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// index of the case within its job (used by `enumerated`)
    pub index: u64,
}

impl Src {
    pub fn random(seed: u64, index: u64) -> Src {
        Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)), index }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { tape, pos: 0, rng: None, index: 0 }
    }
    fn put(&mut self, gen: impl FnOnce(&mut Rng) -> u64, bound: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let v = gen(r);
                self.tape.push(v);
                v
            }
            None => {
                if self.pos >= self.tape.len() {
                    self.tape.push(0);
                }
                let v = self.tape[self.pos].min(bound - 1);
                self.tape[self.pos] = v;
                v
            }
        };
        self.pos += 1;
        v
    }
    /// uniform in 0..bound; 0 is the simplest value
    pub fn below(&mut self, bound: usize) -> usize {
        assert!(bound > 0);
        let b = bound as u64;
        self.put(|r| r.next() % b, b) as usize
    }
    /// uniform in lo..=hi, shrinking towards lo
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// walks through 0..bound case after case (exhaustive when cases >= bound)
    pub fn enumerated(&mut self, bound: usize) -> usize {
        let b = bound as u64;
        let i = self.index;
        self.put(|_| i % b, b) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is the simple value
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.put(|r| if r.next() % den < num { 1 } else { 0 }, 2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// a +-1 sequence, simplest all -1
    pub fn pm(&mut self, n: usize) -> Vec<i8> {
        (0..n).map(|_| if self.bool() { 1 } else { -1 }).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        // identity is the simplest shuffle
        let n = v.len();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            v.swap(i, j);
        }
    }
    pub fn tape(&self) -> Vec<u64> {
        let mut t = self.tape.clone();
        t.truncate(self.pos.max(0));
        t
    }
}

// ---------------------------------------------------------------- checks

#[derive(Clone, Debug)]
pub struct Fail {
    /// exact signature, only for failures that known_findings.txt may list
    pub sig: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { sig: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Fail {
        Fail { sig: None, msg: msg.to_string() }
    }
}
pub type Outcome = Result<(), Fail>;

pub struct Ctx {
    /// name of the sub-check
    pub sub: &'static str,
    pub param: i64,
    pub thorough: bool,
    pub desc: String,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub weight: u64,
    /// what a job with a negative parameter draws its cases' parameters from
    pub choices: Vec<i64>,
}
impl Ctx {
    pub fn new(sub: &Sub, param: i64, thorough: bool) -> Ctx {
        let choices = sub.params.iter().copied().filter(|p| *p >= 0 && *p <= -param).collect();
        Ctx { sub: sub.name, param, thorough, desc: String::new(), nontrivial: false, labels: vec![], weight: 1, choices }
    }
    /// The parameter of this case. A job with a negative parameter mixes all parameters of the
    /// sub-check up to its absolute value in one process, so that what an earlier call leaves
    /// behind (a table, a cache) meets calls with other parameters.
    pub fn length(&mut self, s: &mut Src) -> usize {
        if self.param >= 0 {
            return self.param as usize;
        }
        self.label("mixed lengths in one process");
        *s.pick(&self.choices) as usize
    }
    pub fn desc(&mut self, s: impl Into<String>) {
        self.desc = s.into();
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial = b;
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
}

pub type CheckFn = fn(&mut Src, &mut Ctx) -> Outcome;

pub struct Sub {
    pub name: &'static str,
    pub f: CheckFn,
    pub rule: &'static str,
    pub params: Vec<i64>,
    /// cases per parameter
    pub quick: u64,
    pub thorough: u64,
}

/// the parameters and, in one more job, all of them up to `cap` in turn
pub fn mixed(cap: i64, v: Vec<i64>) -> Vec<i64> {
    [vec![-cap], v].concat()
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: Vec<&'static str>,
}

/// Fails the check with a formatted message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*).into()); } };
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}
static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

fn run_one(f: CheckFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_else(|| "panic".into());
            Err(Fail { sig: None, msg: format!("panicked: {}", m) })
        }
    }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() {
            *g = Some(format!("{}", info).replace('\n', " "));
        }
    }));
}

fn shrink(sub: &Sub, param: i64, thorough: bool, start: Vec<u64>) -> (Vec<u64>, String, Fail) {
    let budget = Instant::now();
    let limit = Duration::from_secs(20);
    let max_runs = 3000;
    let mut runs = 0;
    let mut try_tape = |t: &Vec<u64>| -> Option<(Vec<u64>, String, Fail)> {
        let mut s = Src::replay(t.clone());
        let mut c = Ctx::new(sub, param, thorough);
        match run_one(sub.f, &mut s, &mut c) {
            Err(e) if e.sig.is_none() => Some((s.tape(), c.desc, e)),
            _ => None,
        }
    };
    let mut best = match try_tape(&start) {
        Some(x) => x,
        None => return (start, String::new(), Fail { sig: None, msg: String::new() }),
    };
    let mut improved = true;
    while improved {
        improved = false;
        // remove blocks
        let mut size = best.0.len().max(1) / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.0.len() {
                if runs >= max_runs || budget.elapsed() > limit {
                    return best;
                }
                let mut t = best.0.clone();
                t.drain(i..i + size);
                runs += 1;
                match try_tape(&t) {
                    Some(x) if x.0.len() < best.0.len() => {
                        best = x;
                        improved = true;
                    }
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.0.len() {
            let mut cands = vec![];
            let v = best.0[i];
            if v > 0 {
                cands.push(0);
                if v > 2 {
                    cands.push(v / 2);
                }
                if v > 1 {
                    cands.push(v - 1);
                }
            }
            for c in cands {
                if runs >= max_runs || budget.elapsed() > limit {
                    return best;
                }
                let mut t = best.0.clone();
                t[i] = c;
                runs += 1;
                if let Some(x) = try_tape(&t) {
                    if x.0.len() <= best.0.len() && x.0 < best.0 {
                        best = x;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}

// ---------------------------------------------------------------- limits

extern "C" {
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
    fn prctl(option: i32, arg: u64, a: u64, b: u64, c: u64) -> i32;
}
/// Seconds one case may take, and seconds one run of the program within a case may take.
/// The slowest case is recorded in the evidence; these are far above it.
pub fn case_limit(thorough: bool) -> u64 {
    if thorough { 3000 } else { 360 }
}
pub fn call_limit(thorough: bool) -> u64 {
    if thorough { 1500 } else { 150 }
}
pub const NO_END: &str = "[no end after the time limit]";

/// The process ends when the thread that started it does.
pub fn die_with_parent(cmd: &mut Command) {
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(|| {
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
}
/// Memory and file size of a worker and of what it starts: code under test that runs away is
/// stopped by these, and seen as a crash, instead of filling the machine.
fn bounded(cmd: &mut Command, thorough: bool) {
    use std::os::unix::process::CommandExt;
    let mem: u64 = if thorough { 12 << 30 } else { 3 << 30 };
    unsafe {
        cmd.pre_exec(move || {
            setrlimit(9, &[mem, mem]);
            setrlimit(1, &[4 << 30, 4 << 30]);
            setrlimit(4, &[0, 0]);
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- worker protocol

fn job_seed(seed: u64, prop: &str, sub: &str, param: i64) -> u64 {
    hash64(format!("{}|{}|{}|{}", seed, prop, sub, param).as_bytes())
}

fn enc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn dec(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn tape_str(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn worker(prop: &Prop, sub: &Sub, param: i64, seed: u64, cases: u64, thorough: bool, out: &Path) {
    install_panic_hook();
    let js = job_seed(seed, prop.id, sub.name, param);
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let mut fail: Option<(u64, Vec<u64>, String, Fail)> = None;
    // a case that does not end is a failure too: 0 = no case runs, else (index + 1, start)
    let running: Arc<Mutex<Option<(u64, Instant)>>> = Arc::new(Mutex::new(None));
    let mut slowest = Duration::ZERO;
    {
        let (running, out, limit) = (running.clone(), out.to_path_buf(), case_limit(thorough));
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if let Some((i, t)) = *running.lock().unwrap() {
                if t.elapsed().as_secs() >= limit {
                    let o = format!("evals 0\ndistinct 0\nfailindex {}\nfailtape crash\nfaildesc case {} of the job\nfailmsg the case did not end within {} s {}\n", i, i, limit, NO_END);
                    let _ = fs::write(&out, o);
                    std::process::exit(1);
                }
            }
        });
    }
    for i in 0..cases {
        *running.lock().unwrap() = Some((i, Instant::now()));
        let mut src = Src::random(js.wrapping_add(i.wrapping_mul(0xD1B5_4A32_D192_ED03)), i);
        let mut ctx = Ctx::new(sub, param, thorough);
        let r = run_one(sub.f, &mut src, &mut ctx);
        if let Some((_, t)) = running.lock().unwrap().take() {
            slowest = slowest.max(t.elapsed());
        }
        evals += ctx.weight;
        for l in &ctx.labels {
            *labels.entry(l.clone()).or_insert(0) += 1;
        }
        if ctx.nontrivial && distinct.insert(hash64(ctx.desc.as_bytes())) && samples.len() < 2 {
            samples.push(ctx.desc.chars().take(600).collect());
        }
        match r {
            Ok(()) => {}
            Err(e) if e.sig.is_some() => {
                known.insert(e.sig.clone().unwrap(), e.msg.clone());
            }
            Err(e) => {
                fail = Some((i, src.tape(), ctx.desc.clone(), e));
                break;
            }
        }
    }
    let mut o = String::new();
    o += &format!("evals {}\ndistinct {}\nslowest {}\n", evals, distinct.len(), slowest.as_millis());
    for (l, c) in &labels {
        o += &format!("label {} {}\n", c, enc(l));
    }
    for s in &samples {
        o += &format!("sample {}\n", enc(s));
    }
    for (s, m) in &known {
        o += &format!("known {}\t{}\n", enc(s), enc(m));
    }
    if let Some((i, tape, desc, e)) = fail {
        // first save what failed, then improve on it
        let head = format!("failindex {}\nfailtape {}\nfaildesc {}\nfailmsg {}\n", i, tape_str(&tape), enc(&desc), enc(&e.msg));
        fs::write(out, o.clone() + &head).unwrap();
        // a case that takes minutes is not shrunk
        let (t2, d2, e2) = if slowest.as_secs() > 20 || e.msg.contains(NO_END) {
            (vec![], String::new(), Fail::from(""))
        } else {
            // (a simpler case may fail to end: what is saved above stands then)
            std::thread::spawn(|| {
                std::thread::sleep(Duration::from_secs(90));
                std::process::exit(1);
            });
            shrink(sub, param, thorough, tape)
        };
        if !e2.msg.is_empty() {
            o += &format!("mintape {}\nmindesc {}\nminmsg {}\n", tape_str(&t2), enc(&d2), enc(&e2.msg));
        }
        o += &head;
    }
    fs::write(out, o).unwrap();
}

#[derive(Default, Clone)]
struct JobOut {
    evals: u64,
    distinct: u64,
    slowest: u64,
    labels: Vec<(String, u64)>,
    samples: Vec<String>,
    known: Vec<(String, String)>,
    fail: Option<(u64, String, String, String)>, // index, tape, desc, msg
    min: Option<(String, String, String)>,
}

fn parse_out(p: &Path) -> Option<JobOut> {
    let s = fs::read_to_string(p).ok()?;
    let mut j = JobOut::default();
    let (mut fi, mut ft, mut fd, mut fm) = (None, String::new(), String::new(), String::new());
    let (mut mt, mut md, mut mm) = (None, String::new(), String::new());
    for line in s.lines() {
        let (k, v) = line.split_once(' ').unwrap_or((line, ""));
        match k {
            "evals" => j.evals = v.parse().ok()?,
            "distinct" => j.distinct = v.parse().ok()?,
            "slowest" => j.slowest = v.parse().ok()?,
            "label" => {
                let (c, l) = v.split_once(' ')?;
                j.labels.push((dec(l), c.parse().ok()?));
            }
            "sample" => j.samples.push(dec(v)),
            "known" => {
                let (a, b) = v.split_once('\t')?;
                j.known.push((dec(a), dec(b)));
            }
            "failindex" => fi = Some(v.parse().ok()?),
            "failtape" => ft = v.to_string(),
            "faildesc" => fd = dec(v),
            "failmsg" => fm = dec(v),
            "mintape" => mt = Some(v.to_string()),
            "mindesc" => md = dec(v),
            "minmsg" => mm = dec(v),
            _ => {}
        }
    }
    j.fail = fi.map(|i| (i, ft, fd, fm));
    j.min = mt.map(|t| (t, md, mm));
    Some(j)
}

// ---------------------------------------------------------------- driver

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Scratch directory of this run; removed when the driver ends.
pub fn scratch_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH"))
}

/// A fresh, empty directory below the scratch root.
pub fn fresh_dir(tag: &str) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let d = scratch_root().join(format!("{}-{}-{}", tag, std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    fs::create_dir_all(&d).unwrap();
    d
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Job {
    sub: usize,
    param: i64,
}

enum JobEnd {
    Done(JobOut),
    Broken(String),
}

fn spawn_job(prop: &Prop, sub: &Sub, param: i64, seed: u64, cases: u64, thorough: bool, out: &Path, limit: Duration, stop: &AtomicBool) -> JobEnd {
    let exe = std::env::current_exe().unwrap();
    let errf = out.with_extension("err");
    let err = fs::File::create(&errf).unwrap();
    let mut cmd = Command::new(exe);
    die_with_parent(&mut cmd);
    bounded(&mut cmd, thorough);
    let mut ch = cmd
        .arg("worker").arg(prop.id).arg(sub.name).arg(param.to_string()).arg(seed.to_string()).arg(cases.to_string())
        .arg(if thorough { "thorough" } else { "quick" }).arg(out)
        .env("RAYON_NUM_THREADS", "2")
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(err)
        .spawn().expect("spawn worker");
    let t = Instant::now();
    let mut stopped: Option<Instant> = None;
    loop {
        match ch.try_wait().unwrap() {
            Some(st) => {
                // a panic in the code under test is caught; anything else that ends a worker is an error of the check
                match parse_out(out) {
                    Some(j) if st.success() || j.fail.is_some() => return JobEnd::Done(j),
                    _ => {
                        use std::os::unix::process::ExitStatusExt;
                        let e = fs::read_to_string(&errf).unwrap_or_default();
                        if let Some(sig) = st.signal() {
                            // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: the code under test crashed
                            // (SIGKILL and the like come from outside and settle nothing)
                            if [4, 6, 7, 8, 11].contains(&sig) {
                                let msg = format!("the process running the cases died of signal {}: {}", sig, e.chars().take(400).collect::<String>());
                                return JobEnd::Done(JobOut { fail: Some((cases.max(1) - 1, "crash".into(), "(the whole job)".into(), msg)), ..JobOut::default() });
                            }
                        }
                        return JobEnd::Broken(format!("worker ended with {:?}: {}", st, e.chars().take(500).collect::<String>()));
                    }
                }
            }
            None => {
                // once another job has failed, the rest get a short while to end
                if stopped.is_none() && stop.load(Ordering::SeqCst) {
                    stopped = Some(Instant::now());
                }
                if t.elapsed() > limit || stopped.map_or(false, |s| s.elapsed().as_secs() > 45) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return match parse_out(out) {
                        Some(j) if j.fail.is_some() => JobEnd::Done(j),
                        _ => JobEnd::Broken(format!("no answer within {} s", limit.as_secs())),
                    };
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
}

/// (property, signature) pairs listed as known findings, with their text
fn known_findings() -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in s.lines() {
            // finding: property=<id> sig=<signature> | <what fails>
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((id, r)) = r.split_once(" sig=") {
                    let (sig, what) = r.split_once(" | ").unwrap_or((r, ""));
                    v.push((id.to_string(), sig.trim().to_string(), what.to_string()));
                }
            }
        }
    }
    v
}

fn run_prop(prop: &Prop, seed: u64, thorough: bool, nproc: usize) -> i32 {
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    let scratch = scratch_root();
    let mut jobs: Vec<Job> = vec![];
    for (i, s) in prop.subs.iter().enumerate() {
        for &p in &s.params {
            jobs.push(Job { sub: i, param: p });
        }
    }
    // jobs with a large parameter are usually the long ones: start them first
    jobs.sort_by_key(|j| -j.param);
    let queue = Arc::new(Mutex::new(jobs.into_iter().collect::<Vec<_>>()));
    queue.lock().unwrap().reverse();
    let results: Mutex<Vec<(usize, i64, JobEnd, f64)>> = Mutex::new(vec![]);
    let limit = Duration::from_secs(if thorough { 7200 } else { 600 });
    let stop = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for _ in 0..nproc {
            sc.spawn(|| loop {
                let job = match queue.lock().unwrap().pop() {
                    Some(j) => j,
                    None => break,
                };
                if stop.load(Ordering::SeqCst) {
                    break;
                }
                let sub = &prop.subs[job.sub];
                let cases = if thorough { sub.thorough } else { sub.quick } * if job.param < 0 { 3 } else { 1 };
                let out = scratch.join(format!("job-{}-{}-{}", prop.id, sub.name, job.param));
                let tj = Instant::now();
                let end = spawn_job(prop, sub, job.param, seed, cases, thorough, &out, limit, &stop);
                if let JobEnd::Done(j) = &end {
                    if j.fail.is_some() {
                        stop.store(true, Ordering::SeqCst);
                    }
                }
                results.lock().unwrap().push((job.sub, job.param, end, tj.elapsed().as_secs_f64()));
            });
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| (r.0, r.1));

    let mut evals = 0;
    let mut distinct = 0;
    let mut slowest = 0;
    let mut samples: Vec<String> = vec![];
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut subcov: BTreeMap<String, (u64, u64, f64)> = BTreeMap::new();
    let mut broken: Vec<String> = vec![];
    let mut fails: Vec<(usize, i64, JobOut)> = vec![];
    let mut known_seen: BTreeMap<String, String> = BTreeMap::new();
    for (si, p, end, secs) in &results {
        let sub = &prop.subs[*si];
        match end {
            JobEnd::Broken(e) => broken.push(format!("{}[{}]: {}", sub.name, p, e)),
            JobEnd::Done(j) => {
                evals += j.evals;
                distinct += j.distinct;
                slowest = slowest.max(j.slowest);
                let c = subcov.entry(sub.name.to_string()).or_insert((0, 0, 0.0));
                c.0 += j.evals;
                c.1 += j.distinct;
                c.2 += secs;
                let already = samples.iter().filter(|s| s.starts_with(&format!("{}:", sub.name))).count();
                if already < 2 {
                    for s in j.samples.iter().take(2 - already) {
                        samples.push(format!("{}: [param {}] {}", sub.name, p, s));
                    }
                }
                for (l, c) in &j.labels {
                    *labels.entry(format!("{}/{}", sub.name, l)).or_insert(0) += c;
                }
                for (s, m) in &j.known {
                    known_seen.insert(s.clone(), m.clone());
                }
                if j.fail.is_some() {
                    fails.push((*si, *p, j.clone()));
                }
            }
        }
    }

    let mut violations: Vec<String> = vec![];
    let replay_dir = verif_dir().join("replays");
    // listed findings
    let listed = known_findings();
    for (sig, msg) in &known_seen {
        match listed.iter().find(|(id, s, _)| id == prop.id && s == sig) {
            Some((_, _, what)) => println!("KNOWN-FINDING: property={} {} [{}]", prop.id, what, sig),
            None => {
                fs::create_dir_all(&replay_dir).unwrap();
                let f = replay_dir.join(format!("{}-{:016x}.replay", prop.id, hash64(sig.as_bytes())));
                fs::write(&f, format!("property {}\nsignature {}\nmessage {}\nseed {}\n", prop.id, enc(sig), enc(msg), seed)).unwrap();
                println!("{}: {}", sig, msg);
                violations.push(f.display().to_string());
            }
        }
    }
    for (si, p, j) in fails.iter().take(3) {
        let sub = &prop.subs[*si];
        let (idx, tape, desc, msg) = j.fail.clone().unwrap();
        fs::create_dir_all(&replay_dir).unwrap();
        let name = format!("{}-{}-{}.replay", prop.id, sub.name, p);
        let f = replay_dir.join(name);
        let write = |tape: &str, desc: &str, msg: &str| {
            let s = format!(
                "property {}\nsub {}\nparam {}\ntier {}\nseed {}\nindex {}\ntape {}\ncase {}\nmessage {}\n",
                prop.id, sub.name, p, tier, seed, idx, tape, enc(desc), enc(msg)
            );
            fs::write(&f, s).unwrap();
        };
        let mut shown = (desc.clone(), msg.clone());
        let mut done = false;
        if let Some((mt, md, mm)) = &j.min {
            write(mt, md, mm);
            if replay_tape_in_child(&f) {
                shown = (md.clone(), mm.clone());
                done = true;
            }
        }
        if !done {
            write(&tape, &desc, &msg);
        }
        println!("FAILED {} [{}] case: {}", sub.name, p, shown.0.chars().take(1500).collect::<String>());
        println!("  because: {}", shown.1.chars().take(1500).collect::<String>());
        violations.push(f.display().to_string());
    }

    // evidence
    let rule = prop.subs.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect::<Vec<_>>().join(" || ");
    let mut ev = String::from("{\n");
    ev += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(prop.id), js(tier), seed);
    ev += &format!(" \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", evals, distinct, js(&rule));
    ev += &format!("  \"samples\": [{}],\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "));
    ev += &format!("  \"by_subcheck\": {{{}}},\n", subcov.iter().map(|(k, v)| format!("{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"cpu_s\": {:.1}}}", js(k), v.0, v.1, v.2)).collect::<Vec<_>>().join(",\n   "));
    ev += &format!("  \"classes\": {{{}}}\n }},\n", labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    ev += &format!(" \"assumptions\": [{}],\n", prop.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    ev += &format!(" \"wall_s\": {:.1},\n \"slowest_case_s\": {:.1},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), slowest as f64 / 1000.0, violations.len());
    let evd = verif_dir().join("evidence");
    fs::create_dir_all(&evd).unwrap();
    fs::write(evd.join(format!("{}.json", prop.id)), ev).unwrap();

    println!("{} {}: {} cases, {} distinct non-trivial, {:.1} s", prop.id, tier, evals, distinct, t0.elapsed().as_secs_f64());
    for (k, v) in &subcov {
        println!("   {:<28} {:>9} cases {:>9} non-trivial {:>7.1} cpu s", k, v.0, v.1, v.2);
    }
    if !violations.is_empty() {
        for v in &violations {
            println!("VIOLATION property={} replay={}", prop.id, v);
        }
        return 1;
    }
    if !broken.is_empty() {
        for b in &broken {
            println!("ERROR (inconclusive) {}", b);
        }
        return 2;
    }
    0
}

fn replay_tape_in_child(f: &Path) -> bool {
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(exe).arg("replay-tape").arg(f).env("RAYON_NUM_THREADS", "2").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status();
    matches!(st, Ok(s) if s.code() == Some(1))
}

fn read_replay(f: &Path) -> BTreeMap<String, String> {
    let s = fs::read_to_string(f).expect("replay file");
    s.lines().filter_map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string()))).collect()
}

pub fn main_with(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => {
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) || args.get(3).map(|s| s == "thorough").unwrap_or(false);
            let scratch = make_scratch();
            let nproc = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
            let c = match find(&args[2]) {
                Some(p) => run_prop(p, seed, thorough, nproc),
                None => {
                    println!("unknown property {}", args[2]);
                    2
                }
            };
            let _ = fs::remove_dir_all(&scratch);
            c
        }
        Some("worker") => {
            let p = find(&args[2]).expect("prop");
            let s = p.subs.iter().find(|s| s.name == args[3]).expect("sub");
            worker(p, s, args[4].parse().unwrap(), args[5].parse().unwrap(), args[6].parse().unwrap(), args[7] == "thorough", Path::new(&args[8]));
            0
        }
        Some("replay-tape") | Some("replay") => {
            let own = if args[1] == "replay" { Some(make_scratch()) } else { None };
            let r = read_replay(Path::new(&args[2]));
            let p = find(&r["property"]).expect("prop");
            let mut code = 0;
            if let Some(subname) = r.get("sub") {
                install_panic_hook();
                let s = p.subs.iter().find(|s| s.name == *subname).expect("sub");
                let tape: Vec<u64> = r.get("tape").map(|t| t.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
                let mut src = Src::replay(tape);
                let param: i64 = r["param"].parse().unwrap();
                let thorough = r.get("tier").map(|t| t == "thorough").unwrap_or(false);
                let mut ctx = Ctx::new(s, param, thorough);
                let r2 = if r.get("tape").map(|t| t == "crash").unwrap_or(false) { Ok(()) } else { run_one(s.f, &mut src, &mut ctx) };
                if let Err(e) = r2 {
                    println!("case: {}\nbecause: {}", ctx.desc, e.msg);
                    code = 1;
                }
                if code == 0 && args[1] == "replay" {
                    // the failure may need the calls made before it in the same process
                    let out = scratch_root().join("replay-job");
                    let n: u64 = r["index"].parse::<u64>().unwrap() + 1;
                    if let JobEnd::Done(j) = spawn_job(p, s, param, r["seed"].parse().unwrap(), n, thorough, &out, Duration::from_secs(600), &AtomicBool::new(false)) {
                        if let Some((_, _, d, m)) = j.fail {
                            println!("after {} earlier cases of the same job, case: {}\nbecause: {}", n - 1, d, m);
                            code = 1;
                        }
                    }
                }
            }
            if args[1] == "replay" {
                if code == 1 {
                    println!("VIOLATION property={} replay={}", r["property"], args[2]);
                } else {
                    println!("replay passes");
                }
            }
            if let Some(d) = own {
                let _ = fs::remove_dir_all(&d);
            }
            code
        }
        _ => {
            println!("usage: {} run <property> [thorough] | replay <file> | list", args[0]);
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

fn make_scratch() -> PathBuf {
    let base = std::env::temp_dir();
    let d = base.join(format!("qsverif-{}", std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    std::env::set_var("VERIF_SCRATCH", &d);
    d
}
