//! Checks that drive the command-line program the way driver.sh does. They use no
//! function of the crate under test: only the binary, its files and its output.
#[path = "kit/mod.rs"]
mod kit;
use kit::mats::*;
use kit::refs::*;
use kit::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;

fn main() {
    main_with(vec![c01(), c02(), c03(), c04(), c05(), c06(), c08(), c19(), c26(), c27(), c28(), c29(), c30(), c31()])
}

// ------------------------------------------------------------------ running the program

fn bin() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("rust")
}

struct Ran {
    ok: bool,
    out: String,
    err: String,
}
/// Runs the program; no invocation the checks make takes more than a few seconds, so one
/// that has not ended after five minutes is taken to hang.
fn cli(dir: &Path, args: &[&str]) -> Ran {
    cli_limited(dir, args, None)
}
extern "C" {
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
/// The command, with the size of the files it may write limited (RLIMIT_FSIZE): a write that
/// crosses the limit is cut short, the next one fails and, unless SIGXFSZ is ignored, kills.
fn limited(cmd: &mut Command, limit: Option<(u64, bool)>) {
    use std::os::unix::process::CommandExt;
    if let Some((l, ignore)) = limit {
        unsafe {
            cmd.pre_exec(move || {
                setrlimit(4, &[0, 0]);
                if setrlimit(1, &[l, l]) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                signal(25, ignore as usize);
                Ok(())
            });
        }
    }
}
fn cli_limited(dir: &Path, args: &[&str], limit: Option<(u64, bool)>) -> Ran {
    // the join lists directories: they are listed in an order that is drawn anew for every content
    if args[0] == "join" && args.len() > 2 {
        return cli_with(dir, args, limit, &[("QS_SHIM_LIST", listing_seed(&dir.join(format!("results/pairs/{}/find_{}", args[1], args[2]))).to_string())]);
    }
    // the conversion to Hadamard matrices works in parallel: with a number of threads drawn likewise
    if args[0] == "convert" && args.len() > 3 && args[1] == "hm" && limit.is_none() {
        let k = listing_seed(&dir.join(format!("results/pairs/{}/find_{}", args[2], args[3])));
        return cli_with(dir, args, limit, &[("RAYON_NUM_THREADS", [1, 2, 3, 5, 8, 16][(k % 6) as usize].to_string())]);
    }
    cli_with(dir, args, limit, &[])
}
/// a number that depends on the files below the directory (names, sizes, beginnings) and on nothing else
fn listing_seed(d: &Path) -> u64 {
    use std::io::Read;
    let mut names: Vec<PathBuf> = fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    names.sort();
    let mut h = 0xcbf29ce484222325u64;
    let mut add = |b: &[u8]| b.iter().for_each(|x| h = (h ^ *x as u64).wrapping_mul(0x100000001b3));
    for p in names.into_iter().filter(|p| p.extension() != Some("log".as_ref())) {
        add(p.file_name().unwrap().to_string_lossy().as_bytes());
        if p.is_dir() {
            add(&listing_seed(&p).to_le_bytes());
        } else if let Ok(mut f) = fs::File::open(&p) {
            let mut b = [0u8; 2048];
            let k = f.read(&mut b).unwrap_or(0);
            add(&b[..k]);
            add(&f.metadata().map_or(0, |m| m.len()).to_le_bytes());
        }
    }
    h >> 16
}
/// harness/shim.c, which stands between the program and its file operations
fn shim() -> PathBuf {
    let p = bin().parent().unwrap().join("../shim.so");
    assert!(p.exists(), "{} was not built", p.display());
    p
}
fn cli_with(dir: &Path, args: &[&str], limit: Option<(u64, bool)>, env: &[(&str, String)]) -> Ran {
    use std::io::Read;
    let mut cmd = Command::new(bin());
    die_with_parent(&mut cmd);
    limited(&mut cmd, limit);
    if !env.is_empty() {
        cmd.env("LD_PRELOAD", shim());
        for (k, v) in env {
            cmd.env(k, v);
        }
    }
    let thorough = std::env::args().nth(7).map_or(false, |a| a == "thorough");
    let mut ch = cmd.args(args).current_dir(dir).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("run the program");
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let slurp = |r: &mut dyn Read| {
        let mut b = vec![];
        let _ = r.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    };
    let t = std::time::Instant::now();
    let mut hung = false;
    std::thread::scope(|sc| {
        let ho = sc.spawn(|| slurp(&mut o));
        let he = sc.spawn(|| slurp(&mut e));
        let st = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break st;
            }
            if t.elapsed().as_secs() > call_limit(thorough) && !hung {
                hung = true;
                let _ = ch.kill();
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        };
        let mut err = he.join().unwrap();
        if hung {
            err += NO_END;
        }
        Ran { ok: st.success(), out: ho.join().unwrap(), err }
    })
}
fn must(dir: &Path, args: &[&str]) -> Result<Ran, Fail> {
    let r = cli(dir, args);
    if r.ok {
        Ok(r)
    } else {
        Err(format!("`{}` failed: {}", args.join(" "), r.err.chars().take(400).collect::<String>()).into())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Conf {
    ty: Ty,
    n: usize,
    psd: bool,
    pairing: usize,
    /// 0: pairs; 1: rowsums + pairs_rowsum; 2: rowsums + create + pair_single
    stage: usize,
}
const PAIRINGS: [&str; 3] = ["WZ", "WX", "WY"];
impl Conf {
    fn d(&self) -> String {
        format!("{} n={} {} {} {}", self.ty.s(), self.n, if self.psd { "psd" } else { "correlation" }, PAIRINGS[self.pairing], ["pairs", "pairs_rowsum", "pair_single"][self.stage])
    }
    fn opt(&self) -> &'static str {
        if self.psd { "psd" } else { "correlation" }
    }
}
/// all 18 type x option x pairing combinations in turn, way of staging at random
fn conf(s: &mut Src, n: usize) -> Conf {
    let i = s.enumerated(18);
    Conf { ty: TYPES[i % 3], n, psd: (i / 3) % 2 == 0, pairing: i / 6, stage: s.below(3) }
}
/// searches beyond the grid: the types and lengths that still take seconds
fn deep(s: &mut Src, n: usize) -> Conf {
    Conf { ty: if n <= 12 { Ty::Qts } else { Ty::Ws }, n, psd: s.bool(), pairing: s.below(3), stage: s.below(3) }
}
const DEEP: [i64; 9] = [11, 12, 14, 15, 16, 17, 19, 20, 21];
const DEEP_RULE: &str = "parameter = length n; quaternion-type searches at n=11 and 12, Williamson searches above, random option, pairing and staging; one evaluation per listed sequence or class";
fn deep_params(more: &[i64]) -> Vec<i64> {
    DEEP.iter().chain(more).copied().collect()
}
fn find_dir(dir: &Path, ty: Ty, n: usize) -> PathBuf {
    dir.join(format!("results/pairs/{}/find_{}", ty.s(), n))
}

fn gen_pairs(dir: &Path, c: &Conf) -> Outcome {
    let (t, n) = (c.ty.s(), c.n.to_string());
    let fd = find_dir(dir, c.ty, c.n);
    fs::create_dir_all(&fd).unwrap();
    let p = PAIRINGS[c.pairing];
    if c.stage == 0 {
        must(dir, &["pairs", t, &n, c.opt(), p])?;
        return Ok(());
    }
    must(dir, &["rowsums", t, &n])?;
    let rs = fs::read_to_string(fd.join("rowsums.quad")).map_err(|e| e.to_string())?;
    for l in rs.lines() {
        let v: Vec<&str> = l.split_whitespace().collect();
        ensure!(v.len() == 4, "rowsums.quad line {:?}", l);
        if c.stage == 1 {
            must(dir, &["pairs_rowsum", t, &n, v[0], v[1], v[2], v[3], c.opt(), p])?;
        } else {
            must(dir, &["create", t, &n, v[0], v[1], v[2], v[3], p])?;
            // the two halves are independent jobs
            must(dir, &["pair_single", t, &n, v[0], v[1], v[2], v[3], c.opt(), p, "2"])?;
            must(dir, &["pair_single", t, &n, v[0], v[1], v[2], v[3], c.opt(), p, "1"])?;
        }
    }
    Ok(())
}
/// what sortpairs.sh does: byte-wise sort of every .pair file
fn sort_pairs(dir: &Path, ty: Ty, n: usize) {
    for d in fs::read_dir(find_dir(dir, ty, n)).unwrap() {
        let d = d.unwrap().path();
        if d.is_dir() {
            for f in fs::read_dir(&d).unwrap() {
                let f = f.unwrap().path();
                if f.extension().map_or(false, |e| e == "pair") {
                    sort_file(&f);
                }
            }
        }
    }
}
fn sort_file(f: &Path) {
    let b = fs::read(f).unwrap();
    let mut l: Vec<&[u8]> = b.split(|&c| c == b'\n').collect();
    if l.last().map_or(false, |x| x.is_empty()) {
        l.pop();
    }
    l.sort();
    let mut o: Vec<u8> = Vec::with_capacity(b.len() + 1);
    for x in l {
        o.extend_from_slice(x);
        o.push(b'\n');
    }
    let mut g = f.as_os_str().to_owned();
    g.push(".sorted");
    fs::write(PathBuf::from(g), o).unwrap();
    fs::remove_file(f).unwrap();
}

struct Res {
    dir: PathBuf,
    fd: PathBuf,
    quads: Vec<Quad>,
    qts: Option<Vec<Quad>>,
    out: String,
}
impl Drop for Res {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}
fn read_quads(f: &Path, n: usize) -> Result<Vec<Quad>, Fail> {
    let s = fs::read_to_string(f).map_err(|e| format!("{}: {}", f.display(), e))?;
    let name = f.file_name().unwrap().to_string_lossy().to_string();
    let mut v = vec![];
    for l in s.lines() {
        let q = decode(l).ok_or_else(|| Fail::from(format!("{}: line {:?} is not a Q+ sequence", name, l)))?;
        ensure!(q[0].len() == n, "{}: line {:?} has length {} instead of {}", name, l, q[0].len(), n);
        v.push(q);
    }
    Ok(v)
}
fn run(c: &Conf) -> Result<Res, Fail> {
    let dir = fresh_dir("run");
    let fd = find_dir(&dir, c.ty, c.n);
    let mut r = Res { dir: dir.clone(), fd: fd.clone(), quads: vec![], qts: None, out: String::new() };
    gen_pairs(&dir, c)?;
    sort_pairs(&dir, c.ty, c.n);
    r.out = must(&dir, &["join", c.ty.s(), &c.n.to_string()])?.out;
    r.quads = read_quads(&fd.join("result.seq"), c.n)?;
    if c.ty == Ty::Wts {
        r.qts = Some(read_quads(&fd.join("result-qts.seq"), c.n)?);
    }
    Ok(r)
}

// ------------------------------------------------------------------ oracles, cached per process

fn brute(n: usize, ty: Ty) -> BTreeSet<Key> {
    static C: Mutex<Option<HashMap<(usize, Ty), BTreeSet<Key>>>> = Mutex::new(None);
    if let Some(x) = C.lock().unwrap().get_or_insert_with(HashMap::new).get(&(n, ty)) {
        return x.clone();
    }
    let v = brute_classes(n, ty);
    C.lock().unwrap().as_mut().unwrap().insert((n, ty), v.clone());
    v
}
/// QT classes of all Williamson-type quadruples, from the Williamson-type classes
fn qt_classes_of_wts(wts: &BTreeSet<Key>) -> BTreeSet<Key> {
    let mut out = BTreeSet::new();
    for k in wts {
        let q = key_quad(k);
        let n = q[0].len();
        for sg in masks() {
            for hs in masks() {
                if n % 2 == 1 && hs.iter().any(|x| *x) {
                    continue;
                }
                let mut r = q.clone();
                for t in 0..4 {
                    if hs[t] {
                        r[t] = shift(&r[t], n / 2);
                    }
                    if sg[t] {
                        r[t] = neg(&r[t]);
                    }
                }
                out.insert(class_key(&r, Ty::Qts));
            }
        }
    }
    out
}

// ------------------------------------------------------------------ C01 soundness

/// the .qseq file: blocks "[", four lines "  [+-..]", "]"
fn read_qseq(f: &Path) -> Result<Vec<Quad>, Fail> {
    let s = fs::read_to_string(f).map_err(|e| e.to_string())?;
    let l: Vec<&str> = s.lines().map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
    ensure!(l.len() % 6 == 0, "result.qseq has {} lines", l.len());
    let mut v = vec![];
    for b in l.chunks(6) {
        ensure!(b[0] == "[" && b[5] == "]", "result.qseq block {:?}", b);
        let mut q: Quad = Default::default();
        for t in 0..4 {
            let x = b[t + 1].trim_start_matches('[').trim_end_matches(']');
            q[t] = parse_pm(x).ok_or_else(|| Fail::from(format!("result.qseq line {:?}", b[t + 1])))?;
        }
        v.push(q);
    }
    Ok(v)
}
fn sound(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cf = conf(s, c.param as usize);
    sound_of(cf, c)
}
fn sound_deep(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cf = deep(s, c.param as usize);
    sound_of(cf, c)
}
fn sound_of(cf: Conf, c: &mut Ctx) -> Outcome {
    c.desc(cf.d());
    let r = run(&cf)?;
    c.label(cf.ty.s());
    c.weight = r.quads.len().max(1) as u64;
    c.nontrivial(!r.quads.is_empty());
    for q in &r.quads {
        ensure!(is_type(q, cf.ty), "result.seq lists {} = [{}], which is not a valid {}", encode(q), quad_str(q), cf.ty.s());
        ensure!(perfect(&quats(q)), "result.seq lists {}, which is not a perfect quaternion sequence", encode(q));
    }
    let same = |f: &str, v: &Vec<Quad>| -> Outcome {
        let w = read_qseq(&r.fd.join(f))?;
        ensure!(&w == v, "{} does not list the same quadruples as the .seq file", f);
        Ok(())
    };
    same("result.qseq", &r.quads)?;
    if let Some(v) = &r.qts {
        for q in v {
            ensure!(is_wts(q) && is_qts(q), "result-qts.seq lists {} = [{}], which is not a valid Williamson-type / QT quadruple", encode(q), quad_str(q));
        }
        same("result-qts.qseq", v)?;
    }
    let want = format!("Found {} {} after reducing to equivalence", r.quads.len(), cf.ty.s());
    ensure!(r.out.contains(&want), "the log does not report {:?}", want);
    if let Some(v) = &r.qts {
        let want = format!("Found {} qts after reducing to equivalence", v.len());
        ensure!(r.out.contains(&want), "the log does not report {:?}", want);
    }
    Ok(())
}
fn grid(lo: i64, hi: i64) -> Vec<i64> {
    (lo..=hi).collect()
}
const GRID_RULE: &str = "parameter = length n; case = sequence type x matching option x pairing (all 18 combinations in turn) x way of staging (pairs / pairs_rowsum / create + pair_single, random); one evaluation per listed sequence; non-trivial = at least one sequence was listed";
fn c01() -> Prop {
    Prop {
        id: "C01",
        subs: vec![
            Sub { name: "search", f: sound, rule: GRID_RULE, params: grid(1, 10), quick: 18, thorough: 54 },
            Sub { name: "search-large", f: large_sound, rule: "like search, at n=11..13 (wts/ws with one option and pairing drawn per case)", params: vec![11, 12, 13], quick: 2, thorough: 8 },
            Sub { name: "search-deep", f: sound_deep, rule: DEEP_RULE, params: deep_params(&[23]), quick: 2, thorough: 12 },
        ],
        assumptions: vec![SCOPE],
    }
}
const SCOPE: &str = "the files are sorted byte-wise as `LC_ALL=C sort` does in sortpairs.sh (done in-process; C26 runs the real script)";
fn large_sound(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = if n > 11 || s.bool() { Ty::Wts } else { Ty::Ws };
    let cf = Conf { ty, n, psd: s.bool(), pairing: s.below(3), stage: s.below(3) };
    c.desc(cf.d());
    let r = run(&cf)?;
    c.nontrivial(!r.quads.is_empty());
    c.weight = r.quads.len().max(1) as u64;
    for q in r.quads.iter().chain(r.qts.iter().flatten()) {
        ensure!(is_wts(q) && (cf.ty != Ty::Ws || is_ws(q)), "listed {} is not a valid {}", encode(q), cf.ty.s());
    }
    Ok(())
}

// ------------------------------------------------------------------ C02 completeness

fn describe_missing(have: &BTreeSet<Key>, want: &BTreeSet<Key>) -> String {
    let m: Vec<String> = want.difference(have).take(3).map(|k| format!("{} = [{}]", encode(&key_quad(k)), quad_str(&key_quad(k)))).collect();
    format!("{} of {} classes missing, e.g. {}", want.difference(have).count(), want.len(), m.join(" ; "))
}
fn complete(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cf = conf(s, c.param as usize);
    let want = brute(cf.n, cf.ty);
    complete_of(cf, want, c)
}
fn complete_deep(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cf = deep(s, c.param as usize);
    let want = if cf.ty == Ty::Qts { data::published(cf.n, "qts").iter().map(|q| class_key(q, Ty::Qts)).collect() } else { brute(cf.n, cf.ty) };
    complete_of(cf, want, c)
}
fn complete_of(cf: Conf, want: BTreeSet<Key>, c: &mut Ctx) -> Outcome {
    c.desc(cf.d());
    let r = run(&cf)?;
    let have: BTreeSet<Key> = r.quads.iter().map(|q| class_key(q, cf.ty)).collect();
    c.nontrivial(!want.is_empty());
    c.label(format!("{} classes: {}", cf.ty.s(), want.len()));
    c.weight = want.len().max(1) as u64;
    ensure!(want.is_subset(&have), "the search is not exhaustive: {}", describe_missing(&have, &want));
    Ok(())
}
fn complete_large(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = if c.thorough && n <= 11 { *s.pick(&TYPES) } else if n >= 13 && !c.thorough { Ty::Wts } else if s.bool() { Ty::Ws } else { Ty::Wts };
    let cf = Conf { ty, n, psd: s.bool(), pairing: s.below(3), stage: s.below(2) };
    c.desc(cf.d());
    let want = if n <= 12 || ty == Ty::Ws {
        brute(n, ty)
    } else {
        data::published(n, "wts").iter().map(|q| class_key(q, Ty::Wts)).collect()
    };
    let r = run(&cf)?;
    let have: BTreeSet<Key> = r.quads.iter().map(|q| class_key(q, ty)).collect();
    c.nontrivial(!want.is_empty());
    c.weight = want.len().max(1) as u64;
    ensure!(want.is_subset(&have), "the search is not exhaustive: {}", describe_missing(&have, &want));
    Ok(())
}
fn c02() -> Prop {
    Prop {
        id: "C02",
        subs: vec![
            Sub { name: "exhaustive", f: complete, rule: "parameter = n; all 18 type x option x pairing combinations in turn, staging random; the classes found are compared with those of an independent exhaustive enumeration; one evaluation per class; non-trivial = the enumeration found a class", params: grid(1, 9), quick: 18, thorough: 36 },
            Sub { name: "exhaustive-large", f: complete_large, rule: "n=10..13 with random option and pairing; oracle: exhaustive enumeration, and at n=13 wts the published classification in wts-results", params: vec![10, 11, 12, 13], quick: 2, thorough: 12 },
            Sub { name: "exhaustive-deep", f: complete_deep, rule: DEEP_RULE, params: deep_params(&[18, 23]), quick: 2, thorough: 12 },
        ],
        assumptions: vec![SCOPE, "n=13 (wts), n=11 and 12 (qts): the published list of classes is complete"],
    }
}

// ------------------------------------------------------------------ C03 irredundancy

fn irred(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let cf = if n <= 10 { conf(s, n) } else { Conf { ty: if s.bool() { Ty::Ws } else { Ty::Wts }, n, psd: s.bool(), pairing: s.below(3), stage: s.below(3) } };
    irred_of(cf, c)
}
fn irred_deep(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cf = deep(s, c.param as usize);
    irred_of(cf, c)
}
fn irred_of(cf: Conf, c: &mut Ctx) -> Outcome {
    c.desc(cf.d());
    let r = run(&cf)?;
    c.nontrivial(r.quads.len() > 1);
    c.weight = r.quads.len().max(1) as u64;
    let mut seen: BTreeMap<Key, &Quad> = BTreeMap::new();
    for q in &r.quads {
        if let Some(o) = seen.insert(class_key(q, cf.ty), q) {
            return Err(format!("result.seq lists {} and {}, which are equivalent {}", encode(o), encode(q), cf.ty.s()).into());
        }
    }
    Ok(())
}
fn c03() -> Prop {
    Prop {
        id: "C03",
        subs: vec![
            Sub { name: "irredundant", f: irred, rule: "parameter = n; type x option x pairing (all in turn for n<=10) x staging; class invariants of the listed sequences compared; non-trivial = at least two sequences listed", params: grid(1, 10), quick: 18, thorough: 36 },
            Sub { name: "irredundant-large", f: irred, rule: "n=11..13, wts/ws, random option, pairing, staging", params: vec![11, 12, 13], quick: 2, thorough: 8 },
            Sub { name: "irredundant-deep", f: irred_deep, rule: DEEP_RULE, params: deep_params(&[18]), quick: 2, thorough: 12 },
        ],
        assumptions: vec![SCOPE],
    }
}

// ------------------------------------------------------------------ C04 the QT list of a wts run

fn qtlist(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let cf = Conf { ty: Ty::Wts, n, psd: s.bool(), pairing: s.below(3), stage: s.below(3) };
    c.desc(cf.d());
    let wts: BTreeSet<Key> = if n <= 12 { brute(n, Ty::Wts) } else { data::published(n, "wts").iter().map(|q| class_key(q, Ty::Wts)).collect() };
    let want = qt_classes_of_wts(&wts);
    let r = run(&cf)?;
    let qts = r.qts.as_ref().unwrap();
    c.nontrivial(want.len() > wts.len());
    c.weight = want.len().max(1) as u64;
    let mut have: BTreeSet<Key> = BTreeSet::new();
    for q in qts {
        ensure!(have.insert(class_key(q, Ty::Qts)), "result-qts.seq lists two QT-equivalent sequences: {} is equivalent to an earlier line", encode(q));
    }
    ensure!(want.is_subset(&have), "result-qts.seq: {}", describe_missing(&have, &want));
    Ok(())
}
fn c04() -> Prop {
    Prop {
        id: "C04",
        subs: vec![Sub { name: "qt-list", f: qtlist, rule: "parameter = n; option, pairing, staging random; oracle: every sign and half-shift pattern applied to every Williamson-type class (exhaustive enumeration; n=13: published); non-trivial = more QT than Williamson-type classes", params: grid(1, 13), quick: 5, thorough: 18 }],
        assumptions: vec![SCOPE],
    }
}

// ------------------------------------------------------------------ C05 configuration independence

fn config(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = if n > 13 { Ty::Ws } else if n > 10 { Ty::Wts } else { TYPES[s.enumerated(3)] };
    let a = Conf { ty, n, psd: true, pairing: 0, stage: 0 };
    let b = Conf { ty, n, psd: s.bool(), pairing: s.below(3), stage: s.below(3) };
    c.desc(format!("{} versus {}", a.d(), b.d()));
    c.nontrivial(a != b);
    let (ra, rb) = (run(&a)?, run(&b)?);
    let set = |v: &Vec<Quad>| v.iter().map(encode).collect::<BTreeSet<_>>();
    ensure!(ra.quads.len() == rb.quads.len() && set(&ra.quads) == set(&rb.quads), "result.seq differs: {:?} versus {:?}", set(&ra.quads), set(&rb.quads));
    if let (Some(x), Some(y)) = (&ra.qts, &rb.qts) {
        ensure!(x.len() == y.len() && set(x) == set(y), "result-qts.seq differs: {:?} versus {:?}", set(x), set(y));
    }
    Ok(())
}
fn twotypes(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let a = Conf { ty: Ty::Wts, n, psd: s.bool(), pairing: s.below(3), stage: s.below(3) };
    let b = Conf { ty: Ty::Qts, n, psd: s.bool(), pairing: s.below(3), stage: s.below(3) };
    let w = Conf { ty: Ty::Ws, n, psd: s.bool(), pairing: s.below(3), stage: s.below(3) };
    c.desc(format!("{} / {} / {}", a.d(), b.d(), w.d()));
    c.nontrivial(true);
    let (ra, rb, rw) = (run(&a)?, run(&b)?, run(&w)?);
    let set = |v: &Vec<Quad>| v.iter().map(encode).collect::<BTreeSet<_>>();
    // every QT sequence of length at most 11 is of Williamson type (exhaustively enumerated, see C02)
    ensure!(set(ra.qts.as_ref().unwrap()) == set(&rb.quads), "the QT list of the wts run {:?} is not the qts run's list {:?}", set(ra.qts.as_ref().unwrap()), set(&rb.quads));
    // every Williamson sequence is a Williamson-type sequence
    let keys: BTreeSet<Key> = ra.quads.iter().map(|q| class_key(q, Ty::Wts)).collect();
    for q in &rw.quads {
        ensure!(keys.contains(&class_key(q, Ty::Wts)), "the ws run lists {}, whose class the wts run does not list", encode(q));
    }
    Ok(())
}
fn c05() -> Prop {
    Prop {
        id: "C05",
        subs: vec![
            Sub { name: "options", f: config, rule: "parameter = n; default configuration against a random option x pairing x staging for each type in turn; non-trivial = the configurations differ", params: grid(1, 10), quick: 12, thorough: 54 },
            Sub { name: "options-large", f: config, rule: "the same for wts at n=11..13", params: vec![11, 12, 13], quick: 1, thorough: 8 },
            Sub { name: "options-deep", f: config, rule: "the same for ws at n=14..21", params: vec![14, 15, 16, 17, 19, 20, 21], quick: 2, thorough: 20 },
            Sub { name: "across-types", f: twotypes, rule: "parameter = n; wts, qts and ws runs with independent random configurations; the QT lists agree and the ws classes are among the wts classes", params: grid(1, 10), quick: 3, thorough: 12 },
        ],
        assumptions: vec![SCOPE, "every QT sequence of length at most 10 is amicable (confirmed by the exhaustive enumerations of C02)"],
    }
}

// ------------------------------------------------------------------ C06 Hadamard list

fn check_mat(fd: &Path, source: &[Quad], n: usize) -> Outcome {
    let s = fs::read_to_string(fd.join("result.mat")).map_err(|e| format!("result.mat: {}", e))?;
    let mut canons = vec![];
    let mut profs = vec![];
    for l in s.lines() {
        let m = parse_mat(l).ok_or_else(|| Fail::from(format!("result.mat line {:?}", l.chars().take(80).collect::<String>())))?;
        ensure!(m.len() == 4 * n && is_hadamard(&m), "result.mat lists a matrix that is not a Hadamard matrix of order {}: {}", 4 * n, l.chars().take(200).collect::<String>());
        let k = had_canon(&m);
        ensure!(!canons.contains(&k), "result.mat lists two equivalent matrices");
        canons.push(k);
        profs.push(had_profile(&m));
    }
    let src: Vec<_> = source.iter().map(|q| had_canon(&block_hadamard(q))).collect();
    for (q, k) in source.iter().zip(&src) {
        ensure!(canons.contains(k), "no matrix of result.mat is equivalent to the Hadamard matrix of {}", encode(q));
    }
    for (i, k) in canons.iter().enumerate() {
        ensure!(src.contains(k), "matrix {} of result.mat is not equivalent to the matrix of any listed sequence", i + 1);
    }
    let sp: BTreeSet<_> = source.iter().map(|q| had_profile(&block_hadamard(q))).collect();
    ensure!(sp == profs.into_iter().collect(), "the 4-row profiles of result.mat differ from those of the sequences' matrices");
    Ok(())
}
fn hadamard(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let cf = if n <= 9 { conf(s, n) } else { Conf { ty: if s.bool() { Ty::Ws } else { Ty::Wts }, n, psd: s.bool(), pairing: s.below(3), stage: 0 } };
    c.desc(cf.d());
    let r = run(&cf)?;
    let conv = must(&r.dir, &["convert", "hm", cf.ty.s(), &n.to_string()])?;
    let source = r.qts.clone().unwrap_or(r.quads.clone());
    c.nontrivial(source.len() > 1);
    c.weight = source.len().max(1) as u64;
    check_mat(&r.fd, &source, n)?;
    let lines = fs::read_to_string(r.fd.join("result.mat")).unwrap().lines().count();
    ensure!(conv.out.contains(&format!("up to equivalence : {}", lines)), "convert reports another number of matrices than the {} it lists", lines);
    Ok(())
}
/// convert a hand-made list, with equivalent copies and several classes
fn convert_list(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = if s.bool() { Ty::Qts } else { Ty::Wts };
    let pool: Vec<Quad> = data::quads(n, Ty::Wts);
    let long = c.sub == "lists-long";
    let m = if long { s.range(10, 60) } else if c.sub == "lists-huge" { s.range(1, 2) } else { s.range(1, 4) };
    let mut list = vec![];
    for _ in 0..m {
        let q = s.pick(&pool).clone();
        for _ in 0..s.range(1, 2) {
            list.push(data::rand_elem(s, n, Ty::Qts).apply(&q));
        }
    }
    let dir = fresh_dir("conv");
    let fd = find_dir(&dir, ty, n);
    fs::create_dir_all(&fd).unwrap();
    let text: String = list.iter().map(|q| encode(q) + "\n").collect();
    c.desc(format!("convert hm {} {}: {}", ty.s(), n, text.replace('\n', " ")));
    c.nontrivial(list.len() > 1);
    c.weight = list.len() as u64;
    fs::write(fd.join(if ty == Ty::Wts { "result-qts.seq" } else { "result.seq" }), &text).unwrap();
    must(&dir, &["convert", "hm", ty.s(), &n.to_string()])?;
    let r = check_mat(&fd, &list, n);
    let _ = fs::remove_dir_all(&dir);
    r
}
/// a list with an invalid quadruple is refused
fn convert_bad(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = *s.pick(&TYPES);
    let pool: Vec<Quad> = data::quads(n, ty);
    if pool.is_empty() {
        return Ok(());
    }
    let mut list: Vec<Quad> = vec![];
    for _ in 0..s.range(1, 3) {
        let q = s.pick(&pool).clone();
        list.push(data::rand_elem(s, n, ty).apply(&q));
    }
    let i = s.below(list.len());
    let (t, p) = (s.below(4), s.below(n));
    list[i][t][p] *= -1;
    let bad = !is_type(&list[i], ty);
    let dir = fresh_dir("bad");
    let fd = find_dir(&dir, ty, n);
    fs::create_dir_all(&fd).unwrap();
    let text: String = list.iter().map(|q| encode(q) + "\n").collect();
    c.desc(format!("convert hm {} {}: {} (line {} spoilt)", ty.s(), n, text.replace('\n', " "), i + 1));
    c.nontrivial(bad);
    fs::write(fd.join(if ty == Ty::Wts { "result-qts.seq" } else { "result.seq" }), &text).unwrap();
    let r = cli(&dir, &["convert", "hm", ty.s(), &n.to_string()]);
    let wrote = fs::read_to_string(fd.join("result.mat")).unwrap_or_default();
    let _ = fs::remove_dir_all(&dir);
    if bad {
        ensure!(!r.ok || wrote.lines().all(|l| parse_mat(l).map_or(false, |m| is_hadamard(&m))), "a quadruple that is not a {} was converted into a matrix that is not Hadamard", ty.s());
    }
    Ok(())
}
fn c06() -> Prop {
    Prop {
        id: "C06",
        subs: vec![
            Sub { name: "pipeline", f: hadamard, rule: "parameter = n; search (type, option, pairing) followed by convert hm; result.mat compared with the matrices of the listed sequences (built independently; equivalence by canonical labelling of another graph encoding, and 4-row profiles); non-trivial = at least two sequences", params: grid(1, 11), quick: 6, thorough: 36 },
            Sub { name: "lists", f: convert_list, rule: "parameter = n; random lists of 1..8 valid quadruples (up to 4 classes, each moved by random QT equivalences); non-trivial = at least two", params: vec![1, 2, 4, 6, 7, 8], quick: 20, thorough: 200 },
            Sub { name: "lists-large", f: convert_list, rule: "like lists", params: vec![9, 10, 12, 13], quick: 7, thorough: 160 },
            Sub { name: "lists-huge", f: convert_list, rule: "the same for 1 or 2 sequences", params: vec![15, 16, 18, 20, 25], quick: 1, thorough: 40 },
            Sub { name: "lists-long", f: convert_list, rule: "lists of 10 to 120 members", params: vec![1, 2, 3, 4, 5], quick: 5, thorough: 60 },
            Sub { name: "spoilt", f: convert_bad, rule: "lists with one entry flipped; never yields a non-Hadamard matrix; non-trivial = the flipped quadruple is invalid", params: vec![3, 5, 8, 12], quick: 15, thorough: 150 },
        ],
        assumptions: vec![SCOPE, "graph_canon computes a canonical labelling (used by the oracle on an independent encoding); distinctness is cross-checked with 4-row profiles"],
    }
}

// ------------------------------------------------------------------ C08 quaternionic Hadamard output

fn qhm_check(dir: &Path, ty: Ty, n: usize, list: &[Quad]) -> Outcome {
    let r = must(dir, &["convert", "qhm", ty.s(), &n.to_string()])?;
    let text = fs::read_to_string(find_dir(dir, ty, n).join("result.qhm")).map_err(|e| e.to_string())?;
    let b = qhm_blocks(&text, n)?;
    ensure!(b.len() == list.len(), "result.qhm has {} matrices for {} sequences", b.len(), list.len());
    let mut nc = 0;
    for (m, q) in b.iter().zip(list) {
        if let Err(e) = is_normal_qhm(m) {
            return Err(format!("the matrix listed for {} is not a normalised quaternionic Hadamard matrix: {}", encode(q), e).into());
        }
        ensure!(same_up_to_conjugation(m, &normal_qhm(q)), "the matrix listed for {} is not the normalised circulant matrix of that sequence", encode(q));
        nc += noncommuting(m) as usize;
    }
    let want = format!("converted {} sequences of size {}. {} contained non-commuting elements.", list.len(), n, nc);
    ensure!(r.out.contains(&want), "expected the report {:?}, got {:?}", want, r.out.lines().last());
    Ok(())
}
fn qhm_pipeline(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cf = conf(s, c.param as usize);
    c.desc(cf.d());
    let r = run(&cf)?;
    c.nontrivial(!r.quads.is_empty());
    c.weight = r.quads.len().max(1) as u64;
    qhm_check(&r.dir, cf.ty, cf.n, &r.quads)
}
fn qhm_list(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let pool: Vec<Quad> = data::quads(n, Ty::Wts);
    let m = if c.sub == "lists-long" { s.range(20, 300) } else { s.range(1, 6) };
    let list: Vec<Quad> = (0..m).map(|_| {
        let q = s.pick(&pool).clone();
        data::rand_elem(s, n, Ty::Wts).apply(&q)
    }).collect();
    let dir = fresh_dir("qhm");
    let fd = find_dir(&dir, Ty::Wts, n);
    fs::create_dir_all(&fd).unwrap();
    let text: String = list.iter().map(|q| encode(q) + "\n").collect();
    c.desc(format!("convert qhm wts {}: {}", n, text.replace('\n', " ")));
    c.nontrivial(true);
    c.weight = m as u64;
    fs::write(fd.join("result.seq"), &text).unwrap();
    let r = qhm_check(&dir, Ty::Wts, n, &list);
    let _ = fs::remove_dir_all(&dir);
    r
}
fn qhm_all(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = *s.pick(&TYPES);
    let pool: Vec<Quad> = data::quads(n, ty);
    if pool.is_empty() {
        return Ok(());
    }
    let g = group(n, ty);
    let m = s.range(1, 2);
    let list: Vec<Quad> = (0..m).map(|_| {
        let q = s.pick(&pool).clone();
        data::rand_elem(s, n, ty).apply(&q)
    }).collect();
    c.desc(format!("qhm-all {} {}: {}", ty.s(), n, list.iter().map(encode).collect::<Vec<_>>().join(" ")));
    c.nontrivial(true);
    let orbit: BTreeSet<String> = list.iter().flat_map(|q| g.iter().map(move |e| encode(&e.apply(q)))).collect();
    c.weight = orbit.len() as u64;
    let dir = fresh_dir("qall");
    let fd = find_dir(&dir, ty, n);
    fs::create_dir_all(&fd).unwrap();
    fs::write(fd.join("result.seq"), list.iter().map(|q| encode(q) + "\n").collect::<String>()).unwrap();
    must(&dir, &["qhm-all", ty.s(), &n.to_string()])?;
    let b = qhm_blocks(&fs::read_to_string(fd.join("qhm_all.mat")).map_err(|e| e.to_string())?, n)?;
    let _ = fs::remove_dir_all(&dir);
    ensure!(b.len() == orbit.len(), "qhm_all.mat has {} matrices, the classes have {} members", b.len(), orbit.len());
    // least conjugate of a matrix, to compare the multisets
    let norm = |m: &Vec<Vec<Qd>>| -> Vec<Vec<Qd>> {
        LETTERS.chars().map(|u| {
            let u = letter_quat(u).unwrap();
            m.iter().map(|x| x.iter().map(|p| qmul(qmul(u, *p), qconj(u))).collect()).collect::<Vec<Vec<Qd>>>()
        }).min().unwrap()
    };
    let mut have: BTreeMap<Vec<Vec<Qd>>, i64> = BTreeMap::new();
    for m in &b {
        if let Err(e) = is_normal_qhm(m) {
            return Err(format!("qhm_all.mat lists a matrix that is not a normalised quaternionic Hadamard matrix: {}", e).into());
        }
        *have.entry(norm(m)).or_insert(0) += 1;
    }
    for o in &orbit {
        *have.entry(norm(&normal_qhm(&decode(o).unwrap()))).or_insert(0) -= 1;
    }
    ensure!(have.values().all(|x| *x == 0), "qhm_all.mat does not list exactly the matrices of the equivalent sequences");
    Ok(())
}
fn c08() -> Prop {
    Prop {
        id: "C08",
        subs: vec![
            Sub { name: "pipeline", f: qhm_pipeline, rule: "parameter = n; search then convert qhm; one evaluation per sequence; non-trivial = a sequence was listed", params: grid(1, 9), quick: 9, thorough: 36 },
            Sub { name: "lists", f: qhm_list, rule: "parameter = n; 1..6 known quadruples moved by random Williamson-type equivalences, written to result.seq", params: vec![1, 2, 3, 4, 7, 8, 12, 15, 16, 20, 21, 27, 33, 36, 60], quick: 100, thorough: 400 },
            Sub { name: "lists-long", f: qhm_list, rule: "the same for lists of 20 to 300", params: vec![1, 2, 3, 5, 8], quick: 6, thorough: 60 },
            Sub { name: "all", f: qhm_all, rule: "parameter = n; qhm-all on 1..2 random representatives; compared with the orbits under an independently written group; one evaluation per matrix", params: vec![1, 2, 3, 4, 5, 6], quick: 3, thorough: 24 },
        ],
        assumptions: vec!["a normalisation is unique up to conjugation by a unit; the output is accepted up to that"],
    }
}

// ------------------------------------------------------------------ C19 join of sorted files

/// One to three rowsum directories built by hand: sequence files, and pair files whose keys agree
/// exactly for the pairs to be matched. Keys are strings of integers as the pair writer
/// makes them, including keys that are prefixes of one another and negative ones.
fn join_files(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = TYPES[s.enumerated(3)];
    let pool: Vec<Quad> = data::quads(n, ty);
    if pool.is_empty() {
        return Ok(());
    }
    let long = c.sub == "join-long";
    let dir = fresh_dir("join");
    let fd = find_dir(&dir, ty, n);
    let mut want: BTreeSet<Key> = BTreeSet::new();
    let mut desc = format!("join {} n={} ", ty.s(), n);
    let numbers = if s.chance(1, 3) { s.range(2, 3) } else { 1 };
    c.label(format!("{} directories", numbers));
    for number in 0..numbers {
        let nplant = if long { s.range(2, 12) } else { s.range(0, 3) };
        let mut planted: Vec<Quad> = vec![];
        for _ in 0..nplant {
            let q = s.pick(&pool).clone();
            planted.push(data::rand_elem(s, n, ty).apply(&q));
        }
        // sequence files: planted and random ones, shuffled
        let mut files: Vec<Vec<Seq>> = vec![vec![]; 4];
        for t in 0..4 {
            for q in &planted {
                if !files[t].contains(&q[t]) {
                    files[t].push(q[t].clone());
                }
            }
            for _ in 0..if long { s.range(8, 40) } else { s.range(1, 4) } {
                let mut x = s.pm(n);
                if ty == Ty::Ws {
                    for i in 1..n {
                        x[i] = x[i.min(n - i)];
                    }
                }
                if !files[t].contains(&x) {
                    files[t].push(x);
                }
            }
            s.shuffle(&mut files[t]);
        }
        let order = *s.pick(&[[0usize, 3, 1, 2], [0, 1, 2, 3], [0, 2, 1, 3], [3, 0, 2, 1], [2, 3, 1, 0]]);
        // keys: the true matching data; half the time replaced by an injective renaming
        let names = ["W", "X", "Y", "Z"];
        let value = |a: &Seq, b: &Seq, ta: usize, tb: usize, side: i64| -> Vec<i64> {
            let mut v: Vec<i64> = (1..=n / 2).map(|t| side * (paf(a, t) + paf(b, t))).collect();
            if ty == Ty::Qts {
                let sg = [[0, 1, -1, -1], [-1, 0, 1, -1], [1, -1, 0, -1], [1, 1, 1, 0]][ta][tb];
                v.extend((1..=n / 2).map(|t| side * sg * (ccf(a, b, t) - ccf(b, a, t))));
            }
            v
        };
        let mut keys: BTreeMap<Vec<i64>, String> = BTreeMap::new();
        let style = s.below(4);
        let mut lines: [Vec<String>; 2] = [vec![], vec![]];
        let mut count: [usize; 2] = [0, 0];
        let mut used: BTreeSet<String> = BTreeSet::new();
        for side in 0..2 {
            let (ta, tb) = (order[2 * side], order[2 * side + 1]);
            for (i, a) in files[ta].iter().enumerate() {
                for (j, b) in files[tb].iter().enumerate() {
                    if ty == Ty::Wts && (1..n).any(|t| ccf(a, b, t) != ccf(b, a, t)) {
                        continue;
                    }
                    let v = value(a, b, ta, tb, if side == 0 { 1 } else { -1 });
                    let k = keys.entry(v.clone()).or_insert_with(|| {
                        if style == 0 || v.is_empty() {
                            return v.iter().map(|x| format!("{}_", x)).collect::<String>() + if v.is_empty() { "_" } else { "" };
                        }
                        // an unused key, preferring numerals that are prefixes of one another
                        loop {
                            let vals = [0i64, 4, 40, 404, -4, -40, 3, 30, 32, 1, 10, 100, 12, 2, 20];
                            let mut k = String::new();
                            for _ in 0..v.len() {
                                k += &format!("{}_", vals[s.below(if style == 1 { 5 } else { vals.len() })]);
                            }
                            if used.len() > 5 * (1 << v.len().min(16)) {
                                k = format!("{}_{}", used.len() + 1000, k);
                            }
                            if used.insert(k.clone()) {
                                return k;
                            }
                            // out of luck: make it unique
                            k = format!("{}{}", used.len() + 500, k);
                            if used.insert(k.clone()) {
                                return k;
                            }
                        }
                    });
                    lines[side].push(format!("{}:_{}_{}", k, i, j));
                    count[side] += 1;
                }
            }
            lines[side].sort();
        }
        let rd = fd.join(["rowsum_1_1_1_1", "rowsum_1_1_3_5", "rowsum_0_2_2_-4"][number]);
        fs::create_dir_all(&rd).unwrap();
        for t in 0..4 {
            fs::write(rd.join(format!("seq_{}.seq", names[t])), files[t].iter().map(|x| pm_str(x) + "\n").collect::<String>()).unwrap();
        }
        for side in 0..2 {
            fs::write(rd.join(format!("pair_{}{}.pair.sorted", names[order[2 * side]], names[order[2 * side + 1]])), lines[side].iter().map(|x| x.clone() + "\n").collect::<String>()).unwrap();
        }
        // expected: every valid quadruple of the product of the four files (only those whose two
        // pairs have opposite correlations can be valid)
        let mut left: HashMap<Vec<i64>, Vec<(usize, usize)>> = HashMap::new();
        let auto = |a: &Seq, b: &Seq| -> Vec<i64> { (1..=n / 2).map(|t| paf(a, t) as i64 + paf(b, t) as i64).collect() };
        for (i, a) in files[0].iter().enumerate() {
            for (j, b) in files[1].iter().enumerate() {
                left.entry(auto(a, b)).or_default().push((i, j));
            }
        }
        for x in &files[2] {
            for y in &files[3] {
                for (i, j) in left.get(&auto(x, y).iter().map(|v| -v).collect::<Vec<i64>>()).into_iter().flatten() {
                    let q = [files[0][*i].clone(), files[1][*j].clone(), x.clone(), y.clone()];
                    if is_type(&q, ty) {
                        want.insert(class_key(&q, ty));
                    }
                }
            }
        }
        desc += &format!("{}order {:?} W {:?} X {:?} Y {:?} Z {:?} keys {:?}", if number > 0 { "; and " } else { "" }, order, files[0].iter().map(|x| pm_str(x)).collect::<Vec<_>>(), files[1].iter().map(|x| pm_str(x)).collect::<Vec<_>>(), files[2].iter().map(|x| pm_str(x)).collect::<Vec<_>>(), files[3].iter().map(|x| pm_str(x)).collect::<Vec<_>>(), keys.values().take(6).collect::<Vec<_>>());
    }
    c.desc(desc);
    c.nontrivial(!want.is_empty());
    c.label(format!("{} {} classes", ty.s(), want.len().min(4)));
    let r = must(&dir, &["join", ty.s(), &n.to_string()]);
    let res = r.and_then(|_| read_quads(&fd.join("result.seq"), n));
    let _ = fs::remove_dir_all(&dir);
    let res = res?;
    let have: BTreeSet<Key> = res.iter().map(|q| class_key(q, ty)).collect();
    ensure!(want.is_subset(&have), "join lost matches: {}", describe_missing(&have, &want));
    ensure!(have.is_subset(&want), "join lists a sequence that is not a match of the files");
    ensure!(res.len() == have.len(), "join lists equivalent sequences");
    Ok(())
}
/// sequence files of many thousands of lines (indices beyond any small integer type) and
/// pair files that name some of them
fn join_huge(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = TYPES[s.enumerated(3)];
    let pool: Vec<Quad> = data::quads(n, ty);
    if pool.is_empty() {
        return Ok(());
    }
    // keys that thousands of lines of one file share with a few lines of the other
    let groups = c.sub == "join-groups";
    let planted: Vec<Quad> = (0..s.range(1, if groups { 10 } else { 4 })).map(|_| {
        let q = s.pick(&pool).clone();
        data::rand_elem(s, n, ty).apply(&q)
    }).collect();
    let mut rng = Rng::new(s.below(1 << 30) as u64);
    let mut files: Vec<Vec<Seq>> = vec![vec![]; 4];
    let mut at: Vec<HashMap<Seq, usize>> = vec![HashMap::new(); 4];
    for t in 0..4 {
        let size = if !groups && s.chance(1, 3) { s.range(66_000, 80_000) } else { s.range(1, 2000) };
        let mut set: BTreeSet<Seq> = planted.iter().map(|q| q[t].clone()).collect();
        for _ in 0..size {
            let w = rng.next();
            let mut x: Seq = (0..n).map(|i| if w >> i & 1 == 1 { 1 } else { -1 }).collect();
            if ty == Ty::Ws {
                for i in 1..n {
                    x[i] = x[i.min(n - i)];
                }
            }
            set.insert(x);
        }
        let v: Vec<Seq> = set.into_iter().collect();
        // mostly away from the start
        let k = (rng.next() % v.len() as u64) as usize;
        files[t] = v[k..].iter().chain(&v[..k]).cloned().collect();
        at[t] = files[t].iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    }
    let order = *s.pick(&[[0usize, 3, 1, 2], [0, 1, 2, 3], [0, 2, 1, 3]]);
    let lines_wanted = if groups {
        let (a, b) = (s.range(100, 6000), s.range(0, 10));
        if s.bool() { [a, b] } else { [b, a] }
    } else {
        [s.range(10, 12_000); 2]
    };
    let buckets = s.range(1, 3) as i64;
    let mut lines: [Vec<(Vec<i64>, usize, usize)>; 2] = [vec![], vec![]];
    for side in 0..2 {
        let (ta, tb) = (order[2 * side], order[2 * side + 1]);
        let mut pairs: BTreeSet<(usize, usize)> = planted.iter().map(|q| (at[ta][&q[ta]], at[tb][&q[tb]])).collect();
        for _ in 0..lines_wanted[side] {
            pairs.insert(((rng.next() % files[ta].len() as u64) as usize, (rng.next() % files[tb].len() as u64) as usize));
        }
        for (i, j) in pairs {
            let (a, b) = (&files[ta][i], &files[tb][j]);
            if ty == Ty::Wts && (1..n).any(|t| ccf(a, b, t) != ccf(b, a, t)) {
                continue;
            }
            let sg = if side == 0 { 1 } else { -1 };
            let mut v: Vec<i64> = (1..=n / 2).map(|t| sg * (paf(a, t) + paf(b, t))).collect();
            if ty == Ty::Qts {
                let e = [[0, 1, -1, -1], [-1, 0, 1, -1], [1, -1, 0, -1], [1, 1, 1, 0]][ta][tb];
                v.extend((1..=n / 2).map(|t| sg * e * (ccf(a, b, t) - ccf(b, a, t))));
            }
            if groups {
                // any key will do as long as the two halves of a quadruple have the same
                v = vec![v.iter().enumerate().map(|(i, x)| (i as i64 + 3) * x).sum::<i64>().rem_euclid(4 * buckets) / 4 * 9 + 2];
            }
            lines[side].push((v, i, j));
        }
    }
    let mut left: HashMap<&Vec<i64>, Vec<(usize, usize)>> = HashMap::new();
    for (v, i, j) in &lines[0] {
        left.entry(v).or_default().push((*i, *j));
    }
    let mut want: BTreeSet<Key> = BTreeSet::new();
    for (v, k, l) in &lines[1] {
        for (i, j) in left.get(v).into_iter().flatten() {
            let mut q: Quad = [vec![], vec![], vec![], vec![]];
            for (t, x) in order.iter().zip([*i, *j, *k, *l]) {
                q[*t] = files[*t][x].clone();
            }
            if is_type(&q, ty) {
                want.insert(class_key(&q, ty));
            }
        }
    }
    let dir = fresh_dir("joinh");
    let fd = find_dir(&dir, ty, n);
    let rd = fd.join("rowsum_1_1_1_1");
    fs::create_dir_all(&rd).unwrap();
    let names = ["W", "X", "Y", "Z"];
    for t in 0..4 {
        fs::write(rd.join(format!("seq_{}.seq", names[t])), files[t].iter().map(|x| pm_str(x) + "\n").collect::<String>()).unwrap();
    }
    for side in 0..2 {
        let mut v: Vec<String> = lines[side].iter().map(|(v, i, j)| v.iter().map(|x| format!("{}_", x)).collect::<String>() + &format!(":_{}_{}\n", i, j)).collect();
        v.sort();
        fs::write(rd.join(format!("pair_{}{}.pair.sorted", names[order[2 * side]], names[order[2 * side + 1]])), v.concat()).unwrap();
    }
    c.desc(format!("join {} n={} order {:?}, {:?} sequences, {:?} pairs, planted {}", ty.s(), n, order, files.iter().map(|x| x.len()).collect::<Vec<_>>(), lines.iter().map(|x| x.len()).collect::<Vec<_>>(), planted.iter().map(|q| quad_str(q)).collect::<Vec<_>>().join(" ")));
    c.nontrivial(if groups { !want.is_empty() } else { files.iter().any(|f| f.len() > 65536) });
    c.label(ty.s());
    let r = must(&dir, &["join", ty.s(), &n.to_string()]);
    let res = r.and_then(|_| read_quads(&fd.join("result.seq"), n));
    let _ = fs::remove_dir_all(&dir);
    let res = res?;
    let have: BTreeSet<Key> = res.iter().map(|q| class_key(q, ty)).collect();
    ensure!(want.is_subset(&have), "join lost matches: {}", describe_missing(&have, &want));
    ensure!(have.is_subset(&want), "join lists a sequence that is not a match of the files");
    ensure!(res.len() == have.len(), "join lists equivalent sequences");
    Ok(())
}
fn c19() -> Prop {
    Prop {
        id: "C19",
        subs: vec![Sub {
            name: "join-groups",
            f: join_huge,
            rule: "like join-huge with 1 to 3 keys in all, each shared by up to thousands of lines of one file and a few of the other; a combination counts as a match only if it is valid; non-trivial = some combination is valid",
            params: vec![7, 9, 10, 13, 15],
            quick: 12,
            thorough: 150,
        }, Sub {
            name: "join",
            f: join_files,
            rule: "parameter = n; a hand-made find directory with one rowsum directory (a third of the time two or three, each with its own pairing): sequence files of 1..7 sequences holding 0..3 planted valid quadruples, pair files whose keys agree exactly for matching pairs (the true matching values, or an injective renaming with numerals that are prefixes of each other), byte-wise sorted; join must list exactly the classes of the valid quadruples; non-trivial = at least one",
            params: vec![1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 16, 18, 20, 21, 25, 27],
            quick: 36,
            thorough: 800,
        },
        Sub { name: "join-long", f: join_files, rule: "the same with sequence files of up to 50 sequences and pair files of up to 2500 lines", params: vec![3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16], quick: 6, thorough: 60 },
        Sub { name: "join-huge", f: join_huge, rule: "the same with sequence files of up to 80000 sequences and pair files of up to 12000 of their pairs; non-trivial = a file of more than 65536 sequences", params: vec![18, 20, 21, 24, 27], quick: 6, thorough: 60 }],
        assumptions: vec!["the .pair line format is key, ':', '_', index, '_', index, as the README's workflow stores it between the pairs and join stages"],
    }
}

// ------------------------------------------------------------------ C27 the amicable command

fn amicable_cmd(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let pool: Vec<Quad> = data::quads(n, Ty::Wts);
    let m = if c.sub == "amicable-long" { s.range(50, 1500) } else { s.range(0, 5) };
    let mut list: Vec<Quad> = (0..m).map(|_| {
        let q = s.pick(&pool).clone();
        data::rand_elem(s, n, Ty::Wts).apply(&q)
    }).collect();
    if !list.is_empty() && s.bool() {
        let i = s.below(list.len());
        match s.below(3) {
            0 => {
                let (t, p) = (s.below(4), s.below(n));
                list[i][t][p] *= -1;
            }
            1 => {
                // shifting one sequence keeps the autocorrelations but usually not amicability
                let t = s.below(4);
                let k = s.below(n);
                list[i][t] = shift(&list[i][t], k);
            }
            _ => {
                let (t, u) = (s.below(4), s.below(4));
                let x = list[i][t].clone();
                list[i][u] = x;
            }
        }
    }
    let good = list.iter().all(|q| is_qts(q) && amicable(q));
    let dir = fresh_dir("ami");
    let fd = find_dir(&dir, Ty::Qts, n);
    fs::create_dir_all(&fd).unwrap();
    fs::write(fd.join("result.seq"), list.iter().map(|q| encode(q) + "\n").collect::<String>()).unwrap();
    c.desc(format!("amicable {}: {}", n, list.iter().map(encode).collect::<Vec<_>>().join(" ")));
    c.nontrivial(!list.is_empty());
    c.label(if good { "accept" } else { "reject" });
    let r = cli(&dir, &["amicable", &n.to_string()]);
    let _ = fs::remove_dir_all(&dir);
    let msg = r.out.contains(&format!("Length {} checked, all QTS = WTS", n));
    ensure!(r.ok == good && msg == good, "`amicable` {} a list that is {}", if r.ok { "accepts" } else { "rejects" }, if good { "all amicable" } else { "not all amicable QT sequences" });
    Ok(())
}
fn c27() -> Prop {
    Prop {
        id: "C27",
        subs: vec![Sub { name: "amicable", f: amicable_cmd, rule: "parameter = n; lists of 0..5 valid quadruples, half of them with one entry flipped, one sequence shifted or one duplicated; the command must succeed exactly if all are amicable QT sequences; non-trivial = non-empty", params: vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 20, 27, 33, 36, 45, 60, 100], quick: 320, thorough: 1500 },
            Sub { name: "amicable-long", f: amicable_cmd, rule: "the same for lists of 50 to 1500", params: vec![1, 2, 3, 5, 8, 13], quick: 12, thorough: 150 }],
        assumptions: vec![],
    }
}

// ------------------------------------------------------------------ C26 scripts

/// A copy of the scripts in a scratch directory. `cargo` is a stand-in that does nothing
/// (the program is built already); `rm` is a stand-in that removes only inside the
/// scratch directory and records anything else.
fn script_dir() -> PathBuf {
    let d = fresh_dir("scripts");
    for f in fs::read_dir("/repo/rust").unwrap() {
        let p = f.unwrap().path();
        let e = p.extension().map(|x| x.to_string_lossy().to_string()).unwrap_or_default();
        if e == "sh" || e == "py" {
            fs::copy(&p, d.join(p.file_name().unwrap())).unwrap();
        }
    }
    fs::create_dir_all(d.join("target/release")).unwrap();
    std::os::unix::fs::symlink(bin(), d.join("target/release/rust")).unwrap();
    let sb = d.join("standins");
    fs::create_dir_all(&sb).unwrap();
    exec_file(&sb.join("cargo"), "#!/bin/sh\nexit 0\n");
    exec_file(
        &sb.join("rm"),
        &format!(
            "#!/bin/bash\nroot={0:?}\nargs=()\nfor a in \"$@\"; do\n case \"$a\" in -*) args+=(\"$a\");; *) p=$(realpath -m -- \"$a\"); case \"$p\" in \"$root\"/*) args+=(\"$a\");; *) echo \"$p\" >> \"$root/escaped\";; esac;; esac\ndone\necho \"$@\" >> \"$root/rm.log\"\n[ ${{#args[@]}} -gt 0 ] && /bin/rm \"${{args[@]}}\"\nexit 0\n",
            d.display().to_string()
        ),
    );
    // `sort` stand-in: with SORT_FAIL=k the k-th sort writes half of its output and fails
    exec_file(
        &sb.join("sort"),
        "#!/bin/bash\nw=; for f in \"$@\"; do [ \"$w\" = -T ] && echo \"$f\" >> ./sort.log; w=\"$f\"; done\nif [ -n \"$SORT_FAIL\" ]; then k=$(( $(cat \"$SORT_COUNT\" 2>/dev/null || echo 0) + 1 )); echo $k > \"$SORT_COUNT\"\n if [ $k = \"$SORT_FAIL\" ]; then for f in \"$@\"; do :; done; l=$(wc -l < \"$f\"); /usr/bin/sort \"$@\" | head -n $((l/2)); exit 2; fi; fi\nexec /usr/bin/sort \"$@\"\n",
    );
    // the program behind a stand-in: with STEP_FAIL=<subcommand> that step fails half-way
    fs::create_dir_all(d.join("slurm")).unwrap();
    fs::remove_file(d.join("target/release/rust")).unwrap();
    exec_file(&d.join("target/release/rust"), &format!("#!/bin/bash\nif [ -n \"$STEP_FAIL\" ] && {{ [ \"$1\" = \"$STEP_FAIL\" ] || [ \"$1 $2\" = \"$STEP_FAIL\" ]; }}; then echo 'thread main panicked (injected)' >&2; exit 101; fi\nexec {:?} \"$@\"\n", bin().display().to_string()));
    d
}
fn exec_file(p: &Path, text: &str) {
    use std::os::unix::fs::PermissionsExt;
    fs::write(p, text).unwrap();
    fs::set_permissions(p, fs::Permissions::from_mode(0o755)).unwrap();
}
/// The scripts run in a user's environment: a locale whose order of strings is not that of the bytes.
fn locale_dir() -> PathBuf {
    std::env::current_exe().ok().and_then(|p| Some(p.parent()?.parent()?.join("locale"))).unwrap_or_default()
}
fn sh(dir: &Path, args: &[&str], env: &[(&str, String)]) -> Ran {
    let path = format!("{}:/usr/local/bin:/usr/bin:/bin", dir.join("standins").display());
    let mut cmd = Command::new(args[0]);
    die_with_parent(&mut cmd);
    let o = cmd.args(&args[1..]).current_dir(dir).env("PATH", path).env("SLURM_TMPDIR", dir.join("slurm")).env("RUST_BACKTRACE", "0").env_remove("LC_ALL").env_remove("LC_COLLATE").env_remove("LANG").env(fs::read_to_string(dir.join("localevar")).unwrap_or("LANG".into()), "en_US.UTF-8").env("LOCPATH", locale_dir()).envs(env.iter().cloned()).stdin(Stdio::null()).output().expect("script");
    Ran { ok: o.status.success(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
}
fn lines_of(p: &Path) -> usize {
    fs::read_to_string(p).map(|s| s.lines().count()).unwrap_or(0)
}
fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(d: &Path, pre: &str, o: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(r) = fs::read_dir(d) {
            for f in r {
                let f = f.unwrap();
                let name = format!("{}/{}", pre, f.file_name().to_string_lossy());
                if f.file_type().unwrap().is_dir() {
                    o.insert(name.clone(), vec![]);
                    go(&f.path(), &name, o);
                } else {
                    o.insert(name, fs::read(f.path()).unwrap_or_default());
                }
            }
        }
    }
    let mut o = BTreeMap::new();
    go(d, "", &mut o);
    o
}
/// A history of script invocations on one results directory, against a model of it.
fn scripts(s: &mut Src, c: &mut Ctx) -> Outcome {
    let d = script_dir();
    let r = script_history(s, c, &d);
    let esc = fs::read_to_string(d.join("escaped")).unwrap_or_default();
    let _ = fs::remove_dir_all(&d);
    r?;
    ensure!(esc.is_empty(), "a script removed paths outside its results directory: {}", esc.replace('\n', " "));
    Ok(())
}

#[derive(Clone, Default)]
struct St {
    rowsums: bool,
    hm: bool,
    classes: BTreeSet<String>,
    pairs: u64,
    ghost: bool,
}
/// What a completed search (driver.sh, or the step scripts one after the other) must leave.
fn complete_results(fd: &Path, ty: Ty, n: usize, h: bool) -> Result<St, Fail> {
    let quads = read_quads(&fd.join("result.seq"), n)?;
    let keys: BTreeSet<Key> = quads.iter().map(|q| class_key(q, ty)).collect();
    ensure!(keys == brute(n, ty) && quads.len() == keys.len(), "the scripts list {} sequences in {} classes; there are {} classes", quads.len(), keys.len(), brute(n, ty).len());
    ensure!(fd.join("result.qhm").exists(), "no result.qhm was made");
    qhm_blocks(&fs::read_to_string(fd.join("result.qhm")).unwrap(), n).and_then(|b| {
        ensure!(b.len() == quads.len(), "result.qhm has {} matrices for {} sequences", b.len(), quads.len());
        Ok(())
    })?;
    if h {
        let src = if ty == Ty::Wts { read_quads(&fd.join("result-qts.seq"), n)? } else { quads.clone() };
        check_mat(fd, &src, n)?;
    }
    // no unsorted file is left, and every rowsum directory has two sorted files
    let mut pairs = 0;
    for e in fs::read_dir(fd).unwrap() {
        let e = e.unwrap().path();
        if e.is_dir() {
            let names: Vec<String> = fs::read_dir(&e).unwrap().map(|x| x.unwrap().file_name().to_string_lossy().to_string()).collect();
            let sorted: Vec<&String> = names.iter().filter(|x| x.ends_with(".pair.sorted")).collect();
            ensure!(sorted.len() == 2 && !names.iter().any(|x| x.ends_with(".pair")), "after the search {} holds {:?}", e.display(), names);
            for f in sorted {
                pairs += lines_of(&e.join(f)) as u64;
            }
        }
    }
    Ok(St { rowsums: true, hm: h, classes: quads.iter().map(encode).collect(), pairs, ghost: false })
}
/// the log of a search that took hours, as driver.sh keeps it
fn long_log(s: &mut Src, ty: Ty, n: usize) -> String {
    let t = |s: &mut Src| -> String { format!("{}.{:02}", *s.pick(&[0usize, 3, 9, 10, 59, 100, 86399, 1234567]) + s.below(7), s.below(100)) };
    let k = |s: &mut Src| -> usize { *s.pick(&[0usize, 1, 7, 12, 4096, 99999, 1234567890, 123456789012]) + s.below(5) };
    let mut l = format!("Generating rowsum decompositions for length {} ...\n(1, 1, 3, 5)\nGenerated {} different rowsums\n\n", n, 1 + s.below(9));
    for _ in 0..s.range(1, 3) {
        l += &format!("Generating .pair files for rowsums (1, 1, 3, 5) ...\nFound {} sequences with rowsum 1\nGenerating all sequences with rowsums (1, 1, 3, 5) took {} seconds\nGenerated {} pairs for pairing WZ\nGenerated {} pairs for pairing XY\nGenerating .pair files for both pairs took {} seconds\n\n", k(s), t(s), k(s), k(s), t(s));
    }
    l += &format!("Generated {} total pairs\nTotal time to generate .pair files: {} seconds\n\n", k(s), t(s));
    l += &format!("Sorting file results/pairs/{}/find_{}/rowsum_1_1_3_5/pair_WZ.pair ...\nTotal time to sort: {} seconds.\n\n", ty.s(), n, t(s));
    if s.chance(5, 6) {
        l += &format!("Matching files in /rowsum_1_1_3_5 ...\nMatches found in \"pair_WZ.pair.sorted\" and \"pair_XY.pair.sorted\": {}\n\nMatching took: {} seconds.\n\nFound {} {} after matching\n", k(s), t(s), k(s), ty.s());
        l += &format!("Found {} {} after reducing to equivalence\nReducing to equivalence took {} seconds.\n\n", k(s), ty.s(), t(s));
        if ty == Ty::Wts {
            l += &format!("In order to generate all Williamson-type sequences up to Hadamard equivalence, we now generate a complete list up to QT equivalence ...\nFound {} qts after reducing to equivalence\nReducing to equivalence took {} seconds.\n\n", k(s), t(s));
        }
        if s.bool() {
            let m = k(s);
            l += &format!("Number of matrices up to equivalence : {}\nConverting to matrices up to Hadamard equivalence took {} seconds\n{} matrices were found after converting up to Hadamard equivalence.\n", m, t(s), m);
        }
        l += &format!("converted {} sequences of size {}. {} contained non-commuting elements.\nConverting to PQS to QHM took {} seconds\n\nTotal execution time was {} seconds.\n", k(s), n, k(s), t(s), t(s));
    }
    l
}
fn script_history(s: &mut Src, c: &mut Ctx, d: &Path) -> Outcome {
    let mut model: BTreeMap<(Ty, usize), St> = BTreeMap::new();
    let steps = s.range(2, 6);
    let mut log: Vec<String> = vec![];
    let nmax = c.param as usize;
    let mut runs = 0;
    fs::write(d.join("localevar"), *s.pick(&["LANG", "LC_COLLATE", "LC_ALL"])).unwrap();
    // results of earlier, longer searches: file trees that must survive what is done to other lengths
    if s.chance(2, 3) {
        for _ in 0..s.range(1, 4) {
            let ty = *s.pick(&TYPES);
            let n = *s.pick(&[10usize, 11, 12, 13, 20, 21, 30, 100]);
            let fd = find_dir(d, ty, n);
            let mut pairs = 0u64;
            for k in 0..s.range(1, 3) {
                let r = fd.join(format!("rowsum_0_{}_{}_{}", k, s.range(0, 9), n));
                fs::create_dir_all(&r).unwrap();
                for f in ["WZ", "XY"] {
                    let l = s.range(0, 12);
                    pairs += l as u64;
                    fs::write(r.join(format!("rowsum_{}_{}.pair.sorted", f, k)), (0..l).map(|i| format!("{}_0_:+-,-+\n", i)).collect::<String>()).unwrap();
                }
            }
            for f in ["result.seq", "result.log", "result.mat"] {
                if s.bool() {
                    fs::write(fd.join(f), format!("kept {}\n", f)).unwrap();
                }
            }
            if s.chance(2, 3) {
                fs::write(fd.join("result.log"), long_log(s, ty, n)).unwrap();
            }
            if s.bool() {
                fs::write(fd.join("result.mat"), "[1]\n".repeat(s.range(0, 40))).unwrap();
            }
            let e = model.entry((ty, n)).or_default();
            *e = St { rowsums: true, ghost: true, pairs: e.pairs, ..Default::default() };
            // (two rounds may write to the same directory)
            e.pairs = fs::read_dir(&fd).unwrap().flat_map(|r| {
                let r = r.unwrap().path();
                if r.is_dir() { fs::read_dir(r).unwrap().map(|f| lines_of(&f.unwrap().path()) as u64).collect() } else { vec![] }
            }).sum();
            let _ = pairs;
            log.push(format!("[{} {} exists]", ty.s(), n));
        }
        c.label("other lengths present");
    }
    for _ in 0..steps {
        let ty = *s.pick(&TYPES);
        let mut n = s.range(1, nmax);
        let op = s.below(9);
        let ghosts: Vec<usize> = model.iter().filter(|(k, v)| k.0 == ty && v.ghost).map(|(k, _)| k.1).collect();
        if op != 0 && op < 6 && !ghosts.is_empty() && s.chance(1, 4) {
            n = *s.pick(&ghosts);
        }
        let t = ty.s();
        let ns = n.to_string();
        let fd = find_dir(d, ty, n);
        let ghost = model.get(&(ty, n)).map_or(false, |m| m.ghost);
        match op {
            0..=4 => {
                // a search with random flags: driver.sh, or the steps one by one, possibly with a fault
                let (h, mut del, corr, pairing, slurm) = (s.bool(), s.chance(1, 3), s.bool(), s.below(4), s.chance(1, 4));
                let fault = if op >= 3 { s.below(5) } else { 9 };
                let stepwise = op == 2;
                let exists = model.get(&(ty, n)).map_or(false, |m| m.rowsums);
                if ghost {
                    del = false;
                    if !exists {
                        continue;
                    }
                }
                let mut a = vec![if stepwise { "./pairs.sh" } else { "./driver.sh" }, t, &ns];
                if h && !stepwise {
                    a.push("-h");
                }
                if corr {
                    a.push("-c");
                }
                if pairing < 3 {
                    a.push("-p");
                    a.push(PAIRINGS[pairing]);
                }
                if del {
                    a.push("-d");
                }
                if slurm {
                    a.push("-s");
                }
                log.push(a.join(" "));
                c.desc(log.join("; "));
                let before = tree(&d.join("results"));
                if exists && !del {
                    let o = sh(d, &a, &[]);
                    ensure!(!o.ok, "{} did not refuse to run although results exist", a[0]);
                    ensure!(tree(&d.join("results")) == before, "{} changed files although it must refuse to overwrite", a[0]);
                    c.label("refused");
                    continue;
                }
                runs += 1;
                let _ = fs::remove_file(d.join("sort.log"));
                // everything outside this search must stay as it is
                let pre = format!("/pairs/{}/find_{}", t, n);
                let others = |m: BTreeMap<String, Vec<u8>>| -> BTreeMap<String, Vec<u8>> { m.into_iter().filter(|(k, _)| k != "/pairs" && *k != format!("/pairs/{}", t) && *k != pre && !k.starts_with(&format!("{}/", pre))).collect() };
                let keep = others(before.clone());
                match fault {
                    0 | 1 => {
                        // a step fails: no result may be built on what it left
                        let step = ["pairs", "join"][fault];
                        log.push(format!("({} fails)", step));
                        c.desc(log.join("; "));
                        let o = sh(d, &a, &[("STEP_FAIL", step.to_string())]);
                        ensure!(!o.ok, "driver.sh reports success although `{}` failed", step);
                        let after = tree(&d.join("results"));
                        for f in ["result.seq", "result.qseq", "result-qts.seq", "result.mat", "result.qhm"] {
                            let k = format!("{}/{}", pre, f);
                            ensure!(after.get(&k) == before.get(&k), "driver.sh went on after `{}` failed: it made {}", step, f);
                        }
                        ensure!(others(after) == keep, "a failing driver.sh changed results of another search");
                        c.label("step fails");
                        let _ = fs::remove_dir_all(&fd);
                        model.remove(&(ty, n));
                        continue;
                    }
                    2 => {
                        // the k-th sort fails; sorting again must lose nothing
                        let k = s.range(1, 6);
                        log.push(format!("(sort {} fails)", k));
                        c.desc(log.join("; "));
                        let cnt = d.join("sortcount");
                        let _ = fs::remove_file(&cnt);
                        let o = sh(d, &a, &[("SORT_FAIL", k.to_string()), ("SORT_COUNT", cnt.display().to_string())]);
                        let sorts: usize = fs::read_to_string(&cnt).ok().and_then(|x| x.trim().parse().ok()).unwrap_or(0);
                        if sorts >= k {
                            ensure!(!o.ok, "driver.sh reports success although sort number {} failed", k);
                            let after = tree(&d.join("results"));
                            for f in ["result.seq", "result.qseq", "result.mat", "result.qhm"] {
                                let key = format!("{}/{}", pre, f);
                                ensure!(after.get(&key) == before.get(&key), "driver.sh joined partly sorted files: it made {}", f);
                            }
                            let r = sh(d, &["./sortpairs.sh", t, &ns], &[]);
                            ensure!(r.ok, "sorting again fails: {}", r.err.chars().take(300).collect::<String>());
                            let r = sh(d, &["./join_pairs.sh", t, &ns], &[]);
                            ensure!(r.ok, "join_pairs.sh fails");
                            let r = sh(d, &["./convert_qhm.sh", t, &ns], &[]);
                            ensure!(r.ok, "convert_qhm.sh fails");
                            if h {
                                sh(d, &["./convert_hm.sh", t, &ns], &[]);
                            }
                            c.label("sort fails, sorted again");
                        } else {
                            ensure!(o.ok, "driver.sh failed: {}", o.err.chars().take(300).collect::<String>());
                        }
                    }
                    3 | 4 if fault == 4 || h => {
                        // a conversion fails: neither a success nor a count of matrices is reported
                        let step = ["convert hm", "convert qhm"][fault - 3];
                        log.push(format!("({} fails)", step));
                        c.desc(log.join("; "));
                        let o = sh(d, &a, &[("STEP_FAIL", step.to_string())]);
                        ensure!(!o.ok, "driver.sh reports success although `{}` failed", step);
                        let lg = fs::read_to_string(fd.join("result.log")).unwrap_or_default();
                        ensure!(fault == 4 || !lg.contains("matrices were found after converting"), "driver.sh reports a number of matrices although `{}` failed", step);
                        ensure!(!lg.contains("Total execution time"), "driver.sh reports a finished search although `{}` failed", step);
                        let key = format!("{}/result.{}", pre, ["mat", "qhm"][fault - 3]);
                        ensure!(tree(&d.join("results")).get(&key) == before.get(&key), "{} changed although `{}` failed before writing", key, step);
                        // the same by the step script; then it is repeated without the fault
                        let script = ["./convert_hm.sh", "./convert_qhm.sh"][fault - 3];
                        let took = ["Converting to matrices up to Hadamard equivalence took", "Converting to PQS to QHM took"][fault - 3];
                        let o = sh(d, &[script, t, &ns], &[("STEP_FAIL", step.to_string())]);
                        ensure!(!o.ok, "{} reports success although `{}` failed", script, step);
                        let lg = fs::read_to_string(fd.join("result.log")).unwrap_or_default();
                        ensure!(!lg.contains(took), "the log reports a completed conversion although `{}` failed", step);
                        let mut todo = vec!["./convert_qhm.sh"];
                        if h {
                            todo.push("./convert_hm.sh");
                        }
                        for x in todo {
                            let r = sh(d, &[x, t, &ns], &[]);
                            ensure!(r.ok, "{} failed: {}", x, r.err.chars().take(300).collect::<String>());
                        }
                        let lg = fs::read_to_string(fd.join("result.log")).unwrap_or_default();
                        ensure!(lg.contains(took), "{} does not log the conversion", script);
                        c.label("conversion fails, then repeated");
                    }
                    _ if stepwise => {
                        if s.chance(1, 4) {
                            let o = sh(d, &a, &[("STEP_FAIL", "pairs".into())]);
                            let lg = fs::read_to_string(fd.join("result.log")).unwrap_or_default();
                            ensure!(!o.ok && !lg.contains("Generating the .pair files took"), "pairs.sh reports that the pairs were generated although `pairs` failed");
                            c.label("pairs step fails");
                        }
                        let mut todo: Vec<Vec<&str>> = vec![a.clone()];
                        for _ in 0..s.range(1, 2) {
                            todo.push(if slurm { vec!["./sortpairs.sh", t, &ns, "-s"] } else { vec!["./sortpairs.sh", t, &ns] });
                        }
                        for _ in 0..s.range(1, 2) {
                            todo.push(vec!["./join_pairs.sh", t, &ns]);
                        }
                        if h {
                            todo.push(vec!["./convert_hm.sh", t, &ns]);
                        }
                        todo.push(vec!["./convert_qhm.sh", t, &ns]);
                        for x in &todo {
                            if x[0] != "./pairs.sh" {
                                log.push(x.join(" "));
                                c.desc(log.join("; "));
                            }
                            let r = sh(d, x, &[]);
                            ensure!(r.ok, "{} failed: {}", x.join(" "), r.err.chars().take(300).collect::<String>());
                        }
                        let lg = fs::read_to_string(fd.join("result.log")).unwrap_or_default();
                        ensure!(lg.contains("Joining the files together took"), "result.log does not say that the files were joined");
                        // a join that fails is not reported as one that took some seconds
                        if s.chance(1, 3) {
                            let l0 = lg.matches("Joining the files together took").count();
                            let o = sh(d, &["./join_pairs.sh", t, &ns], &[("STEP_FAIL", "join".into())]);
                            ensure!(!o.ok, "join_pairs.sh reports success although `join` failed");
                            let l1 = fs::read_to_string(fd.join("result.log")).unwrap_or_default().matches("Joining the files together took").count();
                            ensure!(l0 == l1, "join_pairs.sh logs a completed join although it failed");
                            c.label("join step fails");
                        }
                        c.label("step by step");
                    }
                    _ => {
                        let o = sh(d, &a, &[]);
                        ensure!(o.ok, "driver.sh failed: {}", o.err.chars().take(300).collect::<String>());
                        if h {
                            let m = lines_of(&fd.join("result.mat"));
                            let logt = fs::read_to_string(fd.join("result.log")).unwrap_or_default();
                            ensure!(logt.contains(&format!("{} matrices were found after converting up to Hadamard equivalence.", m)), "the log does not report the {} matrices", m);
                        }
                        c.label("driver");
                    }
                }
                let mut st = complete_results(&fd, ty, n, h)?;
                // the flags had their effect: these are the pairs of this option and pairing
                let cf = Conf { ty, n, psd: !corr, pairing: pairing % 3, stage: 0 };
                let alone = Dirs(fresh_dir("flags"), fresh_dir("flags-x"));
                gen_pairs(&alone.0, &cf)?;
                sort_pairs(&alone.0, ty, n);
                let rs = |d: &Path| -> BTreeMap<String, Vec<u8>> { tree(d).into_iter().filter(|(k, _)| k.starts_with("/rowsum_")).collect() };
                let (x, y) = (rs(&fd), rs(&find_dir(&alone.0, ty, n)));
                for k in x.keys().chain(y.keys()) {
                    // (the order of lines is for join to accept: complete_results has seen that it did)
                    let lines = |m: &BTreeMap<String, Vec<u8>>| m.get(k).map(|b| { let mut l: Vec<&[u8]> = b.split(|c| *c == b'\n').collect(); if k.ends_with(".pair.sorted") { l.sort(); } l.concat() });
                    ensure!(lines(&x) == lines(&y), "{} is not what `pairs {} {} {} {}` and sorting give", k, t, n, cf.opt(), PAIRINGS[cf.pairing]);
                }
                if !h {
                    let k = format!("{}/result.mat", pre);
                    ensure!(tree(&d.join("results")).get(&k) == before.get(&k), "result.mat was made without -h");
                }
                let tmp = fs::read_to_string(d.join("sort.log")).unwrap_or_default();
                let own = d.join("slurm").display().to_string();
                // -s: temporary files go to $SLURM_TMPDIR (sorting again after a fault is run without it)
                ensure!(!slurm || fault == 2 || tmp.lines().all(|l| l == own), "sorting with -s used the temporary directories {:?}", tmp.lines().collect::<BTreeSet<_>>());
                ensure!(others(tree(&d.join("results"))) == keep, "the search for {} {} changed results of another search", t, n);
                st.hm |= model.get(&(ty, n)).map_or(false, |m| m.hm);
                model.insert((ty, n), st);
            }
            5 | 6 => {
                // cleanup of one length or of a range
                let hi = if s.chance(1, 3) { s.range(n, 22.max(n)) } else { s.range(n, nmax.max(n)) };
                let his = hi.to_string();
                let mut a = vec!["./pair_file_cleanup.sh", t, &ns];
                if hi > n {
                    a.push(&his);
                }
                log.push(a.join(" "));
                c.desc(log.join("; "));
                let before = tree(&d.join("results"));
                let r = sh(d, &a, &[]);
                ensure!(r.ok, "pair_file_cleanup.sh failed: {}", r.err);
                let want: BTreeMap<String, Vec<u8>> = before.into_iter().filter(|(k, _)| {
                    !(n..=hi).any(|m| k.starts_with(&format!("/pairs/{}/find_{}/rowsum_", t, m)))
                }).collect();
                ensure!(tree(&d.join("results")) == want, "pair_file_cleanup.sh must remove exactly the rowsum directories of {} {}..{}", t, n, hi);
                for m in n..=hi {
                    if let Some(x) = model.get_mut(&(ty, m)) {
                        x.rowsums = false;
                        x.pairs = 0;
                    }
                }
                c.label("cleanup");
            }
            7 => {
                let n = if !ghosts.is_empty() && s.bool() { *s.pick(&ghosts) } else { n };
                let ns = n.to_string();
                log.push(format!("./countpairs.sh {} {}", t, n));
                c.desc(log.join("; "));
                let before = tree(&d.join("results"));
                let r = sh(d, &["./countpairs.sh", t, &ns], &[]);
                let want = model.get(&(ty, n)).map_or(0, |m| m.pairs);
                ensure!(r.ok && r.out.trim() == want.to_string(), "countpairs.sh prints {:?}, the sorted files have {} lines", r.out.trim(), want);
                ensure!(tree(&d.join("results")) == before, "countpairs.sh changed the results");
                c.label("countpairs");
            }
            _ => {
                // table over a range
                let (n, hi) = if !ghosts.is_empty() && s.chance(2, 3) {
                    let g = *s.pick(&ghosts);
                    (g - s.below(3), g + s.below(3))
                } else {
                    (n, s.range(n, nmax))
                };
                let (ns, his) = (n.to_string(), hi.to_string());
                let latex = s.bool();
                log.push(format!("./collect_results.py {} {} {} {}", n, hi, t, if latex { "l" } else { "t" }));
                c.desc(log.join("; "));
                let r = sh(d, &["python3", "./collect_results.py", &ns, &his, t, if latex { "l" } else { "t" }], &[]);
                ensure!(r.ok, "collect_results.py failed: {}", r.err.chars().take(300).collect::<String>());
                for m in n..=hi {
                    let row: Vec<String> = match r.out.lines().map(|l| l.split(|c: char| c == '&' || c.is_whitespace() || c == '\\').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>()).find(|v| v.first().map_or(false, |x| *x == m.to_string())) {
                        Some(v) => v,
                        None => return Err(format!("no row for n={} in the table:\n{}", m, r.out).into()),
                    };
                    let fdm = find_dir(d, ty, m);
                    let lg = fs::read_to_string(fdm.join("result.log")).unwrap_or_default();
                    let has = fdm.join("result.log").is_file();
                    let reduced = |what: &str| -> i64 { lg.lines().filter_map(|l| l.strip_prefix("Found ")?.strip_suffix(&format!(" {} after reducing to equivalence", what))?.parse().ok()).next().unwrap_or(-1) };
                    let (w, q, h) = match model.get(&(ty, m)) {
                        None => (-1, -1, -1),
                        Some(st) if st.ghost => (if has { reduced("wts") } else { -1 }, if has { reduced("qts") } else { -1 }, if has && fdm.join("result.mat").is_file() { lines_of(&fdm.join("result.mat")) as i64 } else { -1 }),
                        Some(st) => {
                            let mats = if st.hm { lines_of(&fdm.join("result.mat")) as i64 } else { -1 };
                            let own = st.classes.len() as i64;
                            match ty {
                                Ty::Wts => (own, lines_of(&fdm.join("result-qts.seq")) as i64, mats),
                                Ty::Qts => (-1, own, mats),
                                Ty::Ws => (-1, -1, mats),
                            }
                        }
                    };
                    let want: Vec<String> = if ty == Ty::Wts { vec![w, q, h] } else { vec![q, h] }.iter().map(|x| x.to_string()).collect();
                    let got: Vec<String> = row[1..].iter().take(want.len()).cloned().collect();
                    ensure!(got == want, "collect_results.py: row n={} starts {:?}, the result files say {:?}", m, got, want);
                    // the times and the number of pairs are those of the log
                    let after = |x: &str, l: &str| -> Option<f64> { l.find(x).and_then(|i| l[i + x.len()..].split(|c: char| c != '.' && !c.is_ascii_digit()).next().and_then(|v| v.parse().ok())) };
                    let first = |x: &str| lg.lines().filter_map(|l| after(x, l)).next().unwrap_or(-1.0);
                    let total: f64 = lg.lines().filter(|l| l.ends_with(" seconds") || l.contains(" seconds.")).filter_map(|l| {
                        let v = after(": ", l)?;
                        l.contains(&format!(": {:.2} seconds", v)).then_some(v)
                    }).sum();
                    let size: u64 = if model.contains_key(&(ty, m)) { tree(&fdm).iter().filter(|(k, _)| k.starts_with("/rowsum_")).map(|(_, v)| v.len() as u64).sum() } else { 0 };
                    let mut tail: Vec<String> = vec![format!("{:.2}", if has { total + 0.0 } else { -1.0 })];
                    if !latex {
                        // of the two reductions of a Williamson-type search either
                        let all: Vec<String> = lg.lines().filter_map(|l| after("Reducing to equivalence took ", l)).map(|x| format!("{:.2}", x)).collect();
                        let shown = row.get(2 + want.len()).cloned().unwrap_or_default();
                        tail.push(if all.contains(&shown) { shown } else { format!("{:.2}", if has { first("Reducing to equivalence took ") } else { -1.0 }) });
                        tail.push(format!("{:.2}", if has { first("Converting to matrices up to Hadamard equivalence took ") } else { -1.0 }));
                    }
                    tail.push(if has { format!("{:.0}", lg.lines().filter(|l| l.ends_with(" total pairs")).filter_map(|l| after("Generated ", l)).next().unwrap_or(model.get(&(ty, m)).map_or(0, |x| x.pairs) as f64)) } else { "-1".into() });
                    tail.push(format!("{:.1}", if has { size as f64 / 1048576.0 } else { -1.0 }));
                    let got: Vec<String> = row[1 + want.len()..].to_vec();
                    ensure!(got == tail, "collect_results.py: row n={} ends {:?}, the log and the files say {:?}", m, got, tail);
                }
                c.label("table");
            }
        }
    }
    c.desc(log.join("; "));
    c.nontrivial(runs > 0);
    c.weight = steps as u64;
    Ok(())
}
fn c26() -> Prop {
    Prop {
        id: "C26",
        subs: vec![Sub {
            name: "histories",
            f: scripts,
            rule: "parameter = largest n; a history of 2..6 script invocations (driver.sh or the step scripts with random flags, with an injected failure of a step or of the k-th sort, pair_file_cleanup.sh, countpairs.sh, collect_results.py) on one results directory that may hold results of other lengths, against a model of it; one evaluation per invocation; non-trivial = at least one search",
            params: vec![3, 4, 5, 6, 7, 8, 10],
            quick: 60,
            thorough: 800,
        }],
        assumptions: vec!["cargo is replaced by a stand-in (the binary is built already), rm by one that acts only inside the scratch directory; sort and the program run behind wrappers that can inject a failure"],
    }
}

// ------------------------------------------------------------------ C28 output that does not fit

/// Compares what two runs of the same steps left. The entries of lists may come in another order and
/// Hadamard matrices from other representatives.
fn same_results(a: &Path, b: &Path) -> Result<(), String> {
    let (ta, tb) = (tree(a), tree(b));
    for k in ta.keys().chain(tb.keys()) {
        match (ta.get(k), tb.get(k)) {
            (Some(x), Some(y)) => {
                if essence(k, x) != essence(k, y) {
                    return Err(format!("{} has other contents ({} bytes instead of {})", k, y.len(), x.len()));
                }
            }
            (Some(_), None) => return Err(format!("{} is missing", k)),
            _ => return Err(format!("{} is there in addition", k)),
        }
    }
    Ok(())
}
fn copy_tree(a: &Path, b: &Path) {
    fs::create_dir_all(b).unwrap();
    for f in fs::read_dir(a).unwrap() {
        let f = f.unwrap();
        let t = b.join(f.file_name());
        if f.file_type().unwrap().is_dir() {
            copy_tree(&f.path(), &t);
        } else {
            fs::copy(f.path(), t).unwrap();
        }
    }
}
struct Dirs(PathBuf, PathBuf);
impl Drop for Dirs {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
        let _ = fs::remove_dir_all(&self.1);
    }
}
/// the steps of a search, conversions included; an empty vector stands for the sort
fn steps_of(a: &Path, cf: &Conf) -> Result<Vec<Vec<String>>, Fail> {
    let (t, n) = (cf.ty.s().to_string(), cf.n.to_string());
    let o = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let p = PAIRINGS[cf.pairing];
    let mut steps: Vec<Vec<String>> = vec![];
    if cf.stage == 0 {
        steps.push(o(&["pairs", &t, &n, cf.opt(), p]));
    } else {
        must(a, &["rowsums", &t, &n])?;
        let rs = fs::read_to_string(find_dir(a, cf.ty, cf.n).join("rowsums.quad")).map_err(|e| e.to_string())?;
        fs::remove_file(find_dir(a, cf.ty, cf.n).join("rowsums.quad")).unwrap();
        steps.push(o(&["rowsums", &t, &n]));
        for l in rs.lines() {
            let v: Vec<&str> = l.split_whitespace().collect();
            if cf.stage == 1 {
                steps.push(o(&["pairs_rowsum", &t, &n, v[0], v[1], v[2], v[3], cf.opt(), p]));
            } else {
                steps.push(o(&["pair_single", &t, &n, v[0], v[1], v[2], v[3], cf.opt(), p, "1"]));
                steps.push(o(&["pair_single", &t, &n, v[0], v[1], v[2], v[3], cf.opt(), p, "2"]));
            }
        }
    }
    steps.push(vec![]);
    for x in [vec!["join"], vec!["convert", "qhm"], vec!["convert", "hm"], vec!["qhm-all"]] {
        steps.push(o(&[&x[..], &[&t[..], &n[..]]].concat()));
    }
    Ok(steps)
}
fn cut_off(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cf = conf(s, c.param as usize);
    let ds = Dirs(fresh_dir("whole"), fresh_dir("cut"));
    let (a, b) = (&ds.0, &ds.1);
    fs::create_dir_all(find_dir(a, cf.ty, cf.n)).unwrap();
    let steps = steps_of(a, &cf)?;
    let own: Vec<usize> = (0..steps.len()).filter(|&i| !steps[i].is_empty()).collect();
    let k = if s.bool() { own[own.len() - 4 + s.below(4)] } else { *s.pick(&own) };
    let go = |d: &Path, i: usize| -> Outcome {
        if steps[i].is_empty() {
            sort_pairs(d, cf.ty, cf.n);
        } else {
            must(d, &steps[i].iter().map(|x| &x[..]).collect::<Vec<_>>())?;
        }
        Ok(())
    };
    for i in 0..k {
        go(a, i)?;
    }
    copy_tree(a, b);
    let before = tree(a);
    go(a, k)?;
    let written: Vec<(String, usize)> = tree(a).into_iter().filter(|(f, x)| !a.join(&f[1..]).is_dir() && before.get(f) != Some(x)).map(|(f, x)| (f, x.len())).collect();
    if written.is_empty() {
        return Ok(());
    }
    let largest = written.iter().map(|x| x.1).max().unwrap();
    // the limit: inside one of the files the step writes, just below or above its size, or anywhere
    let size = s.pick(&written).1;
    let limit = match s.below(4) {
        0 => size.saturating_sub(1 + s.below(3)),
        1 => size + s.below(2),
        _ => s.below(size + 2),
    };
    let ignore = s.bool();
    let cmd = steps[k].join(" ");
    c.desc(format!("{}: files of at most {} bytes ({} SIGXFSZ)", cmd, limit, if ignore { "ignored" } else { "default" }));
    c.nontrivial(limit < largest);
    c.label(steps[k][0].clone());
    c.label(if limit < largest { "cut" } else { "fits" });
    let r = cli_limited(b, &steps[k].iter().map(|x| &x[..]).collect::<Vec<_>>(), Some((limit as u64, ignore)));
    if limit >= largest {
        ensure!(r.ok, "`{}` fails although all it writes fits: {}", cmd, r.err.chars().take(300).collect::<String>());
    }
    if r.ok {
        if let Err(e) = same_results(a, b) {
            return Err(format!("`{}` reports success although its output was cut off: {}", cmd, e).into());
        }
    }
    // the step can simply be run again, and the search goes on as if nothing had happened
    go(b, k)?;
    if let Err(e) = same_results(a, b) {
        return Err(format!("`{}` was cut off and run again: {}", cmd, e).into());
    }
    // the slow conversion is repeated in one case of four
    let hm = s.chance(1, 4);
    for i in k + 1..steps.len() {
        if !hm && steps[i].len() > 1 && steps[i][1] == "hm" {
            continue;
        }
        go(a, i)?;
        go(b, i)?;
    }
    if let Err(e) = same_results(a, b) {
        return Err(format!("after `{}` was cut off and run again the search ends with other results: {}", cmd, e).into());
    }
    Ok(())
}
/// One step of a search with a fault at one of its file operations: an error (once, or at every
/// later operation too), a kill, or transfers that are short or interrupted, which is no error.
fn failing(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cf = conf(s, c.param as usize);
    let ds = Dirs(fresh_dir("whole"), fresh_dir("fault"));
    let (a, b) = (&ds.0, &ds.1);
    fs::create_dir_all(find_dir(a, cf.ty, cf.n)).unwrap();
    let mut steps = steps_of(a, &cf)?;
    if cf.ty == Ty::Qts {
        steps.push(vec!["amicable".into(), cf.n.to_string()]);
    }
    let own: Vec<usize> = (0..steps.len()).filter(|&i| !steps[i].is_empty()).collect();
    let late = if cf.ty == Ty::Qts { 5 } else { 4 };
    let k = if s.chance(2, 3) { own[own.len() - late + s.below(late)] } else { *s.pick(&own) };
    let go = |d: &Path, i: usize| -> Outcome {
        if steps[i].is_empty() {
            sort_pairs(d, cf.ty, cf.n);
        } else {
            must(d, &steps[i].iter().map(|x| &x[..]).collect::<Vec<_>>())?;
        }
        Ok(())
    };
    for i in 0..k {
        // the conversions do not read each other's output
        if !(steps[i].len() > 1 && i >= own[own.len() - late] && steps[i][0] != "join") {
            go(a, i)?;
        }
    }
    copy_tree(a, b);
    let args: Vec<&str> = steps[k].iter().map(|x| &x[..]).collect();
    let log = a.join("operations");
    let r = cli_with(a, &args, None, &[("QS_SHIM_LOG", log.display().to_string())]);
    let ops: Vec<char> = fs::read_to_string(&log).unwrap_or_default().chars().collect();
    let _ = fs::remove_file(&log);
    ensure!(r.ok, "`{}` failed: {}", args.join(" "), r.err.chars().take(300).collect::<String>());
    if ops.is_empty() {
        return Err(format!("`{}`: no file operation was seen", args.join(" ")).into());
    }
    let kinds: BTreeSet<char> = ops.iter().copied().collect();
    let kinds: Vec<char> = kinds.into_iter().collect();
    let cmd = args.join(" ");
    c.label(args[0].to_string());
    c.nontrivial(true);
    // several faults, each met by a fresh copy of the directory
    let slow = args[0] == "convert" && args[1] == "hm" && cf.n > 4;
    let faults = s.range(1, if slow { 3 } else { 10 });
    c.weight = faults as u64;
    let mut done = vec![];
    let before = fresh_dir("before");
    let ds2 = Dirs(before.clone(), fresh_dir("before-x"));
    copy_tree(b, &before);
    for f in 0..faults {
        if f > 0 {
            fs::remove_dir_all(b).unwrap();
            copy_tree(&before, b);
        }
        // which operation: a kind of operation, then the first, the last or any of that kind
        let kind = *s.pick(&kinds);
        let at: Vec<usize> = (0..ops.len()).filter(|&i| ops[i] == kind).collect();
        let j = match s.below(4) {
            0 => at[0],
            1 => at[at.len() - 1],
            _ => *s.pick(&at),
        };
        let how = s.below(8);
        let (spec, what) = match how {
            0 => (format!("s {}", s.below(1 << 20)), "short and interrupted transfers".to_string()),
            1 => (format!("k {}", j), format!("a kill before operation {} ({})", j, kind)),
            _ => {
                let e = *s.pick(&[5, 28, 13, 24, 12, 122]);
                let sticky = s.bool();
                (format!("e {} {} {}", j, e, sticky as u8), format!("error {} at operation {} ({}){}", e, j, kind, if sticky { " and after it" } else { "" }))
            }
        };
        done.push(what.clone());
        c.desc(format!("{} n={} {} {}: {}", cmd, cf.n, cf.opt(), PAIRINGS[cf.pairing], done.join("; ")));
        c.label(if how == 0 { "benign".to_string() } else if how == 1 { "kill".to_string() } else { format!("error at {}", kind) });
        let r = cli_with(b, &args, None, &[("QS_SHIM", spec)]);
        if r.err.contains(NO_END) {
            return Err(format!("`{}` does not end after {}", cmd, what).into());
        }
        if how == 0 {
            ensure!(r.ok, "`{}` fails with {}: {}", cmd, what, r.err.chars().take(300).collect::<String>());
        }
        if r.ok {
            if let Err(e) = same_results(a, b) {
                return Err(format!("`{}` reports success although there was {}: {}", cmd, what, e).into());
            }
        }
        if f + 1 == faults || s.chance(1, 4) {
            go(b, k)?;
            if let Err(e) = same_results(a, b) {
                return Err(format!("`{}` met {} and was run again: {}", cmd, what, e).into());
            }
        }
    }
    drop(ds2);
    if k < own[own.len() - late] && s.chance(1, 4) {
        for i in k + 1..steps.len() {
            if steps[i].len() > 1 && steps[i][0] != "join" && i > own[own.len() - late] {
                continue;
            }
            go(a, i)?;
            go(b, i)?;
        }
        if let Err(e) = same_results(a, b) {
            return Err(format!("after `{}` met [{}] and was run again the search ends with other results: {}", cmd, done.join("; "), e).into());
        }
    }
    Ok(())
}
fn c28() -> Prop {
    Prop {
        id: "C28",
        subs: vec![Sub {
            name: "operation",
            f: failing,
            rule: "parameter = length n; case = one step of one search configuration whose file operations are counted, then repeated one to ten times with a fault at one of them: an error (once or from there on), a kill before it, or short and interrupted transfers throughout; one evaluation per fault; every case counts",
            params: grid(1, 7),
            quick: 30,
            thorough: 800,
        }, Sub {
            name: "file-size-long",
            f: cut_off,
            rule: "like file-size",
            params: grid(8, 10),
            quick: 6,
            thorough: 200,
        }, Sub {
            name: "file-size",
            f: cut_off,
            rule: "parameter = length n; case = one step (rowsums, pairs, pairs_rowsum, pair_single, join, convert qhm, convert hm, qhm-all) of one search configuration, run with a limit on the size of the files it writes drawn around the sizes it needs, then run again without the limit and followed by the rest of the search; non-trivial = the limit is smaller than a file the step writes",
            params: grid(1, 7),
            quick: 40,
            thorough: 600,
        }],
        assumptions: vec![SCOPE, "a file-size limit (RLIMIT_FSIZE) stands for a full disk: it cuts the write that crosses it short and fails the next one", "other faults are met at the file operations of the C library on paths of the results tree"],
    }
}

// ------------------------------------------------------------------ C29 commands depend on their inputs only

/// the part of a results tree that a command reads
fn inputs_of(cmd: &[String], from: &Path, to: &Path) {
    let (ty, n) = match &cmd[0][..] {
        "join" | "qhm-all" => (&cmd[1], &cmd[2]),
        "convert" => (&cmd[2], &cmd[3]),
        "amicable" => return copy_if(from, to, &format!("results/pairs/qts/find_{}/result.seq", cmd[1])),
        _ => return,
    };
    let rel = format!("results/pairs/{}/find_{}", ty, n);
    if cmd[0] != "join" {
        let f = if cmd[0] == "convert" && cmd[1] == "hm" && ty == "wts" { "result-qts.seq" } else { "result.seq" };
        return copy_if(from, to, &format!("{}/{}", rel, f));
    }
    for e in fs::read_dir(from.join(&rel)).into_iter().flatten() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_dir() {
            let sub = format!("{}/{}", rel, e.file_name().to_string_lossy());
            fs::create_dir_all(to.join(&sub)).unwrap();
            for f in fs::read_dir(e.path()).unwrap() {
                let f = f.unwrap().file_name().to_string_lossy().to_string();
                if f.ends_with(".seq") || f.ends_with(".sorted") {
                    copy_if(from, to, &format!("{}/{}", sub, f));
                }
            }
        }
    }
}
fn copy_if(from: &Path, to: &Path, rel: &str) {
    if from.join(rel).is_file() {
        fs::create_dir_all(to.join(rel).parent().unwrap()).unwrap();
        fs::copy(from.join(rel), to.join(rel)).unwrap();
    }
}
/// a file's contents up to what may legitimately differ between two runs: the order of a list,
/// and of a list of matrices up to equivalence everything but their number
fn essence(name: &str, x: &[u8]) -> Vec<u8> {
    let t = String::from_utf8_lossy(x).into_owned();
    let sorted = |sep: &str| {
        let mut v: Vec<&str> = t.split(sep).map(|x| x.trim_matches('\n')).collect();
        v.sort();
        v.join(sep).into_bytes()
    };
    if name.ends_with("/result.mat") {
        // which matrix of a class is listed is the program's choice
        format!("{} ones, {} separators, {} lines, complete {}", t.matches('1').count(), t.matches(',').count(), t.lines().count(), t.is_empty() || t.ends_with('\n')).into_bytes()
    } else if name.ends_with("/qhm_all.mat") {
        sorted("\n\n")
    } else if name.rsplit('/').next().unwrap().starts_with("result") && (name.ends_with(".seq") || name.ends_with(".qhm")) {
        sorted("\n")
    } else if name.ends_with(".qseq") {
        sorted("]\n")
    } else {
        x.to_vec()
    }
}
/// the counts a command reports
fn report(out: &str) -> Vec<String> {
    let mut v: Vec<String> = out.lines().filter(|l| l.starts_with("Found ") || l.starts_with("converted ") || l.starts_with("Length ") || l.starts_with("Generated ") || l.contains("up to equivalence")).map(|l| l.to_string()).collect();
    v.sort();
    v
}
fn history(s: &mut Src, c: &mut Ctx) -> Outcome {
    let ds = Dirs(fresh_dir("hist"), fresh_dir("hist-x"));
    let h = ds.0.clone();
    let steps = c.param as usize;
    // two or three searches share the directory; the histories keep coming back to the same ones
    let slots: Vec<(Ty, usize)> = (0..s.range(1, 3)).map(|_| {
        let ty = *s.pick(&TYPES);
        (ty, if ty == Ty::Ws { s.range(1, 9) } else { s.range(1, 6) })
    }).collect();
    let mut log: Vec<String> = vec![];
    let (mut ran, mut over) = (0, 0);
    for _ in 0..steps {
        let (ty, n) = *s.pick(&slots);
        let (t, ns) = (ty.s().to_string(), n.to_string());
        let fd = find_dir(&h, ty, n);
        fs::create_dir_all(&fd).unwrap();
        let o = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
        let p = PAIRINGS[s.below(3)];
        let opt = if s.bool() { "psd" } else { "correlation" };
        let cmd = match s.below(16) {
            0 | 1 => {
                // a whole search
                log.push(format!("search {} {} {} {}", t, n, opt, p));
                clean_pairs(&fd);
                step(&h, &o(&["pairs", &t, &ns, opt, p]), &mut log, &mut over)?;
                sort_pairs(&h, ty, n);
                o(&["join", &t, &ns])
            }
            2 => {
                // the list is replaced by another one
                let pool = data::quads(n, ty);
                if pool.is_empty() {
                    continue;
                }
                let list: Vec<Quad> = (0..s.range(0, 8)).map(|_| {
                    let q = s.pick(&pool).clone();
                    data::rand_elem(s, n, ty).apply(&q)
                }).collect();
                let text: String = list.iter().map(|q| encode(q) + "\n").collect();
                log.push(format!("{} {} list := {}", t, n, text.replace('\n', " ")));
                fs::write(fd.join("result.seq"), &text).unwrap();
                if ty == Ty::Wts {
                    fs::write(fd.join("result-qts.seq"), &text).unwrap();
                }
                if s.bool() { o(&["convert", "hm", &t, &ns]) } else { o(&["convert", "qhm", &t, &ns]) }
            }
            3 => {
                log.push(format!("sort {} {}", t, n));
                sort_pairs(&h, ty, n);
                o(&["join", &t, &ns])
            }
            4 => {
                log.push(format!("cleanup {} {}", t, n));
                clean_pairs(&fd);
                continue;
            }
            5 => o(&["rowsums", &t, &ns]),
            6 => o(&["pairs", &t, &ns, opt, p]),
            7 | 8 => {
                let rs = rowsum_lines(ty, n)?;
                if rs.is_empty() {
                    continue;
                }
                let v = s.pick(&rs).clone();
                let v: Vec<&str> = v.split_whitespace().collect();
                match s.below(4) {
                    0 => o(&["create", &t, &ns, v[0], v[1], v[2], v[3], p]),
                    1 => o(&["pairs_rowsum", &t, &ns, v[0], v[1], v[2], v[3], opt, p]),
                    k => o(&["pair_single", &t, &ns, v[0], v[1], v[2], v[3], opt, p, if k == 2 { "1" } else { "2" }]),
                }
            }
            9 => o(&["join", &t, &ns]),
            10 => o(&["convert", "hm", &t, &ns]),
            11 | 12 => o(&["convert", "qhm", &t, &ns]),
            13 => {
                if n > 4 {
                    continue;
                }
                o(&["qhm-all", &t, &ns])
            }
            14 => o(&["amicable", &ns]),
            _ => match s.below(4) {
                0 => o(&["pairs", &t, &ns]),
                1 => o(&["convert", "hm", "xyz", &ns]),
                2 => o(&["join", &t, "many"]),
                _ => o(&["nonsense", &t]),
            },
        };
        ran += 1;
        step(&h, &cmd, &mut log, &mut over)?;
    }
    c.weight = ran.max(1) as u64;
    c.desc(log.join("; "));
    c.nontrivial(over > 0);
    c.label(format!("{} commands", ran));
    Ok(())
}
/// what pair_file_cleanup.sh removes
fn clean_pairs(fd: &Path) {
    for d in fs::read_dir(fd).into_iter().flatten() {
        let d = d.unwrap().path();
        if d.is_dir() {
            fs::remove_dir_all(d).unwrap();
        }
    }
}
fn rowsum_lines(ty: Ty, n: usize) -> Result<Vec<String>, Fail> {
    static C: Mutex<Option<HashMap<(Ty, usize), Vec<String>>>> = Mutex::new(None);
    if let Some(x) = C.lock().unwrap().get_or_insert_with(HashMap::new).get(&(ty, n)) {
        return Ok(x.clone());
    }
    let d = fresh_dir("rs");
    let fd = find_dir(&d, ty, n);
    fs::create_dir_all(&fd).unwrap();
    let r = must(&d, &["rowsums", ty.s(), &n.to_string()]);
    let v: Vec<String> = fs::read_to_string(fd.join("rowsums.quad")).unwrap_or_default().lines().map(|x| x.to_string()).collect();
    let _ = fs::remove_dir_all(&d);
    r?;
    C.lock().unwrap().as_mut().unwrap().insert((ty, n), v.clone());
    Ok(v)
}
/// One command in the shared directory against the same command in a fresh directory that holds
/// only what the command reads: same outcome, same output files, and nothing else changed.
fn step(h: &Path, cmd: &[String], log: &mut Vec<String>, over: &mut usize) -> Outcome {
    log.push(cmd.join(" "));
    let f = fresh_dir("alone");
    let g = Dirs(f.clone(), fresh_dir("alone-x"));
    inputs_of(cmd, h, &f);
    // the directories of the searches are made by the scripts
    for e in tree(h) {
        if h.join(&e.0[1..]).is_dir() && e.0.split('/').count() <= 5 {
            fs::create_dir_all(f.join(&e.0[1..])).unwrap();
        }
    }
    let before = tree(h);
    let fbefore = tree(&f);
    let a: Vec<&str> = cmd.iter().map(|x| &x[..]).collect();
    let (rh, rf) = (cli(h, &a), cli(&f, &a));
    let (after, alone) = (tree(h), tree(&f));
    drop(g);
    let fail = |m: String| -> Outcome { Err(format!("after [{}]: {}", log.join("; "), m).into()) };
    if rh.ok != rf.ok {
        return fail(format!("`{}` {}, but {} in a fresh directory: {}{}", cmd.join(" "), if rh.ok { "succeeds" } else { "fails" }, if rf.ok { "succeeds" } else { "fails" }, rh.err.chars().take(200).collect::<String>(), rf.err.chars().take(200).collect::<String>()));
    }
    if report(&rh.out) != report(&rf.out) {
        return fail(format!("`{}` reports {:?}, but {:?} in a fresh directory", cmd.join(" "), report(&rh.out), report(&rf.out)));
    }
    let written: BTreeSet<&String> = alone.iter().filter(|(k, x)| fbefore.get(*k) != Some(x)).map(|(k, _)| k).collect();
    for k in &written {
        *over += before.contains_key(*k) as usize;
    }
    for k in before.keys().chain(alone.keys()).chain(after.keys()) {
        let want = if alone.contains_key(k) { alone.get(k) } else { before.get(k) };
        match (want, after.get(k)) {
            (Some(w), Some(x)) => {
                if essence(k, w) != essence(k, x) {
                    return fail(format!("`{}` leaves {} with {} bytes, {}", cmd.join(" "), k, x.len(), if alone.contains_key(k) { format!("in a fresh directory with {}: {:?} versus {:?}", w.len(), String::from_utf8_lossy(x).chars().take(200).collect::<String>(), String::from_utf8_lossy(w).chars().take(200).collect::<String>()) } else { "although the file is none of its outputs".to_string() }));
                }
            }
            (Some(_), None) => return fail(format!("`{}` removes {}, or does not write it", cmd.join(" "), k)),
            (None, Some(_)) => return fail(format!("`{}` leaves {}, which it does not write in a fresh directory", cmd.join(" "), k)),
            _ => {}
        }
    }
    if rf.ok && cmd[0] == "convert" && cmd[1] == "hm" {
        let (ty, n) = (TYPES.iter().find(|t| t.s() == cmd[2]).unwrap(), cmd[3].parse::<usize>().unwrap());
        let fd = find_dir(h, *ty, n);
        let src = fd.join(if *ty == Ty::Wts { "result-qts.seq" } else { "result.seq" });
        let list = read_quads(&src, n)?;
        if let Err(e) = check_mat(&fd, &list, n) {
            return fail(format!("`{}`: {}", cmd.join(" "), e.msg));
        }
    }
    Ok(())
}
/// The jobs of one or two searches as processes that run at the same time in one directory, as
/// on a cluster, against one job after the other in a directory of their own.
fn jobs(s: &mut Src, c: &mut Ctx) -> Outcome {
    jobs_of(s, c, false)
}
fn schedules(s: &mut Src, c: &mut Ctx) -> Outcome {
    jobs_of(s, c, true)
}
fn jobs_of(s: &mut Src, c: &mut Ctx, controlled: bool) -> Outcome {
    let dir = fresh_dir("jobs");
    let ds = Dirs(dir.clone(), fresh_dir("jobs-x"));
    let o = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let mut cfs: Vec<Conf> = vec![];
    for _ in 0..s.range(1, 2) {
        let cf = conf(s, c.param as usize);
        if !cfs.iter().any(|x| x.ty == cf.ty) {
            cfs.push(cf);
        }
    }
    let mut js: Vec<Vec<String>> = vec![];
    for cf in &cfs {
        let (t, n, p) = (cf.ty.s(), cf.n.to_string(), PAIRINGS[cf.pairing]);
        // the jobs make the directories they need, if need be at the same time
        let made = !controlled || s.bool();
        if made {
            fs::create_dir_all(find_dir(&dir, cf.ty, cf.n)).unwrap();
        }
        for l in rowsum_lines(cf.ty, cf.n)? {
            let v: Vec<&str> = l.split_whitespace().collect();
            if cf.stage == 2 {
                if made {
                    must(&dir, &["create", t, &n, v[0], v[1], v[2], v[3], p])?;
                }
                for h in ["1", "2"] {
                    js.push(o(&["pair_single", t, &n, v[0], v[1], v[2], v[3], cf.opt(), p, h]));
                }
            } else {
                js.push(o(&["pairs_rowsum", t, &n, v[0], v[1], v[2], v[3], cf.opt(), p]));
            }
        }
    }
    s.shuffle(&mut js);
    let k = s.range(2, 8);
    c.desc(format!("{} jobs, {} at a time: {}", js.len(), k, cfs.iter().map(|x| x.d()).collect::<Vec<_>>().join(" and ")));
    c.nontrivial(js.len() > 1);
    c.weight = js.len().max(1) as u64;
    let mut switches = 0;
    let mut all = |js: &[Vec<String>]| if controlled { scheduled(s, &dir, js, k, &mut switches) } else { at_once(&dir, js, k) };
    all(&js)?;
    for cf in &cfs {
        sort_pairs(&dir, cf.ty, cf.n);
    }
    all(&cfs.iter().map(|cf| o(&["join", cf.ty.s(), &cf.n.to_string()])).collect::<Vec<_>>())?;
    let mut cs = vec![];
    for cf in &cfs {
        let (t, n) = (cf.ty.s(), cf.n.to_string());
        cs.push(o(&["convert", "qhm", t, &n]));
        if controlled && cf.n <= 4 {
            cs.push(o(&["convert", "hm", t, &n]));
            cs.push(o(&["qhm-all", t, &n]));
        }
    }
    all(&cs)?;
    if controlled {
        c.nontrivial(switches > 0);
        c.label(format!("{} switches", if switches == 0 { "no" } else if switches < 10 { "1-9" } else if switches < 100 { "10-99" } else { "100-" }));
    }
    for cf in &cfs {
        let r = run(cf)?;
        must(&r.dir, &["convert", "qhm", cf.ty.s(), &cf.n.to_string()])?;
        if controlled && cf.n <= 4 {
            must(&r.dir, &["convert", "hm", cf.ty.s(), &cf.n.to_string()])?;
            must(&r.dir, &["qhm-all", cf.ty.s(), &cf.n.to_string()])?;
        }
        let _ = fs::remove_file(r.fd.join("rowsums.quad"));
        let (x, y) = (tree(&find_dir(&dir, cf.ty, cf.n)), tree(&r.fd));
        for k in x.keys().chain(y.keys()) {
            // result.qhm is in the order of result.seq
            let e = |t: &BTreeMap<String, Vec<u8>>| t.get(k).map(|v| essence(k, v)).map(|v| if k.ends_with(".qhm") || k.ends_with("qhm_all.mat") { v.len().to_string().into_bytes() } else { v });
            ensure!(e(&x) == e(&y), "{} n={}: {} differs between jobs that run at the same time and one after the other", cf.ty.s(), cf.n, k);
        }
    }
    drop(ds);
    Ok(())
}
extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
    fn poll(p: *mut PollFd, n: u64, timeout: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
struct Job {
    child: std::process::Child,
    cmd: String,
    err: PathBuf,
    req: std::io::PipeReader,
    ans: std::io::PipeWriter,
    /// stopped before a file operation
    waiting: bool,
}
/// Runs the commands as processes, at most k at a time, of which one at a time performs file
/// operations: before each, the process stops and the generator chooses who goes on.
fn scheduled(s: &mut Src, dir: &Path, js: &[Vec<String>], k: usize, trace: &mut usize) -> Outcome {
    use std::io::{Read, Write};
    use std::os::fd::AsRawFd;
    use std::os::unix::process::CommandExt;
    // how often another process goes on: hardly ever to nearly always
    let (num, den) = *s.pick(&[(1, 2), (1, 8), (1, 40), (7, 8)]);
    let mut live: Vec<Job> = vec![];
    let mut next = 0;
    let mut cur = 0;
    let mut bad = None;
    let t = std::time::Instant::now();
    loop {
        while live.len() < k && next < js.len() {
            let (req, req_w) = std::io::pipe().unwrap();
            let (ans_r, ans) = std::io::pipe().unwrap();
            let err = fresh_dir("err");
            let mut cmd = Command::new(bin());
            die_with_parent(&mut cmd);
            let (x, y) = (req_w.as_raw_fd(), ans_r.as_raw_fd());
            unsafe {
                cmd.pre_exec(move || {
                    // first out of the way, in case one of them is 200 or 201
                    let (x, y) = (dup2(x, 202), dup2(y, 203));
                    dup2(x, 200);
                    dup2(y, 201);
                    Ok(())
                });
            }
            let child = cmd
                .args(&js[next]).current_dir(dir).env("RUST_BACKTRACE", "0").env("LD_PRELOAD", shim()).env("QS_SHIM_SCHED", "200 201")
                .stdin(Stdio::null()).stdout(Stdio::null()).stderr(fs::File::create(err.join("err")).unwrap())
                .spawn().expect("run the program");
            live.push(Job { child, cmd: js[next].join(" "), err, req, ans, waiting: false });
            next += 1;
        }
        if live.is_empty() {
            break;
        }
        // all arrive at their next file operation or end (one that takes long is left alone for now)
        let mut i = 0;
        while i < live.len() {
            let j = &mut live[i];
            if !j.waiting {
                let mut p = PollFd { fd: j.req.as_raw_fd(), events: 1, revents: 0 };
                if unsafe { poll(&mut p, 1, 1000) } > 0 {
                    let mut b = [0];
                    if j.req.read(&mut b).unwrap_or(0) == 1 {
                        j.waiting = true;
                    } else {
                        let st = j.child.wait().unwrap();
                        if !st.success() && bad.is_none() {
                            let e = fs::read_to_string(j.err.join("err")).unwrap_or_default();
                            bad = Some(format!("`{}` failed: {}", j.cmd, e.chars().take(400).collect::<String>()));
                        }
                        let _ = fs::remove_dir_all(&j.err);
                        live.remove(i);
                        if cur > i {
                            cur -= 1;
                        }
                        continue;
                    }
                }
            }
            i += 1;
        }
        let ready: Vec<usize> = (0..live.len()).filter(|&i| live[i].waiting).collect();
        if !ready.is_empty() {
            if !ready.contains(&cur) || (ready.len() > 1 && s.chance(num, den)) {
                let other: Vec<usize> = ready.iter().copied().filter(|&i| i != cur).collect();
                let to = if other.is_empty() { cur } else { *s.pick(&other) };
                *trace += (to != cur) as usize;
                cur = to;
            }
            live[cur].waiting = false;
            let _ = live[cur].ans.write_all(b"g");
        }
        if t.elapsed().as_secs() > 120 {
            bad = Some("the jobs do not end".to_string());
            for j in &mut live {
                let _ = j.child.kill();
                let _ = j.child.wait();
                let _ = fs::remove_dir_all(&j.err);
            }
            break;
        }
    }
    match bad {
        Some(e) => Err(e.into()),
        None => Ok(()),
    }
}
fn at_once(dir: &Path, js: &[Vec<String>], k: usize) -> Outcome {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let bad: Mutex<Option<Fail>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for _ in 0..k.min(js.len()) {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= js.len() {
                    break;
                }
                if let Err(e) = must(dir, &js[i].iter().map(|x| &x[..]).collect::<Vec<_>>()) {
                    *bad.lock().unwrap() = Some(e);
                }
            });
        }
    });
    match bad.into_inner().unwrap() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
fn c29() -> Prop {
    Prop {
        id: "C29",
        subs: vec![
            Sub { name: "history", f: history, rule: "parameter = length of the history; random commands (rowsums, create, pairs, pairs_rowsum, pair_single, sort, join, both conversions, qhm-all, amicable, refused command lines, cleanup, replaced lists, whole searches) of one to three searches in one results directory; every command is compared with the same command in a fresh directory that holds only its inputs; one evaluation per command; non-trivial = at least one existing output file was written again", params: vec![6, 10, 16, 24], quick: 60, thorough: 800 },
            Sub { name: "jobs", f: jobs, rule: "parameter = n; all jobs of one or two searches as processes at the same time, in random order, 2 to 8 at a time; one evaluation per job", params: grid(1, 7), quick: 12, thorough: 150 },
            Sub { name: "schedules", f: schedules, rule: "like jobs, but every process stops before each of its file operations (open, create, read, write, mkdir, directory entry) and the generator chooses which one goes on; at n<=4 also all three conversions of a list at the same time; non-trivial = more than one job and at least one switch", params: grid(1, 7), quick: 40, thorough: 500 },
        ],
        assumptions: vec![SCOPE, "in `jobs` the schedules of concurrent processes are those the operating system happens to produce; in `schedules` file operations are atomic and everything between two of them takes no time"],
    }
}

// ------------------------------------------------------------------ C30 refused command lines

/// a directory with a finished search, all conversions made and the pair data still there
fn finished(cf: &Conf) -> Result<PathBuf, Fail> {
    static C: Mutex<Option<HashMap<String, PathBuf>>> = Mutex::new(None);
    let key = cf.d();
    if let Some(x) = C.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return Ok(x.clone());
    }
    let r = run(cf)?;
    let (t, n) = (cf.ty.s(), cf.n.to_string());
    must(&r.dir, &["rowsums", t, &n])?;
    must(&r.dir, &["convert", "hm", t, &n])?;
    must(&r.dir, &["convert", "qhm", t, &n])?;
    must(&r.dir, &["qhm-all", t, &n])?;
    let keep = fresh_dir("finished");
    copy_tree(&r.dir, &keep);
    C.lock().unwrap().as_mut().unwrap().insert(key, keep.clone());
    Ok(keep)
}
/// a word that is not any of `good`, mostly a near miss
fn near_miss(s: &mut Src, good: &[&str]) -> String {
    loop {
        let w = s.pick(good).to_string();
        let r = match s.below(7) {
            0 => w.to_uppercase(),
            1 => w.chars().skip(1).collect(),
            2 => w.chars().take(w.chars().count() - 1).collect(),
            3 => w.clone() + *s.pick(&["s", " ", "x", "_", "0"]),
            4 => " ".to_string() + &w,
            5 => {
                let mut v: Vec<char> = w.chars().collect();
                let i = s.below(v.len());
                v[i] = *s.pick(&['a', 'q', 't', 'w', 's', '-', 'é']);
                v.into_iter().collect()
            }
            _ => s.pick(&["", "-", "--help", "none", "0", "psd", "qts"]).to_string(),
        };
        if !good.contains(&&r[..]) {
            return r;
        }
    }
}
/// what kind of thing each argument of a command is: (T)ype, (N)umber, (I)nteger, (O)ption,
/// (P)airing, (H)alf, (K)ind of conversion
const COMMANDS: [(&str, &str); 9] = [("qhm-all", "TN"), ("amicable", "N"), ("rowsums", "TN"), ("join", "TN"), ("convert", "KTN"), ("pairs", "TNOP"), ("pairs_rowsum", "TNIIIIOP"), ("create", "TNIIIIP"), ("pair_single", "TNIIIIOPH")];
const NOT_NUMBERS: [&str; 22] = ["", " ", "x", "-", "+", "1.0", "5.", ".5", "1e1", "0x5", "5 ", " 5", "5,", "5;", "five", "NaN", "inf", "--5", "1_0", "99999999999999999999999999", "\u{0665}", "\u{ff15}"];
fn refused(s: &mut Src, c: &mut Ctx) -> Outcome {
    let cf = Conf { ty: *s.pick(&TYPES), n: c.param as usize, psd: s.bool(), pairing: s.below(3), stage: 0 };
    let ready = finished(&cf)?;
    let (t, n) = (cf.ty.s(), cf.n.to_string());
    let (name, kinds) = *s.pick(&COMMANDS);
    let rs = rowsum_lines(cf.ty, cf.n)?;
    let rs: Vec<String> = s.pick(&rs).split_whitespace().map(|x| x.to_string()).collect();
    let mut cmd: Vec<String> = vec![name.to_string()];
    let mut k = 0;
    for x in kinds.chars() {
        cmd.push(match x {
            'T' => t.to_string(),
            'N' => n.clone(),
            'I' => {
                k += 1;
                rs[k - 1].clone()
            }
            'O' => cf.opt().to_string(),
            'P' => PAIRINGS[cf.pairing].to_string(),
            'H' => s.pick(&["1", "2"]).to_string(),
            _ => s.pick(&["hm", "qhm"]).to_string(),
        });
    }
    let dir = fresh_dir("refused");
    let ds = Dirs(dir.clone(), fresh_dir("refused-x"));
    copy_tree(&ready, &dir);
    let fd = find_dir(&dir, cf.ty, cf.n);
    let mut must_fail = true;
    let names: Vec<&str> = COMMANDS.iter().map(|x| x.0).collect();
    let how = match s.below(8) {
        0 => {
            let i = s.range(1, cmd.len() - 1);
            cmd.truncate(i);
            "too few arguments".to_string()
        }
        1 => {
            if name == "create" {
                // it ignores what follows
                cmd.truncate(4);
            } else {
                cmd.push(s.pick(&["1", "psd", "", "WZ", "verbose"]).to_string());
            }
            "wrong number of arguments".to_string()
        }
        2 => {
            cmd[0] = near_miss(s, &names);
            must_fail = false;
            "unknown command".to_string()
        }
        3 => {
            // an input is missing
            match name {
                "join" | "convert" | "qhm-all" | "amicable" | "rowsums" if s.chance(1, 2) => {
                    // a search that was never run
                    let at = kinds.find('N').unwrap() + 1;
                    cmd[at] = (cf.n + s.range(1, 30)).to_string();
                }
                "join" => {
                    let mut subs: Vec<PathBuf> = fs::read_dir(&fd).unwrap().map(|e| e.unwrap().path()).filter(|p| p.is_dir()).collect();
                    subs.sort();
                    let sub = s.pick(&subs).clone();
                    let mut sorted: Vec<PathBuf> = fs::read_dir(&sub).unwrap().map(|e| e.unwrap().path()).filter(|p| p.to_string_lossy().ends_with(".pair.sorted")).collect();
                    sorted.sort();
                    if s.chance(1, 4) {
                        fs::remove_dir_all(&fd).unwrap();
                    } else {
                        let one = s.bool();
                        for (i, f) in sorted.iter().enumerate() {
                            if one && i == 1 {
                                break;
                            }
                            fs::remove_file(f).unwrap();
                        }
                    }
                }
                "convert" => {
                    let hm = cmd[1] == "hm";
                    let f = fd.join(if hm && cf.ty == Ty::Wts { "result-qts.seq" } else { "result.seq" });
                    fs::remove_file(f).unwrap();
                }
                "qhm-all" => fs::remove_file(fd.join("result.seq")).unwrap(),
                "amicable" => {
                    let _ = fs::remove_file(find_dir(&dir, Ty::Qts, cf.n).join("result.seq"));
                }
                "rowsums" => fs::remove_dir_all(&fd).unwrap(),
                _ => {
                    cmd[1] = near_miss(s, &["qts", "wts", "ws", "its", "et1", "et2", "et3"]);
                }
            }
            "input missing".to_string()
        }
        _ => {
            let ks: Vec<char> = kinds.chars().collect();
            let mut i = s.below(ks.len());
            if ks[i] == 'P' && name.starts_with("pairs") {
                // another pairing means the default one
                i -= 1;
            }
            cmd[i + 1] = match ks[i] {
                'T' => near_miss(s, &["qts", "wts", "ws", "its", "et1", "et2", "et3"]),
                'N' | 'I' => {
                    let bad = *s.pick(&NOT_NUMBERS);
                    if ks[i] == 'N' && s.chance(1, 4) { format!("-{}", n) } else { bad.to_string() }
                }
                'O' => near_miss(s, &["psd", "correlation"]),
                'K' => near_miss(s, &["hm", "qhm"]),
                'H' => {
                    must_fail = false;
                    s.pick(&["0", "3", "12", "255", "256", "-1", "", "x", "1.0", "W"]).to_string()
                }
                _ => {
                    must_fail = name == "create";
                    near_miss(s, &PAIRINGS)
                }
            };
            format!("argument {}", ks[i])
        }
    };
    c.desc(format!("after {}: {:?} ({})", cf.d(), cmd, how));
    c.nontrivial(true);
    c.label(format!("{} {}", name, how));
    let files = |d: &Path| -> BTreeMap<String, Vec<u8>> { tree(d).into_iter().filter(|(k, _)| !d.join(&k[1..]).is_dir()).collect() };
    let before = files(&dir);
    let r = cli(&dir, &cmd.iter().map(|x| &x[..]).collect::<Vec<_>>());
    let after = files(&dir);
    drop(ds);
    for k in before.keys().chain(after.keys()) {
        let what = match (before.get(k), after.get(k)) {
            (Some(x), Some(y)) if x == y => continue,
            (Some(_), Some(_)) => "changes",
            (Some(_), None) => "removes",
            _ => "writes",
        };
        return Err(format!("{:?} ({}) {} {}", cmd, how, what, k).into());
    }
    ensure!(!(r.ok && must_fail), "{:?} ({}) ends with success", cmd, how);
    Ok(())
}
fn c30() -> Prop {
    Prop {
        id: "C30",
        subs: vec![Sub { name: "refused", f: refused, rule: "parameter = n of a finished search with all its results; one of the nine commands with arguments left out or added, a misspelt command, type, option or kind, something that is not a number, or an input file removed; every case counts", params: vec![1, 2, 3, 4, 5], quick: 700, thorough: 8000 }],
        assumptions: vec!["a pairing that is not one of the three means the default pairing, as the program documents", "`create` ignores arguments after its own"],
    }
}

// ------------------------------------------------------------------ C31 the counts reported are those of the files

/// the whole number that stands between the two texts on a line
fn number_in(l: &str, before: &str, behind: &str) -> Option<u64> {
    let r = &l[l.find(before)? + before.len()..];
    r[..if behind.is_empty() { r.len() } else { r.find(behind)? }].trim().parse().ok()
}
fn numbers_in(out: &str, before: &str, behind: &str) -> Vec<u64> {
    out.lines().filter_map(|l| number_in(l, before, behind)).collect()
}
fn text_lines(f: &Path) -> Result<Vec<String>, Fail> {
    Ok(fs::read_to_string(f).map_err(|e| format!("{}: {}", f.display(), e))?.lines().map(|l| l.to_string()).collect())
}
/// what a rowsum directory holds
struct RowDir {
    name: String,
    rs: Vec<i64>,
    /// of W, X, Y, Z
    seqs: Vec<Vec<Seq>>,
    /// the two pair files: halves they are of, lines
    pairs: Vec<(Vec<usize>, Vec<String>)>,
}
fn row_dirs(fd: &Path, suffix: &str) -> Result<Vec<RowDir>, Fail> {
    let mut v = vec![];
    for d in fs::read_dir(fd).map_err(|e| e.to_string())?.flatten().map(|d| d.path()).filter(|d| d.is_dir()) {
        let name = d.file_name().unwrap().to_string_lossy().to_string();
        let rs = name.split('_').skip(1).map(|x| x.parse().map_err(|_| Fail::from(format!("directory {}", name)))).collect::<Result<Vec<i64>, Fail>>()?;
        let mut r = RowDir { name, rs, seqs: vec![], pairs: vec![] };
        ensure!(r.rs.len() == 4, "directory {}", r.name);
        for t in TAGS.chars() {
            let f = d.join(format!("seq_{}.seq", t));
            let l = text_lines(&f)?;
            r.seqs.push(l.iter().map(|x| parse_pm(x).ok_or_else(|| Fail::from(format!("{}: line {:?}", f.display(), x)))).collect::<Result<_, Fail>>()?);
        }
        let mut fs_: Vec<PathBuf> = fs::read_dir(&d).unwrap().flatten().map(|f| f.path()).filter(|f| f.to_string_lossy().ends_with(suffix)).collect();
        fs_.sort();
        for f in fs_ {
            let t: Vec<usize> = f.file_name().unwrap().to_string_lossy().strip_prefix("pair_").unwrap_or("").chars().take(2).filter_map(|x| TAGS.find(x)).collect();
            ensure!(t.len() == 2, "file {}", f.display());
            r.pairs.push((t, text_lines(&f)?));
        }
        ensure!(r.pairs.len() == 2, "{} holds {} pair files", d.display(), r.pairs.len());
        v.push(r);
    }
    Ok(v)
}
const TAGS: &str = "WXYZ";
/// the combinations of lines with equal keys, and those that are of the type
fn matches_of(r: &RowDir, ty: Ty) -> Result<(u64, u64), Fail> {
    let key = |l: &str| -> Result<(String, [usize; 2]), Fail> {
        let bad = || Fail::from(format!("{}: pair line {:?}", r.name, l));
        let (k, i) = l.split_once(':').ok_or_else(bad)?;
        let v: Vec<usize> = i.split('_').filter(|x| !x.is_empty()).map(|x| x.parse().map_err(|_| bad())).collect::<Result<_, Fail>>()?;
        ensure!(v.len() == 2, "{}: pair line {:?}", r.name, l);
        Ok((k.to_string(), [v[0], v[1]]))
    };
    let mut by: HashMap<String, Vec<[usize; 2]>> = HashMap::new();
    for l in &r.pairs[0].1 {
        let (k, i) = key(l)?;
        by.entry(k).or_default().push(i);
    }
    let (mut all, mut good) = (0, 0);
    for l in &r.pairs[1].1 {
        let (k, j) = key(l)?;
        for i in by.get(&k).into_iter().flatten() {
            all += 1;
            let mut q: Quad = Default::default();
            for (side, ix) in [(0, i), (1, &j)] {
                for h in 0..2 {
                    let t = r.pairs[side].0[h];
                    q[t] = r.seqs[t].get(ix[h]).ok_or_else(|| Fail::from(format!("{}: pair line {:?} has no such sequence", r.name, l)))?.clone();
                }
            }
            good += is_type(&q, ty) as u64;
        }
    }
    Ok((all, good))
}
/// what one command that generates pairs says about the directory, against the directory;
/// `half`: the tags the command was to write
fn pairs_report(out: &str, r: &RowDir, half: &[Vec<usize>]) -> Outcome {
    for t in half.iter().flatten() {
        let v = numbers_in(out, "Found ", &format!(" sequences with rowsum {}", r.rs[*t]));
        let here: Vec<u64> = out.lines().filter(|l| l.ends_with(&format!(" sequences with rowsum {}", r.rs[*t]))).filter_map(|l| number_in(l, "Found ", " sequences")).collect();
        ensure!(!here.is_empty() && here.iter().all(|x| *x == r.seqs[*t].len() as u64), "{}: seq_{}.seq has {} lines, the report on rowsum {} says {:?} ({:?})", r.name, &TAGS[*t..*t + 1], r.seqs[*t].len(), r.rs[*t], here, v);
    }
    for h in half {
        let tag: String = h.iter().map(|t| &TAGS[*t..*t + 1]).collect();
        let (_, l) = r.pairs.iter().find(|(t, _)| t == h).ok_or_else(|| Fail::from(format!("{}: no pair file of {}", r.name, tag)))?;
        let v: Vec<u64> = out.lines().filter(|x| x.ends_with(&format!(" pairs for pairing {}", tag))).filter_map(|x| number_in(x, "Generated ", " pairs")).collect();
        ensure!(v == [l.len() as u64], "{}: pair_{}.pair has {} lines, the report says {:?}", r.name, tag, l.len(), v);
    }
    Ok(())
}
fn counts(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let cf = if c.sub == "search-deep" { deep(s, n) } else { conf(s, n) };
    let hm = c.sub == "search" && s.chance(1, 2);
    c.desc(format!("{}{}", cf.d(), if hm { ", converted" } else { "" }));
    c.label(format!("{} {}", cf.ty.s(), ["pairs", "pairs_rowsum", "pair_single"][cf.stage]));
    let dir = fresh_dir("cnt");
    let r = counts_of(&cf, hm, &dir, c);
    let _ = fs::remove_dir_all(&dir);
    r
}
fn counts_of(cf: &Conf, hm: bool, dir: &Path, c: &mut Ctx) -> Outcome {
    let (t, n) = (cf.ty.s(), cf.n.to_string());
    let fd = find_dir(dir, cf.ty, cf.n);
    fs::create_dir_all(&fd).unwrap();
    let p = PAIRINGS[cf.pairing];
    let halves = [[vec![0usize, 3], vec![1usize, 2]], [vec![0, 1], vec![2, 3]], [vec![0, 2], vec![1, 3]]][cf.pairing].clone();
    // the reports of the jobs, with what they report on
    let mut jobs: Vec<(String, String, usize)> = vec![];
    if cf.stage == 0 {
        let out = must(dir, &["pairs", t, &n, cf.opt(), p])?.out;
        // a part per rowsum
        let parts: Vec<&str> = out.split("Generating .pair files for rowsums").collect();
        let dirs = row_dirs(&fd, ".pair")?;
        let k = numbers_in(&out, "Generated ", " different rowsums");
        ensure!(k == [dirs.len() as u64], "the report of rowsums is {:?}, there are {} rowsum directories", k, dirs.len());
        ensure!(parts.len() == dirs.len() + 1, "{} rowsums are announced, there are {} rowsum directories", parts.len() - 1, dirs.len());
        let total = numbers_in(&out, "Generated ", " total pairs");
        let have: usize = dirs.iter().flat_map(|d| &d.pairs).map(|(_, l)| l.len()).sum();
        ensure!(total == [have as u64], "the report of pairs is {:?}, the pair files have {} lines in total", total, have);
        for x in &parts[1..] {
            let v: Vec<String> = x.lines().next().unwrap_or("").split(|ch: char| !ch.is_ascii_digit() && ch != '-').filter(|y| y.parse::<i64>().is_ok()).map(|y| y.to_string()).collect();
            jobs.push((format!("rowsum_{}", v.join("_")), x.to_string(), 0));
        }
    } else {
        must(dir, &["rowsums", t, &n])?;
        for l in text_lines(&fd.join("rowsums.quad"))? {
            let v: Vec<&str> = l.split_whitespace().collect();
            ensure!(v.len() == 4, "rowsums.quad line {:?}", l);
            let name = format!("rowsum_{}", v.join("_"));
            if cf.stage == 1 {
                jobs.push((name, must(dir, &["pairs_rowsum", t, &n, v[0], v[1], v[2], v[3], cf.opt(), p])?.out, 0));
            } else {
                must(dir, &["create", t, &n, v[0], v[1], v[2], v[3], p])?;
                for h in ["2", "1"] {
                    let out = must(dir, &["pair_single", t, &n, v[0], v[1], v[2], v[3], cf.opt(), p, h])?.out;
                    jobs.push((name.clone(), out, h.parse().unwrap()));
                }
            }
        }
    }
    let dirs = row_dirs(&fd, ".pair")?;
    ensure!(jobs.iter().map(|j| &j.0).collect::<BTreeSet<_>>() == dirs.iter().map(|d| &d.name).collect::<BTreeSet<_>>(), "the rowsums reported are not those of the directories");
    for (name, out, h) in &jobs {
        let d = dirs.iter().find(|d| d.name == *name).unwrap();
        let half = if *h == 0 { halves.to_vec() } else { vec![halves[h - 1].clone()] };
        pairs_report(out, d, &half)?;
        if *h > 0 {
            let have = d.pairs.iter().find(|x| x.0 == half[0]).map_or(0, |x| x.1.len() as u64);
            let total = numbers_in(out, "Generated ", " total pairs");
            ensure!(total == [have], "{}: the report of pairs is {:?}, the pair file has {} lines", name, total, have);
        }
    }
    sort_pairs(dir, cf.ty, cf.n);
    let npairs: usize = dirs.iter().flat_map(|d| &d.pairs).map(|x| x.1.len()).sum();
    c.weight = npairs.max(1) as u64;
    c.nontrivial(npairs > 0);
    join_report(dir, cf.ty, cf.n)?;
    if hm {
        let m = convert_hm_report(dir, cf.ty, cf.n)?;
        c.label(format!("matrices {}", m.min(4)));
    }
    Ok(())
}
/// joins the sorted pair files in the directory and compares the report with them and with the lists
fn join_report(dir: &Path, ty: Ty, n: usize) -> Outcome {
    let fd = find_dir(dir, ty, n);
    let dirs = row_dirs(&fd, ".pair.sorted")?;
    let out = must(dir, &["join", ty.s(), &n.to_string()])?.out;
    let parts: Vec<&str> = out.split("Matching files in /").collect();
    ensure!(parts.len() == dirs.len() + 1, "{} directories are announced, there are {}", parts.len() - 1, dirs.len());
    let mut good = 0;
    for d in &dirs {
        let part: Vec<&&str> = parts[1..].iter().filter(|x| x.split_whitespace().next() == Some(&d.name)).collect();
        ensure!(part.len() == 1, "{} is announced {} times", d.name, part.len());
        let (all, g) = matches_of(d, ty)?;
        good += g;
        let v: Vec<u64> = part[0].lines().filter(|l| l.starts_with("Matches found in ")).filter_map(|l| l.rsplit_once(": ")?.1.trim().parse().ok()).collect();
        ensure!(v == [all], "{}: {} pairs of lines have equal keys, the report says {:?}", d.name, all, v);
    }
    let v = numbers_in(&out, "Found ", &format!(" {} after matching", ty.s()));
    ensure!(v == [good], "{} of the pairs of lines with equal keys make a valid {}, the report says {:?}", good, ty.s(), v);
    let have = read_quads(&fd.join("result.seq"), n)?.len() as u64;
    let mut found: Vec<u64> = numbers_in(&out, "Found ", " after reducing to equivalence").into_iter().collect();
    found.extend(numbers_in(&out, "Found ", &format!(" {} after reducing to equivalence", ty.s())));
    ensure!(found == [have], "result.seq has {} lines, the report says {:?}", have, found);
    ensure!(have <= good, "{} classes of {} sequences", have, good);
    if let Some(f) = numbers_in(&out, "now filtering ", " sequences").first() {
        ensure!(have <= *f && *f <= good, "{} sequences after filtering, {} before and {} classes", f, good, have);
    }
    if ty == Ty::Wts {
        let have = read_quads(&fd.join("result-qts.seq"), n)?.len() as u64;
        let v = numbers_in(&out, "Found ", " qts after reducing to equivalence");
        ensure!(v == [have], "result-qts.seq has {} lines, the report says {:?}", have, v);
    }
    Ok(())
}
fn convert_hm_report(dir: &Path, ty: Ty, n: usize) -> Result<u64, Fail> {
    let out = must(dir, &["convert", "hm", ty.s(), &n.to_string()])?.out;
    let have = text_lines(&find_dir(dir, ty, n).join("result.mat"))?.len() as u64;
    let v = numbers_in(&out, "Number of matrices up to equivalence :", "");
    ensure!(v == [have], "result.mat has {} lines, the report says {:?}", have, v);
    Ok(have)
}
/// The join of directories whose pair files share keys many times over, so that matches are
/// many and only some of them valid.
fn counts_join(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = TYPES[s.enumerated(3)];
    let pool: Vec<Quad> = data::quads(n, ty);
    if pool.is_empty() {
        return Ok(());
    }
    let dir = fresh_dir("cntj");
    let fd = find_dir(&dir, ty, n);
    fs::create_dir_all(&fd).unwrap();
    let mut d = format!("join {} n={}", ty.s(), n);
    let mut names: BTreeSet<String> = BTreeSet::new();
    for _ in 0..s.range(1, 3) {
        let halves = [[vec![0usize, 3], vec![1usize, 2]], [vec![0, 1], vec![2, 3]], [vec![0, 2], vec![1, 3]]][s.below(3)].clone();
        // sequences whose sums are in the order in which the search has them
        let mut quads: Vec<Quad> = vec![];
        for _ in 0..s.range(1, 4) {
            let q = s.pick(&pool).clone();
            let mut q = data::rand_elem(s, n, ty).apply(&q);
            for t in 0..4 {
                if sum(&q[t]) < 0 && ty != Ty::Qts {
                    q[t] = neg(&q[t]);
                }
            }
            quads.push(q);
        }
        if ty != Ty::Qts {
            quads.iter_mut().for_each(|q| q.sort_by_key(|x| sum(x)));
        } else {
            let ordered = |q: &Quad| sum(&q[0]) >= 0 && (0..3).all(|t| sum(&q[t]) <= sum(&q[t + 1]));
            quads = quads.iter().filter_map(|q| {
                perms4().into_iter().find_map(|(p, _)| {
                    masks().into_iter().map(|m| -> Quad { std::array::from_fn(|t| if m[t] { neg(&q[p[t]]) } else { q[p[t]].clone() }) }).find(|r| ordered(r) && is_qts(r))
                })
            }).collect();
        }
        let Some(first) = quads.first().cloned() else { continue };
        let rs: Vec<i64> = (0..4).map(|t| sum(&first[t])).collect();
        quads.retain(|q| (0..4).all(|t| sum(&q[t]) == rs[t]));
        if rs[0] < 0 || (0..3).any(|t| rs[t] > rs[t + 1]) || !names.insert(format!("{:?}", rs)) {
            continue;
        }
        let rd = fd.join(format!("rowsum_{}_{}_{}_{}", rs[0], rs[1], rs[2], rs[3]));
        fs::create_dir_all(&rd).unwrap();
        // all distinct, as in the files of a search: the parts of the sequences, some shifted
        let mut seqs: Vec<Vec<Seq>> = vec![vec![]; 4];
        for t in 0..4 {
            for q in &quads {
                for k in 0..s.range(1, 4) {
                    let x = shift(&q[t], if ty == Ty::Ws { 0 } else { k % n });
                    if !seqs[t].contains(&x) {
                        seqs[t].push(x);
                    }
                }
            }
            s.shuffle(&mut seqs[t]);
            fs::write(rd.join(format!("seq_{}.seq", &TAGS[t..t + 1])), seqs[t].iter().map(|x| pm_str(x) + "\n").collect::<String>()).unwrap();
        }
        // keys: few, so that lines that do not belong together meet as well
        let same = s.range(1, 4) as u64;
        for (side, h) in halves.iter().enumerate() {
            let mut l: Vec<String> = vec![];
            for (i, a) in seqs[h[0]].iter().enumerate() {
                for (j, b) in seqs[h[1]].iter().enumerate() {
                    let v: i64 = (1..=n / 2).map(|k| (k as i64 * k as i64 + 1) * (paf(a, k) + paf(b, k)) * (1 - 2 * side as i64)).sum();
                    let k = if same == 1 { 0 } else { v.rem_euclid(same as i64 * 4) };
                    l.push(format!("{}_:_{}_{}\n", k, i, j));
                }
            }
            if s.chance(1, 8) {
                l.clear();
            }
            l.sort();
            fs::write(rd.join(format!("pair_{}{}.pair.sorted", &TAGS[h[0]..h[0] + 1], &TAGS[h[1]..h[1] + 1])), l.concat()).unwrap();
            d += &format!("; {} {} lines of {}{}", rd.file_name().unwrap().to_string_lossy(), l.len(), &TAGS[h[0]..h[0] + 1], &TAGS[h[1]..h[1] + 1]);
        }
        d += &format!(" of {:?}", seqs.iter().map(|v| v.iter().map(|x| pm_str(x)).collect::<Vec<_>>()).collect::<Vec<_>>());
    }
    c.desc(d);
    c.nontrivial(!names.is_empty());
    c.label(format!("{} directories {}", ty.s(), names.len()));
    let r = join_report(&dir, ty, n);
    let _ = fs::remove_dir_all(&dir);
    r
}
fn counts_convert(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = TYPES[s.enumerated(3)];
    let pool: Vec<Quad> = data::quads(n, ty);
    if pool.is_empty() {
        return Ok(());
    }
    let m = s.range(1, 12);
    let list: Vec<Quad> = (0..m).map(|_| s.pick(&pool).clone()).collect();
    let dir = fresh_dir("cntc");
    let fd = find_dir(&dir, ty, n);
    fs::create_dir_all(&fd).unwrap();
    let text: String = list.iter().map(|q| encode(q) + "\n").collect();
    c.desc(format!("convert {} {}: {}", ty.s(), n, text.replace('\n', " ")));
    for f in ["result.seq", "result-qts.seq"] {
        fs::write(fd.join(f), &text).unwrap();
    }
    let r = convert_hm_report(&dir, ty, n);
    let _ = fs::remove_dir_all(&dir);
    c.label(format!("matrices {}", r?.min(5)));
    c.nontrivial(true);
    c.weight = m as u64;
    Ok(())
}
fn c31() -> Prop {
    Prop {
        id: "C31",
        subs: vec![
            Sub { name: "search", f: counts, rule: "parameter = length n; case = type x option x pairing (18 in turn) x staging, half of them converted to matrices; one evaluation per line of a pair file; non-trivial = there was one", params: grid(1, 9), quick: 18, thorough: 54 },
            Sub { name: "search-deep", f: counts, rule: "as search, with Williamson searches of larger lengths (and quaternion-type at 11, 12)", params: vec![11, 14, 15, 17, 19], quick: 1, thorough: 4 },
            Sub { name: "join", f: counts_join, rule: "parameter = n; 1..3 rowsum directories built by hand: the four parts of known sequences and shifts of them, with keys that many of them share; non-trivial = there was a directory", params: vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13], quick: 40, thorough: 300 },
            Sub { name: "convert", f: counts_convert, rule: "parameter = n; lists of 1..12 known sequences, with repetitions", params: vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13], quick: 12, thorough: 80 },
        ],
        assumptions: vec![SCOPE],
    }
}

