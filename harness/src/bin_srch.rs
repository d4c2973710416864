//! Checks of the exhaustive searchers and of the solver equations.
#[path = "kit/mod.rs"]
mod kit;
mod lib_common;
use kit::refs::*;
use kit::*;
use lib_common::*;
use qs::verif_hooks::equations as eq;
use qs::verif_hooks::symmetries::{SequenceType, Symmetry};
use qs::verif_hooks::williamson::{QuadSeq, SequenceTag};
use qs::verif_hooks::{find_naive, find_optim, find_unique, find_williamson, find_with_rowsum};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::fd::AsRawFd;

fn main() {
    main_with(vec![c23(), c25()])
}

// ------------------------------------------------------------------ C23

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// runs f and returns what it wrote to the standard output
fn captured<R>(f: impl FnOnce() -> R) -> (R, String) {
    let path = fresh_dir("out").join("stdout");
    let file = fs::File::create(&path).unwrap();
    let null = fs::File::create("/dev/null").unwrap();
    let _ = std::io::stdout().flush();
    let saved = unsafe { (dup(1), dup(2)) };
    unsafe {
        dup2(file.as_raw_fd(), 1);
        dup2(null.as_raw_fd(), 2);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(saved.0, 1);
        dup2(saved.1, 2);
        close(saved.0);
        close(saved.1);
    }
    let s = fs::read_to_string(&path).unwrap();
    let _ = fs::remove_dir_all(path.parent().unwrap());
    match r {
        Ok(r) => (r, s),
        Err(e) => std::panic::resume_unwind(e),
    }
}
fn word_of(v: &[Qd]) -> String {
    v.iter().map(|q| quat_letter(*q)).collect()
}
fn alphabet(big: bool) -> Vec<Qd> {
    LETTERS.chars().take(if big { 24 } else { 16 }).map(|x| letter_quat(x).unwrap()).collect()
}
/// how many of the leading values determine the word, and the value at each place
fn unfold(n: usize, sym: usize, lead: &[Qd]) -> Vec<Qd> {
    let sgn = |e: usize, q: Qd| if e % 2 == 0 { q } else { qneg(q) };
    match sym {
        0 => lead.to_vec(),
        1 => (0..n).map(|i| lead[i.min(n - 1 - i)]).collect(),
        2 => (0..n).map(|i| if i < n / 2 { lead[i] } else { sgn(i - n / 2, lead[i - n / 2]) }).collect(),
        _ => (0..n).map(|i| if i < n / 2 { lead[i] } else { sgn((i - n / 2) / 2, lead[i - n / 2]) }).collect(),
    }
}
/// all perfect words with the symmetry which begin with +, and how many words there are
fn perfect_words(n: usize, sym: usize, abc: &[Qd]) -> (BTreeSet<String>, u64) {
    let free = if sym == 0 { n } else { (n + 1) / 2 } - 1;
    let total = (abc.len() as u64).pow(free as u32);
    let mut out = BTreeSet::new();
    let one = letter_quat('+').unwrap();
    for mut m in 0..total {
        let mut lead = vec![one];
        for _ in 0..free {
            lead.push(abc[(m % abc.len() as u64) as usize]);
            m /= abc.len() as u64;
        }
        let w = unfold(n, sym, &lead);
        if perfect(&w) {
            out.insert(word_of(&w));
        }
    }
    (out, total)
}
fn same_list(what: &str, text: &str, count: usize, want: &BTreeSet<String>) -> Outcome {
    let lines: Vec<&str> = text.lines().collect();
    let set: BTreeSet<String> = lines.iter().map(|l| l.to_string()).collect();
    ensure!(set.len() == lines.len(), "{} lists a sequence twice ({} lines, {} different)", what, lines.len(), set.len());
    if let Some(w) = want.difference(&set).next() {
        return Err(format!("{} misses {} ({} of {} listed)", what, w, set.len(), want.len()).into());
    }
    if let Some(w) = set.difference(want).next() {
        return Err(format!("{} lists {}, which does not belong ({} listed, {} expected)", what, w, set.len(), want.len()).into());
    }
    ensure!(count == lines.len(), "{} counts {} but lists {}", what, count, lines.len());
    Ok(())
}
/// writes in random order, any number of them, each into the leading half as the searchers do
fn assignments(s: &mut Src, c: &mut Ctx) -> Outcome {
    use qs::verif_hooks::sequence::QS;
    let mut n = c.length(s);
    let sym = s.below(5);
    if sym >= 2 && n % 2 == 1 {
        n += 1; // the symmetries that fold a sequence in two halves are used with even lengths only
    }
    let abc = alphabet(true);
    let sy = match sym {
        0 => None,
        1 => Some(Symmetry::I),
        2 => Some(Symmetry::II),
        3 => Some(Symmetry::III),
        _ => Some(Symmetry::IV),
    };
    let fold = |lead: &[Qd]| if sym == 4 { (0..n).map(|i| if i < n / 2 { lead[i] } else { qneg(lead[i - n / 2]) }).collect() } else { unfold(n, sym, lead) };
    let free = if sym == 0 { n } else { (n + 1) / 2 };
    let mut q = QS::new(n, sy);
    ensure!(q.size() == n && q.search_size() == free, "length {} symmetry {}: size {} and {} free places instead of {}", n, sym, q.size(), q.search_size(), free);
    let mut lead: Vec<Qd> = vec![letter_quat('+').unwrap(); free];
    let all = s.chance(1, 2);
    let mut order: Vec<usize> = (0..free).collect();
    s.shuffle(&mut order);
    if !all {
        order = (0..s.below(2 * free + 1)).map(|_| s.below(free)).collect();
    }
    let mut written = vec![false; free];
    for i in order {
        let x = *s.pick(&abc);
        // the quaternion the library reads for this letter
        let one = QS::from_str(&quat_letter(x).to_string()).values()[0];
        q.set_value(one, i);
        lead[i] = x;
        written[i] = true;
    }
    let want = fold(&lead);
    let got: Vec<char> = q.to_string_raw().chars().collect();
    c.desc(format!("length {} symmetry {} leading {} ({} of {} places written)", n, sym, word_of(&lead), written.iter().filter(|x| **x).count(), free));
    c.nontrivial(n > 1 && written.iter().any(|x| *x));
    ensure!(got.len() == n, "{}: {} values", c.desc, got.len());
    for i in 0..n {
        // a place never written keeps the initial +
        let src = if sym == 0 { i } else if sym == 1 { i.min(n - 1 - i) } else { i % (n / 2) };
        let w = if written[src] { quat_letter(want[i]) } else { '+' };
        ensure!(got[i] == w, "{}: place {} holds {} instead of {}", c.desc, i, got[i], w);
    }
    Ok(())
}
const SEARCHERS: [&str; 3] = ["find_naive", "find_optim", "find_q24"];
const SYMS: [&str; 4] = ["none", "I", "II", "III"];
fn perfect_search(s: &mut Src, c: &mut Ctx) -> Outcome {
    let p = c.length(s);
    let (who, sym, n) = (p / 1000, p / 100 % 10, p % 100);
    c.desc(format!("{} length {} symmetry {}", SEARCHERS[who], n, SYMS[sym]));
    let sy = match sym {
        0 => None,
        1 => Some(Symmetry::I),
        2 => Some(Symmetry::II),
        _ => Some(Symmetry::III),
    };
    let (want, total) = perfect_words(n, sym, &alphabet(who == 2));
    c.weight = total;
    c.nontrivial(!want.is_empty() && (want.len() as u64) < total);
    c.label(format!("{} symmetry {}", SEARCHERS[who], SYMS[sym]));
    let (count, text) = captured(|| match who {
        0 => find_naive::find(n, sy),
        1 => find_optim::find(n, sy),
        _ => find_optim::find_q24(n, sy),
    });
    same_list(&c.desc, &text, count, &want)
}
/// length and symmetry, up to the given number of free positions
fn configs(who: i64, free: i64, top: i64) -> Vec<i64> {
    let mut v = vec![];
    for sym in 0..4 {
        for n in 1..=30 {
            let f = if sym == 0 { n } else { (n + 1) / 2 } - 1;
            if f <= free && f >= top && (sym < 2 || n % 2 == 0) {
                v.push(who * 1000 + sym * 100 + n);
            }
        }
    }
    v
}
fn cond_true(_: &QuadSeq) -> bool {
    true
}
fn cond_ws(q: &QuadSeq) -> bool {
    is_ws(&of_qs4(q))
}
fn cond_wts(q: &QuadSeq) -> bool {
    is_wts(&of_qs4(q))
}
fn cond_odd(q: &QuadSeq) -> bool {
    let q = of_qs4(q);
    q.iter().enumerate().map(|(i, a)| (i as i64 + 1) * sum(a)).sum::<i64>() % 3 != 0
}
const CONDS: [(&str, fn(&QuadSeq) -> bool); 4] = [("any", cond_true), ("Williamson", cond_ws), ("Williamson-type", cond_wts), ("rowsum", cond_odd)];
fn quads_of(n: usize, fixed: bool) -> impl Iterator<Item = Quad> {
    let free = if fixed { n - 1 } else { n };
    (0..1u64 << (4 * free)).map(move |m| {
        let mut q: Quad = [vec![-1i8; n], vec![-1; n], vec![-1; n], vec![-1; n]];
        for t in 0..4 {
            for i in 0..free {
                if m >> (t * free + i) & 1 == 1 {
                    q[t][i + n - free] = 1;
                }
            }
        }
        q
    })
}
fn quad_search(s: &mut Src, c: &mut Ctx) -> Outcome {
    let p = c.length(s);
    let (k, n) = (p / 100, p % 100);
    let (name, cond) = CONDS[k];
    c.desc(format!("find_williamson length {} condition {}", n, name));
    let mut want = BTreeSet::new();
    let mut total = 0;
    for q in quads_of(n, true) {
        total += 1;
        if paf_zero(&q) && perfect(&quats(&q)) && cond(&to_qs4(&q)) {
            want.insert(encode(&q));
        }
    }
    c.weight = total;
    c.nontrivial(!want.is_empty() && (want.len() as u64) < total);
    let (count, text) = captured(|| find_williamson::find(n, cond));
    same_list(&c.desc, &text, count, &want)
}
fn unique_search(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    c.desc(format!("find_unique length {}", n));
    let (found, _) = captured(|| find_unique::find_aux(n));
    let found: Vec<Quad> = found.iter().map(of_qs4).collect();
    let set: HashSet<Quad> = found.iter().cloned().collect();
    ensure!(set.len() == found.len(), "{}: a sequence is returned twice", c.desc);
    for q in &found {
        ensure!(q[0].len() == n && is_qts(q) && perfect(&quats(q)), "{}: {} is not perfect", c.desc, quad_str(q));
    }
    let mut total = 0;
    for q in quads_of(n, false) {
        total += 1;
        if paf_zero(&q) && perfect(&quats(&q)) {
            ensure!(set.contains(&q), "{}: {} is not found", c.desc, quad_str(&q));
        }
    }
    c.weight = total;
    c.nontrivial(!set.is_empty() && n > 1);
    let (text, _) = captured(|| find_unique::find(n));
    let mut keys = BTreeSet::new();
    for l in text.lines() {
        let q = decode(l);
        ensure!(q.is_some(), "{}: unreadable line {:?}", c.desc, l);
        let q = q.unwrap();
        ensure!(set.contains(&q), "{}: {} is not perfect", c.desc, l);
        ensure!(keys.insert(class_key(&q, Ty::Qts)), "{}: {} is equivalent to an earlier line", c.desc, l);
    }
    let want = brute_classes(n, Ty::Qts);
    ensure!(keys == want, "{}: {} classes instead of {}", c.desc, keys.len(), want.len());
    Ok(())
}
fn c23() -> Prop {
    let mut quick: Vec<i64> = [configs(0, 4, 0), configs(1, 5, 0), configs(2, 4, 0)].concat();
    quick.retain(|p| p % 100 <= 11);
    let mut conds = vec![];
    for k in 0..4 {
        conds.extend((1..=5).map(|n| 100 * k + n));
    }
    conds.push(6);
    conds.push(206);
    Prop {
        id: "C23",
        subs: vec![
            Sub { name: "perfect_search", f: perfect_search, rule: "lengths where some words are perfect and others are not (one case per length and symmetry; a case compares the whole list)", params: quick, quick: 1, thorough: 1 },
            Sub { name: "perfect_search_long", f: perfect_search, rule: "as perfect_search, one more free position", params: [configs(0, 5, 5), configs(1, 6, 6), configs(2, 5, 5)].concat(), quick: 1, thorough: 1 },
            Sub { name: "assignments", f: assignments, rule: "length over 1, at least one place written", params: mixed(60, (1..=40).chain([47, 60, 64, 65, 100]).collect()), quick: 600, thorough: 6000 },
            Sub { name: "quad_search", f: quad_search, rule: "lengths where some quadruples satisfy the condition and others do not", params: conds, quick: 1, thorough: 1 },
            Sub { name: "unique_search", f: unique_search, rule: "lengths over 1 with a perfect sequence", params: (1..=5).collect(), quick: 1, thorough: 1 },
            Sub { name: "unique_search_long", f: unique_search, rule: "as unique_search", params: vec![6], quick: 0, thorough: 1 },
        ],
        assumptions: vec!["the searches fix the first value (+, or the column of four minus signs)", "symmetries II and III are meaningful for even lengths only; IV is not searched under a fixed first value and is left out"],
    }
}

// ------------------------------------------------------------------ C25

const TAGS: [SequenceTag; 4] = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
/// given pair -> which sequences the variables x1..xn and xn+1..x2n stand for
const PAIRS: [([usize; 2], [usize; 2]); 6] = [([0, 1], [3, 2]), ([0, 2], [3, 1]), ([0, 3], [1, 2]), ([1, 2], [3, 0]), ([1, 3], [0, 2]), ([2, 3], [0, 1])];
fn letter(c: &str) -> Option<usize> {
    match c {
        "W" => Some(0),
        "X" => Some(1),
        "Y" => Some(2),
        "Z" => Some(3),
        _ => None,
    }
}

/// one equation: sum of coefficient times product of variables = right-hand side
struct Eqn {
    terms: Vec<(i64, Vec<usize>)>,
    rhs: i64,
}
fn parse_opb(text: &str, nvars: usize) -> Result<(Vec<String>, Vec<Eqn>), Fail> {
    let (mut comments, mut eqs) = (vec![], vec![]);
    for l in text.lines() {
        if l.trim().is_empty() {
            continue;
        }
        if let Some(x) = l.strip_prefix('*') {
            comments.push(x.trim().to_string());
            continue;
        }
        let bad = || Fail::from(format!("malformed line {:?}", l));
        let body = l.trim().strip_suffix(';').ok_or_else(bad)?;
        let (left, right) = body.split_once('=').ok_or_else(bad)?;
        let rhs: i64 = right.trim().parse().map_err(|_| bad())?;
        let mut terms: Vec<(i64, Vec<usize>)> = vec![];
        for t in left.split_whitespace() {
            if let Some(v) = t.strip_prefix('x') {
                let v: usize = v.parse().map_err(|_| bad())?;
                ensure!(v >= 1 && v <= nvars, "variable x{} of {} in {:?}", v, nvars, l);
                terms.last_mut().ok_or_else(bad)?.1.push(v - 1);
            } else {
                ensure!(terms.is_empty() || t.starts_with(['+', '-']), "missing sign in {:?}", l);
                terms.push((t.parse().map_err(|_| bad())?, vec![]));
            }
        }
        ensure!(!terms.is_empty() && terms.iter().all(|t| !t.1.is_empty()), "malformed line {:?}", l);
        eqs.push(Eqn { terms, rhs });
    }
    Ok((comments, eqs))
}
fn holds(e: &Eqn, x: &[bool]) -> bool {
    e.terms.iter().filter(|t| t.1.iter().all(|v| x[*v])).map(|t| t.0).sum::<i64>() == e.rhs
}
fn assign(q: &Quad, unk: [usize; 2]) -> Vec<bool> {
    q[unk[0]].iter().chain(&q[unk[1]]).map(|v| *v == 1).collect()
}
fn emit(q: &Quad, pair: usize, rs: [i64; 4]) -> (String, [usize; 2]) {
    let ([a, b], _) = PAIRS[pair];
    let r = (rs[0] as isize, rs[1] as isize, rs[2] as isize, rs[3] as isize);
    (eq::generate_equations(&q[a], &TAGS[a], &q[b], &TAGS[b], &SequenceType::QuaternionType, &r), [a, b])
}
/// the unknowns as named in the comment of the equations (the documented ones otherwise)
fn unknowns(comments: &[String], pair: usize) -> Result<[usize; 2], Fail> {
    let mut u = PAIRS[pair].1;
    for c in comments {
        if let Some(r) = c.strip_prefix("x1 ... xn is ") {
            let v: Vec<&str> = r.split(", xn+1 ... x2n is ").collect();
            ensure!(v.len() == 2, "unreadable comment {:?}", c);
            match (letter(v[0].trim()), letter(v[1].trim())) {
                (Some(a), Some(b)) => u = [a, b],
                _ => return Err(format!("unreadable comment {:?}", c).into()),
            }
        }
    }
    let mut all = [u[0], u[1], PAIRS[pair].0[0], PAIRS[pair].0[1]];
    all.sort();
    ensure!(all == [0, 1, 2, 3], "the comment names the unknowns {:?} for the given {:?}", u, PAIRS[pair].0);
    Ok(u)
}
fn negated(q: &Quad, t: usize) -> Quad {
    let mut r = q.clone();
    r[t] = neg(&r[t]);
    r
}
/// what the equations must say: the given rowsums of the unknowns, complementary, and the cross
/// conditions hold for the quadruple or with one sequence negated
fn completes(q: &Quad, unk: [usize; 2], rs: [i64; 4]) -> bool {
    unk.iter().all(|u| sum(&q[*u]) == rs[*u]) && paf_zero(q) && (qt_cross(q) || qt_cross(&negated(q, 0)))
}
fn rowsums(q: &Quad) -> [i64; 4] {
    [0, 1, 2, 3].map(|i| sum(&q[i]))
}
/// small lengths: every assignment of the two unknown sequences
fn all_assignments(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let pair = s.below(6);
    let q = if s.chance(1, 4) || reps(n, Ty::Qts).is_empty() { rand_quad(s, n) } else { valid(s, n, Ty::Qts).unwrap() };
    let mut rs = rowsums(&q);
    if s.chance(1, 6) {
        let u = PAIRS[pair].1[s.below(2)];
        rs[u] = -rs[u];
    }
    let (text, _) = emit(&q, pair, rs);
    c.desc(format!("{} given {:?}, rowsums {:?}", quad_str(&q), PAIRS[pair].0, rs));
    let (comments, eqs) = parse_opb(&text, 2 * n)?;
    let unk = unknowns(&comments, pair)?;
    let mut good = 0u64;
    let mut r = q.clone();
    for m in 0..1u64 << (2 * n) {
        r[unk[0]] = from_bits(m & ((1 << n) - 1), n);
        r[unk[1]] = from_bits(m >> n, n);
        let x = assign(&r, unk);
        let sat = eqs.iter().all(|e| holds(e, &x));
        let want = completes(&r, unk, rs);
        good += want as u64;
        ensure!(sat == want, "the equations of {}, {} are {} by {}, which {} a completion", quad_str(&q), format!("given {:?}, rowsums {:?}", PAIRS[pair].0, rs), if sat { "satisfied" } else { "violated" }, quad_str(&r), if want { "is" } else { "is not" });
    }
    c.weight = 1 << (2 * n);
    c.label(format!("pair {}", pair));
    c.nontrivial(good > 0 && n > 1);
    Ok(())
}
/// larger lengths: true completions and near misses that keep rowsums and autocorrelations
fn near_misses(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let pair = s.below(6);
    let q = match valid(s, n, Ty::Qts) {
        Some(q) => q,
        None => return Ok(()),
    };
    let rs = rowsums(&q);
    let (text, _) = emit(&q, pair, rs);
    let (comments, eqs) = parse_opb(&text, 2 * n)?;
    let unk = unknowns(&comments, pair)?;
    let what = format!("{} given {:?}", quad_str(&q), PAIRS[pair].0);
    c.desc(what.clone());
    c.nontrivial(n > 1);
    let x = assign(&q, unk);
    for e in &eqs {
        ensure!(holds(e, &x), "{} does not satisfy its own equation with right-hand side {}", what, e.rhs);
    }
    let mut bad = 0;
    for _ in 0..12 {
        let mut r = q.clone();
        for _ in 0..s.range(1, 2) {
            let u = unk[s.below(2)];
            match s.below(7) {
                0 => r[u] = shift(&r[u], s.below(n)),
                1 => r[u].reverse(),
                2 => r[u] = automorph(&r[u], *s.pick(&units(n))),
                3 => r[u] = neg(&r[u]),
                4 => {
                    let t = r[unk[0]].clone();
                    r[unk[0]] = r[unk[1]].clone();
                    r[unk[1]] = t;
                }
                5 => {
                    let (i, j) = (s.below(n), s.below(n));
                    r[u].swap(i, j);
                }
                _ => {
                    let i = s.below(n);
                    r[u][i] = -r[u][i];
                }
            }
        }
        let want = completes(&r, unk, rs);
        bad += !want as usize;
        let x = assign(&r, unk);
        let sat = eqs.iter().all(|e| holds(e, &x));
        ensure!(sat == want, "the equations of {} are {} by {}, which {} a completion", what, if sat { "satisfied" } else { "violated" }, quad_str(&r), if want { "is" } else { "is not" });
        if paf_zero(&r) && !want && rowsums(&r) == rs {
            c.label("only the cross conditions fail");
        }
    }
    c.nontrivial(bad > 0 && n > 1);
    Ok(())
}
/// linear equations: each holds exactly when the combination of differences or sums vanishes
fn linear(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let (a, b) = (s.pm(n), s.pm(n));
    let (o, p, minus) = (s.below(4), s.below(4), s.bool());
    let op = |i: usize| match i {
        0 => eq::OpType::LeftPlus,
        1 => eq::OpType::LeftMinus,
        2 => eq::OpType::RightPlus,
        _ => eq::OpType::RightMinus,
    };
    let val = |i: usize, v: &[i8], k: usize, t: usize| {
        let (l, r) = (v[(k + n - t) % n] as i64, v[(k + t) % n] as i64);
        match i {
            0 | 2 => l + r,
            1 => l - r,
            _ => r - l,
        }
    };
    let text = eq::equations_crosscorrelation(&a, op(o), &b, op(p), if minus { eq::AddType::Minus } else { eq::AddType::Plus });
    let (_, eqs) = parse_opb(&text, 2 * n)?;
    c.desc(format!("{} {} operations {} {} {}", pm_str(&a), pm_str(&b), o, p, minus));
    c.nontrivial(!eqs.is_empty());
    let mut tries: Vec<(Seq, Seq)> = vec![(a.clone(), b.clone()), (b.clone(), a.clone()), (vec![1; n], vec![1; n]), (neg(&b), a.clone())];
    for _ in 0..6 {
        tries.push((s.pm(n), s.pm(n)));
    }
    let f = if minus { -1 } else { 1 };
    for (u, v) in tries {
        let x: Vec<bool> = u.iter().chain(&v).map(|e| *e == 1).collect();
        let sat = eqs.iter().all(|e| holds(e, &x));
        let want = (0..n).all(|t| (0..n).map(|k| val(o, &a, k, t) * u[k] as i64 + f * val(p, &b, k, t) * v[k] as i64).sum::<i64>() == 0);
        ensure!(sat == want, "the equations of {} are {} by {} {}", c.desc, if sat { "satisfied" } else { "violated" }, pm_str(&u), pm_str(&v));
        if sat && !eqs.is_empty() {
            c.label("satisfied");
        }
    }
    Ok(())
}
/// one printed equation says what its coefficients say
fn printed(s: &mut Src, c: &mut Ctx) -> Outcome {
    let m = s.range(1, 30);
    let zeros = s.below(3);
    let co: Vec<i8> = (0..m).map(|_| if s.below(3) < zeros { 0 } else { (s.below(256) as i64 - 128) as i8 }).collect();
    let rhs = s.below(2001) as isize - 1000;
    c.desc(format!("{:?} = {}", co, rhs));
    let text = eq::generate_equation_from(&co, rhs);
    let (_, eqs) = parse_opb(&text, m)?;
    if co.iter().all(|x| *x == 0) {
        ensure!(text.is_empty(), "{} is printed as {:?}", c.desc, text);
        return Ok(());
    }
    c.nontrivial(m > 1);
    ensure!(eqs.len() == 1 && text.ends_with('\n'), "{} is printed as {:?}", c.desc, text);
    let mut got = HashMap::new();
    for t in &eqs[0].terms {
        ensure!(t.1.len() == 1, "{} is printed as {:?}", c.desc, text);
        *got.entry(t.1[0]).or_insert(0) += t.0;
    }
    ensure!(eqs[0].rhs == rhs as i64 && (0..m).all(|i| *got.get(&i).unwrap_or(&0) == co[i] as i64), "{} is printed as {:?}", c.desc, text);
    Ok(())
}
/// the files written for a length: each describes its own pair, and every sequence that has one
/// of the sorted rowsums completes one of them
fn files(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let dir = fresh_dir("opb");
    std::env::set_current_dir(&dir).unwrap();
    c.desc(format!("solver files of length {}", n));
    let _ = captured(|| find_with_rowsum::find(n, SequenceType::QuaternionType));
    let mut read: HashMap<(Vec<i64>, [usize; 2], Seq, Seq), ([usize; 2], Vec<Eqn>)> = HashMap::new();
    let mut stack = vec![dir.clone()];
    let mut nfiles = 0;
    while let Some(d) = stack.pop() {
        for e in fs::read_dir(&d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                stack.push(p);
                continue;
            }
            nfiles += 1;
            let (comments, eqs) = parse_opb(&fs::read_to_string(&p).unwrap(), 2 * n)?;
            let mut given: Vec<(usize, Seq)> = vec![];
            let mut rs = vec![];
            for l in &comments {
                if let Some((k, v)) = l.split_once(": ") {
                    if let (Some(t), Some(q)) = (letter(k), parse_pm(v)) {
                        given.push((t, q));
                    }
                    if k == "rowsum" {
                        rs = v.trim_matches(['(', ')']).split(',').filter_map(|x| x.parse().ok()).collect();
                    }
                }
            }
            ensure!(given.len() == 2 && rs.len() == 4, "unreadable comments {:?} in {}", comments, p.display());
            let pair = PAIRS.iter().position(|x| x.0 == [given[0].0, given[1].0]);
            ensure!(pair.is_some(), "the given sequences of {} are in an unexpected order", p.display());
            let unk = unknowns(&comments, pair.unwrap())?;
            read.insert((rs, [given[0].0, given[1].0], given[0].1.clone(), given[1].1.clone()), (unk, eqs));
        }
    }
    std::env::set_current_dir("/").unwrap();
    let _ = fs::remove_dir_all(&dir);
    c.weight = nfiles;
    let mut seen = 0;
    let rsums = qs::verif_hooks::rowsum::generate_rowsums(n, SequenceType::QuaternionType);
    for r in &rsums {
        let rs = vec![r.0 as i64, r.1 as i64, r.2 as i64, r.3 as i64];
        for q in quads_of_sum(n, &rs) {
            if !is_qts(&q) {
                continue;
            }
            seen += 1;
            let hit = PAIRS.iter().any(|(g, _)| match read.get(&(rs.clone(), *g, q[g[0]].clone(), q[g[1]].clone())) {
                Some((unk, eqs)) => {
                    let x = assign(&q, *unk);
                    eqs.iter().all(|e| holds(e, &x))
                }
                None => false,
            });
            ensure!(hit, "no file of length {} is completed by {}", n, quad_str(&q));
        }
    }
    c.nontrivial(seen > 0);
    Ok(())
}
fn quads_of_sum(n: usize, rs: &[i64]) -> Vec<Quad> {
    let all: Vec<Vec<Seq>> = rs.iter().map(|r| (0..1u64 << n).map(|m| from_bits(m, n)).filter(|a| sum(a) == *r).collect()).collect();
    let pafs = |a: &[i8], b: &[i8]| -> Vec<i64> { (1..n).map(|t| paf(a, t) + paf(b, t)).collect() };
    let mut tab: HashMap<Vec<i64>, Vec<(usize, usize)>> = HashMap::new();
    for i in 0..all[2].len() {
        for j in 0..all[3].len() {
            tab.entry(pafs(&all[2][i], &all[3][j])).or_default().push((i, j));
        }
    }
    let mut out = vec![];
    for a in &all[0] {
        for b in &all[1] {
            let k: Vec<i64> = pafs(a, b).iter().map(|x| -x).collect();
            for (i, j) in tab.get(&k).map(|v| v.as_slice()).unwrap_or(&[]) {
                out.push([a.clone(), b.clone(), all[2][*i].clone(), all[3][*j].clone()]);
            }
        }
    }
    out
}
fn c25() -> Prop {
    Prop {
        id: "C25",
        subs: vec![
            Sub { name: "all_assignments", f: all_assignments, rule: "length over 1 and at least one assignment is a completion (every assignment of each case is decided)", params: mixed(7, (1..=7).collect()), quick: 1200, thorough: 20000 },
            Sub { name: "near_misses", f: near_misses, rule: "length over 1 and at least one altered quadruple is not a completion", params: mixed(60, (1..=33).chain([34, 36, 37, 44, 45, 60]).collect()), quick: 800, thorough: 8000 },
            Sub { name: "linear", f: linear, rule: "some equation is emitted", params: mixed(16, (1..=16).collect()), quick: 4000, thorough: 60000 },
            Sub { name: "printed", f: printed, rule: "several coefficients, not all 0", params: vec![0], quick: 10000, thorough: 200000 },
            Sub { name: "files", f: files, rule: "some sequence has the rowsums of a file", params: (1..=6).collect(), quick: 1, thorough: 1 },
        ],
        assumptions: vec!["the unknowns are those named in the emitted comment"],
    }
}
