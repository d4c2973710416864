//! Checks of the matrices, Hadamard equivalence, products and measurement operators.
#[path = "kit/mod.rs"]
mod kit;
mod lib_common;
use cgmath::Quaternion;
use kit::mats::*;
use kit::refs::*;
use kit::*;
use lib_common::*;
use num_complex::Complex;
use qs::verif_hooks::matrices::{OpMat, HM, QHM};
use qs::verif_hooks::matrix_equivalence as me;
use qs::verif_hooks::mum;
use qs::verif_hooks::product;
use qs::verif_hooks::sequence::QS;
use qs::verif_hooks::symmetries::SequenceType;
use std::collections::HashMap;
use std::sync::Mutex;

fn main() {
    main_with(vec![c07(), c20(), c21(), c22()])
}

type Mat = Vec<Vec<i8>>;
fn hm(m: &Mat) -> HM {
    let mut h = HM::new(m.len());
    for r in 0..m.len() {
        for c in 0..m.len() {
            h.set_value(r, c, m[r][c]);
        }
    }
    h
}
fn of_hm(h: &HM) -> Mat {
    (0..h.size()).map(|r| (0..h.size()).map(|c| h.get(r, c)).collect()).collect()
}
fn mat_str(m: &Mat) -> String {
    m.iter().map(|r| pm_str(r)).collect::<Vec<_>>().join("/")
}
/// random row and column permutations and negations
fn scramble(s: &mut Src, m: &Mat) -> Mat {
    let n = m.len();
    let (mut pr, mut pc): (Vec<usize>, Vec<usize>) = ((0..n).collect(), (0..n).collect());
    s.shuffle(&mut pr);
    s.shuffle(&mut pc);
    let (sr, sc) = (s.pm(n), s.pm(n));
    (0..n).map(|r| (0..n).map(|c| sr[r] * sc[c] * m[pr[r]][pc[c]]).collect()).collect()
}
/// some Hadamard matrix of this order, of varying class
fn some_had(s: &mut Src, n: usize) -> Mat {
    let mut opts: Vec<u8> = vec![];
    if n.is_power_of_two() {
        opts.push(0);
    }
    if n % 4 == 0 && (2..n).filter(|d| (n - 1) % d == 0).all(|d| d == n - 1) && n > 3 {
        opts.push(1);
    }
    if n % 4 == 0 && data::have(n / 4) && !reps(n / 4, Ty::Wts).is_empty() {
        opts.push(2);
        opts.push(2);
    }
    let mut m = match *s.pick(&opts) {
        0 => sylvester(n.trailing_zeros()),
        1 => paley(n - 1),
        _ => block_hadamard(&valid(s, n / 4, Ty::Qts).or_else(|| None).unwrap_or_else(|| reps(n / 4, Ty::Wts)[0].clone())),
    };
    // switching (only possible if four rows have a constant product)
    if n >= 16 && n % 8 == 0 {
        for _ in 0..s.below(5) {
            if s.bool() {
                m = transposed(&m);
            }
            m = switch_somewhere(s, &m);
        }
    }
    if s.bool() {
        m = transposed(&m);
    }
    m
}
fn switch_somewhere(s: &mut Src, m: &Mat) -> Mat {
    let n = m.len();
    let rows: Vec<u128> = m.iter().map(|r| r.iter().fold(0u128, |a, &x| (a << 1) | (x == 1) as u128)).collect();
    let full = if n == 128 { !0 } else { (1u128 << n) - 1 };
    let (a, b) = (s.below(n), s.below(n));
    if a == b {
        return m.clone();
    }
    let mut quads = vec![];
    for c in 0..n {
        for d in c + 1..n {
            if c != a && c != b && d != a && d != b {
                let p = rows[a] ^ rows[b] ^ rows[c] ^ rows[d];
                if p == 0 || p == full {
                    quads.push([a, b, c, d]);
                }
            }
        }
    }
    if quads.is_empty() {
        return m.clone();
    }
    let q = *s.pick(&quads);
    switch_rows(m, q, s.below(4)).unwrap_or_else(|| m.clone())
}

// ------------------------------------------------------------------ C07

/// exact for orders up to 16, otherwise canonical labelling of another graph
fn equivalent(a: &Mat, b: &Mat) -> bool {
    if a.len() <= 12 || (a.len() == 16 && had_profile(a) == had_profile(b)) {
        had_equivalent(a, b)
    } else if had_profile(a) != had_profile(b) || had_profile(&transposed(a)) != had_profile(&transposed(b)) {
        false
    } else {
        had_canon(a) == had_canon(b)
    }
}
fn had_pair(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let a = some_had(s, n);
    let b = match s.below(5) {
        0 => a.clone(),
        1 if n >= 16 => switch_somewhere(s, &a),
        2 => transposed(&a),
        3 => some_had(s, n),
        _ => a.clone(),
    };
    let b = scramble(s, &b);
    let want = equivalent(&a, &b);
    c.desc(format!("{} and {}", mat_str(&a), mat_str(&b)));
    c.nontrivial(n > 2);
    c.label(if want { "equivalent" } else if equivalent(&transposed(&a), &b) { "only the transpose equivalent" } else { "inequivalent" });
    let got = me::are_isomorphic(me::graph_from_hm(&hm(&a)), me::graph_from_hm(&hm(&b)));
    ensure!(got == want, "reported {} but {}: {}", if got { "isomorphic" } else { "not isomorphic" }, if want { "equivalent" } else { "inequivalent" }, c.desc);
    Ok(())
}
fn had_reduce(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let mut list: Vec<Mat> = vec![];
    for _ in 0..s.range(1, 5) {
        let m = match s.below(4) {
            0 if !list.is_empty() => transposed(s.pick(&list)),
            1 if !list.is_empty() => {
                let x = s.pick(&list).clone();
                if n >= 16 { switch_somewhere(s, &x) } else { x }
            }
            _ => some_had(s, n),
        };
        for _ in 0..s.range(1, 3) {
            list.push(scramble(s, &m));
        }
    }
    s.shuffle(&mut list);
    check_reduce(&list, c)
}
/// lists longer than a worker thread's share
fn had_reduce_long(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let base: Vec<Mat> = (0..s.range(1, 8)).map(|_| some_had(s, n)).collect();
    let list: Vec<Mat> = (0..s.range(20, 90)).map(|_| {
        let m = s.pick(&base).clone();
        scramble(s, &m)
    }).collect();
    check_reduce(&list, c)
}
fn check_reduce(list: &[Mat], c: &mut Ctx) -> Outcome {
    let n = list[0].len();
    c.desc(format!("{} matrices of order {}: {}", list.len(), n, list.iter().map(mat_str).collect::<Vec<_>>().join(" ")));
    let hs: Vec<HM> = list.iter().map(hm).collect();
    let r = me::reduce_to_hadamard_equivalence(&hs);
    let got: Vec<usize> = r.iter().map(|x| hs.iter().position(|y| *x == y).unwrap_or(usize::MAX)).collect();
    ensure!(got.iter().all(|i| *i < hs.len()), "the reduced list holds a matrix that is not in the list");
    let mut classes: Vec<usize> = vec![];
    for i in 0..list.len() {
        if !classes.iter().any(|j| equivalent(&list[*j], &list[i])) {
            classes.push(i);
        }
    }
    c.nontrivial(list.len() > 1);
    c.label(format!("{} of {}", classes.len(), list.len()));
    for (x, i) in got.iter().enumerate() {
        for j in &got[..x] {
            ensure!(!equivalent(&list[*i], &list[*j]), "two equivalent matrices are kept (numbers {} and {} of {})", i, j, c.desc);
        }
    }
    for i in &classes {
        ensure!(got.iter().any(|j| equivalent(&list[*i], &list[*j])), "the class of matrix {} of {} is lost", i, c.desc);
    }
    Ok(())
}
fn c07() -> Prop {
    Prop {
        id: "C07",
        subs: vec![
            Sub { name: "pairs", f: had_pair, rule: "two matrices of order over 2 (Sylvester, Paley, from quadruples, switched, transposed), scrambled", params: mixed(24, vec![1, 2, 4, 8, 12, 20, 24, 28, 36]), quick: 100, thorough: 3000 },
            Sub { name: "order16", f: had_pair, rule: "order 16, where two of the five classes are each other's transpose", params: vec![16], quick: 700, thorough: 20000 },
            Sub { name: "reduce", f: had_reduce, rule: "lists of at least two matrices, with copies, transposes and switched ones", params: mixed(12, vec![2, 4, 8, 12, 16, 20, 24, 28]), quick: 60, thorough: 800 },
            Sub { name: "reduce_long", f: had_reduce_long, rule: "lists of 20 to 90 matrices", params: vec![1, 2, 4, 8, 12, 16, 20], quick: 4, thorough: 100 },
        ],
        assumptions: vec!["orders up to 16: the oracle decides equivalence by backtracking; above: 4-row profiles and canonical labelling (crate graph_canon) of an independent graph"],
    }
}

// ------------------------------------------------------------------ C20

fn check_hm(m: &Mat, c: &mut Ctx) -> Outcome {
    let n = m.len();
    let h = hm(m);
    let had = is_hadamard(m);
    c.label(if had { "Hadamard" } else { "not Hadamard" });
    ensure!(h.size() == n && of_hm(&h) == *m, "entries of {}", mat_str(m));
    ensure!((0..n).all(|r| h.row(r) == m[r]), "rows of {}", mat_str(m));
    ensure!(h.verify() == had, "verify is {} for a matrix of order {} ({})", h.verify(), n, if n <= 20 { mat_str(m) } else { c.desc.clone() });
    // the equivalent matrix with first row and column 1 is unique
    let want: Mat = (0..n).map(|r| (0..n).map(|k| m[r][k] * m[r][0] * m[0][k] * m[0][0]).collect()).collect();
    let d = of_hm(&h.dephased());
    ensure!(d == want, "dephased {} is {} instead of {}", mat_str(m), mat_str(&d), mat_str(&want));
    ensure!(of_hm(&h) == *m, "dephased changed its argument {}", mat_str(m));
    let mut g = hm(m);
    g.dephase();
    ensure!(of_hm(&g) == want, "{} is dephased in place to {} instead of {}", mat_str(m), mat_str(&of_hm(&g)), mat_str(&want));
    ensure!(g == h.dephased() && g.verify() == had, "the two ways of dephasing differ");
    // printed forms
    let text = h.to_string();
    let rows: Option<Mat> = text.lines().map(|l| parse_pm(&l.strip_prefix("| ")?.strip_suffix(" |")?.replace(' ', ""))).collect();
    ensure!(rows.as_ref() == Some(m), "{} is printed as {}", mat_str(m), text);
    ensure!(parse_mat(&h.to_string_magma()).as_ref() == Some(m), "{} is printed for Magma as {}", mat_str(m), h.to_string_magma());
    Ok(())
}
fn hm_small(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let x = s.enumerated(1 << (n * n)) as u64;
    let m: Mat = (0..n).map(|r| from_bits(x >> (r * n) & ((1 << n) - 1), n)).collect();
    c.desc(mat_str(&m));
    c.nontrivial(n > 1);
    check_hm(&m, c)
}
fn hm_orders(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let mut m = some_had(s, n);
    if s.bool() {
        m = scramble(s, &m);
    }
    let mut how = String::from("Hadamard matrix");
    for _ in 0..s.below(3) {
        let (a, b) = (s.below(n), s.below(n));
        match s.below(6) {
            0 => {
                m[a][b] = -m[a][b];
                how += &format!(", entry {} {} negated", a, b);
            }
            1 => {
                m[a] = m[b].clone();
                how += &format!(", row {} copied to {}", b, a);
            }
            2 => {
                m[a] = neg(&m[b]);
                how += &format!(", row {} negated to {}", b, a);
            }
            3 => {
                m[a] = shift(&m[a], b);
                how += &format!(", row {} shifted by {}", a, b);
            }
            4 => {
                // nearly orthogonal: two entries of one row
                m[a][b] = -m[a][b];
                let d = s.below(n);
                m[a][d] = -m[a][d];
                how += &format!(", entries {} {} and {} {} negated", a, b, a, d);
            }
            _ => {
                m[a] = vec![1; n];
                how += &format!(", row {} all 1", a);
            }
        }
    }
    c.desc(format!("order {} {} {}", n, how, hash64(mat_str(&m).as_bytes())));
    c.nontrivial(true);
    check_hm(&m, c)
}
fn hm_quad(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let (mut q, how) = match s.below(3) {
        0 => (lumpy_quad(s, n), "random"),
        _ if data::have(n) => (any_valid(s, n).0, "valid"),
        _ => (rand_quad(s, n), "random"),
    };
    if s.bool() {
        q = mutate(s, &q).0;
    }
    c.desc(format!("{} ({})", quad_str(&q), how));
    c.nontrivial(is_qts(&q));
    let h = HM::from_williamson(&to_qs4(&q), SequenceType::QuaternionType);
    let want = block_hadamard(&q);
    ensure!(of_hm(&h) == want, "the matrix of {} is {} instead of {}", quad_str(&q), mat_str(&of_hm(&h)), mat_str(&want));
    ensure!(h.verify() == is_qts(&q), "the matrix of {} verifies as {}, quaternion-type is {}", quad_str(&q), h.verify(), is_qts(&q));
    c.label(if is_qts(&q) { "quaternion-type" } else { "other" });
    let b = of_qs4(&h.get_qts());
    ensure!(b == q, "the matrix of {} gives back {}", quad_str(&q), quad_str(&b));
    for t in 0..4 {
        let m = of_hm(&HM::from_sequence(&q[t]));
        let circ: Mat = (0..n).map(|r| (0..n).map(|k| q[t][(k + n - r) % n]).collect()).collect();
        ensure!(m == circ, "the circulant of {} is {}", pm_str(&q[t]), mat_str(&m));
    }
    Ok(())
}
/// a history of block copies against a plain array
fn hm_blocks(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let mut h = HM::new(n);
    let mut m: Mat = vec![vec![1; n]; n];
    let mut log = String::new();
    for _ in 0..s.range(1, 6) {
        let k = s.range(1, n);
        let (r0, c0) = (s.below(n - k + 1), s.below(n - k + 1));
        let b: Mat = (0..k).map(|_| s.pm(k)).collect();
        let op = s.below(4);
        log += &format!("{} at {} {} {}; ", mat_str(&b), r0, c0, ["", "minus", "transpose", "minus transpose"][op]);
        c.desc(log.clone());
        let o = [OpMat::NONE, OpMat::MINUS, OpMat::TRANSPOSE, OpMat::MINUSTRANSPOSE];
        h.copy_block_to(&hm(&b), r0, c0, &o[op]);
        for r in 0..k {
            for d in 0..k {
                let v = if op >= 2 { b[d][r] } else { b[r][d] };
                m[r0 + r][c0 + d] = if op % 2 == 1 { -v } else { v };
            }
        }
        if s.bool() {
            let (r, d) = (s.below(n), s.below(n));
            h.set_value(r, d, -m[r][d]);
            m[r][d] = -m[r][d];
            log += &format!("negate {} {}; ", r, d);
        }
        ensure!(of_hm(&h) == m, "holds {} instead of {}", mat_str(&of_hm(&h)), mat_str(&m));
    }
    c.nontrivial(true);
    Ok(())
}
fn c20() -> Prop {
    Prop {
        id: "C20",
        subs: vec![
            Sub { name: "all_small", f: hm_small, rule: "every matrix of order over 1", params: mixed(4, vec![1, 2, 3, 4]), quick: 65536, thorough: 65536 },
            Sub { name: "orders", f: hm_orders, rule: "a Hadamard matrix, scrambled, with up to two changes; each counts", params: mixed(64, vec![2, 4, 8, 12, 16, 20, 24, 28, 32, 36, 40, 44, 48, 60, 64]), quick: 600, thorough: 2400 },
            Sub { name: "large", f: hm_orders, rule: "as above; orders at which sums exceed 127", params: vec![100, 120, 124, 128, 132, 140], quick: 72, thorough: 288 },
            Sub { name: "huge", f: hm_huge, rule: "orders 256 and 512, where sums of entries exceed what 8 bits hold", params: vec![252, 256, 264, 512], quick: 20, thorough: 80 },
            Sub { name: "quads", f: hm_quad, rule: "quadruples that are quaternion-type", params: mixed(60, (1..=24).chain([27, 32, 33, 34, 36, 40, 45, 52, 60]).collect()), quick: 750, thorough: 5000 },
            Sub { name: "blocks", f: hm_blocks, rule: "every history of block copies", params: mixed(13, vec![1, 2, 3, 5, 8, 13]), quick: 900, thorough: 10000 },
        ],
        assumptions: vec!["the block layout documented in the paper (W X Y Z / X -W -Z Y / Y Z -W -X / Z -Y X -W)"],
    }
}
/// large orders: Paley or Sylvester, possibly with repeated rows
fn hm_huge(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    static CACHE: Mutex<Option<HashMap<usize, Mat>>> = Mutex::new(None);
    let base = {
        let mut g = CACHE.lock().unwrap_or_else(|e| e.into_inner());
        g.get_or_insert_with(HashMap::new).entry(n).or_insert_with(|| if n.is_power_of_two() { sylvester(n.trailing_zeros()) } else { paley(n - 1) }).clone()
    };
    let mut m = scramble(s, &base);
    let (a, b) = (s.below(n), s.below(n));
    match s.below(4) {
        0 => m[a] = m[b].clone(),
        1 => m[a] = neg(&m[b]),
        2 => m[a][b] = -m[a][b],
        _ => {}
    }
    c.desc(format!("order {} {}", n, hash64(mat_str(&m).as_bytes())));
    c.nontrivial(true);
    let had = is_hadamard(&m);
    c.label(if had { "Hadamard" } else { "not Hadamard" });
    let h = hm(&m);
    ensure!(h.verify() == had, "verify is {} for a matrix of order {} that is {}Hadamard (row {}, {})", h.verify(), n, if had { "" } else { "not " }, a, b);
    let want: Mat = (0..n).map(|r| (0..n).map(|k| m[r][k] * m[r][0] * m[0][k] * m[0][0]).collect()).collect();
    ensure!(of_hm(&h.dephased()) == want, "dephased matrix of order {}", n);
    Ok(())
}

// ------------------------------------------------------------------ C21

type QMat = Vec<Vec<Qd>>;
fn qd(q: Quaternion<f32>) -> Qd {
    [q.s, q.v.x, q.v.y, q.v.z].map(|x| (2.0 * x).round() as i64)
}
fn of_qhm(h: &QHM) -> QMat {
    (0..h.size()).map(|r| (0..h.size()).map(|c| qd(h.get(r, c))).collect()).collect()
}
fn qd_str(q: &Qd) -> String {
    if LETTERS.chars().any(|c| letter_quat(c) == Some(*q)) { quat_letter(*q).to_string() } else { format!("{:?}/2", q) }
}
fn word_of(v: &[Qd]) -> String {
    v.iter().map(qd_str).collect::<Vec<_>>().join("")
}
fn qs_of(v: &[Qd]) -> QS {
    let mut r = QS::new(v.len(), None);
    for (i, x) in v.iter().enumerate() {
        let f = x.map(|y| y as f32 / 2.0);
        r.set_value(Quaternion::new(f[0], f[1], f[2], f[3]), i);
    }
    r
}
fn circ(v: &[Qd]) -> QMat {
    let n = v.len();
    (0..n).map(|r| (0..n).map(|c| v[(c + n - r) % n]).collect()).collect()
}
fn is_qhm(m: &QMat) -> bool {
    let n = m.len() as i64;
    (0..m.len()).all(|a| (0..m.len()).all(|b| {
        let s = (0..m.len()).fold([0; 4], |s, i| qadd(s, qmul4(m[a][i], qconj(m[b][i]))));
        s == if a == b { [4 * n, 0, 0, 0] } else { [0; 4] }
    }))
}
/// words: random letters, perfect sequences (times a unit), nearly perfect ones
fn some_word(s: &mut Src, n: usize) -> Vec<Qd> {
    let all: Vec<Qd> = LETTERS.chars().map(|c| letter_quat(c).unwrap()).collect();
    let mut v: Vec<Qd> = match s.below(4) {
        0 => {
            // few different letters
            let k = s.range(1, 4);
            let pool: Vec<Qd> = (0..k).map(|_| *s.pick(&all)).collect();
            (0..n).map(|_| *s.pick(&pool)).collect()
        }
        1 => (0..n).map(|_| *s.pick(&all)).collect(),
        _ => {
            let r: Vec<Quad> = if data::have(n) { reps(n, Ty::Qts) } else { vec![] };
            if r.is_empty() {
                (0..n).map(|_| *s.pick(&all)).collect()
            } else {
                let q = s.pick(&r).clone();
                let q = rand_elem(s, n, Ty::Qts).apply(&q);
                let (u, w) = (*s.pick(&all), *s.pick(&all));
                quats(&q).into_iter().map(|x| qmul(w, qmul(x, u))).collect()
            }
        }
    };
    if s.chance(1, 3) {
        let i = s.below(n);
        v[i] = *s.pick(&all);
    }
    v
}
fn qhm_ops(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let v = some_word(s, n);
    c.desc(word_of(&v));
    let m = circ(&v);
    let h = QHM::from_pqs(qs_of(&v));
    ensure!(h.size() == n && of_qhm(&h) == m, "the matrix of {} is not its circulant", word_of(&v));
    for i in 0..n {
        ensure!(h.row(i).into_iter().map(qd).collect::<Vec<_>>() == m[i], "row {} of the matrix of {}", i, word_of(&v));
        ensure!(h.col(i).into_iter().map(qd).collect::<Vec<_>>() == (0..n).map(|r| m[r][i]).collect::<Vec<_>>(), "column {} of the matrix of {}", i, word_of(&v));
    }
    let good = is_qhm(&m);
    ensure!(h.verify() == good, "verify is {} for the matrix of {}", h.verify(), word_of(&v));
    let nc = |m: &QMat| {
        let e: Vec<Qd> = (1..n).flat_map(|r| m[r][1..].to_vec()).collect();
        e.iter().any(|a| e.iter().any(|b| qmul4(*a, *b) != qmul4(*b, *a)))
    };
    ensure!(h.contains_non_commuting_elements() == nc(&m), "contains_non_commuting_elements is {} for the matrix of {}", h.contains_non_commuting_elements(), word_of(&v));
    let text = h.to_string();
    let back = qhm_blocks(&text, n)?;
    ensure!(back == vec![m.clone()], "the matrix of {} is printed as {}", word_of(&v), text);
    // first row and column 1, unique up to conjugation by a unit
    let col = |r: usize, k: usize| qmul(m[r][k], qconj(m[0][k]));
    let want: QMat = (0..n).map(|r| (0..n).map(|k| qmul(qconj(col(r, 0)), col(r, k))).collect()).collect();
    let d = h.dephased();
    ensure!(of_qhm(&h) == m, "dephased changed its argument {}", word_of(&v));
    let mut g = QHM::from_pqs(qs_of(&v));
    g.dephase();
    c.label(format!("valid {} commuting {}", good as u8, !nc(&want) as u8));
    c.nontrivial(n > 1);
    for (x, how) in [(&d, "dephased"), (&g, "dephase")] {
        let y = of_qhm(x);
        ensure!((0..n).all(|i| y[0][i] == [2, 0, 0, 0] && y[i][0] == [2, 0, 0, 0]), "{} of the matrix of {} has first row {} and column {}", how, word_of(&v), word_of(&y[0]), word_of(&y.iter().map(|r| r[0]).collect::<Vec<_>>()));
        ensure!(same_up_to_conjugation(&y, &want), "{} of the matrix of {} is not equivalent to it: {}", how, word_of(&v), y.iter().map(|r| word_of(r)).collect::<Vec<_>>().join("/"));
        ensure!(x.verify() == good, "{} of the matrix of {} verifies as {}", how, word_of(&v), x.verify());
        ensure!(x.contains_non_commuting_elements() == nc(&y), "contains_non_commuting_elements is {} for {} of the matrix of {}", x.contains_non_commuting_elements(), how, word_of(&v));
        ensure!(qhm_blocks(&x.to_string(), n)? == vec![y.clone()], "{} of the matrix of {} is printed wrongly", how, word_of(&v));
    }
    Ok(())
}
/// entries that are not units: only the definition of verify counts
fn qhm_general(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let mut v: Vec<Qd> = vec![[0; 4]; n];
    match s.below(3) {
        0 => {
            // one entry of norm n
            let k = s.below(n);
            for x in 0..4i64 {
                let q = [x, s.below(4) as i64, s.below(4) as i64, s.below(4) as i64].map(|y| 2 * y);
                if q.iter().map(|y| y * y).sum::<i64>() == 4 * n as i64 {
                    v[k] = q;
                }
            }
        }
        1 => {
            for x in v.iter_mut() {
                *x = [0, 1, 2, 3].map(|_| s.below(5) as i64 - 2);
            }
        }
        _ => {
            v = some_word(s, n);
            let f = s.range(1, 3) as i64;
            v = v.into_iter().map(|q| q.map(|x| x * f)).collect();
        }
    }
    c.desc(word_of(&v));
    c.nontrivial(n > 1);
    let m = circ(&v);
    let good = is_qhm(&m);
    c.label(format!("valid {}", good as u8));
    let h = QHM::from_pqs(qs_of(&v));
    ensure!(of_qhm(&h) == m, "the matrix of {} is not its circulant", word_of(&v));
    ensure!(h.verify() == good, "verify is {} for the matrix of {}", h.verify(), word_of(&v));
    Ok(())
}
fn c21() -> Prop {
    Prop {
        id: "C21",
        subs: vec![
            Sub { name: "units", f: qhm_ops, rule: "circulants of words of length over 1 over the 24 units, many of them perfect", params: mixed(52, (1..=21).chain([25, 32, 33, 36, 40, 45, 52]).collect()), quick: 500, thorough: 8000 },
            Sub { name: "general", f: qhm_general, rule: "circulants with other entries", params: mixed(9, (1..=9).collect()), quick: 2400, thorough: 20000 },
        ],
        assumptions: vec!["dephasing is only determined up to conjugation of the whole matrix by a unit"],
    }
}

// ------------------------------------------------------------------ C22

type C32 = Complex<f32>;
type OpM = Vec<Vec<(i64, i64)>>; // doubled entries; exact for products of half-integers
/// reads the printed form of an operator; entries times f
fn read_op(text: &str, f: f64) -> Result<OpM, Fail> {
    let mut m = vec![];
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() {
            continue;
        }
        let body = l.strip_prefix("| ").and_then(|x| x.strip_suffix(" |")).ok_or_else(|| Fail::from(format!("operator line {:?}", l)))?;
        let mut row = vec![];
        for w in body.split(' ') {
            let w = w.strip_suffix('i').ok_or_else(|| Fail::from(format!("entry {:?}", w)))?;
            let at = w.char_indices().filter(|(i, c)| *i > 0 && (*c == '+' || *c == '-') && !w[..*i].ends_with('e')).map(|x| x.0).next().ok_or_else(|| Fail::from(format!("entry {:?}", w)))?;
            let (re, im): (f64, f64) = match (w[..at].parse(), w[at..].trim_start_matches('+').parse()) {
                (Ok(a), Ok(b)) => (a, b),
                _ => return Err(format!("entry {:?}", w).into()),
            };
            let x = (re * f, im * f);
            if (x.0 - x.0.round()).abs() > 1e-3 || (x.1 - x.1.round()).abs() > 1e-3 {
                return Err(format!("entry {:?} is not a multiple of 1/{}", w, f).into());
            }
            row.push((x.0.round() as i64, x.1.round() as i64));
        }
        m.push(row);
    }
    if m.iter().any(|r| r.len() != m.len()) {
        return Err(format!("not a square operator: {}", text).into());
    }
    Ok(m)
}
/// 2x2 matrix of a doubled quaternion, doubled: s + xi + yj + zk -> [[s+iz, ix-y],[ix+y, s-iz]]
fn op2(q: Qd) -> OpM {
    let [s, x, y, z] = q;
    vec![vec![(s, z), (-y, x)], vec![(y, x), (s, -z)]]
}
fn cmul(a: (i64, i64), b: (i64, i64)) -> (i64, i64) {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn mmul(a: &OpM, b: &OpM) -> OpM {
    let n = a.len();
    (0..n).map(|i| (0..n).map(|j| (0..n).fold((0, 0), |s, k| {
        let p = cmul(a[i][k], b[k][j]);
        (s.0 + p.0, s.1 + p.1)
    })).collect()).collect()
}
fn madd(a: &OpM, b: &OpM) -> OpM {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| (p.0 + q.0, p.1 + q.1)).collect()).collect()
}
fn mstar(a: &OpM) -> OpM {
    let n = a.len();
    (0..n).map(|i| (0..n).map(|j| (a[j][i].0, -a[j][i].1)).collect()).collect()
}
fn mkron(a: &OpM, b: &OpM) -> OpM {
    let (n, m) = (a.len(), b.len());
    (0..n * m).map(|i| (0..n * m).map(|j| cmul(a[i / m][j / m], b[i % m][j % m])).collect()).collect()
}
fn mscale(n: usize, f: i64) -> OpM {
    (0..n).map(|i| (0..n).map(|j| if i == j { (f, 0) } else { (0, 0) }).collect()).collect()
}
fn read2(o: &mum::Operator) -> Result<OpM, Fail> {
    let m = read_op(&o.to_string(), 2.0)?;
    ensure!(m.len() == o.size(), "an operator of size {} prints {} rows", o.size(), m.len());
    Ok(m)
}
fn rand_op(s: &mut Src) -> (mum::Operator, OpM) {
    let v: Vec<i64> = (0..8).map(|_| s.below(9) as i64 - 4).collect();
    let f = |i: usize| (v[i] as f32 / 2.0, v[i + 1] as f32 / 2.0);
    (mum::make_operator(f(0), f(2), f(4), f(6)), vec![vec![(v[0], v[1]), (v[2], v[3])], vec![(v[4], v[5]), (v[6], v[7])]])
}
fn qf(q: Qd) -> Quaternion<f32> {
    let f = q.map(|y| y as f32 / 2.0);
    Quaternion::new(f[0], f[1], f[2], f[3])
}
/// random expressions over operators against a plain matrix evaluator
fn operators(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (mut o, mut m) = match s.below(3) {
        0 => rand_op(s),
        1 => {
            let q: Qd = [0, 1, 2, 3].map(|_| s.below(7) as i64 - 3);
            (mum::quaternion_to_operator(&qf(q)), op2(q))
        }
        _ => {
            let k = s.range(1, 3);
            let (i, j) = (s.below(k), s.below(k));
            let mut e = vec![vec![(0, 0); k]; k];
            e[i][j] = (2, 0);
            (mum::computational_basis(k, i, j), e)
        }
    };
    let mut log = format!("{:?}", m);
    ensure!(read2(&o)? == m, "{} is printed as {}", log, o.to_string());
    for _ in 0..s.below(5) {
        match s.below(5) {
            0 => {
                o = o.conjugate_transpose();
                m = mstar(&m);
                log += " adjoint";
            }
            1 if o.size() <= 8 => {
                let (p, w) = rand_op(s);
                log += &format!(" (x) {:?}", w);
                if s.bool() {
                    o = o.tensor(&p);
                    m = mkron(&m, &w).iter().map(|r| r.iter().map(|x| (x.0, x.1)).collect()).collect();
                } else {
                    o = p.tensor(&o);
                    m = mkron(&w, &m);
                    log += " from the left";
                }
                // doubled entries: the product is quadrupled; only halves survive exactly if even
                o = o * C32::new(2.0, 0.0);
            }
            2 => {
                let (a, b) = (s.below(5) as i64 - 2, s.below(5) as i64 - 2);
                o = o * C32::new(a as f32, b as f32);
                m = m.iter().map(|r| r.iter().map(|x| cmul(*x, (a, b))).collect()).collect();
                log += &format!(" times {}+{}i", a, b);
            }
            3 => {
                let p = o.clone();
                let w = m.clone();
                o = o * C32::new(0.0, 1.0) + &p;
                m = madd(&m.iter().map(|r| r.iter().map(|x| cmul(*x, (0, 1))).collect()).collect(), &w);
                log += " times i plus itself";
            }
            _ => {
                let k = o.size();
                let (i, j) = (s.below(k), s.below(k));
                o = o + &mum::computational_basis(k, i, j);
                m[i][j].0 += 2;
                log += &format!(" plus E{}{}", i, j);
            }
        }
        c.desc(log.clone());
        ensure!(o.size() == m.len(), "{} has size {} instead of {}", log, o.size(), m.len());
        let got = read2(&o)?;
        ensure!(got == m, "{} is {:?} instead of {:?} (doubled)", log, got, m);
    }
    c.desc(log.clone());
    c.nontrivial(m.len() > 1);
    ensure!(read2(&mum::Operator::empty(m.len()))? == vec![vec![(0, 0); m.len()]; m.len()], "the empty operator is not 0");
    Ok(())
}
/// quaternions to operators: a homomorphism, adjoint = conjugate
fn quat_op(s: &mut Src, c: &mut Ctx) -> Outcome {
    let all: Vec<Qd> = LETTERS.chars().map(|x| letter_quat(x).unwrap()).collect();
    let i = s.enumerated(24 * 24);
    let (a, b) = (all[i / 24], all[i % 24]);
    c.desc(format!("{} {}", qd_str(&a), qd_str(&b)));
    c.nontrivial(true);
    let f = |q: Qd| read2(&mum::quaternion_to_operator(&qf(q)));
    let (x, y, z) = (f(a)?, f(b)?, f(qmul(a, b))?);
    let p = mmul(&x, &y);
    let z2: OpM = z.iter().map(|r| r.iter().map(|v| (2 * v.0, 2 * v.1)).collect()).collect();
    ensure!(p == z2, "the operators of {} do not multiply like the quaternions", c.desc);
    ensure!(mstar(&x) == f(qconj(a))?, "the operator of the conjugate of {} is not the adjoint", qd_str(&a));
    ensure!(mmul(&x, &mstar(&x)) == mscale(2, 4), "the operator of {} is not unitary", qd_str(&a));
    ensure!(x == op2(a), "the operator of {} is {:?}", qd_str(&a), x);
    Ok(())
}
fn perfect_word(s: &mut Src, n: usize) -> Vec<Qd> {
    let all: Vec<Qd> = LETTERS.chars().map(|c| letter_quat(c).unwrap()).collect();
    let q = s.pick(&reps(n, Ty::Qts)).clone();
    let q = rand_elem(s, n, Ty::Qts).apply(&q);
    let (u, w) = (*s.pick(&all), *s.pick(&all));
    quats(&q).into_iter().map(|x| qmul(w, qmul(x, u))).collect()
}
fn seq_product(s: &mut Src, c: &mut Ctx) -> Outcome {
    let p = c.length(s);
    let (p, q) = (p / 100, p % 100);
    let perf = s.chance(2, 3) && gcd(p, q) == 1 && !reps(p, Ty::Qts).is_empty() && !reps(q, Ty::Qts).is_empty();
    let (a, b) = if perf { (perfect_word(s, p), perfect_word(s, q)) } else { (some_word(s, p), some_word(s, q)) };
    c.desc(format!("{} times {}", word_of(&a), word_of(&b)));
    let r = product::sequence_product(&qs_of(&a), &qs_of(&b));
    ensure!(r.size() == p * q, "the product of lengths {} and {} has length {}", p, q, r.size());
    let got: Vec<Qd> = r.values().iter().map(|x| qd(*x)).collect();
    let want: Vec<Qd> = (0..p * q).map(|i| qmul(a[i % p], b[i % q])).collect();
    ensure!(got == want, "{} is {} instead of {}", c.desc, word_of(&got), word_of(&want));
    c.label(if perf { "perfect" } else { "any" });
    c.nontrivial(perf && p > 1 && q > 1);
    if perf {
        ensure!(perfect(&got), "{} is {}, which is not perfect", c.desc, word_of(&got));
        ensure!(r.is_perfect(), "the product {} is reported not perfect", word_of(&got));
    }
    Ok(())
}
fn measurements(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let v = if s.chance(1, 4) || reps(n, Ty::Qts).is_empty() { some_word(s, n) } else { perfect_word(s, n) };
    let mut h = QHM::from_pqs(qs_of(&v));
    let dephased = s.chance(1, 3);
    if dephased {
        h = h.dephased();
    }
    let m = of_qhm(&h);
    c.desc(format!("{}{}", word_of(&v), if dephased { " dephased" } else { "" }));
    // rows orthogonal with the conjugate on the left: what the identities below need
    let left = (0..n).all(|a| (0..n).all(|b| {
        let t = (0..n).fold([0; 4], |t, i| qadd(t, qmul4(qconj(m[a][i]), m[b][i])));
        t == if a == b { [4 * n as i64, 0, 0, 0] } else { [0; 4] }
    }));
    c.label(format!("orthogonal {}", left as u8));
    c.nontrivial(n > 1 && left);
    let d = mum::MUM::from_qhm(&h);
    ensure!(d.matrix_size() == 2 * n && d.length() == n && d.values().len() == n, "{} operators of size {} for order {}", d.length(), d.matrix_size(), n);
    let ops: Vec<OpM> = d.values().iter().map(read2).collect::<Result<_, _>>()?;
    for b in 0..n {
        // the definition
        let mut want = vec![vec![(0, 0); 2 * n]; 2 * n];
        for j in 0..n {
            for k in 0..n {
                let q = op2(qmul(m[b][j], qconj(m[b][k])));
                for x in 0..2 {
                    for y in 0..2 {
                        want[x * n + j][y * n + k] = q[x][y];
                    }
                }
            }
        }
        ensure!(ops[b] == want, "operator {} of the matrix of {} is {:?}", b, c.desc, ops[b]);
        ensure!(mstar(&ops[b]) == ops[b], "operator {} of {} is not Hermitian", b, c.desc);
        // n times a projector, of trace 2n, with diagonal blocks 1
        let sq = mmul(&ops[b], &ops[b]);
        let e: OpM = ops[b].iter().map(|r| r.iter().map(|x| (2 * n as i64 * x.0, 2 * n as i64 * x.1)).collect()).collect();
        ensure!(sq == e, "operator {} of {} is not a multiple of a projector", b, c.desc);
        for j in 0..n {
            ensure!((0..2).all(|x| (0..2).all(|y| ops[b][x * n + j][y * n + j] == (2 * (x == y) as i64, 0))), "operator {} of {} is not unbiased to the basis", b, c.desc);
        }
    }
    if left {
        let sum = ops.iter().fold(vec![vec![(0, 0); 2 * n]; 2 * n], |a, b| madd(&a, b));
        ensure!(sum == mscale(2 * n, 2 * n as i64), "the operators of {} do not add up to a multiple of 1", c.desc);
        for a in 0..n {
            for b in 0..a {
                ensure!(mmul(&ops[a], &ops[b]).iter().flatten().all(|x| *x == (0, 0)), "operators {} and {} of {} are not orthogonal", a, b, c.desc);
            }
        }
    }
    // one unitary operator, up to scale
    let u = mum::HMUO::from_qhm(&h);
    ensure!(u.matrix_size() == 2 * n && u.value().size() == 2 * n, "unitary operator of size {} ({}) for order {}", u.matrix_size(), u.value().size(), n);
    let x = read2(&u.value())?;
    ensure!(read_op(&u.to_string(), 2.0)? == x, "{} is printed as {}", c.desc, u.to_string());
    for j in 0..n {
        for k in 0..n {
            let q = op2(qconj(m[j][k]));
            ensure!((0..2).all(|a| (0..2).all(|b| x[2 * j + a][2 * k + b] == q[a][b])), "block {} {} of the unitary operator of {}", j, k, c.desc);
        }
    }
    if left {
        ensure!(mmul(&x, &mstar(&x)) == mscale(2 * n, 4 * n as i64), "the operator of {} is not unitary up to scale", c.desc);
    }
    Ok(())
}
fn tensors(s: &mut Src, c: &mut Ctx) -> Outcome {
    let p = c.length(s);
    let (p, q) = (p / 100, p % 100);
    let (a, b) = (some_word(s, p), some_word(s, q));
    c.desc(format!("{} and {}", word_of(&a), word_of(&b)));
    c.nontrivial(p > 1 || q > 1);
    let (ha, hb) = (QHM::from_pqs(qs_of(&a)), QHM::from_pqs(qs_of(&b)));
    let (ma, mb) = (mum::MUM::from_qhm(&ha), mum::MUM::from_qhm(&hb));
    let r = product::mum_product(&ma, &mb);
    ensure!(r.length() == p * q && r.matrix_size() == 4 * p * q && r.values().len() == p * q, "the product of {} and {} operators has {} of size {}", p, q, r.length(), r.matrix_size());
    for (i, o) in r.values().iter().enumerate() {
        let w = mkron(&read2(&ma.values()[i % p])?, &read2(&mb.values()[i % q])?);
        ensure!(o.size() == 4 * p * q, "operator {} of the product has size {}", i, o.size());
        let g = read_op(&o.to_string(), 4.0)?;
        ensure!(g == w, "operator {} of the product of {} is not the tensor product of operators {} and {}", i, c.desc, i % p, i % q);
    }
    let printed: Vec<String> = r.values().iter().map(|o| o.to_string() + "\n\n").collect();
    ensure!(r.to_string() == printed.concat(), "the product of {} is printed differently from its operators", c.desc);
    let (ua, ub) = (mum::HMUO::from_qhm(&ha), mum::HMUO::from_qhm(&hb));
    let t = ua.tensor(&ub);
    ensure!(t.matrix_size() == 4 * p * q && t.value().size() == 4 * p * q, "the tensor product of sizes {} and {} has size {} ({})", 2 * p, 2 * q, t.matrix_size(), t.value().size());
    ensure!(read_op(&t.value().to_string(), 4.0)? == mkron(&read2(&ua.value())?, &read2(&ub.value())?), "tensor product of the operators of {}", c.desc);
    let e = mum::MUM::empty(p, q);
    ensure!(e.length() == p && e.matrix_size() == q && e.values().iter().all(|o| *o == mum::Operator::empty(q)), "empty operators");
    let e = mum::HMUO::empty(q);
    ensure!(e.matrix_size() == q && e.value() == mum::Operator::empty(q), "empty operator");
    let e = mum::MUM::new(4 * p * q, &r.values());
    ensure!(e == r, "rebuilt from its operators the product differs");
    let e = mum::HMUO::new(4 * p * q, t.value());
    ensure!(e.matrix_size() == t.matrix_size() && e.value() == t.value(), "rebuilt operator");
    Ok(())
}
fn c22() -> Prop {
    let pairs = |m: i64, small: bool| -> Vec<i64> {
        let mut v = vec![];
        for p in 1..=m {
            for q in 1..=m {
                if if small { p * q <= 12 } else { p * q <= 200 } {
                    v.push(100 * p + q);
                }
            }
        }
        v
    };
    Prop {
        id: "C22",
        subs: vec![
            Sub { name: "sequence_product", f: seq_product, rule: "perfect sequences of coprime lengths over 1", params: mixed(1616, pairs(16, false)), quick: 120, thorough: 480 },
            Sub { name: "operators", f: operators, rule: "random expressions; size over 1", params: vec![0], quick: 30000, thorough: 200000 },
            Sub { name: "quaternion_operators", f: quat_op, rule: "all 576 pairs of units", params: vec![0], quick: 2880, thorough: 11520 },
            Sub { name: "measurements", f: measurements, rule: "matrices with orthogonal rows, of order over 1", params: mixed(9, (1..=12).collect()), quick: 120, thorough: 800 },
            Sub { name: "measurements_large", f: measurements, rule: "as measurements", params: vec![13, 14, 15, 16, 18, 20, 21], quick: 8, thorough: 80 },
            Sub { name: "tensors", f: tensors, rule: "orders not both 1", params: mixed(606, pairs(6, true)), quick: 36, thorough: 144 },
            Sub { name: "tensors_large", f: tensors, rule: "orders not both 1", params: vec![107, 701, 108, 801, 803, 308, 207, 702, 109, 901, 504, 405, 503, 305, 1003, 310, 1201, 112, 407, 1302], quick: 2, thorough: 12 },
        ],
        assumptions: vec!["the normalising factors are left out by the program (documented in a comment)", "orthogonality of different outcomes is required where rows are orthogonal with the conjugate on the left (always so for circulants of perfect sequences)"],
    }
}
