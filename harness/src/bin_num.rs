//! Checks of rowsums, sequence generation, transforms, filters, correlations and keys.
#[path = "kit/mod.rs"]
mod kit;
mod lib_common;
use kit::refs::*;
use kit::*;
use lib_common::*;
use num_complex::Complex;
use qs::verif_hooks::find_write as fw;
use qs::verif_hooks::fourier as fo;
use qs::verif_hooks::matching as ma;
use qs::verif_hooks::rowsum as rw;
use qs::verif_hooks::sequence::seq_multiply_pointwise_complex;
use qs::verif_hooks::williamson as wi;
use qs::verif_hooks::williamson::SequenceTag;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;

fn main() {
    main_with(vec![c14(), c15(), c16(), c17(), c18(), c24()])
}

const TAGS: [SequenceTag; 4] = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
const NAMES: [&str; 4] = ["W", "X", "Y", "Z"];

// ------------------------------------------------------------------ C14

type Rs = [i64; 4];
fn rs_of(q: &(isize, isize, isize, isize)) -> Rs {
    [q.0 as i64, q.1 as i64, q.2 as i64, q.3 as i64]
}
/// all 0 <= a <= b <= c <= d with a^2+b^2+c^2+d^2 = m
fn squares(m: i64) -> Vec<Rs> {
    let mut v = vec![];
    let mut a = 0;
    while 4 * a * a <= m {
        let mut b = a;
        while a * a + 3 * b * b <= m {
            let mut c = b;
            while a * a + b * b + 2 * c * c <= m {
                let r = m - a * a - b * b - c * c;
                let mut d = (r as f64).sqrt() as i64;
                while d * d > r {
                    d -= 1;
                }
                while (d + 1) * (d + 1) <= r {
                    d += 1;
                }
                if d * d == r && d >= c {
                    v.push([a, b, c, d]);
                }
                c += 1;
            }
            b += 1;
        }
        a += 1;
    }
    v
}
/// the sorted member of the class of a rowsum quadruple under the moves of the type
fn rs_canon(r: &Rs, ty: Ty) -> Rs {
    let mut v = *r;
    let mut par = false;
    for t in 0..4 {
        if v[t] < 0 {
            v[t] = -v[t];
            par = !par;
        }
    }
    for i in 1..4 {
        let mut j = i;
        while j > 0 && v[j] < v[j - 1] {
            v.swap(j, j - 1);
            par = !par;
            j -= 1;
        }
    }
    let free = v[0] == 0 || v[0] == v[1] || v[1] == v[2] || v[2] == v[3];
    if ty == Ty::Qts && par && !free {
        v[3] = -v[3];
    }
    v
}
fn rowsum_list(s: &mut Src, c: &mut Ctx) -> Outcome {
    let p = c.length(s);
    let ty = TYPES[s.enumerated(3)];
    c.desc(format!("{} n={}", ty.s(), p));
    let mut want: Vec<Rs> = squares(4 * p as i64).into_iter().filter(|r| r.iter().all(|x| (x - p as i64) % 2 == 0)).collect();
    if ty == Ty::Qts {
        let more: Vec<Rs> = want.iter().filter(|r| 0 < r[0] && r[0] < r[1] && r[1] < r[2] && r[2] < r[3]).map(|r| [r[0], r[1], r[2], -r[3]]).collect();
        want.extend(more);
    }
    want.sort();
    let mut got: Vec<Rs> = rw::generate_rowsums(p, st(ty)).iter().map(rs_of).collect();
    got.sort();
    c.nontrivial(want.len() > 1);
    c.label(format!("{} {} decompositions", ty.s(), want.len().min(9)));
    ensure!(got == want, "the rowsums of {} are {:?} instead of {:?}", c.desc, got, want);
    let sq: Vec<Rs> = rw::sum_of_four_squares(p).iter().map(rs_of).collect();
    let mut sq2 = sq.clone();
    sq2.sort();
    ensure!(sq2 == squares(p as i64), "{} as four squares: {:?} instead of {:?}", p, sq, squares(p as i64));
    // any integer quadruple that rowsums could be has its representative in the list
    let set: BTreeSet<Rs> = got.into_iter().collect();
    let m = (1..).take_while(|x| x * x <= 4 * p as i64).last().unwrap_or(0);
    for a in -m..=m {
        for b in -m..=m {
            let r2 = 4 * p as i64 - a * a - b * b;
            if (a - p as i64) % 2 != 0 || (b - p as i64) % 2 != 0 || r2 < 0 {
                continue;
            }
            for d in -m..=m {
                let e2 = r2 - d * d;
                if (d - p as i64) % 2 != 0 || e2 < 0 {
                    continue;
                }
                let e = (e2 as f64).sqrt().round() as i64;
                if e * e != e2 || (e - p as i64) % 2 != 0 {
                    continue;
                }
                for f in [e, -e] {
                    let k = rs_canon(&[a, b, d, f], ty);
                    ensure!(set.contains(&k), "no rowsum quadruple of {} represents {:?} (should be {:?})", c.desc, [a, b, d, f], k);
                }
            }
        }
    }
    Ok(())
}
fn sums(q: &Quad) -> Rs {
    [sum(&q[0]), sum(&q[1]), sum(&q[2]), sum(&q[3])]
}
/// every class has a member that a search by rowsums meets and that counts as sorted
fn class_covered(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let have: Vec<Ty> = TYPES.iter().copied().filter(|t| !reps(n, *t).is_empty()).collect();
    let ty = *s.pick(&have);
    let q = valid(s, n, ty).unwrap();
    c.desc(format!("{} {}", ty.s(), quad_str(&q)));
    c.nontrivial(true);
    let list: BTreeSet<Rs> = rw::generate_rowsums(n, st(ty)).iter().map(rs_of).collect();
    let cs = sums(&q);
    let k = rs_canon(&cs, ty);
    ensure!(list.contains(&k), "the rowsums {:?} of a valid quadruple have no representative ({:?})", cs, k);
    // move the quadruple to that representative
    let mut found = false;
    for (p, sg) in perms4() {
        for m in masks() {
            let cnt = m.iter().filter(|x| **x).count() as i32;
            if ty == Ty::Qts && sg as i32 * (if cnt % 2 == 0 { 1 } else { -1 }) != 1 {
                continue;
            }
            let e = Elem { k: 1, s: 0, alt: false, half: [false; 4], neg: m, perm: p };
            let r = e.apply(&q);
            let rs = sums(&r);
            let inlist = list.contains(&rs);
            let sorted = rw::has_sorted_rowsums(&to_qs4(&r));
            ensure!(!inlist || sorted, "{} has listed rowsums {:?} but does not count as sorted", quad_str(&r), rs);
            // sorted and not listed: only the last two may be opposite
            ensure!(!sorted || inlist || (ty != Ty::Qts && rs[3] < 0) || rs[2] == -rs[3], "{} counts as sorted but its rowsums {:?} are not searched", quad_str(&r), rs);
            found = found || inlist;
        }
    }
    ensure!(found, "no equivalent of {} is searched", quad_str(&q));
    Ok(())
}
fn sorted_pred(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let mut q = rand_quad(s, n);
    // order and signs near the wanted ones
    match s.below(3) {
        0 => {
            q.sort_by_key(|x| sum(x).abs());
            for t in 0..4 {
                if sum(&q[t]) < 0 {
                    q[t] = neg(&q[t]);
                }
            }
        }
        1 => {
            let base = s.pm(n);
            for t in 0..4 {
                q[t] = base.clone();
                let flips = s.below(3);
                for _ in 0..flips {
                    let i = s.below(n);
                    q[t][i] = 1;
                }
            }
            q.sort_by_key(|x| sum(x).abs());
        }
        _ => {}
    }
    if n > 100 {
        // sums beyond 8 bits
        for t in 0..4 {
            let k = s.range(n / 2, n);
            for i in 0..k {
                q[t][i] = 1;
            }
        }
        if s.chance(4, 5) {
            q.sort_by_key(|x| sum(x));
        }
    }
    if s.chance(1, 3) {
        q[3] = neg(&q[3]);
    }
    if s.chance(1, 6) {
        let t = s.below(3);
        q.swap(t, t + 1);
    }
    let r = sums(&q);
    c.desc(format!("{} rowsums {:?}", quad_str(&q), r));
    let special = r.contains(&0) || (0..4).any(|i| (0..i).any(|j| r[i] == r[j]));
    let last = if special { r[3] } else { r[3].abs() };
    let want = 0 <= r[0] && r[0] <= r[1] && r[1] <= r[2] && r[2] <= last;
    c.label(format!("sorted {} special {}", want as u8, special as u8));
    c.nontrivial(want);
    let got = rw::has_sorted_rowsums(&to_qs4(&q));
    ensure!(got == want, "has_sorted_rowsums is {} for rowsums {:?}", got, r);
    ensure!((0..4).all(|t| rw::rowsum(q[t].clone()) as i64 == r[t]), "rowsum of {}", quad_str(&q));
    let quad = (r[0] as isize, r[1] as isize, r[2] as isize, r[3] as isize);
    ensure!(rw::quad_contains_zero(&quad) == r.contains(&0), "quad_contains_zero({:?})", r);
    ensure!(rw::quad_contains_dup(&quad) == (0..4).any(|i| (0..i).any(|j| r[i] == r[j])), "quad_contains_dup({:?})", r);
    Ok(())
}
fn c14() -> Prop {
    Prop {
        id: "C14",
        subs: vec![
            Sub { name: "list", f: rowsum_list, rule: "all three types at this length; more than one decomposition; every integer quadruple is looked up", params: mixed(150, (1..=150).chain([199, 200, 256, 333]).collect()), quick: 3, thorough: 3 },
            Sub { name: "classes", f: class_covered, rule: "a valid quadruple moved at random within its class; each counts", params: mixed(100, data::lengths(1)), quick: 900, thorough: 4000 },
            Sub { name: "sorted", f: sorted_pred, rule: "quadruples that count as sorted", params: mixed(41, vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 30, 41, 128, 160, 300]), quick: 7500, thorough: 60000 },
        ],
        assumptions: vec!["the moves on rowsums are signed permutations, with determinant +1 for QT (README, equivalences)"],
    }
}

// ------------------------------------------------------------------ C15

fn gen_all(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    // every sum from beyond -n to beyond n, of both parities
    let r = s.enumerated(2 * n + 9) as i64 - n as i64 - 4;
    c.desc(format!("length {} sum {}", n, r));
    let mut got: Vec<u64> = vec![];
    for v in rw::generate_sequences_with_rowsum(r as isize, n) {
        ensure!(v.len() == n && v.iter().all(|x| *x == 1 || *x == -1), "{} gives {:?}", c.desc, v);
        got.push(to_bits(&v));
    }
    got.sort();
    let ones = (r + n as i64) / 2;
    let want: Vec<u64> = if (r + n as i64) % 2 != 0 { vec![] } else { (0..1u64 << n).filter(|m| m.count_ones() as i64 == ones).collect() };
    c.nontrivial(!want.is_empty());
    c.label(if want.is_empty() { "none" } else { "some" });
    if got != want {
        let (a, b): (BTreeSet<u64>, BTreeSet<u64>) = (got.iter().copied().collect(), want.iter().copied().collect());
        let miss = b.difference(&a).next().map(|m| pm_str(&from_bits(*m, n)));
        let more = a.difference(&b).next().map(|m| pm_str(&from_bits(*m, n)));
        return Err(format!("{}: {} sequences ({} different) instead of {}; missing {:?}, wrong {:?}", c.desc, got.len(), a.len(), want.len(), miss, more).into());
    }
    Ok(())
}
/// longer sequences with few entries of one sign
fn gen_sparse(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let few = s.below(4);
    let minus = s.bool();
    let off = s.below(6) == 0;
    let ones = if minus { n - few } else { few };
    let r = 2 * ones as i64 - n as i64 + off as i64;
    c.desc(format!("length {} sum {}", n, r));
    c.nontrivial(!off);
    let got = rw::generate_sequences_with_rowsum(r as isize, n);
    let mut set: BTreeSet<Seq> = BTreeSet::new();
    for v in &got {
        ensure!(v.len() == n && sum(v) == r && v.iter().all(|x| *x == 1 || *x == -1), "{} gives {}", c.desc, pm_str(v));
        ensure!(set.insert(v.clone()), "{} gives {} twice", c.desc, pm_str(v));
    }
    let want = if off { 0 } else { (0..few).fold(1u128, |a, i| a * (n - i) as u128 / (i as u128 + 1)) };
    ensure!(set.len() as u128 == want, "{}: {} sequences instead of {}", c.desc, set.len(), want);
    Ok(())
}
/// a history of calls with lengths and sums that come back
fn gen_history(s: &mut Src, c: &mut Ctx) -> Outcome {
    let (mut log, mut last) = (String::new(), (1usize, 1i64));
    let mut seen = BTreeSet::new();
    for _ in 0..s.range(2, 12) {
        let (n, r) = match s.below(4) {
            // the same number of entries of one sign, or the same sum, at another length
            0 => (last.0 + 2, last.1 + 2),
            1 => (last.0 + 2, last.1),
            2 => ((last.0 as i64 + 2 * last.1).max(1) as usize, -last.1),
            _ => {
                let n = s.range(1, 9);
                (n, 2 * s.below(n + 1) as i64 - n as i64)
            }
        };
        if n > 12 {
            continue;
        }
        last = (n, r);
        log += &format!("({},{})", n, r);
        seen.insert(n);
        c.desc(log.clone());
        let mut got: Vec<u64> = vec![];
        for v in rw::generate_sequences_with_rowsum(r as isize, n) {
            ensure!(v.len() == n && v.iter().all(|x| *x == 1 || *x == -1), "length {} sum {} gives {:?} after the calls {}", n, r, v, log);
            got.push(to_bits(&v));
        }
        got.sort();
        let want: Vec<u64> = (0..1u64 << n).filter(|m| 2 * m.count_ones() as i64 == r + n as i64).collect();
        ensure!(got == want, "length {} sum {}: {} sequences instead of {} after the calls {}", n, r, got.len(), want.len(), log);
    }
    c.nontrivial(seen.len() > 1);
    Ok(())
}
fn c15() -> Prop {
    Prop {
        id: "C15",
        subs: vec![
            Sub { name: "all", f: gen_all, rule: "all sums in turn (from n+4 below to n+4 above, both parities); those with a sequence", params: mixed(14, (1..=17).collect()), quick: 43, thorough: 43 },
            Sub { name: "all_larger", f: gen_all, rule: "as above", params: vec![18, 19, 20], quick: 49, thorough: 49 },
            Sub { name: "sparse", f: gen_sparse, rule: "sums with at most three entries of one sign", params: mixed(100, vec![21, 25, 32, 33, 40, 64, 70, 100]), quick: 90, thorough: 360 },
            Sub { name: "history", f: gen_history, rule: "2 to 12 calls in a row with at least two lengths", params: vec![1, 2, 3, 4], quick: 2000, thorough: 20000 },
        ],
        assumptions: vec![],
    }
}

// ------------------------------------------------------------------ C16

type C = Complex<f64>;
fn dft_ref(a: &[f64], k: usize) -> C {
    let n = a.len();
    let mut r = C::new(0.0, 0.0);
    for (i, x) in a.iter().enumerate() {
        let w = -2.0 * std::f64::consts::PI * ((i * k) % n) as f64 / n as f64;
        r += C::new(x * w.cos(), x * w.sin());
    }
    r
}
fn close(a: C, b: C, n: usize) -> bool {
    (a - b).norm() < 1e-8 * (n as f64 + 1.0)
}
fn seq_for(s: &mut Src, n: usize) -> Seq {
    match s.below(5) {
        0 => {
            // periodic, so that the spectrum is concentrated
            let ds: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
            let d = *s.pick(&ds);
            let a = s.pm(d);
            (0..n).map(|i| a[i % d]).collect()
        }
        1 => {
            let h = s.pm(n / 2 + 1);
            (0..n).map(|i| h[i.min(n - i)]).collect()
        }
        2 => {
            let mut a = vec![1; n];
            for _ in 0..s.below(4) {
                let i = s.below(n);
                a[i] = -1;
            }
            a
        }
        _ => s.pm(n),
    }
}
fn transforms(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let a = seq_for(s, n);
    c.desc(pm_str(&a));
    c.nontrivial(n > 1);
    let f: Vec<f64> = a.iter().map(|x| *x as f64).collect();
    let d = fo::dft_sequence(&a);
    ensure!(d.len() == n / 2 + 1, "the transform has {} entries", d.len());
    for (k, x) in d.iter().enumerate() {
        let e = dft_ref(&f, k);
        ensure!(close(*x, e, n), "entry {} of the transform of {} is {} instead of {}", k, pm_str(&a), x, e);
    }
    let back = fo::inverse_dft(&d, n);
    ensure!(back.len() == n, "the inverse has {} entries", back.len());
    for i in 0..n {
        ensure!((back[i] - f[i]).abs() < 1e-9 * (n as f64 + 1.0), "entry {} of the inverse transform of {} is {}", i, pm_str(&a), back[i]);
    }
    let psd: Vec<f64> = d.iter().map(|x| x.norm_sqr()).collect();
    let p: Vec<f64> = (0..n).map(|t| paf(&a, t) as f64).collect();
    for k in 0..psd.len() {
        let e = dft_ref(&p, k);
        ensure!(close(C::new(psd[k], 0.0), e, n * n), "the spectrum of {} at {} is {}, the transform of the autocorrelation is {}", pm_str(&a), k, psd[k], e);
    }
    let tot: f64 = (0..n).map(|k| psd[k.min(n - k)]).sum();
    ensure!((tot - (n * n) as f64).abs() < 1e-6 * (n * n) as f64, "the spectrum of {} adds up to {} instead of n^2", pm_str(&a), tot);
    let corr = ma::compute_auto_correlation_dft(&psd, n);
    for t in 0..n {
        ensure!(corr[t] as i64 == paf(&a, t), "autocorrelation of {} at {} by transforms: {} instead of {}", pm_str(&a), t, corr[t], paf(&a, t));
    }
    let b = seq_for(s, n);
    c.desc(format!("{} {}", pm_str(&a), pm_str(&b)));
    let e = fo::dft_sequence(&b);
    let conj: Vec<C> = e.iter().map(|x| x.conj()).collect();
    let prod = seq_multiply_pointwise_complex(&d, &conj);
    for k in 0..d.len() {
        ensure!(close(prod[k], d[k] * e[k].conj(), n * n), "pointwise product at {}", k);
    }
    let cp = ma::compute_cross_psd(&d, &e);
    ensure!(cp.len() == d.len(), "cross spectrum has {} entries", cp.len());
    for k in 0..d.len() {
        ensure!(close(cp[k], d[k] * e[k].conj(), n * n), "the cross spectrum of {} at {} is {} instead of {}", c.desc, k, cp[k], d[k] * e[k].conj());
    }
    let cc = fo::inverse_dft(&prod, n);
    for t in 0..n {
        ensure!((cc[t] - ccf(&a, &b, t) as f64).abs() < 1e-6 * n as f64, "cross-correlation of {} at {} by transforms: {} instead of {}", c.desc, t, cc[t], ccf(&a, &b, t));
    }
    Ok(())
}
/// the inverse of an arbitrary half spectrum of a real sequence
fn inverse(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let v: Vec<f64> = (0..n).map(|_| s.below(41) as f64 - 20.0).collect();
    c.desc(format!("{:?}", v));
    c.nontrivial(n > 1 && v.iter().any(|x| *x != v[0]));
    let f: Vec<C> = (0..=n / 2).map(|k| dft_ref(&v, k)).collect();
    let back = fo::inverse_dft(&f, n);
    for i in 0..n {
        ensure!((back[i] - v[i]).abs() < 1e-8 * (n as f64 + 20.0), "entry {} is {} instead of {}", i, back[i], v[i]);
    }
    Ok(())
}
fn c16() -> Prop {
    Prop {
        id: "C16",
        subs: vec![
            Sub { name: "transforms", f: transforms, rule: "sequences of length over 1", params: (1..=48).chain([60, 64, 81, 97, 100, 127, 128, 200]).collect(), quick: 3840, thorough: 15360 },
            Sub { name: "inverse", f: inverse, rule: "real sequences that are not constant", params: (1..=40).chain([64, 77, 101, 128]).collect(), quick: 3200, thorough: 12800 },
        ],
        assumptions: vec!["one length per process: the transform plan is made once per process, and the program uses one length per run"],
    }
}

// ------------------------------------------------------------------ C17

fn psd_ref(a: &[i8]) -> Vec<f64> {
    let n = a.len();
    let p: Vec<f64> = (0..n).map(|t| paf(a, t) as f64).collect();
    (0..=n / 2).map(|k| dft_ref(&p, k).re).collect()
}
const SURE: f64 = 1e-3;
/// what a filter may do with a pair: Some(true) must keep, Some(false) must drop
fn verdict(x: &[f64], y: &[f64], bound: f64, from: usize) -> Option<bool> {
    let m = (from..x.len()).map(|k| x[k] + y[k]).fold(f64::NEG_INFINITY, f64::max);
    if m <= bound + 1e-9 { Some(true) } else if m > bound + SURE { Some(false) } else { None }
}
/// applies all filters to two lists, with the bound; `must` are pairs that have to stay
fn check_filters(l1: &Vec<Seq>, l2: &Vec<Seq>, bound: f64, must: &[(usize, usize)], c: &mut Ctx) -> Outcome {
    let p1: Vec<Vec<f64>> = l1.iter().map(|a| psd_ref(a)).collect();
    let p2: Vec<Vec<f64>> = l2.iter().map(|a| psd_ref(a)).collect();
    let name = |i: usize, j: usize| format!("{} with {} (bound {})", pm_str(&l1[i]), pm_str(&l2[j]), bound);
    let judge = |kept: &BTreeMap<(usize, usize), usize>, from: usize, what: &str| -> Outcome {
        for i in 0..l1.len() {
            for j in 0..l2.len() {
                let k = kept.get(&(i, j)).copied().unwrap_or(0);
                ensure!(k <= 1, "{} gives {} twice", what, name(i, j));
                match verdict(&p1[i], &p2[j], bound, from) {
                    Some(true) => ensure!(k == 1, "{} drops {}", what, name(i, j)),
                    Some(false) => ensure!(k == 0, "{} keeps {}", what, name(i, j)),
                    None => {}
                }
                // a pair of a valid quadruple reaches the bound at most
                if must.contains(&(i, j)) {
                    ensure!(k == 1, "{} drops {}, a pair of a valid quadruple", what, name(i, j));
                }
            }
        }
        Ok(())
    };
    let at = |l: &Vec<Seq>, a: &Vec<i8>| l.iter().position(|b| std::ptr::eq(a, b)).expect("a member of the list");
    let mut k: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (a, b) in fo::iter_over_filtered_couples(l1, l2, bound) {
        *k.entry((at(l1, a), at(l2, b))).or_insert(0) += 1;
    }
    judge(&k, 0, "iter_over_filtered_couples")?;
    let kept = k.values().sum::<usize>();
    c.label(if kept == 0 { "none kept" } else if kept == l1.len() * l2.len() { "all kept" } else { "some kept" });
    c.nontrivial(kept > 0 && kept < l1.len() * l2.len() || !must.is_empty());
    k.clear();
    for ((i, a), (j, b)) in fo::iter_over_enumerate_filtered_couples(l1, l2, bound) {
        ensure!(l1[i] == *a && l2[j] == *b, "iter_over_enumerate_filtered_couples numbers {} as {}", pm_str(a), i);
        *k.entry((i, j)).or_insert(0) += 1;
    }
    judge(&k, 0, "iter_over_enumerate_filtered_couples")?;
    k.clear();
    for d in fo::iter_over_enumerate_filtered_couples_psds(l1, l2, bound) {
        let (i, j) = (d.seq_enum1.0, d.seq_enum2.0);
        ensure!(l1[i] == *d.seq_enum1.1 && l2[j] == *d.seq_enum2.1, "iter_over_enumerate_filtered_couples_psds numbers {} as {}", pm_str(d.seq_enum1.1), i);
        for (f, nn, a, p) in [(&d.dft1, &d.norm1, &l1[i], &p1[i]), (&d.dft2, &d.norm2, &l2[j], &p2[j])] {
            let fl: Vec<f64> = a.iter().map(|x| *x as f64).collect();
            ensure!(f.len() == p.len() && nn.len() == p.len(), "transform of {} has {} entries, spectrum {}", pm_str(a), f.len(), nn.len());
            for q in 0..p.len() {
                ensure!(close(f[q], dft_ref(&fl, q), a.len()), "transform given with {} at {}: {}", pm_str(a), q, f[q]);
                ensure!((nn[q] - p[q]).abs() < 1e-6 * (a.len() * a.len()) as f64, "spectrum given with {} at {}: {} instead of {}", pm_str(a), q, nn[q], p[q]);
            }
        }
        *k.entry((i, j)).or_insert(0) += 1;
    }
    judge(&k, 1, "iter_over_enumerate_filtered_couples_psds")?;
    // single sequences: modulus against the bound
    let root = bound.max(0.0).sqrt();
    let mut seen = vec![0; l1.len()];
    for a in fo::iter_over_filtered_dft(l1, root) {
        seen[at(l1, a)] += 1;
    }
    let zero = vec![0.0; p1.first().map_or(0, |p| p.len())];
    for i in 0..l1.len() {
        match verdict(&p1[i], &zero, root * root, 0) {
            Some(true) => ensure!(seen[i] == 1, "iter_over_filtered_dft drops {} with bound {}", pm_str(&l1[i]), root),
            Some(false) => ensure!(seen[i] == 0, "iter_over_filtered_dft keeps {} with bound {}", pm_str(&l1[i]), root),
            None => {}
        }
    }
    Ok(())
}
fn filter_random(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let l1: Vec<Seq> = (0..s.range(1, 6)).map(|_| seq_for(s, n)).collect();
    let l2: Vec<Seq> = (0..s.range(1, 6)).map(|_| seq_for(s, n)).collect();
    let bound = match s.below(4) {
        0 => 4.0 * n as f64,
        1 => {
            // exactly what one of the pairs reaches
            let (a, b) = (psd_ref(s.pick(&l1)), psd_ref(s.pick(&l2)));
            (0..a.len()).map(|k| a[k] + b[k]).fold(0.0, f64::max)
        }
        2 => s.below(4 * n + 2) as f64,
        _ => s.below(8 * n) as f64 + 0.5,
    };
    c.desc(format!("{} | {} | {}", l1.iter().map(|x| pm_str(x)).collect::<Vec<_>>().join(" "), l2.iter().map(|x| pm_str(x)).collect::<Vec<_>>().join(" "), bound));
    check_filters(&l1, &l2, bound, &[], c)
}
/// lists that contain the pairs of valid quadruples, whose spectra may reach 4n exactly
fn filter_valid(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let (mut l1, mut l2, mut must) = (vec![], vec![], vec![]);
    for _ in 0..s.range(1, 4) {
        let (q, _) = any_valid(s, n);
        let i = s.below(4);
        let j = (i + 1 + s.below(3)) % 4;
        must.push((l1.len(), l2.len()));
        l1.push(q[i].clone());
        l2.push(q[j].clone());
        if s.chance(1, 3) {
            l1.push(seq_for(s, n));
        }
        if s.chance(1, 3) {
            l2.push(seq_for(s, n));
        }
    }
    c.desc(format!("{} | {}", l1.iter().map(|x| pm_str(x)).collect::<Vec<_>>().join(" "), l2.iter().map(|x| pm_str(x)).collect::<Vec<_>>().join(" ")));
    let p1: Vec<Vec<f64>> = must.iter().map(|m| psd_ref(&l1[m.0])).collect();
    let p2: Vec<Vec<f64>> = must.iter().map(|m| psd_ref(&l2[m.1])).collect();
    if (0..must.len()).any(|m| (0..p1[m].len()).any(|k| p1[m][k] + p2[m][k] > 4.0 * n as f64 - 1e-6)) {
        c.label("a pair reaches 4n");
    }
    check_filters(&l1, &l2, 4.0 * n as f64, &must, c)
}
fn c17() -> Prop {
    Prop {
        id: "C17",
        subs: vec![
            Sub { name: "valid", f: filter_valid, rule: "lists with pairs of 1 to 4 valid quadruples; each counts", params: (1..=33).collect(), quick: 7200, thorough: 30000 },
            Sub { name: "valid_large", f: filter_valid, rule: "as above", params: data::lengths(34), quick: 1200, thorough: 8000 },
            Sub { name: "random", f: filter_random, rule: "lists of which some but not all pairs pass", params: (1..=32).chain([40, 51, 64, 90]).collect(), quick: 3600, thorough: 14400 },
        ],
        assumptions: vec!["a pair within 1e-3 above the bound may be kept or dropped"],
    }
}

// ------------------------------------------------------------------ C18

/// the two halves of each pairing, first half on the left
const SPLITS: [([usize; 2], [usize; 2]); 3] = [([0, 1], [2, 3]), ([0, 2], [1, 3]), ([0, 3], [1, 2])];

fn pair_file(dir: &std::path::Path, l: (&Vec<Seq>, &Vec<Seq>), t: [usize; 2], ty: Ty, rs: Rs, n: usize, left: bool, psd: bool) -> Result<Vec<(String, usize, usize)>, Fail> {
    let side = if left { fw::EquationSide::LEFT } else { fw::EquationSide::RIGHT };
    let mo = if psd { fw::MatchOption::PSD } else { fw::MatchOption::CORRELATION };
    let r = (rs[0] as isize, rs[1] as isize, rs[2] as isize, rs[3] as isize);
    let cnt = fw::write_seq_pairs(l, (&TAGS[t[0]], &TAGS[t[1]]), st(ty), r, n, &dir.to_str().unwrap().to_string(), side, mo);
    let f = dir.join(format!("pair_{}{}.pair", NAMES[t[0]], NAMES[t[1]]));
    let text = fs::read_to_string(&f).map_err(|e| format!("{:?}: {}", f, e))?;
    let mut v = vec![];
    for line in text.lines() {
        let p = line.split_once(":_").and_then(|(k, r)| r.split_once('_').map(|(i, j)| (k.to_string(), i.parse(), j.parse())));
        match p {
            Some((k, Ok(i), Ok(j))) => v.push((k, i, j)),
            _ => return Err(format!("line {:?} of a pair file", line).into()),
        }
    }
    if cnt as usize != v.len() {
        return Err(format!("{} pairs reported, {} lines", cnt, v.len()).into());
    }
    Ok(v)
}
/// the key of a pair: correlations or spectra, then (QT) the cross terms up to a common sign
fn key_ref(a: &Seq, b: &Seq, pa: &[f64], pb: &[f64], ty: Ty, left: bool, psd: bool) -> (Vec<f64>, Vec<f64>) {
    let n = a.len();
    let auto: Vec<f64> = (1..=n / 2).map(|t| match (psd, left) {
        (true, true) => pa[t] + pb[t],
        (true, false) => 4.0 * n as f64 - pa[t] - pb[t],
        (false, true) => (paf(a, t) + paf(b, t)) as f64,
        (false, false) => -(paf(a, t) + paf(b, t)) as f64,
    }).collect();
    let d: Vec<f64> = if ty == Ty::Qts { (0..n).map(|t| (ccf(a, b, t) - ccf(b, a, t)) as f64).collect() } else { vec![] };
    let cross: Vec<f64> = match (ty, psd) {
        (Ty::Qts, false) => d[1..=n / 2].to_vec(),
        // the transform of d is imaginary
        (Ty::Qts, true) => (1..=n / 2).map(|k| dft_ref(&d, k).im).collect(),
        _ => vec![],
    };
    (auto, cross)
}
fn keys(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let have: Vec<Ty> = TYPES.iter().copied().filter(|t| !reps(n, *t).is_empty()).collect();
    let ty = *s.pick(&have);
    let q = valid(s, n, ty).unwrap();
    let rs = sums(&q);
    let (left, right) = SPLITS[s.below(3)];
    let psd = s.bool();
    c.desc(format!("{} {} {}{}|{}{} {}", ty.s(), quad_str(&q), NAMES[left[0]], NAMES[left[1]], NAMES[right[0]], NAMES[right[1]], if psd { "psd" } else { "correlation" }));
    c.nontrivial(n > 1);
    c.label(ty.s());
    // each sequence in a list with others of the same sum
    let mut lists: Vec<Vec<Seq>> = vec![];
    let mut place = vec![];
    for t in 0..4 {
        let mut l = vec![];
        for _ in 0..s.below(4) {
            let mut x = q[t].clone();
            match s.below(3) {
                0 => s.shuffle(&mut x),
                1 => x = shift(&x, s.below(n)),
                _ => x.reverse(),
            }
            if ty == Ty::Ws && !sym_seq(&x) {
                let u = units(n);
                x = automorph(&q[t], *s.pick(&u));
            }
            l.push(x);
        }
        let at = s.below(l.len() + 1);
        l.insert(at, q[t].clone());
        place.push(at);
        lists.push(l);
    }
    let dir = fresh_dir("keys");
    let r = keys_in(&dir, &q, ty, rs, left, right, psd, &lists, &place);
    let _ = fs::remove_dir_all(&dir);
    r
}
fn keys_in(dir: &std::path::Path, q: &Quad, ty: Ty, rs: Rs, left: [usize; 2], right: [usize; 2], psd: bool, lists: &[Vec<Seq>], place: &[usize]) -> Outcome {
    let n = q[0].len();
    let mut own: Vec<String> = vec![];
    for (t, is_left) in [(left, true), (right, false)] {
        let (l1, l2) = (&lists[t[0]], &lists[t[1]]);
        let lines = pair_file(dir, (l1, l2), t, ty, rs, n, is_left, psd)?;
        let (p1, p2): (Vec<_>, Vec<_>) = (l1.iter().map(|x| psd_ref(x)).collect(), l2.iter().map(|x| psd_ref(x)).collect());
        let mut sign = 0.0;
        let mut seen: HashMap<(usize, usize), String> = HashMap::new();
        for (k, i, j) in &lines {
            ensure!(*i < l1.len() && *j < l2.len(), "a line names the pair {} {} of lists of {} and {}", i, j, l1.len(), l2.len());
            let (a, b) = (&l1[*i], &l2[*j]);
            let (auto, cross) = key_ref(a, b, &p1[*i], &p2[*j], ty, is_left, psd);
            let vals: Vec<&str> = k.split('_').filter(|x| !x.is_empty()).collect();
            ensure!(vals.len() == auto.len() + cross.len(), "key {} of {} with {} has {} values instead of {}", k, pm_str(a), pm_str(b), vals.len(), auto.len() + cross.len());
            let nums: Vec<f64> = vals.iter().filter_map(|x| x.parse::<i64>().ok().map(|y| y as f64)).collect();
            ensure!(nums.len() == vals.len(), "key {}", k);
            for (x, y) in nums.iter().zip(&auto) {
                ensure!((x - y).abs() < 0.5 + 1e-6, "key {} of {} with {}: {} instead of {}", k, pm_str(a), pm_str(b), x, y);
            }
            for (x, y) in nums[auto.len()..].iter().zip(&cross) {
                if sign == 0.0 && y.abs() > 1.0 {
                    sign = if x * y > 0.0 { 1.0 } else { -1.0 };
                }
                ensure!((x - sign * y).abs() < 0.5 + 1e-6 || (sign == 0.0 && x.abs() < 1.6), "key {} of {} with {}: cross term {} instead of {}", k, pm_str(a), pm_str(b), x, sign * y);
            }
            ensure!(seen.insert((*i, *j), k.clone()).is_none(), "pair {} {} is written twice", i, j);
        }
        for i in 0..l1.len() {
            for j in 0..l2.len() {
                let ami = || (0..n).all(|t| ccf(&l1[i], &l2[j], t) == ccf(&l2[j], &l1[i], t));
                match verdict(&p1[i], &p2[j], 4.0 * n as f64, 1) {
                    Some(true) if ty != Ty::Wts || ami() => ensure!(seen.contains_key(&(i, j)), "no line for {} with {}", pm_str(&l1[i]), pm_str(&l2[j])),
                    Some(false) => ensure!(!seen.contains_key(&(i, j)), "a line for {} with {}, whose spectra exceed the bound", pm_str(&l1[i]), pm_str(&l2[j])),
                    _ => {}
                }
            }
        }
        match seen.get(&(place[t[0]], place[t[1]])) {
            Some(k) => own.push(k.clone()),
            None => return Err(format!("no line for the pair {}{} of a valid quadruple", NAMES[t[0]], NAMES[t[1]]).into()),
        }
    }
    ensure!(own[0] == own[1], "the two pairs of a valid quadruple have keys {} and {}", own[0], own[1]);
    Ok(())
}
/// the same for lists so long that indices exceed 16 bits, or with so many pairs that
/// files are written in many pieces
fn keys_many(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let have: Vec<Ty> = TYPES.iter().copied().filter(|t| !reps(n, *t).is_empty()).collect();
    let ty = *s.pick(&have);
    let q = valid(s, n, ty).unwrap();
    let rs = sums(&q);
    let (left, right) = SPLITS[s.below(3)];
    let psd = s.bool();
    let mut rng = Rng::new(s.below(1 << 30) as u64);
    let shape = s.below(3);
    let mut place = vec![0; 4];
    let mut lists: Vec<Vec<Seq>> = vec![vec![]; 4];
    for h in [left, right] {
        for (e, t) in h.into_iter().enumerate() {
            let size = match (shape, e) {
                (0, 0) | (1, 1) => s.range(65_536, 67_000),
                (2, _) => s.range(50, 300),
                _ => s.range(0, 2),
            };
            let mut x = q[t].clone();
            for _ in 0..size {
                if ty == Ty::Ws {
                    // keep it symmetric: exchange two mirrored pairs of entries
                    if n > 4 {
                        let (i, j) = (1 + rng.next() as usize % ((n - 1) / 2), 1 + rng.next() as usize % ((n - 1) / 2));
                        x.swap(i, j);
                        if i != j {
                            x.swap(n - i, n - j);
                        }
                    }
                } else {
                    for k in (1..n).rev() {
                        x.swap(k, rng.next() as usize % (k + 1));
                    }
                }
                lists[t].push(x.clone());
            }
            place[t] = lists[t].len() - lists[t].len() / (2 + s.below(40));
            lists[t].insert(place[t], q[t].clone());
        }
    }
    c.desc(format!("{} {} {}{}|{}{} {} in lists of {:?}", ty.s(), quad_str(&q), NAMES[left[0]], NAMES[left[1]], NAMES[right[0]], NAMES[right[1]], if psd { "psd" } else { "correlation" }, lists.iter().map(|l| l.len()).collect::<Vec<_>>()));
    c.nontrivial(n > 4);
    c.label(["long left", "long right", "square"][shape]);
    let dir = fresh_dir("keysm");
    let r = keys_in(&dir, &q, ty, rs, left, right, psd, &lists, &place);
    let _ = fs::remove_dir_all(&dir);
    r
}
/// the rowsum check that guards the writing of pair files
fn rowsum_guard(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let q = rand_quad(s, n);
    let rs = sums(&q);
    let (i, j) = (s.below(4), s.below(4));
    let mut ls: Vec<Vec<Seq>> = vec![];
    for t in [i, j] {
        let mut l = vec![];
        for _ in 0..s.below(4) {
            let mut x = q[t].clone();
            s.shuffle(&mut x);
            if s.chance(1, 8) {
                let k = s.below(n);
                x[k] = -x[k];
            }
            l.push(x);
        }
        ls.push(l);
    }
    let want = ls[0].iter().all(|x| sum(x) == rs[i]) && ls[1].iter().all(|x| sum(x) == rs[j]);
    c.desc(format!("{}{} {:?} {:?}", NAMES[i], NAMES[j], rs, ls.iter().map(|l| l.iter().map(|x| pm_str(x)).collect::<Vec<_>>()).collect::<Vec<_>>()));
    c.nontrivial(!ls[0].is_empty() && !ls[1].is_empty());
    c.label(if want { "right sums" } else { "wrong sum" });
    let got = fw::verify_rowsums((&ls[0], &ls[1]), (&TAGS[i], &TAGS[j]), (rs[0] as isize, rs[1] as isize, rs[2] as isize, rs[3] as isize));
    ensure!(got == want, "verify_rowsums is {} for {}", got, c.desc);
    Ok(())
}
fn c18() -> Prop {
    Prop {
        id: "C18",
        subs: vec![
            Sub { name: "keys", f: keys, rule: "a valid quadruple of length over 1 among other sequences of the same sums, any pairing and option", params: (1..=33).collect(), quick: 2700, thorough: 10800 },
            Sub { name: "keys_large", f: keys, rule: "as above", params: data::lengths(34), quick: 500, thorough: 2000 },
            Sub { name: "keys_many", f: keys_many, rule: "lists of more than 65536 sequences on one side, or up to 300 x 300 pairs, of length over 4", params: vec![5, 6, 8, 10, 12, 13, 16, 21], quick: 6, thorough: 60 },
            Sub { name: "rowsum_guard", f: rowsum_guard, rule: "both lists have entries", params: mixed(20, vec![1, 2, 3, 5, 8, 13, 20]), quick: 3600, thorough: 20000 },
        ],
        assumptions: vec!["the sign of the cross terms of a key is a convention (they are 0 for all pairs of valid quadruples), so it is only required to be the same throughout a file"],
    }
}

// ------------------------------------------------------------------ C24

fn iv(v: &[isize]) -> Vec<i64> {
    v.iter().map(|x| *x as i64).collect()
}
fn corr_pair(s: &mut Src, n: usize) -> (Seq, Seq) {
    let a = seq_for(s, n);
    let b = match s.below(6) {
        0 => a.clone(),
        1 => neg(&a),
        2 => shift(&a, s.below(n)),
        3 => automorph(&a, *s.pick(&units(n))),
        _ => seq_for(s, n),
    };
    (a, b)
}
fn correlations(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let (a, b) = corr_pair(s, n);
    c.desc(format!("{} {}", pm_str(&a), pm_str(&b)));
    c.nontrivial(n > 1);
    for t in 0..n {
        let (p, x) = (wi::periodic_autocorrelation(&a, t) as i64, wi::cross_correlation(&a, &b, t) as i64);
        ensure!(p == paf(&a, t), "autocorrelation of {} at {} is {} instead of {}", pm_str(&a), t, p, paf(&a, t));
        ensure!(x == ccf(&a, &b, t), "cross-correlation of {} at {} is {} instead of {}", c.desc, t, x, ccf(&a, &b, t));
    }
    let pa: Vec<i64> = (1..=n / 2).map(|t| paf(&a, t)).collect();
    let pab: Vec<i64> = (1..=n / 2).map(|t| paf(&a, t) + paf(&b, t)).collect();
    let npab: Vec<i64> = pab.iter().map(|x| -x).collect();
    let eq = |got: Vec<i64>, want: &Vec<i64>, what: &str| -> Outcome {
        ensure!(got == *want, "{} of {} {} is {:?} instead of {:?}", what, pm_str(&a), pm_str(&b), got, want);
        Ok(())
    };
    eq(iv(&ma::compute_auto_correlation(&a)), &pa, "compute_auto_correlation")?;
    eq(iv(&ma::compute_auto_correlation_pair(&a, &b)), &pab, "compute_auto_correlation_pair")?;
    eq(iv(&ma::compute_complementary_auto_correlations(&a, &b)), &npab, "compute_complementary_auto_correlations")?;
    if c.param < 0 {
        // the transforms serve one length per process
        for i in 0..4 {
            let j = (i + 1 + s.below(3)) % 4;
            let tags = (TAGS[i], TAGS[j]);
            let v = iv(&ma::compute_cross_correlations(&a, &b, &tags));
            let d: Vec<i64> = (1..=n / 2).map(|t| ccf(&a, &b, t) - ccf(&b, &a, t)).collect();
            let nd: Vec<i64> = d.iter().map(|x| -x).collect();
            ensure!(v == d || v == nd, "cross-correlation differences of {} as {}{} are {:?} instead of +-{:?}", c.desc, NAMES[i], NAMES[j], v, d);
            let nv: Vec<i64> = v.iter().map(|x| -x).collect();
            eq(iv(&ma::compute_complementary_cross_correlations(&a, &b, &tags)), &nv, "compute_complementary_cross_correlations")?;
        }
        return Ok(());
    }
    let (da, db) = (fo::dft_sequence(&a), fo::dft_sequence(&b));
    let na: Vec<f64> = da.iter().map(|x| x.norm_sqr()).collect();
    let nb: Vec<f64> = db.iter().map(|x| x.norm_sqr()).collect();
    eq(iv(&ma::compute_auto_correlation_pair_dft(&na, n, &nb, n)), &pab, "compute_auto_correlation_pair_dft")?;
    let (ra, rb) = (psd_ref(&a), psd_ref(&b));
    for (side, l) in [(fw::EquationSide::LEFT, true), (fw::EquationSide::RIGHT, false)] {
        let v = ma::compute_psd_pair(&na, &nb, n, side);
        ensure!(v.len() == n / 2, "compute_psd_pair has {} entries", v.len());
        for k in 1..=n / 2 {
            let want = if l { ra[k] + rb[k] } else { 4.0 * n as f64 - ra[k] - rb[k] };
            ensure!((v[k - 1] - want).abs() < 1e-6 * (n * n) as f64, "spectrum sum of {} at {} is {} instead of {}", c.desc, k, v[k - 1], want);
        }
    }
    // cross-correlation differences
    let d: Vec<i64> = (0..n).map(|t| ccf(&a, &b, t) - ccf(&b, &a, t)).collect();
    let df: Vec<f64> = d.iter().map(|x| *x as f64).collect();
    let want: Vec<i64> = (1..=n / 2).map(|t| d[t]).collect();
    let nwant: Vec<i64> = want.iter().map(|x| -x).collect();
    for i in 0..4 {
        for j in 0..4 {
            if i == j {
                continue;
            }
            let tags = (TAGS[i], TAGS[j]);
            let back = (TAGS[j], TAGS[i]);
            let nm = format!("{}{}", NAMES[i], NAMES[j]);
            let v = iv(&ma::compute_cross_correlations(&a, &b, &tags));
            ensure!(v == want || v == nwant, "cross-correlation differences of {} as {} are {:?} instead of +-{:?}", c.desc, nm, v, want);
            eq(iv(&ma::compute_cross_correlations(&b, &a, &back)), &v, &format!("compute_cross_correlations with both order and tags exchanged ({})", nm))?;
            eq(iv(&ma::compute_cross_correlations_dft(&da, &db, &tags, n)), &v, &format!("compute_cross_correlations_dft as {}", nm))?;
            let nv: Vec<i64> = v.iter().map(|x| -x).collect();
            eq(iv(&ma::compute_complementary_cross_correlations(&a, &b, &tags)), &nv, &format!("compute_complementary_cross_correlations as {}", nm))?;
            let sg = if v == want { 1.0 } else { -1.0 };
            let p = ma::compute_cross_psd_pair(da.clone(), db.clone(), &tags, n);
            ensure!(p.len() == n / 2, "compute_cross_psd_pair has {} entries", p.len());
            for k in 1..=n / 2 {
                let e = dft_ref(&df, k) * sg;
                ensure!(close(p[k - 1], e, n * n), "cross spectrum difference of {} as {} at {} is {} instead of {}", c.desc, nm, k, p[k - 1], e);
            }
        }
    }
    Ok(())
}
/// match data are equal exactly if the correlations are
fn match_data(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let (a, b) = corr_pair(s, n);
    let (mut x, mut y) = (a.clone(), b.clone());
    match s.below(7) {
        0 => {
            let t = s.below(n);
            x = shift(&x, t);
            y = shift(&y, t);
        }
        1 => {
            x = neg(&x);
            y = neg(&y);
        }
        2 => y = neg(&y),
        3 => {
            x.reverse();
            y.reverse();
        }
        4 => std::mem::swap(&mut x, &mut y),
        5 => y = shift(&y, s.below(n)),
        _ => {
            let i = s.below(n);
            y[i] = -y[i];
        }
    }
    let i = s.below(4);
    let j = (i + 1 + s.below(3)) % 4;
    let tags = (TAGS[i], TAGS[j]);
    c.desc(format!("{} {} / {} {} as {}{}", pm_str(&a), pm_str(&b), pm_str(&x), pm_str(&y), NAMES[i], NAMES[j]));
    c.nontrivial(n > 2);
    let data = |a: &Seq, b: &Seq| -> (Vec<i64>, Vec<i64>) { ((1..=n / 2).map(|t| paf(a, t) + paf(b, t)).collect(), (1..=n / 2).map(|t| ccf(a, b, t) - ccf(b, a, t)).collect()) };
    let want = data(&a, &b) == data(&x, &y);
    c.label(if want { "equal" } else { "different" });
    let (m1, m2) = (ma::MatchData::from(&a, &b, &tags), ma::MatchData::from(&x, &y, &tags));
    ensure!((m1 == m2) == want, "match data of {} compare {} instead of {}", c.desc, m1 == m2, want);
    if want {
        use std::collections::hash_map::DefaultHasher;
        use std::hash::{Hash, Hasher};
        let h = |m: &ma::MatchData| {
            let mut d = DefaultHasher::new();
            m.hash(&mut d);
            d.finish()
        };
        ensure!(h(&m1) == h(&m2), "equal match data of {} hash differently", c.desc);
    }
    let m3 = ma::MatchData::new(ma::compute_auto_correlation_pair(&x, &y), ma::compute_cross_correlations(&x, &y, &tags));
    ensure!(m3 == m2, "match data put together from the parts differ for {}", c.desc);
    Ok(())
}
fn tag_orders(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let q = match s.below(3) {
        0 if data::have(n) => any_valid(s, n).0,
        1 => lumpy_quad(s, n),
        _ => {
            // cross-correlations of some pairs vanish
            let a = s.pm(n);
            let b = s.pm(n);
            [a.clone(), b.clone(), if s.bool() { neg(&a) } else { a.clone() }, if s.bool() { neg(&b) } else { b }]
        }
    };
    let p = s.pick(&perms4()).0;
    c.desc(format!("{} in the order {:?}", quad_str(&q), p));
    let d = |i: usize, j: usize, t: usize| ccf(&q[i], &q[j], t) - ccf(&q[j], &q[i], t);
    // the condition of the pair that is matched is not tested again; sign convention either way
    let conds = |sg: i64| -> [bool; 3] {
        let all = |f: &dyn Fn(usize) -> bool| (0..n).all(|t| f(t));
        [all(&|t| d(0, 1, t) == sg * d(3, 2, t)), all(&|t| d(0, 2, t) == sg * d(1, 3, t)), all(&|t| d(0, 3, t) == sg * d(2, 1, t))]
    };
    let first: BTreeSet<usize> = [p[0], p[1]].into_iter().collect();
    let skip = match first.iter().copied().collect::<Vec<_>>()[..] {
        [0, 1] | [2, 3] => 0,
        [0, 2] | [1, 3] => 1,
        _ => 2,
    };
    let ev = |sg: i64| -> bool { (0..3).filter(|k| *k != skip).all(|k| conds(sg)[k]) };
    let (x, y) = (ev(1), ev(-1));
    c.nontrivial(n > 2);
    c.label(format!("conditions {} {}", x as u8, y as u8));
    let got = ma::verify_cross_correlation(&[&q[p[0]], &q[p[1]], &q[p[2]], &q[p[3]]], &p.iter().map(|t| TAGS[*t]).collect());
    ensure!(got == x || got == y, "verify_cross_correlation is {} for {}", got, c.desc);
    Ok(())
}
fn table(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let most = if s.chance(1, 50) { 60 } else { 6 };
    let mk = |s: &mut Src| -> Vec<Seq> {
        let base = seq_for(s, n);
        (0..s.range(1, most)).map(|_| match s.below(4) {
            0 => shift(&base, s.below(n)),
            1 => base.clone(),
            2 => neg(&base),
            _ => seq_for(s, n),
        }).collect()
    };
    let (l1, l2) = (mk(s), mk(s));
    let i = s.below(4);
    let j = (i + 1 + s.below(3)) % 4;
    let tags = (TAGS[i], TAGS[j]);
    c.desc(format!("{} | {} as {}{}", l1.iter().map(|x| pm_str(x)).collect::<Vec<_>>().join(" "), l2.iter().map(|x| pm_str(x)).collect::<Vec<_>>().join(" "), NAMES[i], NAMES[j]));
    let t = ma::generate_matching_table(&l1, &l2, &tags, n);
    let at = |l: &Vec<Seq>, a: &Vec<i8>| l.iter().position(|b| std::ptr::eq(a, b)).expect("a member of the list");
    let mut seen: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut shared = false;
    for (k, v) in &t {
        shared = shared || v.len() > 1;
        for (a, b) in v {
            *seen.entry((at(&l1, a), at(&l2, b))).or_insert(0) += 1;
            ensure!(ma::MatchData::from(a, b, &tags) == *k, "{} with {} is under a key that is not its own", pm_str(a), pm_str(b));
        }
    }
    c.nontrivial(shared);
    c.label(format!("{} keys", t.len().min(9)));
    let (p1, p2): (Vec<_>, Vec<_>) = (l1.iter().map(|x| psd_ref(x)).collect(), l2.iter().map(|x| psd_ref(x)).collect());
    for i in 0..l1.len() {
        for j in 0..l2.len() {
            let k = seen.get(&(i, j)).copied().unwrap_or(0);
            match verdict(&p1[i], &p2[j], 4.0 * n as f64, 0) {
                Some(true) => ensure!(k == 1, "the table of {} holds the pair {} {} {} times", c.desc, i, j, k),
                Some(false) => ensure!(k == 0, "the table of {} holds the pair {} {}, which exceeds the bound", c.desc, i, j),
                None => ensure!(k <= 1, "the table holds a pair twice"),
            }
        }
    }
    Ok(())
}
fn c24() -> Prop {
    Prop {
        id: "C24",
        subs: vec![
            Sub { name: "correlations", f: correlations, rule: "pairs of length over 1, all offsets, all tags", params: mixed(130, (1..=40).chain([64, 90, 127, 128, 129, 130, 200, 257, 300]).collect()), quick: 1200, thorough: 4800 },
            Sub { name: "match_data", f: match_data, rule: "two pairs of length over 2", params: mixed(100, vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 33, 60, 100]), quick: 9600, thorough: 38400 },
            Sub { name: "tag_orders", f: tag_orders, rule: "quadruples of length over 2", params: mixed(60, vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 21, 37, 60]), quick: 9600, thorough: 38400 },
            Sub { name: "table", f: table, rule: "lists in which several pairs share a key", params: vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 21, 32], quick: 3600, thorough: 14400 },
        ],
        assumptions: vec!["signs of cross-correlation differences are a convention; the variants must agree with each other", "the all-quadruples condition on three cross-correlation equations is C10's; verify_cross_correlation in matching.rs tests the two that matching leaves open"],
    }
}
