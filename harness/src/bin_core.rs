//! Checks of the encodings, predicates and the equivalence machinery, through the
//! verif_hooks re-exports of the library modules.
#[path = "kit/mod.rs"]
mod kit;
mod lib_common;
use kit::refs::*;
use kit::*;
use lib_common::*;
use qs::verif_hooks::equivalence as eqv;
use qs::verif_hooks::find_unique as fu;
use qs::verif_hooks::sequence::QS;
use qs::verif_hooks::symmetries::SequenceType;
use qs::verif_hooks::williamson::{QuadSeq, SequenceTag};
use std::collections::{BTreeMap, BTreeSet, HashSet};

fn main() {
    main_with(vec![c09(), c10(), c11(), c12(), c13()])
}

// ------------------------------------------------------------------ C09

fn check_enc(q: &Quad) -> Outcome {
    let n = q[0].len();
    let want = encode(q);
    let qs4 = to_qs4(q);
    let qs = qs4.to_qs();
    let got = qs.to_string_raw();
    ensure!(got == want, "{} encodes to {} instead of {}", quad_str(q), got, want);
    ensure!(qs.size() == n, "encoded sequence has size {} instead of {}", qs.size(), n);
    ensure!(qs.to_string() == format!("[{}]", want), "to_string prints {}", qs.to_string());
    let back = QuadSeq::from_pqs(&qs);
    ensure!(of_qs4(&back) == *q, "{} decodes from its quaternion sequence to {}", quad_str(q), quad_str(&of_qs4(&back)));
    ensure!(back == qs4, "the decoded quadruple does not equal the encoded one");
    let back2 = QuadSeq::from_pqs(&QS::from_str(&got));
    ensure!(of_qs4(&back2) == *q, "{} decodes to {}", got, quad_str(&of_qs4(&back2)));
    // the printed quadruple shows the four sequences
    let shown: Vec<Seq> = qs4.to_string().lines().filter_map(|l| parse_pm(l.trim().strip_prefix('[')?.strip_suffix(']')?)).filter(|v: &Seq| !v.is_empty()).collect();
    ensure!(shown == q.to_vec(), "{} is printed as {}", quad_str(q), qs4.to_string());
    for (t, tag) in [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z].into_iter().enumerate() {
        ensure!(qs4.sequence(tag) == q[t], "sequence({}) is not the {}th", tag.to_string(), t);
    }
    for i in 0..n {
        let v = qs4.values(i);
        ensure!([v.0, v.1, v.2, v.3] == [q[0][i], q[1][i], q[2][i], q[3][i]], "column {} is {:?}", i, v);
    }
    Ok(())
}
fn enc_random(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let q = match s.below(4) {
        0 => lumpy_quad(s, n),
        1 if data::have(n) => any_valid(s, n).0,
        _ => rand_quad(s, n),
    };
    c.desc(quad_str(&q));
    c.nontrivial(n > 1 && encode(&q).chars().collect::<BTreeSet<_>>().len() > 1);
    check_enc(&q)
}
fn enc_small(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let m = s.enumerated(1 << (4 * n)) as u64;
    let q: Quad = [0, 1, 2, 3].map(|t| from_bits(m >> (t * n) & ((1 << n) - 1), n));
    c.desc(quad_str(&q));
    c.nontrivial(true);
    check_enc(&q)
}
fn qd_of(q: &cgmath::Quaternion<f32>) -> Qd {
    [q.s, q.v.x, q.v.y, q.v.z].map(|x| (2.0 * x) as i64)
}
/// strings over the 24 letters (the last 8 occur in perfect sequences over the larger group)
fn enc_letters(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let all: Vec<char> = LETTERS.chars().collect();
    let word: String = if n == 1 { all[s.enumerated(24)].to_string() } else { (0..n).map(|_| *s.pick(&all)).collect() };
    c.desc(word.clone());
    c.nontrivial(true);
    let qs = QS::from_str(&word);
    ensure!(qs.to_string_raw() == word, "{} is printed as {}", word, qs.to_string_raw());
    let got: Vec<Qd> = qs.values().iter().map(qd_of).collect();
    let want: Vec<Qd> = word.chars().map(|x| letter_quat(x).unwrap()).collect();
    ensure!(got == want, "{} stands for {:?} (doubled) instead of {:?}", word, got, want);
    if let Some(q) = decode(&word) {
        c.label("16 letters");
        let b = QuadSeq::from_pqs(&qs);
        ensure!(of_qs4(&b) == q, "{} decodes to {} instead of {}", word, quad_str(&of_qs4(&b)), quad_str(&q));
        ensure!(b.to_qs().to_string_raw() == word, "{} encodes again to {}", word, b.to_qs().to_string_raw());
    }
    // the quaternion sequence can be rebuilt entry by entry
    let mut r = QS::new(n, None);
    for (i, v) in qs.values().iter().enumerate() {
        r.set_value(v.clone(), i);
    }
    ensure!(r.to_string_raw() == word, "set entry by entry it is {}", r.to_string_raw());
    Ok(())
}
fn enc_words16(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let all: Vec<char> = LETTERS.chars().take(16).collect();
    let word: String = (0..n).map(|_| *s.pick(&all)).collect();
    c.desc(word.clone());
    c.nontrivial(n > 1);
    let b = QuadSeq::from_pqs(&QS::from_str(&word));
    let q = decode(&word).unwrap();
    ensure!(of_qs4(&b) == q, "{} decodes to {} instead of {}", word, quad_str(&of_qs4(&b)), quad_str(&q));
    ensure!(b.to_qs().to_string_raw() == word, "{} encodes again to {}", word, b.to_qs().to_string_raw());
    // the product of any two of the 16 entries decides which quadruples they came from
    let v = QS::from_str(&word);
    for t in 0..n {
        let p = v.periodic_autocorrelation(t);
        let e = qpaf(&quats(&q), t);
        let g = [p.s, p.v.x, p.v.y, p.v.z].map(|x| (4.0 * x).round() as i64);
        ensure!(g == e, "quaternion autocorrelation at {} is {:?}/4 instead of {:?}/4", t, g, e);
        let p = v.odd_periodic_autocorrelation(t);
        let e = qopaf(&quats(&q), t);
        let g = [p.s, p.v.x, p.v.y, p.v.z].map(|x| (4.0 * x).round() as i64);
        ensure!(g == e, "odd quaternion autocorrelation at {} is {:?}/4 instead of {:?}/4", t, g, e);
    }
    Ok(())
}
/// the setters of a quadruple: a history of writes against a plain array
fn enc_setters(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let mut model: Quad = [vec![-1; n], vec![-1; n], vec![-1; n], vec![-1; n]];
    let mut r = QuadSeq::new(n);
    let tags = [SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
    let mut log = String::new();
    for _ in 0..s.range(1, 12) {
        match s.below(4) {
            0 => {
                let q = rand_quad(s, n);
                log += &format!("all {}; ", quad_str(&q));
                r.set_all_values((&q[0], &q[1], &q[2], &q[3]));
                model = q;
            }
            1 => {
                let t = s.below(4);
                let v = s.pm(n);
                log += &format!("seq {} {}; ", t, pm_str(&v));
                r.set_sequence(&v, &tags[t]);
                model[t] = v;
            }
            2 => {
                let (t, i) = (s.below(4), s.below(n));
                let v = if s.bool() { 1 } else { -1 };
                log += &format!("entry {} {} {}; ", t, i, v);
                r.set_single_value(v, &tags[t], i);
                model[t][i] = v;
            }
            _ => {
                let i = s.below(n);
                let v = s.pm(4);
                log += &format!("col {} {}; ", i, pm_str(&v));
                r.set_sequence_value(&(v[0], v[1], v[2], v[3]), i);
                for t in 0..4 {
                    model[t][i] = v[t];
                }
            }
        }
        c.desc(log.clone());
        ensure!(of_qs4(&r) == model, "holds {} instead of {}", quad_str(&of_qs4(&r)), quad_str(&model));
    }
    c.nontrivial(true);
    ensure!(r.size() == n, "size {}", r.size());
    ensure!(r == to_qs4(&model), "not equal to the quadruple set at once");
    let flat: Vec<i8> = r.clone().into_iter().collect();
    ensure!(flat == model.concat(), "iterates over {:?}", flat);
    check_enc(&model)
}
fn c09() -> Prop {
    Prop {
        id: "C09",
        subs: vec![
            Sub { name: "all_small", f: enc_small, rule: "every quadruple of this length; each counts", params: mixed(3, vec![1, 2, 3]), quick: 4096, thorough: 4096 },
            Sub { name: "random", f: enc_random, rule: "length over 1 and at least two different columns", params: mixed(129, (1..=40).chain([50, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1030]).collect()), quick: 4800, thorough: 20000 },
            Sub { name: "letters24", f: enc_letters, rule: "every word counts", params: mixed(40, vec![1, 2, 3, 5, 8, 13, 24, 40, 64, 100, 129, 257, 300]), quick: 12000, thorough: 48000 },
            Sub { name: "words16", f: enc_words16, rule: "words of length over 1", params: mixed(31, vec![1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 21, 31, 40, 64, 100, 129]), quick: 12000, thorough: 48000 },
            Sub { name: "setters", f: enc_setters, rule: "every history of writes counts", params: mixed(21, vec![1, 2, 5, 8, 21, 64, 129, 257, 300]), quick: 8000, thorough: 32000 },
        ],
        assumptions: vec!["the letter table of the README/paper, re-derived from the quaternion products, is the documented one"],
    }
}

// ------------------------------------------------------------------ C10

fn check_preds(q: &Quad) -> Outcome {
    let r = to_qs4(q);
    let n = q[0].len();
    let d = |got: bool, want: bool, what: &str| -> Outcome {
        ensure!(got == want, "{} is {} for {} (n = {}), by definition {}", what, got, quad_str(q), n, want);
        Ok(())
    };
    let (qt, wt, ws) = (is_qts(q), is_wts(q), is_ws(q));
    d(r.verify(SequenceType::QuaternionType), qt, "verify(QuaternionType)")?;
    d(r.verify(SequenceType::WilliamsonType), wt, "verify(WilliamsonType)")?;
    d(r.verify(SequenceType::Williamson), ws, "verify(Williamson)")?;
    d(r.verify_qts(), qt, "verify_qts")?;
    d(r.verify_wts(), wt, "verify_wts")?;
    d(r.verify_ws(), ws, "verify_ws")?;
    d(r.is_periodic_complementary(), paf_zero(q), "is_periodic_complementary")?;
    d(r.is_amicable(), amicable(q), "is_amicable")?;
    d(r.verify_cross_correlation(), qt_cross(q), "verify_cross_correlation")?;
    d(r.is_symmetric(), symmetric(q), "is_symmetric")?;
    let dup = (0..4).any(|i| (0..i).any(|j| q[i] == q[j]));
    d(r.has_duplicate_seq(), dup, "has_duplicate_seq")?;
    let s = r.to_qs();
    d(s.is_perfect(), perfect(&quats(q)), "is_perfect")?;
    d(s.is_odd_perfect(), odd_perfect(&quats(q)), "is_odd_perfect")?;
    d(s.is_symmetric(), symmetric(q), "symmetry of the quaternion sequence")?;
    // the theorems the program relies on, on the same input
    d(s.is_perfect(), r.verify_qts(), "perfect <=> quaternion-type: is_perfect")?;
    ensure!(!r.verify_ws() || r.verify_wts(), "{} is Williamson but not Williamson-type", quad_str(q));
    ensure!(!r.verify_wts() || r.verify_qts(), "{} is Williamson-type but not quaternion-type", quad_str(q));
    Ok(())
}
fn label_types(c: &mut Ctx, q: &Quad) {
    let l = match (is_ws(q), is_wts(q), is_qts(q)) {
        (true, _, _) => "williamson",
        (_, true, _) => "williamson-type only",
        (_, _, true) => "quaternion-type only",
        _ if paf_zero(q) => "complementary only",
        _ if amicable(q) => "amicable only",
        _ if qt_cross(q) => "cross-correlation only",
        _ if symmetric(q) => "symmetric only",
        _ => "none",
    };
    c.label(l);
}
fn preds_small(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let m = s.enumerated(1 << (4 * n)) as u64;
    let q: Quad = [0, 1, 2, 3].map(|t| from_bits(m >> (t * n) & ((1 << n) - 1), n));
    c.desc(quad_str(&q));
    c.nontrivial(n > 1);
    label_types(c, &q);
    check_preds(&q)
}
fn sym_quad(s: &mut Src, n: usize) -> Quad {
    let mut f = || {
        let h = s.pm(n / 2 + 1);
        (0..n).map(|i| h[i.min(n - i)]).collect::<Seq>()
    };
    [f(), f(), f(), f()]
}
fn preds_known(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let (mut q, ty) = any_valid(s, n);
    let mut how = ty.s().to_string();
    for _ in 0..s.below(3) {
        let (r, m) = mutate(s, &q);
        q = r;
        how += ", ";
        how += m;
    }
    c.desc(format!("{} ({})", quad_str(&q), how));
    c.nontrivial(true);
    label_types(c, &q);
    check_preds(&q)
}
fn preds_random(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let q = match s.below(4) {
        0 => sym_quad(s, n),
        1 => {
            // amicable: four members of a cyclic family {a, -a, shifts by n/2} of one sequence
            let a = s.pm(n);
            let mut f = |s: &mut Src| {
                let b = if s.bool() { neg(&a) } else { a.clone() };
                if n % 2 == 0 && s.bool() { shift(&b, n / 2) } else { b }
            };
            [f(s), f(s), f(s), f(s)]
        }
        2 => lumpy_quad(s, n),
        _ => rand_quad(s, n),
    };
    c.desc(quad_str(&q));
    c.nontrivial(paf_zero(&q) || amicable(&q) || qt_cross(&q) || symmetric(&q));
    label_types(c, &q);
    check_preds(&q)
}
/// sequences over all 24 units, incl. perfect and odd perfect ones
fn preds_qs(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let all: Vec<char> = LETTERS.chars().collect();
    let mut v: Vec<Qd> = match s.below(4) {
        0 => (0..n).map(|_| letter_quat(*s.pick(&all)).unwrap()).collect(),
        k => {
            let r = reps(n, Ty::Qts);
            if r.is_empty() {
                (0..n).map(|_| letter_quat(*s.pick(&all)).unwrap()).collect()
            } else {
                let q = s.pick(&r).clone();
                let q = rand_elem(s, n, Ty::Qts).apply(&q);
                let mut v = quats(&q);
                if k >= 2 {
                    // multiplied on the right by a unit: perfect over the 24 elements
                    let u = letter_quat(*s.pick(&all)).unwrap();
                    v = v.into_iter().map(|x| qmul(x, u)).collect();
                }
                if k == 3 {
                    // odd n: alternating signs make it odd perfect
                    v = v.into_iter().enumerate().map(|(i, x)| if i % 2 == 1 { qneg(x) } else { x }).collect();
                }
                v
            }
        }
    };
    if s.chance(1, 3) {
        let i = s.below(n);
        v[i] = match s.below(3) {
            0 => qneg(v[i]),
            1 => qconj(v[i]),
            _ => letter_quat(*s.pick(&all)).unwrap(),
        };
    }
    if s.chance(1, 6) {
        for i in 1..n {
            v[i] = v[i.min(n - i)];
        }
    }
    let word: String = v.iter().map(|x| quat_letter(*x)).collect();
    c.desc(word.clone());
    let (p, o) = (perfect(&v), odd_perfect(&v));
    let sy = (1..n).all(|i| v[i] == v[n - i]);
    c.nontrivial(n > 1);
    c.label(format!("perfect {} odd {} sym {}", p as u8, o as u8, sy as u8));
    let r = QS::from_str(&word);
    ensure!(r.is_perfect() == p, "is_perfect({}) = {}", word, r.is_perfect());
    ensure!(r.is_odd_perfect() == o, "is_odd_perfect({}) = {}", word, r.is_odd_perfect());
    ensure!(r.is_symmetric() == sy, "is_symmetric({}) = {}", word, r.is_symmetric());
    Ok(())
}
/// quadruples for which a condition fails at as few shifts as possible
fn preds_one_shift(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let delta = |i: usize| -> Seq { (0..n).map(|j| if j == i { -1 } else { 1 }).collect() };
    let kind = s.below(4);
    let mut q: Quad;
    if kind == 0 {
        // c and d differ from a constant in one place each: they correlate differently at one shift
        // and its opposite only, and everything else is symmetric
        let (i, j) = (s.below(n), s.below(n));
        q = [vec![1; n], vec![1; n], delta(i), delta(j)];
    } else if kind == 1 {
        // two such pairs, whose differences cancel, add up, or meet at different shifts
        let (i, t) = (s.below(n), s.below(n));
        let (k, u) = (s.below(n), if s.bool() { t } else { s.below(n) });
        q = [delta(i), delta((i + t) % n), delta(k), delta((k + u) % n)];
        if s.bool() {
            q.swap(0, 1);
        }
    } else {
        // a valid quadruple of length m times a sequence of length l, gcd(m, l) = 1: the correlations at
        // shift t are those at t mod m times the autocorrelation at t mod l, which is zero for most t
        let ms: Vec<usize> = (1..=n).filter(|m| n % m == 0 && gcd(*m, n / m) == 1 && data::have(*m)).collect();
        let m = *s.pick(&ms);
        let l = n / m;
        let (v, _) = any_valid(s, m);
        let mut best: (usize, Seq) = (usize::MAX, vec![]);
        for _ in 0..12 {
            let u = s.pm(l);
            let k = (1..l).filter(|t| paf(&u, *t) != 0).count();
            if k < best.0 && (k > 0 || kind == 3) {
                best = (k, u);
            }
        }
        if best.1.is_empty() {
            best.1 = s.pm(l);
        }
        q = map4(&v, |a| (0..n).map(|i| a[i % m] * best.1[i % l]).collect());
    }
    let (p, _) = *s.pick(&perms4());
    q = [q[p[0]].clone(), q[p[1]].clone(), q[p[2]].clone(), q[p[3]].clone()];
    let (mask, t) = (s.below(16), s.below(n));
    for i in 0..4 {
        q[i] = shift(&q[i], t);
        if mask >> i & 1 == 1 {
            q[i] = neg(&q[i]);
        }
    }
    if n % 2 == 0 && s.bool() {
        q = map4(&q, altneg);
    }
    c.desc(quad_str(&q));
    let bad = |f: &dyn Fn(usize) -> bool| (1..n).filter(|t| !f(*t)).count();
    let am = bad(&|t| (0..4).all(|i| (0..i).all(|j| ccf(&q[i], &q[j], t) == ccf(&q[j], &q[i], t))));
    let pc = bad(&|t| (0..4).map(|i| paf(&q[i], t)).sum::<i64>() == 0);
    c.nontrivial(am > 0 && am <= 4 || pc > 0 && pc <= 4);
    c.label(format!("fails at {} (amicable), {} (complementary) shifts", am.min(5), pc.min(5)));
    check_preds(&q)
}
/// words which are perfect, or odd perfect, but for a few shifts
fn words_one_shift(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let ls: Vec<usize> = (1..=n).filter(|l| n % l == 0 && l % 2 == 1 && gcd(*l, n / l) == 1 && (data::have(n / l) || n / l == 4)).collect();
    // mostly by a short factor: it leaves few shifts
    let l = ls[s.below(ls.len())];
    let m = n / l;
    let u = s.pm(l);
    let odd = s.bool();
    let v: Vec<Qd> = if odd && m % 2 == 0 {
        // odd perfect words of lengths 2 and 4 by search; longer ones are not known here
        if m > 4 {
            return Ok(());
        }
        let all: Vec<char> = LETTERS.chars().take(8).collect();
        let found: Vec<Vec<Qd>> = (0..8usize.pow(m as u32)).map(|k| (0..m).map(|i| letter_quat(all[k / 8usize.pow(i as u32) % 8]).unwrap()).collect::<Vec<_>>()).filter(|w| odd_perfect(w)).collect();
        s.pick(&found).clone()
    } else if m == 4 && !data::have(4) {
        return Ok(());
    } else {
        let r = reps(m, Ty::Qts);
        if r.is_empty() {
            return Ok(());
        }
        let q = s.pick(&r).clone();
        quats(&rand_elem(s, m, Ty::Qts).apply(&q))
    };
    // the product extends with period n (odd: with a change of sign after n)
    let mut w: Vec<Qd> = (0..n)
        .map(|i| {
            let x = v[i % m];
            let neg = (u[i % l] < 0) ^ (odd && m % 2 == 0 && (i / m) % 2 == 1) ^ (odd && m % 2 == 1 && i % 2 == 1);
            if neg { qneg(x) } else { x }
        })
        .collect();
    let t = s.below(n);
    w = (0..n).map(|i| { let j = i + t; if odd && j >= n { qneg(w[j - n]) } else { w[j % n] } }).collect();
    let word: String = w.iter().map(|x| quat_letter(*x)).collect();
    c.desc(word.clone());
    let r = QS::from_str(&word);
    let (p, o) = (perfect(&w), odd_perfect(&w));
    let fails = (1..n).filter(|t| paf(&u, t % l) != 0 && t % m == 0).count();
    c.nontrivial(if odd { o || fails <= 4 } else { p || fails <= 4 });
    c.label(format!("{} for {} shifts", if odd { "odd perfect but" } else { "perfect but" }, fails.min(5)));
    ensure!(r.is_perfect() == p, "is_perfect({}) = {}", word, r.is_perfect());
    ensure!(r.is_odd_perfect() == o, "is_odd_perfect({}) = {}", word, r.is_odd_perfect());
    Ok(())
}
fn c10() -> Prop {
    Prop {
        id: "C10",
        subs: vec![
            Sub { name: "all_small", f: preds_small, rule: "every quadruple of length over 1", params: mixed(4, vec![1, 2, 3, 4]), quick: 65536, thorough: 65536 },
            Sub { name: "known", f: preds_known, rule: "a valid quadruple of a random type, moved within its class and then altered up to twice; each counts", params: mixed(33, (1..=33).collect()), quick: 6000, thorough: 60000 },
            Sub { name: "known_large", f: preds_known, rule: "as above", params: mixed(100, data::lengths(34)), quick: 300, thorough: 6000 },
            Sub { name: "random", f: preds_random, rule: "at least one of the four elementary conditions holds", params: mixed(63, (1..=20).chain([25, 32, 40, 63, 64, 65, 100, 128, 129, 200, 257]).collect()), quick: 3200, thorough: 40000 },
            Sub { name: "one_shift", f: preds_one_shift, rule: "amicability or complementarity fails, at no more than four shifts", params: mixed(40, (2..=40).chain([42, 45, 50, 60, 63, 65, 66, 70, 84, 90, 100, 105, 130, 200]).collect()), quick: 2000, thorough: 20000 },
            Sub { name: "words_one_shift", f: words_one_shift, rule: "the word is (odd) perfect but for at most four shifts", params: mixed(60, vec![3, 5, 6, 7, 10, 12, 14, 15, 18, 20, 21, 24, 26, 28, 30, 33, 35, 36, 39, 42, 45, 48, 50, 51, 54, 60, 63, 65, 70, 75, 90, 100]), quick: 1000, thorough: 10000 },
            Sub { name: "quaternions", f: preds_qs, rule: "words of length over 1 over the 24 units", params: mixed(21, (1..=21).chain([24, 25, 27, 32, 33, 36, 45, 49, 60, 64, 100]).collect()), quick: 6000, thorough: 60000 },
        ],
        assumptions: vec![],
    }
}

// ------------------------------------------------------------------ C11

type Op = fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>;
/// (name, operation, its images by definition, the types it preserves)
fn ops() -> Vec<(&'static str, Op, fn(&Quad) -> Vec<Quad>, Vec<Ty>)> {
    use Ty::*;
    fn half(q: &Quad, m: [bool; 4]) -> Quad {
        let n = q[0].len();
        let mut r = q.clone();
        for t in 0..4 {
            if m[t] {
                r[t] = shift(&r[t], n / 2);
            }
        }
        r
    }
    fn count(m: &[bool; 4]) -> usize {
        m.iter().filter(|x| **x).count()
    }
    fn negm(q: &Quad, m: [bool; 4]) -> Quad {
        let mut r = q.clone();
        for t in 0..4 {
            if m[t] {
                r[t] = neg(&r[t]);
            }
        }
        r
    }
    fn swaps(q: &Quad) -> Vec<Quad> {
        let mut v = vec![];
        for i in 0..4 {
            for j in i + 1..4 {
                let mut r = q.clone();
                r.swap(i, j);
                v.push(r);
            }
        }
        v
    }
    fn f_negswap(q: &Quad) -> Vec<Quad> {
        masks().into_iter().filter(|m| count(m) == 1).flat_map(|m| swaps(&negm(q, m))).collect()
    }
    fn f_double(q: &Quad) -> Vec<Quad> {
        swaps(q).iter().flat_map(swaps).collect()
    }
    fn f_shift(q: &Quad) -> Vec<Quad> {
        (0..q[0].len()).map(|t| map4(q, |a| shift(a, t))).collect()
    }
    fn f_dual(q: &Quad) -> Vec<Quad> {
        if q[0].len() % 2 == 1 {
            return vec![];
        }
        masks().into_iter().filter(|m| count(m) % 2 == 0).map(|m| half(q, m)).collect()
    }
    fn f_single(q: &Quad) -> Vec<Quad> {
        if q[0].len() % 2 == 1 {
            return vec![];
        }
        masks().into_iter().filter(|m| count(m) == 1).map(|m| half(q, m)).collect()
    }
    fn f_rev(q: &Quad) -> Vec<Quad> {
        vec![map4(q, |a| a.iter().rev().cloned().collect())]
    }
    fn f_neg(q: &Quad) -> Vec<Quad> {
        masks().into_iter().filter(|m| count(m) == 1).map(|m| negm(q, m)).collect()
    }
    fn f_neg2(q: &Quad) -> Vec<Quad> {
        masks().into_iter().filter(|m| count(m) == 2).map(|m| negm(q, m)).collect()
    }
    fn f_alt(q: &Quad) -> Vec<Quad> {
        vec![map4(q, altneg)]
    }
    fn f_evalt(q: &Quad) -> Vec<Quad> {
        if q[0].len() % 2 == 1 { vec![] } else { f_alt(q) }
    }
    fn f_aut(q: &Quad) -> Vec<Quad> {
        units(q[0].len()).into_iter().map(|k| map4(q, |a| automorph(a, k))).collect()
    }
    fn f_disj(q: &Quad) -> Vec<Quad> {
        [[1, 0, 3, 2], [2, 3, 0, 1], [3, 2, 1, 0]].iter().map(|p: &[usize; 4]| [q[p[0]].clone(), q[p[1]].clone(), q[p[2]].clone(), q[p[3]].clone()]).collect()
    }
    vec![
        ("negate_swap", eqv::equivalent_negate_swap, f_negswap, vec![Qts, Wts, Ws]),
        ("reorder", eqv::equivalent_reorder, swaps, vec![Wts, Ws]),
        ("double_reorder", eqv::equivalent_double_reorder, f_double, vec![Qts, Wts, Ws]),
        ("uniform_half_shift", eqv::equivalent_uniform_half_shift, f_single, vec![Wts, Ws]),
        ("uniform_shift", eqv::equivalent_uniform_shift, f_shift, vec![Qts, Wts]),
        ("dual_half_shift", eqv::equivalent_dual_half_shift, f_dual, vec![Qts, Wts, Ws]),
        ("single_half_shift", eqv::equivalent_single_half_shift, f_single, vec![Wts, Ws]),
        ("reverse", eqv::equivalent_reverse, f_rev, vec![Qts, Wts]),
        ("negate", eqv::equivalent_negate, f_neg, vec![Wts, Ws]),
        ("double_negate", eqv::equivalent_double_negate, f_neg2, vec![Qts, Wts, Ws]),
        ("alternated_negation", eqv::equivalent_alternated_negation, f_alt, vec![]),
        ("even_alternated_negation", eqv::equivalent_even_alternated_negation, f_evalt, vec![Qts, Wts, Ws]),
        ("automorphism", eqv::equivalent_automorphism, f_aut, vec![Qts, Wts, Ws]),
        ("disjoint_swaps", eqv::equivalent_disjoint_swaps, f_disj, vec![Qts, Wts, Ws]),
    ]
}
fn diff(got: &BTreeSet<Quad>, want: &BTreeSet<Quad>) -> String {
    let a: Vec<String> = got.difference(want).take(2).map(quad_str).collect();
    let b: Vec<String> = want.difference(got).take(2).map(quad_str).collect();
    format!("{} of {}; unexpected {:?}; missing {:?}", got.len(), want.len(), a, b)
}
fn set_of(h: HashSet<QuadSeq>) -> BTreeSet<Quad> {
    h.iter().map(of_qs4).collect()
}
fn op_images(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let all = ops();
    let i = s.enumerated(all.len());
    let (name, op, def, _) = &all[i];
    let q = if s.chance(1, 3) { lumpy_quad(s, n) } else { rand_quad(s, n) };
    c.desc(format!("{} on {}", name, quad_str(&q)));
    c.label(*name);
    let mut want: BTreeSet<Quad> = def(&q).into_iter().collect();
    c.nontrivial(want.iter().any(|x| *x != q));
    want.insert(q.clone());
    let got = set_of(op(&to_qs4(&q), SequenceType::QuaternionType, true));
    ensure!(got == want, "{}: {}", name, diff(&got, &want));
    Ok(())
}
fn op_valid(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let all = ops();
    let i = s.enumerated(all.len());
    let (name, op, def, types) = &all[i];
    let have: Vec<Ty> = types.iter().copied().filter(|t| !reps(n, *t).is_empty()).collect();
    if have.is_empty() {
        return Ok(());
    }
    let ty = *s.pick(&have);
    let q = valid(s, n, ty).unwrap();
    c.desc(format!("{} on the {} {}", name, ty.s(), quad_str(&q)));
    c.label(format!("{} {}", ty.s(), name));
    let mut want: BTreeSet<Quad> = def(&q).into_iter().collect();
    want.insert(q.clone());
    c.nontrivial(want.len() > 1);
    let got = set_of(op(&to_qs4(&q), st(ty), false));
    ensure!(got == want, "{}: {}", name, diff(&got, &want));
    for g in &got {
        ensure!(is_type(g, ty), "{} makes {} of a valid {}", name, quad_str(g), ty.s());
        ensure!(to_qs4(g).verify(st(ty)), "verify rejects {}", quad_str(g));
        ensure!(class_key(g, ty) == class_key(&q, ty) || *name == "reverse", "{} leaves the class: {}", name, quad_str(g));
    }
    Ok(())
}
/// the operations registered for a type are sound: every image is valid and in the class
fn op_registered(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let have: Vec<Ty> = TYPES.iter().copied().filter(|t| !reps(n, *t).is_empty()).collect();
    let ty = *s.pick(&have);
    let mut q = valid(s, n, ty).unwrap();
    let start = class_key(&q, ty);
    let eq = st(ty).equivalences();
    let mut log = format!("{} {}", ty.s(), quad_str(&q));
    // a random walk through registered operations
    for _ in 0..s.range(1, 8) {
        let k = s.below(eq.len());
        let mut im: Vec<Quad> = eq[k](&to_qs4(&q), st(ty), false).iter().map(of_qs4).collect();
        im.sort();
        for g in &im {
            ensure!(is_type(g, ty), "operation {} of {} makes the invalid {} of {}", k, ty.s(), quad_str(g), quad_str(&q));
        }
        q = im[s.below(im.len())].clone();
        log += &format!(" -{}-> {}", k, quad_str(&q));
    }
    c.desc(log);
    c.nontrivial(n > 1);
    c.label(ty.s());
    ensure!(class_key(&q, ty) == start, "the registered operations of {} lead to another class: {}", ty.s(), quad_str(&q));
    Ok(())
}
fn helpers(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let a = s.pm(n);
    let b = match s.below(3) {
        0 => s.pm(n),
        1 => a.clone(),
        _ => {
            let mut b = a.clone();
            let i = s.below(n);
            b[i] = -b[i];
            b
        }
    };
    c.desc(format!("{} {}", pm_str(&a), pm_str(&b)));
    c.nontrivial(n > 1);
    ensure!(eqv::negated(&a) == neg(&a), "negated({})", pm_str(&a));
    for f in 1..=n + 1 {
        let want: Seq = a.iter().enumerate().map(|(i, x)| if (i + 1) % f == 0 { -x } else { *x }).collect();
        ensure!(eqv::alt_negated(&a, f) == want, "alt_negated({}, {}) = {}", pm_str(&a), f, pm_str(&eqv::alt_negated(&a, f)));
    }
    if n % 2 == 0 {
        ensure!(eqv::half_shift(&a) == shift(&a, n / 2), "half_shift({})", pm_str(&a));
    }
    ensure!(eqv::seq_less_than(&a, &b) == (a < b), "seq_less_than({}, {})", pm_str(&a), pm_str(&b));
    let mut t = a.clone();
    qs::verif_hooks::sequence::transpose(&mut t);
    let want: Seq = (0..n).map(|i| a[(n - i) % n]).collect();
    ensure!(t == want, "transpose({}) = {}", pm_str(&a), pm_str(&t));
    let mut q = lumpy_quad(s, n);
    let p = q.clone();
    let k = s.below(4);
    q[k] = if s.bool() { b } else { a };
    ensure!(eqv::will_less_than(&to_qs4(&p), &to_qs4(&q)) == (p < q), "will_less_than({}, {})", quad_str(&p), quad_str(&q));
    let (x, y) = (s.range(1, 200), s.range(1, 200));
    ensure!(eqv::coprime(x, y) == (gcd(x, y) == 1), "coprime({}, {})", x, y);
    Ok(())
}
fn c11() -> Prop {
    Prop {
        id: "C11",
        subs: vec![
            Sub { name: "images", f: op_images, rule: "any quadruple that the operation changes", params: mixed(100, (1..=40).chain([48, 64, 99, 100]).collect()), quick: 1400, thorough: 14000 },
            Sub { name: "valid", f: op_valid, rule: "a valid quadruple of a type the operation preserves, with an image other than itself", params: mixed(62, data::lengths(1).into_iter().filter(|n| *n <= 62).collect()), quick: 1400, thorough: 14000 },
            Sub { name: "registered", f: op_registered, rule: "random walks through the operations registered for the type, n > 1", params: mixed(62, data::lengths(2).into_iter().filter(|n| *n <= 62).collect()), quick: 300, thorough: 3000 },
            Sub { name: "helpers", f: helpers, rule: "n > 1", params: mixed(30, vec![1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 30]), quick: 2500, thorough: 20000 },
        ],
        assumptions: vec!["lengths up to 100 (the program's table of automorphisms ends there)"],
    }
}

// ------------------------------------------------------------------ C12

/// a list of valid quadruples with several members per class; returns also the class of each
fn class_list(s: &mut Src, n: usize, ty: Ty, maxc: usize, maxm: usize) -> Vec<(Quad, Key)> {
    let r = reps(n, ty);
    let mut v = vec![];
    for _ in 0..s.below(maxc + 1) {
        let q = s.pick(&r).clone();
        let key = class_key(&q, ty);
        for _ in 0..s.range(1, maxm) {
            let m = rand_elem(s, n, ty).apply(&q);
            v.push((m.clone(), key));
            if s.chance(1, 6) {
                v.push((m, key));
            }
        }
    }
    s.shuffle(&mut v);
    v
}
fn list_str(v: &[(Quad, Key)]) -> String {
    if v.len() > 400 {
        return format!("{} ... ({} members)", list_str(&v[..20]), v.len());
    }
    v.iter().map(|x| encode(&x.0)).collect::<Vec<_>>().join(" ")
}
fn transversal(what: &str, out: &[Quad], v: &[(Quad, Key)], ty: Ty) -> Outcome {
    let want: BTreeSet<Key> = v.iter().map(|x| x.1).collect();
    let mut seen: BTreeMap<Key, Quad> = BTreeMap::new();
    for q in out {
        ensure!(is_type(q, ty), "{} returns the invalid {}", what, quad_str(q));
        let k = class_key(q, ty);
        ensure!(want.contains(&k), "{} returns {} of a class that is not in the list", what, quad_str(q));
        if let Some(o) = seen.insert(k, q.clone()) {
            return Err(format!("{} returns the equivalent {} and {}", what, encode(q), encode(&o)).into());
        }
    }
    ensure!(seen.len() == want.len(), "{} returns {} quadruples for {} classes", what, seen.len(), want.len());
    Ok(())
}
fn pick_ty(s: &mut Src, n: usize) -> Ty {
    let have: Vec<Ty> = TYPES.iter().copied().filter(|t| !reps(n, *t).is_empty()).collect();
    *s.pick(&have)
}
fn canon_list(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let ty = pick_ty(s, n);
    let v = if n <= 16 { class_list(s, n, ty, 3, 3) } else { class_list(s, n, ty, 2, 2) };
    check_canon(s, c, ty, n, v)
}
/// lists of a search's size
fn canon_many(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let ty = pick_ty(s, n);
    let v = class_list(s, n, ty, 40, 7);
    check_canon(s, c, ty, n, v)
}
fn check_canon(s: &mut Src, c: &mut Ctx, ty: Ty, n: usize, v: Vec<(Quad, Key)>) -> Outcome {
    c.desc(format!("{} n={} [{}]", ty.s(), n, list_str(&v)));
    let classes: BTreeSet<Key> = v.iter().map(|x| x.1).collect();
    c.nontrivial(v.len() > classes.len() && n > 1);
    c.label(format!("{} classes {}", ty.s(), classes.len()));
    let l: Vec<QuadSeq> = v.iter().map(|x| to_qs4(&x.0)).collect();
    let out: Vec<Quad> = fu::reduce_to_canonical_reps(&l, st(ty)).iter().map(of_qs4).collect();
    transversal("reduce_to_canonical_reps", &out, &v, ty)?;
    // other members of the same classes give the same representatives
    let w: Vec<(Quad, Key)> = v.iter().map(|x| (rand_elem(s, n, ty).apply(&x.0), x.1)).collect();
    let l2: Vec<QuadSeq> = w.iter().map(|x| to_qs4(&x.0)).collect();
    let mut out2: Vec<Quad> = fu::reduce_to_canonical_reps(&l2, st(ty)).iter().map(of_qs4).collect();
    let mut out1 = out;
    out1.sort();
    out2.sort();
    ensure!(out1 == out2, "[{}] is reduced to {:?} but [{}] to {:?}", list_str(&v), out1.iter().map(encode).collect::<Vec<_>>(), list_str(&w), out2.iter().map(encode).collect::<Vec<_>>());
    Ok(())
}
/// lists of thousands of members of a few classes
fn thousands(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.param as usize;
    let ty = pick_ty(s, n);
    let r = reps(n, ty);
    let mut rng = Src::random(s.below(1 << 30) as u64, 0);
    let mut v = vec![];
    for _ in 0..s.range(1, 5000) {
        let q = rng.pick(&r).clone();
        let m = rand_elem(&mut rng, n, ty).apply(&q);
        v.push((m, class_key(&q, ty)));
    }
    if n <= 3 && s.bool() {
        check_algorithms(c, ty, n, v)
    } else {
        check_canon(s, c, ty, n, v)
    }
}
fn group_algorithms(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let n = if n > 100 { n / 100 } else { n };
    let ty = if n > 6 && n % 2 == 0 { Ty::Qts } else { pick_ty(s, n) };
    let v = class_list(s, n, ty, 3, 3);
    check_algorithms(c, ty, n, v)
}
fn algorithms_many(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let ty = pick_ty(s, n);
    let v = class_list(s, n, ty, 12, 6);
    check_algorithms(c, ty, n, v)
}
fn check_algorithms(c: &mut Ctx, ty: Ty, n: usize, v: Vec<(Quad, Key)>) -> Outcome {
    c.desc(format!("{} n={} [{}]", ty.s(), n, list_str(&v)));
    let classes: BTreeSet<Key> = v.iter().map(|x| x.1).collect();
    c.nontrivial(v.len() > classes.len() && n > 1);
    c.label(format!("{} classes {}", ty.s(), classes.len()));
    let l: Vec<QuadSeq> = v.iter().map(|x| to_qs4(&x.0)).collect();
    let e = st(ty).equivalences();
    let a: Vec<Quad> = fu::reduce_to_equivalence(&l, st(ty), &e).iter().map(of_qs4).collect();
    transversal("reduce_to_equivalence", &a, &v, ty)?;
    let b: Vec<Quad> = fu::reduce_to_equivalence_par(&l, st(ty), &e).iter().map(of_qs4).collect();
    transversal("reduce_to_equivalence_par", &b, &v, ty)?;
    let d: Vec<Quad> = fu::reduce_to_equivalence_set_dif(&l, st(ty), &e).iter().map(of_qs4).collect();
    transversal("reduce_to_equivalence_set_dif", &d, &v, ty)?;
    for q in &d {
        ensure!(v.iter().any(|x| x.0 == *q), "reduce_to_equivalence_set_dif returns {} which is not in the list", encode(q));
    }
    let sorted = |mut x: Vec<Quad>| {
        x.sort();
        x
    };
    ensure!(sorted(a.clone()) == sorted(b.clone()), "reduce_to_equivalence gives {:?}, reduce_to_equivalence_par {:?}", a.iter().map(encode).collect::<Vec<_>>(), b.iter().map(encode).collect::<Vec<_>>());
    Ok(())
}
fn rep_one(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let ty = if n > 6 && n % 2 == 0 { Ty::Qts } else { pick_ty(s, n) };
    let q = valid(s, n, ty).unwrap();
    c.desc(format!("{} {}", ty.s(), encode(&q)));
    c.nontrivial(n > 1);
    let r = of_qs4(&eqv::generate_canonical_representative(&to_qs4(&q), st(ty)));
    ensure!(class_key(&r, ty) == class_key(&q, ty), "the representative {} is not equivalent to {}", encode(&r), encode(&q));
    let min = group(n, ty).iter().map(|e| e.apply(&q)).min().unwrap();
    ensure!(r == min, "the representative of {} is {} although {} is less", quad_str(&q), quad_str(&r), quad_str(&min));
    let p = rand_elem(s, n, ty).apply(&q);
    let r2 = of_qs4(&eqv::generate_canonical_representative(&to_qs4(&p), st(ty)));
    ensure!(r == r2, "{} and {} have the representatives {} and {}", encode(&q), encode(&p), encode(&r), encode(&r2));
    Ok(())
}
fn equiv_pairs(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let ty = pick_ty(s, n);
    let a = valid(s, n, ty).unwrap();
    let b = match s.below(3) {
        0 => valid(s, n, ty).unwrap(),
        1 => rand_elem(s, n, ty).apply(&a),
        _ => {
            // stays valid of the type or is not used
            let (m, _) = mutate(s, &a);
            if is_type(&m, ty) { m } else { valid(s, n, ty).unwrap() }
        }
    };
    let want = class_key(&a, ty) == class_key(&b, ty);
    c.desc(format!("{} {} {}", ty.s(), encode(&a), encode(&b)));
    c.nontrivial(a != b);
    c.label(format!("{} equivalent {}", ty.s(), want));
    let (qa, qb) = (to_qs4(&a), to_qs4(&b));
    ensure!(eqv::equiv(&qa, &qb, st(ty)) == want, "equiv({}, {}) as {} should be {}", encode(&a), encode(&b), ty.s(), want);
    ensure!(eqv::equiv(&qb, &qa, st(ty)) == want, "equiv({}, {}) as {} should be {}", encode(&b), encode(&a), ty.s(), want);
    Ok(())
}
fn canon_forms(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let q = if s.chance(2, 3) { lumpy_quad(s, n) } else { rand_quad(s, n) };
    c.desc(quad_str(&q));
    c.nontrivial(n > 1);
    // negate-swap: signed permutations of determinant 1 (24 * 16 / 2 of them)
    let orbit = |q: &Quad, det: bool| -> BTreeSet<Quad> {
        let mut o = BTreeSet::new();
        for (p, sg) in perms4() {
            for m in masks() {
                let odd = m.iter().filter(|x| **x).count() % 2 == 1;
                if det && odd != (sg < 0) {
                    continue;
                }
                let mut r: Quad = Default::default();
                for t in 0..4 {
                    r[t] = if m[t] { neg(&q[p[t]]) } else { q[p[t]].clone() };
                }
                o.insert(r);
            }
        }
        o
    };
    for det in [true, false] {
        let f = |x: &Quad| of_qs4(&if det { eqv::ns_canonical(&to_qs4(x)) } else { eqv::sn_ss_canonical(&to_qs4(x)) });
        let name = if det { "ns_canonical" } else { "sn_ss_canonical" };
        let o: Vec<Quad> = orbit(&q, det).into_iter().collect();
        let r = f(&q);
        ensure!(o.contains(&r), "{}({}) = {} is not reached by the operations", name, quad_str(&q), quad_str(&r));
        for _ in 0..6 {
            let x = s.pick(&o).clone();
            let rx = f(&x);
            ensure!(rx == r, "{}: {} goes to {} but {} to {}", name, quad_str(&q), quad_str(&r), quad_str(&x), quad_str(&rx));
        }
        c.label(format!("{} orbit {}", name, o.len()));
    }
    Ok(())
}
fn ns_list(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let mut l: Vec<Quad> = vec![];
    for _ in 0..s.below(4) {
        let q = lumpy_quad(s, n);
        for _ in 0..s.range(1, 3) {
            let mut e = rand_elem(s, n, Ty::Qts);
            e.k = 1;
            e.s = 0;
            e.alt = false;
            e.half = [false; 4];
            l.push(e.apply(&q));
        }
    }
    s.shuffle(&mut l);
    c.desc(format!("[{}]", l.iter().map(encode).collect::<Vec<_>>().join(" ")));
    // the least of an orbit names it
    let name = |q: &Quad| -> Quad {
        let mut best: Option<Quad> = None;
        for (p, sg) in perms4() {
            for m in masks() {
                if (m.iter().filter(|x| **x).count() % 2 == 1) != (sg < 0) {
                    continue;
                }
                let r: Quad = [0, 1, 2, 3].map(|t: usize| if m[t] { neg(&q[p[t]]) } else { q[p[t]].clone() });
                if best.as_ref().map_or(true, |b| r < *b) {
                    best = Some(r);
                }
            }
        }
        best.unwrap()
    };
    let want: BTreeSet<Quad> = l.iter().map(name).collect();
    c.nontrivial(l.len() > want.len());
    let out: Vec<Quad> = qs::verif_hooks::matrix_equivalence::reduce_to_ns_equivalence(&l.iter().map(to_qs4).collect()).iter().map(of_qs4).collect();
    let got: BTreeSet<Quad> = out.iter().map(name).collect();
    ensure!(got == want && out.len() == want.len(), "{} quadruples returned, in {} of the {} classes", out.len(), got.len(), want.len());
    Ok(())
}
fn c12_large(s: &mut Src, c: &mut Ctx) -> Outcome {
    let q = decode("+xyZjQYY+yYqjzyX+XyzjqYy+YYQjZyx").unwrap();
    assert!(is_ws(&q));
    let _ = s.below(1);
    c.desc(format!("ws {}", encode(&q)));
    c.nontrivial(true);
    let r = std::panic::catch_unwind(|| fu::reduce_to_canonical_reps(&vec![to_qs4(&q)], SequenceType::Williamson).iter().map(of_qs4).collect::<Vec<_>>());
    let ok = matches!(&r, Ok(v) if v.len() == 1 && class_key(&v[0], Ty::Ws) == class_key(&q, Ty::Ws));
    if !ok {
        return Err(Fail { sig: Some(format!("canonical-reps ws n=32 {}", encode(&q))), msg: format!("reduce_to_canonical_reps of one Williamson quadruple of length 32 gives {:?}", r.map(|v| v.iter().map(encode).collect::<Vec<_>>()).map_err(|_| "a panic")) });
    }
    Ok(())
}
fn c12() -> Prop {
    Prop {
        id: "C12",
        subs: vec![
            Sub { name: "canonical_list", f: canon_list, rule: "some class has more than one member in the list and n > 1", params: mixed(13, (1..=13).collect()), quick: 40, thorough: 1500 },
            Sub { name: "canonical_list_long", f: canon_list, rule: "some class has more than one member in the list and n > 1", params: (14..=31).collect(), quick: 3, thorough: 60 },
            Sub { name: "canonical_many", f: canon_many, rule: "lists of up to 300", params: vec![1, 2, 3, 4, 5, 7, 8, 9, 12, 13], quick: 12, thorough: 100 },
            Sub { name: "canonical_thousands", f: thousands, rule: "lists of up to 5000", params: vec![3, 4, 5, 7], quick: 3, thorough: 20 },
            Sub { name: "algorithms", f: group_algorithms, rule: "some class has more than one member in the list and n > 1", params: mixed(7, vec![1, 2, 3, 5, 7]), quick: 20, thorough: 400 },
            Sub { name: "algorithms_4", f: group_algorithms, rule: "some class has more than one member in the list", params: vec![401, 402, 403, 404], quick: 3, thorough: 60 },
            Sub { name: "algorithms_many", f: algorithms_many, rule: "lists of up to 90", params: vec![1, 3, 5], quick: 4, thorough: 60 },
            Sub { name: "representative", f: rep_one, rule: "n > 1", params: mixed(6, vec![1, 2, 3, 4, 5, 6, 7]), quick: 6, thorough: 100 },
            Sub { name: "equiv", f: equiv_pairs, rule: "two different quadruples", params: mixed(11, (1..=15).collect()), quick: 20, thorough: 1500 },
            Sub { name: "equiv_long", f: equiv_pairs, rule: "two different quadruples", params: (16..=31).collect(), quick: 2, thorough: 60 },
            Sub { name: "canonical_forms", f: canon_forms, rule: "n > 1", params: mixed(64, vec![1, 2, 3, 4, 5, 6, 8, 11, 16, 33, 64]), quick: 400, thorough: 20000 },
            Sub { name: "ns_list", f: ns_list, rule: "some class has more than one member in the list", params: mixed(21, vec![1, 2, 3, 5, 8, 21]), quick: 100, thorough: 4000 },
            Sub { name: "length_32", f: c12_large, rule: "the one quadruple of the known finding", params: vec![32], quick: 1, thorough: 1 },
        ],
        assumptions: vec!["two quadruples are equivalent by the independent normal form of refs.rs (checked against explicit orbits in C13)"],
    }
}

// ------------------------------------------------------------------ C13

fn orbit_class(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    // the whole orbit is generated: keep the groups of bearable size
    let ty = if n >= 7 && n % 2 == 0 { Ty::Qts } else { pick_ty(s, n) };
    let kind = s.below(3);
    let q = if kind == 0 { lumpy_quad(s, n) } else { valid(s, n, ty).unwrap() };
    let is_valid = is_type(&q, ty);
    c.desc(format!("{} {}", ty.s(), quad_str(&q)));
    c.nontrivial(n > 1);
    c.label(format!("{} valid {}", ty.s(), is_valid));
    let want: BTreeSet<Quad> = group(n, ty).iter().map(|e| e.apply(&q)).collect();
    let e = st(ty).equivalences();
    let got = set_of(eqv::generate_equivalence_class(&to_qs4(&q), st(ty), &e, !is_valid));
    ensure!(got == want, "generate_equivalence_class: {}", diff(&got, &want));
    // the oracle of the other checks is constant on the orbit
    let k = class_key(&q, ty);
    for w in want.iter().take(50) {
        assert!(class_key(w, ty) == k, "normal form");
    }
    if is_valid {
        let p = rand_elem(s, n, ty).apply(&q);
        ensure!(to_qs4(&q).equivalent_to(to_qs4(&p), st(ty)), "equivalent_to({}, {}) is false", encode(&q), encode(&p));
        let o = valid(s, n, ty).unwrap();
        ensure!(to_qs4(&q).equivalent_to(to_qs4(&o), st(ty)) == want.contains(&o), "equivalent_to({}, {}) should be {}", encode(&q), encode(&o), want.contains(&o));
    }
    Ok(())
}
fn symbolic(n: usize) -> Quad {
    [0, 1, 2, 3].map(|t| (0..n).map(|i| (t * n + i + 1) as i8).collect())
}
fn sym_full(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let ty = if n >= 7 && n % 2 == 0 { Ty::Qts } else { TYPES[s.enumerated(3)] };
    c.desc(format!("group of {} at {}", ty.s(), n));
    c.nontrivial(n > 1);
    let want: BTreeSet<Quad> = group(n, ty).iter().map(|e| e.apply(&symbolic(n))).collect();
    let h = eqv::generate_symmetry_group(n, st(ty), &st(ty).equivalences());
    let got = set_of(h.clone());
    ensure!(got == want, "the generated group has {} elements, {} of the {} by definition", got.len(), got.intersection(&want).count(), want.len());
    for _ in 0..3 {
        let q = if s.chance(1, 3) { lumpy_quad(s, n) } else { rand_quad(s, n) };
        let orbit: BTreeSet<Quad> = group(n, ty).iter().map(|e| e.apply(&q)).collect();
        let g = set_of(eqv::generate_equivalence_class_fast(&to_qs4(&q), &h));
        ensure!(g == orbit, "generate_equivalence_class_fast({}): {}", quad_str(&q), diff(&g, &orbit));
    }
    Ok(())
}
/// groups generated by some of the operations, for longer sequences
fn sym_part(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let all = ops();
    let mut idx: Vec<usize> = vec![];
    let light = ["uniform_half_shift", "uniform_shift", "dual_half_shift", "single_half_shift", "reverse", "double_negate", "even_alternated_negation", "automorphism", "disjoint_swaps"];
    for (i, o) in all.iter().enumerate() {
        if light.contains(&o.0) && s.chance(1, 3) {
            idx.push(i);
        }
    }
    // breadth-first closure under the defining images
    let start = symbolic(n);
    let mut want: BTreeSet<Quad> = [start.clone()].into();
    let mut front = vec![start];
    let limit = 6000;
    while !front.is_empty() && want.len() <= limit {
        let mut next = vec![];
        for q in &front {
            for &i in &idx {
                for im in (all[i].2)(q) {
                    if want.insert(im.clone()) {
                        next.push(im);
                    }
                }
            }
        }
        front = next;
    }
    let names: Vec<&str> = idx.iter().map(|&i| all[i].0).collect();
    c.desc(format!("n={} {:?}", n, names));
    if want.len() > limit {
        c.label("too big, skipped");
        return Ok(());
    }
    c.nontrivial(want.len() > 1);
    c.label(format!("operations {}", idx.len()));
    let v: Vec<Op> = idx.iter().map(|&i| all[i].1).collect();
    let h = eqv::generate_symmetry_group(n, SequenceType::QuaternionType, &v);
    let got = set_of(h.clone());
    ensure!(got == want, "the group generated by {:?} has {} elements, {} of the {} by definition", names, got.len(), got.intersection(&want).count(), want.len());
    let q = rand_quad(s, n);
    // substitute into the group elements
    let flat = q.concat();
    let orbit: BTreeSet<Quad> = want.iter().map(|w| w.clone().map(|a| a.iter().map(|&x| if x > 0 { flat[x as usize - 1] } else { -flat[(-x) as usize - 1] }).collect())).collect();
    let g = set_of(eqv::generate_equivalence_class_fast(&to_qs4(&q), &h));
    ensure!(g == orbit, "generate_equivalence_class_fast({}): {}", quad_str(&q), diff(&g, &orbit));
    Ok(())
}
fn expand(s: &mut Src, c: &mut Ctx) -> Outcome {
    let n = c.length(s);
    let ty = pick_ty(s, n);
    let v = class_list(s, n, ty, 3, 2);
    c.desc(format!("{} n={} [{}]", ty.s(), n, list_str(&v)));
    c.nontrivial(v.len() > 1);
    let mut want: BTreeSet<Quad> = BTreeSet::new();
    let g = group(n, ty);
    for (q, _) in &v {
        if !want.contains(q) {
            want.extend(g.iter().map(|e| e.apply(q)));
        }
    }
    let l: Vec<QuadSeq> = v.iter().map(|x| to_qs4(&x.0)).collect();
    let out = eqv::generate_equivalent_quad_seqs(&l, st(ty));
    let got: BTreeSet<Quad> = out.iter().map(of_qs4).collect();
    ensure!(out.len() == got.len(), "generate_equivalent_quad_seqs repeats sequences");
    ensure!(got == want, "generate_equivalent_quad_seqs: {}", diff(&got, &want));
    Ok(())
}
fn c13_large(s: &mut Src, c: &mut Ctx) -> Outcome {
    let _ = s.below(1);
    c.desc("symmetry group of the alternated negation at length 32");
    c.nontrivial(true);
    let q = reps(32, Ty::Ws)[0].clone();
    let r = std::panic::catch_unwind(|| {
        let h = eqv::generate_symmetry_group(32, SequenceType::Williamson, &vec![eqv::equivalent_even_alternated_negation as Op]);
        set_of(eqv::generate_equivalence_class_fast(&to_qs4(&q), &h))
    });
    let want: BTreeSet<Quad> = [q.clone(), map4(&q, altneg)].into();
    if !matches!(&r, Ok(g) if *g == want) {
        return Err(Fail { sig: Some("symmetry-group n=32 alternated negation".into()), msg: format!("generate_symmetry_group numbers the entries 1..4n in i8; at n = 32 generate_equivalence_class_fast gives {}", match r { Ok(g) => diff(&g, &want), Err(_) => "a panic".into() }) });
    }
    Ok(())
}
fn c13() -> Prop {
    Prop {
        id: "C13",
        subs: vec![
            Sub { name: "class", f: orbit_class, rule: "n > 1", params: mixed(6, vec![1, 2, 3, 4, 5, 6, 7]), quick: 8, thorough: 150 },
            Sub { name: "group", f: sym_full, rule: "n > 1", params: mixed(6, vec![1, 2, 3, 4, 5, 6, 7, 9]), quick: 3, thorough: 12 },
            Sub { name: "subgroup", f: sym_part, rule: "a group of more than one element, generated by random operations", params: mixed(15, (1..=31).collect()), quick: 40, thorough: 1000 },
            Sub { name: "expand", f: expand, rule: "more than one quadruple in the list", params: mixed(4, vec![1, 2, 3, 4, 5]), quick: 10, thorough: 200 },
            Sub { name: "length_32", f: c13_large, rule: "the one group of the known finding", params: vec![32], quick: 1, thorough: 1 },
        ],
        assumptions: vec!["lengths up to 31: the symbolic group numbers the 4n entries in i8 (known finding for 32)"],
    }
}
