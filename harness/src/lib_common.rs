//! Shared by the checks that call the library: conversions and generators.
use super::kit::refs::*;
pub use super::kit::data::rand_elem;
use super::kit::*;
use qs::verif_hooks::symmetries::SequenceType;
use qs::verif_hooks::williamson::QuadSeq;
use std::collections::HashMap;
use std::sync::Mutex;

pub fn st(ty: Ty) -> SequenceType {
    match ty {
        Ty::Wts => SequenceType::WilliamsonType,
        Ty::Qts => SequenceType::QuaternionType,
        Ty::Ws => SequenceType::Williamson,
    }
}
pub fn to_qs4(q: &Quad) -> QuadSeq {
    let mut r = QuadSeq::new(q[0].len());
    r.set_all_values((&q[0], &q[1], &q[2], &q[3]));
    r
}
pub fn of_qs4(q: &QuadSeq) -> Quad {
    let (a, b, c, d) = q.sequences();
    [a, b, c, d]
}
pub fn rand_quad(s: &mut Src, n: usize) -> Quad {
    [s.pm(n), s.pm(n), s.pm(n), s.pm(n)]
}
/// a quadruple in which sequences repeat, up to sign, more often than by chance
pub fn lumpy_quad(s: &mut Src, n: usize) -> Quad {
    let mut q = rand_quad(s, n);
    for t in 1..4 {
        match s.below(6) {
            0 => q[t] = q[t - 1].clone(),
            1 => q[t] = neg(&q[t - 1]),
            2 => q[t] = q[0].clone(),
            3 => {
                let k = s.below(n);
                q[t] = q[t - 1].clone();
                q[t][k] = -q[t][k];
            }
            _ => {}
        }
    }
    q
}

/// representatives of the known classes of a type at length n
pub fn reps(n: usize, ty: Ty) -> Vec<Quad> {
    static CACHE: Mutex<Option<HashMap<(usize, Ty), Vec<Quad>>>> = Mutex::new(None);
    let mut g = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    m.entry((n, ty)).or_insert_with(|| {
        let brute = match ty {
            Ty::Ws => n <= 21,
            Ty::Wts => n <= 9,
            Ty::Qts => n <= 8,
        };
        if brute {
            brute_classes(n, ty).iter().map(key_quad).collect()
        } else {
            data::quads(n, ty)
        }
    }).clone()
}
/// a valid quadruple of a type: a random member of a random known class
pub fn valid(s: &mut Src, n: usize, ty: Ty) -> Option<Quad> {
    let r = reps(n, ty);
    if r.is_empty() {
        return None;
    }
    let q = s.pick(&r).clone();
    let e = rand_elem(s, n, ty);
    Some(e.apply(&q))
}
/// a valid quadruple of any type that is known at this length
pub fn any_valid(s: &mut Src, n: usize) -> (Quad, Ty) {
    let have: Vec<Ty> = TYPES.iter().copied().filter(|t| !reps(n, *t).is_empty()).collect();
    let t = *s.pick(&have);
    (valid(s, n, t).unwrap(), t)
}
/// destroys or keeps validity in one of the ways a wrong operation would
pub fn mutate(s: &mut Src, q: &Quad) -> (Quad, &'static str) {
    let n = q[0].len();
    let mut r = q.clone();
    let t = s.below(4);
    let name = match s.below(10) {
        0 => {
            let i = s.below(n);
            r[t][i] = -r[t][i];
            "one entry negated"
        }
        1 => {
            r[t] = neg(&r[t]);
            "one sequence negated"
        }
        2 => {
            r.swap(t, (t + 1 + s.below(3)) % 4);
            "two sequences swapped"
        }
        3 => {
            r[t] = shift(&r[t], s.below(n));
            "one sequence shifted"
        }
        4 => {
            let k = *s.pick(&units(n));
            r[t] = automorph(&r[t], k);
            "automorphism of one sequence"
        }
        5 => {
            r[t].reverse();
            "one sequence reversed"
        }
        6 => {
            r = map4(&r, altneg);
            "alternated negation"
        }
        7 => {
            let (i, j) = (s.below(n), s.below(n));
            r[t].swap(i, j);
            "two entries of one sequence swapped"
        }
        8 => {
            let (i, j) = (s.below(n), s.below(n));
            for t in 0..4 {
                r[t].swap(i, j);
            }
            "two columns swapped"
        }
        _ => {
            let u = (t + 1 + s.below(3)) % 4;
            r[t] = r[u].clone();
            "one sequence repeated"
        }
    };
    (r, name)
}
