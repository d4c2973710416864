//! Known valid quadruples (checked against the definitions when loaded): the published
//! lists of /repo/wts-results and Williamson quadruples found by an independent search.
use super::engine::Src;
use super::refs::*;

static TEXT: &str = include_str!("../../data/quads.txt");

/// quadruples of length n that are valid of the type, one per listed class
pub fn quads(n: usize, ty: Ty) -> Vec<Quad> {
    listed(n).into_iter().filter(|q| is_type(q, ty)).collect()
}
pub fn listed(n: usize) -> Vec<Quad> {
    if n > 33 {
        return built(n);
    }
    TEXT.lines().filter_map(|l| {
        let mut p = l.split(' ');
        let _kind = p.next()?;
        let m: usize = p.next()?.parse().ok()?;
        if m != n {
            return None;
        }
        decode(p.next()?)
    }).collect()
}
/// the published classes of length n ("wts": Williamson-type, "qts": QT)
pub fn published(n: usize, kind: &str) -> Vec<Quad> {
    TEXT.lines().filter_map(|l| {
        let mut p = l.split(' ');
        let k = p.next()?;
        let m: usize = p.next()?.parse().ok()?;
        if m != n || k != kind {
            return None;
        }
        decode(p.next()?)
    }).collect()
}

/// lengths from 34 to 100 at which `built` has quadruples
pub const LARGE: [usize; 34] = [34, 36, 37, 38, 42, 44, 45, 46, 49, 50, 51, 52, 54, 55, 57, 58, 60, 62, 66, 68, 69, 74, 75, 76, 79, 84, 87, 90, 91, 92, 97, 98, 99, 100];
/// whether a valid quadruple of the length is known
pub fn have(n: usize) -> bool {
    n <= 33 || LARGE.contains(&n)
}
/// all lengths up to 33 and the large ones, as parameters
pub fn lengths(from: usize) -> Vec<i64> {
    (from..=33).chain(LARGE).filter(|n| *n >= from).map(|n| n as i64).collect()
}

/// valid quadruples of lengths beyond the lists: Turyn's from a symmetric conference matrix,
/// interleavings of two pairs of Williamson sequences of odd length, and products with the
/// perfect sequence + - + + of length 4. Each is kept only if it satisfies the definition.
pub fn built(n: usize) -> Vec<Quad> {
    let mut out: Vec<Quad> = vec![];
    if let Some(q) = turyn(n) {
        out.push(q);
    }
    if n % 4 == 2 {
        for q in half_list(n / 2) {
            out.push(interleave(&q));
        }
    }
    if n % 8 == 4 {
        for q in half_list(n / 4) {
            let b = [1i8, 1, -1, 1];
            out.push([0, 1, 2, 3].map(|t| (0..n).map(|i| b[i % 4] * q[t][i % (n / 4)]).collect()));
        }
    }
    out.retain(|q| is_type(q, Ty::Qts));
    out.truncate(8);
    out
}
fn half_list(m: usize) -> Vec<Quad> {
    if m > 33 { turyn(m).into_iter().collect() } else { listed(m).into_iter().rev().take(8).collect() }
}
fn interleave(q: &Quad) -> Quad {
    let m = q[0].len();
    let weave = |a: &[i8], b: &[i8], s: i8| -> Vec<i8> { (0..2 * m).map(|i| if i % 2 == 0 { s * a[i / 2] } else { b[(i / 2 + m / 2 + 1) % m] }).collect() };
    [weave(&q[0], &q[1], 1), weave(&q[0], &q[1], -1), weave(&q[2], &q[3], 1), weave(&q[2], &q[3], -1)]
}
/// A = X + I, B = X - I, C = D = Y for the conference matrix (X Y; Y -X) of order 2n = p + 1
fn turyn(n: usize) -> Option<Quad> {
    let p = (2 * n - 1) as i64;
    if n < 3 || p % 4 != 1 || (2..p).take_while(|d| d * d <= p).any(|d| p % d == 0) {
        return None;
    }
    let mut chi = vec![-1i8; p as usize];
    chi[0] = 0;
    for x in 1..p {
        chi[(x * x % p) as usize] = 1;
    }
    let d = (2..p).find(|d| chi[*d as usize] == -1)?;
    let mul = |a: (i64, i64), b: (i64, i64)| ((a.0 * b.0 + d * (a.1 * b.1 % p)) % p, (a.0 * b.1 + a.1 * b.0) % p);
    let order = |e: (i64, i64)| {
        let (mut x, mut k) = (e, 1i64);
        while x != (1, 0) {
            x = mul(x, e);
            k += 1;
        }
        k
    };
    let eta = (1..p).map(|a| (a, 1)).find(|e| order(*e) == p * p - 1)?;
    let w = mul(mul(eta, eta), mul(eta, eta));
    let (mut x, mut y, mut e) = (vec![], vec![], (1i64, 0i64));
    for _ in 0..n {
        x.push(chi[e.1 as usize]);
        y.push(chi[mul(e, eta).1 as usize]);
        e = mul(e, w);
    }
    let s = (0..n).find(|s| (0..n).all(|i| y[(s + i) % n] == y[(s + n - i) % n]))?;
    let y: Vec<i8> = (0..n).map(|i| y[(s + i) % n]).collect();
    let (mut a, mut b) = (x.clone(), x);
    a[0] = 1;
    b[0] = -1;
    Some([a, b, y.clone(), y])
}

/// a random operation of the equivalence of a type
pub fn rand_elem(s: &mut Src, n: usize, ty: Ty) -> Elem {
    let mut e = Elem { k: 1, s: 0, alt: false, half: [false; 4], neg: [false; 4], perm: [0, 1, 2, 3] };
    e.k = *s.pick(&units(n));
    if ty != Ty::Ws {
        e.s = s.below(n);
    }
    if n % 2 == 0 {
        e.alt = s.bool();
        let m: Vec<[bool; 4]> = masks().into_iter().filter(|m| ty != Ty::Qts || m.iter().filter(|x| **x).count() % 2 == 0).collect();
        e.half = *s.pick(&m);
    }
    let (p, sg) = *s.pick(&perms4());
    e.perm = p;
    e.neg = *s.pick(&masks());
    if ty == Ty::Qts {
        let c = e.neg.iter().filter(|x| **x).count();
        let prod = if c % 2 == 0 { 1 } else { -1 };
        if sg * prod != 1 {
            e.neg[3] = !e.neg[3];
        }
    }
    e
}
