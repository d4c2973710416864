//! Reference implementations, written from the definitions (paper / README), without
//! using any code of the repository. Sequences are +-1 vectors; quadruples are [W,X,Y,Z].
use std::collections::{BTreeSet, HashMap};

pub type Seq = Vec<i8>;
pub type Quad = [Seq; 4];

// ------------------------------------------------------------------ definitions

/// periodic autocorrelation: sum_i a_i a_{i+t}
pub fn paf(a: &[i8], t: usize) -> i64 {
    let n = a.len();
    (0..n).map(|i| a[i] as i64 * a[(i + t) % n] as i64).sum()
}
/// periodic cross correlation: sum_i a_i b_{i-t}
pub fn ccf(a: &[i8], b: &[i8], t: usize) -> i64 {
    let n = a.len();
    (0..n).map(|i| a[i] as i64 * b[(i + n - t % n) % n] as i64).sum()
}
pub fn sum(a: &[i8]) -> i64 {
    a.iter().map(|&x| x as i64).sum()
}
pub fn paf_zero(q: &Quad) -> bool {
    (1..q[0].len()).all(|t| q.iter().map(|s| paf(s, t)).sum::<i64>() == 0)
}
pub fn amicable(q: &Quad) -> bool {
    let n = q[0].len();
    (0..4).all(|i| (0..4).all(|j| (0..n).all(|t| ccf(&q[i], &q[j], t) == ccf(&q[j], &q[i], t))))
}
pub fn sym_seq(a: &[i8]) -> bool {
    let n = a.len();
    (1..n).all(|t| a[t] == a[n - t])
}
pub fn symmetric(q: &Quad) -> bool {
    q.iter().all(|s| sym_seq(s))
}
/// the three cross-correlation equations of a QT sequence
pub fn qt_cross(q: &Quad) -> bool {
    let n = q[0].len();
    let d = |i: usize, j: usize, t: usize| ccf(&q[i], &q[j], t) - ccf(&q[j], &q[i], t);
    (0..n).all(|t| d(0, 1, t) == d(3, 2, t) && d(0, 2, t) == d(1, 3, t) && d(0, 3, t) == d(2, 1, t))
}
pub fn is_qts(q: &Quad) -> bool {
    paf_zero(q) && qt_cross(q)
}
pub fn is_wts(q: &Quad) -> bool {
    paf_zero(q) && amicable(q)
}
pub fn is_ws(q: &Quad) -> bool {
    paf_zero(q) && symmetric(q)
}
pub fn is_type(q: &Quad, ty: Ty) -> bool {
    match ty {
        Ty::Qts => is_qts(q),
        Ty::Wts => is_wts(q),
        Ty::Ws => is_ws(q),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    Wts,
    Qts,
    Ws,
}
pub const TYPES: [Ty; 3] = [Ty::Wts, Ty::Qts, Ty::Ws];
impl Ty {
    pub fn s(self) -> &'static str {
        match self {
            Ty::Wts => "wts",
            Ty::Qts => "qts",
            Ty::Ws => "ws",
        }
    }
}

// ------------------------------------------------------------------ quaternions

/// doubled components (2s, 2i, 2j, 2k), so that the 24 units are integral
pub type Qd = [i64; 4];
/// product; the result is doubled again
pub fn qmul(a: Qd, b: Qd) -> Qd {
    let r = qmul4(a, b);
    r.map(|x| {
        assert!(x % 2 == 0);
        x / 2
    })
}
/// product of two doubled quaternions, i.e. 4 times the product
pub fn qmul4(a: Qd, b: Qd) -> Qd {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn qconj(a: Qd) -> Qd {
    [a[0], -a[1], -a[2], -a[3]]
}
pub fn qneg(a: Qd) -> Qd {
    a.map(|x| -x)
}
pub fn qadd(a: Qd, b: Qd) -> Qd {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
}
pub const LETTERS: &str = "+-iIjJkKqQxXyYzZsSuUvVwW";

pub fn letter_quat(c: char) -> Option<Qd> {
    let one: Qd = [2, 0, 0, 0];
    let i: Qd = [0, 2, 0, 0];
    let j: Qd = [0, 0, 2, 0];
    let k: Qd = [0, 0, 0, 2];
    let q: Qd = [1, 1, 1, 1];
    let s: Qd = [1, -1, -1, -1];
    Some(match c {
        '+' => one,
        '-' => qneg(one),
        'i' => i,
        'j' => j,
        'k' => k,
        'q' => q,
        'x' => qmul(q, i),
        'y' => qmul(q, j),
        'z' => qmul(q, k),
        's' => s,
        'u' => qmul(s, i),
        'v' => qmul(s, j),
        'w' => qmul(s, k),
        'I' | 'J' | 'K' | 'Q' | 'X' | 'Y' | 'Z' | 'S' | 'U' | 'V' | 'W' => qneg(letter_quat(c.to_ascii_lowercase())?),
        _ => return None,
    })
}
pub fn quat_letter(q: Qd) -> char {
    LETTERS.chars().find(|&c| letter_quat(c) == Some(q)).expect("unit quaternion")
}
/// the +-1 column (w,x,y,z) encoded by a quaternion of Q8 u qQ8
pub fn quat_col(q: Qd) -> Option<[i8; 4]> {
    let [s, i, j, k] = q;
    let v = [-s + i + j + k, -s - i + j - k, -s - i - j + k, -s + i - j - k];
    let mut r = [0i8; 4];
    for t in 0..4 {
        if v[t] != 2 && v[t] != -2 {
            return None;
        }
        r[t] = (v[t] / 2) as i8;
    }
    Some(r)
}
pub fn col_quat(c: [i8; 4]) -> Qd {
    let [w, x, y, z] = c.map(|v| v as i64);
    let r = [-(w + x + y + z), w - x - y + z, w + x - y - z, w - x + y - z];
    r.map(|v| {
        assert!(v % 2 == 0);
        v / 2
    })
}
pub fn decode(s: &str) -> Option<Quad> {
    let mut q: Quad = [vec![], vec![], vec![], vec![]];
    for c in s.chars() {
        let col = quat_col(letter_quat(c)?)?;
        for t in 0..4 {
            q[t].push(col[t]);
        }
    }
    Some(q)
}
pub fn quats(q: &Quad) -> Vec<Qd> {
    (0..q[0].len()).map(|i| col_quat([q[0][i], q[1][i], q[2][i], q[3][i]])).collect()
}
pub fn encode(q: &Quad) -> String {
    quats(q).into_iter().map(quat_letter).collect()
}
/// sum_i v_i conj(v_{i+t}), times 4
pub fn qpaf(v: &[Qd], t: usize) -> Qd {
    let n = v.len();
    (0..n).fold([0; 4], |a, i| qadd(a, qmul4(v[i], qconj(v[(i + t) % n]))))
}
pub fn perfect(v: &[Qd]) -> bool {
    (1..v.len()).all(|t| qpaf(v, t) == [0; 4])
}
/// odd periodic: entries that wrap around are negated
pub fn qopaf(v: &[Qd], t: usize) -> Qd {
    let n = v.len();
    (0..n).fold([0; 4], |a, i| {
        let p = qmul4(v[i], qconj(v[(i + t) % n]));
        qadd(a, if ((i + t) / n) % 2 == 1 { qneg(p) } else { p })
    })
}
pub fn odd_perfect(v: &[Qd]) -> bool {
    (1..v.len()).all(|t| qopaf(v, t) == [0; 4])
}

// ------------------------------------------------------------------ printing

pub fn pm_str(a: &[i8]) -> String {
    a.iter().map(|&x| if x == 1 { '+' } else if x == -1 { '-' } else { '?' }).collect()
}
pub fn quad_str(q: &Quad) -> String {
    q.iter().map(|s| pm_str(s)).collect::<Vec<_>>().join(" ")
}
pub fn parse_pm(s: &str) -> Option<Seq> {
    s.chars().map(|c| match c { '+' => Some(1), '-' => Some(-1), _ => None }).collect()
}

// ------------------------------------------------------------------ elementary operations

pub fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
pub fn units(n: usize) -> Vec<usize> {
    if n == 1 {
        return vec![1];
    }
    (1..n).filter(|&k| gcd(k, n) == 1).collect()
}
pub fn neg(a: &[i8]) -> Seq {
    a.iter().map(|x| -x).collect()
}
pub fn shift(a: &[i8], s: usize) -> Seq {
    let n = a.len();
    (0..n).map(|i| a[(i + s) % n]).collect()
}
pub fn automorph(a: &[i8], k: usize) -> Seq {
    let n = a.len();
    (0..n).map(|i| a[(i * k) % n]).collect()
}
pub fn altneg(a: &[i8]) -> Seq {
    a.iter().enumerate().map(|(i, x)| if i % 2 == 1 { -x } else { *x }).collect()
}
pub fn map4(q: &Quad, f: impl Fn(&[i8]) -> Seq) -> Quad {
    [f(&q[0]), f(&q[1]), f(&q[2]), f(&q[3])]
}
pub fn perms4() -> Vec<([usize; 4], i8)> {
    let mut v = vec![];
    for a in 0..4 {
        for b in 0..4 {
            for c in 0..4 {
                for d in 0..4 {
                    let p = [a, b, c, d];
                    let mut s = p;
                    s.sort();
                    if s == [0, 1, 2, 3] {
                        let mut inv = 0;
                        for i in 0..4 {
                            for j in i + 1..4 {
                                if p[i] > p[j] {
                                    inv += 1;
                                }
                            }
                        }
                        v.push((p, if inv % 2 == 0 { 1 } else { -1 }));
                    }
                }
            }
        }
    }
    v
}

/// One element of the equivalence group of a type.
#[derive(Clone, Debug)]
pub struct Elem {
    pub k: usize,
    pub s: usize,
    pub alt: bool,
    /// half shifts per sequence
    pub half: [bool; 4],
    pub neg: [bool; 4],
    pub perm: [usize; 4],
}
impl Elem {
    pub fn apply(&self, q: &Quad) -> Quad {
        let n = q[0].len();
        let q = map4(q, |a| {
            let a = automorph(a, self.k);
            let a = shift(&a, self.s);
            if self.alt { altneg(&a) } else { a }
        });
        let mut out: Quad = Default::default();
        for t in 0..4 {
            let mut a = q[self.perm[t]].clone();
            if self.half[t] {
                a = shift(&a, n / 2);
            }
            if self.neg[t] {
                a = neg(&a);
            }
            out[t] = a;
        }
        out
    }
}
/// every element of the equivalence group of a type at length n (with repetitions as maps)
pub fn group(n: usize, ty: Ty) -> Vec<Elem> {
    let mut v = vec![];
    let shifts: Vec<usize> = if ty == Ty::Ws { vec![0] } else { (0..n).collect() };
    let alts: Vec<bool> = if n % 2 == 0 { vec![false, true] } else { vec![false] };
    let halves: Vec<[bool; 4]> = masks().into_iter().filter(|m| {
        let c = m.iter().filter(|x| **x).count();
        if n % 2 == 1 { c == 0 } else { ty != Ty::Qts || c % 2 == 0 }
    }).collect();
    for k in units(n) {
        for &s in &shifts {
            for &alt in &alts {
                for half in &halves {
                    for ng in masks() {
                        for (perm, sg) in perms4() {
                            let c = ng.iter().filter(|x| **x).count();
                            let prod = if c % 2 == 0 { 1 } else { -1 };
                            if ty == Ty::Qts && sg * prod != 1 {
                                continue;
                            }
                            v.push(Elem { k, s, alt, half: *half, neg: ng, perm });
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn masks() -> Vec<[bool; 4]> {
    (0..16).map(|m| [m & 1 != 0, m & 2 != 0, m & 4 != 0, m & 8 != 0]).collect()
}

// ------------------------------------------------------------------ bit sequences

pub fn to_bits(a: &[i8]) -> u64 {
    // first entry most significant, +1 = 1: integer order = lexicographic order
    assert!(a.len() <= 64, "{} entries do not fit a word", a.len());
    a.iter().fold(0, |m, &x| (m << 1) | (x == 1) as u64)
}
pub fn from_bits(m: u64, n: usize) -> Seq {
    (0..n).map(|i| if m >> (n - 1 - i) & 1 == 1 { 1 } else { -1 }).collect()
}
fn full(n: usize) -> u64 {
    if n == 64 { !0 } else { (1u64 << n) - 1 }
}
fn rot(m: u64, n: usize, t: usize) -> u64 {
    // left shift by t: b_i = a_{i+t}
    let t = t % n;
    if t == 0 { m } else { ((m << t) | (m >> (n - t))) & full(n) }
}
fn bpaf(a: u64, n: usize, t: usize) -> i32 {
    n as i32 - 2 * (a ^ rot(a, n, t)).count_ones() as i32
}
fn baut(a: u64, n: usize, k: usize) -> u64 {
    let mut r = 0;
    for i in 0..n {
        r = (r << 1) | (a >> (n - 1 - (i * k) % n) & 1);
    }
    r
}
fn altmask(n: usize) -> u64 {
    (0..n).filter(|i| i % 2 == 1).map(|i| 1u64 << (n - 1 - i)).sum()
}

/// A complete invariant of an equivalence class: the least normal form over the group.
pub type Key = ([u64; 4], bool, u8);

pub fn class_key(q: &Quad, ty: Ty) -> Key {
    let n = q[0].len();
    let b: [u64; 4] = [to_bits(&q[0]), to_bits(&q[1]), to_bits(&q[2]), to_bits(&q[3])];
    class_key_bits(b, n, ty)
}
pub fn class_key_bits(b: [u64; 4], n: usize, ty: Ty) -> Key {
    let f = full(n);
    let am = altmask(n);
    let mut best: Option<([u64; 4], bool)> = None;
    let shifts = if ty == Ty::Ws { 1 } else { n };
    for k in units(n) {
        let bk = b.map(|x| baut(x, n, k));
        for s in 0..shifts {
            let bs = bk.map(|x| rot(x, n, s));
            for alt in 0..(if n % 2 == 0 { 2 } else { 1 }) {
                let ba = bs.map(|x| if alt == 1 { x ^ am } else { x });
                let nmask = if n % 2 == 1 { 1 } else { 16 };
                if ty == Ty::Qts {
                    for mask in 0..nmask as u32 {
                        if mask.count_ones() % 2 == 1 {
                            continue;
                        }
                        let mut v = [0u64; 4];
                        let mut par = false;
                        for t in 0..4 {
                            let mut x = if mask >> t & 1 == 1 { rot(ba[t], n, n / 2) } else { ba[t] };
                            if x >> (n - 1) & 1 == 1 {
                                x ^= f;
                                par = !par;
                            }
                            v[t] = x;
                        }
                        // insertion sort, counting transpositions
                        for i in 1..4 {
                            let mut j = i;
                            while j > 0 && v[j] < v[j - 1] {
                                v.swap(j, j - 1);
                                par = !par;
                                j -= 1;
                            }
                        }
                        if v[0] == v[1] || v[1] == v[2] || v[2] == v[3] {
                            par = false;
                        }
                        if best.map_or(true, |z| (v, par) < z) {
                            best = Some((v, par));
                        }
                    }
                } else {
                    // sequences are independent: minimise each over sign and half shift
                    let mut v = ba.map(|x| {
                        let norm = |y: u64| if y >> (n - 1) & 1 == 1 { y ^ f } else { y };
                        let a = norm(x);
                        if n % 2 == 0 { a.min(norm(rot(x, n, n / 2))) } else { a }
                    });
                    v.sort();
                    if best.map_or(true, |z| (v, false) < z) {
                        best = Some((v, false));
                    }
                }
            }
        }
    }
    let (v, p) = best.unwrap();
    (v, p, n as u8)
}
pub fn key_quad(k: &Key) -> Quad {
    let n = k.2 as usize;
    let mut q = [from_bits(k.0[0], n), from_bits(k.0[1], n), from_bits(k.0[2], n), from_bits(k.0[3], n)];
    if k.1 {
        q[3] = neg(&q[3]);
    }
    q
}

/// All classes of a type at length n, by exhaustive search (meet in the middle).
pub fn brute_classes(n: usize, ty: Ty) -> BTreeSet<Key> {
    match ty {
        Ty::Qts => brute_qts(n),
        _ => brute_wts(n, ty == Ty::Ws),
    }
}

fn pafvec(a: u64, n: usize) -> Vec<i8> {
    (1..=n / 2).map(|t| bpaf(a, n, t) as i8).collect()
}

fn brute_wts(n: usize, sym: bool) -> BTreeSet<Key> {
    let half = 1u64 << (n - 1);
    // first entries -1 (negation is free)
    let seqs: Vec<u64> = (0..half).filter(|&m| !sym || sym_seq(&from_bits(m, n))).collect();
    let pafs: Vec<Vec<i8>> = seqs.iter().map(|&m| pafvec(m, n)).collect();
    // amicable: ccf(a,b,t) = ccf(b,a,t)
    let bccf = |a: u64, b: u64, t: usize| n as i32 - 2 * (a ^ rot(b, n, n - t % n)).count_ones() as i32;
    let ami = |a: u64, b: u64| (1..=n / 2).all(|t| bccf(a, b, t) == bccf(b, a, t));
    let mut table: HashMap<Vec<i8>, Vec<(u32, u32)>> = HashMap::new();
    for i in 0..seqs.len() {
        for j in i..seqs.len() {
            if sym || ami(seqs[i], seqs[j]) {
                let key = (0..n / 2).map(|t| pafs[i][t] + pafs[j][t]).collect();
                table.entry(key).or_default().push((i as u32, j as u32));
            }
        }
    }
    let mut out = BTreeSet::new();
    let mut seen: std::collections::HashSet<[u64; 4]> = Default::default();
    for (k, l1) in &table {
        let c: Vec<i8> = k.iter().map(|x| -x).collect();
        if let Some(l2) = table.get(&c) {
            for &(i, j) in l1 {
                for &(u, v) in l2 {
                    if j > u {
                        continue; // sorted quadruples suffice: any order is equivalent
                    }
                    let (a, b, d, e) = (seqs[i as usize], seqs[j as usize], seqs[u as usize], seqs[v as usize]);
                    if sym || (ami(a, d) && ami(a, e) && ami(b, d) && ami(b, e)) {
                        if seen.insert([a, b, d, e]) {
                            out.insert(class_key_bits([a, b, d, e], n, if sym { Ty::Ws } else { Ty::Wts }));
                        }
                    }
                }
            }
        }
    }
    out
}

fn brute_qts(n: usize) -> BTreeSet<Key> {
    let half = 1u64 << (n - 1);
    let f = full(n);
    let bccf = |a: u64, b: u64, t: usize| n as i32 - 2 * (a ^ rot(b, n, n - t % n)).count_ones() as i32;
    let d = |a: u64, b: u64, t: usize| (bccf(a, b, t) - bccf(b, a, t)) as i16;
    let pafs: Vec<Vec<i8>> = (0..half).map(|m| pafvec(m, n)).collect();
    // up to an even number of negations, three first entries are -1
    let key12 = |w: u64, x: u64| -> Vec<i16> {
        let mut k: Vec<i16> = (0..n / 2).map(|t| pafs[w as usize][t] as i16 + pafs[x as usize][t] as i16).collect();
        k.extend((1..=n / 2).map(|t| d(w, x, t)));
        k
    };
    let mut table: HashMap<Vec<i16>, Vec<(u64, u64)>> = HashMap::new();
    for w in 0..half {
        for x in 0..half {
            table.entry(key12(w, x)).or_default().push((w, x));
        }
    }
    let mut out = BTreeSet::new();
    for y in 0..half {
        for z0 in 0..half {
            for sgn in 0..2 {
                let z = if sgn == 1 { z0 ^ f } else { z0 };
                // paf(y)+paf(z) = -(..), d(w,x) = d(z,y)
                let mut k: Vec<i16> = (0..n / 2).map(|t| -(pafs[y as usize][t] as i16 + pafs[z0 as usize][t] as i16)).collect();
                k.extend((1..=n / 2).map(|t| d(z, y, t)));
                if let Some(l) = table.get(&k) {
                    for &(w, x) in l {
                        if (1..=n / 2).all(|t| d(w, y, t) == d(x, z, t) && d(w, z, t) == d(y, x, t)) {
                            out.insert(class_key_bits([w, x, y, z], n, Ty::Qts));
                        }
                    }
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------ matrices

/// the 4n x 4n block matrix of a quadruple
pub fn block_hadamard(q: &Quad) -> Vec<Vec<i8>> {
    let n = q[0].len();
    let circ = |a: &Seq, r: usize, c: usize| a[(c + n - r) % n];
    // block rows: (W X Y Z), (X -W -Z Y), (Y Z -W -X), (Z -Y X -W)
    let lay: [[(usize, i8); 4]; 4] = [
        [(0, 1), (1, 1), (2, 1), (3, 1)],
        [(1, 1), (0, -1), (3, -1), (2, 1)],
        [(2, 1), (3, 1), (0, -1), (1, -1)],
        [(3, 1), (2, -1), (1, 1), (0, -1)],
    ];
    let mut m = vec![vec![0i8; 4 * n]; 4 * n];
    for br in 0..4 {
        for bc in 0..4 {
            let (t, s) = lay[br][bc];
            for r in 0..n {
                for c in 0..n {
                    m[br * n + r][bc * n + c] = s * circ(&q[t], r, c);
                }
            }
        }
    }
    m
}
pub fn is_hadamard(m: &[Vec<i8>]) -> bool {
    let n = m.len();
    m.iter().all(|r| r.len() == n && r.iter().all(|&x| x == 1 || x == -1))
        && (0..n).all(|a| (a + 1..n).all(|b| (0..n).map(|i| m[a][i] as i64 * m[b][i] as i64).sum::<i64>() == 0))
}

/// A strong invariant of Hadamard equivalence: the sorted multiset of 4-row profiles
/// |sum_c h_ac h_bc h_cc h_dc|, as a histogram, for rows and for columns. (Not complete.)
pub fn had_profile(m: &[Vec<i8>]) -> Vec<(i64, u64)> {
    let n = m.len();
    assert!(n <= 128, "profile of a matrix of order over 128");
    let rows: Vec<u128> = m.iter().map(|r| r.iter().fold(0u128, |a, &x| (a << 1) | (x == 1) as u128)).collect();
    let mut h: std::collections::BTreeMap<i64, u64> = Default::default();
    for a in 0..n {
        for b in a + 1..n {
            let ab = rows[a] ^ rows[b];
            for c in b + 1..n {
                let abc = ab ^ rows[c];
                for d in c + 1..n {
                    let p = n as i64 - 2 * (abc ^ rows[d]).count_ones() as i64;
                    *h.entry(p.abs()).or_insert(0) += 1;
                }
            }
        }
    }
    h.into_iter().collect()
}
