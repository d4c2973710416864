//! Matrices: reading the printed forms, equivalence and normal forms.
use super::refs::*;
use super::*;
use crate::ensure;
use std::collections::BTreeSet;

pub fn parse_mat(l: &str) -> Option<Vec<Vec<i8>>> {
    let s = l.strip_prefix("M := Matrix([")?.strip_suffix("]);")?;
    let s = s.strip_prefix('[')?.strip_suffix(']')?;
    s.split("],[").map(|r| r.split(',').map(|x| match x { "1" => Some(1), "-1" => Some(-1), _ => None }).collect()).collect()
}
/// canonical labelling of my own graph encoding (with hub vertices, no loops)
pub fn had_canon(m: &[Vec<i8>]) -> graph_canon::CanonLabeling {
    let n = m.len();
    let mut g: petgraph::Graph<i32, i32, petgraph::Undirected> = petgraph::Graph::new_undirected();
    let v: Vec<_> = (0..4 * n + 2).map(|_| g.add_node(0)).collect();
    let (rp, rm, cp, cm) = (|i: usize| i, |i: usize| n + i, |i: usize| 2 * n + i, |i: usize| 3 * n + i);
    let (hub, tail) = (4 * n, 4 * n + 1);
    g.add_edge(v[hub], v[tail], 0);
    for i in 0..n {
        g.add_edge(v[rp(i)], v[rm(i)], 0);
        g.add_edge(v[cp(i)], v[cm(i)], 0);
        g.add_edge(v[hub], v[rp(i)], 0);
        g.add_edge(v[hub], v[rm(i)], 0);
        for j in 0..n {
            if m[i][j] == 1 {
                g.add_edge(v[rp(i)], v[cp(j)], 0);
                g.add_edge(v[rm(i)], v[cm(j)], 0);
            } else {
                g.add_edge(v[rp(i)], v[cm(j)], 0);
                g.add_edge(v[rm(i)], v[cp(j)], 0);
            }
        }
    }
    graph_canon::CanonLabeling::new(&g)
}
pub fn qhm_blocks(text: &str, n: usize) -> Result<Vec<Vec<Vec<Qd>>>, Fail> {
    let mut rows = vec![];
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() {
            continue;
        }
        let s: Option<Vec<Qd>> = l.strip_prefix("| ").and_then(|x| x.strip_suffix(" |")).and_then(|x| x.split(' ').map(|w| if w.len() == 1 { letter_quat(w.chars().next().unwrap()) } else { None }).collect());
        match s {
            Some(r) if r.len() == n => rows.push(r),
            _ => return Err(format!("line {:?} is not a row of {} quaternions", l, n).into()),
        }
    }
    ensure!(rows.len() % n == 0, "{} rows for matrices of order {}", rows.len(), n);
    Ok(rows.chunks(n).map(|c| c.to_vec()).collect())
}
pub fn normal_qhm(q: &Quad) -> Vec<Vec<Qd>> {
    let v = quats(q);
    let n = v.len();
    let m = |r: usize, c: usize| v[(c + n - r) % n];
    // rows and columns multiplied by units so that the first row and column are 1
    let col = |r: usize, c: usize| qmul(m(r, c), qconj(m(0, c)));
    (0..n).map(|r| (0..n).map(|c| qmul(qconj(col(r, 0)), col(r, c))).collect()).collect()
}
pub fn same_up_to_conjugation(a: &[Vec<Qd>], b: &[Vec<Qd>]) -> bool {
    LETTERS.chars().any(|u| {
        let u = letter_quat(u).unwrap();
        a.iter().zip(b).all(|(x, y)| x.iter().zip(y).all(|(p, q)| qmul(qmul(u, *p), qconj(u)) == *q))
    })
}
pub fn is_normal_qhm(m: &[Vec<Qd>]) -> Result<(), String> {
    let n = m.len();
    for i in 0..n {
        if m[0][i] != [2, 0, 0, 0] || m[i][0] != [2, 0, 0, 0] {
            return Err("first row or column is not 1".into());
        }
    }
    for a in 0..n {
        for b in 0..n {
            let s = (0..n).fold([0; 4], |s, i| qadd(s, qmul4(m[a][i], qconj(m[b][i]))));
            if s != (if a == b { [4 * n as i64, 0, 0, 0] } else { [0; 4] }) {
                return Err(format!("rows {} and {} have inner product {:?}/4", a, b, s));
            }
        }
    }
    Ok(())
}
pub fn noncommuting(m: &[Vec<Qd>]) -> bool {
    let e: BTreeSet<Qd> = m.iter().flatten().copied().collect();
    e.iter().any(|a| e.iter().any(|b| qmul4(*a, *b) != qmul4(*b, *a)))
}

/// Decides Hadamard equivalence exactly, by backtracking over images of the rows; for
/// small orders.
pub fn had_equivalent(h: &[Vec<i8>], k: &[Vec<i8>]) -> bool {
    let n = h.len();
    if n != k.len() {
        return false;
    }
    // rows of k normalised so that row 0 is all 1
    let bits = |m: &[Vec<i8>], base: usize| -> Vec<u64> { m.iter().map(|r| (0..n).fold(0u64, |a, c| a << 1 | (r[c] * m[base][c] == 1) as u64)).collect() };
    let kb = bits(k, 0);
    let full = if n == 64 { !0 } else { (1u64 << n) - 1 };
    for base in 0..n {
        let hb = bits(h, base);
        // cells: (columns of h, columns of k) that agree on the rows matched so far
        if extend(&hb, &kb, 1 << base, 1, &vec![(full, full)], full) {
            return true;
        }
    }
    false
}
fn extend(h: &[u64], k: &[u64], used: u64, depth: usize, cells: &Vec<(u64, u64)>, full: u64) -> bool {
    let n = h.len();
    if depth == n {
        return true;
    }
    for r in 0..n {
        if used >> r & 1 == 1 {
            continue;
        }
        for sg in 0..2 {
            let x = if sg == 1 { !h[r] & full } else { h[r] };
            let y = k[depth];
            if cells.iter().any(|(a, b)| (a & x).count_ones() != (b & y).count_ones()) {
                continue;
            }
            let mut next = Vec::with_capacity(cells.len() * 2);
            for (a, b) in cells {
                if a & x != 0 {
                    next.push((a & x, b & y));
                }
                if a & !x != 0 {
                    next.push((a & !x, b & !y));
                }
            }
            if extend(h, k, used | 1 << r, depth + 1, &next, full) {
                return true;
            }
        }
    }
    false
}
pub fn transposed(m: &[Vec<i8>]) -> Vec<Vec<i8>> {
    let n = m.len();
    (0..n).map(|i| (0..n).map(|j| m[j][i]).collect()).collect()
}
/// Sylvester's matrix of order 2^e
pub fn sylvester(e: u32) -> Vec<Vec<i8>> {
    let n = 1usize << e;
    (0..n).map(|i| (0..n).map(|j| if (i & j).count_ones() % 2 == 0 { 1 } else { -1 }).collect()).collect()
}
/// Paley's matrix of order p + 1, for a prime p = 3 mod 4
pub fn paley(p: usize) -> Vec<Vec<i8>> {
    let chi = |x: usize| -> i8 {
        if x == 0 { 0 } else if (1..p).any(|y| y * y % p == x) { 1 } else { -1 }
    };
    let n = p + 1;
    let mut m = vec![vec![1i8; n]; n];
    for i in 0..p {
        for j in 0..p {
            m[i + 1][j + 1] = if i == j { -1 } else { chi((j + p - i) % p) };
        }
    }
    m
}
/// four rows whose product is constant: negates them on one of the four kinds of columns
/// (keeps the matrix Hadamard, usually changes its class); None if they are not such rows
pub fn switch_rows(m: &[Vec<i8>], rows: [usize; 4], kind: usize) -> Option<Vec<Vec<i8>>> {
    let n = m.len();
    let prod = |c: usize| rows.iter().map(|r| m[*r][c]).product::<i8>();
    if (1..n).any(|c| prod(c) != prod(0)) {
        return None;
    }
    let mut r = m.to_vec();
    for c in 0..n {
        let k = (m[rows[0]][c] * m[rows[1]][c] == 1) as usize + 2 * (m[rows[0]][c] * m[rows[2]][c] == 1) as usize;
        if k == kind {
            for x in rows {
                r[x][c] = -r[x][c];
            }
        }
    }
    Some(r)
}
