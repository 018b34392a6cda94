//! Lattice oracles: successive minima, Niggli definition, Bravais types,
//! lattice characters, and generators of special lattices.

use crate::crystal::minkowski;
use crate::gen::from_params;
use crate::la::*;
use crate::rng::Rng;

/// Lattice vectors with coefficients -2..2 in a Minkowski basis, one of each
/// +/- pair, sorted by length: (coefficients in the given basis, |v|^2).
pub fn short_vectors(lat: &M) -> Vec<([i64; 3], f64)> {
    let u = minkowski(lat);
    let b = mul(lat, &f(&u));
    let mut out = vec![];
    for i in -2i64..=2 {
        for j in -2i64..=2 {
            for k in -2i64..=2 {
                if (i, j, k) <= (0, 0, 0) {
                    continue;
                }
                let v = mv(&b, &[i as f64, j as f64, k as f64]);
                let c = [
                    u[0][0] * i + u[0][1] * j + u[0][2] * k,
                    u[1][0] * i + u[1][1] * j + u[1][2] * k,
                    u[2][0] * i + u[2][1] * j + u[2][2] * k,
                ];
                out.push((c, dot(&v, &v)));
            }
        }
    }
    out.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
    out
}

/// Length of the shortest lattice vector.
pub fn shortest(lat: &M) -> f64 {
    let r = mul(lat, &f(&minkowski(lat)));
    (0..3).map(|i| norm(&col(&r, i))).fold(f64::INFINITY, f64::min)
}

/// Every two relevant squared lengths are either equal (to rounding) or
/// clearly different, so no tolerance decides between two answers.
pub fn well_separated(lat: &M) -> bool {
    let v = det(lat).abs().cbrt();
    separated(lat, 40.0 * 1e-5 * v, 2e-4)
}

/// The same with an absolute gap only.
pub fn separated_by(lat: &M, gap: f64) -> bool {
    separated(lat, gap, 0.0)
}

fn separated(lat: &M, gap: f64, rel: f64) -> bool {
    let sv = short_vectors(lat);
    let u = minkowski(lat);
    let g = metric(&mul(lat, &f(&u)));
    let cmax = g[0][0].max(g[1][1]).max(g[2][2]);
    let lim = 4.2 * cmax;
    for w in sv.windows(2) {
        if w[1].1 > lim {
            break;
        }
        let d = w[1].1 - w[0].1;
        if d > 1e-10 * cmax && d < gap.max(rel * w[0].1) {
            return false;
        }
    }
    true
}

/// (A, B, C, xi, eta, zeta) of a metric.
pub fn six(g: &M) -> [f64; 6] {
    [g[0][0], g[1][1], g[2][2], 2.0 * g[1][2], 2.0 * g[0][2], 2.0 * g[0][1]]
}

/// Niggli conditions (International Tables A, 9.2.2) with slack `e`;
/// equalities are recognised within `e`.
pub fn niggli_violation(g: &M, e: f64) -> Option<String> {
    let [a, b, c, xi, eta, zeta] = six(g);
    let le = |x: f64, y: f64| x <= y + 2.0 * e;
    let eq = |x: f64, y: f64| (x - y).abs() <= 0.5 * e;
    let bad = |s: &str| Some(format!("{s}; metric six = {:?}", six(g)));
    if ![a, b, c, xi, eta, zeta].iter().all(|x| x.is_finite()) {
        return bad("not finite");
    }
    if !le(a, b) || !le(b, c) {
        return bad("A <= B <= C fails");
    }
    let (x, y, z) = (xi.abs(), eta.abs(), zeta.abs());
    if !le(x, b) || !le(y, a) || !le(z, a) {
        return bad("|xi| <= B, |eta| <= A, |zeta| <= A fails");
    }
    let pos = xi > e && eta > e && zeta > e;
    let nonpos = xi <= 2.0 * e && eta <= 2.0 * e && zeta <= 2.0 * e;
    if !pos && !nonpos {
        return bad("angles are neither all acute nor all non-acute");
    }
    if eq(a, b) && !le(x, y) {
        return bad("A = B but |xi| > |eta|");
    }
    if eq(b, c) && !le(y, z) {
        return bad("B = C but |eta| > |zeta|");
    }
    if pos {
        if eq(xi, b) && !le(zeta, 2.0 * eta) {
            return bad("xi = B but zeta > 2 eta");
        }
        if eq(eta, a) && !le(zeta, 2.0 * xi) {
            return bad("eta = A but zeta > 2 xi");
        }
        if eq(zeta, a) && !le(eta, 2.0 * xi) {
            return bad("zeta = A but eta > 2 xi");
        }
    } else {
        if !le(x + y + z, a + b) {
            return bad("|xi|+|eta|+|zeta| > A+B");
        }
        if eq(x, b) && z > 2.0 * e {
            return bad("|xi| = B but zeta != 0");
        }
        if eq(y, a) && z > 2.0 * e {
            return bad("|eta| = A but zeta != 0");
        }
        if eq(z, a) && y > 2.0 * e {
            return bad("|zeta| = A but eta != 0");
        }
        if eq(x + y + z, a + b) && !le(a, y + z / 2.0) {
            return bad("|xi|+|eta|+|zeta| = A+B but A > |eta| + |zeta|/2");
        }
    }
    None
}

/// The Niggli metric found by exhaustive search over short bases.
pub fn niggli_oracle(lat: &M) -> Option<M> {
    let sv = short_vectors(lat);
    let u = minkowski(lat);
    let g = metric(&mul(lat, &f(&u)));
    let cmax = g[0][0].max(g[1][1]).max(g[2][2]);
    let e = 1e-8 * cmax;
    let mut d = [g[0][0], g[1][1], g[2][2]];
    d.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let sel = |l: f64| -> Vec<[i64; 3]> {
        sv.iter().filter(|v| (v.1 - l).abs() < 1e-9 * cmax).map(|v| v.0).collect()
    };
    let (s0, s1, s2) = (sel(d[0]), sel(d[1]), sel(d[2]));
    for a in &s0 {
        for b in &s1 {
            for c in &s2 {
                for s in 0..4 {
                    let (sb, sc) = (1 - 2 * (s & 1), 1 - 2 * (s >> 1));
                    let m: IM = [
                        [a[0], sb * b[0], sc * c[0]],
                        [a[1], sb * b[1], sc * c[1]],
                        [a[2], sb * b[2], sc * c[2]],
                    ];
                    if idet(&m).abs() != 1 {
                        continue;
                    }
                    let gm = metric(&mul(lat, &f(&m)));
                    if niggli_violation(&gm, e).is_none() {
                        return Some(gm);
                    }
                }
            }
        }
    }
    None
}

/// Lattice character (International Tables A, table 9.2.5.1) of a Niggli
/// metric.  Used for coverage reporting and to judge the built-in tables.
pub fn character(g: &M) -> u8 {
    let [a, b, c, xi, eta, zeta] = six(g);
    let (d, e, f) = (xi / 2.0, eta / 2.0, zeta / 2.0);
    let ep = 1e-7 * c;
    let q = |x: f64, y: f64| (x - y).abs() <= ep;
    let is = |x: f64, y: f64, z: f64| q(d, x) && q(e, y) && q(f, z);
    let pos = d > ep && e > ep && f > ep;
    let star = q(2.0 * (d + e + f).abs(), a + b);
    if q(a, b) && q(b, c) {
        if pos {
            if is(a / 2.0, a / 2.0, a / 2.0) {
                return 1;
            }
            if is(d, d, d) {
                return 2;
            }
        } else {
            if is(0.0, 0.0, 0.0) {
                return 3;
            }
            if is(-a / 3.0, -a / 3.0, -a / 3.0) {
                return 5;
            }
            if is(d, d, d) {
                return 4;
            }
            if star && is(d, d, f) {
                return 6;
            }
            if star && is(d, e, e) {
                return 7;
            }
            if star {
                return 8;
            }
        }
    }
    if q(a, b) {
        if pos {
            if is(a / 2.0, a / 2.0, a / 2.0) {
                return 9;
            }
            if is(d, d, f) {
                return 10;
            }
        } else {
            if is(0.0, 0.0, 0.0) {
                return 11;
            }
            if is(0.0, 0.0, -a / 2.0) {
                return 12;
            }
            if is(0.0, 0.0, f) {
                return 13;
            }
            if is(-a / 2.0, -a / 2.0, 0.0) {
                return 15;
            }
            if is(d, d, f) {
                return if star { 16 } else { 14 };
            }
            if star {
                return 17;
            }
        }
    }
    if q(b, c) {
        if pos {
            if is(a / 4.0, a / 2.0, a / 2.0) {
                return 18;
            }
            if is(d, a / 2.0, a / 2.0) {
                return 19;
            }
            if is(d, e, e) {
                return 20;
            }
        } else {
            if is(0.0, 0.0, 0.0) {
                return 21;
            }
            if is(-b / 2.0, 0.0, 0.0) {
                return 22;
            }
            if is(d, 0.0, 0.0) {
                return 23;
            }
            if star && is(d, -a / 3.0, -a / 3.0) {
                return 24;
            }
            if is(d, e, e) {
                return 25;
            }
        }
    }
    if pos {
        if is(a / 4.0, a / 2.0, a / 2.0) {
            return 26;
        }
        if is(d, a / 2.0, a / 2.0) {
            return 27;
        }
        if is(d, a / 2.0, 2.0 * d) {
            return 28;
        }
        if is(d, 2.0 * d, a / 2.0) {
            return 29;
        }
        if is(b / 2.0, e, 2.0 * e) {
            return 30;
        }
        return 31;
    }
    if is(0.0, 0.0, 0.0) {
        return 32;
    }
    if is(-b / 2.0, 0.0, 0.0) {
        return 40;
    }
    if is(d, 0.0, 0.0) {
        return 35;
    }
    if is(0.0, -a / 2.0, 0.0) {
        return 36;
    }
    if is(0.0, e, 0.0) {
        return 33;
    }
    if is(0.0, 0.0, -a / 2.0) {
        return 38;
    }
    if is(0.0, 0.0, f) {
        return 34;
    }
    if is(-b / 2.0, -a / 2.0, 0.0) {
        return 42;
    }
    if is(-b / 2.0, e, 0.0) {
        return 41;
    }
    if is(d, -a / 2.0, 0.0) {
        return 37;
    }
    if is(d, 0.0, -a / 2.0) {
        return 39;
    }
    if star && q((2.0 * d + f).abs(), b) {
        return 43;
    }
    44
}

/// Bravais type of each character (International Tables A, table 9.2.5.1).
/// Character 43 is centred monoclinic in its I setting.
pub const CHAR_BRAVAIS: [&str; 44] = [
    "cF", "hR", "cP", "hR", "cI", "tI", "tI", "oI", "hR", "mC", "tP", "hP", "oC", "mC", "tI", "oF",
    "mC", "tI", "oI", "mC", "tP", "hP", "oC", "hR", "mC", "oF", "mC", "mC", "mC", "mC", "aP", "oP",
    "mP", "mP", "mP", "oC", "mC", "oC", "mC", "oC", "mC", "oI", "mI", "aP",
];

pub const BRAVAIS: [&str; 14] =
    ["aP", "mP", "mC", "oP", "oC", "oI", "oF", "tP", "tI", "hR", "hP", "cP", "cI", "cF"];

/// Random conventional lattice of a Bravais type (unrotated) and centring.
pub fn bravais_lattice(ty: &str, rng: &mut Rng) -> (M, char) {
    for _ in 0..2000 {
        // Wide axial ratios so that all characters of a type are reached.
        let ax = |rng: &mut Rng| 5.0 * (rng.range(-0.9, 0.9)).exp();
        let (a, mut b, mut c) = (ax(rng), ax(rng), ax(rng));
        if rng.chance(0.15) {
            // accidental equalities of axis lengths
            match rng.int(0, 3) {
                0 => b = a,
                1 => c = b,
                2 => c = a,
                _ => {
                    b = a;
                    c = a
                }
            }
        }
        let (p, cen) = match ty {
            "aP" => (
                [a, b, c, rng.range(55.0, 125.0), rng.range(55.0, 125.0), rng.range(55.0, 125.0)],
                'P',
            ),
            "mP" => ([a, b, c, 90.0, rng.range(91.0, 130.0), 90.0], 'P'),
            "mC" => ([a, b, c, 90.0, rng.range(91.0, 150.0), 90.0], 'C'),
            "oP" => ([a, b, c, 90.0, 90.0, 90.0], 'P'),
            "oC" => ([a, b, c, 90.0, 90.0, 90.0], 'C'),
            "oI" => ([a, b, c, 90.0, 90.0, 90.0], 'I'),
            "oF" => ([a, b, c, 90.0, 90.0, 90.0], 'F'),
            "tP" => ([a, a, c, 90.0, 90.0, 90.0], 'P'),
            "tI" => ([a, a, c, 90.0, 90.0, 90.0], 'I'),
            "hR" => ([a, a, c, 90.0, 90.0, 120.0], 'R'),
            "hP" => ([a, a, c, 90.0, 90.0, 120.0], 'P'),
            "cP" => ([a, a, a, 90.0, 90.0, 90.0], 'P'),
            "cI" => ([a, a, a, 90.0, 90.0, 90.0], 'I'),
            "cF" => ([a, a, a, 90.0, 90.0, 90.0], 'F'),
            _ => unreachable!(),
        };
        let l = from_params(p);
        if finite_m(&l) && det(&l) > 12.0 {
            return (l, cen);
        }
    }
    panic!("no lattice for {ty}")
}

/// A primitive lattice of the type whose true holohedry has the expected
/// order and whose tolerances are unambiguous.
pub fn generic_primitive(ty: &str, rng: &mut Rng) -> (M, M, char) {
    loop {
        let (conv, cen) = bravais_lattice(ty, rng);
        let prim = mul(&conv, &crate::hall::prim_basis(cen));
        if shortest(&prim) > 1.0
            && well_separated(&prim)
            && crate::crystal::lattice_automorphisms(&prim, 1e-8).len() == holohedry_order(ty)
            && crate::crystal::lattice_automorphisms(&prim, 2e-4).len() == holohedry_order(ty)
        {
            return (conv, prim, cen);
        }
    }
}

pub fn holohedry_order(ty: &str) -> usize {
    match ty {
        "aP" => 2,
        "mP" | "mC" | "mI" => 4,
        "oP" | "oC" | "oI" | "oF" => 8,
        "tP" | "tI" => 16,
        "hR" => 12,
        "hP" => 24,
        _ => 48,
    }
}

/// Lattice points of `prim` inside the cell `conv`, in twelfths of the cell.
pub fn centring_points(conv: &M, prim: &M) -> Option<Vec<[i64; 3]>> {
    let x = mul(&inv(prim), conv);
    let h = to_int(&x, 1e-4)?;
    let n = idet(&h).abs();
    if n == 0 || n > 64 {
        return None;
    }
    let p = mul(&inv(conv), prim);
    let mut out = std::collections::BTreeSet::new();
    let r = 8;
    for i in -r..=r {
        for j in -r..=r {
            for k in -r..=r {
                let y = mv(&p, &[i as f64, j as f64, k as f64]);
                let mut q = [0i64; 3];
                for d in 0..3 {
                    let w = y[d] - (y[d] + 1e-6).floor();
                    let z = w * 12.0;
                    if (z - z.round()).abs() > 1e-3 {
                        return None;
                    }
                    q[d] = (z.round() as i64).rem_euclid(12);
                }
                out.insert(q);
            }
        }
        if out.len() as i64 == n && i > -r + 4 {
            break;
        }
    }
    Some(out.into_iter().collect())
}

/// Which standard centring a set of lattice points is.
pub fn centring_symbol(pts: &[[i64; 3]]) -> Option<&'static str> {
    let mut p = pts.to_vec();
    p.sort();
    let is = |q: &[[i64; 3]]| {
        let mut q = q.to_vec();
        q.sort();
        p == q
    };
    if is(&[[0, 0, 0]]) {
        Some("P")
    } else if is(&[[0, 0, 0], [6, 6, 0]]) {
        Some("C")
    } else if is(&[[0, 0, 0], [0, 6, 6]]) {
        Some("A")
    } else if is(&[[0, 0, 0], [6, 0, 6]]) {
        Some("B")
    } else if is(&[[0, 0, 0], [6, 6, 6]]) {
        Some("I")
    } else if is(&[[0, 0, 0], [0, 6, 6], [6, 0, 6], [6, 6, 0]]) {
        Some("F")
    } else if is(&[[0, 0, 0], [8, 4, 4], [4, 8, 8]]) {
        Some("R")
    } else if is(&[[0, 0, 0], [4, 8, 4], [8, 4, 8]]) {
        Some("Rrev")
    } else {
        None
    }
}

/// Does a conventional cell have the metric of the system of holohedry order
/// `h` (hexagonal axes for order 12 and 24, unique axis b for 4)?
pub fn metric_fits(conv: &M, h: usize, rel: f64) -> Result<(), String> {
    let l: Vec<f64> = (0..3).map(|i| norm(&col(conv, i))).collect();
    let cosang = |i: usize, j: usize| dot(&col(conv, i), &col(conv, j)) / (l[i] * l[j]);
    let (ca, cb, cg) = (cosang(1, 2), cosang(0, 2), cosang(0, 1));
    let z = |x: f64| x.abs() <= rel;
    let eq = |x: f64, y: f64| (x - y).abs() <= rel * x.max(y);
    let ok = match h {
        2 => true,
        4 => z(ca) && z(cg),
        8 => z(ca) && z(cb) && z(cg),
        16 => z(ca) && z(cb) && z(cg) && eq(l[0], l[1]),
        12 | 24 => z(ca) && z(cb) && z(cg + 0.5) && eq(l[0], l[1]),
        48 => z(ca) && z(cb) && z(cg) && eq(l[0], l[1]) && eq(l[1], l[2]),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!(
            "cell lengths {:?}, cosines {:?} do not fit a lattice with {} symmetries",
            l, [ca, cb, cg], h
        ))
    }
}

/// Lengths and angles (degrees).
pub fn params(l: &M) -> [f64; 6] {
    let n: Vec<f64> = (0..3).map(|i| norm(&col(l, i))).collect();
    let ang = |i: usize, j: usize| {
        (dot(&col(l, i), &col(l, j)) / (n[i] * n[j])).clamp(-1.0, 1.0).acos().to_degrees()
    };
    [n[0], n[1], n[2], ang(1, 2), ang(0, 2), ang(0, 1)]
}
