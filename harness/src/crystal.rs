//! Oracle-side model of a periodic crystal: equality of crystals, exact
//! translation counting and a brute-force symmetry finder.

use crate::la::*;
use nalgebra::{Matrix3, Vector3};
use crystsymm::structure::Structure;

#[derive(Clone, Debug)]
pub struct Cell {
    pub lat: M,
    pub sp: Vec<String>,
    pub fr: Vec<V>,
}

pub fn to_na(m: &M) -> Matrix3<f64> {
    Matrix3::new(
        m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2],
    )
}
pub fn from_na(m: &Matrix3<f64>) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = m[(i, j)];
        }
    }
    r
}
pub fn v_na(v: &V) -> Vector3<f64> {
    Vector3::new(v[0], v[1], v[2])
}
pub fn na_v(v: &Vector3<f64>) -> V {
    [v[0], v[1], v[2]]
}

impl Cell {
    pub fn n(&self) -> usize {
        self.sp.len()
    }
    pub fn vol(&self) -> f64 {
        det(&self.lat).abs()
    }
    pub fn cart(&self) -> Vec<V> {
        self.fr.iter().map(|x| mv(&self.lat, x)).collect()
    }
    /// Build the library's structure from fractional coordinates.
    pub fn lib(&self) -> Structure {
        Structure::new(
            to_na(&self.lat),
            self.sp.clone(),
            self.fr.iter().map(v_na).collect(),
            false,
        )
    }
    pub fn lib_cart(&self) -> Structure {
        Structure::new(
            to_na(&self.lat),
            self.sp.clone(),
            self.cart().iter().map(v_na).collect(),
            true,
        )
    }
    pub fn from_lib(s: &Structure) -> Cell {
        Cell {
            lat: from_na(&s.lattice),
            sp: s.species.clone(),
            fr: s.frac_coords.iter().map(na_v).collect(),
        }
    }
    /// Same crystal, lattice basis changed by the unimodular `u`.
    pub fn rebase(&self, u: &IM) -> Cell {
        let ui = f(&iinv(u));
        Cell {
            lat: mul(&self.lat, &f(u)),
            sp: self.sp.clone(),
            fr: self.fr.iter().map(|x| mv(&ui, x)).collect(),
        }
    }
    /// Same crystal in the supercell `lat * h` (|det h| copies of every site).
    pub fn supercell(&self, h: &IM) -> Cell {
        let d = idet(h).abs();
        assert!(d > 0);
        let hi = inv(&f(h));
        let mut offs: Vec<[i64; 3]> = Vec::new();
        let mut seen = std::collections::BTreeSet::new();
        // Cosets of Z^3 / hZ^3, found by walking outwards.
        let mut rad = 0i64;
        while (offs.len() as i64) < d {
            for i in -rad..=rad {
                for j in -rad..=rad {
                    for k in -rad..=rad {
                        if i.abs().max(j.abs()).max(k.abs()) != rad {
                            continue;
                        }
                        let y = mv(&hi, &[i as f64, j as f64, k as f64]);
                        let key: Vec<i64> = y
                            .iter()
                            .map(|c| ((c - c.floor()) * d as f64).round() as i64 % d)
                            .collect();
                        if seen.insert(key) {
                            offs.push([i, j, k]);
                        }
                    }
                }
            }
            rad += 1;
        }
        let mut c = Cell { lat: mul(&self.lat, &f(h)), sp: vec![], fr: vec![] };
        for (x, s) in self.fr.iter().zip(&self.sp) {
            for o in &offs {
                let y = mv(&hi, &[x[0] + o[0] as f64, x[1] + o[1] as f64, x[2] + o[2] as f64]);
                c.fr.push([y[0] - y[0].floor(), y[1] - y[1].floor(), y[2] - y[2].floor()]);
                c.sp.push(s.clone());
            }
        }
        c
    }
    pub fn describe(&self) -> String {
        let mut s = format!("lattice(cols)={:?} sites=[", self.lat);
        for (x, e) in self.fr.iter().zip(&self.sp) {
            s.push_str(&format!("{}:({:.6},{:.6},{:.6}) ", e, x[0], x[1], x[2]));
            if s.len() > 1500 {
                s.push_str("...");
                break;
            }
        }
        s.push(']');
        s
    }
}

/// Reduce a basis (Minkowski): returns unimodular `u` with `lat*u` reduced.
pub fn minkowski(lat: &M) -> IM {
    let mut u = IID;
    let mut b = *lat;
    for _ in 0..10_000 {
        let mut changed = false;
        for i in 0..3 {
            // Size-reduce against each other vector.
            for j in 0..3 {
                if i == j {
                    continue;
                }
                let (vi, vj) = (col(&b, i), col(&b, j));
                let k = (dot(&vi, &vj) / dot(&vj, &vj)).round();
                if k != 0.0 {
                    let nv = sub(&vi, &scale(&vj, k));
                    if dot(&nv, &nv) < dot(&vi, &vi) * (1.0 - 1e-12) {
                        for r in 0..3 {
                            b[r][i] = nv[r];
                            u[r][i] -= k as i64 * u[r][j];
                        }
                        changed = true;
                    }
                }
            }
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            for x in -1i64..=1 {
                for y in -1i64..=1 {
                    let vi = col(&b, i);
                    let nv = add(
                        &vi,
                        &add(&scale(&col(&b, j), x as f64), &scale(&col(&b, k), y as f64)),
                    );
                    if dot(&nv, &nv) < dot(&vi, &vi) * (1.0 - 1e-12) {
                        for r in 0..3 {
                            b[r][i] = nv[r];
                            u[r][i] += x * u[r][j] + y * u[r][k];
                        }
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    u
}

/// Shortest distance between two fractional points of a REDUCED lattice.
pub struct Near {
    lat: M,
    inv: M,
    imgs: Vec<V>,
}

impl Near {
    pub fn new(lat: &M) -> Near {
        let r = mul(lat, &f(&minkowski(lat)));
        let mut imgs = vec![];
        for i in -1..=1 {
            for j in -1..=1 {
                for k in -1..=1 {
                    imgs.push(mv(&r, &[i as f64, j as f64, k as f64]));
                }
            }
        }
        Near { inv: inv(&r), lat: r, imgs }
    }
    /// Distance of a Cartesian displacement from the nearest lattice vector.
    pub fn dist_cart(&self, d: &V) -> f64 {
        let f0 = wrap_half_v(&mv(&self.inv, d));
        let c = mv(&self.lat, &f0);
        let mut best = f64::INFINITY;
        for im in &self.imgs {
            let n = norm(&add(&c, im));
            if n < best {
                best = n;
            }
        }
        best
    }
    pub fn close(&self, d: &V, tol: f64) -> bool {
        let f0 = wrap_half_v(&mv(&self.inv, d));
        let c = mv(&self.lat, &f0);
        // Quick accept, then the full image scan only near cell faces.
        if norm(&c) <= tol {
            return true;
        }
        if f0.iter().all(|x| x.abs() < 0.4) {
            return false;
        }
        self.dist_cart(d) <= tol
    }
}

/// Smallest distance between two distinct sites (any species, periodic).
pub fn min_dist(c: &Cell) -> f64 {
    let near = Near::new(&c.lat);
    let p = c.cart();
    let r = mul(&c.lat, &f(&minkowski(&c.lat)));
    let mut best = (0..3).map(|i| norm(&col(&r, i))).fold(f64::INFINITY, f64::min);
    for i in 0..p.len() {
        for j in 0..i {
            best = best.min(near.dist_cart(&sub(&p[i], &p[j])));
        }
    }
    best
}

/// Do `a` and `b` describe the same infinite crystal (same Cartesian frame)?
/// One lattice must contain the other.  `tol` is in angstroms.
pub fn same_crystal(a: &Cell, b: &Cell, tol: f64) -> Result<(), String> {
    if !finite_m(&b.lat) || b.fr.iter().flatten().any(|x| !x.is_finite()) {
        return Err("non-finite output".into());
    }
    if b.sp.len() != b.fr.len() || a.sp.len() != a.fr.len() {
        return Err(format!("{} species but {} coordinates", b.sp.len(), b.fr.len()));
    }
    if det(&b.lat).abs() < 1e-9 {
        return Err(format!("output lattice is singular: {:?}", b.lat));
    }
    let x = mul(&inv(&a.lat), &b.lat);
    let y = mul(&inv(&b.lat), &a.lat);
    // Lattice mismatch is judged in angstroms at the far corner of the cell.
    let near_int = |m: &M, l: &M| -> Option<IM> {
        let r = to_int(m, 0.2)?;
        let mut e = *m;
        for i in 0..3 {
            for j in 0..3 {
                e[i][j] -= r[i][j] as f64;
            }
        }
        let d = mul(l, &e);
        for j in 0..3 {
            if norm(&col(&d, j)) > tol.max(1e-7) {
                return None;
            }
        }
        Some(r)
    };
    let (sub_c, sup_c, ratio) = if let Some(h) = near_int(&x, &a.lat) {
        (a, b, idet(&h).abs())
    } else if let Some(h) = near_int(&y, &b.lat) {
        (b, a, idet(&h).abs())
    } else {
        return Err(format!("lattices are not commensurate: A^-1 B = {:?}", x));
    };
    if ratio == 0 {
        return Err("degenerate lattice relation".into());
    }
    if sup_c.n() as i64 != ratio * sub_c.n() as i64 {
        return Err(format!(
            "site count {} in the large cell is not {} x {} of the small cell",
            sup_c.n(), ratio, sub_c.n()
        ));
    }
    let near = Near::new(&sub_c.lat);
    let pa = sub_c.cart();
    let pb = sup_c.cart();
    let mut hits = vec![0i64; pa.len()];
    for (p, s) in pb.iter().zip(&sup_c.sp) {
        let mut found = false;
        for (i, q) in pa.iter().enumerate() {
            if sub_c.sp[i] == *s && near.close(&sub(p, q), tol) {
                hits[i] += 1;
                found = true;
                break;
            }
        }
        if !found {
            let d = pa.iter().zip(&sub_c.sp).filter(|(_, e)| *e == s).map(|(q, _)| near.dist_cart(&sub(p, q))).fold(f64::INFINITY, f64::min);
            return Err(format!("site {s} at {p:?} has no counterpart (nearest of that species: {d:.3e} angstrom away)"));
        }
    }
    if let Some(i) = hits.iter().position(|h| *h != ratio) {
        return Err(format!(
            "site {} {:?} is represented {} times, expected {}",
            sub_c.sp[i], sub_c.fr[i], hits[i], ratio
        ));
    }
    // Sites of the large cell must be pairwise distinct.
    let near_b = Near::new(&sup_c.lat);
    for i in 0..pb.len() {
        for j in 0..i {
            if near_b.close(&sub(&pb[i], &pb[j]), 1e-3) {
                return Err(format!("sites {i} and {j} coincide"));
            }
        }
    }
    Ok(())
}

/// Integer automorphisms of a lattice, in its own basis.
pub fn lattice_automorphisms(lat: &M, rel: f64) -> Vec<IM> {
    let u = minkowski(lat);
    let b = mul(lat, &f(&u));
    let g = metric(&b);
    let lim = rel * (g[0][0] + g[1][1] + g[2][2]) / 3.0;
    let mut cand: [Vec<[i64; 3]>; 3] = [vec![], vec![], vec![]];
    for i in -2i64..=2 {
        for j in -2i64..=2 {
            for k in -2i64..=2 {
                let v = mv(&b, &[i as f64, j as f64, k as f64]);
                let n = dot(&v, &v);
                for c in 0..3 {
                    if (n - g[c][c]).abs() <= lim {
                        cand[c].push([i, j, k]);
                    }
                }
            }
        }
    }
    let gi = |a: &[i64; 3], c: &[i64; 3]| {
        let x = mv(&g, &[c[0] as f64, c[1] as f64, c[2] as f64]);
        a[0] as f64 * x[0] + a[1] as f64 * x[1] + a[2] as f64 * x[2]
    };
    let mut out = vec![];
    let ui = iinv(&u);
    for a in &cand[0] {
        for c in &cand[1] {
            if (gi(a, c) - g[0][1]).abs() > lim {
                continue;
            }
            for d in &cand[2] {
                if (gi(a, d) - g[0][2]).abs() > lim || (gi(c, d) - g[1][2]).abs() > lim {
                    continue;
                }
                let r: IM = [[a[0], c[0], d[0]], [a[1], c[1], d[1]], [a[2], c[2], d[2]]];
                if idet(&r).abs() != 1 {
                    continue;
                }
                out.push(imul(&imul(&u, &r), &ui));
            }
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct SOp {
    pub r: IM,
    pub t: V,
}

/// Does {r|t} (in the basis of `c`) map the crystal onto itself?  Returns the
/// largest residual in angstroms when it does.
pub fn op_residual(c: &Cell, near: &Near, r: &IM, t: &V, tol: f64) -> Option<f64> {
    let rf = f(r);
    let mut used = vec![false; c.n()];
    let mut worst: f64 = 0.0;
    for i in 0..c.n() {
        let y = add(&mv(&rf, &c.fr[i]), t);
        let mut hit = false;
        for j in 0..c.n() {
            if used[j] || c.sp[i] != c.sp[j] {
                continue;
            }
            let d = mv(&c.lat, &wrap_half_v(&sub(&y, &c.fr[j])));
            if near.close(&d, tol) {
                worst = worst.max(near.dist_cart(&d));
                used[j] = true;
                hit = true;
                break;
            }
        }
        if !hit {
            return None;
        }
    }
    Some(worst)
}

/// All symmetry operations of the crystal whose rotation part maps the cell
/// lattice onto itself, modulo that lattice.
pub fn symmetry(c: &Cell, tol: f64, metric_rel: f64) -> Vec<SOp> {
    let autos = lattice_automorphisms(&c.lat, metric_rel);
    let near = Near::new(&c.lat);
    // Rarest species gives the fewest candidate translations.
    let mut counts = std::collections::BTreeMap::new();
    for s in &c.sp {
        *counts.entry(s.clone()).or_insert(0usize) += 1;
    }
    let rare = counts.iter().min_by_key(|(_, n)| **n).map(|(s, _)| s.clone());
    let rare = match rare {
        Some(r) => r,
        None => return vec![],
    };
    let base = c.sp.iter().position(|s| *s == rare).unwrap();
    let mut out = vec![];
    for r in autos {
        let rx = mv(&f(&r), &c.fr[base]);
        for j in 0..c.n() {
            if c.sp[j] != rare {
                continue;
            }
            let t = sub(&c.fr[j], &rx);
            if op_residual(c, &near, &r, &t, tol).is_some() {
                out.push(SOp { r, t: [t[0] - t[0].floor(), t[1] - t[1].floor(), t[2] - t[2].floor()] });
            }
        }
    }
    out
}

/// Number of pure translations of the crystal modulo the cell lattice.
pub fn translation_count(c: &Cell, tol: f64) -> usize {
    translations(c, tol).len()
}

pub fn translations(c: &Cell, tol: f64) -> Vec<V> {
    if c.n() == 0 {
        return vec![[0.0; 3]];
    }
    let near = Near::new(&c.lat);
    let mut counts = std::collections::BTreeMap::new();
    for s in &c.sp {
        *counts.entry(s.clone()).or_insert(0usize) += 1;
    }
    let rare = counts.iter().min_by_key(|(_, n)| **n).unwrap().0.clone();
    let base = c.sp.iter().position(|s| *s == rare).unwrap();
    let mut out = vec![];
    for j in 0..c.n() {
        if c.sp[j] == rare {
            let t = sub(&c.fr[j], &c.fr[base]);
            if op_residual(c, &near, &IID, &t, tol).is_some() {
                out.push(t);
            }
        }
    }
    out
}

/// Do two lattices contain exactly the same points?
pub fn same_lattice(a: &M, b: &M, tol: f64) -> Option<IM> {
    let x = mul(&inv(a), b);
    let r = to_int(&x, tol)?;
    if idet(&r).abs() == 1 {
        Some(r)
    } else {
        None
    }
}
