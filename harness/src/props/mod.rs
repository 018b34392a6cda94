//! Property monitors.

pub mod analysis;
pub mod basic;
pub mod cells;
pub mod groups;
pub mod more;
pub mod python;
pub mod stress;
#[cfg(feature = "tables")]
pub mod tables;

use crate::crystal::*;
use crate::la::*;
use crate::runner::*;
use crystsymm::structure::Structure;

pub fn specs() -> Vec<Spec> {
    let mut v = vec![];
    v.extend(basic::specs());
    v.extend(cells::specs());
    v.extend(analysis::specs());
    v.extend(groups::specs());
    #[cfg(feature = "tables")]
    v.extend(tables::specs());
    v.extend(python::specs());
    v.extend(stress::specs());
    v.extend(more::specs());
    v.sort_by_key(|s| s.id);
    v
}

pub fn no_floor(_: &Totals) -> Result<(), String> {
    Ok(())
}

/// Hash of a cell, used to count distinct inputs.
pub fn cell_hash(c: &Cell) -> u64 {
    hash_f64s(c.lat.iter().flatten().chain(c.fr.iter().flatten())) ^ (c.n() as u64)
}

/// A structure handed out by the library: one species per site, finite, and
/// Cartesian = lattice x fractional.
pub fn consistent(s: &Structure) -> Result<(), String> {
    if s.species.len() != s.coords.len() || s.species.len() != s.frac_coords.len() {
        return Err(format!(
            "{} species, {} Cartesian and {} fractional coordinates",
            s.species.len(), s.coords.len(), s.frac_coords.len()
        ));
    }
    let lat = from_na(&s.lattice);
    if !finite_m(&lat) {
        return Err("lattice is not finite".into());
    }
    let size = (0..3).map(|i| norm(&col(&lat, i))).fold(1.0, f64::max);
    for (i, (c, x)) in s.coords.iter().zip(&s.frac_coords).enumerate() {
        let want = mv(&lat, &na_v(x));
        let scale = size * (1.0 + x.iter().fold(0.0f64, |m, v| m.max(v.abs())));
        let d = norm(&sub(&want, &na_v(c)));
        if !(d <= 1e-7 * scale) {
            return Err(format!("site {i}: Cartesian {:?} but lattice x fractional = {want:?}", na_v(c)));
        }
    }
    Ok(())
}

pub fn rotated(c: &Cell, q: &M) -> Cell {
    Cell { lat: mul(q, &c.lat), sp: c.sp.clone(), fr: c.fr.clone() }
}

/// Crystallographic operation as the library stores it.
pub fn lib_op(r: &IM, t: &V) -> crystsymm::symmop::SymmOp {
    crystsymm::symmop::SymmOp {
        rotation: nalgebra::Matrix3::new(
            r[0][0] as i8, r[0][1] as i8, r[0][2] as i8, r[1][0] as i8, r[1][1] as i8,
            r[1][2] as i8, r[2][0] as i8, r[2][1] as i8, r[2][2] as i8,
        ),
        translation: v_na(t),
    }
}

pub fn rot_of(m: &nalgebra::Matrix3<i8>) -> IM {
    let mut r = [[0i64; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = m[(i, j)] as i64;
        }
    }
    r
}

pub fn sop_of(o: &crystsymm::symmop::SymmOp) -> SOp {
    SOp { r: rot_of(&o.rotation), t: na_v(&o.translation) }
}

/// Equal modulo lattice translations, translations within `tol`.
pub fn op_eq(a: &SOp, b: &SOp, tol: f64) -> bool {
    a.r == b.r && wrap_half_v(&sub(&a.t, &b.t)).iter().all(|x| x.abs() <= tol)
}

/// Compare two operation lists as sets; also rejects duplicates in `got`.
pub fn same_op_set(got: &[SOp], want: &[SOp], tol: f64) -> Result<(), String> {
    for o in got {
        if !o.t.iter().all(|x| x.is_finite()) {
            return Err(format!("translation is not finite: {o:?}"));
        }
    }
    let mut by_rot: std::collections::HashMap<IM, Vec<&SOp>> = Default::default();
    for o in want {
        by_rot.entry(o.r).or_default().push(o);
    }
    let mut got_rot: std::collections::HashMap<IM, Vec<&SOp>> = Default::default();
    for o in got {
        let e = got_rot.entry(o.r).or_default();
        if e.iter().any(|p| op_eq(p, o, tol)) {
            return Err(format!("operation occurs twice: {o:?}"));
        }
        e.push(o);
        if !by_rot.get(&o.r).map(|v| v.iter().any(|p| op_eq(p, o, tol))).unwrap_or(false) {
            return Err(format!("unexpected operation {o:?} ({} reported, {} expected)", got.len(), want.len()));
        }
    }
    for o in want {
        if !got_rot.get(&o.r).map(|v| v.iter().any(|p| op_eq(p, o, tol))).unwrap_or(false) {
            return Err(format!("missing operation {o:?} ({} reported, {} expected)", got.len(), want.len()));
        }
    }
    Ok(())
}

pub fn compose(a: &SOp, b: &SOp) -> SOp {
    SOp { r: imul(&a.r, &b.r), t: add(&mv(&f(&a.r), &b.t), &a.t) }
}

pub fn params_close(a: &[f64; 6], b: &[f64; 6], rel: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() <= rel * a[i].max(b[i]).max(1.0))
        && (3..6).all(|i| (a[i] - b[i]).abs() <= 60.0 * rel)
}
