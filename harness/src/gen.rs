//! Workload generators.

use crate::crystal::*;
use crate::hall::{self, System};
use crate::la::*;
use crate::lattice::{shortest, well_separated};
use crate::rng::Rng;

pub const ELEMENTS: [&str; 12] =
    ["Au", "Se", "O", "Si", "P", "H", "C", "Ca", "Cl", "Na", "S", "Zr"];

/// Conventional lattice parameters (a, b, c, alpha, beta, gamma in degrees).
pub fn from_params(p: [f64; 6]) -> M {
    let d = std::f64::consts::PI / 180.0;
    let (ca, cb, cg) = ((p[3] * d).cos(), (p[4] * d).cos(), (p[5] * d).cos());
    let sg = (p[5] * d).sin();
    let cx = p[2] * cb;
    let cy = p[2] * (ca - cb * cg) / sg;
    let cz = (p[2] * p[2] - cx * cx - cy * cy).sqrt();
    [[p[0], p[1] * cg, cx], [0.0, p[1] * sg, cy], [0.0, 0.0, cz]]
}

/// Random conventional lattice of a crystal system, generic metric.
pub fn conv_lattice(sys: System, rng: &mut Rng) -> M {
    loop {
        let a = rng.range(3.0, 9.0);
        let b = rng.range(3.0, 9.0);
        let c = rng.range(3.0, 9.0);
        let p = match sys {
            System::Tric => [a, b, c, rng.range(62.0, 118.0), rng.range(62.0, 118.0), rng.range(62.0, 118.0)],
            System::Mono => [a, b, c, 90.0, rng.range(92.0, 125.0), 90.0],
            System::Orth => [a, b, c, 90.0, 90.0, 90.0],
            System::Tetr => [a, a, c, 90.0, 90.0, 90.0],
            System::Trig | System::Hexa => [a, a, c, 90.0, 90.0, 120.0],
            System::Cubi => [a, a, a, 90.0, 90.0, 90.0],
        };
        let mut l = from_params(p);
        // exact zeros / symmetry for the special angles
        for r in l.iter_mut() {
            for x in r.iter_mut() {
                if x.abs() < 1e-12 {
                    *x = 0.0;
                }
            }
        }
        let v = det(&l);
        if !(v.is_finite() && v > 20.0) {
            continue;
        }
        return l;
    }
}

pub fn random_rotation(rng: &mut Rng) -> M {
    loop {
        let ax = [rng.range(-1.0, 1.0), rng.range(-1.0, 1.0), rng.range(-1.0, 1.0)];
        if norm(&ax) > 0.1 {
            return rotation(&ax, rng.range(0.0, 6.28));
        }
    }
}

/// Random unimodular matrix (det +1): a product of `steps` elementary shears
/// and a signed permutation.
pub fn unimodular(rng: &mut Rng, steps: usize) -> IM {
    let mut u = IID;
    for _ in 0..steps {
        let i = rng.int(0, 2) as usize;
        let j = (i + rng.int(1, 2) as usize) % 3;
        let s = if rng.chance(0.5) { 1 } else { -1 };
        let mut e = IID;
        e[i][j] = s;
        u = imul(&u, &e);
    }
    let perms: [IM; 6] = [
        IID,
        [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
        [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
        [[0, -1, 0], [1, 0, 0], [0, 0, 1]],
        [[-1, 0, 0], [0, 0, 1], [0, 1, 0]],
        [[0, 0, 1], [0, -1, 0], [1, 0, 0]],
    ];
    imul(&u, rng.pick(&perms))
}

/// Random integer matrix with 1 <= |det| <= max (upper-triangular HNF times a
/// unimodular matrix).
pub fn super_matrix(rng: &mut Rng, max: i64, skew: usize) -> IM {
    loop {
        let (a, b, c) = (rng.int(1, 4), rng.int(1, 4), rng.int(1, 4));
        if a * b * c > max {
            continue;
        }
        let h: IM = [
            [a, rng.int(0, a - 1), rng.int(0, a - 1)],
            [0, b, rng.int(0, b - 1)],
            [0, 0, c],
        ];
        return imul(&h, &unimodular(rng, skew));
    }
}

/// A crystal with exactly the space group `n` in its standard setting and
/// origin.  `max_sites` bounds the conventional cell.
pub fn crystal_of(n: u8, rng: &mut Rng, max_sites: usize) -> Option<Cell> {
    let sys = hall::system(n);
    crystal_with(n, rng, max_sites, 400, |rng| conv_lattice(sys, rng))
}

/// Near-symmetry is excluded up to this distance.  The library accepts two
/// tolerances (at most 0.2 angstrom) from the image of any atom; seen from one
/// fixed atom the same operation may be off by twice as much.
pub const LOOSE: f64 = 0.44;

/// Smallest distance of two atoms in generated crystals.
pub const SPACING: f64 = 0.9;

pub fn crystal_with(n: u8, rng: &mut Rng, max_sites: usize, attempts: usize, lattice: impl Fn(&mut Rng) -> M) -> Option<Cell> {
    let r = hall::reference(n);
    let mult = hall::centering_vectors(r.centering).len();
    for attempt in 0..attempts {
        let mut lat = lattice(rng);
        let norb = rng.int(1, 3) as usize;
        let mut fr: Vec<V> = vec![];
        let mut sp: Vec<String> = vec![];
        let mut ok = true;
        let mut last: Option<V> = None;
        for o in 0..norb {
            let general = rng.chance(0.5) || (attempt > 100 && o == 0);
            let mut x = [rng.unit(), rng.unit(), rng.unit()];
            if !general {
                let nice = [0.0, 0.25, 0.5, 0.75, 1.0 / 3.0, 2.0 / 3.0, 0.125, 0.0];
                let line = rng.unit();
                for v in x.iter_mut() {
                    if rng.chance(0.6) {
                        *v = *rng.pick(&nice);
                    } else if rng.chance(0.5) {
                        *v = line;
                    }
                }
            }
            // Pseudo-symmetry: the orbit is an image of the previous one under an
            // operation that would be a symmetry if the species (or a shift of
            // a few tenths of an angstrom) did not matter.
            if let (Some(p), true) = (last, rng.chance(0.3)) {
                x = pseudo_image(&p, rng);
                if rng.chance(0.3) {
                    let i = rng.int(0, 2) as usize;
                    x[i] += rng.range(0.06, 0.12);
                }
            }
            last = Some(x);
            let mut orb: Vec<V> = vec![];
            for op in &r.ops {
                let tt = [op.t[0] as f64 / 12.0, op.t[1] as f64 / 12.0, op.t[2] as f64 / 12.0];
                let y = add(&mv(&f(&op.r), &x), &tt);
                let y = [y[0] - y[0].floor(), y[1] - y[1].floor(), y[2] - y[2].floor()];
                if !orb.iter().any(|z| wrap_half_v(&sub(z, &y)).iter().all(|d| d.abs() < 1e-6)) {
                    orb.push(y);
                }
            }
            if fr.len() + orb.len() > max_sites {
                ok = !fr.is_empty();
                break;
            }
            let e = match sp.last() {
                Some(e) if rng.chance(0.25) => e.clone(),
                _ => ELEMENTS[o].to_string(),
            };
            for y in orb {
                fr.push(y);
                sp.push(e.clone());
            }
        }
        if !ok || fr.is_empty() {
            continue;
        }
        // Scale so that there is room for every atom.
        let want = fr.len() as f64 * rng.range(14.0, 30.0);
        let s = (want / det(&lat).abs()).cbrt().max(1.0);
        for row in lat.iter_mut() {
            for v in row.iter_mut() {
                *v *= s;
            }
        }
        let c = Cell { lat, sp, fr };
        if min_dist(&c) < SPACING {
            continue;
        }
        // Exactly the intended group: same number of operations, also with a
        // loose tolerance (no near-symmetry).  Counted in the primitive cell:
        // operations that do not map the conventional cell onto itself (cubic
        // ones of a rhombohedral cell, say) cannot be seen there.
        let q = primitive_of(&c, r.centering);
        // Axes that differ by less than rounding allows to tell belong to no
        // definite lattice type.
        if !well_separated(&q.lat) {
            continue;
        }
        if q.n() * mult != c.n() || symmetry(&q, LOOSE, 0.01).len() * mult != r.ops.len() {
            continue;
        }
        return Some(c);
    }
    None
}

/// Image of a position under a likely operation of a supergroup.
fn pseudo_image(x: &V, rng: &mut Rng) -> V {
    let y = match rng.int(0, 5) {
        0 => *x,
        1 => [-x[0], -x[1], -x[2]],
        2 => [x[1], x[0], x[2]],
        3 => [-x[0], x[1], x[2]],
        4 => [x[0], x[1], -x[2]],
        _ => [x[1], x[2], x[0]],
    };
    let q = [0.0, 0.5, 0.5, 0.25, 1.0 / 3.0];
    let d = if rng.chance(0.6) { [*rng.pick(&[0.0, 0.5]), *rng.pick(&[0.0, 0.5]), *rng.pick(&[0.0, 0.5])] } else { [*rng.pick(&q), *rng.pick(&q), *rng.pick(&q)] };
    add(&y, &d)
}

/// A primitive crystal that would have a smaller cell if a few species or
/// sites did not matter: a supercell of `p` with some sites renamed, removed
/// or moved.
fn superstructure(p: &Cell, h: &IM, rng: &mut Rng) -> Option<Cell> {
    for _ in 0..20 {
        let mut c = p.supercell(h);
        let kind = rng.int(0, 3);
        for _ in 0..rng.int(1, 3) {
            let i = rng.int(0, c.n() as i64 - 1) as usize;
            match kind {
                0 => c.sp[i] = rng.pick(&ELEMENTS[..4]).to_string(),
                1 if c.n() > 1 => {
                    c.sp.remove(i);
                    c.fr.remove(i);
                }
                2 => {
                    let l = c.lat;
                    let mut y = mv(&l, &c.fr[i]);
                    y[rng.int(0, 2) as usize] += rng.range(0.45, 0.8);
                    c.fr[i] = mv(&inv(&l), &y);
                }
                _ => {
                    // Two species change places.
                    let j = rng.int(0, c.n() as i64 - 1) as usize;
                    c.sp.swap(i, j);
                }
            }
        }
        if kind == 3 && rng.chance(0.5) {
            // One species stays periodic, the others do not.
            let keep = p.sp[0].clone();
            c = p.supercell(h);
            for e in c.sp.iter_mut() {
                if *e != keep && rng.chance(0.5) {
                    *e = "Zr".into();
                }
            }
        }
        if min_dist(&c) > SPACING && translation_count(&c, LOOSE) == 1 {
            return Some(c);
        }
    }
    None
}

/// A crystal of group `n` with few sites in its primitive cell.
pub fn small_crystal(n: u8, rng: &mut Rng, caps: &[usize]) -> Option<Cell> {
    let mult = hall::centering_vectors(hall::reference(n).centering).len();
    caps.iter().find_map(|c| {
        let sys = hall::system(n);
        crystal_with(n, rng, c * mult, 40, |rng| conv_lattice(sys, rng))
    })
}

/// The crystal with its origin moved.
pub fn shift_origin(c: &Cell, s: &V) -> Cell {
    Cell { lat: c.lat, sp: c.sp.clone(), fr: c.fr.iter().map(|x| add(x, s)).collect() }
}

/// How a crystal may be rewritten without changing it.
#[derive(Clone, Copy)]
pub struct Pres {
    /// Largest supercell determinant (1 = same size).
    pub max_det: i64,
    /// Number of elementary shears.
    pub skew: usize,
    pub rotate: bool,
    pub left: bool,
    pub shuffle: bool,
    pub wrap: bool,
}

pub const FULL: Pres = Pres { max_det: 6, skew: 3, rotate: true, left: true, shuffle: true, wrap: true };

/// Rewrite a crystal.  Returns the new cell and the Cartesian rotation used
/// (new = q * old), so that results can be compared in one frame.
pub fn present(c: &Cell, p: &Pres, rng: &mut Rng) -> (Cell, M, IM) {
    let mut h: IM = if p.max_det > 1 && rng.chance(0.7) {
        super_matrix(rng, p.max_det, 0)
    } else {
        IID
    };
    let skew = if p.skew > 0 { rng.int(0, p.skew as i64) as usize } else { 0 };
    h = imul(&h, &unimodular(rng, skew));
    if p.left && rng.chance(0.4) {
        let sw: [IM; 3] = [
            [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
            [[-1, 0, 0], [0, 1, 0], [0, 0, 1]],
            [[-1, 0, 0], [0, -1, 0], [0, 0, -1]],
        ];
        h = imul(&h, rng.pick(&sw));
    }
    let mut d = if idet(&h).abs() == 1 { c.rebase(&h) } else { c.supercell(&h) };
    let mut q = ID;
    if p.rotate && rng.chance(0.6) {
        q = random_rotation(rng);
        d.lat = mul(&q, &d.lat);
    }
    if p.wrap && rng.chance(0.6) {
        for x in d.fr.iter_mut() {
            for v in x.iter_mut() {
                *v += rng.int(-2, 2) as f64;
            }
        }
    }
    if p.shuffle && rng.chance(0.7) {
        shuffle_sites(&mut d, rng);
    }
    (d, q, h)
}

pub fn shuffle_sites(d: &mut Cell, rng: &mut Rng) {
    let mut idx: Vec<usize> = (0..d.n()).collect();
    rng.shuffle(&mut idx);
    d.fr = idx.iter().map(|i| d.fr[*i]).collect();
    d.sp = idx.iter().map(|i| d.sp[*i].clone()).collect();
}

/// The crystal in its own primitive cell (conventional cell divided by the
/// centring of the reference group).
pub fn primitive_of(c: &Cell, centering: char) -> Cell {
    let p = hall::prim_basis(centering);
    let lat = mul(&c.lat, &p);
    let pi = inv(&p);
    let near = Near::new(&lat);
    let mut q = Cell { lat, sp: vec![], fr: vec![] };
    for (x, s) in c.fr.iter().zip(&c.sp) {
        let y = mv(&pi, x);
        let yc = mv(&lat, &y);
        if !q.fr.iter().zip(&q.sp).any(|(z, e)| e == s && near.close(&sub(&mv(&lat, z), &yc), 1e-4)) {
            q.fr.push([y[0] - y[0].floor(), y[1] - y[1].floor(), y[2] - y[2].floor()]);
            q.sp.push(s.clone());
        }
    }
    q
}

/// Random atoms in a given (primitive) lattice with no extra translations and
/// a minimum spacing.
/// On request also crystals whose rarest species alone has smaller periods.
pub fn decorate_pseudo(lat: &M, max_sites: usize, rng: &mut Rng) -> (Cell, bool) {
    if rng.chance(0.3) {
        let h = super_matrix(rng, 4, 1);
        let l = mul(lat, &inv(&f(&h)));
        if idet(&h).abs() > 1 && min_dist(&Cell { lat: l, sp: vec!["Au".into()], fr: vec![[0.0; 3]] }) > 1.5 {
            let p = decorate(&l, max_sites, rng);
            if let Some(mut c) = superstructure(&p, &h, rng) {
                c.lat = *lat;
                return (c, true);
            }
        }
    }
    (decorate(lat, max_sites, rng), false)
}

pub fn decorate(lat: &M, max_sites: usize, rng: &mut Rng) -> Cell {
    // A single site always fits.
    assert!(shortest(lat) > SPACING);
    loop {
        let n = rng.int(1, max_sites as i64) as usize;
        let nsp = rng.int(1, 3.min(n as i64));
        let mut c = Cell { lat: *lat, sp: vec![], fr: vec![] };
        for i in 0..n {
            let x = if rng.chance(0.25) {
                let nice = [0.0, 0.5, 0.25, 0.75, 1.0 / 3.0];
                [*rng.pick(&nice), *rng.pick(&nice), *rng.pick(&nice)]
            } else {
                [rng.unit(), rng.unit(), rng.unit()]
            };
            c.fr.push(x);
            let k = if (i as i64) < nsp { i as i64 } else { rng.int(0, nsp - 1) };
            c.sp.push(ELEMENTS[k as usize].to_string());
        }
        if min_dist(&c) > SPACING && translation_count(&c, LOOSE) == 1 {
            return c;
        }
    }
}
