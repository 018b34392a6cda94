//! Refusal of meaningless input and independence of the unit of length.

use super::analysis::{amplitude, answers, displaced};
use super::python::*;
use super::*;
use crate::gen::*;
use crate::hall;
use crate::rng::Rng;
use crystsymm::pointgroup::PointGroup;
use crystsymm::spacegroup::SpaceGroup;
#[cfg(feature = "helpers")]
use crystsymm::utils::approx_equal_iter;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C27",
            rule: "a case is one meaningless input; distinct by input",
            quick: 60_000,
            thorough: 1_000_000,
            case: c27,
            floor: |t| {
                t.need_tags("kinds of input", 8)?;
                t.need("unchanged after a refusal", 5000)
            },
            exhaustive: false,
            assumptions: &["matrices are exactly singular: small integers with dependent columns"],
        },
        Spec {
            id: "C28",
            rule: "a case is one crystal, all operations, in two units of length; distinct by crystal",
            quick: 1500,
            thorough: 15_000,
            case: c28,
            floor: |t| {
                t.need("structures compared", 5000)?;
                t.need("groups compared", 300)?;
                t.need_tags("factors", 6)
            },
            exhaustive: false,
            assumptions: &["the factor is a power of two, so the scaled input is exact; tolerances are scaled along"],
        },
        Spec {
            id: "C29",
            rule: "a case is one crystal written exactly and with a few decimals; distinct by crystal",
            quick: 3000,
            thorough: 40_000,
            case: c29,
            floor: |t| {
                t.need("pairs compared", 2500)?;
                t.need("groups compared", 500)?;
                t.need_tags("decimals", 3)
            },
            exhaustive: false,
            assumptions: &["7 to 9 decimals, presentations with at most two shears and a sixfold supercell"],
        },
    ]
}

/// Integer matrix with determinant exactly zero.
fn singular(rng: &mut Rng) -> M {
    let mut m: IM = [[0; 3]; 3];
    for x in m.iter_mut().flatten() {
        *x = rng.int(-3, 3);
    }
    let k = rng.int(0, 2) as usize;
    let (i, j) = ((k + 1) % 3, (k + 2) % 3);
    let (a, b) = match rng.int(0, 3) {
        0 => (0, 0),
        1 => (1, 0),
        2 => (-2, 0),
        _ => (rng.int(-2, 2), rng.int(-2, 2)),
    };
    let rows = rng.chance(0.5);
    for c in 0..3 {
        if rows {
            m[k][c] = a * m[i][c] + b * m[j][c];
        } else {
            m[c][k] = a * m[c][i] + b * m[c][j];
        }
    }
    f(&m)
}

fn c27(ctx: &mut Ctx, rng: &mut Rng) {
    let t = singular(rng);
    let kind = ctx.idx % 9;
    if cfg!(not(feature = "helpers")) && kind == 6 {
        return;
    }
    ctx.desc = format!("kind {kind}, matrix {t:?}");
    let names = [
        "structure, singular transformation",
        "space group, singular transformation",
        "point group, singular transformation",
        "Cartesian coordinates, singular lattice",
        "reciprocal of a singular lattice",
        "unknown point-group number",
        "lists of different length",
        "fractional conversion, singular lattice",
        "more or fewer species than sites",
    ];
    let name = names[kind as usize];
    ctx.tag("kinds of input", name);
    let mut h = hash_f64s(t.iter().flatten()) ^ kind << 56;
    let answered = match kind {
        0 => {
            let c = any_cell(rng);
            ctx.desc += &format!(" {}", c.describe());
            h ^= cell_hash(&c);
            let Some(mut s) = ctx.must("construct", || c.lib()) else { return };
            let before = state(&s);
            let r = ctx.call(|| s.apply_transformation(&to_na(&t), &0.05)).is_ok();
            if !r {
                ctx.check(state(&s) == before, "changed", || "the refused transformation changed the structure".into());
                ctx.count("unchanged after a refusal");
            }
            r
        }
        1 => {
            let n = (ctx.idx / 9 % 230) as u8 + 1;
            let mut g = SpaceGroup { operations: hall::prim_ops(n).iter().map(|o| lib_op(&o.r, &o.t)).collect() };
            let before: Vec<SOp> = g.operations.iter().map(sop_of).collect();
            let r = ctx.call(|| g.apply_transformation(&to_na(&t), &nalgebra::Vector3::new(1e-3, 1e-3, 1e-3))).is_ok();
            if !r {
                let after: Vec<SOp> = g.operations.iter().map(sop_of).collect();
                ctx.check(format!("{before:?}") == format!("{after:?}"), "changed", || "the refused transformation changed the group".into());
                ctx.count("unchanged after a refusal");
            }
            r
        }
        2 => {
            let n = (ctx.idx / 9 % 32) as u8 + 1;
            let Some(mut g) = ctx.must("point-group", || PointGroup::from_number(&n)) else { return };
            let before = (g.operations.clone(), g.generators.clone());
            let r = ctx.call(|| g.apply_transformation(&to_na(&t))).is_ok();
            if !r {
                ctx.check(before == (g.operations.clone(), g.generators.clone()), "changed", || "the refused transformation changed the group".into());
                ctx.count("unchanged after a refusal");
            }
            r
        }
        3 => ctx.call(|| Structure::new(to_na(&t), vec!["Au".into()], vec![nalgebra::Vector3::new(1.0, 2.0, 3.0)], true)).is_ok(),
        4 => {
            ctx.call(|| {
                let s = Structure::new(to_na(&t), vec!["Au".into()], vec![nalgebra::Vector3::new(0.1, 0.2, 0.3)], false);
                s.reciprocal_lattice()
            })
            .is_ok()
        }
        5 => {
            let n = if ctx.idx / 9 % 8 == 0 { 0 } else { rng.int(33, 255) as u8 };
            ctx.desc = format!("point group {n}");
            h = n as u64;
            ctx.call(|| PointGroup::from_number(&n).symbol).is_ok()
        }
        #[cfg(feature = "helpers")]
        6 => {
            let (n, m) = (rng.int(0, 6) as usize, rng.int(0, 6) as usize);
            if n == m {
                return;
            }
            let a: Vec<f64> = (0..n).map(|_| rng.unit()).collect();
            let mut b: Vec<f64> = a.iter().take(m).copied().collect();
            b.resize(m, 0.5);
            ctx.desc = format!("{a:?} and {b:?}");
            h = hash_f64s(a.iter().chain(&b)) ^ m as u64;
            match ctx.call(|| approx_equal_iter(a.iter(), b.iter(), &1e-3)) {
                // Calling them different would be an acceptable answer.
                Ok(eq) => eq,
                Err(_) => false,
            }
        }
        8 => {
            let mut c = any_cell(rng);
            if c.n() > 1 && rng.chance(0.5) {
                c.sp.pop();
            } else {
                c.sp.push("Au".into());
            }
            let cart = rng.chance(0.5);
            ctx.desc = format!("{} species, {}", c.sp.len(), c.describe());
            h = cell_hash(&c) ^ c.sp.len() as u64;
            ctx.call(|| if cart { c.lib_cart() } else { c.lib() }).is_ok()
        }
        _ => ctx.call(|| Structure::get_frac_coords(&to_na(&t), &[nalgebra::Vector3::new(1.0, 2.0, 3.0)])).is_ok(),
    };
    ctx.good(h);
    ctx.check(!answered, "answered", || format!("{name}: answered instead of refused"));
}

fn any_cell(rng: &mut Rng) -> Cell {
    let ty = crate::lattice::BRAVAIS[rng.int(0, 13) as usize];
    let (_, prim, _) = crate::lattice::generic_primitive(ty, rng);
    decorate(&prim, 4, rng)
}

fn state(s: &Structure) -> (Vec<u64>, Vec<String>) {
    (s.lattice.iter().chain(s.frac_coords.iter().flat_map(|x| x.iter())).chain(s.coords.iter().flat_map(|x| x.iter())).map(|x| x.to_bits()).collect(), s.species.clone())
}

fn c28(ctx: &mut Ctx, rng: &mut Rng) {
    let mut c = some_crystal(ctx.idx, rng, 4);
    let k: f64 = *rng.pick(&[0.25, 0.5, 2.0, 4.0, 16.0, 128.0]);
    ctx.tag("factors", k);
    let t = Tols { dtol: *rng.pick(&[0.01, 0.05, 0.1]), atol: 5.0, ntol: 1e-5 };
    let tk = Tols { dtol: t.dtol * k, ..t };
    if rng.chance(0.4) {
        // Symmetry that holds only within tolerance.
        c = displaced(&c, amplitude(&c, t.dtol, rng), rng);
        ctx.count("displaced");
    }
    let mut d = c.clone();
    for x in d.lat.iter_mut().flatten() {
        *x *= k;
    }
    ctx.desc = format!("factor {k} dtol={} {}", t.dtol, c.describe());
    ctx.good(cell_hash(&c));
    let cart = rng.chance(0.3);
    let (Some(a), Some(b)) = (
        ctx.must("construct", || if cart { c.lib_cart() } else { c.lib() }),
        ctx.must("construct", || if cart { d.lib_cart() } else { d.lib() }),
    ) else {
        return;
    };
    for op in 0..6 {
        let x = ctx.call(|| run_op(op, &a, &t)).unwrap_or(Outcome::Refused);
        let y = ctx.call(|| run_op(op, &b, &tk)).unwrap_or(Outcome::Refused);
        match (x, y) {
            (Outcome::S(l, sp, fr), Outcome::S(m, sq, gr)) => {
                ctx.count("structures compared");
                let lat = |v: &[f64], q: f64| -> M { [[v[0] / q, v[3] / q, v[6] / q], [v[1] / q, v[4] / q, v[7] / q], [v[2] / q, v[5] / q, v[8] / q]] };
                let p = Cell { lat: lat(&l, 1.0), sp, fr };
                let q = Cell { lat: lat(&m, k), sp: sq, fr: gr };
                ctx.check(params_close(&crate::lattice::params(&p.lat), &crate::lattice::params(&q.lat), 1e-6), "cell", || {
                    format!("{}: cell {:?}, in the other unit {:?}", OPS[op], p.lat, q.lat)
                });
                ctx.check(p.n() == q.n(), "count", || format!("{}: {} and {} sites", OPS[op], p.n(), q.n()));
                if let Err(e) = same_crystal(&p, &q, 1e-4) {
                    ctx.fail("crystal", format!("{}: {e}", OPS[op]));
                }
            }
            (Outcome::G(n, s, o), Outcome::G(m, u, w)) => {
                ctx.count("groups compared");
                ctx.check(n == m && s == u, "group", || format!("{n} {s}, in the other unit {m} {u}"));
                if let Err(e) = same_op_set(&w, &o, 1e-4) {
                    ctx.fail("operations", e);
                }
            }
            (Outcome::Refused, Outcome::Refused) => ctx.count("refused in both units"),
            (x, y) => {
                let w = |o: &Outcome| if let Outcome::Refused = o { "refused" } else { "answered" };
                ctx.fail("refused", format!("{}: {}, in the other unit {}", OPS[op], w(&x), w(&y)));
            }
        }
    }
}

/// Every number as it would be read from a text file.
fn printed(c: &Cell, decimals: i32) -> Cell {
    let k = 10f64.powi(decimals);
    let mut d = c.clone();
    for x in d.lat.iter_mut().flatten().chain(d.fr.iter_mut().flatten()) {
        *x = (*x * k).round() / k;
    }
    d
}

fn c29(ctx: &mut Ctx, rng: &mut Rng) {
    let base = if ctx.idx % 2 == 0 {
        let n = (ctx.idx / 2 % 230) as u8 + 1;
        let Some(c) = small_crystal(n, rng, &[6, 12, 24]) else { return };
        ctx.tag("groups", format!("{n:03}"));
        primitive_of(&c, hall::reference(n).centering)
    } else {
        let ty = crate::lattice::BRAVAIS[(ctx.idx / 2) as usize % 14];
        ctx.tag("Bravais types", ty);
        let (_, prim, _) = crate::lattice::generic_primitive(ty, rng);
        decorate_pseudo(&prim, 5, rng).0
    };
    let max_det = if base.n() <= 8 { 6 } else { 2 };
    let (c, _, _) = present(&base, &Pres { max_det, skew: 2, ..FULL }, rng);
    let decimals = rng.int(7, 9) as i32;
    ctx.tag("decimals", decimals);
    let d = printed(&c, decimals);
    let dtol = *rng.pick(&[0.01, 0.05, 0.1]);
    ctx.desc = format!("{decimals} decimals, dtol={dtol} {}", c.describe());
    let group = c.n() <= 24;
    let Some(x) = answers(ctx, &c, dtol, false, group) else { return };
    let Some(y) = answers(ctx, &d, dtol, false, group) else { return };
    ctx.good(cell_hash(&c));
    ctx.count("pairs compared");
    ctx.check(x.prim_sites == y.prim_sites && x.prim_sites == base.n(), "primitive-sites", || {
        format!("{} sites, as printed {}, expected {}", x.prim_sites, y.prim_sites, base.n())
    });
    for (i, name) in ["niggli", "conventional", "standard-primitive"].iter().enumerate() {
        ctx.check(params_close(&x.cells[i], &y.cells[i], 1e-4), name, || format!("{name} cell {:?}, as printed {:?}", x.cells[i], y.cells[i]));
    }
    if let (Some(a), Some(b)) = (x.group, y.group) {
        ctx.count("groups compared");
        ctx.check(a == b, "group", || format!("group {a}, as printed {b}"));
    }
}
