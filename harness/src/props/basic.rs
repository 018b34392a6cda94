//! Structures, coordinates, operations, helpers.

use super::*;
use crate::gen::*;
use crate::lattice::*;
use crate::rng::Rng;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::reduce::Reducer;
use crystsymm::symmop::SymmOp;
#[cfg(feature = "helpers")]
use crystsymm::utils;
use nalgebra::{Matrix3, Vector3};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C01",
            rule: "a case is counted when at least one structure built from fractional and one from Cartesian coordinates was judged; distinct by input bits",
            quick: 60_000,
            thorough: 2_000_000,
            case: c01,
            floor: |t| {
                for op in ["normalize", "transform", "primitive", "niggli", "delaunay", "conventional", "standard-primitive"] {
                    t.need(&format!("after {op}"), 100)?;
                }
                Ok(())
            },
            exhaustive: false,
            assumptions: &["agreement is judged to 1e-7 of the cell size"],
        },
        Spec {
            id: "C02",
            rule: "a case is one pair of lattices; counted when all accessors were compared; distinct by lattice bits",
            quick: 300_000,
            thorough: 8_000_000,
            case: c02,
            floor: |t| {
                t.need("left-handed", 1000)?;
                t.need("right-handed", 1000)?;
                t.need("very small", 100)?;
                t.need("very large", 100)
            },
            exhaustive: false,
            assumptions: &["relative rounding slack 1e-9, scaled with the conditioning of the lattice"],
        },
        Spec {
            id: "C03",
            rule: "a case is one structure, one list of vectors or one operation; counted when some coordinate lay outside the cell or on its boundary; distinct by input bits",
            quick: 300_000,
            thorough: 8_000_000,
            case: c03,
            floor: |t| {
                t.need("boundary coordinates", 1000)?;
                t.need("moved coordinates", 1000)?;
                t.need("reordered structures", 500)
            },
            exhaustive: false,
            assumptions: &["coordinates within 1e-9 of a window edge may fall on either side"],
        },
        Spec {
            id: "C04",
            rule: "a case is one crystal and one transformation other than the identity; distinct by crystal bits",
            quick: 12_000,
            thorough: 150_000,
            case: c04,
            floor: |t| {
                for k in ["skewed supercell", "elongated supercell", "same-size cell", "back to the period", "centring", "negative determinant", "wide tolerance"] {
                    t.need(k, 50)?;
                }
                Ok(())
            },
            exhaustive: false,
            assumptions: &["sites at least three tolerances apart"],
        },
        Spec {
            id: "C16",
            rule: "a case is one pair of operations and one point; distinct by operation bits",
            quick: 200_000,
            thorough: 3_000_000,
            case: c16,
            floor: |t| {
                t.need("equal pairs", 1000)?;
                t.need("unequal pairs", 1000)?;
                t.need("products", 1000)
            },
            exhaustive: false,
            assumptions: &["comparisons closer than 2% to the tolerance boundary are not judged"],
        },
        Spec {
            id: "C21",
            rule: "a case is one species list; counted with at least two sites; distinct by list",
            quick: 60_000,
            thorough: 350_000,
            case: c21,
            floor: |t| {
                t.need("more than 255 sites of one element", 100)?;
                t.need("reducible", 1000)?;
                t.need("ties for rarest", 500)
            },
            exhaustive: false,
            assumptions: &["at most 60000 sites (16-bit counters)"],
        },
        #[cfg(feature = "helpers")]
        Spec {
            id: "C25",
            rule: "a case is one batch of helper calls; batch 0.. also walks every packed rotation and translation; distinct by arguments",
            quick: 200_000,
            thorough: 8_000_000,
            case: c25,
            floor: |t| {
                t.need("packed rotations", 19_683)?;
                t.need("packed operations", 19_683)?;
                t.need("straddling pairs", 1000)
            },
            exhaustive: false,
            assumptions: &["comparisons closer than 2% to the tolerance boundary are not judged"],
        },
    ]
}

/// Any crystal: any Bravais type, a few sites.
pub fn any_crystal(rng: &mut Rng, max_sites: usize) -> Cell {
    let ty = *rng.pick(&BRAVAIS);
    let (_, prim, _) = generic_primitive(ty, rng);
    decorate_pseudo(&prim, max_sites, rng).0
}

fn c01(ctx: &mut Ctx, rng: &mut Rng) {
    let base = any_crystal(rng, 4);
    let (mut c, _, _) = present(&base, &Pres { max_det: 4, ..FULL }, rng);
    if rng.chance(0.3) {
        for x in c.fr.iter_mut() {
            for v in x.iter_mut() {
                *v += rng.int(-6, 6) as f64;
            }
        }
    }
    ctx.desc = c.describe();
    let lat = to_na(&c.lat);
    let fr: Vec<Vector3<f64>> = c.fr.iter().map(v_na).collect();
    let ca: Vec<Vector3<f64>> = c.cart().iter().map(v_na).collect();
    let scale = 1e-8 * (1.0 + c.lat.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()))) * 20.0;
    let Some(a) = ctx.must("new", || Structure::new(lat, c.sp.clone(), fr.clone(), false)) else { return };
    let Some(b) = ctx.must("new", || Structure::new(lat, c.sp.clone(), ca.clone(), true)) else { return };
    for (s, what) in [(&a, "fractional"), (&b, "Cartesian")] {
        if let Err(e) = consistent(s) {
            ctx.fail("new-disagree", format!("built from {what} coordinates: {e}"));
            return;
        }
        ctx.check(s.lattice == lat, "new-lattice", || format!("lattice changed when building from {what} coordinates"));
        ctx.check(s.species == c.sp, "new-species", || "species changed or reordered by construction".into());
        ctx.check(s.num_sites() == c.n(), "num-sites", || format!("num_sites {} for {} sites", s.num_sites(), c.n()));
    }
    ctx.check(a.frac_coords == fr, "new-keeps", || "given fractional coordinates were not kept".into());
    ctx.check(b.coords == ca, "new-keeps", || "given Cartesian coordinates were not kept".into());
    for i in 0..c.n() {
        let d = (a.coords[i] - ca[i]).norm();
        ctx.check(d <= scale, "new-cart", || format!("site {i}: derived Cartesian off by {d}"));
        let d = norm(&mv(&c.lat, &na_v(&(b.frac_coords[i] - fr[i]))));
        ctx.check(d <= scale, "new-frac", || format!("site {i}: derived fractional off by {d} angstrom"));
    }
    // There and back with the stand-alone converters.
    let Some(x) = ctx.must("convert", || Structure::get_frac_coords(&lat, &Structure::get_cart_coords(&lat, &fr))) else { return };
    let Some(y) = ctx.must("convert", || Structure::get_cart_coords(&lat, &fr)) else { return };
    if ctx.check(x.len() == fr.len() && y.len() == fr.len(), "convert-length", || "converter changed the number of points".into()) {
        for i in 0..fr.len() {
            ctx.check(norm(&mv(&c.lat, &na_v(&(x[i] - fr[i])))) <= scale, "roundtrip", || format!("fractional -> Cartesian -> fractional: {:?} became {:?}", fr[i], x[i]));
            ctx.check((y[i] - ca[i]).norm() <= scale, "convert-cart", || format!("Cartesian of {:?} is {:?}", fr[i], y[i]));
        }
    }
    ctx.good(cell_hash(&c));

    // A chain of operations; agreement is judged after each one.
    let dtol = *rng.pick(&[0.01, 0.05, 0.1]);
    let red = Reducer { dtol, atol: 5.0 };
    let sa = SymmetryAnalyzer { dtol, atol: 5.0 };
    let mut s = if rng.chance(0.5) { a } else { b };
    for _ in 0..rng.int(1, 5) {
        let k = rng.int(0, 7);
        let (name, r): (&str, Result<Structure, String>) = match k {
            0 => ("normalize", ctx.call(|| { let mut q = s.clone(); q.normalize_coords(&dtol); q })),
            1 => {
                let t = super_matrix(rng, 3, 2);
                if s.num_sites() as i64 * idet(&t).abs() > 40 {
                    continue;
                }
                ("transform", ctx.call(|| { let mut q = s.clone(); q.apply_transformation(&to_na(&f(&t)), &dtol); q }))
            }
            2 => ("primitive", ctx.call(|| red.find_primitive_cell(&s))),
            3 => ("niggli", ctx.call(|| red.niggli_reduce(&s, &1e-5))),
            4 => ("delaunay", ctx.call(|| red.delaunay_reduce(&s, false))),
            5 => ("delaunay", ctx.call(|| red.delaunay_reduce(&s, true))),
            6 => ("conventional", ctx.call(|| sa.get_standard_conventional_structure(&s))),
            _ => ("standard-primitive", ctx.call(|| sa.get_standard_primitive_structure(&s))),
        };
        match r {
            // Totality is judged by C04-C10 and C26.
            Err(_) => {
                ctx.count("calls that failed (judged elsewhere)");
                return;
            }
            Ok(q) => {
                ctx.count(&format!("after {name}"));
                if let Err(e) = consistent(&q) {
                    ctx.fail(&format!("{name}-disagree"), format!("after {name}: {e}"));
                    return;
                }
                s = q;
            }
        }
    }
}

/// Any non-singular lattice, either handedness, many scales.
fn any_lattice(rng: &mut Rng) -> M {
    loop {
        let mut l = if rng.chance(0.5) {
            let (l, _) = bravais_lattice(*rng.pick(&BRAVAIS), rng);
            mul(&l, &f(&unimodular(rng, 3)))
        } else {
            let mut l = [[0.0; 3]; 3];
            for r in l.iter_mut() {
                for x in r.iter_mut() {
                    *x = rng.range(-8.0, 8.0);
                }
            }
            l
        };
        if rng.chance(0.5) {
            l = mul(&random_rotation(rng), &l);
        }
        let s = match rng.int(0, 5) {
            0 => rng.range(0.1, 0.3),
            1 => rng.range(20.0, 80.0),
            _ => 1.0,
        };
        // Anisotropic: one long or one short axis.
        let mut ax = [s, s, s];
        if rng.chance(0.3) {
            ax[rng.int(0, 2) as usize] *= *rng.pick(&[0.2, 8.0]);
        }
        for r in l.iter_mut() {
            for j in 0..3 {
                r[j] *= ax[j];
            }
        }
        if rng.chance(0.4) {
            for r in l.iter_mut() {
                r.swap(0, 1);
            }
        }
        let n: f64 = (0..3).map(|i| norm(&col(&l, i))).product();
        if det(&l).abs() > 0.02 * n {
            return l;
        }
    }
}

fn c02(ctx: &mut Ctx, rng: &mut Rng) {
    let l = any_lattice(rng);
    let m = any_lattice(rng);
    ctx.desc = format!("lattice(rows)={l:?} other={m:?}");
    ctx.count(if det(&l) < 0.0 { "left-handed" } else { "right-handed" });
    let len: Vec<f64> = (0..3).map(|i| norm(&col(&l, i))).collect();
    if len.iter().any(|x| *x < 1.0) {
        ctx.count("very small");
    }
    if len.iter().any(|x| *x > 150.0) {
        ctx.count("very large");
    }
    let mk = |l: &M| Structure::new(to_na(l), vec!["X".into()], vec![Vector3::new(0.1, 0.2, 0.3)], false);
    let Some(s) = ctx.must("new", || mk(&l)) else { return };
    let Some(o) = ctx.must("new", || mk(&m)) else { return };
    let p = params(&l);
    let vol = det(&l).abs();
    let big = len.iter().fold(0.0f64, |a, b| a.max(*b));
    let got = ctx.must("accessor", || {
        (s.a(), s.b(), s.c(), s.alpha(), s.beta(), s.gamma(), s.volume(), s.metric_tensor(), s.reciprocal_lattice(), s.delaunay_matrix(), s.get_transformation_matrix(&o))
    });
    let Some((a, b, c, al, be, ga, v, g, r, d, t)) = got else { return };
    for (n, x, y) in [("a", a, p[0]), ("b", b, p[1]), ("c", c, p[2])] {
        ctx.check((x - y).abs() <= 1e-9 * y, "length", || format!("{n} = {x}, expected {y}"));
    }
    for (n, x, y) in [("alpha", al, p[3]), ("beta", be, p[4]), ("gamma", ga, p[5])] {
        let ok = (0.0..=180.0).contains(&x) && ((x.to_radians()).cos() - y.to_radians().cos()).abs() <= 1e-9;
        ctx.check(ok, "angle", || format!("{n} = {x} degrees, expected {y}"));
    }
    ctx.check((v - vol).abs() <= 1e-9 * len.iter().product::<f64>(), "volume", || format!("volume {v}, expected {vol}"));
    let gm = metric(&l);
    ctx.check(max_abs_diff(&from_na(&g), &gm) <= 1e-9 * big * big, "metric", || format!("metric {g:?}, expected {gm:?}"));
    // r_i . a_j = 2 pi delta_ij
    let e = mul(&crate::la::t(&from_na(&r)), &l);
    let two_pi = 2.0 * std::f64::consts::PI;
    let want = [[two_pi, 0.0, 0.0], [0.0, two_pi, 0.0], [0.0, 0.0, two_pi]];
    ctx.check(max_abs_diff(&e, &want) <= 1e-7 * big / len.iter().fold(f64::INFINITY, |a, b| a.min(*b)), "reciprocal", || format!("reciprocal x lattice = {e:?}"));
    for i in 0..3 {
        let s4 = -(l[i][0] + l[i][1] + l[i][2]);
        let ok = (0..3).all(|j| d[(i, j)] == l[i][j]) && (d[(i, 3)] - s4).abs() <= 1e-9 * big;
        ctx.check(ok, "delaunay-set", || format!("Delaunay set {d:?}"));
    }
    let prod = mul(&l, &from_na(&t));
    let sm = m.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    ctx.check(max_abs_diff(&prod, &m) <= 1e-6 * sm, "relation", || format!("lattice x transformation = {prod:?}, expected {m:?}"));
    ctx.good(hash_f64s(l.iter().flatten()));
}

/// Is `y` a valid normalization of `x` with window [-tol, 1-tol]?
fn norm_ok(x: f64, y: f64, tol: f64) -> Result<(), String> {
    let slack = 1e-9 + 1e-12 * x.abs();
    if !(y >= -tol - slack && y <= 1.0 - tol + slack) {
        return Err(format!("{x} became {y}, outside [-{tol}, 1-{tol}]"));
    }
    let k = x - y;
    if !((k - k.round()).abs() <= slack) {
        return Err(format!("{x} became {y}: not a whole-number shift"));
    }
    Ok(())
}

fn edge(rng: &mut Rng, tol: f64) -> f64 {
    let k = rng.int(-3, 3) as f64;
    match rng.int(0, 9) {
        0 => k,
        1 => k + tol * rng.range(-0.98, 0.98),
        2 => k + tol * 1.05,
        3 => k - tol * 1.05,
        4 => k + 0.5,
        5 => rng.range(-80.0, 80.0),
        6 => k + *rng.pick(&[1e-13, -1e-13, 1e-7, -1e-7]),
        _ => rng.range(-2.0, 2.0),
    }
}

fn on_edge(x: f64, tol: f64) -> bool {
    (wrap_half(x + tol)).abs() < 1e-8
}

fn c03(ctx: &mut Ctx, rng: &mut Rng) {
    match rng.int(0, 3) {
        #[cfg(feature = "helpers")]
        0 => {
            let tols = Vector3::new(rng.range(1e-5, 0.1), rng.range(1e-5, 0.1), rng.range(1e-5, 0.1));
            let n = rng.int(1, 5) as usize;
            let v: Vec<Vector3<f64>> = (0..n).map(|_| Vector3::new(edge(rng, tols[0]), edge(rng, tols[1]), edge(rng, tols[2]))).collect();
            ctx.desc = format!("vectors {v:?} tols {tols:?}");
            let Some(w) = ctx.must("vectors", || { let mut w = v.clone(); utils::normalize_frac_vectors(&mut w, &tols); w }) else { return };
            let Some(z) = ctx.must("vectors", || { let mut w = w.clone(); utils::normalize_frac_vectors(&mut w, &tols); w }) else { return };
            if !ctx.check(w.len() == n && z.len() == n, "vectors-count", || "vectors lost or added".into()) {
                return;
            }
            for i in 0..n {
                for d in 0..3 {
                    tally(ctx, v[i][d], w[i][d]);
                    if let Err(e) = norm_ok(v[i][d], w[i][d], tols[d]) {
                        ctx.fail("vector", e);
                    }
                    if !on_edge(v[i][d], tols[d]) {
                        ctx.check((w[i][d] - z[i][d]).abs() < 1e-12, "vector-twice", || format!("normalizing {} again gave {}", w[i][d], z[i][d]));
                    }
                }
            }
            ctx.good(hash_f64s(v.iter().flat_map(|x| x.iter())));
        }
        1 => {
            let tols = Vector3::new(rng.range(1e-5, 0.1), rng.range(1e-5, 0.1), rng.range(1e-5, 0.1));
            let t = [edge(rng, tols[0]), edge(rng, tols[1]), edge(rng, tols[2])];
            let r = unimodular(rng, 0);
            let op = lib_op(&r, &t);
            ctx.desc = format!("operation {op:?} tols {tols:?}");
            let Some(p) = ctx.must("operation", || { let mut p = op.clone(); p.normalize(&tols); p }) else { return };
            ctx.check(p.rotation == op.rotation, "operation-rotation", || "normalizing changed the rotation".into());
            for d in 0..3 {
                tally(ctx, t[d], p.translation[d]);
                if let Err(e) = norm_ok(t[d], p.translation[d], tols[d]) {
                    ctx.fail("operation", e);
                }
            }
            ctx.good(hash_f64s(t.iter()));
        }
        _ => {
            let l = any_lattice(rng);
            let min = (0..3).map(|i| norm(&col(&l, i))).fold(f64::INFINITY, f64::min);
            let tol = rng.range(0.001, 0.2) * min.min(1.0);
            let n = rng.int(1, 9) as usize;
            let ft: Vec<f64> = (0..3).map(|i| tol / norm(&col(&l, i))).collect();
            let names = ["O", "Au", "C", "Ca", "Cl", "b", "B", "Zz9", "é"];
            let c = Cell {
                lat: l,
                sp: (0..n).map(|_| rng.pick(&names).to_string()).collect(),
                fr: (0..n).map(|_| [edge(rng, ft[0]), edge(rng, ft[1]), edge(rng, ft[2])]).collect(),
            };
            ctx.desc = format!("tol {tol} {}", c.describe());
            let Some(s) = ctx.must("structure", || { let mut s = c.lib(); s.normalize_coords(&tol); s }) else { return };
            let Some(z) = ctx.must("structure", || { let mut z = s.clone(); z.normalize_coords(&tol); z }) else { return };
            if let Err(e) = consistent(&s) {
                ctx.fail("structure-disagree", e);
                return;
            }
            ctx.check(from_na(&s.lattice) == l, "structure-lattice", || "lattice changed".into());
            // Expected order: stable by species.
            let mut order: Vec<usize> = (0..n).collect();
            order.sort_by(|a, b| c.sp[*a].cmp(&c.sp[*b]));
            if order.windows(2).any(|w| w[0] > w[1]) {
                ctx.count("reordered structures");
            }
            if !ctx.check(s.num_sites() == n && z.num_sites() == n, "structure-count", || "number of sites changed".into()) {
                return;
            }
            for (k, i) in order.iter().enumerate() {
                if !ctx.check(s.species[k] == c.sp[*i], "structure-species", || format!("site {k} is {}, expected {}", s.species[k], c.sp[*i])) {
                    return;
                }
                for d in 0..3 {
                    tally(ctx, c.fr[*i][d], s.frac_coords[k][d]);
                    if let Err(e) = norm_ok(c.fr[*i][d], s.frac_coords[k][d], ft[d]) {
                        ctx.fail("structure", format!("site {k} (input {i}) {}: {e}", c.sp[*i]));
                        return;
                    }
                    if !on_edge(c.fr[*i][d], ft[d]) {
                        ctx.check((s.frac_coords[k][d] - z.frac_coords[k][d]).abs() < 1e-12, "structure-twice", || "normalizing twice differs from once".into());
                    }
                }
            }
            ctx.good(cell_hash(&c));
        }
    }
}

fn tally(ctx: &mut Ctx, x: f64, y: f64) {
    if wrap_half(x).abs() < 1e-6 {
        ctx.count("boundary coordinates");
    }
    if (x - y).abs() > 0.5 {
        ctx.count("moved coordinates");
    }
}

fn c04(ctx: &mut Ctx, rng: &mut Rng) {
    let base = any_crystal(rng, if ctx.thorough { 6 } else { 4 });
    let mut tol = *rng.pick(&[0.001, 0.01, 0.05, 0.1]);
    let kind = rng.int(0, 9);
    // Up to a third of the spacing, where no two sites can be one yet.
    let wide = rng.chance(0.3);
    if wide {
        tol = min_dist(&base) / rng.range(3.0, 5.0);
        ctx.count("wide tolerance");
    }
    let pres = Pres { max_det: 1, skew: 2, ..FULL };
    let (c, _, _) = present(&base, &pres, rng);
    let cols: &mut IM = &mut IID.clone();
    let (name, t): (&str, M) = match kind {
        0..=2 => ("skewed supercell", f(&super_matrix(rng, if ctx.thorough { 24 } else { 12 }, 2))),
        3..=4 => {
            let far = ctx.thorough && rng.chance(0.1);
            let k = rng.int(3, if far { 40 } else { 12 });
            let i = rng.int(0, 2) as usize;
            cols[i][i] = k;
            if rng.chance(0.5) {
                cols[i][(i + 1) % 3] = rng.int(-2, 2);
            }
            ("elongated supercell", f(cols))
        }
        5 => ("same-size cell", f(&unimodular(rng, 3))),
        6..=7 => {
            // Start from a supercell and go back to the period.
            let h = super_matrix(rng, 12, 1);
            let big = c.supercell(&h);
            ctx.count("back to the period");
            return shrink(ctx, rng, &c, &big, &inv(&f(&h)), tol);
        }
        _ => {
            // Conventional cell of a centred lattice <-> primitive cell.
            let ty = *rng.pick(&["mC", "oC", "oI", "oF", "tI", "hR", "cI", "cF"]);
            let (conv, prim, cen) = generic_primitive(ty, rng);
            let p = decorate(&prim, 3, rng);
            if wide {
                tol = min_dist(&p) / rng.range(3.0, 5.0);
            }
            let h = to_int(&mul(&inv(&prim), &conv), 1e-6).expect("centring");
            let big = p.supercell(&h);
            ctx.count("centring");
            return shrink(ctx, rng, &p, &big, &crate::hall::prim_basis(cen), tol);
        }
    };
    let mut t = t;
    if rng.chance(0.3) {
        for r in t.iter_mut() {
            r[0] = -r[0];
        }
    }
    if det(&t) < 0.0 {
        ctx.count("negative determinant");
    }
    ctx.count(name);
    ctx.desc = format!("{name} T={t:?} tol={tol} {}", c.describe());
    let Some(s) = ctx.must("construct", || if rng.chance(0.3) { c.lib_cart() } else { c.lib() }) else { return };
    let Some(q) = ctx.must("transform", || { let mut q = s.clone(); q.apply_transformation(&to_na(&t), &tol); q }) else { return };
    judge_transform(ctx, &c, &t, &q);
    if ctx.fails.is_empty() && rng.chance(0.5) {
        // and back
        let ti = inv(&t);
        let Some(b) = ctx.must("transform-back", || { let mut b = q.clone(); b.apply_transformation(&to_na(&ti), &tol); b }) else { return };
        ctx.count("there and back");
        let bc = Cell::from_lib(&b);
        ctx.check(b.num_sites() == c.n(), "back-count", || format!("{} sites after going there and back, had {}", b.num_sites(), c.n()));
        if let Err(e) = same_crystal(&c, &bc, 1e-4) {
            ctx.fail("back-crystal", format!("there and back: {e}"));
        }
    }
    ctx.good(cell_hash(&c) ^ hash_f64s(t.iter().flatten()));
}

fn judge_transform(ctx: &mut Ctx, c: &Cell, t: &M, q: &Structure) {
    let qc = Cell::from_lib(q);
    let want = mul(&c.lat, t);
    let s = want.iter().flatten().fold(1.0f64, |a, b| a.max(b.abs()));
    ctx.check(max_abs_diff(&qc.lat, &want) <= 1e-8 * s, "lattice", || format!("lattice {:?}, expected L*T = {want:?}", qc.lat));
    let d = (det(t).abs() * c.n() as f64).round() as usize;
    ctx.check(qc.n() == d, "count", || format!("{} sites, expected {d}", qc.n()));
    if let Err(e) = consistent(q) {
        ctx.fail("disagree", e);
        return;
    }
    if let Err(e) = same_crystal(c, &qc, 1e-4) {
        ctx.fail("crystal", e);
    }
}

fn shrink(ctx: &mut Ctx, rng: &mut Rng, small: &Cell, big: &Cell, t: &M, tol: f64) {
    let mut big = big.clone();
    if rng.chance(0.7) {
        shuffle_sites(&mut big, rng);
    }
    ctx.desc = format!("to the period T={t:?} tol={tol} {}", big.describe());
    let Some(q) = ctx.must("transform", || { let mut q = big.lib(); q.apply_transformation(&to_na(t), &tol); q }) else { return };
    judge_transform(ctx, &big, t, &q);
    ctx.check(q.num_sites() == small.n(), "shrink-count", || format!("{} sites, the period holds {}", q.num_sites(), small.n()));
    if ctx.fails.is_empty() && rng.chance(0.5) {
        let ti = inv(t);
        let Some(b) = ctx.must("transform-back", || { let mut b = q.clone(); b.apply_transformation(&to_na(&ti), &tol); b }) else { return };
        ctx.count("there and back");
        let bc = Cell::from_lib(&b);
        ctx.check(b.num_sites() == big.n(), "back-count", || format!("{} sites after going there and back, had {}", b.num_sites(), big.n()));
        if let Err(e) = same_crystal(&big, &bc, 1e-4) {
            ctx.fail("back-crystal", format!("there and back: {e}"));
        }
    }
    ctx.good(cell_hash(&big));
}

/// A crystallographic rotation from one of the 230 groups, possibly rebased.
pub fn any_rotation(rng: &mut Rng) -> IM {
    let n = rng.int(1, 230) as u8;
    let r = crate::hall::reference(n);
    let o = rng.pick(&r.ops).r;
    let u = if rng.chance(0.3) { unimodular(rng, 1) } else { IID };
    imul(&imul(&iinv(&u), &o), &u)
}

thread_local! {
    static ROTS: std::cell::RefCell<Vec<IM>> = const { std::cell::RefCell::new(vec![]) };
}

/// All rotations of the cubic and hexagonal holohedries.
fn std_rotations() -> Vec<IM> {
    ROTS.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_empty() {
            for n in [221u8, 191] {
                c.extend(crate::hall::reference(n).ops.iter().map(|o| o.r));
            }
            c.sort();
            c.dedup();
        }
        c.clone()
    })
}

fn c16(ctx: &mut Ctx, rng: &mut Rng) {
    let rots = std_rotations();
    let pick = |rng: &mut Rng| -> IM {
        let r = *rng.pick(&rots);
        let u = if rng.chance(0.3) { unimodular(rng, 1) } else { IID };
        imul(&imul(&iinv(&u), &r), &u)
    };
    let tr = |rng: &mut Rng| -> V {
        let mut t = [0.0; 3];
        for x in t.iter_mut() {
            *x = if rng.chance(0.5) { rng.int(-12, 24) as f64 / 12.0 } else { rng.range(-2.0, 2.0) };
        }
        t
    };
    let tols = [rng.range(1e-4, 0.05), rng.range(1e-4, 0.05), rng.range(1e-4, 0.05)];
    let (ra, ta) = (pick(rng), tr(rng));
    // Second operation: often almost the first one.
    let (rb, tb, want): (IM, V, Option<bool>) = if rng.chance(0.6) {
        let mut tb = ta;
        let mut eq = true;
        for d in 0..3 {
            let x = match rng.int(0, 5) {
                0 => rng.range(1.02, 1.5),
                1 => -rng.range(1.02, 1.5),
                2 => rng.range(-0.5, 0.5) / tols[d],
                3 => 0.0,
                _ => rng.range(-0.98, 0.98),
            };
            let dv = x * tols[d];
            let k = rng.int(-2, 2) as f64;
            tb[d] += dv + k;
            let far = wrap_half(dv).abs();
            if far > tols[d] {
                eq = false;
            }
            if far > 0.98 * tols[d] && far < 1.02 * tols[d] {
                return;
            }
        }
        let rb = if rng.chance(0.15) { pick(rng) } else { ra };
        (rb, tb, Some(eq && rb == ra))
    } else {
        (pick(rng), tr(rng), None)
    };
    let a = lib_op(&ra, &ta);
    let b = lib_op(&rb, &tb);
    let tv = v_na(&tols);
    ctx.desc = format!("a={a:?} b={b:?} tols={tols:?}");
    if let Some(w) = want {
        let Some((x, y)) = ctx.must("compare", || (a.is_approx_eq(&b, &tv), b.is_approx_eq(&a, &tv))) else { return };
        ctx.count(if w { "equal pairs" } else { "unequal pairs" });
        ctx.check(x == w, "compare", || format!("compared {x}, expected {w}"));
        ctx.check(y == w, "compare-swapped", || format!("swapped sides compared {y}, expected {w}"));
    }
    let x = tr(rng);
    let Some(y) = ctx.must("apply", || a.clone() * v_na(&x)) else { return };
    let w = add(&mv(&f(&ra), &x), &ta);
    ctx.check(norm(&sub(&na_v(&y), &w)) < 1e-10, "apply", || format!("applied to {x:?}: {y:?}, expected {w:?}"));
    let Some(p) = ctx.must("product", || a.clone() * b.clone()) else { return };
    ctx.count("products");
    let rp = imul(&ra, &rb);
    if ctx.check(rot_of(&p.rotation) == rp, "product-rotation", || format!("rotation of product {:?}, expected {rp:?}", p.rotation)) {
        let want = add(&mv(&f(&ra), &tb), &ta);
        let rev = add(&mv(&f(&rb), &ta), &tb);
        let got = na_v(&p.translation);
        if norm(&wrap_half_v(&sub(&got, &want))) > 1e-9 {
            if norm(&sub(&got, &rev)) < 1e-9 {
                ctx.fail("product-translation-reversed", format!("translation of product {got:?}, expected {want:?}"));
            } else {
                ctx.fail("product-translation", format!("translation of product {got:?}, expected {want:?}"));
            }
        }
    }
    ctx.good(hash_f64s(ta.iter().chain(tb.iter())) ^ (itrace(&ra) as u64));
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn c21(ctx: &mut Ctx, rng: &mut Rng) {
    let names = ["Au", "Se", "O", "Si", "P", "H", "C", "Ca", "Cl", "Na", "S", "X-1", "vac", "é", "D2O", " ", "zz", "Uuo"];
    let k = rng.int(1, 6) as usize;
    let mult = *rng.pick(&[1usize, 1, 2, 3, 4, 6, 12, 64, 128]);
    let mut counts: std::collections::BTreeMap<String, usize> = Default::default();
    for _ in 0..k {
        let c = match rng.int(0, 9) {
            0 => rng.int(100, 700) as usize,
            1..=2 => 1,
            3 => *rng.pick(&[127usize, 128, 255, 256, 257]),
            _ => rng.int(1, 12) as usize,
        };
        counts.insert(rng.pick(&names).to_string(), c * mult);
    }
    let total: usize = counts.values().sum();
    if total > 60_000 {
        return;
    }
    let mut sp: Vec<String> = vec![];
    for (s, n) in &counts {
        for _ in 0..*n {
            sp.push(s.clone());
        }
    }
    rng.shuffle(&mut sp);
    ctx.desc = format!("counts {counts:?} order begins {:?}", &sp[..sp.len().min(12)]);
    let n = sp.len();
    let Some(s) = ctx.must("new", || Structure::new(Matrix3::identity(), sp.clone(), vec![Vector3::zeros(); n], false)) else { return };
    let g = counts.values().fold(0, |a, b| gcd(a, *b));
    let form = |div: usize| -> String {
        counts.iter().map(|(s, n)| if n / div == 1 { s.clone() } else { format!("{s}{}", n / div) }).collect()
    };
    let Some((full, red)) = ctx.must("formulas", || s.formulas()) else { return };
    ctx.check(full == form(1), "formula", || format!("formula {full}, expected {}", form(1)));
    ctx.check(red == form(g), "reduced-formula", || format!("reduced formula {red}, expected {}", form(g)));
    let Some((min, first, tally)) = ctx.must("element-statistics", || s.get_min_element()) else { return };
    let least = *counts.values().min().unwrap();
    let want = counts.iter().find(|(_, n)| **n == least).unwrap().0;
    ctx.check(&min == want, "min-element", || format!("minimum element {min}, expected {want}"));
    ctx.check(tally.len() == counts.len() && counts.iter().all(|(s, n)| tally.get(s).map(|x| *x as usize) == Some(*n)), "element-counts", || format!("element counts {tally:?}"));
    let ok = first.len() == counts.len() && counts.keys().all(|s| first.get(s).map(|x| *x as usize) == sp.iter().position(|e| e == s));
    ctx.check(ok, "first-index", || format!("first indices {first:?}"));
    if counts.values().any(|n| *n > 255) {
        ctx.count("more than 255 sites of one element");
    }
    if g > 1 {
        ctx.count("reducible");
    }
    if counts.values().filter(|n| **n == least).count() > 1 {
        ctx.count("ties for rarest");
    }
    if n > 1 {
        let mut h = 0u64;
        for x in &sp {
            for b in x.bytes() {
                h = h.wrapping_mul(1_000_003).wrapping_add(b as u64);
            }
        }
        ctx.good(h);
    }
}

#[cfg(feature = "helpers")]
fn c25(ctx: &mut Ctx, rng: &mut Rng) {
    // --- packed integers: every rotation, translations in turn
    let num = (ctx.idx % 19_683) as u32;
    let mut digits = vec![0i8; 9];
    let mut e = num;
    for d in (0..9).rev() {
        digits[d] = (e % 3) as i8 - 1;
        e /= 3;
    }
    let Some(got) = ctx.must("decode", || utils::decode(num, 3, 1, 9)) else { return };
    ctx.count("packed rotations");
    ctx.check(got == digits, "decode", || format!("decode({num}, 3, 1, 9) = {got:?}, expected {digits:?}"));
    let map = [0i8, 2, 3, 4, 6, 8, 9, 10];
    let tr = ((ctx.idx * 7 + ctx.idx / 512) % 512) as u32;
    let tv = vec![map[(tr / 64) as usize], map[(tr / 8 % 8) as usize], map[(tr % 8) as usize]];
    let packed = tr * 19_683 + num;
    let Some(got) = ctx.must("decode-operation", || utils::decode_spg_op(packed)) else { return };
    ctx.count("packed operations");
    ctx.check(got == (digits.clone(), tv.clone()), "decode-operation", || format!("decode({packed}) = {got:?}, expected {digits:?} {tv:?}"));
    // any base
    let (base, sub, len) = (rng.int(2, 12) as u8, rng.int(0, 3) as i8, rng.int(1, 6) as i8);
    let ds: Vec<i64> = (0..len).map(|_| rng.int(0, base as i64 - 1)).collect();
    let enc = ds.iter().fold(0u32, |a, d| a * base as u32 + *d as u32);
    let want: Vec<i8> = ds.iter().map(|d| *d as i8 - sub).collect();
    let Some(got) = ctx.must("decode-base", || utils::decode(enc, base, sub, len)) else { return };
    ctx.check(got == want, "decode-base", || format!("decode({enc}, {base}, {sub}, {len}) = {got:?}, expected {want:?}"));

    // --- comparisons
    let tol = 10f64.powf(rng.range(-8.0, -1.0));
    let pair = |rng: &mut Rng| -> (f64, f64, bool) {
        let a = if rng.chance(0.2) { 0.0 } else { rng.range(-3.0, 3.0) };
        let x = if rng.chance(0.5) { rng.range(0.0, 0.97) } else { rng.range(1.03, 40.0) };
        let s = if rng.chance(0.5) { 1.0 } else { -1.0 };
        (a, a + s * x * tol, x < 1.0)
    };
    let (a, b, eq) = pair(rng);
    ctx.desc = format!("a={a} b={b} tol={tol}");
    ctx.count("straddling pairs");
    let Some((p, q)) = ctx.must("compare", || (utils::cust_eq(&a, &b, &tol), utils::approx_equal(&a, &b, &tol))) else { return };
    ctx.check(p == eq, "compare", || format!("tolerance equality of {a} and {b} at {tol} is {p}"));
    ctx.check(q == eq, "approx", || format!("approximate equality of {a} and {b} at {tol} is {q}"));
    let n = rng.int(1, 7) as usize;
    let bad = rng.int(0, 2 * n as i64) as usize;
    let (mut va, mut vb) = (vec![], vec![]);
    for i in 0..n {
        loop {
            let (x, y, e) = pair(rng);
            if e == (i != bad) {
                va.push(x);
                vb.push(y);
                break;
            }
        }
    }
    let want = bad >= n;
    let Some(p) = ctx.must("lists", || utils::approx_equal_iter(va.iter(), vb.iter(), &tol)) else { return };
    ctx.check(p == want, "lists", || format!("lists {va:?} {vb:?} at {tol} compare {p}"));
    // matrices: one tolerance per entry, in storage order
    let bad = rng.int(0, 18) as usize;
    let mut tols = [0.0; 9];
    let (mut ma, mut mb) = (Matrix3::zeros(), Matrix3::zeros());
    for i in 0..9 {
        tols[i] = 10f64.powf(rng.range(-6.0, -1.0));
        let a = rng.range(-2.0, 2.0);
        let x = if i == bad { rng.range(1.05, 9.0) } else { rng.range(0.0, 0.95) };
        ma[i] = a;
        mb[i] = a + x * tols[i] * if rng.chance(0.5) { 1.0 } else { -1.0 };
    }
    let Some(p) = ctx.must("matrices", || utils::compare_matrices(&ma, &mb, &tols)) else { return };
    ctx.check(p == (bad >= 9), "matrices", || format!("matrices {ma:?} {mb:?} at {tols:?} compare {p}"));
    // negatives and zeros
    let m = rng.int(0, 8) as usize;
    let (mut v, mut neg, mut zero) = (vec![], 0i8, 0i8);
    for _ in 0..m {
        match rng.int(0, 3) {
            0 => {
                v.push(-tol * rng.range(1.03, 1e4));
                neg += 1;
            }
            1 => {
                v.push(tol * rng.range(-0.97, 0.97));
                zero += 1;
            }
            2 => {
                v.push(0.0);
                zero += 1;
            }
            _ => v.push(tol * rng.range(1.03, 1e4)),
        }
    }
    let Some(p) = ctx.must("negative-zero", || utils::num_negative_zero(&v, &tol)) else { return };
    ctx.check(p == (neg, zero), "negative-zero", || format!("{v:?} at {tol}: {p:?}, expected ({neg}, {zero})"));
    ctx.good(hash_f64s([a, b, tol, packed as f64].iter()));
}

#[allow(dead_code)]
fn _unused(_: SymmOp) {}
