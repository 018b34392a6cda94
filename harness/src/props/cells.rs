//! Primitive, Niggli, Delaunay and standard cells.

use super::*;
use crate::gen::*;
use crate::lattice::*;
use crate::rng::Rng;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::reduce::Reducer;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C05",
            rule: "a case is one primitive crystal written as some cell; counted when the written cell is not the primitive one; distinct by written cell",
            quick: 40_000,
            thorough: 500_000,
            case: c05,
            floor: |t| {
                t.need("cells with extra translations", 1000)?;
                t.need("elongated", 100)?;
                t.need("superstructures", 500)?;
                t.need("left-handed", 500)?;
                t.need_tags("Bravais types", 14)
            },
            exhaustive: false,
            assumptions: &["sites at least 0.7 angstrom apart; no approximate translation within 0.3 angstrom; tolerance at most 0.1 angstrom"],
        },
        Spec {
            id: "C06",
            rule: "a case is one lattice with sites in one basis; counted when that basis is not already reduced; distinct by lattice bits",
            quick: 200_000,
            thorough: 6_000_000,
            case: c06,
            floor: |t| {
                t.need("not reduced before", 2000)?;
                t.need("left-handed", 1000)?;
                t.need("strained", 2000)?;
                t.need_tags("lattice characters", 43)?;
                t.need_tags("Bravais types", 14)
            },
            exhaustive: false,
            assumptions: &["squared lengths of short lattice vectors are equal or differ by more than the reduction tolerance; at most 5 elementary shears"],
        },
        Spec {
            id: "C07",
            rule: "a case is one lattice in several bases; distinct by lattice bits",
            quick: 100_000,
            thorough: 4_000_000,
            case: c07,
            floor: |t| {
                t.need_tags("lattice characters", 43)?;
                t.need("presentations compared", 10_000)
            },
            exhaustive: false,
            assumptions: &["as C06"],
        },
        Spec {
            id: "C08",
            rule: "a case is one crystal in one basis; counted when the basis had a positive scalar product; distinct by lattice bits",
            quick: 200_000,
            thorough: 6_000_000,
            case: c08,
            floor: |t| {
                t.need("not reduced before", 2000)?;
                t.need("left-handed", 1000)?;
                t.need_tags("Bravais types", 14)
            },
            exhaustive: false,
            assumptions: &["at most 5 elementary shears, or more and a refusal is accepted"],
        },
        Spec {
            id: "C09",
            rule: "a case is one crystal on a lattice of known Bravais type; distinct by written cell",
            quick: 50_000,
            thorough: 1_500_000,
            case: c09,
            floor: |t| {
                t.need_tags("lattice characters", 42)?;
                t.need_tags("Bravais types", 14)?;
                t.need("supercells", 500)
            },
            exhaustive: false,
            assumptions: &["lattice metric unambiguous within the classification tolerance; true symmetry of the lattice from brute-force automorphisms"],
        },
        Spec {
            id: "C10",
            rule: "a case is one crystal on a lattice of known Bravais type; distinct by written cell",
            quick: 50_000,
            thorough: 1_200_000,
            case: c10,
            floor: |t| {
                t.need_tags("lattice characters", 42)?;
                t.need_tags("centrings", 5)?;
                t.need_tags("Bravais types", 14)
            },
            exhaustive: false,
            assumptions: &["as C09"],
        },
    ]
}

const TOLS: [f64; 4] = [0.01, 0.02, 0.05, 0.1];

pub fn elongated(c: &Cell, rng: &mut Rng, max: i64) -> Cell {
    let mut h = IID;
    let i = rng.int(0, 2) as usize;
    h[i][i] = rng.int(5, max);
    let mut d = c.supercell(&imul(&h, &unimodular(rng, 0)));
    shuffle_sites(&mut d, rng);
    d
}

fn c05(ctx: &mut Ctx, rng: &mut Rng) {
    let ty = BRAVAIS[ctx.idx as usize % 14];
    ctx.tag("Bravais types", ty);
    let (_, prim, _) = generic_primitive(ty, rng);
    let (p, pseudo) = decorate_pseudo(&prim, if ctx.thorough { 8 } else { 5 }, rng);
    if pseudo {
        ctx.count("superstructures");
    }
    let big = p.n() > 12;
    let dtol = *rng.pick(&TOLS);
    let (c, q) = if rng.chance(0.1) {
        ctx.count("elongated");
        (elongated(&p, rng, if big { 6 } else if ctx.thorough { 24 } else { 14 }), ID)
    } else {
        let (c, q, _) = present(&p, &Pres { max_det: if big { 4 } else if ctx.thorough { 16 } else { 10 }, ..FULL }, rng);
        (c, q)
    };
    let k = (c.n() / p.n()) as f64;
    ctx.desc = format!("dtol={dtol} {}", c.describe());
    if det(&c.lat) < 0.0 {
        ctx.count("left-handed");
    }
    if c.n() > p.n() {
        ctx.count("cells with extra translations");
    }
    let red = Reducer { dtol, atol: 5.0 };
    let Some(s) = ctx.must("construct", || if rng.chance(0.3) { c.lib_cart() } else { c.lib() }) else { return };
    let Some(r) = ctx.must("primitive", || red.find_primitive_cell(&s)) else { return };
    ctx.good(cell_hash(&c));
    if let Err(e) = consistent(&r) {
        ctx.fail("disagree", e);
        return;
    }
    let rc = Cell::from_lib(&r);
    ctx.check(rc.n() == p.n(), "count", || format!("{} sites, the primitive cell holds {}", rc.n(), p.n()));
    ctx.check((rc.vol() - c.vol() / k).abs() <= 1e-6 * p.vol(), "volume", || format!("volume {}, expected {}", rc.vol(), c.vol() / k));
    if let Err(e) = same_crystal(&rotated(&p, &q), &rc, 1e-4) {
        ctx.fail("crystal", e);
        return;
    }
    let len: Vec<f64> = (0..3).map(|i| norm(&col(&rc.lat, i))).collect();
    ctx.check(det(&rc.lat) > 0.0, "handedness", || format!("left-handed cell {:?}", rc.lat));
    ctx.check(len[0] <= len[1] + 1e-6 && len[1] <= len[2] + 1e-6, "order", || format!("lengths {len:?}"));
    let left = translation_count(&rc, 0.05);
    ctx.check(left == 1, "not-primitive", || format!("{left} translations left in the returned cell"));
}

/// Lattice (primitive) of a type plus a skewed basis of it.
fn skewed(ctx: &mut Ctx, rng: &mut Rng, steps: i64) -> (M, M) {
    let ty = BRAVAIS[ctx.idx as usize % 14];
    ctx.tag("Bravais types", ty);
    // The accidental equalities and wide ratios of the generator reach the
    // rarer characters.
    let (_, prim, _) = generic_primitive(ty, rng);
    let b = reb(&prim, rng, steps);
    if let Some(g) = niggli_oracle(&prim) {
        ctx.tag("lattice characters", format!("{:02}", character(&g)));
    }
    if det(&b) < 0.0 {
        ctx.count("left-handed");
    }
    (prim, b)
}

fn reb(prim: &M, rng: &mut Rng, steps: i64) -> M {
    let steps = rng.int(0, steps) as usize;
    let mut u = unimodular(rng, steps);
    if rng.chance(0.4) {
        for r in u.iter_mut() {
            r.swap(0, 2);
        }
    }
    let mut b = mul(prim, &f(&u));
    if rng.chance(0.6) {
        b = mul(&random_rotation(rng), &b);
    }
    b
}

/// A basis that needs about as many steps as a reduction is allowed (100).
/// There a reduction may be refused, but nothing unreduced may be returned.
fn very_skewed(b: &M, rng: &mut Rng) -> M {
    let mut e = IID;
    let i = rng.int(0, 2) as usize;
    e[i][(i + rng.int(1, 2) as usize) % 3] = rng.int(30, 160) * if rng.chance(0.5) { 1 } else { -1 };
    mul(b, &f(&e))
}

/// A slightly strained lattice, whose near equalities a strict tolerance tells
/// apart and the usual one does not.
fn strained(b: &M, rng: &mut Rng) -> Option<M> {
    let s = 10f64.powf(rng.range(-6.0, -3.0));
    let mut e = ID;
    for x in e.iter_mut().flatten() {
        *x += s * rng.range(-1.0, 1.0);
    }
    let q = mul(&e, b);
    separated_by(&q, 200.0 * STRICT * det(&q).abs().cbrt()).then_some(q)
}

const STRICT: f64 = 1e-9;

fn c06(ctx: &mut Ctx, rng: &mut Rng) {
    let (_, mut b) = skewed(ctx, rng, 5);
    let far = ctx.idx % 50 == 7;
    let strict = ctx.idx % 50 >= 40;
    if strict {
        let Some(q) = strained(&b, rng) else {
            ctx.count("strained, undecided");
            return;
        };
        b = q;
        ctx.count("strained");
    }
    if far {
        b = very_skewed(&b, rng);
        ctx.count("very skewed");
    }
    let n = rng.int(1, 6) as usize;
    let mut c = Cell { lat: b, sp: vec![], fr: vec![] };
    for _ in 0..n {
        for _ in 0..50 {
            c.sp.push(rng.pick(&ELEMENTS).to_string());
            c.fr.push([rng.range(-1.5, 1.5), rng.range(-1.5, 1.5), rng.range(-1.5, 1.5)]);
            if min_dist(&c) > 0.5 {
                break;
            }
            c.sp.pop();
            c.fr.pop();
        }
    }
    if c.n() == 0 {
        c.sp.push("Au".into());
        c.fr.push([0.1, -0.2, 0.3]);
    }
    let tol = if far { 1e-5 } else if strict { STRICT } else { *rng.pick(&[1e-5, 1e-5, 1e-6, 1e-7]) };
    ctx.desc = format!("tol={tol} {}", c.describe());
    let Some(s) = ctx.must("construct", || c.lib()) else { return };
    let red = Reducer { dtol: *rng.pick(&TOLS), atol: 5.0 };
    let r = if far {
        let Ok(r) = ctx.call(|| red.niggli_reduce(&s, &tol)) else {
            ctx.count("very skewed: refused");
            return;
        };
        r
    } else {
        let Some(r) = ctx.must("niggli", || red.niggli_reduce(&s, &tol)) else { return };
        r
    };
    let eps = tol * c.vol().cbrt();
    let before = metric(&c.lat);
    let e = eps.max(1e-11 * (before[0][0] + before[1][1] + before[2][2]));
    if niggli_violation(&before, e).is_some() {
        ctx.count("not reduced before");
        ctx.good(hash_f64s(c.lat.iter().flatten()));
    }
    if let Err(e) = consistent(&r) {
        ctx.fail("disagree", e);
        return;
    }
    let rc = Cell::from_lib(&r);
    if let Some(why) = niggli_violation(&metric(&rc.lat), e) {
        ctx.fail("conditions", why);
    }
    match same_lattice(&c.lat, &rc.lat, 1e-5) {
        None => ctx.fail("lattice", format!("not a basis of the input lattice: {:?}", rc.lat)),
        Some(u) => {
            ctx.check(idet(&u) == 1, "handedness", || format!("related by determinant {}", idet(&u)));
        }
    }
    ctx.check(rc.n() == c.n(), "count", || format!("{} sites, had {}", rc.n(), c.n()));
    if let Err(e) = same_crystal(&c, &rc, 1e-4) {
        ctx.fail("crystal", e);
    }
}

fn c07(ctx: &mut Ctx, rng: &mut Rng) {
    let (prim, _) = skewed(ctx, rng, 1);
    let Some(want) = niggli_oracle(&prim) else {
        ctx.count("no oracle answer");
        return;
    };
    let cmax = want[2][2];
    let red = Reducer { dtol: 0.05, atol: 5.0 };
    let tol = 1e-5;
    let slack = (2.0 * tol * det(&prim).abs().cbrt()).min(1e-3 * cmax);
    for k in 0..4 {
        let b = reb(&prim, rng, if k == 0 { 1 } else { 5 });
        let c = Cell { lat: b, sp: vec!["Au".into()], fr: vec![[0.25, 0.1, -0.3]] };
        ctx.desc = c.describe();
        let Some(r) = ctx.must("niggli", || red.niggli_reduce(&c.lib(), &tol)) else { return };
        ctx.count("presentations compared");
        let g = metric(&from_na(&r.lattice));
        let d = max_abs_diff(&g, &want);
        ctx.max("largest metric difference", d);
        if !ctx.check(d <= slack, "metric", || format!("Niggli metric {:?}, expected {:?}", six(&g), six(&want))) {
            return;
        }
        if k == 0 || rng.chance(0.3) {
            let Some(r2) = ctx.must("niggli-again", || red.niggli_reduce(&r, &tol)) else { return };
            let g2 = metric(&from_na(&r2.lattice));
            ctx.count("reduced twice");
            ctx.check(max_abs_diff(&g, &g2) <= 1e-6 * cmax, "twice", || format!("reducing again: {:?} became {:?}", six(&g), six(&g2)));
        }
    }
    // The axes are the three shortest independent vectors.
    let sv = short_vectors(&prim);
    let mut chosen: Vec<([i64; 3], f64)> = vec![];
    for v in &sv {
        let mut m = chosen.clone();
        m.push(*v);
        let indep = match m.len() {
            1 => true,
            2 => {
                let (a, b) = (m[0].0, m[1].0);
                let x = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
                x != [0, 0, 0]
            }
            _ => idet(&[m[0].0, m[1].0, m[2].0]) != 0,
        };
        if indep {
            chosen = m;
        }
        if chosen.len() == 3 {
            break;
        }
    }
    for i in 0..3 {
        ctx.check((chosen[i].1 - want[i][i]).abs() <= 1e-6 * cmax, "minima", || format!("axis {i}: {} but the shortest is {}", want[i][i], chosen[i].1));
    }
    ctx.good(hash_f64s(prim.iter().flatten()));
}

fn c08(ctx: &mut Ctx, rng: &mut Rng) {
    let (_, mut b) = skewed(ctx, rng, 5);
    let far = ctx.idx % 25 == 7;
    if far {
        b = very_skewed(&b, rng);
        ctx.count("very skewed");
    }
    let mut c = Cell { lat: b, sp: vec!["Au".into()], fr: vec![[rng.unit(), rng.unit(), rng.unit()]] };
    for _ in 0..rng.int(0, 4) {
        c.sp.push(rng.pick(&ELEMENTS).to_string());
        c.fr.push([rng.range(-1.5, 1.5), rng.range(-1.5, 1.5), rng.range(-1.5, 1.5)]);
        if min_dist(&c) < 0.5 {
            c.sp.pop();
            c.fr.pop();
        }
    }
    ctx.desc = c.describe();
    let red = Reducer { dtol: *rng.pick(&TOLS), atol: 5.0 };
    let sc = metric(&c.lat);
    let size = sc[0][0].max(sc[1][1]).max(sc[2][2]);
    let pos = |l: &M| -> f64 {
        let v = [col(l, 0), col(l, 1), col(l, 2), scale(&add(&add(&col(l, 0), &col(l, 1)), &col(l, 2)), -1.0)];
        let mut worst = f64::NEG_INFINITY;
        for i in 0..4 {
            for j in 0..i {
                worst = worst.max(dot(&v[i], &v[j]));
            }
        }
        worst
    };
    let Some(s) = ctx.must("construct", || c.lib()) else { return };
    for full in [false, true] {
        let r = if far {
            let Ok(r) = ctx.call(|| red.delaunay_reduce(&s, full)) else {
                ctx.count("very skewed: refused");
                return;
            };
            r
        } else {
            let Some(r) = ctx.must("delaunay", || red.delaunay_reduce(&s, full)) else { return };
            r
        };
        if let Err(e) = consistent(&r) {
            ctx.fail("disagree", e);
            return;
        }
        let rc = Cell::from_lib(&r);
        if !full {
            let w = pos(&rc.lat);
            ctx.check(w <= 2e-6 + 1e-10 * size, "scalar-products", || format!("positive scalar product {w} left"));
        }
        let key = if full { "full-" } else { "" };
        if same_lattice(&c.lat, &rc.lat, 1e-5).is_none() {
            ctx.fail(&format!("{key}lattice"), format!("selection={full}: not a basis of the input lattice: {:?}", rc.lat));
            return;
        }
        ctx.check(rc.n() == c.n(), "count", || format!("{} sites, had {}", rc.n(), c.n()));
        if let Err(e) = same_crystal(&c, &rc, 1e-4) {
            ctx.fail(&format!("{key}crystal"), format!("selection={full}: {e}"));
        }
    }
    if pos(&c.lat) > 1e-6 {
        ctx.count("not reduced before");
        ctx.good(hash_f64s(c.lat.iter().flatten()));
    }
}

/// A crystal on a lattice of the type chosen by the case index, written in
/// some way: (type, primitive crystal in the written frame, written cell).
fn standard_input(ctx: &mut Ctx, rng: &mut Rng) -> (&'static str, Cell, Cell) {
    let ty = BRAVAIS[ctx.idx as usize % 14];
    ctx.tag("Bravais types", ty);
    let (_, prim, _) = generic_primitive(ty, rng);
    if let Some(g) = niggli_oracle(&prim) {
        ctx.tag("lattice characters", format!("{:02}", character(&g)));
    }
    let (p, pseudo) = decorate_pseudo(&prim, 4, rng);
    if pseudo {
        ctx.count("superstructures");
    }
    let (c, q, h) = present(&p, &Pres { max_det: 6, ..FULL }, rng);
    if idet(&h).abs() > 1 {
        ctx.count("supercells");
    }
    (ty, rotated(&p, &q), c)
}

fn allowed(ty: &str) -> &'static [&'static str] {
    match ty {
        "aP" | "mP" | "oP" | "tP" | "hP" | "cP" => &["P"],
        "mC" => &["C", "I"],
        "oC" => &["C"],
        "oI" | "tI" | "cI" => &["I"],
        "oF" | "cF" => &["F"],
        _ => &["R"],
    }
}

fn c09(ctx: &mut Ctx, rng: &mut Rng) {
    let (ty, p, c) = standard_input(ctx, rng);
    let dtol = *rng.pick(&TOLS);
    ctx.desc = format!("type {ty} dtol={dtol} {}", c.describe());
    let sa = SymmetryAnalyzer { dtol, atol: 5.0 };
    let Some(s) = ctx.must("construct", || if rng.chance(0.3) { c.lib_cart() } else { c.lib() }) else { return };
    let Some(r) = ctx.must("conventional", || sa.get_standard_conventional_structure(&s)) else { return };
    ctx.good(cell_hash(&c));
    judge_conventional(ctx, ty, &p, &r);
}

fn judge_conventional(ctx: &mut Ctx, ty: &str, p: &Cell, r: &Structure) -> Option<&'static str> {
    if let Err(e) = consistent(r) {
        ctx.fail("disagree", e);
        return None;
    }
    let rc = Cell::from_lib(r);
    if let Err(e) = same_crystal(p, &rc, 1e-4) {
        ctx.fail("crystal", e);
        return None;
    }
    if let Err(e) = metric_fits(&rc.lat, holohedry_order(ty), 1e-5) {
        ctx.fail("metric", format!("lattice type {ty}: {e}"));
        return None;
    }
    let pts = centring_points(&rc.lat, &p.lat);
    let sym = pts.as_ref().and_then(|x| centring_symbol(x));
    match sym {
        Some(x) if allowed(ty).contains(&x) => {
            ctx.tag("centrings", x);
            Some(x)
        }
        _ => {
            ctx.fail("centring", format!("lattice type {ty}: lattice points of the conventional cell are {pts:?} (twelfths)"));
            None
        }
    }
}

fn c10(ctx: &mut Ctx, rng: &mut Rng) {
    let (ty, p, c) = standard_input(ctx, rng);
    let dtol = *rng.pick(&TOLS);
    ctx.desc = format!("type {ty} dtol={dtol} {}", c.describe());
    let sa = SymmetryAnalyzer { dtol, atol: 5.0 };
    let Some(s) = ctx.must("construct", || c.lib()) else { return };
    let Some(r) = ctx.must("standard-primitive", || sa.get_standard_primitive_structure(&s)) else { return };
    ctx.good(cell_hash(&c));
    if let Err(e) = consistent(&r) {
        ctx.fail("disagree", e);
        return;
    }
    let rc = Cell::from_lib(&r);
    if let Err(e) = same_crystal(&p, &rc, 1e-4) {
        ctx.fail("crystal", e);
        return;
    }
    ctx.check(rc.n() == p.n() && (rc.vol() - p.vol()).abs() < 1e-6 * p.vol(), "size", || format!("{} sites in volume {}, the primitive cell holds {} in {}", rc.n(), rc.vol(), p.n(), p.vol()));
    let left = translation_count(&rc, 0.05);
    ctx.check(left == 1, "not-primitive", || format!("{left} translations left"));
    let Some(v) = ctx.must("conventional", || sa.get_standard_conventional_structure(&s)) else { return };
    let vl = from_na(&v.lattice);
    // Which centring the conventional cell has; C09 judges whether it is right.
    let Some(sym) = centring_points(&vl, &p.lat).as_ref().and_then(|x| centring_symbol(x)) else {
        ctx.count("conventional cell without a standard centring (judged by C09)");
        return;
    };
    ctx.tag("centrings", sym);
    let cen = sym.chars().next().unwrap();
    if !"PACIFR".contains(cen) || sym == "Rrev" {
        return;
    }
    let got = mul(&inv(&vl), &rc.lat);
    let want = crate::hall::prim_basis(cen);
    ctx.check(max_abs_diff(&got, &want) < 1e-6, "relation", || format!("centring {sym}: conventional^-1 x primitive = {got:?}, expected {want:?}"));
}
