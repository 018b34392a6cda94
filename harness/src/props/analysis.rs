//! Space-group analysis: operations, numbers, completeness, invariance, noise.

use super::*;
use crate::gen::*;
use crate::hall::{self, System};
use crate::lattice::*;
use crate::rng::Rng;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::reduce::Reducer;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C11",
            rule: "a case is one crystal of a known space-group type written as some cell; counted when the analysis reported operations; distinct by written cell",
            quick: 920,
            thorough: 9200,
            case: c11,
            floor: |t| {
                t.need("operations applied to atoms", 2500)?;
                t.need("supercells", 100)?;
                t.need("left-handed", 100)?;
                t.need_tags("groups reported", 120)
            },
            exhaustive: false,
            assumptions: &["crystals refused by the analysis report nothing to judge (see C14)"],
        },
        Spec {
            id: "C12",
            rule: "a case is one crystal of a known space-group type written as some cell; counted when the analysis reported operations; distinct by written cell",
            quick: 920,
            thorough: 9200,
            case: c12,
            floor: |t| {
                t.need("operation sets compared", 300)?;
                t.need("supercells that lose rotations", 5)?;
                t.need_tags("groups reported", 120)
            },
            exhaustive: false,
            assumptions: &["the brute-force search finds every operation of the cell"],
        },
        Spec {
            id: "C13",
            rule: "a case is one crystal of a known space-group type written as some cell at some origin; counted when a group was reported; distinct by written cell",
            quick: 1150,
            thorough: 9200,
            case: c13,
            floor: |t| {
                t.need("reported", 350)?;
                t.need_tags("groups reported", 120)
            },
            exhaustive: false,
            assumptions: &["refusals are judged by C14"],
        },
        Spec {
            id: "C14",
            rule: "a case is one crystal of a known space-group type at its tabulated or another origin; counted when its operations in the standard primitive cell equal the tabulated ones or when the type does not depend on the choice of axes; distinct by written cell",
            quick: 1150,
            thorough: 9200,
            case: c14,
            floor: |t| {
                t.need("in the tabulated setting", 350)?;
                t.need("types independent of the axes", 100)?;
                t.need_tags("groups in the tabulated setting", 120)
            },
            exhaustive: false,
            assumptions: &["the standard primitive cell itself is judged by C10"],
        },
        Spec {
            id: "C15",
            rule: "a case is one crystal in several presentations; counted when at least two differ; distinct by crystal",
            quick: 2500,
            thorough: 30_000,
            case: c15,
            floor: |t| {
                t.need("pairs of presentations", 4000)?;
                t.need("space groups compared", 300)?;
                t.need_tags("Bravais types", 14)
            },
            exhaustive: false,
            assumptions: &["only groups reported for both presentations are compared"],
        },
        Spec {
            id: "C24",
            rule: "a case is one crystal with displaced atoms; distinct by displaced cell",
            quick: 3000,
            thorough: 30_000,
            case: c24,
            floor: |t| {
                t.need("noisy supercells", 1000)?;
                t.need("noisy groups reported", 300)
            },
            exhaustive: false,
            assumptions: &["displacements at most a fifth of the tolerance; cells at most moderately skewed"],
        },
    ]
}

const TOLS: [f64; 4] = [0.01, 0.02, 0.05, 0.1];

fn number(ctx: &Ctx) -> u8 {
    (ctx.idx % 230) as u8 + 1
}

fn caps(ctx: &Ctx) -> &'static [usize] {
    if ctx.thorough && ctx.idx % 5 == 0 {
        &[24, 48]
    } else {
        &[8, 12, 24, 48]
    }
}

/// A crystal of the type chosen by the case index in its conventional cell.
fn ground_truth(ctx: &mut Ctx, rng: &mut Rng) -> Option<(u8, Cell)> {
    let n = number(ctx);
    match small_crystal(n, rng, caps(ctx)) {
        Some(c) => Some((n, c)),
        None => {
            ctx.count("no crystal generated");
            None
        }
    }
}

fn primitive(n: u8, c: &Cell) -> Cell {
    primitive_of(c, hall::reference(n).centering)
}

/// Write a crystal of type `n` in some way.
fn write_down(ctx: &mut Ctx, n: u8, c: &Cell, rng: &mut Rng) -> Cell {
    let small = c.n() <= 24;
    let (d, h) = match rng.int(0, 9) {
        0 => (c.clone(), IID),
        1..=2 if small => {
            let (d, _, h) = present(c, &Pres { max_det: 1, skew: 1, ..FULL }, rng);
            (d, h)
        }
        3..=5 => {
            let (d, _, h) = present(&primitive(n, c), &Pres { max_det: 1, skew: 3, ..FULL }, rng);
            (d, h)
        }
        _ => {
            let max = if primitive(n, c).n() <= 12 { 4 } else { 2 };
            let (d, _, h) = present(&primitive(n, c), &Pres { max_det: max, skew: 2, ..FULL }, rng);
            (d, h)
        }
    };
    if idet(&h).abs() > 1 {
        ctx.count("supercells");
    }
    if det(&d.lat) < 0.0 {
        ctx.count("left-handed");
    }
    ctx.max("largest cell (sites)", d.n() as f64);
    d
}

fn analyse(ctx: &mut Ctx, c: &Cell, dtol: f64, cart: bool) -> Option<(u8, String, Vec<SOp>)> {
    let s = ctx.must("construct", || if cart { c.lib_cart() } else { c.lib() })?;
    let sa = SymmetryAnalyzer { dtol, atol: 5.0 };
    match ctx.call(|| sa.get_space_group_info(&s)) {
        Ok((n, sym, g)) => Some((n, sym, g.operations.iter().map(sop_of).collect())),
        Err(e) => {
            ctx.count("refused");
            if !e.contains("identify spacegroup") && !e.contains("candidate group") {
                ctx.count("refused for another reason");
            }
            None
        }
    }
}

fn c11(ctx: &mut Ctx, rng: &mut Rng) {
    let Some((n, conv)) = ground_truth(ctx, rng) else { return };
    let c = write_down(ctx, n, &conv, rng);
    let dtol = *rng.pick(&TOLS);
    ctx.desc = format!("group {n} dtol={dtol} {}", c.describe());
    let cart = rng.chance(0.3);
    let Some((_, _, ops)) = analyse(ctx, &c, dtol, cart) else { return };
    ctx.tag("groups reported", format!("{n:03}"));
    ctx.good(cell_hash(&c));
    let near = Near::new(&c.lat);
    let g = metric(&c.lat);
    let scale = g.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    ctx.check(!ops.is_empty(), "nothing", || "no operation reported".into());
    for o in &ops {
        ctx.add("operations applied to atoms", 1);
        let r = f(&o.r);
        let g2 = mul(&mul(&t(&r), &g), &r);
        if idet(&o.r).abs() != 1 || max_abs_diff(&g2, &g) > 1e-5 * scale {
            ctx.fail("lattice", format!("{o:?} does not map the lattice onto itself"));
            return;
        }
        match op_residual(&c, &near, &o.r, &o.t, 1e-3) {
            Some(d) => ctx.max("largest residual (angstrom)", d),
            None => {
                ctx.fail("atoms", format!("{o:?} does not map the atoms onto atoms of the same species"));
                return;
            }
        }
    }
}

fn c12(ctx: &mut Ctx, rng: &mut Rng) {
    let Some((n, conv)) = ground_truth(ctx, rng) else { return };
    let c = write_down(ctx, n, &conv, rng);
    let dtol = *rng.pick(&TOLS);
    ctx.desc = format!("group {n} dtol={dtol} {}", c.describe());
    let Some((_, _, ops)) = analyse(ctx, &c, dtol, false) else { return };
    ctx.tag("groups reported", format!("{n:03}"));
    ctx.good(cell_hash(&c));
    let want = symmetry(&c, 0.02, 1e-6);
    ctx.count("operation sets compared");
    ctx.max("largest set", want.len() as f64);
    let nt = want.iter().filter(|o| o.r == IID).count();
    let full = hall::prim_ops(n).len();
    if want.len() < full * nt {
        ctx.count("supercells that lose rotations");
    }
    if let Err(e) = same_op_set(&ops, &want, 1e-3) {
        ctx.fail("set", e);
        return;
    }
    // Closure and identity of the reported list itself.
    let id = SOp { r: IID, t: [0.0; 3] };
    ctx.check(ops.iter().any(|o| op_eq(o, &id, 1e-3)), "identity", || "identity missing".into());
    let mut by: std::collections::HashMap<IM, Vec<V>> = Default::default();
    for o in &ops {
        by.entry(o.r).or_default().push(o.t);
    }
    let m = ops.len();
    for k in 0..(4 * m).min(400) {
        let (a, b) = if m * m <= 400 { (k / m % m, k % m) } else { (rng.int(0, m as i64 - 1) as usize, rng.int(0, m as i64 - 1) as usize) };
        let p = compose(&ops[a], &ops[b]);
        let ok = by.get(&p.r).map(|v| v.iter().any(|t| wrap_half_v(&sub(t, &p.t)).iter().all(|x| x.abs() < 2e-3))).unwrap_or(false);
        if !ok {
            ctx.fail("closure", format!("{:?} after {:?} is not in the list", ops[a], ops[b]));
            return;
        }
        ctx.add("products", 1);
    }
}

/// A lattice with the axes of `sys` but a metric of higher symmetry.
fn special_lattice(sys: System, rng: &mut Rng) -> Option<M> {
    let a = rng.range(3.5, 8.0);
    let b = rng.range(3.5, 8.0);
    let c = rng.range(3.5, 8.0);
    let p = match sys {
        System::Tric => match rng.int(0, 2) {
            0 => [a, b, c, 90.0, 90.0, 90.0],
            1 => [a, b, c, 90.0, 103.0, 90.0],
            _ => [a, a, a, 75.0, 75.0, 75.0],
        },
        System::Mono => match rng.int(0, 3) {
            0 => [a, b, c, 90.0, 90.0, 90.0],
            1 => [a, b, a, 90.0, 104.0, 90.0],
            2 => [a, b, a, 90.0, 120.0, 90.0],
            _ => [a, a, a, 90.0, 90.0, 90.0],
        },
        System::Orth => match rng.int(0, 2) {
            0 => [a, a, c, 90.0, 90.0, 90.0],
            1 => [a, a, a, 90.0, 90.0, 90.0],
            _ => [a, a * 3f64.sqrt(), c, 90.0, 90.0, 90.0],
        },
        System::Tetr => [a, a, a, 90.0, 90.0, 90.0],
        System::Trig => [a, a, a * 6f64.sqrt(), 90.0, 90.0, 120.0],
        _ => return None,
    };
    let mut l = from_params(p);
    for x in l.iter_mut().flatten() {
        if x.abs() < 1e-12 {
            *x = 0.0;
        }
    }
    Some(l)
}

fn c13(ctx: &mut Ctx, rng: &mut Rng) {
    let n = number(ctx);
    let round = ctx.idx / 230;
    let conv = if round % 5 == 3 {
        let sys = hall::system(n);
        let mult = hall::centering_vectors(hall::reference(n).centering).len();
        let Some(lat) = special_lattice(sys, rng) else { return };
        let Some(c) = crystal_with(n, rng, 8 * mult, 30, |_| lat) else {
            ctx.count("no crystal generated");
            return;
        };
        ctx.count("metric of higher symmetry");
        c
    } else {
        let Some((_, c)) = ground_truth(ctx, rng) else { return };
        c
    };
    let conv = if round % 5 == 4 {
        ctx.count("other origins");
        let s = if rng.chance(0.5) {
            let q = [0.0, 0.25, 0.5, 0.75, 0.125, 1.0 / 3.0];
            [*rng.pick(&q), *rng.pick(&q), *rng.pick(&q)]
        } else {
            [rng.unit(), rng.unit(), rng.unit()]
        };
        shift_origin(&conv, &s)
    } else {
        conv
    };
    let c = write_down(ctx, n, &conv, rng);
    let dtol = *rng.pick(&TOLS);
    ctx.desc = format!("group {n} dtol={dtol} {}", c.describe());
    let cart = rng.chance(0.3);
    let Some((got, sym, _)) = analyse(ctx, &c, dtol, cart) else { return };
    ctx.count("reported");
    ctx.tag("groups reported", format!("{n:03}"));
    ctx.good(cell_hash(&c));
    ctx.check(got == n, "number", || format!("reported {got} ({sym}), the crystal has group {n} ({})", hall::HM[n as usize - 1]));
    ctx.check(got != n || hall::symbol_ok(n, &sym), "symbol", || format!("symbol {sym} for group {n} ({})", hall::HM[n as usize - 1]));
}

/// Types whose primitive operations do not change under any choice among the
/// equivalent standard axes (either handedness).
fn axis_independent(n: u8) -> bool {
    let r = hall::reference(n);
    if n <= 2 {
        return true;
    }
    if r.centering == 'A' || hall::system(n) == System::Mono {
        return false;
    }
    // Generators of the possible axis changes, conventional basis.
    let inv_: IM = [[-1, 0, 0], [0, -1, 0], [0, 0, -1]];
    let (cyc, swap, flip, six): (IM, IM, IM, IM) = (
        [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
        [[0, 1, 0], [1, 0, 0], [0, 0, -1]],
        [[1, 0, 0], [0, -1, 0], [0, 0, -1]],
        [[1, -1, 0], [1, 0, 0], [0, 0, 1]],
    );
    let gens: Vec<IM> = match (hall::system(n), r.centering) {
        (System::Orth, 'C') | (System::Tetr, _) => vec![inv_, swap, flip],
        (System::Orth, _) | (System::Cubi, _) => vec![inv_, swap, flip, cyc],
        (_, 'R') => vec![inv_, swap, imul(&six, &six)],
        _ => vec![inv_, swap, six],
    };
    let set: std::collections::HashSet<hall::Op> = r.ops.iter().copied().collect();
    gens.iter().all(|g| {
        let gi = iinv(g);
        r.ops.iter().all(|o| {
            let rot = imul(&imul(&gi, &o.r), g);
            let t = mv(&f(&gi), &[o.t[0] as f64, o.t[1] as f64, o.t[2] as f64]);
            set.contains(&hall::Op { r: rot, t: t.map(|x| (x.round() as i64).rem_euclid(12)) })
        })
    })
}

fn c14(ctx: &mut Ctx, rng: &mut Rng) {
    let Some((n, conv)) = ground_truth(ctx, rng) else { return };
    let other = ctx.idx / 230 % 10 == 9;
    let conv = if other {
        let q = [0.0, 0.25, 0.5];
        ctx.count("other origins");
        shift_origin(&conv, &[*rng.pick(&q), *rng.pick(&q), *rng.pick(&q)])
    } else {
        conv
    };
    let c = write_down(ctx, n, &conv, rng);
    let dtol = *rng.pick(&TOLS);
    ctx.desc = format!("group {n} dtol={dtol} {}", c.describe());
    let Some(s) = ctx.must("construct", || c.lib()) else { return };
    let sa = SymmetryAnalyzer { dtol, atol: 5.0 };
    let Some(p) = ctx.must("standard-primitive", || sa.get_standard_primitive_structure(&s)) else { return };
    let pc = Cell::from_lib(&p);
    let ops = symmetry(&pc, 0.02, 1e-6);
    let tabulated = same_op_set(&ops, &hall::search_ops(n), 1e-3).is_ok();
    let free = !other && axis_independent(n);
    if tabulated {
        ctx.count("in the tabulated setting");
        ctx.tag("groups in the tabulated setting", format!("{n:03}"));
    }
    if free {
        ctx.count("types independent of the axes");
        ctx.tag("groups independent of the axes", format!("{n:03}"));
    }
    if tabulated || free {
        ctx.good(cell_hash(&c));
    }
    match ctx.call(|| sa.get_space_group_info(&s)) {
        Ok((got, _, _)) => {
            ctx.count("reported");
            if tabulated || free {
                ctx.check(got == n, "number", || format!("reported {got}, the crystal has group {n}"));
            }
        }
        Err(e) => {
            let why = format!("group {n} ({}) was refused: {e}", hall::HM[n as usize - 1]);
            if tabulated {
                ctx.fail("refused-tabulated", why);
            } else if free {
                ctx.fail("refused-axis-independent", why);
            } else {
                ctx.fail("refused-outside-tabulated-setting", why);
            }
        }
    }
}

pub struct Answer {
    pub prim_sites: usize,
    pub cells: [[f64; 6]; 3],
    pub group: Option<u8>,
}

pub fn answers(ctx: &mut Ctx, c: &Cell, dtol: f64, cart: bool, group: bool) -> Option<Answer> {
    let s = ctx.must("construct", || if cart { c.lib_cart() } else { c.lib() })?;
    let (red, sa) = (Reducer { dtol, atol: 5.0 }, SymmetryAnalyzer { dtol, atol: 5.0 });
    let p = ctx.must("primitive", || red.find_primitive_cell(&s))?;
    let g = ctx.must("niggli", || red.niggli_reduce(&p, &1e-5))?;
    let v = ctx.must("conventional", || sa.get_standard_conventional_structure(&s))?;
    let q = ctx.must("standard-primitive", || sa.get_standard_primitive_structure(&s))?;
    let pr = |s: &Structure| params(&from_na(&s.lattice));
    let n = if group { ctx.call(|| sa.get_space_group_info(&s)).ok().map(|x| x.0) } else { None };
    Some(Answer { prim_sites: p.num_sites(), cells: [pr(&g), pr(&v), pr(&q)], group: n })
}

fn c15(ctx: &mut Ctx, rng: &mut Rng) {
    // Half the crystals come from space groups, half from bare lattices.
    let base = if ctx.idx % 2 == 0 {
        let n = (ctx.idx / 2 % 230) as u8 + 1;
        let Some(c) = small_crystal(n, rng, &[6, 12, 24, 48]) else { return };
        ctx.tag("groups", format!("{n:03}"));
        primitive(n, &c)
    } else {
        let ty = BRAVAIS[(ctx.idx / 2) as usize % 14];
        ctx.tag("Bravais types", ty);
        let (_, prim, _) = generic_primitive(ty, rng);
        decorate_pseudo(&prim, 5, rng).0
    };
    let dtol = *rng.pick(&TOLS);
    // A group is only compared if no operation holds approximately.
    let with_group = base.n() <= 12 && symmetry(&base, LOOSE, 0.01).len() == symmetry(&base, 1e-3, 1e-6).len();
    ctx.desc = format!("dtol={dtol} {}", base.describe());
    let Some(first) = answers(ctx, &base, dtol, false, with_group) else { return };
    ctx.good(cell_hash(&base));
    ctx.check(first.prim_sites == base.n(), "primitive-sites", || format!("{} sites, the primitive cell has {}", first.prim_sites, base.n()));
    for k in 0..3 {
        let mut c = base.clone();
        let mut what = String::new();
        if k == 2 {
            c = shift_origin(&c, &[rng.unit(), rng.unit(), rng.unit()]);
            what += "origin shift, ";
        }
        if rng.chance(0.4) {
            // Consistent renaming that also changes the alphabetical order.
            let mut names: Vec<&str> = ELEMENTS.to_vec();
            rng.shuffle(&mut names);
            for s in c.sp.iter_mut() {
                let i = ELEMENTS.iter().position(|e| e == s).unwrap();
                *s = names[i].to_string();
            }
            what += "renamed, ";
            ctx.count("renamed");
        }
        let max_det = if base.n() <= 8 { 6 } else { 2 };
        let (d, _, h) = present(&c, &Pres { max_det, skew: 3, ..FULL }, rng);
        let cart = rng.chance(0.3);
        what += &format!("H={h:?} cartesian={cart}");
        let d_desc = d.describe();
        let Some(a) = answers(ctx, &d, dtol, cart, with_group && k < 2) else { return };
        ctx.count("pairs of presentations");
        ctx.check(a.prim_sites == first.prim_sites, "primitive-sites", || format!("{} sites instead of {} ({what}) {d_desc}", a.prim_sites, first.prim_sites));
        for (i, name) in ["niggli", "conventional", "standard-primitive"].iter().enumerate() {
            ctx.check(params_close(&a.cells[i], &first.cells[i], 1e-6), name, || {
                format!("{name} cell {:?} instead of {:?} ({what}) {d_desc}", a.cells[i], first.cells[i])
            });
        }
        if let (Some(x), Some(y)) = (a.group, first.group) {
            ctx.count("space groups compared");
            ctx.check(x == y, "group", || format!("group {x} instead of {y} ({what}) {d_desc}"));
        }
        if !ctx.fails.is_empty() {
            return;
        }
    }
}

pub fn displaced(c: &Cell, d: f64, rng: &mut Rng) -> Cell {
    let li = inv(&c.lat);
    let mut o = c.clone();
    for x in o.fr.iter_mut() {
        let v = loop {
            let v = [rng.range(-1.0, 1.0), rng.range(-1.0, 1.0), rng.range(-1.0, 1.0)];
            if norm(&v) <= 1.0 {
                break v;
            }
        };
        *x = add(x, &mv(&li, &scale(&v, d)));
    }
    o
}

/// Up to a fifth of the tolerance, less in skewed cells where a displacement
/// changes the fractional coordinates more.
pub fn amplitude(c: &Cell, dtol: f64, rng: &mut Rng) -> f64 {
    let li = t(&inv(&c.lat));
    let skew = (0..3).map(|i| norm(&col(&c.lat, i)) * norm(&col(&li, i))).fold(1.0, f64::max);
    dtol * rng.range(0.1, 1.0) * (1.0 / (4.5 * skew)).min(0.2)
}

fn c24(ctx: &mut Ctx, rng: &mut Rng) {
    let dtol = *rng.pick(&TOLS);
    if ctx.idx % 2 == 0 {
        let ty = BRAVAIS[(ctx.idx / 2) as usize % 14];
        let (_, prim, _) = generic_primitive(ty, rng);
        let p = decorate_pseudo(&prim, 6, rng).0;
        let (c, q, _) = present(&p, &Pres { max_det: 6, skew: 1, ..FULL }, rng);
        let amp = amplitude(&c, dtol, rng);
        let c = displaced(&c, amp, rng);
        ctx.max("displacement in units of the tolerance", amp / dtol);
        ctx.desc = format!("type {ty} displaced by up to {amp} dtol={dtol} {}", c.describe());
        ctx.count("noisy supercells");
        ctx.good(cell_hash(&c));
        let Some(s) = ctx.must("construct", || c.lib()) else { return };
        let red = Reducer { dtol, atol: 5.0 };
        let Some(r) = ctx.must("primitive", || red.find_primitive_cell(&s)) else { return };
        if let Err(e) = consistent(&r) {
            ctx.fail("disagree", e);
            return;
        }
        let rc = Cell::from_lib(&r);
        ctx.check(rc.n() == p.n(), "count", || format!("{} sites, expected {}", rc.n(), p.n()));
        if !ctx.fails.is_empty() {
            return;
        }
        if let Err(e) = same_crystal(&rotated(&p, &q), &rc, 2.0 * amp + 1e-6) {
            ctx.fail("crystal", e);
        }
    } else {
        let n = (ctx.idx / 2 % 230) as u8 + 1;
        let Some(conv) = small_crystal(n, rng, &[8, 12, 24]) else { return };
        let p = primitive(n, &conv);
        let (c, _, _) = present(&p, &Pres { max_det: 1, skew: 1, ..FULL }, rng);
        let amp = dtol * rng.range(0.02, 0.2);
        let c = displaced(&c, amp, rng);
        ctx.max("displacement in units of the tolerance", amp / dtol);
        ctx.desc = format!("group {n} displaced by up to {amp} dtol={dtol} {}", c.describe());
        ctx.count("noisy primitive cells");
        ctx.good(cell_hash(&c));
        let Some((got, _, ops)) = analyse(ctx, &c, dtol, false) else { return };
        ctx.count("noisy groups reported");
        ctx.check(got == n, "group", || format!("reported {got}, the undisplaced crystal has group {n}"));
        ctx.check(got != n || ops.len() == hall::prim_ops(n).len(), "operations", || format!("{} operations instead of {}", ops.len(), hall::prim_ops(n).len()));
        let near = Near::new(&c.lat);
        for o in &ops {
            match op_residual(&c, &near, &o.r, &o.t, 3.0 * dtol) {
                Some(d) => ctx.max("residual in units of the tolerance", d / dtol),
                None => {
                    ctx.fail("atoms", format!("{o:?} misses atoms by more than three tolerances"));
                    return;
                }
            }
        }
    }
}
