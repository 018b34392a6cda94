//! Space groups and point groups as algebraic objects.

use super::*;
use crate::gen::*;
use crate::hall::{self, Op};
use crate::rng::Rng;
use crystsymm::pointgroup::PointGroup;
use crystsymm::spacegroup::SpaceGroup;
use nalgebra::Vector3;
use std::collections::BTreeSet;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C17",
            rule: "a case is one generating set in one basis; counted when the generated group has more operations than generators; distinct by generator bits",
            quick: 9200,
            thorough: 70_000,
            case: c17,
            floor: |t| {
                t.need("whole groups", 2000)?;
                t.need("subgroups", 1000)?;
                t.need("non-commuting", 2000)?;
                t.need("translations with errors", 1000)?;
                t.need_tags("groups", 230)
            },
            exhaustive: false,
            assumptions: &["rotation entries at most 6, so products fit the integer type of the library"],
        },
        Spec {
            id: "C18",
            rule: "a case is one group and one cell transformation; counted when the transformation is not the identity; distinct by group and transformation",
            quick: 9200,
            thorough: 70_000,
            case: c18,
            floor: |t| {
                t.need("enlarging", 2000)?;
                t.need("elongated", 200)?;
                t.need("to a smaller cell", 150)?;
                t.need("from a supercell", 300)?;
                t.need("negative determinant", 500)?;
                t.need("operations lost", 500)?;
                t.need("translations with errors", 500)?;
                t.need_tags("groups", 230)
            },
            exhaustive: false,
            assumptions: &["rotation entries at most 6; tolerance below half the smallest translation difference"],
        },
        Spec {
            id: "C19",
            rule: "a case is one point group and one change of basis; distinct by group and basis",
            quick: 6400,
            thorough: 640_000,
            case: c19,
            floor: |t| {
                t.need_tags("point groups", 32)?;
                t.need("changes of basis", 2000)
            },
            exhaustive: true,
            assumptions: &["exhaustive over the 32 numbers; basis changes are sampled"],
        },
    ]
}

fn twelfths(t: &[i64; 3]) -> V {
    [t[0] as f64 / 12.0, t[1] as f64 / 12.0, t[2] as f64 / 12.0]
}

/// A small unimodular matrix for which all conjugated rotations have small
/// entries.
fn basis_for(ops: &[Op], pre: &M, rng: &mut Rng) -> M {
    for _ in 0..50 {
        let steps = rng.int(0, 4) as usize;
        let mut u = f(&unimodular(rng, steps));
        if rng.chance(0.3) {
            for r in u.iter_mut() {
                r[1] = -r[1];
            }
        }
        let p = mul(pre, &u);
        let pi = inv(&p);
        let small = ops.iter().all(|o| mul(&mul(&pi, &f(&o.r)), &p).iter().flatten().all(|x| x.abs() < 6.5));
        if small {
            return p;
        }
    }
    *pre
}

/// Conjugate by a basis and an origin shift: {P^-1 R P | P^-1 (t + (R-1) s)}.
fn conjugate(o: &Op, p: &M, pi: &M, s: &V) -> SOp {
    let r = f(&o.r);
    let tt = add(&twelfths(&o.t), &sub(&mv(&r, s), s));
    SOp { r: to_int(&mul(&mul(pi, &r), p), 1e-6).expect("rotation in another basis"), t: mv(pi, &tt) }
}

fn dedupe(ops: Vec<SOp>) -> Vec<SOp> {
    let mut out: Vec<SOp> = vec![];
    for o in ops {
        if !out.iter().any(|p| op_eq(p, &o, 1e-6)) {
            out.push(o);
        }
    }
    out
}

fn tols(rng: &mut Rng) -> Vector3<f64> {
    let hi = *rng.pick(&[1e-4, 1e-3, 0.01, 0.02]);
    Vector3::new(rng.range(0.3, 1.0) * hi, rng.range(0.3, 1.0) * hi, rng.range(0.3, 1.0) * hi)
}

fn c17(ctx: &mut Ctx, rng: &mut Rng) {
    let n = (ctx.idx % 230) as u8 + 1;
    ctx.tag("groups", format!("{n:03}"));
    let r = hall::reference(n);
    // Choose generators exactly, in the conventional setting.
    let whole = rng.chance(0.6);
    let prim = rng.chance(0.5);
    let mut gens: Vec<Op> = vec![];
    let mut order: Vec<usize> = (0..r.ops.len()).collect();
    rng.shuffle(&mut order);
    let mut group: BTreeSet<Op> = BTreeSet::new();
    let limit = if whole { usize::MAX } else { rng.int(1, 3) as usize };
    for i in order {
        if gens.len() >= limit {
            break;
        }
        let o = r.ops[i];
        let redundant = group.contains(&o);
        if redundant && !rng.chance(0.02) {
            continue;
        }
        gens.push(o);
        group = hall::close(&gens, 192).into_iter().collect();
        if whole && group.len() == r.ops.len() {
            break;
        }
    }
    ctx.count(if group.len() == r.ops.len() { "whole groups" } else { "subgroups" });
    // The primitive basis identifies operations that differ by a centring.
    let pre = if prim { hall::prim_basis(r.centering) } else { ID };
    let p = basis_for(&r.ops, &pre, rng);
    let pi = inv(&p);
    let s = match rng.int(0, 2) {
        0 => [0.0; 3],
        1 => [rng.int(0, 11) as f64 / 12.0, rng.int(0, 11) as f64 / 12.0, rng.int(0, 11) as f64 / 12.0],
        _ => [rng.unit(), rng.unit(), rng.unit()],
    };
    let g: Vec<SOp> = dedupe(gens.iter().map(|o| conjugate(o, &p, &pi, &s)).collect());
    let want = dedupe(group.iter().map(|o| conjugate(o, &p, &pi, &s)).collect());
    let ft = tols(rng);
    // Errors that stay far below the tolerance in all products.
    let big = want.iter().flat_map(|o| o.r.iter().flatten()).fold(1, |a, x| a.max(x.abs())) as f64;
    let noise = if rng.chance(0.3) { 2e-3 * ft.min() / big } else { 0.0 };
    let noisy = noise > 0.0 && apart(&want, &ft);
    if noisy {
        ctx.count("translations with errors");
    }
    // Translations may be given outside the cell.
    let lib_gens: Vec<_> = g
        .iter()
        .map(|o| {
            let o = if noisy { with_error(o, noise, rng) } else { o.clone() };
            let w = if rng.chance(0.3) { [rng.int(-2, 2) as f64, rng.int(-2, 2) as f64, rng.int(-2, 2) as f64] } else { [0.0; 3] };
            lib_op(&o.r, &add(&o.t, &w))
        })
        .collect();
    ctx.desc = format!("group {n} generators={g:?} tols={:?}", na_v(&ft));
    if g.iter().any(|a| g.iter().any(|b| !op_eq(&compose(a, b), &compose(b, a), 1e-6))) {
        ctx.count("non-commuting");
    }
    let Some(sg) = ctx.must("generate", || SpaceGroup::from_generators(&lib_gens, &ft)) else { return };
    let got: Vec<SOp> = sg.operations.iter().map(sop_of).collect();
    ctx.max("largest group", want.len() as f64);
    if want.len() > g.len() {
        ctx.good(hash_f64s(g.iter().flat_map(|o| o.t.iter())) ^ (n as u64) << 32 ^ ctx.idx);
    }
    if let Err(e) = same_op_set(&got, &want, if noisy { 0.5 * ft.min() } else { 1e-5 }) {
        ctx.fail("set", e);
    }
}

/// No two operations are within twice the tolerance.
fn apart(ops: &[SOp], ft: &Vector3<f64>) -> bool {
    let mut seen: std::collections::HashMap<IM, Vec<V>> = Default::default();
    ops.iter().all(|o| {
        let e = seen.entry(o.r).or_default();
        let ok = !e.iter().any(|x| {
            let d = wrap_half_v(&sub(x, &o.t));
            (0..3).all(|i| d[i].abs() < 2.0 * ft[i])
        });
        e.push(o.t);
        ok
    })
}

fn with_error(o: &SOp, d: f64, rng: &mut Rng) -> SOp {
    SOp { r: o.r, t: o.t.map(|x| x + d * rng.range(-1.0, 1.0)) }
}

fn c18(ctx: &mut Ctx, rng: &mut Rng) {
    let n = (ctx.idx % 230) as u8 + 1;
    ctx.tag("groups", format!("{n:03}"));
    let r = hall::reference(n);
    let prim = rng.chance(0.5);
    let pre = if prim { hall::prim_basis(r.centering) } else { ID };
    let p = basis_for(&r.ops, &pre, rng);
    let pi = inv(&p);
    let s = if rng.chance(0.5) { [0.0; 3] } else { [rng.unit(), rng.unit(), rng.unit()] };
    let mut ops = dedupe(r.ops.iter().map(|o| conjugate(o, &p, &pi, &s)).collect());
    let kind = rng.int(0, 10);
    let max = if ops.len() > 96 { 3 } else if ctx.thorough { 12 } else { 6 };
    let mut h: IM = IID;
    let mut shrink = ID;
    match kind {
        0..=1 => {
            let k = rng.int(0, 3) as usize;
            h = unimodular(rng, k);
        }
        2..=5 => {
            let k = rng.int(0, 2) as usize;
            h = super_matrix(rng, max, k);
        }
        6 => {
            let i = rng.int(0, 2) as usize;
            h[i][i] = rng.int(3, if ops.len() > 48 { 4 } else { 9 });
            ctx.count("elongated");
        }
        10 => {
            // The group of a supercell, taken back to the small cell.
            let m = rng.int(2, if ops.len() > 24 { 4 } else { 10 });
            let k = super_matrix(rng, m, 1);
            let ki = inv(&f(&k));
            let cosets = coset_reps(&k);
            let mut big = vec![];
            for o in &ops {
                let Some(rot) = to_int(&mul(&mul(&ki, &f(&o.r)), &f(&k)), 1e-6) else { continue };
                for v in &cosets {
                    let t = mv(&ki, &add(&o.t, &[v[0] as f64, v[1] as f64, v[2] as f64]));
                    big.push(SOp { r: rot, t: t.map(|x| x - x.floor()) });
                }
            }
            if big.iter().any(|o| o.r.iter().flatten().any(|x| x.abs() > 60)) {
                ctx.count("skipped: entries too large");
                return;
            }
            ops = big;
            shrink = ki;
            ctx.count("from a supercell");
        }
        _ => {
            if !prim && r.centering != 'P' {
                // Conventional -> primitive, read in the present basis.
                shrink = mul(&pi, &hall::prim_basis(r.centering));
                ctx.count("to a smaller cell");
                if rng.chance(0.4) {
                    h = unimodular(rng, 1);
                }
            } else {
                h = super_matrix(rng, max, 1);
            }
        }
    }
    if rng.chance(0.3) {
        for row in h.iter_mut() {
            row[2] = -row[2];
        }
    }
    let tm = mul(&shrink, &f(&h));
    let d = det(&tm);
    if d < 0.0 {
        ctx.count("negative determinant");
    }
    if d.abs() > 1.5 {
        ctx.count("enlarging");
    }
    let ti = inv(&tm);
    // Reference: every coset of the new lattice in the old one.
    let reps = coset_reps(&h);
    let mut want: Vec<SOp> = vec![];
    let mut seen: std::collections::HashMap<IM, Vec<V>> = Default::default();
    let mut lost = 0;
    for o in &ops {
        let rn = mul(&mul(&ti, &f(&o.r)), &tm);
        let Some(ri) = to_int(&rn, 1e-6) else {
            lost += 1;
            continue;
        };
        if ri.iter().flatten().any(|x| x.abs() > 60) {
            ctx.count("skipped: entries too large");
            return;
        }
        for k in &reps {
            // With a shrinking part the representatives are those of h in the
            // intermediate lattice; old lattice vectors give nothing new.
            let kk = mv(&shrink, &[k[0] as f64, k[1] as f64, k[2] as f64]);
            let tt = mv(&ti, &add(&o.t, &kk));
            let e = seen.entry(ri).or_default();
            if !e.iter().any(|x| wrap_half_v(&sub(x, &tt)).iter().all(|y| y.abs() < 1e-6)) {
                e.push(tt);
                want.push(SOp { r: ri, t: tt });
            }
        }
    }
    if lost > 0 {
        ctx.count("operations lost");
    }
    let ft = tols(rng);
    ctx.desc = format!("group {n} basis={p:?} shift={s:?} T={tm:?} tols={:?}", na_v(&ft));
    // Errors of a fifth of the tolerance in the new cell.
    let big = ti.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max);
    let noisy = rng.chance(0.3) && apart(&want, &ft);
    if noisy {
        ctx.count("translations with errors");
    }
    let list: Vec<_> = ops
        .iter()
        .map(|o| {
            let o = if noisy { with_error(o, 0.2 * ft.min() / big, rng) } else { o.clone() };
            lib_op(&o.r, &o.t)
        })
        .collect();
    let Some(got) = ctx.must("transform", || {
        let mut sg = SpaceGroup { operations: list };
        sg.apply_transformation(&to_na(&tm), &ft);
        sg
    }) else { return };
    let got: Vec<SOp> = got.operations.iter().map(sop_of).collect();
    ctx.max("largest group", want.len() as f64);
    if max_abs_diff(&tm, &ID) > 1e-9 {
        ctx.good(hash_f64s(tm.iter().flatten().chain(p.iter().flatten())) ^ (n as u64) << 40);
    }
    if let Err(e) = same_op_set(&got, &want, if noisy { 0.5 * ft.min() } else { 1e-5 }) {
        ctx.fail("set", e);
    }
}

/// Representatives of Z^3 modulo the lattice spanned by the columns of `h`.
fn coset_reps(h: &IM) -> Vec<[i64; 3]> {
    let d = idet(h).abs();
    let hi = inv(&f(h));
    let mut out: Vec<[i64; 3]> = vec![];
    let mut keys: Vec<V> = vec![];
    'all: for i in 0..d {
        for j in 0..d {
            for k in 0..d {
                let v = [i, j, k];
                let x = wrap_half_v(&mv(&hi, &[i as f64, j as f64, k as f64]));
                if !keys.iter().any(|y| wrap_half_v(&sub(y, &x)).iter().all(|z| z.abs() < 1e-9)) {
                    keys.push(x);
                    out.push(v);
                    if out.len() as i64 == d {
                        break 'all;
                    }
                }
            }
        }
    }
    out
}

/// Symbol and the space groups whose point groups are acceptable settings.
pub const POINT_GROUPS: [(&str, &[u8]); 32] = [
    ("1", &[1]), ("-1", &[2]), ("-3", &[147]), ("-3m", &[164, 162]), ("-4", &[81]), ("-42m", &[111, 115]),
    ("-43m", &[215]), ("-6", &[174]), ("-6m2", &[187, 189]), ("2", &[3]), ("2/m", &[10]), ("222", &[16]),
    ("23", &[195]), ("3", &[143]), ("32", &[150, 149]), ("3m", &[156, 157]), ("4", &[75]), ("4/m", &[83]),
    ("4/mmm", &[123]), ("422", &[89]), ("432", &[207]), ("4mm", &[99]), ("6", &[168]), ("6/m", &[175]),
    ("6/mmm", &[191]), ("622", &[177]), ("6mm", &[183]), ("m", &[6]), ("m-3", &[200]), ("m-3m", &[221]),
    ("mm2", &[25]), ("mmm", &[47]),
];

pub fn point_set(sg: u8) -> BTreeSet<IM> {
    hall::reference(sg).ops.iter().map(|o| o.r).collect()
}

pub fn close_rot(g: &[IM]) -> BTreeSet<IM> {
    let mut set: BTreeSet<IM> = [IID].into();
    let mut q = vec![IID];
    while let Some(a) = q.pop() {
        for b in g {
            let c = imul(&a, b);
            if set.len() < 100 && set.insert(c) {
                q.push(c);
            }
        }
    }
    set
}

fn rotation_type(r: &IM) -> i64 {
    // 1, 2, 3, 4, 6 and the negative of each, from determinant and trace.
    let d = idet(r);
    d * match d * itrace(r) {
        3 => 1,
        -1 => 2,
        0 => 3,
        1 => 4,
        2 => 6,
        _ => 99,
    }
}

fn c19(ctx: &mut Ctx, rng: &mut Rng) {
    let i = (ctx.idx % 32) as usize;
    let num = i as u8 + 1;
    let (sym, sgs) = POINT_GROUPS[i];
    ctx.tag("point groups", sym);
    ctx.desc = format!("point group {num} ({sym})");
    let Some(pg) = ctx.must("construct", || PointGroup::from_number(&num)) else { return };
    ctx.check(pg.symbol == sym, "symbol", || format!("symbol {}, expected {sym}", pg.symbol));
    let ops: Vec<IM> = pg.operations.iter().map(rot_of).collect();
    let gens: Vec<IM> = pg.generators.iter().map(rot_of).collect();
    let set: BTreeSet<IM> = ops.iter().copied().collect();
    ctx.check(set.len() == ops.len(), "duplicates", || format!("{} operations, {} distinct", ops.len(), set.len()));
    let ok = sgs.iter().any(|s| point_set(*s) == set);
    ctx.check(ok, "operations", || {
        let want = point_set(sgs[0]);
        format!("{} operations that are not the point group {sym} ({} operations) in a standard setting", set.len(), want.len())
    });
    let count = |s: &BTreeSet<IM>| {
        let mut m = std::collections::BTreeMap::new();
        for r in s {
            *m.entry(rotation_type(r)).or_insert(0) += 1;
        }
        m
    };
    ctx.check(count(&set) == count(&point_set(sgs[0])), "types", || format!("rotation types {:?}", count(&set)));
    ctx.check(close_rot(&gens) == set, "generators", || "the generators do not generate the operations".into());
    ctx.check(!gens.is_empty() && gens.iter().all(|g| set.contains(g)), "generators", || "a generator is not an operation".into());
    ctx.check(ops.iter().all(|a| ops.iter().all(|b| set.contains(&imul(a, b)))), "closure", || "not closed".into());
    if !ctx.fails.is_empty() {
        return;
    }
    // A change of basis.
    let centrings: &[char] = match sym {
        "1" | "-1" => &['P'],
        "2" | "m" | "2/m" => &['P', 'C'],
        "222" | "mm2" | "mmm" => &['P', 'C', 'I', 'F'],
        "4" | "-4" | "4/m" | "422" | "4mm" | "-42m" | "4/mmm" => &['P', 'I'],
        "3" | "-3" | "32" | "3m" | "-3m" => &['P', 'R'],
        "23" | "m-3" | "432" | "-43m" | "m-3m" => &['P', 'I', 'F'],
        _ => &['P'],
    };
    let pre = hall::prim_basis(*rng.pick(centrings));
    let pi = inv(&pre);
    let whole = |t: &M, ti: &M| ops.iter().all(|o| to_int(&mul(&mul(ti, &f(o)), t), 1e-6).is_some());
    let pre = if whole(&pre, &pi) { pre } else { ID };
    let all: Vec<Op> = ops.iter().map(|r| Op { r: *r, t: [0; 3] }).collect();
    let tm = basis_for(&all, &pre, rng);
    let ti = inv(&tm);
    let conj = |r: &IM| to_int(&mul(&mul(&ti, &f(r)), &tm), 1e-6).expect("integer");
    ctx.desc = format!("point group {num} ({sym}) T={tm:?}");
    let Some(q) = ctx.must("transform", || {
        let mut q = PointGroup::from_number(&num);
        q.apply_transformation(&to_na(&tm));
        q
    }) else { return };
    ctx.count("changes of basis");
    ctx.good(hash_f64s(tm.iter().flatten()) ^ (num as u64) << 48);
    let want: BTreeSet<IM> = ops.iter().map(conj).collect();
    let got: BTreeSet<IM> = q.operations.iter().map(rot_of).collect();
    ctx.check(got == want && q.operations.len() == ops.len(), "transformed-operations", || "operations are not the conjugated ones".into());
    let want: BTreeSet<IM> = gens.iter().map(conj).collect();
    let got: BTreeSet<IM> = q.generators.iter().map(rot_of).collect();
    ctx.check(got == want, "transformed-generators", || "generators are not the conjugated ones".into());
    ctx.check(q.symbol == sym, "transformed-symbol", || format!("symbol became {}", q.symbol));
}
