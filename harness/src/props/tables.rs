//! Built-in tables.

use super::groups::point_set;
use super::*;
use crate::hall;
use crate::lattice::*;
use crate::rng::Rng;
use crystsymm::data::core::*;
use crystsymm::data::pointgroup::*;
use crystsymm::data::spacegroup::*;
use crystsymm::pointgroup::PointGroup;
use crystsymm::utils::decode_spg_op;
use std::str::FromStr;

const NFIX: u64 = 230 + 44 + 15 + 6 + 1;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C20",
        rule: "cases 0-229 are the space groups, then 44 lattice characters, 15 Bravais types, 6 centrings and the names (exhaustive); further cases are random lattices classified by their character; distinct by table entry or lattice",
        quick: NFIX + 40_000,
        thorough: NFIX + 2_000_000,
        case: c20,
        floor: |t| {
            t.need_tags("space groups", 230)?;
            t.need_tags("characters", 44)?;
            t.need_tags("characters with lattices", 43)?;
            t.need_tags("Bravais types", 15)
        },
        exhaustive: true,
        assumptions: &["Hall symbols and lattice-character conditions typed into the harness"],
    }]
}

const SYSTEMS: [LatticeSystem; 7] = [
    LatticeSystem::Triclinic,
    LatticeSystem::Monoclinic,
    LatticeSystem::Orthorhombic,
    LatticeSystem::Tetragonal,
    LatticeSystem::Rhombohedral,
    LatticeSystem::Hexagonal,
    LatticeSystem::Cubic,
];

fn system_name(n: u8) -> &'static str {
    match hall::system(n) {
        hall::System::Tric => "Triclinic",
        hall::System::Mono => "Monoclinic",
        hall::System::Orth => "Orthorhombic",
        hall::System::Tetr => "Tetragonal",
        hall::System::Cubi => "Cubic",
        hall::System::Trig if hall::reference(n).centering == 'R' => "Rhombohedral",
        _ => "Hexagonal",
    }
}

fn types() -> Vec<(BravaisType, &'static str)> {
    use BravaisType::*;
    vec![
        (aP, "aP"), (mP, "mP"), (mC, "mC"), (mI, "mI"), (oP, "oP"), (oC, "oC"), (oI, "oI"), (oF, "oF"), (tP, "tP"),
        (tI, "tI"), (hR, "hR"), (hP, "hP"), (cP, "cP"), (cI, "cI"), (cF, "cF"),
    ]
}

fn c20(ctx: &mut Ctx, rng: &mut Rng) {
    let i = ctx.idx;
    if i < 230 {
        space_group(ctx, i as u8 + 1);
    } else if i < 274 {
        character_entry(ctx, (i - 230) as u8 + 1);
    } else if i < 289 {
        bravais_entry(ctx, (i - 274) as usize);
    } else if i < 296 {
        centring_entry(ctx, (i - 289) as usize);
    } else if i == 296 {
        names(ctx);
    } else {
        character_lattice(ctx, rng);
    }
}

fn space_group(ctx: &mut Ctx, n: u8) {
    ctx.tag("space groups", format!("{n:03}"));
    ctx.good(n as u64);
    ctx.desc = format!("table entries of space group {n}");
    let Some(sym) = ctx.must("symbol", || SG_NUM_TO_SYMBOL.get(&n).copied()) else { return };
    ctx.check(sym.map(|s| hall::symbol_ok(n, s)).unwrap_or(false), "symbol", || format!("symbol {sym:?}, expected {}", hall::HM[n as usize - 1]));
    let want = hall::prim_ops(n);
    // Every place where the number is filed.
    let mut found = 0;
    for s in &SYSTEMS {
        let Some(by_order) = SG_NUM_TO_FULL_MATRICES.get(s) else { continue };
        for (order, groups) in by_order {
            let Some(enc) = groups.get(&n) else { continue };
            found += 1;
            ctx.check(s.to_string() == system_name(n), "system", || format!("filed under {s}, expected {}", system_name(n)));
            ctx.check(*order as usize == want.len() && enc.len() == want.len(), "order", || format!("filed under order {order} with {} operations, expected {}", enc.len(), want.len()));
            let Some(ops) = ctx.must("decode", || {
                enc.iter()
                    .map(|e| {
                        let (r, t) = decode_spg_op(*e);
                        let mut m: IM = [[0; 3]; 3];
                        for k in 0..9 {
                            m[k / 3][k % 3] = r[k] as i64;
                        }
                        SOp { r: m, t: [t[0] as f64 / 12.0, t[1] as f64 / 12.0, t[2] as f64 / 12.0] }
                    })
                    .collect::<Vec<_>>()
            }) else { return };
            if let Err(e) = same_op_set(&ops, &want, 1e-6) {
                ctx.fail("operations", e);
            }
        }
    }
    ctx.check(found == 1, "filed", || format!("filed {found} times"));
}

fn character_entry(ctx: &mut Ctx, c: u8) {
    ctx.tag("characters", c);
    ctx.good(1000 + c as u64);
    ctx.desc = format!("lattice character {c}");
    ctx.evals += 1;
    let b = LATTICE_CHAR_TO_BRAVAIS.get(&c).map(|b| b.to_string()).unwrap_or_default();
    let want = CHAR_BRAVAIS[c as usize - 1];
    ctx.check(b == want || (want == "mC" && b == "mI"), "bravais", || format!("Bravais type {b}, expected {want}"));
    let t = LATTICE_CHAR_TO_CONV_TRANS.get(&c).map(|m| t_of(m));
    let n: i64 = match want {
        "aP" | "mP" | "oP" | "tP" | "hP" | "cP" => 1,
        "oF" | "cF" => 4,
        "hR" => 3,
        _ => 2,
    };
    ctx.check(t.map(|t| idet(&t).abs() == n).unwrap_or(false), "determinant", || format!("conventional transformation {t:?} should enlarge the cell {n} times"));
}

/// The tabulated transformation as used: columns are the conventional axes.
fn t_of(m: &nalgebra::Matrix3<i8>) -> IM {
    let r = rot_of(m);
    let mut o = r;
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = r[j][i];
        }
    }
    o
}

fn bravais_entry(ctx: &mut Ctx, i: usize) {
    let all = types();
    let (b, name) = &all[i];
    ctx.tag("Bravais types", name);
    ctx.good(2000 + i as u64);
    ctx.desc = format!("Bravais type {name}");
    let Some((s, c)) = ctx.must("names", || (b.lattice_system().to_string(), b.centering().to_string())) else { return };
    ctx.check(b.to_string() == *name, "name", || format!("{name} is displayed as {b}"));
    let sys = match &name[..1] {
        "a" => "Triclinic",
        "m" => "Monoclinic",
        "o" => "Orthorhombic",
        "t" => "Tetragonal",
        "c" => "Cubic",
        _ if *name == "hR" => "Rhombohedral",
        _ => "Hexagonal",
    };
    ctx.check(s == sys, "system", || format!("lattice system {s}, expected {sys}"));
    ctx.check(c == name[1..], "centring", || format!("centring {c}"));
    // The lattice point group of the type, in the conventional basis.
    let want = match sys {
        "Triclinic" => 2,
        "Monoclinic" => 10,
        "Orthorhombic" => 47,
        "Tetragonal" => 123,
        "Rhombohedral" => 164,
        "Hexagonal" => 191,
        _ => 221,
    };
    let Some(num) = BRAVAIS_TO_HOLOHEDRY_NUM.get(b).copied() else {
        ctx.fail("holohedry", "no entry");
        return;
    };
    let Some(pg) = ctx.must("holohedry", || PointGroup::from_number(&num)) else { return };
    let set: std::collections::BTreeSet<IM> = pg.operations.iter().map(rot_of).collect();
    ctx.check(set == point_set(want), "holohedry", || format!("lattice point group {} ({} operations) is not that of the type", pg.symbol, set.len()));
}

fn centring_entry(ctx: &mut Ctx, i: usize) {
    let c = "PACIFRB".chars().nth(i).unwrap();
    ctx.tag("centrings", c);
    ctx.good(3000 + i as u64);
    ctx.desc = format!("centring {c}");
    ctx.evals += 1;
    let key = Centering::from_str(&c.to_string()).ok();
    let Some(m) = key.and_then(|k| CENTERING_TO_PRIM_TRANS.get(&k)) else {
        // The table only has to cover the centrings of the Bravais types.
        ctx.check(c == 'A' || c == 'B', "missing", || format!("no transformation for centring {c}"));
        return;
    };
    let d = m[(3, 3)] as f64;
    let mut p = ID;
    for r in 0..3 {
        for k in 0..3 {
            p[r][k] = m[(r, k)] as f64 / d;
        }
    }
    if c == 'B' {
        // No tabulated group uses it: any basis of the B-centred lattice will do.
        let b = [[0.5, 0.0, -0.5], [0.0, 1.0, 0.0], [0.5, 0.0, 0.5]];
        let u = to_int(&mul(&inv(&b), &p), 1e-9);
        ctx.check(u.map(|u| idet(&u).abs()) == Some(1), "transformation", || format!("{p:?} is not a basis of the B-centred lattice"));
        return;
    }
    // The same primitive lattice as the reference and, because the tables of
    // operations are written in it, the same basis.
    ctx.check(max_abs_diff(&p, &hall::prim_basis(c)) < 1e-12, "transformation", || format!("{p:?}, expected {:?}", hall::prim_basis(c)));
}

fn names(ctx: &mut Ctx) {
    ctx.good(4000);
    ctx.desc = "names".into();
    for c in ["P", "A", "B", "C", "I", "F", "R"] {
        let Some(r) = ctx.must("parse", || Centering::from_str(c).map(|x| x.to_string())) else { return };
        ctx.check(r.as_deref() == Ok(c), "centring-name", || format!("{c} -> {r:?}"));
    }
    ctx.check(Centering::from_str("X").is_err() && LatticeSystem::from_str("X").is_err(), "parse", || "nonsense accepted".into());
    for s in ["Triclinic", "Monoclinic", "Orthorhombic", "Tetragonal", "Rhombohedral", "Hexagonal", "Cubic"] {
        let Some(r) = ctx.must("parse", || LatticeSystem::from_str(s).map(|x| x.to_string())) else { return };
        ctx.check(r.as_deref() == Ok(s), "system-name", || format!("{s} -> {r:?}"));
        let short = s[..1].to_lowercase();
        let short = if s == "Triclinic" { "a".to_string() } else { short };
        let Some(r) = ctx.must("parse", || LatticeSystem::from_str(&short).map(|x| x.to_string())) else { return };
        ctx.check(r.as_deref() == Ok(s), "system-name", || format!("{short} -> {r:?}"));
    }
    for n in 1..=32u8 {
        ctx.check(PG_NUM_TO_SYMBOL.get(&n).copied() == Some(super::groups::POINT_GROUPS[n as usize - 1].0), "point-group-symbol", || format!("point group {n}: {:?}", PG_NUM_TO_SYMBOL.get(&n)));
        ctx.check(PG_NUM_TO_GENERATOR_MATRICES.contains_key(&n), "point-group", || format!("no generators for {n}"));
    }
    ctx.check(SG_NUM_TO_SYMBOL.len() == 230, "count", || format!("{} symbols", SG_NUM_TO_SYMBOL.len()));
    ctx.check(LATTICE_CHAR_TO_BRAVAIS.len() == 44 && LATTICE_CHAR_TO_CONV_TRANS.len() == 44, "count", || "lattice characters".into());
}

/// A random lattice, its Niggli cell and character by the oracle; the
/// tabulated transformation must give a conventional cell.
fn character_lattice(ctx: &mut Ctx, rng: &mut Rng) {
    let ty = BRAVAIS[rng.int(0, 13) as usize];
    let (_, prim, _) = generic_primitive(ty, rng);
    let Some(g) = niggli_oracle(&prim) else { return };
    let ch = character(&g);
    ctx.tag("characters with lattices", format!("{ch:02}"));
    ctx.evals += 1;
    // A lattice with this metric.
    let a = g[0][0].sqrt();
    let b1 = g[0][1] / a;
    let b2 = (g[1][1] - b1 * b1).sqrt();
    let c1 = g[0][2] / a;
    let c2 = (g[1][2] - b1 * c1) / b2;
    let c3 = (g[2][2] - c1 * c1 - c2 * c2).sqrt();
    let lat: M = [[a, b1, c1], [0.0, b2, c2], [0.0, 0.0, c3]];
    ctx.desc = format!("lattice {lat:?}, character {ch}, true type {ty}");
    ctx.good(hash_f64s(lat.iter().flatten()));
    let bt = LATTICE_CHAR_TO_BRAVAIS.get(&ch).map(|b| b.to_string()).unwrap_or_default();
    ctx.check(bt == ty || (bt == "mI" && ty == "mC"), "type", || format!("character {ch} is listed as {bt}, the lattice is {ty}"));
    let Some(m) = LATTICE_CHAR_TO_CONV_TRANS.get(&ch).map(t_of) else {
        ctx.fail("missing", "no transformation");
        return;
    };
    let conv = mul(&lat, &f(&m));
    if let Err(e) = metric_fits(&conv, holohedry_order(ty), 1e-5) {
        ctx.fail("metric", format!("character {ch}: {e}"));
        return;
    }
    let pts = centring_points(&conv, &lat);
    let sym = pts.as_ref().and_then(|x| centring_symbol(x));
    ctx.check(sym.map(|s| s == &bt[1..]).unwrap_or(false), "centring", || format!("character {ch} ({bt}): lattice points {pts:?} (twelfths), centring {sym:?}"));
}
