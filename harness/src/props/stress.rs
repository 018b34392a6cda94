//! Repeatability and termination.

use super::python::*;
use super::*;
use crate::gen::*;
use crate::lattice::*;
use crate::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::Barrier;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C23",
            rule: "a case is one crystal and all operations, repeated in another order, next to other crystals, from 8 threads at once and (every eighth case) in a fresh process; distinct by crystal",
            quick: 800,
            thorough: 12_000,
            case: c23,
            floor: |t| {
                t.need("repeated calls compared", 4000)?;
                t.need("concurrent calls compared", 20_000)?;
                t.need("calls in other processes compared", 500)?;
                t.need("groups", 100)
            },
            exhaustive: false,
            assumptions: &["interleavings are those the scheduler produced"],
        },
        Spec {
            id: "C26",
            rule: "a case is one hostile but valid crystal and all operations on it; distinct by crystal",
            quick: 1600,
            thorough: 24_000,
            case: c26,
            floor: |t| {
                t.need("calls finished", 5000)?;
                t.need_tags("shapes", 8)
            },
            exhaustive: false,
            assumptions: &["a call is hung when it exceeds the step or CPU budget, both far above every finished call"],
        },
    ]
}

/// Crystal and tolerances that belong to a number; used by parent and child.
/// Variants share most of their data with variant 0.
fn subject(seed: u64, i: u64, variant: u64) -> (Structure, Tols, Cell) {
    let mut rng = Rng::new(&[seed, i, 23]);
    let mut c = some_crystal(i, &mut rng, 4);
    let mut t = Tols { dtol: *rng.pick(&[0.01, 0.05, 0.1]), atol: 5.0, ntol: 1e-5 };
    let cart = rng.chance(0.5);
    // Crystals that lose their translations must stay small.
    let variant = if c.n() > 12 && [1, 3, 7].contains(&variant) { 4 } else { variant };
    match variant {
        // One atom elsewhere: same lattice, species and number of sites.
        1 => {
            for _ in 0..50 {
                let mut d = c.clone();
                let k = rng.int(0, d.n() as i64 - 1) as usize;
                d.fr[k] = [rng.unit(), rng.unit(), rng.unit()];
                if min_dist(&d) > 0.7 {
                    c = d;
                    break;
                }
            }
        }
        // The same fractional coordinates in another lattice.
        2 => {
            let k = [rng.range(1.0, 1.3), rng.range(1.0, 1.3), rng.range(1.0, 1.3)];
            for (r, f) in c.lat.iter_mut().zip(k) {
                for x in r.iter_mut() {
                    *x *= f;
                }
            }
        }
        // The same sites with one species exchanged.
        3 => {
            let k = rng.int(0, c.n() as i64 - 1) as usize;
            c.sp[k] = "Xx".into();
        }
        // Another tolerance.
        4 => t.dtol = if t.dtol < 0.05 { 0.1 } else { 0.01 },
        // Another basis of the same crystal.
        5 => {
            let u = unimodular(&mut rng, 2);
            c = c.rebase(&u);
        }
        // Another order of the same sites.
        6 => shuffle_sites(&mut c, &mut rng),
        // Symmetry that holds only approximately.
        7 => {
            let a = t.dtol * rng.range(0.2, 1.5);
            let li = inv(&c.lat);
            for x in c.fr.iter_mut() {
                *x = add(x, &mv(&li, &[rng.range(-a, a), rng.range(-a, a), rng.range(-a, a)]));
            }
        }
        // Another lattice of the same volume.
        8 => {
            let (k, l) = (rng.range(0.9, 1.1), rng.range(0.9, 1.1));
            for (r, f) in c.lat.iter_mut().zip([k, l, 1.0 / (k * l)]) {
                for x in r.iter_mut() {
                    *x *= f;
                }
            }
        }
        // Another lattice with the same cell lengths.
        9 => {
            let q = [random_rotation(&mut rng), ID, ID];
            let old = c.lat;
            for (j, q) in q.iter().enumerate() {
                let v = [old[0][j], old[1][j], old[2][j]];
                // Turn the first vector by a small angle only.
                let w = mv(q, &v);
                let w = add(&scale(&v, 4.0), &w);
                let w = scale(&w, norm(&v) / norm(&w));
                for (i, x) in w.iter().enumerate() {
                    c.lat[i][j] = *x;
                }
            }
        }
        _ => {}
    }
    let s = if cart { c.lib_cart() } else { c.lib() };
    (s, t, c)
}

const VARIANTS: i64 = 9;

fn quiet(op: usize, s: &Structure, t: &Tols) -> Outcome {
    catch_unwind(AssertUnwindSafe(|| run_op(op, s, t))).unwrap_or(Outcome::Refused)
}

const CHILD_THREADS: usize = 4;

/// A fresh process whose first library calls happen in several threads.
pub fn child(seed: u64, i: u64, variant: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let (s, t, _) = subject(seed, i, variant);
    let gate = Barrier::new(CHILD_THREADS);
    let lines: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..CHILD_THREADS)
            .map(|k| {
                let (s, t, gate) = (&s, &t, &gate);
                sc.spawn(move || {
                    gate.wait();
                    (0..6)
                        .map(|j| {
                            let op = (j + [5, 0, 3, 4][k % 4]) % 6;
                            format!("{op} {}", quiet(op, s, t).text())
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("child thread")).collect()
    });
    for l in lines.into_iter().flatten() {
        println!("{l}");
    }
    println!("done");
}

fn bits(s: &Structure) -> Vec<u64> {
    let mut v: Vec<u64> = s.lattice.iter().map(|x| x.to_bits()).collect();
    v.extend(s.coords.iter().chain(&s.frac_coords).flat_map(|x| [x[0].to_bits(), x[1].to_bits(), x[2].to_bits()]));
    v.extend(s.species.iter().map(|e| e.bytes().fold(5u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64))));
    v
}

fn c23(ctx: &mut Ctx, rng: &mut Rng) {
    let seed = rng.u64() >> 1;
    let i = ctx.idx;
    let (s, t, c) = subject(seed, i, 0);
    // A relative of the crystal, or an unrelated one.
    let variant = rng.int(1, VARIANTS) as u64;
    let kin = rng.chance(0.8);
    let (other, ot, _) = if kin { subject(seed, i, variant) } else { subject(seed, i + 1, 0) };
    ctx.desc = format!("{} dtol={} (subject {seed} {i}, variant {variant})", c.describe(), t.dtol);
    ctx.good(cell_hash(&c));
    let before = (bits(&s), bits(&other));
    let base: Vec<Outcome> = (0..6).map(|k| ctx.call(|| run_op(k, &s, &t)).unwrap_or(Outcome::Refused)).collect();
    let kin_base: Vec<Outcome> = (0..6).map(|k| ctx.call(|| run_op(k, &other, &ot)).unwrap_or(Outcome::Refused)).collect();
    if let Outcome::G(..) = base[5] {
        ctx.count("groups");
    }
    // History: other orders, the relative in between.
    let mut order: Vec<usize> = (0..6).chain(0..6).collect();
    rng.shuffle(&mut order);
    for k in order {
        if rng.chance(0.5) {
            let j = rng.int(0, 5) as usize;
            let again = ctx.call(|| run_op(j, &other, &ot)).unwrap_or(Outcome::Refused);
            ctx.count("repeated calls compared");
            if let Err(e) = kin_base[j].same(&again) {
                ctx.fail("repeat", format!("{} of the relative again: {e}", OPS[j]));
            }
        }
        let again = ctx.call(|| run_op(k, &s, &t)).unwrap_or(Outcome::Refused);
        ctx.count("repeated calls compared");
        if let Err(e) = base[k].same(&again) {
            ctx.fail("repeat", format!("{} again: {e}", OPS[k]));
        }
    }
    // Concurrent calls on the same and on another structure.
    let n = 8;
    let gate = Barrier::new(n);
    let results: Vec<Vec<(usize, Outcome)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (s, t, o, ot, gate) = (&s, &t, &other, &ot, &gate);
                sc.spawn(move || {
                    gate.wait();
                    (0..6)
                        .map(|j| {
                            let op = (j + k) % 6;
                            // Even threads work on the crystal, odd ones on the relative.
                            if k % 2 == 0 {
                                (op, quiet(op, s, t))
                            } else {
                                (op + 6, quiet(op, o, ot))
                            }
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    for (k, r) in results.iter().flatten() {
        ctx.evals += 1;
        ctx.count("concurrent calls compared");
        let want = if *k < 6 { &base[*k] } else { &kin_base[*k - 6] };
        if let Err(e) = want.same(r) {
            ctx.fail("concurrent", format!("{} from another thread: {e}", OPS[*k % 6]));
        }
    }
    // Fresh processes, one per structure: no history at all.
    if i % 4 == 0 {
        for (v, want) in [(0, &base), (variant, &kin_base)] {
            if v == 0 || kin {
                fresh_process(ctx, seed, v, want);
            }
        }
    }
    ctx.check((bits(&s), bits(&other)) == before, "input", || "a call changed its input".into());
}

fn fresh_process(ctx: &mut Ctx, seed: u64, variant: u64, want: &[Outcome]) {
    let exe = std::env::current_exe().expect("own path");
    let out = Command::new(exe)
        .args(["child", &seed.to_string(), &ctx.idx.to_string(), &variant.to_string()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("child process");
    let text = String::from_utf8_lossy(&out.stdout);
    if !text.trim_end().ends_with("done") {
        ctx.fail("process", format!("the child process died: {:?}", out.status));
        return;
    }
    for l in text.lines().filter(|l| *l != "done") {
        let (k, rest) = l.split_once(' ').expect("line");
        let k: usize = k.parse().expect("operation");
        let o = Outcome::parse(rest).expect("outcome");
        ctx.evals += 1;
        ctx.count("calls in other processes compared");
        if let Err(e) = want[k].same(&o) {
            ctx.fail("process", format!("{} in another process: {e}", OPS[k]));
        }
    }
}

/// Panics that are breakdowns rather than refusals.
fn breakdown(op: usize, m: &str) -> bool {
    let hard = ["attempt to", "out of bounds", "out of range", "not invertible", "capacity overflow", "divide by zero", "NaN"];
    // Only the space-group analysis may find nothing; there a missing value is
    // a refusal, however it is worded.
    let soft = ["unwrap()", "assertion"];
    hard.iter().any(|k| m.contains(k)) || (op != 5 && soft.iter().any(|k| m.contains(k)))
}

fn c26(ctx: &mut Ctx, rng: &mut Rng) {
    let shape = ctx.idx % 10;
    let ty = BRAVAIS[rng.int(0, 13) as usize];
    let (_, prim, _) = generic_primitive(ty, rng);
    let name;
    let mut c;
    match shape {
        0 => {
            name = "long";
            let l = from_params([rng.range(3.0, 6.0), rng.range(3.0, 6.0), rng.range(60.0, 150.0), rng.range(60.0, 120.0), rng.range(60.0, 120.0), 90.0]);
            c = decorate_pseudo(&l, 6, rng).0;
        }
        1 => {
            name = "flat";
            let l = from_params([rng.range(2.0, 3.0), rng.range(25.0, 50.0), rng.range(25.0, 50.0), rng.range(70.0, 110.0), 90.0, 90.0]);
            c = decorate_pseudo(&l, 6, rng).0;
        }
        2 => {
            name = "skewed";
            c = decorate_pseudo(&prim, 6, rng).0;
            let u = unimodular(rng, 6);
            c = c.rebase(&u);
        }
        3 => {
            name = "large supercell";
            c = decorate_pseudo(&prim, 3, rng).0;
            let h = imul(&[[rng.int(2, 5), rng.int(0, 2), 0], [0, rng.int(2, 4), rng.int(0, 2)], [0, 0, rng.int(2, 3)]], &unimodular(rng, 1));
            c = c.supercell(&h);
        }
        4 => {
            name = "chain supercell";
            c = decorate_pseudo(&prim, 3, rng).0;
            let mut h = IID;
            let k = rng.int(0, 2) as usize;
            h[k][k] = rng.int(20, 60);
            c = c.supercell(&h);
        }
        5 => {
            name = "far sites";
            c = decorate_pseudo(&prim, 6, rng).0;
            for x in c.fr.iter_mut().flatten() {
                *x += rng.int(-1000, 1000) as f64;
            }
        }
        6 => {
            name = "odd names";
            c = decorate_pseudo(&prim, 6, rng).0;
            let names = ["", " ", "μ-Fe", "a\tb", "0", "H₂O", "__", "ZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZ"];
            let off = rng.int(0, 7) as usize;
            for s in c.sp.iter_mut() {
                let k = ELEMENTS.iter().position(|e| e == s).unwrap_or(0);
                *s = names[(k + off) % 8].to_string();
            }
        }
        7 => {
            name = "many sites";
            let n = if ctx.thorough { rng.int(60, 200) } else { rng.int(40, 90) } as usize;
            let k = (n as f64 * 15.0 / det(&prim).abs()).cbrt().max(1.0);
            let l = prim.map(|r| r.map(|x| x * k));
            c = Cell { lat: l, sp: vec![], fr: vec![] };
            let near = Near::new(&l);
            let mut tries = 0;
            while c.fr.len() < n && tries < 4000 {
                tries += 1;
                let x = [rng.unit(), rng.unit(), rng.unit()];
                let xc = mv(&l, &x);
                if c.fr.iter().all(|y| near.dist_cart(&sub(&xc, &mv(&l, y))) > 1.0) {
                    c.fr.push(x);
                    c.sp.push(ELEMENTS[rng.int(0, 11) as usize].to_string());
                }
            }
        }
        8 => {
            name = "left-handed";
            c = decorate_pseudo(&prim, 6, rng).0;
            c = c.rebase(&[[-1, 0, 0], [0, -1, 0], [0, 0, -1]]);
            let u = unimodular(rng, 3);
            c = c.rebase(&u);
        }
        _ => {
            name = "pseudosymmetric";
            // A near-symmetric crystal: every atom displaced by about the
            // tolerance.
            c = some_crystal(ctx.idx / 10, rng, 3);
            let a = *rng.pick(&[0.003, 0.01, 0.03, 0.06, 0.1, 0.15]);
            let li = inv(&c.lat);
            for x in c.fr.iter_mut() {
                *x = add(x, &mv(&li, &[rng.range(-a, a), rng.range(-a, a), rng.range(-a, a)]));
            }
            if rng.chance(0.5) {
                for x in c.lat.iter_mut().flatten() {
                    *x *= 1.0 + rng.range(-0.004, 0.004);
                }
            }
        }
    }
    if rng.chance(0.3) {
        c.lat = mul(&random_rotation(rng), &c.lat);
    }
    ctx.tag("shapes", name);
    let d = min_dist(&c);
    let short = (0..3).map(|i| norm(&col(&minkowski_cell(&c.lat), i))).fold(f64::INFINITY, f64::min);
    let top = (d.min(short) / 4.0).max(0.002);
    let dtol = match rng.int(0, 3) {
        0 => 1e-4,
        1 => 1e-3,
        2 => top.min(0.1),
        _ => rng.range(0.001, top),
    };
    let t = Tols { dtol, atol: *rng.pick(&[0.5, 5.0, 10.0]), ntol: *rng.pick(&[1e-5, 1e-4, 1e-6]) };
    ctx.desc = format!("{name}: {} dtol={dtol} atol={} tol={}", c.describe(), t.atol, t.ntol);
    ctx.good(cell_hash(&c));
    ctx.max("sites", c.n() as f64);
    let s = if rng.chance(0.5) { c.lib_cart() } else { c.lib() };
    let mut sites = c.n();
    for k in 0..6 {
        // The symmetry search is quartic in the sites of the primitive cell.
        if k == 5 && sites > 24 {
            ctx.count("groups not attempted (large primitive cell)");
            continue;
        }
        match ctx.call(|| run_op(k, &s, &t)) {
            Ok(Outcome::S(l, _, x)) => {
                ctx.count("calls finished");
                if k == 0 {
                    sites = x.len();
                }
                let fin = l.iter().chain(x.iter().flatten()).all(|v| v.is_finite());
                ctx.check(fin, "not-finite", || format!("{} returned a cell that is not finite: {l:?}", OPS[k]));
            }
            Ok(Outcome::G(_, _, ops)) => {
                ctx.count("calls finished");
                ctx.count("groups reported");
                ctx.max("operations", ops.len() as f64);
                ctx.check(!ops.is_empty(), "empty", || "no operations".into());
            }
            Ok(_) => {}
            Err(m) => {
                ctx.count("calls refused");
                ctx.tag("refusals", m.split(" at ").next().unwrap_or(""));
                if breakdown(k, &m) {
                    ctx.fail("breakdown", format!("{}: {m}", OPS[k]));
                }
            }
        }
    }
}

fn minkowski_cell(l: &M) -> M {
    mul(l, &f(&minkowski(l)))
}
