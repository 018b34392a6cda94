//! The Python functions against the Rust functions.

use super::*;
use crate::gen::*;
use crate::hall;
use crate::lattice::*;
use crate::rng::Rng;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::reduce::Reducer;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C22",
        rule: "a case is one crystal sent through all five Python functions and the Rust functions; distinct by crystal",
        quick: 3000,
        thorough: 30_000,
        case: c22,
        floor: |t| {
            t.need("structures compared", 5000)?;
            t.need("groups compared", 300)?;
            t.need("failures on both sides", 30)?;
            t.need("Cartesian input", 500)?;
            t.need_tags("functions", 5)
        },
        exhaustive: false,
        assumptions: &["system Python 3 loads the extension module built from the same tree"],
    }]
}

/// What one operation returned.
#[derive(Clone, Debug)]
pub enum Outcome {
    /// Column-major lattice, species, fractional coordinates.
    S(Vec<f64>, Vec<String>, Vec<V>),
    G(i64, String, Vec<SOp>),
    Refused,
    /// The other side misbehaved.
    Error(String),
}

pub const OPS: [&str; 6] = [
    "find_primitive",
    "niggli_reduce",
    "delaunay_reduce",
    "get_standard_conventional_structure",
    "get_standard_primitive_structure",
    "get_space_group_info",
];

pub struct Tols {
    pub dtol: f64,
    pub atol: f64,
    pub ntol: f64,
}

fn structure(s: Structure) -> Outcome {
    Outcome::S(s.lattice.iter().copied().collect(), s.species.clone(), s.frac_coords.iter().map(na_v).collect())
}

/// Run one operation; panics pass through.
pub fn run_op(op: usize, s: &Structure, t: &Tols) -> Outcome {
    let red = Reducer { dtol: t.dtol, atol: t.atol };
    let sa = SymmetryAnalyzer { dtol: t.dtol, atol: t.atol };
    match op {
        0 => structure(red.find_primitive_cell(s)),
        // Like the Python function, which takes no distance tolerance.
        1 => structure(Reducer { ..Default::default() }.niggli_reduce(s, &t.ntol)),
        2 => structure(red.delaunay_reduce(s, true)),
        3 => structure(sa.get_standard_conventional_structure(s)),
        4 => structure(sa.get_standard_primitive_structure(s)),
        _ => {
            let (n, sym, g) = sa.get_space_group_info(s);
            Outcome::G(n as i64, sym, g.operations.iter().map(sop_of).collect())
        }
    }
}

fn hexs(s: &str) -> String {
    let mut o = String::from("x");
    for b in s.bytes() {
        o += &format!("{b:02x}");
    }
    o
}

fn unhex(s: &str) -> Option<String> {
    let h = s.strip_prefix('x')?;
    let b: Option<Vec<u8>> = (0..h.len() / 2).map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2)?, 16).ok()).collect();
    String::from_utf8(b?).ok()
}

impl Outcome {
    pub fn text(&self) -> String {
        let mut o = vec![];
        match self {
            Outcome::S(l, sp, fr) => {
                o.push("S".into());
                o.extend(l.iter().map(|x| format!("{x:?}")));
                o.push(sp.len().to_string());
                for (s, x) in sp.iter().zip(fr) {
                    o.push(hexs(s));
                    o.extend(x.iter().map(|v| format!("{v:?}")));
                }
            }
            Outcome::G(n, s, ops) => {
                o.extend(["G".into(), n.to_string(), hexs(s), ops.len().to_string()]);
                for p in ops {
                    o.extend(p.r.iter().flatten().map(|v| v.to_string()));
                    o.extend(p.t.iter().map(|v| format!("{v:?}")));
                }
            }
            Outcome::Refused => o.push("R".into()),
            Outcome::Error(e) => o.extend(["E".into(), e.clone()]),
        }
        o.join(" ")
    }

    pub fn parse(line: &str) -> Option<Outcome> {
        let w: Vec<&str> = line.split_whitespace().collect();
        let mut i = 1;
        let mut next = || {
            i += 1;
            w.get(i - 1).copied()
        };
        match *w.first()? {
            "R" => Some(Outcome::Refused),
            "E" => Some(Outcome::Error(line.to_string())),
            "S" => {
                let mut l = vec![];
                for _ in 0..9 {
                    l.push(next()?.parse().ok()?);
                }
                let n: usize = next()?.parse().ok()?;
                let (mut sp, mut fr) = (vec![], vec![]);
                for _ in 0..n {
                    sp.push(unhex(next()?)?);
                    fr.push([next()?.parse().ok()?, next()?.parse().ok()?, next()?.parse().ok()?]);
                }
                Some(Outcome::S(l, sp, fr))
            }
            "G" => {
                let n = next()?.parse().ok()?;
                let s = unhex(next()?)?;
                let k: usize = next()?.parse().ok()?;
                let mut ops = vec![];
                for _ in 0..k {
                    let mut r = [[0i64; 3]; 3];
                    for e in r.iter_mut().flatten() {
                        *e = next()?.parse().ok()?;
                    }
                    let t = [next()?.parse().ok()?, next()?.parse().ok()?, next()?.parse().ok()?];
                    ops.push(SOp { r, t });
                }
                Some(Outcome::G(n, s, ops))
            }
            _ => None,
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Outcome::S(..) => "a structure",
            Outcome::G(..) => "a group",
            Outcome::Refused => "a failure",
            Outcome::Error(_) => "an error",
        }
    }

    pub fn same(&self, other: &Outcome) -> Result<(), String> {
        let eq = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs()) || (a.is_nan() && b.is_nan());
        match (self, other) {
            (Outcome::Refused, Outcome::Refused) => Ok(()),
            (Outcome::S(a, s, x), Outcome::S(b, t, y)) => {
                if s != t {
                    return Err(format!("species {s:?} against {t:?}"));
                }
                if a.len() != b.len() || !a.iter().zip(b).all(|(p, q)| eq(*p, *q)) {
                    return Err(format!("lattice {a:?} against {b:?}"));
                }
                if x.len() != y.len() || !x.iter().flatten().zip(y.iter().flatten()).all(|(p, q)| eq(*p, *q)) {
                    return Err(format!("fractional coordinates {x:?} against {y:?}"));
                }
                Ok(())
            }
            (Outcome::G(n, s, a), Outcome::G(m, t, b)) => {
                if n != m || s != t {
                    return Err(format!("{n} {s} against {m} {t}"));
                }
                same_op_set(a, b, 1e-6)
            }
            (_, Outcome::Error(e)) => Err(e.clone()),
            _ => Err(format!("{} against {}", self.kind(), other.kind())),
        }
    }
}

struct Driver {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}

impl Drop for Driver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static DRIVER: RefCell<Option<Driver>> = const { RefCell::new(None) };
}

fn start() -> Driver {
    // .build/release/csmon next to .build/release/deps and harness/py.
    let exe = std::env::current_exe().expect("own path");
    let rel = exe.parent().expect("release directory");
    let so = rel.join("deps/libcrystsymm.so");
    let py = rel.join("../../harness/py/driver.py");
    assert!(so.exists() && py.exists(), "{so:?} or {py:?} missing");
    let mut child = Command::new("python3")
        .arg("-I")
        .arg("-B")
        .arg(&py)
        .arg(&so)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("python3 starts");
    let tx = child.stdin.take().unwrap();
    let rx = BufReader::new(child.stdout.take().unwrap());
    Driver { child, tx, rx }
}

fn ask(line: &str) -> Option<String> {
    DRIVER.with(|d| {
        let mut d = d.borrow_mut();
        let v = d.get_or_insert_with(start);
        let mut out = String::new();
        let ok = writeln!(v.tx, "{line}").is_ok() && v.tx.flush().is_ok() && v.rx.read_line(&mut out).map(|n| n > 0).unwrap_or(false);
        if !ok {
            *d = None;
            return None;
        }
        Some(out)
    })
}

/// A crystal for the differential and repeatability workloads: a known space
/// group, or arbitrary atoms in a lattice of some Bravais type.
pub fn some_crystal(i: u64, rng: &mut Rng, max_det: i64) -> Cell {
    let n = (i % 230) as u8 + 1;
    let c = if rng.chance(0.7) {
        small_crystal(n, rng, &[6, 10, 16]).map(|c| {
            if rng.chance(0.3) {
                c
            } else {
                primitive_of(&c, hall::reference(n).centering)
            }
        })
    } else {
        None
    };
    let c = c.unwrap_or_else(|| {
        let ty = BRAVAIS[rng.int(0, 13) as usize];
        let (_, prim, _) = generic_primitive(ty, rng);
        decorate_pseudo(&prim, 5, rng).0
    });
    let det = if c.n() > 8 { 2 } else { max_det };
    let mut d = present(&c, &Pres { max_det: det, ..FULL }, rng).0;
    if rng.chance(0.3) {
        // Other names, in another alphabetical order.
        let names = ["Zn", "Aa", "M", "Fe3+", "μ", "0"];
        let off = rng.int(0, 5) as usize;
        for s in d.sp.iter_mut() {
            let k = ELEMENTS.iter().position(|e| e == s).unwrap_or(0);
            *s = names[(k + off) % 6].to_string();
        }
    }
    d
}

fn c22(ctx: &mut Ctx, rng: &mut Rng) {
    let c = some_crystal(ctx.idx, rng, 4);
    let t = Tols {
        dtol: *rng.pick(&[0.01, 0.02, 0.05, 0.1]),
        atol: *rng.pick(&[1.0, 3.0, 5.0]),
        ntol: *rng.pick(&[1e-3, 1e-4, 1e-5, 1e-6]),
    };
    let cart = rng.chance(0.5);
    let s = if cart { c.lib_cart() } else { c.lib() };
    ctx.desc = format!("{} cartesian={cart} dtol={} atol={} tol={}", c.describe(), t.dtol, t.atol, t.ntol);
    if cart {
        ctx.count("Cartesian input");
    }
    ctx.good(cell_hash(&c));
    for (k, name) in OPS.iter().enumerate() {
        if k == 2 {
            continue;
        }
        ctx.tag("functions", name);
        let mine = ctx.call(|| run_op(k, &s, &t)).unwrap_or(Outcome::Refused);
        // The same numbers the Rust call was given.
        let mut line = vec![name.to_string()];
        line.extend(s.lattice.iter().map(|x| format!("{x:?}")));
        line.push(if cart { "1" } else { "0" }.into());
        line.push(format!("{:?}", if k == 1 { t.ntol } else { t.dtol }));
        line.push(format!("{:?}", t.atol));
        line.push(s.species.len().to_string());
        for (i, e) in s.species.iter().enumerate() {
            line.push(hexs(e));
            let x = if cart { &s.coords[i] } else { &s.frac_coords[i] };
            line.extend(x.iter().map(|v| format!("{v:?}")));
        }
        let theirs = match ask(&line.join(" ")) {
            Some(l) => Outcome::parse(&l).unwrap_or_else(|| panic!("cannot read answer {l:?}")),
            None => Outcome::Error("the Python process died".into()),
        };
        ctx.evals += 1;
        ctx.count(match &mine {
            Outcome::S(..) => "structures compared",
            Outcome::G(..) => "groups compared",
            _ => "failures on both sides",
        });
        if let Err(e) = mine.same(&theirs) {
            ctx.fail(name, format!("{name}: Rust against Python: {e}"));
        }
    }
}
