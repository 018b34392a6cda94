//! Independent reference for the 230 space-group types: Hall symbols, parsed
//! and closed into full operation lists.  Translations are in twelfths of the
//! conventional cell.  Nothing here is taken from the code under test.

use crate::la::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Op {
    pub r: IM,
    pub t: [i64; 3],
}

impl Op {
    pub fn mul(&self, o: &Op) -> Op {
        let r = imul(&self.r, &o.r);
        let mut t = [0; 3];
        for i in 0..3 {
            let mut s = self.t[i];
            for k in 0..3 {
                s += self.r[i][k] * o.t[k];
            }
            t[i] = s.rem_euclid(12);
        }
        Op { r, t }
    }
}

/// (number, Hall symbol): standard ITA settings, unique axis b, origin choice
/// 1, hexagonal axes for R lattices.
pub const HALL: [&str; 230] = [
    "P 1", "-P 1", "P 2y", "P 2yb", "C 2y", "P -2y", "P -2yc", "C -2y", "C -2yc", "-P 2y",
    "-P 2yb", "-C 2y", "-P 2yc", "-P 2ybc", "-C 2yc", "P 2 2", "P 2c 2", "P 2 2ab", "P 2ac 2ab", "C 2c 2",
    "C 2 2", "F 2 2", "I 2 2", "I 2b 2c", "P 2 -2", "P 2c -2", "P 2 -2c", "P 2 -2a", "P 2c -2ac", "P 2 -2bc",
    "P 2ac -2", "P 2 -2ab", "P 2c -2n", "P 2 -2n", "C 2 -2", "C 2c -2", "C 2 -2c", "A 2 -2", "A 2 -2b", "A 2 -2a",
    "A 2 -2ab", "F 2 -2", "F 2 -2d", "I 2 -2", "I 2 -2c", "I 2 -2a", "-P 2 2", "P 2 2 -1n", "-P 2 2c", "P 2 2 -1ab",
    "-P 2a 2a", "-P 2a 2bc", "-P 2ac 2", "-P 2a 2ac", "-P 2 2ab", "-P 2ab 2ac", "-P 2c 2b", "-P 2 2n", "P 2 2ab -1ab", "-P 2n 2ab",
    "-P 2ac 2ab", "-P 2ac 2n", "-C 2c 2", "-C 2bc 2", "-C 2 2", "-C 2 2c", "-C 2b 2", "C 2 2 -1bc", "-F 2 2", "F 2 2 -1d",
    "-I 2 2", "-I 2 2c", "-I 2b 2c", "-I 2b 2", "P 4", "P 4w", "P 4c", "P 4cw", "I 4", "I 4bw",
    "P -4", "I -4", "-P 4", "-P 4c", "P 4ab -1ab", "P 4n -1n", "-I 4", "I 4bw -1bw", "P 4 2", "P 4ab 2ab",
    "P 4w 2c", "P 4abw 2nw", "P 4c 2", "P 4n 2n", "P 4cw 2c", "P 4nw 2abw", "I 4 2", "I 4bw 2bw", "P 4 -2", "P 4 -2ab",
    "P 4c -2c", "P 4n -2n", "P 4 -2c", "P 4 -2n", "P 4c -2", "P 4c -2ab", "I 4 -2", "I 4 -2c", "I 4bw -2", "I 4bw -2c",
    "P -4 2", "P -4 2c", "P -4 2ab", "P -4 2n", "P -4 -2", "P -4 -2c", "P -4 -2ab", "P -4 -2n", "I -4 -2", "I -4 -2c",
    "I -4 2", "I -4 2bw", "-P 4 2", "-P 4 2c", "P 4 2 -1ab", "P 4 2 -1n", "-P 4 2ab", "-P 4 2n", "P 4ab 2ab -1ab", "P 4ab 2n -1ab",
    "-P 4c 2", "-P 4c 2c", "P 4n 2c -1n", "P 4n 2 -1n", "-P 4c 2ab", "-P 4n 2n", "P 4n 2n -1n", "P 4n 2ab -1n", "-I 4 2", "-I 4 2c",
    "I 4bw 2bw -1bw", "I 4bw 2aw -1bw", "P 3", "P 31", "P 32", "R 3", "-P 3", "-R 3", "P 3 2", "P 3 2\"",
    "P 31 2 (0 0 4)", "P 31 2\"", "P 32 2 (0 0 2)", "P 32 2\"", "R 3 2\"", "P 3 -2\"", "P 3 -2", "P 3 -2\"c", "P 3 -2c", "R 3 -2\"",
    "R 3 -2\"c", "-P 3 2", "-P 3 2c", "-P 3 2\"", "-P 3 2\"c", "-R 3 2\"", "-R 3 2\"c", "P 6", "P 61", "P 65",
    "P 62", "P 64", "P 6c", "P -6", "-P 6", "-P 6c", "P 6 2", "P 61 2 (0 0 5)", "P 65 2 (0 0 1)", "P 62 2 (0 0 4)",
    "P 64 2 (0 0 2)", "P 6c 2c", "P 6 -2", "P 6 -2c", "P 6c -2", "P 6c -2c", "P -6 2", "P -6c 2", "P -6 -2", "P -6c -2c",
    "-P 6 2", "-P 6 2c", "-P 6c 2", "-P 6c 2c", "P 2 2 3", "F 2 2 3", "I 2 2 3", "P 2ac 2ab 3", "I 2b 2c 3", "-P 2 2 3",
    "P 2 2 3 -1n", "-F 2 2 3", "F 2 2 3 -1d", "-I 2 2 3", "-P 2ac 2ab 3", "-I 2b 2c 3", "P 4 2 3", "P 4n 2 3", "F 4 2 3", "F 4d 2 3",
    "I 4 2 3", "P 4acd 2ab 3", "P 4bd 2ab 3", "I 4bd 2c 3", "P -4 2 3", "F -4 2 3", "I -4 2 3", "P -4n 2 3", "F -4c 2 3", "I -4bd 2c 3",
    "-P 4 2 3", "P 4 2 3 -1n", "-P 4n 2 3", "P 4n 2 3 -1n", "-F 4 2 3", "-F 4c 2 3", "F 4d 2 3 -1d", "F 4d 2 3 -1cd", "-I 4 2 3", "-I 4bd 2c 3",
];

pub fn centering_vectors(c: char) -> Vec<[i64; 3]> {
    match c {
        'P' => vec![[0, 0, 0]],
        'A' => vec![[0, 0, 0], [0, 6, 6]],
        'B' => vec![[0, 0, 0], [6, 0, 6]],
        'C' => vec![[0, 0, 0], [6, 6, 0]],
        'I' => vec![[0, 0, 0], [6, 6, 6]],
        'R' => vec![[0, 0, 0], [8, 4, 4], [4, 8, 8]],
        'F' => vec![[0, 0, 0], [0, 6, 6], [6, 0, 6], [6, 6, 0]],
        _ => panic!("centering {c}"),
    }
}

fn neg(r: &IM) -> IM {
    let mut o = *r;
    for row in o.iter_mut() {
        for x in row.iter_mut() {
            *x = -*x;
        }
    }
    o
}

/// Centering letter and generators of a Hall symbol.
fn parse(symbol: &str) -> (char, Vec<Op>) {
    let mut s = symbol.to_string();
    let mut shift = [0i64; 3];
    if let Some(i) = s.find('(') {
        let inner: Vec<i64> = s[i + 1..s.find(')').unwrap()]
            .split_whitespace()
            .map(|x| x.parse().unwrap())
            .collect();
        shift = [inner[0], inner[1], inner[2]];
        s.truncate(i);
    }
    let mut it = s.split_whitespace();
    let lat = it.next().unwrap();
    let mut gens = Vec::new();
    let letter = lat.chars().last().unwrap();
    if lat.starts_with('-') {
        gens.push(Op { r: neg(&IID), t: [0; 3] });
    }
    for c in centering_vectors(letter) {
        gens.push(Op { r: IID, t: c });
    }
    let mut prev = 0;
    for (pos, tok) in it.enumerate() {
        let mut ch: Vec<char> = tok.chars().collect();
        let improper = ch[0] == '-';
        if improper {
            ch.remove(0);
        }
        let n = ch.remove(0).to_digit(10).unwrap() as i64;
        let (mut axis, mut dir) = match (pos, n) {
            (_, 1) => ('z', ' '),
            (0, _) => ('z', ' '),
            (1, 2) if prev == 2 || prev == 4 => ('x', ' '),
            (1, 2) => ('z', '\''),
            (2, 3) => ('*', ' '),
            _ => panic!("hall axis {symbol}"),
        };
        let mut t = [0i64; 3];
        let mut screw = 0;
        for c in ch {
            match c {
                '1'..='5' => screw = c.to_digit(10).unwrap() as i64,
                'x' | 'y' | 'z' | '*' => axis = c,
                '\'' | '"' => dir = c,
                'a' => t[0] += 6,
                'b' => t[1] += 6,
                'c' => t[2] += 6,
                'n' => {
                    for x in t.iter_mut() {
                        *x += 6
                    }
                }
                'u' => t[0] += 3,
                'v' => t[1] += 3,
                'w' => t[2] += 3,
                'd' => {
                    for x in t.iter_mut() {
                        *x += 3
                    }
                }
                _ => panic!("hall {symbol}"),
            }
        }
        if screw != 0 {
            t[2] += 12 * screw / n; // screw subscripts only occur along z here
        }
        let r: IM = match (n, axis, dir) {
            (1, _, _) => IID,
            (2, 'z', '\'') => [[0, -1, 0], [-1, 0, 0], [0, 0, -1]],
            (2, 'z', '"') => [[0, 1, 0], [1, 0, 0], [0, 0, -1]],
            (2, 'x', _) => [[1, 0, 0], [0, -1, 0], [0, 0, -1]],
            (2, 'y', _) => [[-1, 0, 0], [0, 1, 0], [0, 0, -1]],
            (2, 'z', _) => [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
            (3, 'z', _) => [[0, -1, 0], [1, -1, 0], [0, 0, 1]],
            (3, '*', _) => [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
            (4, 'z', _) => [[0, -1, 0], [1, 0, 0], [0, 0, 1]],
            (6, 'z', _) => [[1, -1, 0], [1, 0, 0], [0, 0, 1]],
            _ => panic!("hall rot {symbol}"),
        };
        // A bare double prime keeps the z direction of the preceding axis.
        gens.push(Op { r: if improper { neg(&r) } else { r }, t });
        prev = n;
    }
    if shift != [0; 3] {
        for g in gens.iter_mut() {
            for i in 0..3 {
                let mut rv = 0;
                for k in 0..3 {
                    rv += g.r[i][k] * shift[k];
                }
                g.t[i] += shift[i] - rv;
            }
        }
    }
    for g in gens.iter_mut() {
        for x in g.t.iter_mut() {
            *x = x.rem_euclid(12);
        }
    }
    (letter, gens)
}

/// Close a generator list into a group (translations modulo 1).
pub fn close(gens: &[Op], limit: usize) -> Vec<Op> {
    let mut set: BTreeSet<Op> = BTreeSet::new();
    let id = Op { r: IID, t: [0; 3] };
    let mut queue = vec![id];
    set.insert(id);
    while let Some(o) = queue.pop() {
        for g in gens {
            let p = o.mul(g);
            if set.insert(p) {
                queue.push(p);
                assert!(set.len() <= limit, "group does not close");
            }
        }
    }
    set.into_iter().collect()
}

#[derive(Clone)]
pub struct Ref {
    pub number: u8,
    pub centering: char,
    /// All operations of the conventional cell, centring translations included.
    pub ops: Vec<Op>,
}

pub fn reference(number: u8) -> Ref {
    let (centering, gens) = parse(HALL[number as usize - 1]);
    Ref { number, centering, ops: close(&gens, 192) }
}

pub fn all() -> Vec<Ref> {
    (1..=230).map(|n| reference(n as u8)).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum System {
    Tric,
    Mono,
    Orth,
    Tetr,
    Trig,
    Hexa,
    Cubi,
}

pub fn system(n: u8) -> System {
    match n {
        1..=2 => System::Tric,
        3..=15 => System::Mono,
        16..=74 => System::Orth,
        75..=142 => System::Tetr,
        143..=167 => System::Trig,
        168..=194 => System::Hexa,
        _ => System::Cubi,
    }
}

/// Conventional -> primitive basis (columns are the primitive vectors).
pub fn prim_basis(c: char) -> M {
    let h = 0.5;
    let q = 1.0 / 3.0;
    match c {
        'P' => ID,
        'A' => [[1.0, 0.0, 0.0], [0.0, h, -h], [0.0, h, h]],
        'C' => [[h, h, 0.0], [-h, h, 0.0], [0.0, 0.0, 1.0]],
        'I' => [[-h, h, h], [h, -h, h], [h, h, -h]],
        'F' => [[0.0, h, h], [h, 0.0, h], [h, h, 0.0]],
        'R' => [[2.0 * q, -q, -q], [q, q, -2.0 * q], [q, q, q]],
        _ => panic!(),
    }
}

/// Hermann-Mauguin symbols (short form, current International Tables names).
pub const HM: [&str; 230] = [
    "P1", "P-1", "P2", "P2_1", "C2", "Pm", "Pc", "Cm", "Cc", "P2/m",
    "P2_1/m", "C2/m", "P2/c", "P2_1/c", "C2/c", "P222", "P222_1", "P2_12_12", "P2_12_12_1", "C222_1",
    "C222", "F222", "I222", "I2_12_12_1", "Pmm2", "Pmc2_1", "Pcc2", "Pma2", "Pca2_1", "Pnc2",
    "Pmn2_1", "Pba2", "Pna2_1", "Pnn2", "Cmm2", "Cmc2_1", "Ccc2", "Amm2", "Aem2", "Ama2",
    "Aea2", "Fmm2", "Fdd2", "Imm2", "Iba2", "Ima2", "Pmmm", "Pnnn", "Pccm", "Pban",
    "Pmma", "Pnna", "Pmna", "Pcca", "Pbam", "Pccn", "Pbcm", "Pnnm", "Pmmn", "Pbcn",
    "Pbca", "Pnma", "Cmcm", "Cmce", "Cmmm", "Cccm", "Cmme", "Ccce", "Fmmm", "Fddd",
    "Immm", "Ibam", "Ibca", "Imma", "P4", "P4_1", "P4_2", "P4_3", "I4", "I4_1",
    "P-4", "I-4", "P4/m", "P4_2/m", "P4/n", "P4_2/n", "I4/m", "I4_1/a", "P422", "P42_12",
    "P4_122", "P4_12_12", "P4_222", "P4_22_12", "P4_322", "P4_32_12", "I422", "I4_122", "P4mm", "P4bm",
    "P4_2cm", "P4_2nm", "P4cc", "P4nc", "P4_2mc", "P4_2bc", "I4mm", "I4cm", "I4_1md", "I4_1cd",
    "P-42m", "P-42c", "P-42_1m", "P-42_1c", "P-4m2", "P-4c2", "P-4b2", "P-4n2", "I-4m2", "I-4c2",
    "I-42m", "I-42d", "P4/mmm", "P4/mcc", "P4/nbm", "P4/nnc", "P4/mbm", "P4/mnc", "P4/nmm", "P4/ncc",
    "P4_2/mmc", "P4_2/mcm", "P4_2/nbc", "P4_2/nnm", "P4_2/mbc", "P4_2/mnm", "P4_2/nmc", "P4_2/ncm", "I4/mmm", "I4/mcm",
    "I4_1/amd", "I4_1/acd", "P3", "P3_1", "P3_2", "R3", "P-3", "R-3", "P312", "P321",
    "P3_112", "P3_121", "P3_212", "P3_221", "R32", "P3m1", "P31m", "P3c1", "P31c", "R3m",
    "R3c", "P-31m", "P-31c", "P-3m1", "P-3c1", "R-3m", "R-3c", "P6", "P6_1", "P6_5",
    "P6_2", "P6_4", "P6_3", "P-6", "P6/m", "P6_3/m", "P622", "P6_122", "P6_522", "P6_222",
    "P6_422", "P6_322", "P6mm", "P6cc", "P6_3cm", "P6_3mc", "P-6m2", "P-6c2", "P-62m", "P-62c",
    "P6/mmm", "P6/mcc", "P6_3/mcm", "P6_3/mmc", "P23", "F23", "I23", "P2_13", "I2_13", "Pm-3",
    "Pn-3", "Fm-3", "Fd-3", "Im-3", "Pa-3", "Ia-3", "P432", "P4_232", "F432", "F4_132",
    "I432", "P4_332", "P4_132", "I4_132", "P-43m", "F-43m", "I-43m", "P-43n", "F-43c", "I-43d",
    "Pm-3m", "Pn-3n", "Pm-3n", "Pn-3m", "Fm-3m", "Fm-3c", "Fd-3m", "Fd-3c", "Im-3m", "Ia-3d",
];

/// Groups International Tables describes with two origin choices.
pub const TWO_ORIGINS: [u8; 24] = [
    48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228,
];

/// Is `s` the symbol of group `n`?  Accepts the long monoclinic form and a
/// setting suffix for the groups that have several tabulated settings.
pub fn symbol_ok(n: u8, s: &str) -> bool {
    let h = HM[n as usize - 1];
    if s == h {
        return true;
    }
    if (3..=15).contains(&n) {
        return s == format!("{}1{}1", &h[..1], &h[1..]);
    }
    if TWO_ORIGINS.contains(&n) {
        return s == format!("{h}1") || s == format!("{h}2");
    }
    h.starts_with('R') && (s == format!("{h}H") || s == format!("{h}R"))
}

/// Operations of group `n` modulo its lattice, in the primitive basis given by
/// the conventional one (tabulated setting and origin).
pub fn prim_ops(n: u8) -> Vec<crate::crystal::SOp> {
    let r = reference(n);
    conj_ops(&r, &prim_basis(r.centering))
}

/// Operations {P^-1 R P | P^-1 t}, deduplicated modulo the lattice of P.
fn conj_ops(r: &Ref, p: &M) -> Vec<crate::crystal::SOp> {
    let pi = inv(p);
    let mut out: Vec<crate::crystal::SOp> = vec![];
    let mut seen: BTreeSet<(IM, [i64; 3])> = BTreeSet::new();
    for o in &r.ops {
        let rot = to_int(&mul(&mul(&pi, &f(&o.r)), p), 1e-6).expect("primitive rotation");
        let t = mv(&pi, &[o.t[0] as f64 / 12.0, o.t[1] as f64 / 12.0, o.t[2] as f64 / 12.0]);
        let k = t.map(|x| (x * 24.0).round() as i64).map(|x| x.rem_euclid(24));
        if seen.insert((rot, k)) {
            out.push(crate::crystal::SOp { r: rot, t: k.map(|x| x as f64 / 24.0) });
        }
    }
    out
}

/// As `prim_ops`, with the A-centred groups in the C-centred cell (c, -b, a)
/// in which the library looks for them.
pub fn search_ops(n: u8) -> Vec<crate::crystal::SOp> {
    let r = reference(n);
    if r.centering != 'A' {
        return conj_ops(&r, &prim_basis(r.centering));
    }
    let a_to_c: M = [[0.0, 0.0, 1.0], [0.0, -1.0, 0.0], [1.0, 0.0, 0.0]];
    conj_ops(&r, &mul(&a_to_c, &prim_basis('C')))
}
