//! Small, self-contained linear algebra for the oracles (no nalgebra).
//! Lattices are 3x3 matrices whose COLUMNS are the lattice vectors.

pub type V = [f64; 3];
pub type M = [[f64; 3]; 3];
pub type IM = [[i64; 3]; 3];

pub const ID: M = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
pub const IID: IM = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];

pub fn mul(a: &M, b: &M) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                r[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    r
}

pub fn imul(a: &IM, b: &IM) -> IM {
    let mut r = [[0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                r[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    r
}

pub fn mv(a: &M, v: &V) -> V {
    [
        a[0][0] * v[0] + a[0][1] * v[1] + a[0][2] * v[2],
        a[1][0] * v[0] + a[1][1] * v[1] + a[1][2] * v[2],
        a[2][0] * v[0] + a[2][1] * v[1] + a[2][2] * v[2],
    ]
}

pub fn t(a: &M) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}

pub fn det(a: &M) -> f64 {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1])
        - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}

pub fn idet(a: &IM) -> i64 {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1])
        - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}

pub fn itrace(a: &IM) -> i64 {
    a[0][0] + a[1][1] + a[2][2]
}

/// Adjugate.
pub fn adj(a: &M) -> M {
    let c = |i: usize, j: usize| {
        let (i1, i2) = ((i + 1) % 3, (i + 2) % 3);
        let (j1, j2) = ((j + 1) % 3, (j + 2) % 3);
        a[i1][j1] * a[i2][j2] - a[i1][j2] * a[i2][j1]
    };
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[j][i] = c(i, j);
        }
    }
    r
}

pub fn inv(a: &M) -> M {
    let d = det(a);
    let mut r = adj(a);
    for row in r.iter_mut() {
        for x in row.iter_mut() {
            *x /= d;
        }
    }
    r
}

/// Inverse of a unimodular integer matrix.
pub fn iinv(a: &IM) -> IM {
    let d = idet(a);
    assert!(d == 1 || d == -1, "iinv of a non-unimodular matrix");
    let mut r = [[0i64; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (i1, i2) = ((i + 1) % 3, (i + 2) % 3);
            let (j1, j2) = ((j + 1) % 3, (j + 2) % 3);
            r[j][i] = d * (a[i1][j1] * a[i2][j2] - a[i1][j2] * a[i2][j1]);
        }
    }
    r
}

pub fn f(a: &IM) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][j] as f64;
        }
    }
    r
}

/// Round to an integer matrix if every entry is within `tol` of an integer.
pub fn to_int(a: &M, tol: f64) -> Option<IM> {
    let mut r = [[0i64; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let x = a[i][j].round();
            if !a[i][j].is_finite() || (a[i][j] - x).abs() > tol || x.abs() > 1e9 {
                return None;
            }
            r[i][j] = x as i64;
        }
    }
    Some(r)
}

pub fn add(a: &V, b: &V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: &V, b: &V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: &V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: &V, b: &V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm(a: &V) -> f64 {
    dot(a, a).sqrt()
}
pub fn col(a: &M, j: usize) -> V {
    [a[0][j], a[1][j], a[2][j]]
}
pub fn from_cols(a: &V, b: &V, c: &V) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        r[i][0] = a[i];
        r[i][1] = b[i];
        r[i][2] = c[i];
    }
    r
}
pub fn metric(l: &M) -> M {
    mul(&t(l), l)
}
pub fn max_abs_diff(a: &M, b: &M) -> f64 {
    let mut m: f64 = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let d = (a[i][j] - b[i][j]).abs();
            if !(d <= m) {
                m = if d.is_nan() { f64::INFINITY } else { d };
            }
        }
    }
    m
}
/// Fold into [-1/2, 1/2).
pub fn wrap_half(x: f64) -> f64 {
    x - x.round()
}
pub fn wrap_half_v(v: &V) -> V {
    [wrap_half(v[0]), wrap_half(v[1]), wrap_half(v[2])]
}
pub fn finite_m(a: &M) -> bool {
    a.iter().flatten().all(|x| x.is_finite())
}

/// Axis-angle rotation matrix.
pub fn rotation(axis: &V, ang: f64) -> M {
    let n = norm(axis);
    let (x, y, z) = (axis[0] / n, axis[1] / n, axis[2] / n);
    let (s, c) = ang.sin_cos();
    let o = 1.0 - c;
    [
        [c + x * x * o, x * y * o - z * s, x * z * o + y * s],
        [y * x * o + z * s, c + y * y * o, y * z * o - x * s],
        [z * x * o - y * s, z * y * o + x * s, c + z * z * o],
    ]
}
