//! Independent reference evaluations: textbook definitions, evaluated in dual
//! numbers so that the same code also yields exact derivatives.
use geom3d::{Point3, Vec3};
use std::ops::{Add, Div, Mul, Sub};

#[derive(Clone, Copy, Debug)]
pub struct Dual {
    pub v: f64,
    pub d: f64,
}
pub fn c(v: f64) -> Dual {
    Dual { v, d: 0.0 }
}
pub fn x(v: f64) -> Dual {
    Dual { v, d: 1.0 }
}
impl Add for Dual {
    type Output = Dual;
    fn add(self, o: Dual) -> Dual {
        Dual { v: self.v + o.v, d: self.d + o.d }
    }
}
impl Sub for Dual {
    type Output = Dual;
    fn sub(self, o: Dual) -> Dual {
        Dual { v: self.v - o.v, d: self.d - o.d }
    }
}
impl Mul for Dual {
    type Output = Dual;
    fn mul(self, o: Dual) -> Dual {
        Dual { v: self.v * o.v, d: self.d * o.v + self.v * o.d }
    }
}
impl Div for Dual {
    type Output = Dual;
    fn div(self, o: Dual) -> Dual {
        Dual { v: self.v / o.v, d: (self.d * o.v - self.v * o.d) / (o.v * o.v) }
    }
}

/// All B-spline basis functions of degree p at u by the Cox-de Boor recurrence:
/// half-open spans, the last non-empty span closed at its right end, 0/0 = 0.
pub fn basis(knots: &[f64], p: usize, u: Dual) -> Vec<Dual> {
    let m = knots.len();
    let last = knots[m - 1];
    // at the right end the value is the limit from the left
    let mut n: Vec<Dual> = (0..m - 1)
        .map(|i| {
            let inside = if u.v >= last { knots[i] < knots[i + 1] && knots[i + 1] == last } else { knots[i] <= u.v && u.v < knots[i + 1] };
            c(if inside { 1.0 } else { 0.0 })
        })
        .collect();
    for k in 1..=p {
        let mut next = Vec::with_capacity(m - 1 - k);
        for i in 0..m - 1 - k {
            let mut s = c(0.0);
            if knots[i + k] > knots[i] {
                s = s + (u - c(knots[i])) / c(knots[i + k] - knots[i]) * n[i];
            }
            if knots[i + k + 1] > knots[i + 1] {
                s = s + (c(knots[i + k + 1]) - u) / c(knots[i + k + 1] - knots[i + 1]) * n[i + 1];
            }
            next.push(s);
        }
        n = next;
    }
    n
}

fn binom(n: usize, k: usize) -> f64 {
    let mut r = 1.0;
    for i in 0..k {
        r = r * (n - i) as f64 / (i + 1) as f64;
    }
    r
}

/// Bernstein polynomials of degree n from the closed formula
pub fn bernstein(n: usize, u: Dual) -> Vec<Dual> {
    let w = c(1.0) - u;
    (0..=n)
        .map(|i| {
            let mut b = c(binom(n, i));
            for _ in 0..i {
                b = b * u;
            }
            for _ in 0..n - i {
                b = b * w;
            }
            b
        })
        .collect()
}

/// de Casteljau
pub fn casteljau(p: &[Point3], u: f64) -> Point3 {
    let mut q = p.to_vec();
    while q.len() > 1 {
        q = q.windows(2).map(|w| w[0] * (1.0 - u) + w[1] * u).collect();
    }
    q[0]
}

/// (value, derivative) of a weighted combination
pub fn combine(b: &[Dual], p: &[Point3]) -> (Point3, Vec3) {
    let mut v = Point3::ZERO;
    let mut d = Vec3::ZERO;
    for (b, p) in b.iter().zip(p) {
        v += *p * b.v;
        d += *p * b.d;
    }
    (v, d)
}

/// projective combination; control points are plain points with weights
pub fn combine_rational(b: &[Dual], p: &[Point3], w: &[f64]) -> Point3 {
    let mut v = Point3::ZERO;
    let mut s = 0.0;
    for i in 0..p.len() {
        v += p[i] * (b[i].v * w[i]);
        s += b[i].v * w[i];
    }
    v / s
}

pub fn tensor(bu: &[Dual], bv: &[Dual], p: &dyn Fn(usize, usize) -> Point3) -> Point3 {
    let mut v = Point3::ZERO;
    for i in 0..bu.len() {
        for j in 0..bv.len() {
            v += p(i, j) * (bu[i].v * bv[j].v);
        }
    }
    v
}
/// partial derivatives of the tensor product
pub fn tensor_du(bu: &[Dual], bv: &[Dual], p: &dyn Fn(usize, usize) -> Point3) -> Vec3 {
    let mut v = Vec3::ZERO;
    for i in 0..bu.len() {
        for j in 0..bv.len() {
            v += p(i, j) * (bu[i].d * bv[j].v);
        }
    }
    v
}
pub fn tensor_dv(bu: &[Dual], bv: &[Dual], p: &dyn Fn(usize, usize) -> Point3) -> Vec3 {
    let mut v = Vec3::ZERO;
    for i in 0..bu.len() {
        for j in 0..bv.len() {
            v += p(i, j) * (bu[i].v * bv[j].d);
        }
    }
    v
}
pub fn tensor_rational(bu: &[Dual], bv: &[Dual], p: &dyn Fn(usize, usize) -> Point3, w: &dyn Fn(usize, usize) -> f64) -> Point3 {
    let mut v = Point3::ZERO;
    let mut s = 0.0;
    for i in 0..bu.len() {
        for j in 0..bv.len() {
            let k = bu[i].v * bv[j].v * w(i, j);
            v += p(i, j) * k;
            s += k;
        }
    }
    v / s
}

pub fn max_abs(p: &[Point3]) -> f64 {
    p.iter().map(|q| q.x.abs().max(q.y.abs()).max(q.z.abs())).fold(1e-3, f64::max)
}

/// Rodrigues rotation of v about the unit axis k
pub fn rotate(v: Vec3, k: Vec3, angle: f64) -> Vec3 {
    let (s, co) = angle.sin_cos();
    v * co + k.cross(v) * s + k * (k.dot(v) * (1.0 - co))
}

/// distance from p to segment ab by clamped parametrisation
pub fn seg_distance(a: Point3, b: Point3, p: Point3) -> f64 {
    let ab = b - a;
    let l2 = ab.dot(ab);
    let t = if l2 == 0.0 { 0.0 } else { ((p - a).dot(ab) / l2).max(0.0).min(1.0) };
    (a + ab * t - p).length()
}

pub fn bad(p: Point3) -> bool {
    !(p.x.is_finite() && p.y.is_finite() && p.z.is_finite())
}
