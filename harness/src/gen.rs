//! Workload generators.
use crate::rng::Rng;
use geom3d::{Grid, KnotVector, Point2, Point3, Point4, Vec3};

/// How coordinates are drawn: small integers hit exact ties and alignments,
/// the others reach scales and offsets.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Coords {
    Ints,
    Unit,
    Tens,
    Hundreds,
    Offset,
    HalfInts,
}

pub const COORDS: [Coords; 6] = [Coords::Ints, Coords::Unit, Coords::Tens, Coords::Hundreds, Coords::Offset, Coords::HalfInts];

pub fn coords(r: &mut Rng) -> Coords {
    *r.pick(&COORDS)
}

pub fn coord(r: &mut Rng, c: Coords) -> f64 {
    match c {
        Coords::Ints => r.int(-6, 6) as f64,
        Coords::HalfInts => r.int(-9, 9) as f64 * 0.5,
        Coords::Unit => r.range(-1.0, 1.0),
        Coords::Tens => r.range(-10.0, 10.0),
        Coords::Hundreds => r.range(-500.0, 500.0),
        Coords::Offset => 2000.0 + r.range(-5.0, 5.0),
    }
}

pub fn point3(r: &mut Rng, c: Coords) -> Point3 {
    Point3::new(coord(r, c), coord(r, c), coord(r, c))
}
pub fn point2(r: &mut Rng, c: Coords) -> Point2 {
    Point2::new(coord(r, c), coord(r, c))
}
pub fn points3(r: &mut Rng, c: Coords, n: usize) -> Vec<Point3> {
    (0..n).map(|_| point3(r, c)).collect()
}
/// homogeneous points (wx,wy,wz,w) with positive, uneven weights
pub fn points4(r: &mut Rng, c: Coords, n: usize) -> Vec<Point4> {
    // now and then all weights are the same, or those at the ends
    let pattern = r.below(16);
    let (ends, inner) = (*r.pick(&[1.0, 0.5, 2.0]), *r.pick(&[1.0, 0.5, 2.0]));
    (0..n)
        .map(|i| {
            let p = point3(r, c);
            let w = match r.below(4) {
                _ if pattern == 0 => ends,
                _ if pattern == 1 => {
                    if i == 0 || i + 1 == n {
                        ends
                    } else {
                        inner
                    }
                }
                0 => 1.0,
                1 => r.range(0.1, 4.0),
                2 => r.range(0.5, 2.0),
                _ => *r.pick(&[0.25, 0.5, 2.0, 3.0, std::f64::consts::FRAC_1_SQRT_2]),
            };
            (p * w).extend(w)
        })
        .collect()
}

/// Weights matter by their ratios only: now and then all of them small or large, or far apart.
pub fn reweigh(r: &mut Rng, w: &mut [f64]) {
    if r.chance(0.1) {
        for w in w.iter_mut() {
            *w *= *r.pick(&[0.01, 0.1, 1.0, 1.0, 10.0, 100.0]);
        }
    }
    if r.chance(0.2) {
        let k = 10f64.powi(r.int(-12, 12) as i32);
        for w in w.iter_mut() {
            *w *= k;
        }
    }
}

/// Steps along the axes, exactly equally long in some pattern, never meeting each other.
pub fn stairs(r: &mut Rng, n: usize) -> Vec<Point3> {
    let lens: Vec<f64> = (0..n - 1).map(|_| *r.pick(&[0.5, 1.0, 2.0, 5.0])).collect();
    let mode = r.below(4);
    let mut v = vec![Point3::new(r.int(-9, 9) as f64, r.int(-9, 9) as f64, r.int(-9, 9) as f64)];
    let sign: Vec<f64> = (0..3).map(|_| if r.chance(0.5) { 1.0 } else { -1.0 }).collect();
    let mut last = 3;
    for i in 0..n - 1 {
        let l = match mode {
            0 => lens[0],
            1 => lens[i.min(n - 2 - i)],
            2 if i + 2 == n => lens[0],
            _ => lens[i],
        };
        // a new direction each time, so that every vertex is a corner
        let axis = loop {
            let k = r.below(3);
            if k != last {
                break k;
            }
        };
        last = axis;
        let d = sign[axis] * l;
        let p = v[i];
        v.push(match axis {
            0 => p + Vec3::new(d, 0.0, 0.0),
            1 => p + Vec3::new(0.0, d, 0.0),
            _ => p + Vec3::new(0.0, 0.0, d),
        });
    }
    v
}

pub fn unit3(r: &mut Rng) -> Vec3 {
    if r.chance(0.25) {
        return *r.pick(&[Vec3::X, Vec3::Y, Vec3::Z, -Vec3::X, -Vec3::Y, -Vec3::Z]);
    }
    loop {
        let v = Vec3::new(r.range(-1.0, 1.0), r.range(-1.0, 1.0), r.range(-1.0, 1.0));
        let l = v.length();
        if l > 0.1 && l <= 1.0 {
            return v / l;
        }
    }
}

/// right-handed orthonormal frame (x, y, z)
pub fn frame(r: &mut Rng) -> (Vec3, Vec3, Vec3) {
    let z = unit3(r);
    loop {
        let v = unit3(r);
        let x = v - z * v.dot(z);
        if x.length() > 0.2 {
            let x = x.normalize();
            // orthogonalise once more against rounding
            let x = (x - z * x.dot(z)).normalize();
            return (x, z.cross(x), z);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum KnotKind {
    ClampedUniform,
    ClampedNonUniform,
    ClampedMultiple,
    Unclamped,
    UnclampedMultiple,
    HalfClamped,
}

pub const KNOT_KINDS: [KnotKind; 6] = [
    KnotKind::ClampedUniform,
    KnotKind::ClampedNonUniform,
    KnotKind::ClampedMultiple,
    KnotKind::Unclamped,
    KnotKind::UnclampedMultiple,
    KnotKind::HalfClamped,
];

pub fn is_clamped(k: KnotKind) -> bool {
    matches!(k, KnotKind::ClampedUniform | KnotKind::ClampedNonUniform | KnotKind::ClampedMultiple)
}

fn increasing(r: &mut Rng, a: f64, n: usize, kind: usize) -> Vec<f64> {
    // n strictly increasing values starting at a, steps of comparable size
    let mut v = Vec::with_capacity(n);
    let mut x = a;
    for _ in 0..n {
        v.push(x);
        x += match kind {
            0 => 1.0,
            1 => 0.25,
            2 => r.range(0.05, 1.0),
            3 => *r.pick(&[0.125, 0.5, 1.0, 2.0]),
            _ => r.range(0.002, 0.5),
        };
    }
    v
}

/// A legal knot vector for `n` control points of degree `p`: n+p+1 non-decreasing
/// values, no interior multiplicity above max(p,1), first and last value of multiplicity at most p+1.
pub fn knots(r: &mut Rng, n: usize, p: usize, kind: KnotKind) -> Vec<f64> {
    let m = n + p + 1;
    let start = *r.pick(&[0.0, 0.0, -1.0, 2.5, -3.75]);
    let step = r.below(5);
    let max_mult = p.max(1);
    let fill = |r: &mut Rng, count: usize, multiple: bool| -> Vec<usize> {
        // partition `count` interior knots into multiplicities
        let mut left = count;
        let mut out = Vec::new();
        while left > 0 {
            let k = if multiple && r.chance(0.6) { 1 + r.below(max_mult.min(left)) } else { 1 };
            out.push(k);
            left -= k;
        }
        out
    };
    let mults: Vec<usize> = match kind {
        KnotKind::ClampedUniform | KnotKind::ClampedNonUniform | KnotKind::ClampedMultiple => {
            let mut v = vec![p + 1];
            v.extend(fill(r, m - 2 * (p + 1), kind == KnotKind::ClampedMultiple));
            v.push(p + 1);
            v
        }
        KnotKind::Unclamped => vec![1; m],
        KnotKind::UnclampedMultiple => fill(r, m, true),
        KnotKind::HalfClamped => {
            let multiple = r.below(2) == 0;
            let mut v = fill(r, m - (p + 1), multiple);
            if r.chance(0.5) {
                v.push(p + 1);
            } else {
                v.insert(0, p + 1);
            }
            v
        }
    };
    let step = if kind == KnotKind::ClampedUniform { r.below(2) } else { step };
    let vals = increasing(r, start, mults.len(), step);
    let mut out = Vec::with_capacity(m);
    for (v, k) in vals.iter().zip(mults.iter()) {
        for _ in 0..*k {
            out.push(*v);
        }
    }
    // with a uniform step normalise some of them to [0,1]
    if kind == KnotKind::ClampedUniform && r.chance(0.5) {
        let (a, b) = (out[0], out[out.len() - 1]);
        for x in out.iter_mut() {
            *x = (*x - a) / (b - a);
        }
    }
    out
}

/// Close one gap between neighbouring knots down to 1e-3 .. 1e-9.
pub fn pinch(r: &mut Rng, t: &mut Vec<f64>) {
    let gaps: Vec<usize> = (1..t.len()).filter(|i| t[*i] > t[*i - 1]).collect();
    let i = *r.pick(&gaps);
    let tiny = 10f64.powf(-r.range(3.0, 9.0));
    let d = t[i] - t[i - 1] - tiny;
    if d <= 0.0 || gaps.len() < 2 {
        return;
    }
    for x in t[i..].iter_mut() {
        *x -= d;
    }
}

/// Raise an inner knot to multiplicity p + 1, where curves may jump.
pub fn tear(r: &mut Rng, t: &mut [f64], p: usize) -> bool {
    let m = t.len();
    let (first, last) = (t[0], t[m - 1]);
    let spots: Vec<usize> = (1..m - p).filter(|i| t[*i] > first && t[*i + p] < last && t[*i - 1] < t[*i]).collect();
    if spots.is_empty() {
        return false;
    }
    let i = *r.pick(&spots);
    let v = t[i];
    for x in t[i..=i + p].iter_mut() {
        *x = v;
    }
    true
}

pub fn distinct(knots: &[f64]) -> Vec<f64> {
    let mut v = knots.to_vec();
    v.dedup();
    v
}

/// Parameters worth looking at: every distinct knot, both ends, one ulp around
/// knots (inside the range), midpoints and random values.
pub fn params(r: &mut Rng, knots: &[f64], extra: usize) -> Vec<f64> {
    let d = distinct(knots);
    let (a, b) = (d[0], d[d.len() - 1]);
    let mut v = d.clone();
    for w in d.windows(2) {
        v.push((w[0] + w[1]) * 0.5);
        v.push(next_up(w[0]));
        v.push(next_down(w[1]));
    }
    for _ in 0..extra {
        v.push(r.range(a, b));
    }
    v.retain(|x| *x >= a && *x <= b);
    v
}

/// a degree, now and then a high one
pub fn degree(r: &mut Rng, min: usize, max: usize) -> usize {
    if r.chance(0.03) {
        return max + r.below(9);
    }
    min + r.below(max - min + 1)
}
/// control points beyond the least number, now and then many
pub fn extra(r: &mut Rng, n: usize) -> usize {
    if r.chance(0.02) {
        let most = if r.chance(0.1) { 300 } else { 40 };
        return r.below(most);
    }
    r.below(n)
}

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return 1e-300;
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

pub fn knot_vector(v: &[f64]) -> KnotVector {
    KnotVector::new(v.to_vec())
}

pub fn grid_of<T: Clone>(rows: usize, cols: usize, mut f: impl FnMut(usize, usize) -> T) -> Grid<T> {
    let mut v = Vec::with_capacity(rows * cols);
    for i in 0..rows {
        for j in 0..cols {
            v.push(f(i, j));
        }
    }
    Grid::from_vec(v, cols)
}

pub fn grid_rows<T: Clone>(g: &Grid<T>) -> Vec<Vec<T>> {
    (0..g.rows()).map(|i| (0..g.cols()).map(|j| g[i][j].clone()).collect()).collect()
}
