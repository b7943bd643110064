//! Plane regions: generators, exact-ish region tests and the triangulation judge.
use crate::ctx::Ctx;
use crate::rng::Rng;
use geom3d::curve::{Circle, Curve, CurveSegment, Line};
use geom3d::surface::EdgeLoop;
use geom3d::{Point2, Point3, Vec3};
use std::f64::consts::TAU;

pub fn area(p: &[Point2]) -> f64 {
    let n = p.len();
    // relative to the first vertex, against cancellation
    (1..n.saturating_sub(1)).map(|i| (p[i] - p[0]).perp_dot(p[i + 1] - p[0])).sum::<f64>() * 0.5
}

pub fn seg_dist(a: Point2, b: Point2, p: Point2) -> f64 {
    let ab = b - a;
    let l = ab.dot(ab);
    let t = if l == 0.0 { 0.0 } else { ((p - a).dot(ab) / l).max(0.0).min(1.0) };
    (a + ab * t - p).length()
}

pub fn boundary_dist(poly: &[Point2], p: Point2) -> f64 {
    (0..poly.len()).map(|i| seg_dist(poly[i], poly[(i + 1) % poly.len()], p)).fold(f64::MAX, f64::min)
}

/// even-odd test by ray crossing
pub fn inside(poly: &[Point2], p: Point2) -> bool {
    let mut r = false;
    let n = poly.len();
    let mut j = n - 1;
    for i in 0..n {
        let (a, b) = (poly[i], poly[j]);
        if (a.y > p.y) != (b.y > p.y) && p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x {
            r = !r;
        }
        j = i;
    }
    r
}

fn seg_seg_dist(a: Point2, b: Point2, c: Point2, d: Point2) -> f64 {
    let o = |p: Point2, q: Point2, r: Point2| (q - p).perp_dot(r - p);
    if o(a, b, c) * o(a, b, d) < 0.0 && o(c, d, a) * o(c, d, b) < 0.0 {
        return 0.0;
    }
    seg_dist(a, b, c).min(seg_dist(a, b, d)).min(seg_dist(c, d, a)).min(seg_dist(c, d, b))
}

/// edges at least `edge` long, non-adjacent edges at least `gap` apart, no sharp spikes
pub fn is_clean(p: &[Point2], edge: f64, gap: f64) -> bool {
    let n = p.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]);
        if (b - a).length() < edge {
            return false;
        }
        // not folding back on itself
        let (u, v) = ((a - b).normalize(), (c - b).normalize());
        if u.dot(v) > 0.98 {
            return false;
        }
        for j in i + 2..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            if seg_seg_dist(a, b, p[j], p[(j + 1) % n]) < gap {
                return false;
            }
        }
    }
    true
}

/// no corner folds back by more than the given cosine
pub fn opens(p: &[Point2], cos: f64) -> bool {
    let n = p.len();
    (0..n).all(|i| {
        let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]);
        (a - b).normalize().dot((c - b).normalize()) < cos
    })
}

/// cut some corners off by `d`
pub fn chamfer(r: &mut Rng, l: &[Point2], d: f64, share: f64) -> Vec<Point2> {
    let n = l.len();
    let mut out = Vec::with_capacity(n * 2);
    for i in 0..n {
        let (a, b, c) = (l[(i + n - 1) % n], l[i], l[(i + 1) % n]);
        let sharp = (b - a).normalize().perp_dot((c - b).normalize()).abs() > 0.3 && (b - a).dot(c - b) > -0.5 * (b - a).length() * (c - b).length();
        if sharp && (b - a).length() > 3.0 * d && (c - b).length() > 3.0 * d && r.chance(share) {
            out.push(b + (a - b).normalize() * d);
            out.push(b + (c - b).normalize() * d);
        } else {
            out.push(b);
        }
    }
    out
}

pub fn loops_apart(a: &[Point2], b: &[Point2], gap: f64) -> bool {
    for i in 0..a.len() {
        for j in 0..b.len() {
            if seg_seg_dist(a[i], a[(i + 1) % a.len()], b[j], b[(j + 1) % b.len()]) < gap {
                return false;
            }
        }
    }
    true
}

pub const SHAPES: [&str; 9] = ["convex", "star", "comb", "spiral", "tangled", "staircase", "triangle", "rectangle", "frame"];

/// A simple counter-clockwise polygon of about the given size around the origin.
pub fn polygon(r: &mut Rng, shape: &str) -> Option<Vec<Point2>> {
    let mut v: Vec<Point2> = Vec::new();
    match shape {
        "triangle" => {
            for _ in 0..3 {
                v.push(Point2::new(r.range(-5.0, 5.0), r.range(-5.0, 5.0)));
            }
        }
        "rectangle" => {
            let (w, h) = (r.int(1, 8) as f64, r.int(1, 8) as f64);
            v = vec![Point2::new(0.0, 0.0), Point2::new(w, 0.0), Point2::new(w, h), Point2::new(0.0, h)];
        }
        "convex" => {
            let n = 3 + r.below(20);
            let (a, b) = (r.range(1.0, 8.0), r.range(1.0, 8.0));
            let mut t: Vec<f64> = (0..n).map(|_| r.range(0.0, TAU)).collect();
            if r.chance(0.5) {
                t = (0..n).map(|i| TAU * i as f64 / n as f64).collect();
            }
            t.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v = t.iter().map(|t| Point2::new(a * t.cos(), b * t.sin())).collect();
        }
        "star" => {
            let n = 5 + r.below(30);
            let lo = *r.pick(&[0.2, 0.4, 0.7]);
            v = (0..n)
                .map(|i| {
                    let t = TAU * i as f64 / n as f64;
                    let k = if r.chance(0.5) && i % 2 == 0 { 1.0 } else { r.range(lo, 1.0) };
                    Point2::new(t.cos(), t.sin()) * (8.0 * k)
                })
                .collect();
        }
        "comb" => {
            let teeth = 2 + r.below(5);
            let base = 1.0;
            v.push(Point2::new(0.0, 0.0));
            v.push(Point2::new(2.0 * teeth as f64, 0.0));
            for k in (0..teeth).rev() {
                let x = 2.0 * k as f64;
                let top = base + r.range(1.0, 6.0);
                let lean = if r.chance(0.3) { r.range(-0.3, 0.3) } else { 0.0 };
                if k + 1 < teeth {
                    v.push(Point2::new(x + 1.5, base));
                }
                let first = if k + 1 == teeth { 2.0 } else { 1.5 };
                v.push(Point2::new(x + first, top));
                v.push(Point2::new(x + 0.5 + lean, top));
                v.push(Point2::new(x + 0.5, base));
                if k == 0 {
                    v.push(Point2::new(0.0, base));
                }
            }
        }
        "spiral" => {
            let turns = 4 + r.below(6);
            // square spiral corridor of width 1
            let mut out = vec![Point2::new(0.0, 0.0)];
            let mut len = turns as f64 * 2.0 + 2.0;
            let mut p = Point2::new(0.0, 0.0);
            let dirs = [Point2::new(1.0, 0.0), Point2::new(0.0, 1.0), Point2::new(-1.0, 0.0), Point2::new(0.0, -1.0)];
            for k in 0..turns {
                p += dirs[k % 4] * len;
                out.push(p);
                if k > 0 {
                    len -= 2.0;
                    if len < 2.0 {
                        break;
                    }
                }
            }
            // offset inwards by one (left side)
            let m = out.len();
            let mut inner = Vec::new();
            for i in 0..m {
                let d0 = if i > 0 { (out[i] - out[i - 1]).normalize() } else { (out[1] - out[0]).normalize() };
                let d1 = if i + 1 < m { (out[i + 1] - out[i]).normalize() } else { d0 };
                let n0 = Point2::new(-d0.y, d0.x);
                let n1 = Point2::new(-d1.y, d1.x);
                inner.push(if i == 0 || i + 1 == m { out[i] + n1 } else { out[i] + n0 + n1 });
            }
            v = out;
            v.extend(inner.into_iter().rev());
        }
        "staircase" => {
            // integer rectilinear polygon: a histogram
            let n = 3 + r.below(7);
            let h: Vec<f64> = (0..n).map(|_| r.int(1, 6) as f64).collect();
            v.push(Point2::new(0.0, 0.0));
            v.push(Point2::new(n as f64, 0.0));
            for i in (0..n).rev() {
                v.push(Point2::new(i as f64 + 1.0, h[i]));
                v.push(Point2::new(i as f64, h[i]));
            }
            v.dedup();
        }
        "frame" => {
            // a C: nearly closed frame
            let w = r.range(4.0, 9.0);
            let h = r.range(4.0, 9.0);
            let t = r.range(0.5, 1.2);
            let g = r.range(0.2, 1.0);
            v = vec![
                Point2::new(0.0, 0.0),
                Point2::new(w, 0.0),
                Point2::new(w, h),
                Point2::new(0.0, h),
                Point2::new(0.0, h * 0.5 + g),
                Point2::new(t, h * 0.5 + g),
                Point2::new(t, h - t),
                Point2::new(w - t, h - t),
                Point2::new(w - t, t),
                Point2::new(t, t),
                Point2::new(t, h * 0.5),
                Point2::new(0.0, h * 0.5),
            ];
        }
        _ => {
            // random points untangled by 2-opt
            let n = 5 + r.below(14);
            let ints = r.chance(0.4);
            v = (0..n).map(|_| if ints { Point2::new(r.int(0, 9) as f64, r.int(0, 9) as f64) } else { Point2::new(r.range(0.0, 10.0), r.range(0.0, 10.0)) }).collect();
            let mut again = true;
            let mut rounds = 0;
            while again && rounds < 200 {
                again = false;
                rounds += 1;
                for i in 0..n {
                    for j in i + 1..n {
                        let (a, b, c, d) = (v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]);
                        if (a - c).length() + (b - d).length() + 1e-12 < (a - b).length() + (c - d).length() {
                            v[i + 1..=j].reverse();
                            again = true;
                        }
                    }
                }
            }
        }
    }
    if area(&v) < 0.0 {
        v.reverse();
    }
    // collinear points on edges
    if r.chance(0.3) {
        for _ in 0..1 + r.below(4) {
            let i = r.below(v.len());
            let f = *r.pick(&[0.5, 0.25, 0.6]);
            let p = v[i] + (v[(i + 1) % v.len()] - v[i]) * f;
            v.insert(i + 1, p);
        }
    }
    let k = r.below(v.len());
    v.rotate_left(k);
    if area(&v) > 0.2 && is_clean(&v, 0.05, 0.03) {
        Some(v)
    } else {
        None
    }
}

pub fn place(r: &mut Rng, v: &mut Vec<Point2>) {
    // rotate and move; sometimes exactly
    if r.chance(0.6) {
        let (s, c) = r.range(0.0, TAU).sin_cos();
        for p in v.iter_mut() {
            *p = Point2::new(p.x * c - p.y * s, p.x * s + p.y * c);
        }
    }
    let d = match r.below(4) {
        0 => Point2::new(0.0, 0.0),
        1 => Point2::new(-(r.int(1, 40) as f64), r.int(-40, 40) as f64),
        2 => Point2::new(r.range(-100.0, 100.0), r.range(-100.0, 100.0)),
        _ => Point2::new(-500.0, -300.0),
    };
    for p in v.iter_mut() {
        *p += d;
    }
}

/// A region: outer boundary counter-clockwise, holes clockwise.
#[derive(Clone, Debug)]
pub struct Region {
    pub outer: Vec<Point2>,
    pub holes: Vec<Vec<Point2>>,
}

impl Region {
    pub fn area(&self) -> f64 {
        area(&self.outer) - self.holes.iter().map(|h| area(h).abs()).sum::<f64>()
    }
    pub fn contains(&self, p: Point2) -> bool {
        inside(&self.outer, p) && !self.holes.iter().any(|h| inside(h, p))
    }
    pub fn distance(&self, p: Point2) -> f64 {
        self.holes.iter().map(|h| boundary_dist(h, p)).fold(boundary_dist(&self.outer, p), f64::min)
    }
    pub fn perimeter(&self) -> f64 {
        std::iter::once(&self.outer).chain(self.holes.iter()).map(|l| (0..l.len()).map(|i| (l[(i + 1) % l.len()] - l[i]).length()).sum::<f64>()).sum()
    }
    pub fn bounds(&self) -> (Point2, Point2) {
        (self.outer.iter().fold(self.outer[0], |a, b| a.min(*b)), self.outer.iter().fold(self.outer[0], |a, b| a.max(*b)))
    }
    pub fn loops(&self) -> Vec<Vec<Point2>> {
        std::iter::once(self.outer.clone()).chain(self.holes.iter().cloned()).collect()
    }
}

/// cut clockwise holes into a polygon
pub fn punch(r: &mut Rng, outer: Vec<Point2>, want: usize, gap: f64) -> Region {
    let mut g = Region { outer, holes: Vec::new() };
    let (lo, hi) = g.bounds();
    let size = (hi - lo).x.min((hi - lo).y);
    let row = r.chance(0.3);
    let row_y = r.range(0.3, 0.7);
    // one hole repeated on a grid, reaching exactly equally far
    let repeat = !row && r.chance(0.3);
    let snap = |p: Point2| (p * 64.0).round() / 64.0;
    let mut first: Option<Vec<Point2>> = None;
    let mut base = Point2::ZERO;
    let step = snap(Point2::new(r.range(0.1, 0.45), r.range(0.1, 0.45)) * size);
    for k in 0..want * 12 {
        if g.holes.len() >= want {
            break;
        }
        let c = if repeat {
            if g.holes.is_empty() && k % 6 == 0 {
                base = snap(lo + Point2::new(r.unit() * (hi.x - lo.x), r.unit() * (hi.y - lo.y)));
            }
            base + step * Point2::new((k % 6 / 3) as f64, (k % 3) as f64)
        } else if row {
            // holes in a row share their heights
            lo + Point2::new((hi.x - lo.x) * ((k % (want + 1)) as f64 + 0.6) / (want as f64 + 1.2), (hi.y - lo.y) * row_y)
        } else {
            lo + Point2::new(r.unit() * (hi.x - lo.x), r.unit() * (hi.y - lo.y))
        };
        let rad = size * r.range(0.03, 0.2);
        if rad < 0.08 {
            continue;
        }
        let mut h: Vec<Point2> = match r.below(4) {
            0 => vec![Point2::new(-rad, -rad), Point2::new(rad, -rad), Point2::new(rad, rad), Point2::new(-rad, rad)],
            1 => {
                let n = 3 + r.below(10);
                (0..n).map(|i| Point2::new((TAU * i as f64 / n as f64).cos(), (TAU * i as f64 / n as f64).sin()) * rad).collect()
            }
            2 => {
                let n = 5 + r.below(8);
                (0..n).map(|i| Point2::new((TAU * i as f64 / n as f64).cos(), (TAU * i as f64 / n as f64).sin()) * (rad * r.range(0.4, 1.0))).collect()
            }
            _ => {
                // L shape
                let q = rad;
                vec![Point2::new(-q, -q), Point2::new(q, -q), Point2::new(q, 0.0), Point2::new(0.0, 0.0), Point2::new(0.0, q), Point2::new(-q, q)]
            }
        };
        if repeat {
            h = first.get_or_insert_with(|| h.iter().map(|p| snap(*p)).collect()).clone();
        }
        for p in h.iter_mut() {
            *p += c;
        }
        h.reverse();
        let s = r.below(h.len());
        h.rotate_left(s);
        if !is_clean(&h, 0.04, 0.03) || !h.iter().all(|p| g.contains(*p)) || !inside(&g.outer, h[0]) {
            continue;
        }
        if g.holes.iter().any(|o| inside(&h, o[0]) || inside(o, h[0])) || inside(&h, g.outer[0]) {
            continue;
        }
        if loops_apart(&g.outer, &h, gap) && g.holes.iter().all(|o| loops_apart(o, &h, gap)) {
            g.holes.push(h);
        }
    }
    g
}

/// turn some edges until their lines pass very close by some other corner
pub fn align(r: &mut Rng, g: &mut Region, gap: f64) -> usize {
    let mut done = 0;
    for _ in 0..6 {
        let loops = g.loops();
        let k = r.below(loops.len());
        let n = loops[k].len();
        let i = r.below(n);
        let j = if r.chance(0.5) { (i + 1) % n } else { (i + n - 1) % n };
        let (a, b) = (loops[k][i], loops[k][j]);
        let len = (b - a).length();
        // the corners the edge already points at, more or less
        let mut near = Vec::new();
        for (o, l) in loops.iter().enumerate() {
            for (c, q) in l.iter().enumerate() {
                let other = o != k || (c != i && c != j);
                if other && ((*q - a).perp_dot(b - a) / ((*q - a).length() * len)).abs() < 0.25 {
                    near.push(*q);
                }
            }
        }
        if near.is_empty() {
            continue;
        }
        let q = *r.pick(&near);
        let d = (q - a).normalize() * (b - a).dot(q - a).signum();
        let e = if r.chance(0.2) { 0.0 } else { 10f64.powf(r.range(-7.5, -3.0)) * if r.chance(0.5) { 1.0 } else { -1.0 } };
        let mut h = loops[k].clone();
        h[j] = a + d * len + d.perp() * e;
        if (area(&h) > 0.0) != (k == 0) || !is_clean(&h, 0.04, 0.03) {
            continue;
        }
        // no needless corners: the library drops those in line with their neighbours
        let straight = |c: usize| (h[c] - h[(c + n - 1) % n]).perp_dot(h[(c + 1) % n] - h[c]).abs() < 1e-5;
        if straight(i) || straight(j) || straight((j + 1) % n) || straight((j + n - 1) % n) {
            continue;
        }
        let free = (0..loops.len()).all(|o| {
            o == k
                || (loops_apart(&loops[o], &h, gap)
                    && if k == 0 {
                        inside(&h, loops[o][0])
                    } else if o == 0 {
                        inside(&loops[0], h[0])
                    } else {
                        !inside(&h, loops[o][0]) && !inside(&loops[o], h[0])
                    })
        });
        if free {
            if k == 0 {
                g.outer = h;
            } else {
                g.holes[k - 1] = h;
            }
            done += 1;
        }
    }
    done
}

/// Does the set of triangles cover the region exactly once, nothing outside, all turning left?
/// `slack`: how far the meshed boundary may lie from the region's (0 for polygons).
pub fn judge_cover(cx: &mut Ctx, prefix: &str, verts: &[Point2], tris: &[u32], g: &Region, slack: f64) {
    judge_shaken_cover(cx, prefix, verts, tris, g, slack, 0.0)
}

/// `shake`: by how much the mesher may have seen the vertices displaced
pub fn judge_shaken_cover(cx: &mut Ctx, prefix: &str, verts: &[Point2], tris: &[u32], g: &Region, slack: f64, shake: f64) {
    let n = verts.len();
    if !cx.check(tris.len() % 3 == 0, &format!("{}.index", prefix), || format!("{} indices", tris.len())) {
        return;
    }
    let (lo, hi) = g.bounds();
    let size = (hi - lo).length().max(1e-3);
    let mag = lo.x.abs().max(lo.y.abs()).max(hi.x.abs()).max(hi.y.abs()).max(1.0);
    let mut sum = 0.0;
    let mut boxes = Vec::with_capacity(tris.len() / 3);
    for t in tris.chunks(3) {
        if !cx.check(t.iter().all(|i| (*i as usize) < n), &format!("{}.index", prefix), || format!("triangle {:?} of {} vertices", t, n)) {
            return;
        }
        let p = [verts[t[0] as usize], verts[t[1] as usize], verts[t[2] as usize]];
        let a = area(&p);
        // boundary vertices are allowed to be `slack` off, slivers between them may flip by that much
        let longest = (p[1] - p[0]).length().max((p[2] - p[1]).length()).max((p[0] - p[2]).length());
        let flip = 1e-7 + 1e-9 * mag * size + shake * longest;
        cx.check(a >= -flip, &format!("{}.winding", prefix), || format!("triangle {:?} = {:?} has area {}", t, p, a));
        let mid = (p[0] + p[1] + p[2]) / 3.0;
        if a > 1e-6 {
            let ok = g.contains(mid) || g.distance(mid) <= slack * 1.2 + 1e-6;
            cx.check(ok, &format!("{}.outside", prefix), || format!("triangle {:?} = {:?} lies outside the region", t, p));
        }
        sum += a;
        boxes.push((p, p[0].min(p[1]).min(p[2]), p[0].max(p[1]).max(p[2])));
        if cx.fails.len() > 3 {
            return;
        }
    }
    let want = g.area();
    let tol = 1e-6 + 1e-9 * mag * size + 2e-7 * n as f64 + slack * g.perimeter();
    cx.within((sum - want).abs(), tol, &format!("{}.area", prefix), || format!("triangles add up to {}, the region has area {}", sum, want));
    // points
    let mut judged = 0;
    for _ in 0..60 {
        let p = lo - (hi - lo) * 0.1 + Point2::new(cx.rng.unit() * (hi.x - lo.x) * 1.2, cx.rng.unit() * (hi.y - lo.y) * 1.2);
        let margin = 1.2 * slack + 1e-4 * size;
        if g.distance(p) < margin {
            continue;
        }
        let mut count = 0;
        let mut edge = false;
        for (t, a, b) in &boxes {
            if p.x < a.x - 1e-6 || p.y < a.y - 1e-6 || p.x > b.x + 1e-6 || p.y > b.y + 1e-6 {
                continue;
            }
            let d = (0..3).map(|k| seg_dist(t[k], t[(k + 1) % 3], p)).fold(f64::MAX, f64::min);
            if d < 1e-6 * size {
                edge = true;
                break;
            }
            if inside(&t[..], p) {
                count += 1;
            }
        }
        if edge {
            continue;
        }
        judged += 1;
        let want = if g.contains(p) { 1 } else { 0 };
        if !cx.check(count == want, &format!("{}.cover", prefix), || format!("point {:?} {} the region lies in {} triangles", p, if want == 1 { "inside" } else { "outside" }, count)) {
            break;
        }
    }
    cx.seen_n("points located", judged);
    cx.seen_n("triangles judged", boxes.len() as u64);
}

/// straight edges in space along a polygon
pub fn line_edges(r: &mut Rng, p: &[Point3]) -> EdgeLoop {
    let style = r.below(3);
    let edges = (0..p.len())
        .map(|i| {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            let l = (b - a).length();
            let (curve, range): (Box<dyn Curve>, (f64, f64)) = match style {
                0 => (Box::new(Line { origin: a, direction: b - a }), (0.0, 1.0)),
                1 => (Box::new(Line { origin: b, direction: a - b }), (1.0, 0.0)),
                _ => (Box::new(Line { origin: a, direction: (b - a) / l }), (0.0, l)),
            };
            CurveSegment { curve, parameter_range: range, tolerance: 0.01, parameter_division: 16 }
        })
        .collect();
    EdgeLoop { edges }
}

pub fn circle_edge(center: Point3, axis: Vec3, ref_dir: Vec3, radius: f64, range: (f64, f64), tolerance: f64) -> CurveSegment<Box<dyn Curve>> {
    CurveSegment { curve: Box::new(Circle { center, axis, ref_dir, radius }), parameter_range: range, tolerance, parameter_division: 16 }
}
