//! C09 arcs and their sense, C10 adaptive sampling.
use super::Prop;
use crate::ctx::{Case, Ctx};
use crate::gen;
use crate::oracle;
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, CurveSegment, Line, Polyline};
use geom3d::{utils, Point3};
use std::cell::{Cell, RefCell};
use std::f64::consts::{PI, TAU};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            quick: 3000000,
            thorough: 10000000,
            rule: "circular edges over random frames and radii: start and end angle in every quadrant, across the seam, equal (closed edge), both senses, bare and behind a boxed curve; lines keep their range; edges on closed B-spline curves and polylines with one or both ends at the seam; the swept edge is followed by fine sampling; non-trivial: arc across the seam or against the sense",
            assumptions: &["unit axis and reference direction", "start and end angles differ by more than 1e-6 or are equal"],
            run: arcs,
        },
        Prop {
            id: "C10",
            quick: 120000,
            thorough: 600000,
            rule: "segments of lines, circles, polylines, Bezier and B-spline curves sampled forwards and backwards at tolerances 1e-5..1 and sizes 0.02..30 through an instrumented curve that records every evaluation; symmetric S-shaped curves sampled repeatedly; non-trivial: more than two points returned",
            assumptions: &["continuous curves", "the test position between 40% and 60% of a piece is free (the library draws it at random)"],
            run: sampling,
        },
    ]
}

/// edges on closed splines and polylines with an end at the seam
fn seam(cx: &mut Ctx) -> Case {
    let (x, y, z) = gen::frame(&mut cx.rng);
    let o = gen::point3(&mut cx.rng, gen::Coords::Tens);
    let n = 5 + cx.rng.below(6);
    let r = cx.rng.range(1.0, 20.0);
    let mut p: Vec<Point3> = (0..n)
        .map(|i| {
            let a = TAU * i as f64 / n as f64;
            o + (x * a.cos() + y * a.sin()) * (r * cx.rng.range(0.7, 1.3)) + z * (r * cx.rng.range(-0.1, 0.1))
        })
        .collect();
    // closed exactly or but for rounding
    let gap = if cx.rng.chance(0.5) { 0.0 } else { 10f64.powf(cx.rng.range(-13.0, -6.5)) };
    p.push(p[0] + gen::unit3(&mut cx.rng) * gap);
    if p[n] != p[0] {
        cx.seen("loops closed but for rounding");
    }
    let same = cx.rng.chance(0.5);
    let spline = cx.rng.chance(0.6);
    let (d, hi) = (2 + cx.rng.below(2), *cx.rng.pick(&[1.0, 7.0, 100.0]));
    let spans = n + 1 - d;
    let mut k: Vec<f64> = vec![0.0; d + 1];
    k.extend((1..spans).map(|i| hi * (i as f64 + cx.rng.range(-0.3, 0.3)) / spans as f64));
    k.extend(vec![hi; d + 1]);
    let hi = if spline { hi } else { 1.0 };
    let at = |u: f64| {
        if spline {
            oracle::combine(&oracle::basis(&k, d, oracle::c(u.max(0.0).min(hi))), &p).0
        } else {
            super::export::polyline_at(&p, u)
        }
    };
    let w = hi * cx.rng.range(0.03, 0.97);
    // from, to along the sense
    let (f, t) = *cx.rng.pick(&[(0.0, hi), (0.0, w), (w, hi)]);
    let (f, t) = if same { (f, t) } else { (t, f) };
    let make = || -> Box<dyn Curve> {
        if spline {
            Box::new(BSplineCurve { control_points: p.clone(), knots: gen::knot_vector(&k), degree: d as u8 })
        } else {
            Box::new(Polyline::new(p.clone()))
        }
    };
    let curve: Box<dyn Curve> = if cx.rng.chance(0.5) { Box::new(make()) } else { make() };
    cx.input = format!("closed {:?} from {} to {} same sense {}", make(), f, t, same);
    cx.nontrivial();
    // one vertex stands for both ends of the curve
    let vertex = p[if cx.rng.chance(0.5) { 0 } else { n }];
    let end = |u: f64| if u == 0.0 || u == hi { vertex } else { at(u) };
    let u0 = cx.sut("Curve::project", || curve.project(end(f)))?;
    let u1 = cx.sut("Curve::project", || curve.project(end(t)))?;
    let (u0, u1) = cx.sut("refine_parameter_range", || curve.refine_parameter_range((u0, u1), same))?;
    cx.seen("edges at a seam");
    for i in 0..=8 {
        let q = i as f64 / 8.0;
        let g = cx.sut("Curve::get_point", || curve.get_point(u0 + (u1 - u0) * q))?;
        let want = at(f + (t - f) * q);
        cx.within((g - want).length(), 2e-3 * (1.0 + r), "seam.path", || format!("range {}..{}, at {} of the edge {:?}, expected {:?}", u0, u1, q, g, want));
    }
    Ok(())
}

fn arcs(cx: &mut Ctx) -> Case {
    if cx.rng.chance(0.04) {
        return seam(cx);
    }
    let (x, y, z) = gen::frame(&mut cx.rng);
    let c = gen::coords(&mut cx.rng);
    let center = gen::point3(&mut cx.rng, c);
    let radius = *cx.rng.pick(&[0.25, 1.0, 3.0, 52.5]);
    let ang = |cx: &mut Ctx| if cx.rng.chance(0.4) { PI * 0.25 * cx.rng.below(8) as f64 + 0.001 } else { cx.rng.range(0.001, TAU - 0.001) };
    let a0 = ang(cx);
    let closed = cx.rng.chance(0.15);
    let a1 = if closed { a0 } else { ang(cx) };
    if !closed && (a0 - a1).abs() < 1e-6 {
        return Ok(());
    }
    let same = cx.rng.chance(0.5);
    let at = |a: f64| center + (x * a.cos() + y * a.sin()) * radius;
    let (s, e) = (at(a0), if closed { at(a0) } else { at(a1) });
    let make = || Circle { center, radius, axis: z, ref_dir: x };
    let boxed = cx.rng.chance(0.5);
    let curve: Box<dyn Curve> = if boxed { Box::new(Box::new(make()) as Box<dyn Curve>) } else { Box::new(make()) };
    cx.input = format!("{:?} from angle {} to {} same sense {} boxed {}", make(), a0, a1, same, boxed);
    if !same || a1 < a0 {
        cx.nontrivial();
    }
    let p0 = cx.sut("Circle::project", || curve.project(s))?;
    let p1 = cx.sut("Circle::project", || curve.project(e))?;
    let (u0, u1) = cx.sut("refine_parameter_range", || curve.refine_parameter_range((p0, p1), same))?;
    cx.seen(if closed { "closed edges" } else if same { "forward arcs" } else { "backward arcs" });
    let tol = 1e-8 * (1.0 + center.length() + radius);
    let g0 = cx.sut("Circle::get_point", || curve.get_point(u0))?;
    let g1 = cx.sut("Circle::get_point", || curve.get_point(u1))?;
    cx.within((g0 - s).length(), tol, "arc.start", || format!("range starts at {:?}, edge at {:?}", g0, s));
    cx.within((g1 - e).length(), tol, "arc.end", || format!("range ends at {:?}, edge at {:?}", g1, e));
    // swept angle in the direction of the sense, in (0, 2pi]
    let mut sweep = if same { a1 - a0 } else { a0 - a1 };
    if sweep <= 0.0 {
        sweep += TAU;
    }
    let got = if same { u1 - u0 } else { u0 - u1 };
    cx.within((got - sweep).abs(), 1e-7, "arc.sweep", || format!("range {}..{} turns by {} along the sense, the edge turns by {}", u0, u1, got, sweep));
    if !cx.fails.is_empty() {
        return Ok(());
    }
    // follow the arc
    for k in 1..8 {
        let f = k as f64 / 8.0;
        let g = cx.sut("Circle::get_point", || curve.get_point(u0 + (u1 - u0) * f))?;
        let want = at(if same { a0 + sweep * f } else { a0 - sweep * f });
        cx.within((g - want).length(), tol, "arc.path", || format!("at {} of the edge {:?}, expected {:?}", f, g, want));
    }
    // other curves have nothing to refine
    let line = Line { origin: s, direction: x };
    let r = cx.sut("refine_parameter_range", || (Box::new(line) as Box<dyn Curve>).refine_parameter_range((a0, a1), same))?;
    cx.check(r == (a0, a1), "arc.line", || format!("a line's range {:?} became {:?}", (a0, a1), r));
    Ok(())
}

/// A curve that records what it is asked for.
struct Probe {
    inner: Box<dyn Curve>,
    calls: Cell<u64>,
    seen: RefCell<Vec<f64>>,
}
impl std::fmt::Debug for Probe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Probe({:?})", self.inner)
    }
}
impl Curve for Probe {
    fn get_point(&self, u: f64) -> Point3 {
        self.calls.set(self.calls.get() + 1);
        if self.seen.borrow().len() < 200_000 {
            self.seen.borrow_mut().push(u);
        }
        self.inner.get_point(u)
    }
    fn project(&self, p: Point3) -> f64 {
        self.inner.project(p)
    }
}

fn sampling(cx: &mut Ctx) -> Case {
    let which = cx.rng.below(7);
    // a small part wants a fine tolerance
    let size = *cx.rng.pick(&[1.0, 1.0, 1.0, 1.0, 1.0, 0.02, 30.0]);
    let tol = match cx.rng.below(10) {
        0 => 10f64.powf(cx.rng.range(-5.0, 0.0)),
        _ => *cx.rng.pick(&[0.001, 0.01, 0.01, 0.05, 0.5, 0.0625]) * size,
    };
    let mut arc = None;
    let mut straight = false;
    let scale;
    let points = |cx: &mut Ctx, n: usize| -> Vec<Point3> { gen::points3(&mut cx.rng, gen::Coords::Tens, n).into_iter().map(|p| p * size).collect() };
    let (curve, range): (Box<dyn Curve>, (f64, f64)) = match which {
        0 => {
            straight = true;
            let o = gen::point3(&mut cx.rng, gen::Coords::Tens);
            let d = gen::unit3(&mut cx.rng) * *cx.rng.pick(&[1.0, 0.1, 30.0]);
            scale = 2000.0;
            (Box::new(Line { origin: o, direction: d }), (cx.rng.range(-10.0, 10.0), cx.rng.range(-10.0, 10.0)))
        }
        1 | 2 => {
            let (x, _, z) = gen::frame(&mut cx.rng);
            let r = *cx.rng.pick(&[0.5, 1.0, 5.0, 52.5]) * size;
            let a = cx.rng.range(-TAU, TAU);
            let sweep = if cx.rng.chance(0.3) { TAU } else { cx.rng.range(0.01, TAU) };
            let b = if cx.rng.chance(0.5) { a + sweep } else { a - sweep };
            let center = gen::point3(&mut cx.rng, gen::Coords::Tens);
            scale = 20.0 + r;
            arc = Some((r, sweep, center, z));
            (Box::new(Circle { center, radius: r, axis: z, ref_dir: x }), (a, b))
        }
        3 => {
            let n = 2 + cx.rng.below(8);
            let mut v = points(cx, n);
            if v.windows(2).all(|w| w[0] == w[1]) {
                v[0].x += size;
            }
            let (a, b) = if cx.rng.chance(0.5) { (0.0, 1.0) } else { (cx.rng.unit(), cx.rng.unit()) };
            scale = 20.0 + 20.0 * size;
            (Box::new(Polyline::new(v)), (a, b))
        }
        4 => {
            let n = 3 + cx.rng.below(4);
            let p = points(cx, n);
            scale = 20.0 + 20.0 * size;
            (Box::new(BezierCurve { control_points: p }), if cx.rng.chance(0.5) { (0.0, 1.0) } else { (1.0, 0.0) })
        }
        5 => {
            let deg = 1 + cx.rng.below(4);
            let n = deg + 1 + cx.rng.below(5);
            let kind = gen::KNOT_KINDS[cx.rng.below(3)];
            let t = gen::knots(&mut cx.rng, n, deg, kind);
            let p = points(cx, n);
            scale = 20.0 + 20.0 * size;
            let r = (t[0], t[t.len() - 1]);
            (Box::new(BSplineCurve { control_points: p, knots: gen::knot_vector(&t), degree: deg as u8 }), if cx.rng.chance(0.5) { r } else { (r.1, r.0) })
        }
        _ => return symmetric(cx),
    };
    cx.input = format!("{:?} range {:?} tolerance {}", curve, range, tol);
    cx.seen(["line", "circle", "circle", "polyline", "bezier", "bspline"][which]);
    let probe = Probe { inner: curve, calls: Cell::new(0), seen: RefCell::new(Vec::new()) };
    let us = cx.sut("parameter_division", || utils::parameter_division(&probe, range, tol))?;
    let calls = probe.calls.get();
    cx.seen_n("evaluations observed", calls);
    cx.seen_n("points", us.len() as u64);
    if us.len() > 2 {
        cx.nontrivial();
    }
    cx.check(us.len() >= 2 && us[0] == range.0 && us[us.len() - 1] == range.1, "sampling.ends", || format!("range {:?} sampled from {:?} to {:?}", range, us.first(), us.last()));
    if !cx.fails.is_empty() {
        return Ok(());
    }
    let up = range.1 > range.0;
    if range.0 != range.1 {
        cx.check(us.windows(2).all(|w| if up { w[0] < w[1] } else { w[0] > w[1] }), "sampling.order", || format!("parameters not strictly ordered: {:?}", us));
    }
    let (lo, hi) = if up { range } else { (range.1, range.0) };
    let out = probe.seen.borrow().iter().cloned().find(|u| *u < lo - 1e-9 || *u > hi + 1e-9);
    cx.check(out.is_none(), "sampling.outside", || format!("the curve was evaluated at {:?}, outside {:?}", out, range));
    // cost: a constant number of evaluations per returned piece
    cx.check(calls <= 12 * us.len() as u64, "sampling.cost", || format!("{} evaluations for {} points", calls, us.len()));
    // each piece is flat at some place between 40% and 60%
    for w in us.windows(2) {
        let (p0, p1) = (probe.inner.get_point(w[0]), probe.inner.get_point(w[1]));
        let mut least = f64::MAX;
        for k in 0..=40 {
            let p = 0.4 + 0.2 * k as f64 / 40.0;
            let dev = (probe.inner.get_point(w[0] + (w[1] - w[0]) * p) - (p0 + (p1 - p0) * p)).length();
            least = least.min(dev);
        }
        // the grid over p is fine against the length of the piece
        let slack = (p1 - p0).length() * 0.01 + 1e-9 * scale;
        if least > tol {
            let mut fine = least;
            for k in 0..=4000 {
                let p = 0.4 + 0.2 * k as f64 / 4000.0;
                fine = fine.min((probe.inner.get_point(w[0] + (w[1] - w[0]) * p) - (p0 + (p1 - p0) * p)).length());
            }
            least = fine;
        }
        cx.check(least <= tol + slack * 0.01, "sampling.flat", || format!("piece {}..{} deviates from its chord by at least {} between 40% and 60%, tolerance {}", w[0], w[1], least, tol));
        if !cx.fails.is_empty() {
            return Ok(());
        }
    }
    cx.seen_n("pieces", us.len() as u64 - 1);
    if straight {
        cx.check(us.len() == 2, "sampling.line", || format!("a straight line got {} points", us.len()));
    }
    if let Some((r, sweep, center, axis)) = arc {
        if tol < r * 0.2 {
            for w in us.windows(2) {
                let sag = r * (1.0 - ((w[1] - w[0]).abs() * 0.5).cos());
                cx.check(sag <= tol * 1.1 || (w[1] - w[0]).abs() >= TAU, "sampling.sagitta", || format!("arc piece {}..{} is {} away from its chord, tolerance {}", w[0], w[1], sag, tol));
                cx.check((w[1] - w[0]).abs() < PI * 1.01, "sampling.turn", || format!("a single chord stands for {} radians", (w[1] - w[0]).abs()));
            }
            let least = sweep / (2.0 * (1.0 - tol / r).acos());
            cx.check((us.len() - 1) as f64 <= 2.2 * least + 2.0, "sampling.count", || format!("{} pieces, {:.1} suffice", us.len() - 1, least));
        }
        let seg = CurveSegment { curve: probe, parameter_range: range, tolerance: tol, parameter_division: 16 };
        let pts = cx.sut("CurveSegment::get_points", || seg.get_points())?;
        for p in &pts {
            let d = *p - center;
            cx.within(((d.length() - r).abs()).max(d.dot(axis).abs()), 1e-9 * scale, "sampling.on_circle", || format!("sample {:?} is off the circle", p));
        }
    } else {
        let seg = CurveSegment { curve: probe, parameter_range: range, tolerance: tol, parameter_division: 16 };
        let pts = cx.sut("CurveSegment::get_points", || seg.get_points())?;
        let ends = (seg.curve.inner.get_point(range.0), seg.curve.inner.get_point(range.1));
        cx.check(pts.len() >= 2 && pts[0] == ends.0 && pts[pts.len() - 1] == ends.1, "sampling.end_points", || format!("segment sampled from {:?} to {:?}, ends are {:?}", pts.first(), pts.last(), ends));
        // every sample is a point of the curve evaluated on the way
        if pts.len() <= 4000 {
            let bits = |p: Point3| (p.x.to_bits(), p.y.to_bits(), p.z.to_bits());
            let seen: std::collections::HashSet<_> = seg.curve.seen.borrow().iter().map(|u| bits(seg.curve.inner.get_point(*u))).collect();
            for p in &pts {
                cx.check(seen.contains(&bits(*p)), "sampling.on_curve", || format!("sample {:?} is not a point of the curve evaluated on the way", p));
            }
        }
    }
    Ok(())
}

/// Point-symmetric curves pass through the middle of their chord: a sampler that
/// only looks there would flatten them.
fn symmetric(cx: &mut Ctx) -> Case {
    let a = gen::unit3(&mut cx.rng) * cx.rng.range(3.0, 30.0);
    let h = {
        let v = gen::unit3(&mut cx.rng);
        let v = v - a * (v.dot(a) / a.length_squared());
        if v.length() < 0.1 {
            return Ok(());
        }
        v.normalize() * cx.rng.range(2.0, 10.0)
    };
    let o = gen::point3(&mut cx.rng, gen::Coords::Tens);
    // S-shaped cubic
    let pts = vec![o - a, o - a * 0.3 + h, o + a * 0.3 - h, o + a];
    cx.input = format!("symmetric bezier {:?}", pts);
    cx.seen("symmetric");
    cx.nontrivial();
    let curve = BezierCurve { control_points: pts };
    let mut flat = 0;
    let n = 60;
    for _ in 0..n {
        let us = cx.sut("parameter_division", || utils::parameter_division(&curve, (0.0, 1.0), 0.002))?;
        if us.len() <= 2 {
            flat += 1;
        }
    }
    // the deviation grows at 0.9*|h| per unit away from the middle: a random place misses it with probability below 1%
    cx.check(flat <= 12, "sampling.symmetric", || format!("a symmetric S-curve came back as a straight line in {} of {} samplings", flat, n));
    let _ = oracle::bad(Point3::ZERO);
    Ok(())
}
