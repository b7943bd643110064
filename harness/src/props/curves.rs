//! C03 curve evaluation, C05 derivatives (curve part), C06 refinement and splitting, C07 projection onto curves.
use super::Prop;
use crate::ctx::{Case, Ctx};
use crate::gen::{self, KNOT_KINDS};
use crate::oracle;
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, Line, Polyline};
use geom3d::{Point3, Point4};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            quick: 2500000,
            thorough: 5000000,
            rule: "Bezier and B-spline curves, polynomial and rational (uneven weights), degree 1..6 (now and then to 14, and hundreds of control points), all knot kinds, parameters at knots, ends, one ulp beside knots and random; one case in five a line, circle or polyline (repeated vertices), bare or boxed; non-trivial: not all control points equal",
            assumptions: &["positive weights at most 1.2e5 times each other", "non-empty knot spans at least 1e-9 wide"],
            run: evaluate,
        },
        Prop {
            id: "C06",
            quick: 1500000,
            thorough: 4000000,
            rule: "random B-spline curves of degree 1..6 (now and then to 14, and hundreds of control points) on all knot kinds; sequences of knot insertions, a split at an interior parameter (inside a span, at a simple or multiple knot, right beside one or nearer to one than the library tells apart), clamping and decomposition into Bezier pieces, each compared with the original curve on a parameter sweep; non-trivial: degree at least 2 or more than one span",
            assumptions: &["a split nearer than 1e-7 to a knot may happen at that knot (merged by design); the pieces then have to meet there"],
            run: refine,
        },
        Prop {
            id: "C07",
            quick: 400000,
            thorough: 2000000,
            rule: "lines with any direction length, circles, polylines (repeated vertices, corners, closed), Bezier and clamped B-spline curves of degree 1..5, some with very short spans; query points on the curve, at vertices, in corner regions and far away; non-trivial: curve of positive length",
            assumptions: &["for degree >= 2 spline curves nearest-ness is required only against the curve's ends and, for gently bent curves, globally to 1e-3, except at inner knots of full multiplicity, where curves have corners"],
            run: project,
        },
    ]
}

pub fn bezier_or_bspline_points(cx: &mut Ctx, n: usize) -> Vec<Point3> {
    let c = gen::coords(&mut cx.rng);
    let mut p = gen::points3(&mut cx.rng, c, n);
    if n > 2 && cx.rng.chance(0.1) {
        let k = cx.rng.below(n - 1);
        p[k + 1] = p[k];
    }
    if n > 2 && cx.rng.chance(0.1) {
        p[n - 1] = p[0];
    }
    p
}

fn evaluate_simple(cx: &mut Ctx) -> Case {
    let which = cx.rng.below(3);
    let c = gen::coords(&mut cx.rng);
    cx.seen(["line", "circle", "polyline"][which]);
    cx.nontrivial();
    let boxed = cx.rng.chance(0.3);
    match which {
        0 => {
            let o = gen::point3(&mut cx.rng, c);
            let d = gen::point3(&mut cx.rng, c);
            cx.input = format!("line {:?} {:?}", o, d);
            let l: Box<dyn Curve> = Box::new(Line { origin: o, direction: d });
            for _ in 0..8 {
                let u = *cx.rng.pick(&[0.0, 1.0, -1.0, 0.5, 7.25, -1234.5]) * cx.rng.range(0.5, 1.5);
                let p = cx.sut("Curve::get_point", || if boxed { Curve::get_point(&l, u) } else { l.as_ref().get_point(u) })?;
                let want = Point3::new(o.x + d.x * u, o.y + d.y * u, o.z + d.z * u);
                let scale = oracle::max_abs(&[o, d * u]);
                cx.within((p - want).length(), 1e-12 * scale, "curve.line", || format!("u={}: {:?} not {:?}", u, p, want));
            }
        }
        1 => {
            let (x, _, z) = gen::frame(&mut cx.rng);
            let o = gen::point3(&mut cx.rng, c);
            let r = *cx.rng.pick(&[0.01, 0.5, 1.0, 52.5, 1000.0]);
            cx.input = format!("circle {:?} radius {} axis {:?} from {:?}", o, r, z, x);
            let k: Box<dyn Curve> = Box::new(Circle { center: o, radius: r, axis: z, ref_dir: x });
            let scale = oracle::max_abs(&[o]) + r;
            for _ in 0..8 {
                let u = match cx.rng.below(3) {
                    0 => cx.rng.int(-8, 8) as f64 * std::f64::consts::FRAC_PI_4,
                    1 => cx.rng.range(0.0, std::f64::consts::TAU),
                    _ => cx.rng.range(-15.0, 15.0),
                };
                let p = cx.sut("Curve::get_point", || if boxed { Curve::get_point(&k, u) } else { k.as_ref().get_point(u) })?;
                let want = o + oracle::rotate(x, z, u) * r;
                cx.within((p - want).length(), 1e-12 * scale, "curve.circle", || format!("angle {}: {:?} not {:?}", u, p, want));
            }
        }
        _ => {
            let most = if cx.rng.chance(0.03) { 200 } else { 9 };
            let n = 2 + cx.rng.below(most);
            let mut v = if cx.rng.chance(0.15) { gen::stairs(&mut cx.rng, n) } else { gen::points3(&mut cx.rng, c, n) };
            if n > 2 && cx.rng.chance(0.3) {
                let k = cx.rng.below(n - 1);
                v[k + 1] = v[k];
            }
            let lens: Vec<f64> = v.windows(2).map(|w| (w[1] - w[0]).length()).collect();
            let total: f64 = lens.iter().sum();
            if total == 0.0 {
                return Ok(());
            }
            cx.input = format!("polyline {:?}", v);
            let line = cx.sut("Polyline::new", || Polyline::new(v.clone()))?;
            let scale = oracle::max_abs(&v) + total;
            cx.within((line.length - total).abs(), 1e-12 * scale, "curve.length", || format!("length {} not {}", line.length, total));
            let s = cx.sut("Polyline::start", || line.start())?;
            let e = cx.sut("Polyline::end", || line.end())?;
            cx.check(s == v[0] && e == v[n - 1], "curve.ends", || format!("from {:?} to {:?}", s, e));
            let mut us = vec![0.0, 1.0, 0.5, 1e-12, 1.0 - 1e-12, gen::next_down(1.0), 1.0 - 1e-15, gen::next_up(0.0)];
            let mut acc = 0.0;
            for l in &lens {
                acc += l;
                let u = (acc / total).min(1.0);
                us.extend([u, gen::next_down(u), gen::next_up(u).min(1.0)]);
            }
            for _ in 0..6 {
                us.push(cx.rng.unit());
            }
            for u in us {
                let p = cx.sut("Curve::get_point", || line.get_point(u))?;
                let mut left = u * total;
                let mut want = v[n - 1];
                for i in 0..lens.len() {
                    if left <= lens[i] && lens[i] > 0.0 {
                        want = v[i] + (v[i + 1] - v[i]) * (left / lens[i]);
                        break;
                    }
                    left -= lens[i];
                }
                cx.within((p - want).length(), 1e-9 * scale, "curve.polyline", || format!("at {} of the length: {:?} not {:?}", u, p, want));
            }
            let q = gen::point3(&mut cx.rng, c);
            let k = cx.sut("Polyline::nearest_vertex", || line.nearest_vertex(q))?;
            let best = v.iter().map(|p| (*p - q).length()).fold(f64::MAX, f64::min);
            cx.check(k < n && (v[k] - q).length() <= best + 1e-9 * scale, "curve.nearest_vertex", || format!("vertex {} is not the nearest one to {:?}", k, q));
        }
    }
    Ok(())
}

fn evaluate(cx: &mut Ctx) -> Case {
    if cx.rng.chance(0.2) {
        return evaluate_simple(cx);
    }
    let which = cx.rng.below(4);
    let deg = gen::degree(&mut cx.rng, 1, 6);
    cx.seen(["bezier", "rational bezier", "bspline", "rational bspline"][which]);
    let rational = which % 2 == 1;
    let (knots, n) = if which < 2 {
        (Vec::new(), deg + 1)
    } else {
        let n = deg + 1 + gen::extra(&mut cx.rng, 7);
        let kind = *cx.rng.pick(&KNOT_KINDS);
        cx.seen(&format!("kind {:?}", kind));
        let mut t = gen::knots(&mut cx.rng, n, deg, kind);
        if cx.rng.chance(0.2) {
            gen::pinch(&mut cx.rng, &mut t);
        }
        if cx.rng.chance(0.1) && gen::tear(&mut cx.rng, &mut t, deg) {
            cx.seen("torn: an inner knot of multiplicity degree + 1");
        }
        (t, n)
    };
    let pts = bezier_or_bspline_points(cx, n);
    let mut w: Vec<f64> = if rational { (0..n).map(|_| *cx.rng.pick(&[1.0, 0.5, 2.0, 0.25, 3.0, std::f64::consts::FRAC_1_SQRT_2, 1.37])).collect() } else { vec![1.0; n] };
    if rational {
        gen::reweigh(&mut cx.rng, &mut w);
    }
    cx.input = format!("{} degree {} knots {:?} points {:?} weights {:?}", ["bezier", "rational bezier", "bspline", "rational bspline"][which], deg, knots, pts, w);
    if pts.iter().any(|p| *p != pts[0]) {
        cx.nontrivial();
    }
    let hom: Vec<Point4> = pts.iter().zip(&w).map(|(p, w)| (*p * *w).extend(*w)).collect();
    let curve: Box<dyn Curve> = match which {
        0 => Box::new(BezierCurve { control_points: pts.clone() }),
        1 => Box::new(BezierCurve { control_points: hom }),
        2 => Box::new(BSplineCurve { control_points: pts.clone(), knots: gen::knot_vector(&knots), degree: deg as u8 }),
        _ => Box::new(BSplineCurve { control_points: hom, knots: gen::knot_vector(&knots), degree: deg as u8 }),
    };
    let scale = oracle::max_abs(&pts);
    let tol = 1e-9 * scale;
    let mut us = if which < 2 { gen::params(&mut cx.rng, &[0.0, 1.0], 8) } else { gen::params(&mut cx.rng, &knots, 8) };
    if which < 2 {
        us.push(0.25);
    }
    for u in us {
        // a rational curve needs a non-vanishing denominator: stay inside the domain
        if rational && which == 3 {
            let (a, b) = (knots[deg], knots[n]);
            if !(u >= a && u <= b) || (u == b && knots[n] != knots[knots.len() - 1] && false) {
                continue;
            }
        }
        let got = cx.sut("Curve::get_point", || curve.get_point(u))?;
        let b = if which < 2 { oracle::bernstein(deg, oracle::c(u)) } else { oracle::basis(&knots, deg, oracle::c(u)) };
        let mut want = if rational { oracle::combine_rational(&b, &pts, &w) } else { oracle::combine(&b, &pts).0 };
        if which == 0 {
            want = oracle::casteljau(&pts, u);
        }
        if oracle::bad(want) {
            continue;
        }
        cx.seen("parameters");
        cx.within((got - want).length(), tol, "curve.value", || format!("point at u={} is {:?}, by definition {:?}", u, got, want));
        // inside the box of the control points (positive weights) on the domain
        if which < 2 || (u >= knots[deg] && u <= knots[n] && (u < knots[knots.len() - 1] || knots[n] == u)) {
            let lo = pts.iter().fold(pts[0], |a, b| a.min(*b));
            let hi = pts.iter().fold(pts[0], |a, b| a.max(*b));
            let out = (lo - got).max(got - hi).max_element_();
            cx.check(out <= tol, "curve.hull", || format!("point at u={} is {:?}, outside the control box by {:e}", u, got, out));
        }
        if !cx.fails.is_empty() {
            return Ok(());
        }
    }
    // end points
    let clamped = which < 2 || (knots[0] == knots[deg] && knots[n] == knots[knots.len() - 1]);
    if clamped {
        let (a, b) = if which < 2 { (0.0, 1.0) } else { (knots[0], knots[knots.len() - 1]) };
        let pa = cx.sut("Curve::get_point", || curve.get_point(a))?;
        let pb = cx.sut("Curve::get_point", || curve.get_point(b))?;
        cx.seen("end points");
        cx.within((pa - pts[0]).length(), tol, "curve.start", || format!("starts at {:?} not {:?}", pa, pts[0]));
        cx.within((pb - pts[n - 1]).length(), tol, "curve.end", || format!("ends at {:?} not {:?}", pb, pts[n - 1]));
    }
    Ok(())
}

trait MaxElement {
    fn max_element_(self) -> f64;
}
impl MaxElement for Point3 {
    fn max_element_(self) -> f64 {
        self.x.max(self.y).max(self.z)
    }
}

fn refine(cx: &mut Ctx) -> Case {
    let deg = gen::degree(&mut cx.rng, 1, 6);
    let n = deg + 1 + gen::extra(&mut cx.rng, 7);
    let kind = *cx.rng.pick(&KNOT_KINDS);
    let mut t = gen::knots(&mut cx.rng, n, deg, kind);
    if cx.rng.chance(0.1) {
        let mut pinched = t.clone();
        gen::pinch(&mut cx.rng, &mut pinched);
        // knots within 1e-7 are one knot to the library
        if pinched.windows(2).all(|w| w[0] == w[1] || w[1] - w[0] > 1e-6) {
            t = pinched;
            cx.seen("pinched");
        }
    }
    if cx.rng.chance(0.1) && gen::tear(&mut cx.rng, &mut t, deg) {
        cx.seen("torn: an inner knot of multiplicity degree + 1");
    }
    let pts = bezier_or_bspline_points(cx, n);
    let curve = BSplineCurve { control_points: pts.clone(), knots: gen::knot_vector(&t), degree: deg as u8 };
    let scale = oracle::max_abs(&pts);
    // Bezier pieces of unevenly spaced knots amplify rounding
    let tol = 1e-7 * scale;
    let (a, b) = (t[0], t[t.len() - 1]);
    let us = gen::params(&mut cx.rng, &t, 10);
    let val = |u: f64| oracle::combine(&oracle::basis(&t, deg, oracle::c(u)), &pts).0;
    cx.seen(&format!("kind {:?}", kind));
    cx.seen(&format!("degree {}", deg));
    if deg > 1 || gen::distinct(&t).len() > 2 {
        cx.nontrivial();
    }
    let action = cx.rng.below(4);
    match action {
        0 => {
            // a sequence of insertions
            let mut live = curve.clone();
            let mut log = Vec::new();
            let mut model = t.clone();
            let k = 1 + cx.rng.below(5);
            for _ in 0..k {
                let u = match cx.rng.below(4) {
                    0 => {
                        let d = gen::distinct(&model);
                        *cx.rng.pick(&d)
                    }
                    _ => cx.rng.range(a, b),
                };
                let m = model.iter().filter(|x| **x == u).count();
                if m > deg || model.iter().any(|x| *x != u && (*x - u).abs() < 1e-6) {
                    continue;
                }
                log.push(u);
                cx.input = format!("insert {:?} into degree {} knots {:?} points {:?}", log, deg, t, pts);
                cx.sut("BSplineCurve::add_knot", || live.add_knot(u))?;
                cx.seen("insertions");
                let pos = model.iter().filter(|x| **x <= u).count();
                model.insert(pos, u);
                cx.check(live.knots.0 == model, "insert.knots", || format!("knots after inserting {}: {:?}, expected {:?}", u, live.knots.0, model));
                cx.check(live.control_points.len() == n + log.len() && live.degree as usize == deg, "insert.count", || format!("{} control points after {} insertions", live.control_points.len(), log.len()));
                if !cx.fails.is_empty() {
                    return Ok(());
                }
                for &v in us.iter().chain([u].iter()) {
                    let got = cx.sut("BSplineCurve::get_point", || live.get_point(v))?;
                    let want = val(v);
                    cx.within((got - want).length(), tol, "insert.moved", || format!("after inserting {:?} the point at {} moved from {:?} to {:?}", log, v, want, got));
                    if !cx.fails.is_empty() {
                        return Ok(());
                    }
                }
            }
        }
        1 => {
            // split at an interior parameter
            let d = gen::distinct(&t);
            let at = if d.len() > 2 && cx.rng.chance(0.5) {
                d[1 + cx.rng.below(d.len() - 2)]
            } else {
                let i = cx.rng.below(d.len() - 1);
                let f = cx.rng.range(0.2, 0.8);
                let w = 10f64.powf(cx.rng.range(-6.0, -3.0));
                // right beside a knot now and then, but no closer than the library tells apart
                match cx.rng.below(4) {
                    0 if w < (d[i + 1] - d[i]) * 0.3 => d[i] + w,
                    1 if w < (d[i + 1] - d[i]) * 0.3 => d[i + 1] - w,
                    _ => d[i] + (d[i + 1] - d[i]) * f,
                }
            };
            if d.iter().any(|k| *k != at && (k - at).abs() < 1e-3) {
                cx.seen("splits right beside a knot");
            }
            cx.input = format!("split at {} degree {} knots {:?} points {:?}", at, deg, t, pts);
            if at == a || at == b {
                return Ok(());
            }
            // nearer to a knot than the library tells apart: the split is allowed to happen at the knot
            let beside = if d.len() > 2 && cx.rng.chance(0.15) {
                let knot = d[1 + cx.rng.below(d.len() - 2)];
                let w = 10f64.powf(cx.rng.range(-9.0, -7.4));
                let alone = d.iter().all(|k| *k == knot || (k - knot).abs() > 1e-6);
                (alone && knot + w != knot).then(|| knot + w)
            } else {
                None
            };
            let asked = beside.unwrap_or(at);
            cx.input = format!("split at {} degree {} knots {:?} points {:?}", asked, deg, t, pts);
            let mut left = curve.clone();
            let right = cx.sut("BSplineCurve::split", || left.split(asked))?;
            cx.seen(if beside.is_some() { "splits a hair off a knot" } else if d.contains(&at) { "splits at a knot" } else { "splits inside a span" });
            for (name, piece) in [("left", &left), ("right", &right)] {
                let k = &piece.knots.0;
                cx.check(piece.control_points.len() + deg + 1 == k.len() && piece.degree as usize == deg, "split.shape", || format!("{} piece has {} control points and {} knots", name, piece.control_points.len(), k.len()));
                cx.check(k.windows(2).all(|w| w[0] <= w[1]), "split.order", || format!("{} piece knots {:?}", name, k));
            }
            if !cx.fails.is_empty() {
                return Ok(());
            }
            let (l, r) = (left.knots.0.clone(), right.knots.0.clone());
            let at = if beside.is_some() { l[l.len() - 1] } else { at };
            cx.check((at - asked).abs() <= 1e-7, "split.range", || format!("asked to split at {}, the left piece ends at {}", asked, at));
            cx.check(l[0] == a && l[l.len() - 1] == at, "split.range", || format!("left piece covers {}..{}", l[0], l[l.len() - 1]));
            cx.check(r[0] == at && r[r.len() - 1] == b, "split.range", || format!("right piece covers {}..{}", r[0], r[r.len() - 1]));
            cx.check(l.iter().filter(|x| **x == at).count() == deg + 1 && r.iter().filter(|x| **x == at).count() == deg + 1, "split.clamped", || format!("pieces are not clamped at {}: {:?} {:?}", at, l, r));
            if !cx.fails.is_empty() {
                return Ok(());
            }
            for &u in us.iter().chain([at].iter()) {
                for (name, piece, inside) in [("left", &left, u <= at), ("right", &right, u >= at)] {
                    if inside {
                        let got = cx.sut("BSplineCurve::get_point", || piece.get_point(u))?;
                        // the curve may jump at a knot of full multiplicity: its own side counts
                        let want = if name == "left" && u == at { left_limit(&t, deg, &pts, at) } else { val(u) };
                        cx.within((got - want).length(), tol, "split.moved", || format!("{} piece at {} is {:?}, the curve was at {:?}", name, u, got, want));
                    }
                }
                if !cx.fails.is_empty() {
                    return Ok(());
                }
            }
        }
        2 => {
            cx.input = format!("clamp degree {} knots {:?} points {:?}", deg, t, pts);
            let mut live = curve.clone();
            cx.sut("BSplineCurve::clamp", || live.clamp())?;
            cx.seen("clamps");
            let k = &live.knots.0;
            let ok = live.control_points.len() + deg + 1 == k.len() && k.iter().filter(|x| **x == a).count() == deg + 1 && k.iter().filter(|x| **x == b).count() == deg + 1 && k.windows(2).all(|w| w[0] <= w[1]);
            cx.check(ok, "clamp.knots", || format!("clamped knots {:?} with {} control points", k, live.control_points.len()));
            if !ok {
                return Ok(());
            }
            for &u in us.iter() {
                // an unclamped curve fades to the origin outside its domain, its value at the very end is a limit
                let got = cx.sut("BSplineCurve::get_point", || live.get_point(u))?;
                let want = val(u);
                cx.within((got - want).length(), tol, "clamp.moved", || format!("after clamping the point at {} moved from {:?} to {:?}", u, want, got));
                if !cx.fails.is_empty() {
                    return Ok(());
                }
            }
        }
        _ => {
            cx.input = format!("bezier pieces of degree {} knots {:?} points {:?}", deg, t, pts);
            let pieces = cx.sut("BSplineCurve::to_piecewise_bezier", || curve.to_piecewise_bezier())?;
            let d = gen::distinct(&t);
            cx.seen("decompositions");
            cx.seen_n("bezier pieces", pieces.len() as u64);
            cx.check(pieces.len() == d.len() - 1, "pieces.count", || format!("{} pieces for {} spans", pieces.len(), d.len() - 1));
            if !cx.fails.is_empty() {
                return Ok(());
            }
            for (i, piece) in pieces.iter().enumerate() {
                cx.check(piece.control_points.len() == deg + 1, "pieces.degree", || format!("piece {} has {} control points", i, piece.control_points.len()));
                if !cx.fails.is_empty() {
                    return Ok(());
                }
                for s in [0.0, 0.2, 0.5, 0.77, 1.0] {
                    let u = d[i] + (d[i + 1] - d[i]) * s;
                    let got = cx.sut("BezierCurve::get_point", || piece.get_point(s))?;
                    let want = if s == 1.0 { left_limit(&t, deg, &pts, d[i + 1]) } else { val(u) };
                    cx.within((got - want).length(), tol, "pieces.moved", || format!("piece {} at {} is {:?}, the curve at {} is {:?}", i, s, got, u, want));
                    if !cx.fails.is_empty() {
                        return Ok(());
                    }
                }
            }
        }
    }
    Ok(())
}

/// value of the curve when u comes from below
fn left_limit(t: &[f64], p: usize, pts: &[Point3], u: f64) -> Point3 {
    // restrict the knot vector to the knots up to u, padded so that u is its last value
    let k = t.iter().filter(|x| **x <= u).count();
    if k == t.len() {
        return oracle::combine(&oracle::basis(t, p, oracle::c(u)), pts).0;
    }
    // evaluate the polynomial of the span just below u: de Boor triangle with span fixed
    let s = t.iter().rposition(|x| *x < u).unwrap();
    de_boor_span(t, p, pts, s, u)
}

/// de Boor's triangle for a fixed span; control points outside the list count as zero
pub fn de_boor_span(t: &[f64], p: usize, pts: &[Point3], s: usize, u: f64) -> Point3 {
    let get = |i: i64| if i >= 0 && (i as usize) < pts.len() { pts[i as usize] } else { Point3::ZERO };
    // knots outside the list continue with distinct values; they only touch zero control points
    let m = t.len() as i64;
    let kn = |i: i64| {
        if i < 0 {
            t[0] + i as f64
        } else if i >= m {
            t[t.len() - 1] + (i - m + 1) as f64
        } else {
            t[i as usize]
        }
    };
    let s = s as i64;
    let p = p as i64;
    let mut d: Vec<Point3> = (0..=p).map(|j| get(j + s - p)).collect();
    for r in 1..=p {
        for j in (r..=p).rev() {
            let i = j + s - p;
            let den = kn(i + p - r + 1) - kn(i);
            let a = if den == 0.0 { 0.0 } else { (u - kn(i)) / den };
            d[j as usize] = d[(j - 1) as usize] * (1.0 - a) + d[j as usize] * a;
        }
    }
    d[p as usize]
}

fn project(cx: &mut Ctx) -> Case {
    let which = cx.rng.below(5);
    match which {
        0 => {
            cx.seen("line");
            let c = gen::coords(&mut cx.rng);
            let origin = gen::point3(&mut cx.rng, c);
            let len = if cx.rng.chance(0.4) { 1.0 } else { *cx.rng.pick(&[0.01, 0.5, 2.0, 7.5, 100.0]) };
            let direction = gen::unit3(&mut cx.rng) * len;
            let line = Line { origin, direction };
            let q = gen::point3(&mut cx.rng, c);
            cx.input = format!("{:?} point {:?}", line, q);
            cx.nontrivial();
            let u = cx.sut("Line::project", || line.project(q))?;
            let p = cx.sut("Line::get_point", || line.get_point(u))?;
            let d = direction / len;
            let best = origin + d * (q - origin).dot(d);
            let tol = 1e-9 * (1.0 + q.length() + origin.length());
            cx.within((p - best).length(), tol, "line.nearest", || format!("projects to {:?}, nearest point is {:?}", p, best));
            let s = cx.rng.range(-50.0, 50.0);
            let on = origin + direction * s;
            let back = cx.sut("Line::project", || line.project(on))?;
            cx.within((back - s).abs() * len, tol + 1e-9 * (direction * s).length(), "line.inverse", || format!("parameter {} comes back as {}", s, back));
        }
        1 => {
            cx.seen("circle");
            let (x, y, z) = gen::frame(&mut cx.rng);
            let c = gen::coords(&mut cx.rng);
            let center = gen::point3(&mut cx.rng, c);
            let radius = *cx.rng.pick(&[0.5, 1.0, 3.0, 52.5, 0.01]);
            let circle = Circle { center, radius, axis: z, ref_dir: x };
            let on = cx.rng.chance(0.5);
            let ang = match cx.rng.below(4) {
                0 => std::f64::consts::FRAC_PI_4 * cx.rng.below(8) as f64,
                1 => *cx.rng.pick(&[1e-9, 6.283185, 3.14159265, 3.1415927]),
                _ => cx.rng.range(0.0, std::f64::consts::TAU),
            };
            let (rr, h) = if on { (radius, 0.0) } else { (radius * cx.rng.range(0.1, 5.0), cx.rng.range(-3.0, 3.0)) };
            let q = center + (x * ang.cos() + y * ang.sin()) * rr + z * h;
            cx.input = format!("{:?} point {:?} at angle {}", circle, q, ang);
            cx.nontrivial();
            let u = cx.sut("Circle::project", || circle.project(q))?;
            cx.check(u >= 0.0 && u < std::f64::consts::TAU + 1e-12, "circle.range", || format!("angle {} reported", u));
            let p = cx.sut("Circle::get_point", || circle.get_point(u))?;
            let best = center + (x * ang.cos() + y * ang.sin()) * radius;
            let tol = 1e-9 * (1.0 + center.length() + radius);
            cx.within((p - best).length(), tol, "circle.nearest", || format!("projects to {:?}, nearest is {:?}", p, best));
        }
        2 => {
            cx.seen("polyline");
            let n = 2 + cx.rng.below(12);
            let c = gen::coords(&mut cx.rng);
            let mut v = if cx.rng.chance(0.15) { gen::stairs(&mut cx.rng, n) } else { gen::points3(&mut cx.rng, c, n) };
            if cx.rng.chance(0.4) {
                for p in v.iter_mut() {
                    p.z = 0.0;
                }
            }
            if cx.rng.chance(0.3) {
                let k = cx.rng.below(n);
                let d = v[k];
                v.insert(k, d);
            }
            if cx.rng.chance(0.2) {
                let f = v[0];
                v.push(f);
            }
            let total: f64 = v.windows(2).map(|w| (w[1] - w[0]).length()).sum();
            if total < 1e-6 {
                return Ok(());
            }
            let scale = oracle::max_abs(&v);
            let tol = 1e-9 * (scale + total);
            let q = match cx.rng.below(4) {
                0 => *cx.rng.pick(&v),
                1 => {
                    let i = cx.rng.below(v.len() - 1);
                    let f = cx.rng.unit();
                    v[i] + (v[i + 1] - v[i]) * f
                }
                2 => *cx.rng.pick(&v) + gen::unit3(&mut cx.rng) * cx.rng.range(0.0, scale),
                _ => gen::point3(&mut cx.rng, c),
            };
            cx.input = format!("polyline {:?} point {:?}", v, q);
            cx.nontrivial();
            let line = cx.sut("Polyline::new", || Polyline::new(v.clone()))?;
            let t = cx.sut("Polyline::project", || line.project(q))?;
            cx.check(t >= 0.0 && t <= 1.0, "polyline.range", || format!("parameter {}", t));
            if !cx.fails.is_empty() {
                return Ok(());
            }
            let p = cx.sut("Polyline::get_point", || line.get_point(t))?;
            let best = v.windows(2).map(|w| oracle::seg_distance(w[0], w[1], q)).fold(f64::MAX, f64::min);
            cx.within(((p - q).length() - best).abs(), tol, "polyline.nearest", || format!("projects to {} = {:?} at distance {}, the polyline is {} away", t, p, (p - q).length(), best));
            // arc length parametrisation, including parameters next to 1
            let us = [0.0, 1.0, gen::next_down(1.0), gen::next_down(gen::next_down(1.0)), 1.0 - 1e-12, 0.5, cx.rng.unit(), cx.rng.unit()];
            for u in us {
                let got = cx.sut("Polyline::get_point", || line.get_point(u))?;
                let mut left = u * total;
                let mut want = v[v.len() - 1];
                for w in v.windows(2) {
                    let l = (w[1] - w[0]).length();
                    if left <= l && l > 0.0 {
                        want = w[0] + (w[1] - w[0]) * (left / l);
                        break;
                    }
                    left -= l;
                }
                cx.within((got - want).length(), tol, "polyline.value", || format!("point at {} is {:?}, by arc length {:?}", u, got, want));
            }
            let i = cx.sut("Polyline::nearest_vertex", || line.nearest_vertex(q))?;
            let m = v.iter().map(|p| (*p - q).length()).fold(f64::MAX, f64::min);
            cx.within((v[i] - q).length() - m, tol, "polyline.vertex", || format!("vertex {} is not nearest", i));
        }
        _ => {
            let bez = which == 3;
            let deg = gen::degree(&mut cx.rng, 1, 5);
            let n = if bez { deg + 1 } else { deg + 1 + gen::extra(&mut cx.rng, 6).min(60) };
            let kind = gen::KNOT_KINDS[cx.rng.below(3)];
            let t = if bez { geom3d::KnotVector::bezier_knot(deg).0 } else { gen::knots(&mut cx.rng, n, deg, kind) };
            // gently bent curves: control points progress along x, sideways amplitude limited
            let gentle = cx.rng.chance(0.5);
            let c = gen::coords(&mut cx.rng);
            let pts: Vec<Point3> = if gentle {
                (0..n).map(|i| Point3::new(i as f64 * 2.0, cx.rng.range(-0.5, 0.5), cx.rng.range(-0.5, 0.5))).collect()
            } else {
                gen::points3(&mut cx.rng, c, n)
            };
            let (a, b) = (t[0], t[t.len() - 1]);
            let s = cx.rng.range(a, b);
            let val = |u: f64| oracle::combine(&oracle::basis(&t, deg, oracle::c(u)), &pts).0;
            // a corner inside the curve has a nearest point on either side, as bends do
            let corner = (1..t.len()).any(|i| t[i] > a && t[i] < b && t.iter().filter(|x| **x == t[i]).count() >= deg);
            let on = cx.rng.below(3);
            let q = match on {
                0 => val(s),
                1 => *cx.rng.pick(&[pts[0], pts[n - 1]]),
                _ => val(s) + gen::unit3(&mut cx.rng) * (if gentle { 0.3 } else { 5.0 }),
            };
            cx.input = format!("{} degree {} knots {:?} points {:?} query {:?} ({}, {})", if bez { "bezier" } else { "bspline" }, deg, t, pts, q, if gentle { "gentle" } else { "wild" }, if on == 0 { "on curve" } else { "off curve" });
            let curve: Box<dyn Curve> = if bez { Box::new(BezierCurve { control_points: pts.clone() }) } else { Box::new(BSplineCurve { control_points: pts.clone(), knots: gen::knot_vector(&t), degree: deg as u8 }) };
            cx.seen(&format!("{} degree {}{}", if bez { "bezier" } else { "bspline" }, deg, if gentle { " gentle" } else { "" }));
            if pts.iter().any(|p| *p != pts[0]) {
                cx.nontrivial();
            } else {
                return Ok(());
            }
            let u = cx.sut("spline project", || curve.project(q))?;
            cx.check(u >= a && u <= b, "spline.range", || format!("parameter {} outside {}..{}", u, a, b));
            if !cx.fails.is_empty() {
                return Ok(());
            }
            let p = cx.sut("Curve::get_point", || curve.get_point(u))?;
            let got = (p - q).length();
            let mut best = (f64::MAX, 0.0);
            for k in 0..=2000 {
                let v = a + (b - a) * k as f64 / 2000.0;
                let d = (val(v) - q).length();
                if d < best.0 {
                    best = (d, v);
                }
            }
            let scale = oracle::max_abs(&pts);
            let ends = (pts[0] - q).length().min((pts[n - 1] - q).length());
            cx.check(got <= ends + 4e-4 + 1e-9 * scale, "spline.ends", || format!("projects to distance {}, an end point is only {} away", got, ends));
            // never farther than any of the evenly spaced points it starts from
            let div = if bez { deg * 4 } else { n * 4 };
            if deg > 1 {
                let coarse = (0..=div).map(|k| (val(a + (b - a) * k as f64 / div as f64) - q).length()).fold(f64::MAX, f64::min);
                cx.check(got <= coarse + 4e-4 + 1e-9 * scale, "spline.coarse", || format!("projects to distance {}, one of {} evenly spaced points is only {} away", got, div + 1, coarse));
            }
            if deg == 1 || (gentle && (on == 0 || !corner)) {
                let cls = if deg == 1 { "spline1.nearest" } else { "spline.nearest" };
                let slack = if deg == 1 || on == 0 { 1e-3 } else { 0.03 };
                cx.within((got - best.0).max(0.0), slack + 1e-9 * scale, cls, || format!("projects to u={} at distance {}, but u={} is {} away", u, got, best.1, best.0));
            } else {
                cx.seen(if got <= best.0 + 1e-3 { "wild: global nearest" } else { "wild: other local minimum" });
            }
        }
    }
    Ok(())
}
