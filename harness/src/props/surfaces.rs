//! C04 surface evaluation, C05 derivatives, C08 projection onto surfaces, C11 analytic surfaces.
use super::Prop;
use crate::ctx::{Case, Ctx};
use crate::gen::{self, KNOT_KINDS};
use crate::oracle::{self, Dual};
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, Line, Polyline};
use geom3d::surface::*;
use geom3d::{Grid, Point2, Point3, Point4};
use std::f64::consts::{PI, TAU};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            quick: 1500000,
            thorough: 4000000,
            rule: "Bezier and B-spline surfaces, polynomial and rational, degrees 1..5 (now and then higher, and longer sides) chosen independently in u and v, non-square control grids, different knot vectors in u and v, explicit and uniform clamped construction, parameters at knots, corners and random; non-trivial: rows and columns differ or degrees differ",
            assumptions: &["positive weights at most 1.2e5 times each other", "non-empty knot spans at least 0.002 wide"],
            run: evaluate,
        },
        Prop {
            id: "C05",
            quick: 1500000,
            thorough: 5000000,
            rule: "first derivatives of Bezier curves, B-spline curves and B-spline surfaces (u and v) and second derivatives (uu, uv, vu, vv) against exact dual-number differentiation of the defining formula, all knot kinds, now and then high degrees and many control points, non-square grids; non-trivial: degree at least 2",
            assumptions: &["inside knot spans (a derivative may jump at a multiple knot)", "non-empty spans at least 0.05 wide"],
            run: derivatives,
        },
        Prop {
            id: "C08",
            quick: 150000,
            thorough: 1000000,
            rule: "planes (orthonormal frames), cylinders (angles in all quadrants, on the seam), the cylinder's ring map and its inverse, gently curved B-spline surfaces with unequal u/v grids and ranges; points on the surface and off it; non-trivial: not axis aligned or off the surface",
            assumptions: &["orthonormal frames", "ring parameter d lies beyond the point along the axis", "B-spline surfaces are height fields with slopes below about 0.6", "nearest points to 3% where surfaces have creases"],
            run: project,
        },
        Prop {
            id: "C11",
            quick: 4000000,
            thorough: 10000000,
            rule: "cylinder, surface of revolution, swept surface, umbrella and plane over random frames and section curves, also behind boxed surfaces and boxed section curves; non-trivial: general orientation",
            assumptions: &["unit axes and reference directions"],
            run: analytic,
        },
    ]
}

pub struct Sheet {
    pub rows: usize,
    pub cols: usize,
    pub p: usize,
    pub q: usize,
    pub uk: Vec<f64>,
    pub vk: Vec<f64>,
    pub pts: Vec<Point3>,
    pub w: Vec<f64>,
}

impl Sheet {
    pub fn at(&self, i: usize, j: usize) -> Point3 {
        self.pts[i * self.cols + j]
    }
    pub fn bases(&self, u: Dual, v: Dual) -> (Vec<Dual>, Vec<Dual>) {
        (oracle::basis(&self.uk, self.p, u), oracle::basis(&self.vk, self.q, v))
    }
    pub fn eval(&self, u: f64, v: f64) -> Point3 {
        let (bu, bv) = self.bases(oracle::c(u), oracle::c(v));
        oracle::tensor(&bu, &bv, &|i, j| self.at(i, j))
    }
    pub fn eval_rational(&self, u: f64, v: f64) -> Point3 {
        let (bu, bv) = self.bases(oracle::c(u), oracle::c(v));
        oracle::tensor_rational(&bu, &bv, &|i, j| self.at(i, j), &|i, j| self.w[i * self.cols + j])
    }
    pub fn du(&self, u: f64, v: f64) -> Point3 {
        let (bu, bv) = self.bases(oracle::x(u), oracle::x(v));
        oracle::tensor_du(&bu, &bv, &|i, j| self.at(i, j))
    }
    pub fn dv(&self, u: f64, v: f64) -> Point3 {
        let (bu, bv) = self.bases(oracle::x(u), oracle::x(v));
        oracle::tensor_dv(&bu, &bv, &|i, j| self.at(i, j))
    }
    pub fn grid3(&self) -> Grid<Point3> {
        Grid::from_vec(self.pts.clone(), self.cols)
    }
    pub fn grid4(&self) -> Grid<Point4> {
        Grid::from_vec(self.pts.iter().zip(&self.w).map(|(p, w)| (*p * *w).extend(*w)).collect(), self.cols)
    }
    pub fn domain(&self) -> ((f64, f64), (f64, f64)) {
        ((self.uk[self.p], self.uk[self.rows]), (self.vk[self.q], self.vk[self.cols]))
    }
    pub fn surface(&self) -> BSplineSurface<Point3> {
        BSplineSurface::new(self.grid3(), (gen::knot_vector(&self.uk), gen::knot_vector(&self.vk)), (self.p, self.q))
    }
    pub fn show(&self) -> String {
        format!("degree ({},{}) grid {}x{} u knots {:?} v knots {:?} points {:?} weights {:?}", self.p, self.q, self.rows, self.cols, self.uk, self.vk, self.pts, self.w)
    }
}

pub fn sheet(cx: &mut Ctx, clamped: bool, min_deg: usize, max_deg: usize) -> Sheet {
    let r = &mut cx.rng;
    // now and then a high degree or a long side
    let degree = |r: &mut crate::rng::Rng| if !clamped && r.chance(0.02) { max_deg + r.below(6) } else { min_deg + r.below(max_deg - min_deg + 1) };
    let more = |r: &mut crate::rng::Rng| if !clamped && r.chance(0.02) { r.below(30) } else { r.below(4) };
    let (p, q) = (degree(r), degree(r));
    let rows = p + 1 + more(r);
    let cols = q + 1 + more(r);
    let kinds: &[gen::KnotKind] = if clamped { &KNOT_KINDS[..3] } else { &KNOT_KINDS };
    let (ku, kv) = (*r.pick(kinds), *r.pick(kinds));
    let mut uk = gen::knots(r, rows, p, ku);
    let mut vk = gen::knots(r, cols, q, kv);
    if !clamped && r.chance(0.2) {
        let first = r.chance(0.5);
        gen::pinch(r, if first { &mut uk } else { &mut vk });
    }
    let c = gen::coords(r);
    let pts = gen::points3(r, c, rows * cols);
    let w = (0..rows * cols).map(|_| *r.pick(&[1.0, 0.5, 2.0, 0.25, 3.0, std::f64::consts::FRAC_1_SQRT_2, 1.37])).collect();
    Sheet { rows, cols, p, q, uk, vk, pts, w }
}

fn evaluate(cx: &mut Ctx) -> Case {
    let which = cx.rng.below(5);
    let name = ["bezier", "rational bezier", "bspline", "rational bspline", "uniform bspline"][which];
    cx.seen(name);
    let mut s = sheet(cx, false, 1, 5);
    let rational = which % 2 == 1;
    if which < 2 {
        // a Bezier surface is the one-span clamped case
        s.rows = s.p + 1;
        s.cols = s.q + 1;
        s.uk = (0..2 * s.rows).map(|i| if i < s.rows { 0.0 } else { 1.0 }).collect();
        s.vk = (0..2 * s.cols).map(|i| if i < s.cols { 0.0 } else { 1.0 }).collect();
        s.pts.truncate(s.rows * s.cols);
        s.w.truncate(s.rows * s.cols);
    }
    if which == 4 {
        let uni = |n: usize, p: usize| -> Vec<f64> { (0..n + p + 1).map(|i| if i <= p { 0.0 } else if i >= n { 1.0 } else { (i - p) as f64 / (n - p) as f64 }).collect() };
        s.uk = uni(s.rows, s.p);
        s.vk = uni(s.cols, s.q);
    }
    if rational {
        gen::reweigh(&mut cx.rng, &mut s.w);
    }
    cx.input = format!("{} {}", name, s.show());
    if s.rows != s.cols || s.p != s.q {
        cx.nontrivial();
    }
    let knots = (gen::knot_vector(&s.uk), gen::knot_vector(&s.vk));
    let surface: Box<dyn Surface> = match which {
        0 => cx.sut("BezierSurface::new", || Box::new(BezierSurface::new(s.grid3())) as Box<dyn Surface>)?,
        1 => cx.sut("BezierSurface::new", || Box::new(BezierSurface::new(s.grid4())) as Box<dyn Surface>)?,
        2 => cx.sut("BSplineSurface::new", || Box::new(BSplineSurface::new(s.grid3(), knots, (s.p, s.q))) as Box<dyn Surface>)?,
        3 => cx.sut("BSplineSurface::new", || Box::new(BSplineSurface::new(s.grid4(), knots, (s.p, s.q))) as Box<dyn Surface>)?,
        _ => cx.sut("BSplineSurface::uniform_clamped", || Box::new(BSplineSurface::uniform_clamped(s.grid3(), (s.p, s.q))) as Box<dyn Surface>)?,
    };
    let tol = 1e-9 * oracle::max_abs(&s.pts);
    let us = gen::params(&mut cx.rng, &s.uk, 5);
    let vs = gen::params(&mut cx.rng, &s.vk, 5);
    let ((u0, u1), (v0, v1)) = s.domain();
    let lo = s.pts.iter().fold(s.pts[0], |a, b| a.min(*b));
    let hi = s.pts.iter().fold(s.pts[0], |a, b| a.max(*b));
    for _ in 0..14 {
        let (u, v) = (*cx.rng.pick(&us), *cx.rng.pick(&vs));
        let inside = u >= u0 && u <= u1 && v >= v0 && v <= v1;
        if rational && !inside {
            continue;
        }
        let got = cx.sut("Surface::get_point", || surface.get_point(u, v))?;
        let want = if rational { s.eval_rational(u, v) } else { s.eval(u, v) };
        if oracle::bad(want) {
            continue;
        }
        cx.seen("parameters");
        cx.within((got - want).length(), tol, "surface.value", || format!("point at ({}, {}) is {:?}, by definition {:?}", u, v, got, want));
        let strictly = inside && (u < u1 || u1 == s.uk[s.uk.len() - 1]) && (v < v1 || v1 == s.vk[s.vk.len() - 1]);
        if strictly {
            let out = (lo - got).max(got - hi);
            cx.check(out.x.max(out.y).max(out.z) <= tol, "surface.hull", || format!("point at ({}, {}) is {:?}, outside the control box", u, v, got));
        }
        if !cx.fails.is_empty() {
            return Ok(());
        }
    }
    let clamped = s.uk[0] == u0 && s.vk[0] == v0 && s.uk[s.uk.len() - 1] == u1 && s.vk[s.vk.len() - 1] == v1;
    if clamped {
        cx.seen("corners");
        for (u, v, i, j) in [(u0, v0, 0, 0), (u0, v1, 0, s.cols - 1), (u1, v0, s.rows - 1, 0), (u1, v1, s.rows - 1, s.cols - 1)] {
            let got = cx.sut("Surface::get_point", || surface.get_point(u, v))?;
            cx.within((got - s.at(i, j)).length(), tol, "surface.corner", || format!("corner ({}, {}) is {:?}, control point is {:?}", u, v, got, s.at(i, j)));
        }
    }
    Ok(())
}

/// parameters strictly inside non-empty spans
fn inner_params(cx: &mut Ctx, knots: &[f64], n: usize) -> Vec<f64> {
    let d = gen::distinct(knots);
    (0..n)
        .map(|_| {
            let i = cx.rng.below(d.len() - 1);
            let f = *cx.rng.pick(&[0.5, 0.25, 0.03, 0.97, 0.41, 0.78]);
            d[i] + (d[i + 1] - d[i]) * f
        })
        .collect()
}

fn wide(knots: &[f64]) -> bool {
    gen::distinct(knots).windows(2).all(|w| w[1] - w[0] >= 0.05)
}

fn derivatives(cx: &mut Ctx) -> Case {
    let which = cx.rng.below(3);
    if which < 2 {
        let deg = gen::degree(&mut cx.rng, 1, 6);
        let n = if which == 0 { deg + 1 } else { deg + 1 + gen::extra(&mut cx.rng, 6) };
        let kind = *cx.rng.pick(&KNOT_KINDS);
        let t = if which == 0 { (0..2 * n).map(|i| if i < n { 0.0 } else { 1.0 }).collect() } else { gen::knots(&mut cx.rng, n, deg, kind) };
        let mut t: Vec<f64> = t;
        if which == 1 && cx.rng.chance(0.2) {
            gen::pinch(&mut cx.rng, &mut t);
        }
        // the second derivative is judged by a formula exact up to degree 6
        let is_wide = wide(&t) && deg <= 6;
        let c = gen::coords(&mut cx.rng);
        let pts = gen::points3(&mut cx.rng, c, n);
        cx.input = format!("{} degree {} knots {:?} points {:?}", ["bezier", "bspline"][which], deg, t, pts);
        cx.seen(["bezier curve", "bspline curve"][which]);
        if deg >= 2 {
            cx.nontrivial();
        }
        let span = gen::distinct(&t).windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
        let scale = oracle::max_abs(&pts);
        // (first, second) derivative functions as curves
        let (d1, d2): (Box<dyn Curve>, Option<Box<dyn Curve>>) = if which == 0 {
            let b = BezierCurve { control_points: pts.clone() };
            let d1 = cx.sut("BezierCurve::derivative", || b.derivative())?;
            let d2 = if deg >= 2 { Some(cx.sut("BezierCurve::derivative", || d1.derivative())?) } else { None };
            (Box::new(d1), d2.map(|d| Box::new(d) as Box<dyn Curve>))
        } else {
            let b = BSplineCurve { control_points: pts.clone(), knots: gen::knot_vector(&t), degree: deg as u8 };
            let d1 = cx.sut("BSplineCurve::derivative", || b.derivative())?;
            cx.check(d1.degree() == deg - 1 && d1.control_points.len() + d1.degree() + 1 == d1.knots.len(), "derivative.shape", || format!("derivative of degree {} with {} control points and {} knots", d1.degree(), d1.control_points.len(), d1.knots.len()));
            let d2 = if deg >= 2 { Some(cx.sut("BSplineCurve::derivative", || d1.derivative())?) } else { None };
            (Box::new(d1), d2.map(|d| Box::new(d) as Box<dyn Curve>))
        };
        // an unclamped curve fades out beyond the domain, where the derivative curve is defined on the domain only
        let dom = (t[deg], t[n]);
        let mut us = inner_params(cx, &t, 12);
        let inner = us.len();
        us.extend(smooth_params(&t, deg, n));
        for (k, u) in us.into_iter().enumerate() {
            if k < inner && (u <= dom.0 || u >= dom.1) {
                continue;
            }
            cx.seen("parameters");
            let got = cx.sut("Curve::get_point", || d1.get_point(u))?;
            let (_, want) = oracle::combine(&oracle::basis(&t, deg, oracle::x(u)), &pts);
            let tol = 1e-8 * scale * deg as f64 / span;
            cx.within((got - want).length(), tol, "derivative.first", || format!("derivative at {} is {:?}, expected {:?}", u, got, want));
            if let (Some(d2), true, true) = (&d2, k < inner, is_wide) {
                let got = cx.sut("Curve::get_point", || d2.get_point(u))?;
                // second derivative: central difference of the exact first derivative inside the span
                let d = gen::distinct(&t);
                let i = d.iter().rposition(|k| *k <= u).unwrap();
                let h = (u - d[i]).min(d[i + 1] - u) * 0.5;
                let f = |u: f64| oracle::combine(&oracle::basis(&t, deg, oracle::x(u)), &pts).1;
                let want = second(&f, u, h, deg);
                let tol = 1e-6 * scale * (deg * deg) as f64 / (span * span);
                cx.within((got - want).length(), tol, "derivative.second", || format!("second derivative at {} is {:?}, expected {:?}", u, got, want));
            }
            if !cx.fails.is_empty() {
                return Ok(());
            }
        }
        return Ok(());
    }
    let s = sheet(cx, false, 1, 4);
    let is_wide = wide(&s.uk) && wide(&s.vk) && s.p.max(s.q) <= 6;
    cx.seen("bspline surface");
    cx.input = s.show();
    if s.p >= 2 || s.q >= 2 {
        cx.nontrivial();
    }
    let surf = cx.sut("BSplineSurface::new", || s.surface())?;
    let su = cx.sut("derivative_u", || surf.derivative_u())?;
    let sv = cx.sut("derivative_v", || surf.derivative_v())?;
    let suu = cx.sut("derivative_u", || su.derivative_u())?;
    let suv = cx.sut("derivative_v", || su.derivative_v())?;
    let svu = cx.sut("derivative_u", || sv.derivative_u())?;
    let svv = cx.sut("derivative_v", || sv.derivative_v())?;
    let scale = oracle::max_abs(&s.pts);
    let su_ = gen::distinct(&s.uk).windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
    let sv_ = gen::distinct(&s.vk).windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
    let ((u0, u1), (v0, v1)) = s.domain();
    let us = inner_params(cx, &s.uk, 8);
    let vs = inner_params(cx, &s.vk, 8);
    let mut uvs: Vec<(f64, f64)> = us.into_iter().zip(vs).filter(|(u, v)| *u > u0 && *u < u1 && *v > v0 && *v < v1).collect();
    let inner = uvs.len();
    let (su_p, sv_p) = (smooth_params(&s.uk, s.p, s.rows), smooth_params(&s.vk, s.q, s.cols));
    if !su_p.is_empty() && !sv_p.is_empty() {
        for _ in 0..4 {
            uvs.push((*cx.rng.pick(&su_p), *cx.rng.pick(&sv_p)));
        }
    }
    for (k, (u, v)) in uvs.into_iter().enumerate() {
        cx.seen("parameters");
        let got = cx.sut("Surface::get_point", || su.get_point(u, v))?;
        cx.within((got - s.du(u, v)).length(), 1e-8 * scale * 5.0 / su_, "derivative.u", || format!("u derivative at ({}, {}) is {:?}, expected {:?}", u, v, got, s.du(u, v)));
        let got = cx.sut("Surface::get_point", || sv.get_point(u, v))?;
        cx.within((got - s.dv(u, v)).length(), 1e-8 * scale * 5.0 / sv_, "derivative.v", || format!("v derivative at ({}, {}) is {:?}, expected {:?}", u, v, got, s.dv(u, v)));
        if k >= inner || !is_wide {
            continue;
        }
        let room = |k: &[f64], u: f64| {
            let d = gen::distinct(k);
            let i = d.iter().rposition(|x| *x <= u).unwrap();
            (u - d[i]).min(d[i + 1] - u) * 0.5
        };
        let (hu, hv) = (room(&s.uk, u), room(&s.vk, v));
        // a derivative of a constant direction is zero everywhere
        let wuu = if s.p >= 2 { second(&|x| s.du(x, v), u, hu, s.p) } else { Point3::ZERO };
        let wuv = second(&|y| s.du(u, y), v, hv, s.q + 1);
        let wvv = if s.q >= 2 { second(&|y| s.dv(u, y), v, hv, s.q) } else { Point3::ZERO };
        for (name, d, want, k) in [("uu", &suu, wuu, su_ * su_), ("uv", &suv, wuv, su_ * sv_), ("vu", &svu, wuv, su_ * sv_), ("vv", &svv, wvv, sv_ * sv_)] {
            let got = cx.sut("Surface::get_point", || d.get_point(u, v))?;
            cx.within((got - want).length(), 1e-6 * scale * 25.0 / k, "derivative.second", || format!("{} derivative at ({}, {}) is {:?}, expected {:?}", name, u, v, got, want));
        }
        if !cx.fails.is_empty() {
            return Ok(());
        }
    }
    Ok(())
}

/// knots where the curve has a continuous first derivative, and the ends of a clamped vector
fn smooth_params(t: &[f64], deg: usize, n: usize) -> Vec<f64> {
    gen::distinct(t)
        .into_iter()
        .filter(|u| {
            let m = t.iter().filter(|x| *x == u).count();
            let end = *u == t[0] || *u == t[t.len() - 1];
            *u >= t[deg] && *u <= t[n] && ((end && m == deg + 1) || (!end && m + 1 <= deg))
        })
        .collect()
}

/// derivative of f, a polynomial of low degree on [u-h, u+h], by interpolation
fn second(f: &dyn Fn(f64) -> Point3, u: f64, h: f64, _deg: usize) -> Point3 {
    // seven-point central formula: exact for polynomials up to degree 6
    let g = |k: f64| f(u + h * k / 3.0);
    let s = h / 3.0;
    ((g(1.0) - g(-1.0)) * 45.0 - (g(2.0) - g(-2.0)) * 9.0 + (g(3.0) - g(-3.0))) / (60.0 * s)
}

fn project(cx: &mut Ctx) -> Case {
    let (x, y, z) = gen::frame(&mut cx.rng);
    let c = gen::coords(&mut cx.rng);
    let origin = gen::point3(&mut cx.rng, c);
    match cx.rng.below(4) {
        0 => {
            cx.seen("plane");
            let plane = Plane { origin, normal: z, u_axis: x, v_axis: y };
            let (a, b) = (cx.rng.range(-20.0, 20.0), cx.rng.range(-20.0, 20.0));
            let h = if cx.rng.chance(0.3) { 0.0 } else { cx.rng.range(-9.0, 9.0) };
            let q = origin + x * a + y * b + z * h;
            cx.input = format!("{:?} point {:?}", plane, q);
            cx.nontrivial();
            let p = cx.sut("Plane::project", || plane.project(q))?;
            let tol = 1e-9 * (30.0 + origin.length());
            cx.within((p - Point2::new(a, b)).length(), tol, "plane.project", || format!("projects to {:?}, expected ({}, {})", p, a, b));
            let back = cx.sut("Plane::get_point", || plane.get_point(p.x, p.y))?;
            cx.within((back - (q - z * h)).length(), tol, "plane.foot", || format!("foot point {:?}, expected {:?}", back, q - z * h));
        }
        1 => {
            cx.seen("cylinder");
            let radius = *cx.rng.pick(&[0.5, 1.0, 3.0, 12.5, 0.05]);
            let cyl = Cylinder { origin, axis: z, ref_dir: x, radius };
            let ang = match cx.rng.below(3) {
                0 => PI * 0.25 * cx.rng.below(8) as f64,
                _ => cx.rng.range(0.0, TAU),
            };
            let len = cx.rng.range(-30.0, 30.0);
            let rr = if cx.rng.chance(0.5) { radius } else { radius * cx.rng.range(0.2, 4.0) };
            let q = origin + z * len + (x * ang.cos() + y * ang.sin()) * rr;
            cx.input = format!("{:?} point {:?} at length {} angle {}", cyl, q, len, ang);
            cx.nontrivial();
            let p = cx.sut("Cylinder::project", || cyl.project(q))?;
            let tol = 1e-9 * (40.0 + origin.length() + radius);
            cx.within((p.x - len).abs(), tol, "cylinder.length", || format!("axial parameter {} expected {}", p.x, len));
            cx.check(p.y >= 0.0 && p.y <= TAU, "cylinder.angle", || format!("angle {}", p.y));
            let back = cx.sut("Cylinder::get_point", || cyl.get_point(p.x, p.y))?;
            let want = origin + z * len + (x * ang.cos() + y * ang.sin()) * radius;
            cx.within((back - want).length(), tol, "cylinder.foot", || format!("foot point {:?}, expected {:?}", back, want));
        }
        2 => {
            cx.seen("ring");
            let radius = *cx.rng.pick(&[0.5, 1.0, 3.0, 12.5]);
            let cyl = Cylinder { origin, axis: z, ref_dir: x, radius };
            let ang = if cx.rng.chance(0.3) { PI * 0.25 * cx.rng.below(8) as f64 } else { cx.rng.range(0.0, TAU) };
            let len = cx.rng.range(-20.0, 20.0);
            let d = len.max(0.0) + cx.rng.range(1.0, 30.0);
            let q = origin + z * len + (x * ang.cos() + y * ang.sin()) * radius;
            cx.input = format!("{:?} point {:?} at length {} angle {} d {}", cyl, q, len, ang, d);
            cx.nontrivial();
            let p = cx.sut("project_to_ring", || cyl.project_to_ring(q, d))?;
            let tol = 1e-8 * (50.0 + origin.length() + radius);
            // central projection from the axis point at height d onto the base plane
            let want = Point2::new(ang.cos(), ang.sin()) * (radius * d / (d - len));
            cx.within((p - want).length(), tol * (1.0 + d / (d - len)), "ring.project", || format!("ring point {:?}, expected {:?}", p, want));
            let back = cx.sut("generate_point_from_ring", || cyl.generate_point_from_ring(p, d))?;
            cx.within((back - q).length(), tol, "ring.inverse", || format!("comes back as {:?}, was {:?}", back, q));
        }
        _ => {
            cx.seen("bspline surface");
            let mut s = sheet(cx, true, 1, 4);
            // height field over a stretched rectangle: smooth, injective
            let (du, dv) = (cx.rng.range(1.5, 3.0), cx.rng.range(1.5, 3.0));
            let amp = cx.rng.range(0.0, 0.35);
            let gre = |k: &[f64], p: usize, n: usize| -> Vec<f64> { (0..n).map(|i| (1..=p).map(|j| k[i + j]).sum::<f64>() / p as f64).collect() };
            let (mut gu, mut gv) = (gre(&s.uk, s.p, s.rows), gre(&s.vk, s.q, s.cols));
            let crease = |k: &[f64], d: usize| k.iter().any(|t| *t > k[0] && *t < k[k.len() - 1] && k.iter().filter(|x| *x == t).count() >= d);
            // along a crease the nearest points of both sides compete
            let creased = crease(&s.uk, s.p) || crease(&s.vk, s.q);
            let slack = if creased { 0.03 } else { 1e-3 };
            // control points evenly spaced whatever the knots
            let even = !creased && cx.rng.chance(0.4);
            if even {
                let (a, b) = (s.uk[0], s.uk[s.uk.len() - 1]);
                gu = (0..s.rows).map(|i| a + (b - a) * i as f64 / (s.rows - 1) as f64).collect();
                let (a, b) = (s.vk[0], s.vk[s.vk.len() - 1]);
                gv = (0..s.cols).map(|i| a + (b - a) * i as f64 / (s.cols - 1) as f64).collect();
                cx.seen("evenly spaced control points");
            }
            let (ru, rv) = (s.uk[s.uk.len() - 1] - s.uk[0], s.vk[s.vk.len() - 1] - s.vk[0]);
            let bent = s.p > 1 && s.q > 1;
            // linear precision keeps the footprint linear; heights vary smoothly
            let (lu, lv) = (du * s.rows as f64, dv * s.cols as f64);
            let (fx, fy) = (cx.rng.range(0.2, 0.9), cx.rng.range(0.2, 0.9));
            s.pts = (0..s.rows * s.cols)
                .map(|k| {
                    let (i, j) = (k / s.cols, k % s.cols);
                    let (a, b) = ((gu[i] - s.uk[0]) / ru * lu, (gv[j] - s.vk[0]) / rv * lv);
                    let h = if bent { amp * ((a * fx).sin() + (b * fy).cos()) } else { 0.1 * a - 0.2 * b };
                    origin + x * a + y * b + z * h
                })
                .collect();
            let surf = cx.sut("BSplineSurface::new", || s.surface())?;
            let ((u0, u1), (v0, v1)) = s.domain();
            let on = cx.rng.chance(0.6);
            let mut queries = Vec::new();
            for _ in 0..4 {
                let fu = *cx.rng.pick(&[0.0, 1.0, 0.5, 0.31, 0.83, 0.12]);
                let fv = *cx.rng.pick(&[0.0, 1.0, 0.5, 0.29, 0.77, 0.91]);
                let p = s.eval(u0 + (u1 - u0) * fu, v0 + (v1 - v0) * fv);
                queries.push(if on { p } else { p + z * cx.rng.range(-0.3, 0.3) + x * cx.rng.range(-0.2, 0.2) });
            }
            cx.input = format!("{} queries {:?}", s.show(), queries);
            cx.nontrivial();
            let got = cx.sut("project_points", || surf.project_points(&queries))?;
            cx.check(got.len() == queries.len(), "sheet.count", || format!("{} parameters for {} points", got.len(), queries.len()));
            if !cx.fails.is_empty() {
                return Ok(());
            }
            let scale = oracle::max_abs(&s.pts);
            for (q, p) in queries.iter().zip(&got) {
                cx.check(p.x >= u0 && p.x <= u1 && p.y >= v0 && p.y <= v1, "sheet.range", || format!("parameters {:?} outside the domain", p));
                if !cx.fails.is_empty() {
                    return Ok(());
                }
                let foot = s.eval(p.x, p.y);
                let d = (foot - *q).length();
                if on {
                    cx.seen("points on the surface");
                    cx.within(d, 1e-3 + 1e-9 * scale, "sheet.on", || format!("a point on the surface projects to {:?}, {} away", p, d));
                } else {
                    cx.seen("points off the surface");
                    let mut best = (f64::MAX, 0.0, 0.0);
                    for i in 0..=40 {
                        for j in 0..=40 {
                            let (u, v) = (u0 + (u1 - u0) * i as f64 / 40.0, v0 + (v1 - v0) * j as f64 / 40.0);
                            let e = (s.eval(u, v) - *q).length();
                            if e < best.0 {
                                best = (e, u, v);
                            }
                        }
                    }
                    cx.check(d <= best.0 + slack + 1e-9 * scale, "sheet.nearest", || format!("projects to {:?} at distance {}, but ({}, {}) is {} away", p, d, best.1, best.2, best.0));
                }
            }
        }
    }
    Ok(())
}

fn section(cx: &mut Ctx) -> (Box<dyn Curve>, Box<dyn Fn(f64) -> Point3>, String, (f64, f64)) {
    let c = gen::coords(&mut cx.rng);
    match cx.rng.below(4) {
        0 => {
            let (o, d) = (gen::point3(&mut cx.rng, c), gen::unit3(&mut cx.rng) * 2.0);
            (Box::new(Line { origin: o, direction: d }), Box::new(move |u| o + d * u), format!("line {:?} {:?}", o, d), (-3.0, 3.0))
        }
        1 => {
            let (x, y, z) = gen::frame(&mut cx.rng);
            let o = gen::point3(&mut cx.rng, c);
            (Box::new(Circle { center: o, radius: 1.5, axis: z, ref_dir: x }), Box::new(move |u: f64| o + (x * u.cos() + y * u.sin()) * 1.5), format!("circle {:?} axis {:?} ref {:?}", o, z, x), (0.0, TAU))
        }
        2 => {
            let p = gen::points3(&mut cx.rng, c, 4);
            let q = p.clone();
            (Box::new(BezierCurve { control_points: p.clone() }), Box::new(move |u| oracle::casteljau(&q, u)), format!("bezier {:?}", p), (0.0, 1.0))
        }
        _ => {
            let mut p = gen::points3(&mut cx.rng, c, 2);
            if p[0] == p[1] {
                p[1].x += 1.0;
            }
            let q = p.clone();
            (Box::new(Polyline::new(p.clone())), Box::new(move |u: f64| q[0] + (q[1] - q[0]) * u.max(0.0).min(1.0)), format!("polyline {:?}", p), (0.0, 1.0))
        }
    }
}

fn analytic(cx: &mut Ctx) -> Case {
    let (x, y, z) = gen::frame(&mut cx.rng);
    let c = gen::coords(&mut cx.rng);
    let mut o = gen::point3(&mut cx.rng, c);
    let which = cx.rng.below(5);
    let angle = |cx: &mut Ctx| if cx.rng.chance(0.4) { PI * 0.25 * cx.rng.int(-8, 16) as f64 } else { cx.rng.range(-7.0, 14.0) };
    let (a, b);
    let want: Point3;
    let mut extra = 1.0;
    let surface: Box<dyn Surface> = match which {
        0 => {
            let r = if cx.rng.chance(0.5) { *cx.rng.pick(&[0.5, 1.0, 3.0, 40.0]) } else { 10f64.powf(cx.rng.range(-4.0, 4.0)) };
            a = cx.rng.range(-30.0, 30.0);
            b = angle(cx);
            want = o + z * a + (x * b.cos() + y * b.sin()) * r;
            extra += r + a.abs();
            Box::new(Cylinder { origin: o, axis: z, ref_dir: x, radius: r })
        }
        1 => {
            let (curve, f, d, range) = section(cx);
            a = cx.rng.range(range.0, range.1);
            b = angle(cx);
            let near = cx.rng.chance(0.4);
            if near {
                // the section passes close to the axis, or on it
                let d = if cx.rng.chance(0.2) { 0.0 } else { 10f64.powf(cx.rng.range(-7.0, -0.5)) };
                o = f(a) + x * d + z * cx.rng.range(-5.0, 5.0);
                cx.seen("section point near the axis");
            }
            let v = f(a) - o;
            want = o + oracle::rotate(v, z, b);
            extra += v.length();
            cx.input = format!("spin of {}", d);
            Box::new(SpinSurface { origin: o, axis: z, section: curve })
        }
        2 => {
            let (p, fp, dp, rp) = section(cx);
            let (s, fs, ds, rs) = section(cx);
            a = cx.rng.range(rp.0, rp.1);
            b = cx.rng.range(rs.0, rs.1);
            want = fp(a) + fs(b);
            extra += fp(a).length() + fs(b).length();
            cx.input = format!("sweep of path {} section {}", dp, ds);
            Box::new(SweepSurface { path: p, section: s })
        }
        3 => {
            let r = if cx.rng.chance(0.5) { *cx.rng.pick(&[1.0, PI, 10.0, 0.3]) } else { 10f64.powf(cx.rng.range(-4.0, 4.0)) };
            a = if cx.rng.chance(0.3) { PI * 0.5 * cx.rng.below(3) as f64 } else { cx.rng.range(0.0, PI) };
            b = angle(cx);
            // half an arch of a cycloid turned about the z axis, the rim at the given radius
            let k = r / PI;
            let rho = k * (a - a.sin());
            want = Point3::new(rho * b.cos(), rho * b.sin(), k * (1.0 + a.cos()));
            if a == PI {
                cx.within((rho - r).abs(), 1e-9 * r, "umbrella.rim", || "rim".into());
            }
            extra += r;
            Box::new(Umbrella { radius: r })
        }
        _ => {
            a = cx.rng.range(-30.0, 30.0);
            b = cx.rng.range(-30.0, 30.0);
            want = o + x * a + y * b;
            extra += 60.0;
            Box::new(Plane { origin: o, normal: z, u_axis: x, v_axis: y })
        }
    };
    let name = ["cylinder", "spin", "sweep", "umbrella", "plane"][which];
    cx.seen(name);
    cx.input = format!("{} {} origin {:?} frame {:?} {:?} {:?} at ({}, {}) {:?}", name, cx.input, o, x, y, z, a, b, if which == 3 || which == 0 { format!("{:?}", surface) } else { String::new() });
    cx.nontrivial();
    let tol = 1e-10 * (o.length() + extra);
    let got = cx.sut("Surface::get_point", || surface.get_point(a, b))?;
    cx.within((got - want).length(), tol, "analytic.value", || format!("point at ({}, {}) is {:?}, expected {:?}", a, b, got, want));
    Ok(())
}
