//! Writes STEP (ISO 10303-21, AP214) files: entities get random identifiers,
//! order and layout, geometry gets any of the parametrisations the standard allows.
use crate::gen;
use crate::oracle;
use crate::rng::Rng;
use geom3d::{Point3, Vec3};
use std::f64::consts::TAU;

pub type Id = usize;

#[derive(Default)]
pub struct Step {
    ents: Vec<String>,
    /// points are written with this many decimals
    pub decimals: Option<u32>,
}

pub fn rf(k: Id) -> String {
    format!("@{}@", k)
}

pub fn list(items: &[String]) -> String {
    format!("({})", items.join(","))
}

pub fn flag(b: bool) -> &'static str {
    if b {
        ".T."
    } else {
        ".F."
    }
}

/// a real number as STEP wants it: always with a point
pub fn real(r: &mut Rng, v: f64) -> String {
    let s = format!("{:?}", v);
    if let Some(e) = s.find('e') {
        let (m, x) = (&s[..e], &s[e + 1..]);
        return format!("{}{}E{}", m, if m.contains('.') { "" } else { "." }, x);
    }
    match r.below(4) {
        0 if s.ends_with(".0") => s[..s.len() - 1].to_string(),
        1 => {
            let t = format!("{:E}", v);
            let e = t.find('E').unwrap();
            format!("{}{}{}", &t[..e], if t[..e].contains('.') { "" } else { "." }, &t[e..])
        }
        _ => s,
    }
}

impl Step {
    pub fn new() -> Step {
        Step::default()
    }
    pub fn add(&mut self, s: String) -> Id {
        self.ents.push(s);
        self.ents.len() - 1
    }
    pub fn point(&mut self, r: &mut Rng, p: Point3) -> Id {
        let k = self.decimals.map(|d| 10f64.powi(d as i32));
        let cut = |v: f64| k.map_or(v, |k| (v * k).round() / k);
        let s = format!("CARTESIAN_POINT({},({},{},{}))", label(r), real(r, cut(p.x)), real(r, cut(p.y)), real(r, cut(p.z)));
        self.add(s)
    }
    /// direction ratios may have any length
    pub fn direction(&mut self, r: &mut Rng, d: Vec3) -> Id {
        let d = if r.chance(0.4) { d * r.range(0.1, 30.0) } else { d };
        let s = format!("DIRECTION({},({},{},{}))", label(r), real(r, d.x), real(r, d.y), real(r, d.z));
        self.add(s)
    }
    /// the placement with these exact axes, written in one of the ways that mean it
    pub fn placement(&mut self, r: &mut Rng, o: Point3, z: Vec3, x: Vec3) -> Id {
        let p = self.point(r, o);
        let default_z = z == Vec3::Z && r.chance(0.5);
        let axis = if default_z { "$".to_string() } else { rf(self.direction(r, z)) };
        let first = if z.x.abs() < 1.0 { Vec3::X } else { Vec3::Y };
        let first = first - z * first.dot(z);
        let default_x = first.length() > 0.1 && (first.normalize() - x).length() < 1e-15 && r.chance(0.5);
        let rd = if default_x {
            "$".to_string()
        } else {
            // only its part across the axis counts
            let tilt = if r.chance(0.2) { z * r.range(-2.0, 2.0) } else { Vec3::ZERO };
            rf(self.direction(r, x + tilt))
        };
        let s = format!("AXIS2_PLACEMENT_3D({},{},{},{})", label(r), rf(p), axis, rd);
        self.add(s)
    }
    pub fn vertex(&mut self, r: &mut Rng, p: Point3) -> Id {
        let q = self.point(r, p);
        let s = format!("VERTEX_POINT({},{})", label(r), rf(q));
        self.add(s)
    }
    pub fn points(&mut self, r: &mut Rng, p: &[Point3]) -> String {
        let ids: Vec<String> = p.iter().map(|p| rf(self.point(r, *p))).collect();
        list(&ids)
    }
    pub fn line(&mut self, r: &mut Rng, o: Point3, v: Vec3) -> Id {
        let p = self.point(r, o);
        let d = self.direction(r, v.normalize());
        let s = format!("VECTOR({},{},{})", label(r), rf(d), real(r, v.length()));
        let v = self.add(s);
        let s = format!("LINE({},{},{})", label(r), rf(p), rf(v));
        self.add(s)
    }
    pub fn circle(&mut self, r: &mut Rng, o: Point3, z: Vec3, x: Vec3, radius: f64) -> Id {
        let p = self.placement(r, o, z, x);
        let s = format!("CIRCLE({},{},{})", label(r), rf(p), real(r, radius));
        self.add(s)
    }
    pub fn polyline(&mut self, r: &mut Rng, p: &[Point3]) -> Id {
        let l = self.points(r, p);
        let s = format!("POLYLINE({},{})", label(r), l);
        self.add(s)
    }
    pub fn spline(&mut self, r: &mut Rng, k: &[f64], d: usize, p: &[Point3]) -> Id {
        let l = self.points(r, p);
        let (v, m) = multiplicities(r, k);
        let closed = flag((p[0] - p[p.len() - 1]).length() < 1e-12);
        let s = format!("B_SPLINE_CURVE_WITH_KNOTS({},{},{},.UNSPECIFIED.,{},.F.,{},{},.UNSPECIFIED.)", label(r), d, l, closed, m, v);
        self.add(s)
    }
    /// file text
    pub fn render(&self, r: &mut Rng) -> String {
        let n = self.ents.len();
        let mut ids: Vec<usize> = Vec::with_capacity(n);
        let mut next = 1 + r.below(40);
        for _ in 0..n {
            ids.push(next);
            next += if r.chance(0.8) { 1 } else { 1 + r.below(50) };
        }
        if r.chance(0.5) {
            r.shuffle(&mut ids);
        }
        let mut order: Vec<usize> = (0..n).collect();
        match r.below(3) {
            0 => order.reverse(),
            1 => r.shuffle(&mut order),
            _ => {}
        }
        let nl = if r.chance(0.3) { "\r\n" } else { "\n" };
        let mut out = String::new();
        let head = ["ISO-10303-21;", "HEADER;", "FILE_DESCRIPTION(('a part'),'2;1');", "FILE_NAME('part.stp','2021-03-04T05:06:07',('somebody'),('somewhere'),' ','monitor',' ');", "FILE_SCHEMA(('AUTOMOTIVE_DESIGN { 1 0 10303 214 2 1 1}'));", "ENDSEC;", "DATA;"];
        for h in head {
            out.push_str(h);
            out.push_str(nl);
            if r.chance(0.1) && h != "ISO-10303-21;" {
                out.push_str("/* a remark; #1=POINT() */");
                out.push_str(nl);
            }
        }
        let airy = r.chance(0.3);
        for k in order {
            let mut body = String::with_capacity(self.ents[k].len() + 20);
            let mut parts = self.ents[k].split('@');
            body.push_str(parts.next().unwrap());
            while let Some(id) = parts.next() {
                body.push_str(&format!("#{}", ids[id.parse::<usize>().unwrap()]));
                body.push_str(parts.next().unwrap());
            }
            if airy {
                let mut quoted = false;
                let mut wide = String::with_capacity(body.len() * 2);
                for c in body.chars() {
                    if c == '\'' {
                        quoted = !quoted;
                    }
                    wide.push(c);
                    if !quoted && (c == ',' || c == '(') {
                        match r.below(14) {
                            0 => wide.push(' '),
                            1 => wide.push_str(nl),
                            2 => wide.push_str("  \t"),
                            3 => wide.push_str(" /* ) */ "),
                            _ => {}
                        }
                    }
                }
                body = wide;
                out.push_str(&format!("#{} = {} ;{}", ids[k], body, nl));
            } else {
                out.push_str(&format!("#{}={};{}", ids[k], body, nl));
            }
            if r.chance(0.02) {
                out.push_str("/* #7=POINT(); */");
                out.push_str(nl);
            }
        }
        out.push_str("ENDSEC;");
        out.push_str(nl);
        out.push_str("END-ISO-10303-21;");
        out.push_str(nl);
        out
    }
}

pub fn label(r: &mut Rng) -> &'static str {
    *r.pick(&["''", "''", "''", "'NONE'", "'a name'", "'(#3,'"])
}

/// distinct knots and how often they appear, sometimes listed in several runs of the same value
pub fn multiplicities(r: &mut Rng, k: &[f64]) -> (String, String) {
    let mut v: Vec<f64> = vec![];
    let mut m: Vec<usize> = vec![];
    for x in k {
        if v.last() == Some(x) {
            *m.last_mut().unwrap() += 1;
        } else {
            v.push(*x);
            m.push(1);
        }
    }
    let v: Vec<String> = v.iter().map(|x| real(r, *x)).collect();
    let m: Vec<String> = m.iter().map(|x| x.to_string()).collect();
    (list(&v), list(&m))
}

/// a directed piece of a boundary
#[derive(Clone, Debug)]
pub enum Piece {
    Line(Point3, Point3),
    /// centre, axis, x direction, radius, from and to angle (any direction, at most a turn)
    Arc(Point3, Vec3, Vec3, f64, f64, f64),
    Poly(Vec<Point3>),
    /// knots, degree, control points, from and to parameter
    Spline(Vec<f64>, usize, Vec<Point3>, f64, f64),
}

impl Piece {
    pub fn at(&self, t: f64) -> Point3 {
        match self {
            Piece::Line(a, b) => *a + (*b - *a) * t,
            Piece::Arc(o, z, x, r, a, b) => {
                let w = a + (b - a) * t;
                *o + (*x * w.cos() + z.cross(*x) * w.sin()) * *r
            }
            Piece::Poly(p) => crate::props::polyline_at(p, t),
            Piece::Spline(k, d, p, a, b) => {
                let u = (a + (b - a) * t).max(k[0]).min(k[k.len() - 1]);
                oracle::combine(&oracle::basis(k, *d, oracle::c(u)), p).0
            }
        }
    }
    pub fn start(&self) -> Point3 {
        self.at(0.0)
    }
    pub fn end(&self) -> Point3 {
        self.at(1.0)
    }
    pub fn is_closed(&self) -> bool {
        (self.start() - self.end()).length() < 1e-9
    }
    pub fn dense(&self, n: usize) -> Vec<Point3> {
        match self {
            Piece::Line(a, b) => vec![*a, *b],
            Piece::Poly(p) => p.clone(),
            _ => (0..=n).map(|i| self.at(i as f64 / n as f64)).collect(),
        }
    }
    pub fn reversed(&self) -> Piece {
        match self.clone() {
            Piece::Line(a, b) => Piece::Line(b, a),
            Piece::Arc(o, z, x, r, a, b) => Piece::Arc(o, z, x, r, b, a),
            Piece::Poly(mut p) => {
                p.reverse();
                Piece::Poly(p)
            }
            Piece::Spline(k, d, p, a, b) => Piece::Spline(k, d, p, b, a),
        }
    }
}

/// an edge as it lies in the file
pub struct Edge {
    pub id: Id,
    /// the piece runs from edge start to edge end
    pub forward: bool,
}

/// Write the edge of a piece between two vertices, with the edge and its curve in any direction.
pub fn write_edge(s: &mut Step, r: &mut Rng, piece: &Piece, from: Id, to: Id) -> Edge {
    let forward = r.chance(0.5);
    let (p, v0, v1) = if forward { (piece.clone(), from, to) } else { (piece.reversed(), to, from) };
    let same = r.chance(0.5);
    // the curve along the edge, or against it
    let c = if same { p } else { p.reversed() };
    let curve = match &c {
        Piece::Line(a, b) => {
            let o = *a + (*b - *a) * r.range(-2.0, 2.0);
            let d = (*b - *a).normalize() * r.range(0.2, 5.0);
            s.line(r, o, d)
        }
        Piece::Arc(o, z, x, radius, a, b) => {
            // angles grow along the curve
            let z = if a < b { *z } else { -*z };
            let y = z.cross(*x);
            let w = r.range(-TAU, TAU);
            let x = if r.chance(0.5) { *x } else { *x * w.cos() + y * w.sin() };
            s.circle(r, *o, z, x, *radius)
        }
        Piece::Poly(p) => {
            let mut p = p.clone();
            if !c.is_closed() && r.chance(0.3) {
                // more curve than edge
                let (a, b) = (p[0], p[1]);
                p.insert(0, a + (a - b) * r.range(0.1, 1.0));
                let n = p.len();
                let (a, b) = (p[n - 1], p[n - 2]);
                p.push(a + (a - b) * r.range(0.1, 1.0));
            }
            s.polyline(r, &p)
        }
        Piece::Spline(k, d, p, a, b) => {
            if a < b {
                s.spline(r, k, *d, p)
            } else {
                let (lo, hi) = (k[0], k[k.len() - 1]);
                let k: Vec<f64> = k.iter().rev().map(|x| lo + hi - x).collect();
                let p: Vec<Point3> = p.iter().rev().cloned().collect();
                s.spline(r, &k, *d, &p)
            }
        }
    };
    let t = format!("EDGE_CURVE({},{},{},{},{})", label(r), rf(v0), rf(v1), rf(curve), flag(same));
    Edge { id: s.add(t), forward }
}

/// A loop as a bound of a face: each edge with whether the loop follows its piece, in loop order.
pub fn write_bound(s: &mut Step, r: &mut Rng, edges: &[(&Edge, bool)], outer: bool) -> Id {
    // the listed loop may run against the bound
    let along = r.chance(0.6);
    let mut used: Vec<(Id, bool)> = edges.iter().map(|(e, follows)| (e.id, *follows == e.forward)).collect();
    if !along {
        used.reverse();
        used.iter_mut().for_each(|u| u.1 = !u.1);
    }
    let turn = r.below(used.len());
    used.rotate_left(turn);
    let ids: Vec<String> = used
        .iter()
        .map(|(id, o)| {
            let t = format!("ORIENTED_EDGE({},*,*,{},{})", label(r), rf(*id), flag(*o));
            rf(s.add(t))
        })
        .collect();
    let t = format!("EDGE_LOOP({},{})", label(r), list(&ids));
    let l = s.add(t);
    let kind = if outer && r.chance(0.7) { "FACE_OUTER_BOUND" } else { "FACE_BOUND" };
    let t = format!("{}({},{},{})", kind, label(r), rf(l), flag(along));
    s.add(t)
}

pub fn write_face(s: &mut Step, r: &mut Rng, bounds: &[Id], surface: Id, same: bool) -> Id {
    let mut b: Vec<String> = bounds.iter().map(|b| rf(*b)).collect();
    r.shuffle(&mut b);
    let t = format!("ADVANCED_FACE({},{},{},{})", label(r), list(&b), rf(surface), flag(same));
    s.add(t)
}

/// A plane whose face normal is n; returns the surface and the sense of the face.
pub fn write_plane(s: &mut Step, r: &mut Rng, o: Point3, n: Vec3) -> (Id, bool) {
    let same = r.chance(0.6);
    let z = if same { n } else { -n };
    let x = across(r, z);
    let p = s.placement(r, o, z, x);
    let t = format!("PLANE({},{})", label(r), rf(p));
    (s.add(t), same)
}

/// any unit vector across another
pub fn across(r: &mut Rng, z: Vec3) -> Vec3 {
    if r.chance(0.3) {
        let first = if z.x.abs() < 1.0 { Vec3::X } else { Vec3::Y };
        let first = first - z * first.dot(z);
        if first.length() > 0.1 {
            return first.normalize();
        }
    }
    loop {
        let v = gen::unit3(r);
        let v = v - z * v.dot(z);
        if v.length() > 0.3 {
            return v.normalize();
        }
    }
}

pub fn write_cylinder(s: &mut Step, r: &mut Rng, o: Point3, z: Vec3, radius: f64) -> Id {
    let x = across(r, z);
    let p = s.placement(r, o, z, x);
    let t = format!("CYLINDRICAL_SURFACE({},{},{})", label(r), rf(p), real(r, radius));
    s.add(t)
}

/// rows of control points, knots and degrees of both directions
pub fn write_bspline_surface(s: &mut Step, r: &mut Rng, rows: &[Vec<Point3>], ku: &[f64], kv: &[f64], p: usize, q: usize) -> Id {
    let l: Vec<String> = rows.iter().map(|row| s.points(r, row)).collect();
    let (uv, um) = multiplicities(r, ku);
    let (vv, vm) = multiplicities(r, kv);
    let t = format!("B_SPLINE_SURFACE_WITH_KNOTS({},{},{},{},.UNSPECIFIED.,.F.,.F.,.F.,{},{},{},{},.UNSPECIFIED.)", label(r), p, q, list(&l), um, vm, uv, vv);
    s.add(t)
}

/// The curve a piece lies on, for trimming: entity, parameters of the piece's ends.
fn basis_curve(s: &mut Step, r: &mut Rng, c: &Piece) -> (Id, f64, f64) {
    match c {
        Piece::Line(a, b) => {
            let l = (*b - *a).length();
            let d = (*b - *a) / l;
            let (v, back) = (r.range(0.2, 5.0), r.range(-2.0, 2.0) * l);
            let id = s.line(r, *a - d * back, d * v);
            (id, back / v, (back + l) / v)
        }
        Piece::Arc(o, z, x, radius, a, b) => {
            let (z, a, b) = if a < b { (*z, *a, *b) } else { (-*z, -*a, -*b) };
            let w = if r.chance(0.4) { 0.0 } else { r.range(-TAU, TAU) };
            let x = if w == 0.0 { *x } else { oracle::rotate(*x, z, w) };
            let id = s.circle(r, *o, z, x, *radius);
            (id, a - w, b - w)
        }
        Piece::Poly(p) => {
            let mut p = p.clone();
            let n = p.len();
            let closed = c.is_closed();
            let (mut u0, mut u1) = (0.0, (n - 1) as f64);
            if !closed && r.chance(0.5) {
                // ends within a longer first or last side
                let k = r.range(0.2, 1.5);
                let (a, b) = (p[0], p[1]);
                p[0] = a + (a - b) * k;
                u0 = k / (1.0 + k);
                if n == 2 {
                    return (s.polyline(r, &p), u0, u1);
                }
                let k = r.range(0.2, 1.5);
                let (a, b) = (p[n - 1], p[n - 2]);
                p[n - 1] = a + (a - b) * k;
                u1 -= k / (1.0 + k);
            }
            if !closed && r.chance(0.3) {
                let (a, b) = (p[p.len() - 2], p[p.len() - 1]);
                let first = if r.chance(0.5) {
                    // as long as the last side
                    p[0] + (p[0] - p[1]).normalize() * (b - a).length()
                } else {
                    p[0] + (p[0] - p[1]).normalize() * 2.0 + Vec3::new(0.3, 0.2, 0.1)
                };
                p.insert(0, first);
                u0 += 1.0;
                u1 += 1.0;
            }
            (s.polyline(r, &p), u0, u1)
        }
        Piece::Spline(k, d, p, a, b) => {
            if a < b {
                (s.spline(r, k, *d, p), *a, *b)
            } else {
                let (lo, hi) = (k[0], k[k.len() - 1]);
                let k: Vec<f64> = k.iter().rev().map(|x| lo + hi - x).collect();
                let p: Vec<Point3> = p.iter().rev().cloned().collect();
                let at = |u: f64| (lo + hi - u).max(k[0]).min(k[k.len() - 1]);
                let (u, v) = (at(*a), at(*b));
                (s.spline(r, &k, *d, &p), u, v)
            }
        }
    }
}

/// A segment of a composite curve along a piece; returns it and how it was written.
/// the segment, its parent curve and how it was written
pub fn write_segment(s: &mut Step, r: &mut Rng, piece: &Piece) -> (Id, Id, String) {
    let same = r.chance(0.6);
    let t = if same { piece.clone() } else { piece.reversed() };
    let direct = match &t {
        Piece::Poly(p) => Some(p.clone()).filter(|_| r.chance(0.4)).map(|p| s.polyline(r, &p)),
        Piece::Spline(k, d, p, a, b) if *a == k[0] && *b == k[k.len() - 1] && r.chance(0.4) => Some(s.spline(r, k, *d, p)),
        _ => None,
    };
    let (parent, how) = match direct {
        Some(id) => (id, "whole curve".to_string()),
        None => {
            let agrees = r.chance(0.6);
            let c = if agrees { t.clone() } else { t.reversed() };
            let (basis, u0, u1) = basis_curve(s, r, &c);
            let (mut u0, mut u1) = if agrees { (u0, u1) } else { (u1, u0) };
            let mut kinds = (r.below(3), r.below(3));
            let closed = c.is_closed();
            if closed {
                kinds.1 = kinds.0;
            }
            if let Piece::Arc(..) = c {
                // angles count modulo a turn, those of points are in the first
                let full = ((u1 - u0).abs() - TAU).abs() < 1e-9;
                if (kinds.0 == 1) == (kinds.1 == 1) {
                    let k = TAU * (r.below(3) as f64 - 1.0);
                    u0 += k;
                    u1 += k;
                    if !full && r.chance(0.3) {
                        u1 -= TAU * (u1 - u0).signum();
                    }
                } else {
                    u0 = u0.rem_euclid(TAU);
                    u1 = u1.rem_euclid(TAU);
                }
            }
            let mut how = String::new();
            let mut trim = |s: &mut Step, r: &mut Rng, kind: usize, u: f64, p: Point3| {
                let mut v = vec![];
                if kind != 1 {
                    v.push(format!("PARAMETER_VALUE({})", real(r, u)));
                }
                if kind != 0 {
                    v.push(rf(s.point(r, p)));
                }
                r.shuffle(&mut v);
                how.push_str(["by parameter ", "by point ", "by both "][kind]);
                list(&v)
            };
            let t1 = trim(s, r, kinds.0, u0, t.start());
            let end = if closed { t.start() } else { t.end() };
            let t2 = trim(s, r, kinds.1, u1, end);
            let text = format!("TRIMMED_CURVE({},{},{},{},{},{})", label(r), rf(basis), t1, t2, flag(agrees), *r.pick(&[".PARAMETER.", ".CARTESIAN.", ".UNSPECIFIED."]));
            let id = s.add(text);
            (id, format!("{}sense {} ", how, agrees))
        }
    };
    let text = format!("COMPOSITE_CURVE_SEGMENT({},{},{})", *r.pick(&[".CONTINUOUS.", ".DISCONTINUOUS.", ".CONT_SAME_GRADIENT."]), flag(same), rf(parent));
    (s.add(text), parent, format!("{}same sense {}", how, same))
}

/// another segment along the parent curve of one, with or against its sense
pub fn write_again(s: &mut Step, r: &mut Rng, parent: Id, same: bool) -> Id {
    let text = format!("COMPOSITE_CURVE_SEGMENT({},{},{})", *r.pick(&[".CONTINUOUS.", ".DISCONTINUOUS.", ".CONT_SAME_GRADIENT."]), flag(same), rf(parent));
    s.add(text)
}

pub fn write_composite(s: &mut Step, r: &mut Rng, segments: &[Id]) -> Id {
    let l: Vec<String> = segments.iter().map(|i| rf(*i)).collect();
    let t = format!("COMPOSITE_CURVE({},{},{})", label(r), list(&l), *r.pick(&[".T.", ".F.", ".U."]));
    s.add(t)
}
