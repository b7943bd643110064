//! C01 basis functions, C02 knot vectors.
use super::Prop;
use crate::ctx::{Case, Ctx};
use crate::gen::{self, KnotKind, KNOT_KINDS};
use crate::oracle;
use geom3d::KnotVector;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 1500000,
            thorough: 5000000,
            rule: "a legal knot vector (6 kinds: clamped uniform/non-uniform/with multiple interior knots, unclamped, unclamped with multiple knots, clamped on one side), degree 0..6 (now and then to 14, and hundreds of functions), every knot, both ends, one ulp beside knots, span midpoints and random parameters; non-trivial: degree at least 1",
            assumptions: &["non-empty knot spans are at least 1e-9 wide", "double rounding: 1e-9 absolute on basis values"],
            run: basis,
        },
        Prop {
            id: "C02",
            quick: 3000000,
            thorough: 5000000,
            rule: "knot vectors built from values and multiplicities, Bezier and uniform knots, normalisation, inner part, spans, multiplicities and repeated insertion against plain list arithmetic; non-trivial: at least 3 distinct knots",
            assumptions: &["distinct knots differ by at least 1e-9"],
            run: vectors,
        },
    ]
}

fn basis(cx: &mut Ctx) -> Case {
    let kind = *cx.rng.pick(&KNOT_KINDS);
    let p = gen::degree(&mut cx.rng, 0, 6);
    let n = p + 1 + gen::extra(&mut cx.rng, 7);
    let mut t = gen::knots(&mut cx.rng, n, p, kind);
    if cx.rng.chance(0.2) {
        gen::pinch(&mut cx.rng, &mut t);
        cx.seen("pinched");
    }
    if cx.rng.chance(0.1) && gen::tear(&mut cx.rng, &mut t, p) {
        cx.seen("torn: an inner knot of multiplicity degree + 1");
    }
    cx.input = format!("degree {} knots {:?}", p, t);
    if p >= 1 {
        cx.nontrivial();
    }
    cx.seen(&format!("kind {:?}", kind));
    cx.seen(&format!("degree {}", p));
    let us = gen::params(&mut cx.rng, &t, 8);
    let kv = cx.sut("KnotVector::new", || gen::knot_vector(&t))?;
    // two very close spans blow the allowed rounding up
    for u in us {
        let got = cx.sut("bspline_basis", || kv.bspline_basis(p, u))?;
        let want = oracle::basis(&t, p, oracle::c(u));
        cx.seen("parameters");
        if !cx.check(got.len() == n, "basis.count", || format!("{} basis values for {} control points at u={}", got.len(), n, u)) {
            return Ok(());
        }
        let mut sum = 0.0;
        for i in 0..n {
            cx.within((got[i] - want[i].v).abs(), 1e-9, "basis.value", || format!("N[{}] of degree {} at u={} is {} but {} by definition", i, p, u, got[i], want[i].v));
            cx.check(got[i] >= -1e-9, "basis.negative", || format!("N[{}] at u={} is {}", i, u, got[i]));
            if u < t[i] || u > t[i + p + 1] {
                cx.within(got[i].abs(), 1e-12, "basis.support", || format!("N[{}] at u={} is {} outside its support", i, u, got[i]));
            }
            sum += got[i];
        }
        if u >= t[p] && u <= t[n] && (u < t[t.len() - 1] || t[n] == t[t.len() - 1]) {
            cx.seen("parameters in the domain");
            if t[p] < t[n] && (u > t[p] || u < t[n]) {
                cx.within((sum - 1.0).abs(), 1e-9, "basis.sum", || format!("basis sums to {} at u={}", sum, u));
            }
        }
        if !cx.fails.is_empty() {
            return Ok(());
        }
    }
    // at the ends of a clamped vector the curve sits on the first and last control point,
    // also when rounding put the parameter a hair outside
    if gen::is_clamped(kind) {
        let (a, b) = (t[0], t[t.len() - 1]);
        let v = gen::distinct(&t);
        let (d, e) = ((v[1] - v[0]) * 1e-10, (v[v.len() - 1] - v[v.len() - 2]) * 1e-10);
        for (u, k) in [(a, 0), (b, n - 1), (a - d, 0), (b + e, n - 1), (gen::next_down(a), 0), (gen::next_up(b), n - 1)] {
            if (u - a).abs() > (v[1] - v[0]) * 1e-9 && (u - b).abs() > (v[v.len() - 1] - v[v.len() - 2]) * 1e-9 {
                continue;
            }
            let got = cx.sut("bspline_basis", || kv.bspline_basis(p, u))?;
            cx.seen("clamped ends");
            for i in 0..n {
                let want = if i == k { 1.0 } else { 0.0 };
                cx.within((got[i] - want).abs(), 1e-7, "basis.end", || format!("N[{}] of degree {} at u={} (range {}..{}) is {}, expected {}", i, p, u, a, b, got[i], want));
            }
        }
    }
    Ok(())
}

fn vectors(cx: &mut Ctx) -> Case {
    let kind = *cx.rng.pick(&KNOT_KINDS);
    let p = gen::degree(&mut cx.rng, 0, 5);
    let n = p + 1 + gen::extra(&mut cx.rng, 8);
    let mut t = gen::knots(&mut cx.rng, n, p, kind);
    if cx.rng.chance(0.2) {
        gen::pinch(&mut cx.rng, &mut t);
        cx.seen("pinched");
    }
    if cx.rng.chance(0.1) && gen::tear(&mut cx.rng, &mut t, p) {
        cx.seen("torn: an inner knot of multiplicity degree + 1");
    }
    let vals = gen::distinct(&t);
    let mults: Vec<usize> = vals.iter().map(|v| t.iter().filter(|x| *x == v).count()).collect();
    cx.input = format!("values {:?} multiplicities {:?} degree {}", vals, mults, p);
    if vals.len() > 2 {
        cx.nontrivial();
    }
    cx.seen(&format!("kind {:?}", kind));
    let kv = cx.sut("from_values_and_multiplicities", || KnotVector::from_values_and_multiplicities(vals.clone(), mults.clone()))?;
    cx.check(kv.0 == t, "knots.expand", || format!("values and multiplicities expand to {:?}", kv.0));
    if kv.0 != t {
        return Ok(());
    }
    let collected: KnotVector = cx.sut("collect", || t.iter().cloned().collect())?;
    cx.check(collected == kv && KnotVector::from(t.clone()) == kv, "knots.collect", || format!("collecting gives {:?}", collected.0));
    let (a, b) = (t[0], t[t.len() - 1]);
    let r = cx.sut("range", || kv.range())?;
    cx.check(r == (a, b), "knots.range", || format!("range is {:?}", r));
    // normalisation
    let norm = cx.sut("normalize", || kv.normalize())?;
    cx.check(norm.len() == t.len(), "knots.normalize", || format!("normalised length {}", norm.len()));
    for i in 0..t.len().min(norm.len()) {
        cx.within((norm[i] - (t[i] - a) / (b - a)).abs(), 1e-12, "knots.normalize", || format!("knot {} normalises to {}", t[i], norm[i]));
    }
    cx.check(norm[0] == 0.0 && norm[norm.len() - 1] == 1.0, "knots.normalize", || format!("normalised range {:?}..{:?}", norm[0], norm[norm.len() - 1]));
    // multiplicity of every knot
    for i in 0..t.len() {
        let m = cx.sut("multiplicity", || kv.multiplicity(i))?;
        let want = t.iter().filter(|x| **x == t[i]).count();
        cx.check(m == want, "knots.multiplicity", || format!("knot {} ({}) has multiplicity {} but {} was reported", i, t[i], want, m));
    }
    // inner part
    if t.len() >= 4 {
        let s = cx.sut("shrink", || kv.shrink())?;
        cx.check(s.0 == t[1..t.len() - 1], "knots.shrink", || format!("without the end knots: {:?}", s.0));
    }
    // spans
    let d = cx.rng.below(p + 2).max(0);
    if d < t.len() {
        let s = cx.sut("spans", || kv.spans(d))?;
        let want: Vec<f64> = (0..t.len() - d).map(|i| t[i + d] - t[i]).collect();
        cx.check(s == want, "knots.spans", || format!("spans({}) = {:?}, expected {:?}", d, s, want));
    }
    // span lookup: non-empty span containing u
    for u in gen::params(&mut cx.rng, &t, 5) {
        let i = cx.sut("span_index", || kv.span_index(u))?;
        let ok = i + 1 < t.len() && t[i] < t[i + 1] && ((t[i] <= u && u < t[i + 1]) || (u == b && t[i + 1] == b));
        cx.check(ok, "knots.span", || format!("u={} is put in span {}", u, i));
        cx.seen("span lookups");
    }
    // standard vectors
    let deg = cx.rng.below(9);
    let bez = cx.sut("bezier_knot", || KnotVector::bezier_knot(deg))?;
    let want: Vec<f64> = (0..2 * deg + 2).map(|i| if i <= deg { 0.0 } else { 1.0 }).collect();
    cx.check(bez.0 == want, "knots.bezier", || format!("bezier_knot({}) = {:?}", deg, bez.0));
    let div = 1 + cx.rng.below(40);
    let uni = cx.sut("uniform_knot", || KnotVector::uniform_knot(deg, div))?;
    let mut ok = uni.len() == 2 * (deg + 1) + div - 1;
    for i in 0..uni.len() {
        let want = if i <= deg { 0.0 } else if i >= deg + div { 1.0 } else { (i - deg) as f64 / div as f64 };
        ok = ok && (uni[i] - want).abs() < 1e-12 && (i == 0 || uni[i] >= uni[i - 1]);
    }
    ok = ok && uni[..=deg].iter().all(|v| *v == 0.0) && uni[deg + div..].iter().all(|v| *v == 1.0);
    cx.check(ok, "knots.uniform", || format!("uniform_knot({}, {}) = {:?}", deg, div, uni.0));
    // insertion: sorted, exactly one more of that value, reported position holds it and is the last of its run
    let mut model = t.clone();
    let mut live = kv.clone();
    for _ in 0..4 {
        let u = match cx.rng.below(5) {
            0 => *cx.rng.pick(&model),
            1 => model[0],
            2 => model[model.len() - 1],
            3 => a - 1.0 - cx.rng.unit(),
            _ => cx.rng.range(a, b),
        };
        let at = cx.sut("add_knot", || live.add_knot(u))?;
        let pos = model.iter().filter(|x| **x <= u).count();
        model.insert(pos, u);
        cx.seen("insertions");
        cx.check(live.0 == model, "knots.insert", || format!("inserting {} gives {:?}, expected {:?}", u, live.0, model));
        cx.check(at == pos, "knots.insert", || format!("inserting {} reported position {}, expected {}", u, at, pos));
        if live.0 != model {
            return Ok(());
        }
    }
    let k = 1 + cx.rng.below(model.len() - 1);
    let sub = cx.sut("sub_vec", || live.sub_vec(0..k))?;
    cx.check(sub.0 == model[..k], "knots.sub", || format!("first {} knots: {:?}", k, sub.0));
    let _ = KnotKind::Unclamped;
    Ok(())
}
