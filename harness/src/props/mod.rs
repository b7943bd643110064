use crate::ctx::{Case, Ctx};

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx) -> Case,
}

mod curves;
mod bsface;
mod cylface;
mod export;
mod front;
pub mod history;
mod knots;
mod patch;
mod planar;
mod sampling;
mod step;
mod surfaces;
pub use export::polyline_at;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(knots::props());
    v.extend(curves::props());
    v.extend(surfaces::props());
    v.extend(sampling::props());
    v.extend(patch::props());
    v.extend(planar::props());
    v.extend(front::props());
    v.extend(cylface::props());
    v.extend(bsface::props());
    v.extend(export::props());
    v.extend(step::props());
    v.extend(history::props());
    v
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
