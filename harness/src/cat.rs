//! The shapes polygon harnesses use.
use crate::geo::*;
use auburn::col2d::*;

pub const TRI: &[(f32, f32)] = &[(2.0, -1.0), (0.0, 2.0), (-2.0, -1.0)];
pub const QUAD: &[(f32, f32)] = &[(3.0, 0.0), (1.0, 2.0), (-1.0, 0.5), (0.5, -1.0)];
pub const PENT: &[(f32, f32)] = &[(2.0, 0.0), (1.0, 2.0), (-1.5, 1.5), (-2.0, -0.5), (0.5, -2.0)];
pub const HEX: &[(f32, f32)] = &[(2.0, 0.0), (1.0, 1.75), (-1.0, 1.75), (-2.0, 0.0), (-1.0, -1.75), (1.0, -1.75)];
pub const SLIM: &[(f32, f32)] = &[(4.0, 1.0), (-4.0, 0.25), (-3.0, -0.5)];
/// rounder shapes
pub const OCT: &[(f32, f32)] = &[(2.0, 0.0), (1.375, 1.375), (0.0, 2.0), (-1.375, 1.375), (-2.0, 0.0), (-1.375, -1.375), (0.0, -2.0), (1.375, -1.375)];
pub const DODE: &[(f32, f32)] = &[(2.0, 0.0), (1.75, 1.0), (1.0, 1.75), (0.0, 2.0), (-1.0, 1.75), (-1.75, 1.0), (-2.0, 0.0), (-1.75, -1.0), (-1.0, -1.75), (0.0, -2.0), (1.0, -1.75), (1.75, -1.0)];
pub const ROUND: &[(f32, f32)] = &[(4.0, 0.0), (3.75, 1.5), (2.875, 2.875), (1.5, 3.75), (0.0, 4.0), (-1.5, 3.75), (-2.875, 2.875), (-3.75, 1.5), (-4.0, 0.0), (-3.75, -1.5), (-2.875, -2.875), (-1.5, -3.75), (0.0, -4.0), (1.5, -3.75), (2.875, -2.875), (3.75, -1.5)];
pub fn poly(p: &[(f32, f32)]) -> Poly2d {
    let v: Vec<Vec2> = p.iter().map(|q| Vec2::new(q.0, q.1)).collect();
    Poly2d::new(&v)
}
pub fn pts(p: &[(f32, f32)]) -> Vec<P> {
    p.iter().map(|q| pt(q.0 as f64, q.1 as f64)).collect()
}
pub fn corners(hx: f32, hy: f32) -> Vec<P> {
    let (x, y) = (hx as f64, hy as f64);
    vec![pt(x, y), pt(-x, y), pt(-x, -y), pt(x, -y)]
}
