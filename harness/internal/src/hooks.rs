//! The hooks, or stubs for the parts left out of this build (`auto_palette_verif_without`, see bin/check.py:
//! used only when the code under test no longer fits some part of the hooks).
#![allow(dead_code, unused_imports)]
pub use auto_palette::verif::*;

#[cfg(auto_palette_verif_without = "search")]
pub fn kdtree<F: Float, P: Point<F>>(_: &Vec<P>, _: &DistanceMetric, _: &[Query<F, P>]) -> Vec<Vec<(usize, F)>> {
    unimplemented!()
}
#[cfg(auto_palette_verif_without = "search")]
pub fn linear<F: Float, P: Point<F>>(_: &Vec<P>, _: &DistanceMetric, _: &[Query<F, P>]) -> Vec<Vec<(usize, F)>> {
    unimplemented!()
}
#[cfg(auto_palette_verif_without = "density")]
pub fn dbscan<F: Float, P: Point<F>>(_: &[P], _: usize, _: F, _: DistanceMetric) -> (Vec<P>, Vec<usize>, Vec<usize>) {
    unimplemented!()
}
#[cfg(auto_palette_verif_without = "means")]
pub fn kmeans<F: Float, P: Point<F>, R: rand::Rng + Clone>(_: &[P], _: &KmeansConfig<F>, _: R) -> (Vec<P>, Vec<usize>) {
    unimplemented!()
}
#[cfg(auto_palette_verif_without = "means")]
pub fn seeds<F: Float, P: Point<F>, R: rand::Rng + Clone>(_: &[P], _: usize, _: &DistanceMetric, _: bool, _: R) -> Vec<P> {
    unimplemented!()
}
#[cfg(auto_palette_verif_without = "core")]
pub fn core_distances<F: Float, P: Point<F>>(_: &[P], _: usize, _: &DistanceMetric) -> Vec<F> {
    unimplemented!()
}
#[cfg(auto_palette_verif_without = "tree")]
pub fn spanning_tree<F: Float, W: Fn(usize, usize) -> F>(_: usize, _: W) -> (Vec<(usize, usize, F)>, F) {
    unimplemented!()
}
#[cfg(auto_palette_verif_without = "linkage")]
pub fn hierarchy<F: Float, W: Fn(usize, usize) -> F>(_: usize, _: W, _: &[usize]) -> (Vec<Merge<F>>, Vec<Vec<usize>>) {
    unimplemented!()
}
#[cfg(auto_palette_verif_without = "sets")]
pub fn disjoint_sets(_: usize, _: &[SetOp]) -> Vec<usize> {
    unimplemented!()
}
