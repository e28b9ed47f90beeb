//! Harnesses over the public interface of rusty-rtree.  Compiled to LLVM IR for
//! the symbolic executor and natively for the replayer.
pub mod geom;
pub mod hb;
pub mod hist;
pub mod joins;
pub mod more;
pub mod own;
pub mod query;
pub mod snap;
pub mod sym;

pub static TABLE: &[(&str, extern "C" fn())] = &[("h_hist", hist::h_hist), ("h_query", query::h_query), ("h_join", joins::h_join), ("h_clone", own::h_clone), ("h_own", own::h_own), ("h_mem", own::h_mem), ("h_panic", own::h_panic),
    ("h_box", geom::h_box), ("h_dist", geom::h_dist), ("h_filter", geom::h_filter), ("h_ray", geom::h_ray), ("h_empty", geom::h_empty), ("h_look", more::h_look), ("h_place", more::h_place), ("h_split", more::h_split), ("h_calm", more::h_calm), ("h_joining", joins::h_joining), ("h_once", query::h_once)];
