//! Property harnesses over the real crate. One feature per group, so that a
//! check compiles only what it needs.
pub mod sym;
#[cfg(feature = "closed")]
pub mod closed;
#[cfg(any(feature = "gjk", feature = "world", feature = "support"))]
pub mod geo;
#[cfg(any(feature = "gjk", feature = "world", feature = "support"))]
pub mod cat;
#[cfg(feature = "gjk")]
pub mod gjk;
pub mod sd;
#[cfg(feature = "world")]
pub mod world;
#[cfg(any(feature = "trans", feature = "closed", feature = "world", feature = "support", feature = "bevy"))]
pub mod trans;
#[cfg(feature = "support")]
pub mod support;
#[cfg(feature = "tile")]
pub mod tile;
#[cfg(feature = "save")]
pub mod save;
#[cfg(feature = "util")]
pub mod util;
#[cfg(feature = "bevy")]
pub mod bevyt;
#[cfg(feature = "bevy")]
pub mod space;
#[cfg(feature = "solid")]
pub mod solid;
pub fn all() -> Vec<(&'static str, extern "C-unwind" fn())> {
    #[allow(unused_mut)]
    let mut v = vec![];
    #[cfg(feature = "closed")]
    v.extend_from_slice(closed::LIST);
    #[cfg(feature = "gjk")]
    v.extend_from_slice(gjk::LIST);
    #[cfg(feature = "trans")]
    v.extend_from_slice(trans::LIST);
    #[cfg(feature = "world")]
    v.extend_from_slice(world::LIST);
    #[cfg(feature = "support")]
    v.extend_from_slice(support::LIST);
    #[cfg(feature = "tile")]
    v.extend_from_slice(tile::LIST);
    #[cfg(feature = "save")]
    v.extend_from_slice(save::LIST);
    #[cfg(feature = "util")]
    v.extend_from_slice(util::LIST);
    #[cfg(feature = "bevy")]
    v.extend_from_slice(bevyt::LIST);
    #[cfg(feature = "bevy")]
    v.extend_from_slice(space::LIST);
    #[cfg(feature = "solid")]
    v.extend_from_slice(solid::LIST);
    v
}
