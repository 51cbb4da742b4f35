pub mod prelude {
    pub use bevy_math::{Quat, Vec2, Vec3};
    pub use bevy_transform::components::Transform;
    pub use component_derive::Component;
}
pub mod math {
    pub use bevy_math::*;
}
pub mod transform {
    pub use bevy_transform::*;
}
