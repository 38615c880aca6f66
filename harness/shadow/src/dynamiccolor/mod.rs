pub mod dynamic_color;
pub mod dynamic_scheme;
pub mod material_dynamic_colors;
pub mod src;
pub mod variant;
