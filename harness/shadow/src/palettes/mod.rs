pub mod core_palette;
pub mod tonal_palette;
