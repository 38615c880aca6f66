pub mod scheme;
pub mod scheme_content;
pub mod scheme_expressive;
pub mod scheme_fidelity;
pub mod scheme_fruit_salad;
pub mod scheme_monochrome;
pub mod scheme_neutral;
pub mod scheme_rainbow;
pub mod scheme_tonal_spot;
pub mod scheme_vibrant;
