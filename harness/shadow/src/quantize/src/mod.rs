pub mod point_provider;
pub mod point_provider_lab;
