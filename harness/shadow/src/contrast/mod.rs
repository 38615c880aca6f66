pub mod contrast;
