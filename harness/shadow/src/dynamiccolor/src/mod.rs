pub mod contrast_curve;
pub mod tone_delta_pair;
