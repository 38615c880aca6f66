pub mod cam16;
pub mod hct;
pub mod src;
pub mod viewing_conditions;
