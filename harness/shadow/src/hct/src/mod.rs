pub mod hct_solver;
