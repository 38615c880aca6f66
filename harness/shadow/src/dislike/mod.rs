pub mod dislike_analyzer;
