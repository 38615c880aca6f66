pub mod temperature_cache;
