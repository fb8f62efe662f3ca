pub mod checks;
pub mod checks2;
pub mod gen;
pub mod gen2;
pub mod model;
pub mod shrink;
pub mod svc;
