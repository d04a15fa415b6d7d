pub mod alloc;
#[macro_use]
pub mod engine;
pub mod gen;
pub mod interp;
pub mod model;
pub mod refparse;
pub mod sites;
pub mod checks;
