pub mod alloc;
pub mod comps;
pub mod groups;
pub mod arch;
