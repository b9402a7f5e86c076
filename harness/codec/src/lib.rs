//! The wire format model and what it takes to compare the code under test with it.
pub mod decode_props;
pub mod encode_props;
pub mod equal_props;
pub mod gen;
pub mod spec;
pub mod subject;
pub mod value_props;
