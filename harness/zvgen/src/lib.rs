//! Independent generators and reference models for the formats under test. Nothing here depends
//! on the code under test.
pub mod corpus;
pub mod deflate;
pub mod jpeg;
pub mod png;
pub mod raster;
