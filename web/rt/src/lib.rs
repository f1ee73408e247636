//! The part of a browser that the application uses: values, promises, an event loop and the file system access API.
pub mod disk;
pub mod value;
pub mod world;
pub use value::*;
