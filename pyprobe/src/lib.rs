//! The Python package, built from the current tree: the extension module of the polymers crate.
pub use polymers::py::polymers as module;
