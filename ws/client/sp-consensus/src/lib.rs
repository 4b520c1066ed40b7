pub use shim_client::*;
