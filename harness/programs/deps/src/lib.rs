//! Only here so that cargo builds what the generated programs use.
pub use {async_trait, postcard, serde, serde_json, typetag};
