pub mod groth;
pub mod lay;
pub mod pose;
pub mod wire;
pub mod world;
pub use lay::*;
pub use pose::*;
pub use svm::*;
pub use wire::*;
pub use world::*;
