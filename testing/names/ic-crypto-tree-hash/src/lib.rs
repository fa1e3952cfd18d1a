pub use ic_standin::*;
