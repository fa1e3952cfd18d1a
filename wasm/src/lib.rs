pub use ic_response_verification_wasm::*;
