pub mod alloc;
pub mod bls;
pub mod cbor;
pub mod cert;
pub mod e2e;
pub mod http;
pub mod node;
pub mod tree;

pub use cert::*;
pub use tree::*;

use sha2::{Digest, Sha256};

pub type H = [u8; 32];

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

/// Unsigned LEB128.
pub fn leb(mut v: u128) -> Vec<u8> {
    let mut out = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return out;
        }
        out.push(b | 0x80);
    }
}

pub fn hexs(b: &[u8]) -> String {
    if b.len() > 64 {
        format!("{}…({} bytes)", hex::encode(&b[..64]), b.len())
    } else {
        hex::encode(b)
    }
}
