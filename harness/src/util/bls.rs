//! BLS keys and signatures for the certificates the harness issues.
use miracl_core_bls12381::bls12381::bls;
use std::sync::OnceLock;

pub const DER_PREFIX: &[u8; 37] = b"\x30\x81\x82\x30\x1d\x06\x0d\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x01\x02\x01\x06\x0c\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x02\x01\x03\x61\x00";

#[derive(Clone)]
pub struct Key {
    sk: [u8; 48],
    pub pk: [u8; 96],
}

impl Key {
    fn new(i: u8) -> Key {
        let mut sk = [0u8; 48];
        let mut pk = [0u8; 96];
        bls::key_pair_generate(&[i.wrapping_add(7); 32], &mut sk, &mut pk);
        Key { sk, pk }
    }
    pub fn sign(&self, msg: &[u8]) -> Vec<u8> {
        let mut sig = [0u8; 48];
        bls::core_sign(&mut sig, msg, &self.sk);
        sig.to_vec()
    }
    pub fn der(&self) -> Vec<u8> {
        [&DER_PREFIX[..], &self.pk[..]].concat()
    }
}

/// A fixed set of key pairs: 0 and 1 are roots, 2.. are subnets.
pub fn key(i: usize) -> &'static Key {
    static KEYS: OnceLock<Vec<Key>> = OnceLock::new();
    &KEYS.get_or_init(|| (0..6).map(Key::new).collect())[i]
}
