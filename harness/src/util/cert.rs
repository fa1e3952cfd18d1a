//! Certificates the harness issues: state trees signed with its own BLS keys.
use super::{bls, cbor, fork, label, leaf, leb, T};

pub const NOW: u128 = 1_700_000_000_000_000_000;
pub const OFFSET: u128 = 300_000_000_000;

pub fn root_message(h: &[u8; 32]) -> Vec<u8> {
    [b"\x0Dic-state-root".as_slice(), h].concat()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Deleg {
    pub subnet_id: Vec<u8>,
    /// CBOR of the delegation's certificate
    pub certificate: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cert {
    pub tree: T,
    pub signature: Vec<u8>,
    pub delegation: Option<Deleg>,
}

impl Cert {
    pub fn cbor(&self) -> Vec<u8> {
        let mut o = vec![];
        cbor::self_describe(&mut o);
        cbor::map(&mut o, if self.delegation.is_some() { 3 } else { 2 });
        cbor::text(&mut o, "tree");
        self.tree.cbor_into(&mut o);
        cbor::text(&mut o, "signature");
        cbor::bytes(&mut o, &self.signature);
        if let Some(d) = &self.delegation {
            cbor::text(&mut o, "delegation");
            cbor::map(&mut o, 2);
            cbor::text(&mut o, "subnet_id");
            cbor::bytes(&mut o, &d.subnet_id);
            cbor::text(&mut o, "certificate");
            cbor::bytes(&mut o, &d.certificate);
        }
        o
    }
    pub fn to_ic(&self) -> ic_certification::Certificate {
        ic_certification::Certificate {
            tree: self.tree.to_ic(),
            signature: self.signature.clone(),
            delegation: self.delegation.as_ref().map(|d| ic_certification::Delegation {
                subnet_id: d.subnet_id.clone(),
                certificate: d.certificate.clone(),
            }),
        }
    }
}

pub fn sign_tree(tree: T, key: usize, delegation: Option<Deleg>) -> Cert {
    let signature = bls::key(key).sign(&root_message(&tree.digest()));
    Cert {
        tree,
        signature,
        delegation,
    }
}

/// canister/<id>/certified_data and time.
pub fn state_tree(canister: &[u8], data: &[u8], time: u128) -> T {
    fork(
        label(
            "canister",
            label(canister, label("certified_data", leaf(data))),
        ),
        label("time", leaf(leb(time))),
    )
}

pub fn ranges_cbor(ranges: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    cbor::self_describe(&mut o);
    cbor::array(&mut o, ranges.len());
    for (a, b) in ranges {
        cbor::array(&mut o, 2);
        cbor::bytes(&mut o, a);
        cbor::bytes(&mut o, b);
    }
    o
}

/// subnet/<id>/{canister_ranges, public_key} and time.
pub fn subnet_tree(subnet: &[u8], ranges: &[u8], der: &[u8], time: u128) -> T {
    fork(
        label(
            "subnet",
            label(
                subnet,
                fork(
                    label("canister_ranges", leaf(ranges)),
                    label("public_key", leaf(der)),
                ),
            ),
        ),
        label("time", leaf(leb(time))),
    )
}

/// A plain certificate for certified data, signed by root key 0.
pub fn simple_cert(canister: &[u8], data: &[u8], time: u128) -> Cert {
    sign_tree(state_tree(canister, data, time), 0, None)
}
