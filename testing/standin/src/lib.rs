//! What the testing package uses of ic-types, ic-crypto-tree-hash, ic-crypto-internal-* and serde-wasm-bindgen.
use serde::{ser::SerializeSeq, Serialize, Serializer};
use sha2::{Digest as _, Sha256};
use std::collections::BTreeMap;

/// serde-wasm-bindgen
#[derive(Debug)]
pub struct Error;

fn hash(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    parts.iter().for_each(|p| h.update(p));
    h.finalize().into()
}

// ic-crypto-tree-hash

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Label(Vec<u8>);
impl Label {
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}
impl<T: AsRef<[u8]>> From<T> for Label {
    fn from(x: T) -> Label {
        Label(x.as_ref().to_vec())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FlatMap<K: Ord, V>(BTreeMap<K, V>);
impl<K: Ord, V> FlatMap<K, V> {
    pub fn new() -> Self {
        FlatMap(BTreeMap::new())
    }
    pub fn from_key_values(v: Vec<(K, V)>) -> Self {
        FlatMap(v.into_iter().collect())
    }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&K, &V)> + '_ {
        self.0.iter()
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        self.0.get(k)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> + '_ {
        self.0.keys()
    }
    pub fn values(&self) -> impl Iterator<Item = &V> + '_ {
        self.0.values()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        self.0.insert(k, v)
    }
    pub fn try_append(&mut self, k: K, v: V) -> Result<(), (K, V)> {
        if self.0.last_key_value().is_some_and(|l| *l.0 >= k) {
            return Err((k, v));
        }
        self.0.insert(k, v);
        Ok(())
    }
}
impl<K: Ord, V> Default for FlatMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Ord, V> FromIterator<(K, V)> for FlatMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        FlatMap(i.into_iter().collect())
    }
}
impl<K: Ord, V> IntoIterator for FlatMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::collections::btree_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
#[macro_export]
macro_rules! flatmap {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::FlatMap::from_key_values(vec![$(($k, $v)),*]) };
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum LabeledTree<T> {
    Leaf(T),
    SubTree(FlatMap<Label, LabeledTree<T>>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Digest(pub [u8; 32]);
impl Digest {
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.to_vec()
    }
}
impl AsRef<[u8]> for Digest {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Debug)]
pub enum TreeHashError {
    InconsistentPartialTree,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MixedHashTree {
    Empty,
    Fork(Box<(MixedHashTree, MixedHashTree)>),
    Labeled(Label, Box<MixedHashTree>),
    Leaf(Vec<u8>),
    Pruned(Digest),
}
impl MixedHashTree {
    pub fn digest(&self) -> Digest {
        Digest(match self {
            Self::Empty => hash(&[b"\x11ic-hashtree-empty"]),
            Self::Fork(c) => hash(&[b"\x10ic-hashtree-fork", c.0.digest().as_bytes(), c.1.digest().as_bytes()]),
            Self::Labeled(l, t) => hash(&[b"\x13ic-hashtree-labeled", &l.0, t.digest().as_bytes()]),
            Self::Leaf(v) => hash(&[b"\x10ic-hashtree-leaf", v]),
            Self::Pruned(d) => d.0,
        })
    }
}
impl Serialize for MixedHashTree {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde_bytes::Bytes;
        let n = match self {
            Self::Empty => 1,
            Self::Fork(_) | Self::Labeled(..) => 3,
            _ => 2,
        };
        let mut seq = s.serialize_seq(Some(n))?;
        match self {
            Self::Empty => seq.serialize_element(&0u8)?,
            Self::Fork(c) => {
                seq.serialize_element(&1u8)?;
                seq.serialize_element(&c.0)?;
                seq.serialize_element(&c.1)?;
            }
            Self::Labeled(l, t) => {
                seq.serialize_element(&2u8)?;
                seq.serialize_element(Bytes::new(&l.0))?;
                seq.serialize_element(t)?;
            }
            Self::Leaf(v) => {
                seq.serialize_element(&3u8)?;
                seq.serialize_element(Bytes::new(v))?;
            }
            Self::Pruned(d) => {
                seq.serialize_element(&4u8)?;
                seq.serialize_element(Bytes::new(&d.0))?;
            }
        }
        seq.end()
    }
}

/// What a builder has been told, as a tree.
#[derive(Clone, Debug)]
enum Told {
    Leaf(Vec<u8>),
    Sub(Vec<(Label, Option<Told>)>),
}
fn forest(v: &[(Label, MixedHashTree)]) -> MixedHashTree {
    match v {
        [] => MixedHashTree::Empty,
        [(l, t)] => MixedHashTree::Labeled(l.clone(), Box::new(t.clone())),
        _ => {
            let mut level: Vec<MixedHashTree> = v.iter().map(|x| forest(std::slice::from_ref(x))).collect();
            while level.len() > 1 {
                level = level
                    .chunks(2)
                    .map(|c| match c {
                        [a, b] => MixedHashTree::Fork(Box::new((a.clone(), b.clone()))),
                        c => c[0].clone(),
                    })
                    .collect();
            }
            level.pop().unwrap()
        }
    }
}

pub trait HashTreeBuilder {
    type WitnessGenerator;
    fn start_leaf(&mut self);
    fn write_leaf<T: AsRef<[u8]>>(&mut self, bytes: T);
    fn finish_leaf(&mut self);
    fn start_subtree(&mut self);
    fn new_edge<T: Into<Label>>(&mut self, label: T);
    fn finish_subtree(&mut self);
    fn witness_generator(&self) -> Option<Self::WitnessGenerator>;
}

#[derive(Default)]
pub struct HashTreeBuilderImpl {
    open: Vec<Told>,
    done: Option<Told>,
}
impl HashTreeBuilderImpl {
    pub fn new() -> Self {
        Self::default()
    }
    fn finish(&mut self) {
        let t = self.open.pop().expect("nothing to finish");
        match self.open.last_mut() {
            None => self.done = Some(t),
            Some(Told::Sub(v)) => {
                let last = &mut v.last_mut().expect("no edge").1;
                assert!(last.is_none(), "an edge with two trees");
                *last = Some(t);
            }
            Some(_) => panic!("a tree in a leaf"),
        }
    }
}
impl HashTreeBuilder for HashTreeBuilderImpl {
    type WitnessGenerator = WitnessGeneratorImpl;
    fn start_leaf(&mut self) {
        self.open.push(Told::Leaf(vec![]));
    }
    fn write_leaf<T: AsRef<[u8]>>(&mut self, bytes: T) {
        match self.open.last_mut() {
            Some(Told::Leaf(v)) => v.extend(bytes.as_ref()),
            _ => panic!("not in a leaf"),
        }
    }
    fn finish_leaf(&mut self) {
        assert!(matches!(self.open.last(), Some(Told::Leaf(_))));
        self.finish();
    }
    fn start_subtree(&mut self) {
        self.open.push(Told::Sub(vec![]));
    }
    fn new_edge<T: Into<Label>>(&mut self, label: T) {
        match self.open.last_mut() {
            Some(Told::Sub(v)) => {
                let label = label.into();
                assert!(v.last().map_or(true, |l| l.0 < label), "edges out of order");
                v.push((label, None));
            }
            _ => panic!("not in a subtree"),
        }
    }
    fn finish_subtree(&mut self) {
        assert!(matches!(self.open.last(), Some(Told::Sub(_))));
        self.finish();
    }
    fn witness_generator(&self) -> Option<WitnessGeneratorImpl> {
        self.done.clone().map(WitnessGeneratorImpl)
    }
}

pub trait WitnessGenerator {
    fn mixed_hash_tree(&self, partial: &LabeledTree<Vec<u8>>) -> Result<MixedHashTree, TreeHashError>;
}
pub struct WitnessGeneratorImpl(Told);
fn mixed(t: &Told, partial: Option<&LabeledTree<Vec<u8>>>) -> Result<MixedHashTree, TreeHashError> {
    let whole = match t {
        Told::Leaf(v) => match partial {
            None => MixedHashTree::Leaf(v.clone()),
            Some(LabeledTree::Leaf(p)) if p == v => MixedHashTree::Leaf(v.clone()),
            Some(_) => return Err(TreeHashError::InconsistentPartialTree),
        },
        Told::Sub(es) => {
            let wanted = match partial {
                None => None,
                Some(LabeledTree::SubTree(m)) => Some(m),
                Some(_) => return Err(TreeHashError::InconsistentPartialTree),
            };
            if wanted.is_some_and(|m| m.keys().any(|k| !es.iter().any(|e| e.0 == *k))) {
                return Err(TreeHashError::InconsistentPartialTree);
            }
            let mut v = vec![];
            for (l, t) in es {
                v.push((l.clone(), mixed(t.as_ref().expect("an edge without a tree"), wanted.and_then(|m| m.get(l)))?));
            }
            forest(&v)
        }
    };
    Ok(if partial.is_some() { whole } else { MixedHashTree::Pruned(whole.digest()) })
}
impl WitnessGenerator for WitnessGeneratorImpl {
    fn mixed_hash_tree(&self, partial: &LabeledTree<Vec<u8>>) -> Result<MixedHashTree, TreeHashError> {
        mixed(&self.0, Some(partial))
    }
}

// ic-types

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PrincipalId(candid::Principal);
impl PrincipalId {
    pub fn new_subnet_test_id(i: u64) -> Self {
        let mut b = i.to_le_bytes().to_vec();
        b.push(0xfd);
        PrincipalId(candid::Principal::from_slice(&b))
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.as_slice().to_vec()
    }
    pub fn as_slice(&self) -> &[u8] {
        self.0.as_slice()
    }
    pub fn into_vec(self) -> Vec<u8> {
        self.to_vec()
    }
}
impl Serialize for PrincipalId {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0.as_slice())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize)]
#[serde(transparent)]
pub struct CanisterId(PrincipalId);
impl CanisterId {
    pub fn from_u64(i: u64) -> Self {
        let mut b = i.to_be_bytes().to_vec();
        b.extend([1, 1]);
        CanisterId(PrincipalId(candid::Principal::from_slice(&b)))
    }
    pub fn get(self) -> PrincipalId {
        self.0
    }
    pub fn get_ref(&self) -> &PrincipalId {
        &self.0
    }
}
impl std::str::FromStr for CanisterId {
    type Err = candid::types::principal::PrincipalError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        candid::Principal::from_text(s).map(|p| CanisterId(PrincipalId(p)))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize)]
#[serde(transparent)]
pub struct SubnetId(PrincipalId);
impl From<PrincipalId> for SubnetId {
    fn from(p: PrincipalId) -> Self {
        SubnetId(p)
    }
}
impl SubnetId {
    pub fn get(self) -> PrincipalId {
        self.0
    }
    pub fn get_ref(&self) -> &PrincipalId {
        &self.0
    }
}

pub struct NumberOfNodes;
impl NumberOfNodes {
    pub fn new(_: u32) -> Self {
        NumberOfNodes
    }
}

pub struct CryptoHashOfPartialState(Vec<u8>);
impl From<crypto::CryptoHash> for CryptoHashOfPartialState {
    fn from(h: crypto::CryptoHash) -> Self {
        CryptoHashOfPartialState(h.0)
    }
}

pub mod crypto {
    #[derive(Clone, Debug)]
    pub struct CryptoHash(pub Vec<u8>);
    #[derive(Clone, Debug)]
    pub struct CombinedThresholdSig(pub Vec<u8>);
    #[derive(Clone, Debug)]
    pub struct CombinedThresholdSigOf<T>(T);
    impl<T> From<T> for CombinedThresholdSigOf<T> {
        fn from(t: T) -> Self {
            Self(t)
        }
    }
    impl<T> CombinedThresholdSigOf<T> {
        pub fn get(self) -> T {
            self.0
        }
    }
    pub trait Signable {
        fn as_signed_bytes(&self) -> Vec<u8>;
    }
    pub mod threshold_sig {
        use crate::sign::threshold_sig::public_key::CspThresholdSigPublicKey;
        pub struct ThresholdSigPublicKey([u8; 96]);
        impl From<CspThresholdSigPublicKey> for ThresholdSigPublicKey {
            fn from(k: CspThresholdSigPublicKey) -> Self {
                Self(k.0 .0)
            }
        }
        impl ThresholdSigPublicKey {
            pub fn into_bytes(self) -> [u8; 96] {
                self.0
            }
        }
    }
}

pub mod messages {
    use serde::{Serialize, Serializer};
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Blob(pub Vec<u8>);
    impl Serialize for Blob {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_bytes(&self.0)
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize)]
    pub struct Certificate {
        pub tree: crate::MixedHashTree,
        pub signature: Blob,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub delegation: Option<CertificateDelegation>,
    }
    #[derive(Clone, Debug, PartialEq, Eq, Serialize)]
    pub struct CertificateDelegation {
        pub subnet_id: Blob,
        pub certificate: Blob,
    }
}

pub mod consensus {
    pub mod certification {
        pub struct CertificationContent(crate::CryptoHashOfPartialState);
        impl CertificationContent {
            pub fn new(h: crate::CryptoHashOfPartialState) -> Self {
                Self(h)
            }
        }
        impl crate::crypto::Signable for CertificationContent {
            fn as_signed_bytes(&self) -> Vec<u8> {
                [b"\x0dic-state-root", &self.0 .0[..]].concat()
            }
        }
    }
}

// ic-crypto-internal-*

pub struct Seed(Vec<u8>);
impl Seed {
    pub fn from_bytes(b: &[u8]) -> Self {
        Seed(b.to_vec())
    }
}

pub mod sign {
    pub mod threshold_sig {
        pub mod public_key {
            pub struct CspThresholdSigPublicKey(pub bls12_381::PublicKeyBytes);
            impl From<bls12_381::PublicKeyBytes> for CspThresholdSigPublicKey {
                fn from(k: bls12_381::PublicKeyBytes) -> Self {
                    Self(k)
                }
            }
            pub mod bls12_381 {
                #[derive(Clone, Copy, Debug)]
                pub struct PublicKeyBytes(pub [u8; 96]);
            }
        }
    }
}

pub mod types {
    #[derive(Clone, Debug)]
    pub struct SecretKeyBytes(pub(crate) [u8; 48]);
    #[derive(Clone, Debug)]
    pub struct IndividualSignatureBytes(pub [u8; 48]);
}

pub mod api {
    use crate::sign::threshold_sig::public_key::bls12_381::PublicKeyBytes;
    use crate::types::*;
    use miracl_core_bls12381::bls12381::bls;
    pub mod threshold_sign_error {
        #[derive(Debug)]
        pub struct ClibThresholdSignError;
    }
    pub struct PublicCoefficientsBytes([u8; 96]);
    pub fn generate_threshold_key(
        seed: crate::Seed,
        _: crate::NumberOfNodes,
        _: crate::NumberOfNodes,
    ) -> Result<(PublicCoefficientsBytes, Vec<SecretKeyBytes>), ()> {
        let (mut sk, mut pk) = ([0u8; 48], [0u8; 96]);
        let seed = crate::hash(&[&seed.0]);
        bls::key_pair_generate(&seed, &mut sk, &mut pk);
        Ok((PublicCoefficientsBytes(pk), vec![SecretKeyBytes(sk)]))
    }
    pub fn combined_public_key(c: &PublicCoefficientsBytes) -> Result<PublicKeyBytes, ()> {
        Ok(PublicKeyBytes(c.0))
    }
    pub fn public_key_to_der(k: PublicKeyBytes) -> Result<Vec<u8>, ()> {
        let prefix = b"\x30\x81\x82\x30\x1d\x06\x0d\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x01\x02\x01\x06\x0c\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x02\x01\x03\x61\x00";
        Ok([&prefix[..], &k.0[..]].concat())
    }
    pub fn sign_message(m: &[u8], k: &SecretKeyBytes) -> Result<IndividualSignatureBytes, threshold_sign_error::ClibThresholdSignError> {
        let mut sig = [0u8; 48];
        bls::core_sign(&mut sig, m, &k.0);
        Ok(IndividualSignatureBytes(sig))
    }
}
