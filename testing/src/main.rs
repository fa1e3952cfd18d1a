//! Builds the certificates described by lines of JSON.
use ic_certification_testing::CertificateBuilder;
use ic_crypto_tree_hash::{FlatMap, Label, LabeledTree};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn bytes(v: &Value) -> Vec<u8> {
    hex::decode(v.as_str().unwrap()).unwrap()
}

fn tree(v: &Value) -> LabeledTree<Vec<u8>> {
    match v {
        Value::String(_) => LabeledTree::Leaf(bytes(v)),
        v => LabeledTree::SubTree(v.as_object().unwrap().iter().map(|(k, t)| (Label::from(hex::decode(k).unwrap()), tree(t))).collect::<FlatMap<_, _>>()),
    }
}

fn number(v: &Value) -> u64 {
    v.as_str().unwrap().parse().unwrap()
}

fn run(c: &Value) -> Value {
    let mut b = match c.get("custom") {
        Some(t) => CertificateBuilder::from_custom_tree(tree(t)),
        None => match CertificateBuilder::new(c["canister"].as_str().unwrap(), &bytes(&c["data"])) {
            Ok(b) => b,
            Err(e) => return json!({"err": e.to_string()}),
        },
    };
    for step in c["steps"].as_array().unwrap() {
        let ranges = || step["ranges"].as_array().unwrap().iter().map(|r| (number(&r[0]), number(&r[1]))).collect::<Vec<_>>();
        match step["do"].as_str().unwrap() {
            "time" => b.with_time(step["time"].as_str().unwrap().parse().unwrap()),
            "signature" => b.with_invalid_signature(),
            "delegation" => b.with_delegation(number(&step["subnet"]), ranges()),
            _ => b.with_nested_delegation(number(&step["subnet"]), ranges()),
        };
    }
    let mut out = vec![];
    for _ in 0..2 {
        match b.build() {
            Ok(d) => out.push(json!({"certificate": hex::encode(&d.cbor_encoded_certificate), "root": hex::encode(&d.root_key),
                "signature": hex::encode(&d.certificate.signature.0), "delegated": d.certificate.delegation.is_some(), "digest": hex::encode(d.certificate.tree.digest().to_vec())})),
            Err(e) => out.push(json!({"err": e.to_string()})),
        }
    }
    json!(out)
}

fn main() {
    for line in std::io::stdin().lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let answer = std::panic::catch_unwind(|| run(&case)).unwrap_or_else(|_| json!({"panicked": true}));
        println!("{answer}");
        std::io::stdout().flush().unwrap();
    }
}
