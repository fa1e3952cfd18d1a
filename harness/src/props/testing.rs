//! C37: the package that builds certificates for tests, with stand-ins for the packages of dfinity/ic it uses.
use crate::{engine::*, ensure, util::*};
use ic_certificate_verification::{CertificateVerificationError as E, VerifyCertificate};
use ic_cbor::CertificateToCbor;
use ic_certification as ic;
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// A tree of labels as it is given to the package.
enum Tree {
    Leaf(Vec<u8>),
    Sub(BTreeMap<Vec<u8>, Tree>),
}

impl Tree {
    fn gen(cx: &mut Cx, depth: usize) -> Tree {
        if depth == 0 || cx.chance(1, 3) {
            return Tree::Leaf(gen_value(cx));
        }
        let n = cx.vec(6, 2, |cx| (gen_key(cx), Tree::gen(cx, depth - 1)));
        Tree::Sub(n.into_iter().collect())
    }
    fn json(&self) -> Value {
        match self {
            Tree::Leaf(v) => json!(hex::encode(v)),
            Tree::Sub(m) => Value::Object(m.iter().map(|(k, t)| (hex::encode(k), t.json())).collect()),
        }
    }
    fn leaves(&self, path: &mut Vec<Vec<u8>>, out: &mut BTreeMap<Vec<Vec<u8>>, Vec<u8>>) {
        match self {
            Tree::Leaf(v) => {
                out.insert(path.clone(), v.clone());
            }
            Tree::Sub(m) => m.iter().for_each(|(k, t)| {
                path.push(k.clone());
                t.leaves(path, out);
                path.pop();
            }),
        }
    }
}

fn canister_bytes(i: u64) -> Vec<u8> {
    [&i.to_be_bytes()[..], &[1, 1]].concat()
}

fn gen_number(cx: &mut Cx) -> u64 {
    match cx.weighted(&[6, 2, 1, 1]) {
        0 => cx.draw(12),
        1 => 1 << cx.draw(64),
        2 => u64::MAX - cx.draw(3),
        _ => cx.u64(),
    }
}

fn field(v: &Value, name: &str) -> Result<Vec<u8>, Fail> {
    match v[name].as_str().and_then(|s| hex::decode(s).ok()) {
        Some(b) => Ok(b),
        None => Err(Fail { kind: "refused".into(), msg: format!("the package refused to build: {v}"), sig: None }),
    }
}

/// All leaves of a certificate's tree.
fn leaves_of(t: &T) -> BTreeMap<Vec<Vec<u8>>, Vec<u8>> {
    fn go(t: &T, p: &mut Vec<Vec<u8>>, out: &mut BTreeMap<Vec<Vec<u8>>, Vec<u8>>) {
        match t {
            T::Fork(l, r) => {
                go(l, p, out);
                go(r, p, out);
            }
            T::Label(l, t) => {
                p.push(l.clone());
                go(t, p, out);
                p.pop();
            }
            T::Leaf(v) => {
                out.insert(p.clone(), v.clone());
            }
            _ => {}
        }
    }
    let mut out = BTreeMap::new();
    go(t, &mut vec![], &mut out);
    out
}

fn builder(cx: &mut Cx) -> Res {
    let own = gen_number(cx);
    let canister = canister_bytes(own);
    let data = match cx.draw(3) {
        0 => gen_value(cx),
        _ => cx.blob(32),
    };
    let custom = cx.chance(1, 3).then(|| Tree::gen(cx, 3));
    let (mut time, mut subnet, mut nested, mut spoiled) = (None, None, false, false);
    let n = cx.draw(5);
    let mut steps = vec![];
    for _ in 0..n {
        match cx.weighted(&[4, 4, 2, 1]) {
            0 => {
                let t = gen_number(cx);
                time = Some(t);
                steps.push(json!({"do": "time", "time": t.to_string()}));
            }
            k @ (1 | 2) => {
                let id = gen_number(cx);
                let n = if cx.chance(1, 20) { cx.size(200) as u64 } else { cx.draw(4) };
                let ranges: Vec<(u64, u64)> = (0..n)
                    .map(|_| match cx.weighted(&[2, 2, 1, 1]) {
                        0 => (gen_number(cx), gen_number(cx)),
                        1 => (own, own.saturating_add(cx.draw(3))),
                        2 => (own.saturating_sub(cx.draw(3)), own),
                        _ => (own.saturating_add(1), u64::MAX),
                    })
                    .collect();
                let shown: Vec<_> = ranges.iter().map(|r| json!([r.0.to_string(), r.1.to_string()])).collect();
                steps.push(json!({"do": if k == 1 { "delegation" } else { "nested" }, "subnet": id.to_string(), "ranges": shown}));
                if k == 1 {
                    subnet = Some((id, ranges));
                } else {
                    nested = true;
                }
            }
            _ => {
                spoiled = true;
                steps.push(json!({"do": "signature"}));
            }
        }
    }
    let text = candid::Principal::from_slice(&canister).to_text();
    let bad_text = custom.is_none() && cx.chance(1, 8);
    let text = match bad_text {
        false => text,
        true => match cx.draw(3) {
            0 => text[1..].to_string(),
            1 => text.replace('-', ""),
            _ => format!("{text}x"),
        },
    };
    let bad_text = bad_text && candid::Principal::from_text(&text).is_err();
    let case = match &custom {
        Some(t) => json!({"custom": t.json(), "steps": steps}),
        None => json!({"canister": text, "data": hex::encode(&data), "steps": steps}),
    };
    cx.note(|| case.to_string());
    let Some(out) = node::ask("certtesting", "", &case) else {
        return fail("ended", "the builder ended without an answer");
    };
    ensure!(out.get("panicked").is_none(), "panic", "the builder panicked");
    if bad_text {
        cx.label("text of no canister");
        ensure!(out["err"].as_str().is_some_and(|e| e.contains("canister ID")), "bad-text", "the text {text:?} of a canister: {out}");
        return Ok(());
    }
    cx.label(if custom.is_some() { "custom tree" } else { "certified data" });
    cx.nontrivial();
    ensure!(out.is_array(), "refused", "the builder: {out}");
    let mut roots = vec![];
    for v in out.as_array().unwrap() {
        let bytes = field(v, "certificate")?;
        let root = field(v, "root")?;
        let c = match ic::Certificate::from_cbor(&bytes) {
            Ok(c) => c,
            Err(e) => return fail("encoding", format!("the certificate does not decode: {e:?}")),
        };
        let t = T::of_tree(&c.tree);
        ensure!(c.signature == field(v, "signature")?, "parts", "the encoded certificate has another signature");
        ensure!(t.digest().to_vec() == field(v, "digest")?, "parts", "the encoded certificate has another tree");
        ensure!(c.delegation.is_some() == (v["delegated"] == true), "parts", "the delegation is not in the encoded certificate");
        // the tree
        let shown = leaves_of(&t);
        let mut want = BTreeMap::new();
        match &custom {
            Some(c) => {
                c.leaves(&mut vec![], &mut want);
            }
            None => {
                want.insert(vec![b"canister".to_vec(), canister.clone(), b"certified_data".to_vec()], data.clone());
                // what time it is when none is given, is for the package to choose
                let at = shown.get(&vec![b"time".to_vec()]).cloned().unwrap_or_default();
                want.insert(vec![b"time".to_vec()], time.map_or(at, |t| leb(t as u128)));
            }
        }
        ensure!(shown == want, "tree", "the certificate's tree is {t:?}");
        ensure!(t.pruned_nodes() == 0, "tree", "parts are hidden: {t:?}");
        // the delegation
        match &c.delegation {
            None => ensure!(subnet.is_none(), "delegation", "no delegation though one was asked for"),
            Some(d) => {
                let Some((id, ranges)) = &subnet else {
                    return fail("delegation", "a delegation nobody asked for");
                };
                let Ok(i) = ic::Certificate::from_cbor(&d.certificate) else {
                    return fail("delegation", "the delegation does not decode");
                };
                let it = leaves_of(&T::of_tree(&i.tree));
                ensure!(it.len() == 3, "delegation", "the delegation holds {:?}", i.tree);
                let at = |name: &str| it.get(&vec![b"subnet".to_vec(), d.subnet_id.clone(), name.as_bytes().to_vec()]);
                let bytes: Vec<_> = ranges.iter().map(|r| (canister_bytes(r.0), canister_bytes(r.1))).collect();
                ensure!(at("canister_ranges") == Some(&cert::ranges_cbor(&bytes)), "delegation", "subnet {id} may speak for {:?}", at("canister_ranges").map(hex::encode));
                ensure!(at("public_key").is_some_and(|k| k.len() == 133), "delegation", "the delegation of {id} has no key");
                if let Some(t) = time {
                    ensure!(it.get(&vec![b"time".to_vec()]) == Some(&leb(t as u128)), "delegation", "the delegation is of another time");
                }
                ensure!(i.delegation.is_some() == nested, "delegation", "nested: {nested}");
            }
        }
        // what the verifier says
        let at = shown.get(&vec![b"time".to_vec()]).and_then(|b| leb128::read::unsigned(&mut &b[..]).ok());
        if let (None, Some(now)) = (&custom, at) {
            let inside = subnet.as_ref().map_or(true, |(_, r)| r.iter().any(|r| r.0 <= own && own <= r.1));
            let two = subnet.is_some() && nested;
            let say = |canister: &[u8], root: &[u8]| no_panic(|| c.verify(canister, root, &(now as u128), &0));
            let r = match say(&canister, &root) {
                Ok(r) => r,
                Err(p) => return fail("panic", format!("verify panicked: {p}")),
            };
            let good = inside && !two && !spoiled;
            cx.label(match (good, two, spoiled, subnet.is_some()) {
                (true, _, _, true) => "verified with its delegation",
                (true, ..) => "verified",
                (_, true, ..) => "nested delegation",
                (_, _, true, _) => "invalid signature",
                _ => "outside the ranges",
            });
            ensure!(r.is_ok() == good, "verdict", "expected {}, the verifier: {r:?}", if good { "a valid certificate" } else { "an invalid certificate" });
            if two && r.is_err() && !spoiled {
                ensure!(matches!(r, Err(E::CertificateHasTooManyDelegations)), "verdict", "a nested delegation: {r:?}");
            }
            if good {
                let other = bls::key(0).der();
                ensure!(!matches!(say(&canister, &other), Ok(Ok(()))), "root", "valid under another root key");
            }
        }
        roots.push(root);
    }
    ensure!(roots.len() == 2 && roots[0] != roots[1], "keys", "two builds have the same key");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C37",
        rule: "a certificate was built",
        assumptions: &[
            "the packages of dfinity/ic that the package uses, not available offline, are replaced by stand-ins: what they do is not tested",
            "times are below 2^64",
        ],
        subs: vec![sub("builder", 1_500, 20_000, builder)],
    }]
}
