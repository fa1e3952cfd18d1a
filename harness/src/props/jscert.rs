//! C33: the JavaScript package that verifies certified trees, with stand-ins for the packages it builds on.
use crate::{engine::*, ensure, util::*};
use serde_json::{json, Value};

fn sign(key: &[u8], tree: &T) -> Vec<u8> {
    sha(&[b"toy", key, &cert::root_message(&tree.digest())]).to_vec()
}

fn shown(t: &T) -> Value {
    match t {
        T::Empty => json!([0]),
        T::Fork(l, r) => json!([1, shown(l), shown(r)]),
        T::Label(l, t) => json!([2, hex::encode(l), shown(t)]),
        T::Leaf(v) => json!([3, hex::encode(v)]),
        T::Pruned(h) => json!([4, hex::encode(h)]),
    }
}

/// Hides random parts that are not on the paths.
fn view(cx: &mut Cx, t: &T, keep: &[Vec<Vec<u8>>]) -> T {
    if keep.is_empty() && cx.bool() {
        return T::Pruned(t.digest());
    }
    match t {
        T::Fork(l, r) => {
            let side = |x: &T| {
                let names = x.all_paths();
                keep.iter().filter(|k| k.first().is_some_and(|f| names.iter().any(|n| n.first() == Some(f)))).cloned().collect::<Vec<_>>()
            };
            let (kl, kr) = (side(l), side(r));
            fork(view(cx, l, &kl), view(cx, r, &kr))
        }
        T::Label(l, t) => {
            let k: Vec<_> = keep.iter().filter(|k| k.first() == Some(l) && k.len() > 1).map(|k| k[1..].to_vec()).collect();
            let whole = keep.iter().any(|k| k.len() == 1 && k[0] == *l);
            label(l, if whole { (**t).clone() } else { view(cx, t, &k) })
        }
        t => t.clone(),
    }
}

#[derive(Clone)]
struct Case {
    json: Value,
    tree: T,
    /// what is wrong: the certificate itself, its time, or the tree
    cert: Vec<&'static str>,
    time: bool,
    bad_tree: Vec<&'static str>,
    /// within a millisecond of the edge
    edge: bool,
    /// does not even decode
    cut: bool,
}

fn gen_case(cx: &mut Cx, now: i64) -> Case {
    let sabotage = cx.bool();
    let bad = |cx: &mut Cx, den: u64| sabotage && cx.chance(1, den);
    let (mut reasons, mut bad_tree) = (vec![], vec![]);
    let offset = match cx.weighted(&[3, 2, 1, 1]) {
        0 => 300_000,
        1 => cx.draw(5) as i64,
        2 => cx.draw(100_000) as i64,
        _ => 4_000_000_000_000,
    };
    // certificate times in milliseconds, and the part below one
    let ms = match cx.weighted(&[4, 3, 3, 2, 2, 1]) {
        0 => now,
        1 => now - offset + cx.draw(3) as i64,
        2 => now + offset - cx.draw(3) as i64,
        3 => now - offset - 1 - cx.draw(3) as i64,
        4 => now + offset + 1 + cx.draw(3) as i64,
        _ => cx.draw(1 << 42) as i64,
    }
    .max(0);
    let below = if cx.bool() { 0 } else { cx.draw(1_000_000) as u128 };
    let ns = ms as u128 * 1_000_000 + below;
    let edge = below != 0 && (ms == now - offset - 1 || ms == now + offset);
    let late = ms < now - offset || ms > now + offset;

    let tree = {
        let depth = if cx.chance(1, 30) { 7 } else { 3 };
        let t = gen_tree(cx, depth, true);
        let num = *cx.pick(&[0u64, 0, 1, 3]);
        t.prune(cx, num)
    };
    let hash = tree.digest().to_vec();
    let canister = vec![0, 0, 0, 0, 0, 0, cx.draw(3) as u8, cx.draw(3) as u8, 1, 1];
    let other = {
        let mut c = canister.clone();
        c[7] ^= 1;
        c
    };
    let data = if bad(cx, 3) {
        bad_tree.push("other data is certified");
        match cx.draw(6) {
            0 => hash[..cx.draw(32) as usize].to_vec(),
            1 => [hash.clone(), vec![cx.draw(256) as u8]].concat(),
            2 => {
                let mut h = hash.clone();
                h[cx.draw(32) as usize] ^= 1 << cx.draw(8);
                h
            }
            3 => hash.iter().rev().copied().chain([0]).collect(),
            4 => cx.blob(32),
            _ => {
                // the hash of a tree that is close
                let t = fork(tree.clone(), T::Empty);
                t.digest().to_vec()
            }
        }
    } else {
        hash.clone()
    };
    let mut of_canister = vec![(b"certified_data".to_vec(), leaf(data))];
    if cx.bool() {
        let names: [&[u8]; 4] = [b"module_hash", b"controllers", b"certified_dat", b"certified_data2"];
        let name = *cx.pick(&names);
        of_canister.push((name.to_vec(), leaf(if cx.bool() { hash.clone() } else { cx.blob(32) })));
    }
    if bad(cx, 8) {
        of_canister.remove(0);
        if bad_tree.is_empty() {
            bad_tree.push("nothing is certified");
        }
    }
    let forest = |cx: &mut Cx, mut items: Vec<(Vec<u8>, T)>| {
        items.sort_by(|a, b| a.0.cmp(&b.0));
        items.dedup_by(|a, b| a.0 == b.0);
        let items = items.into_iter().map(|(k, t)| label(k, t)).collect();
        let empties = cx.chance(1, 4);
        gen_forest(cx, items, empties)
    };
    let mut canisters = vec![];
    let mine = forest(cx, of_canister);
    if bad(cx, 8) {
        bad_tree.push("certified for another canister");
        canisters.push((other.clone(), mine));
    } else {
        canisters.push((canister.clone(), mine));
        if cx.chance(1, 3) {
            canisters.push((other.clone(), label("certified_data", leaf(cx.blob(32)))));
        }
        if cx.chance(1, 30) {
            for i in 0..cx.size(120) {
                canisters.push((vec![0, 0, 0, 0, 0, 1, i as u8, 0, 1, 1], label("certified_data", leaf(cx.blob(32)))));
            }
        }
    }
    let canisters = forest(cx, canisters);
    let mut state = vec![(b"canister".to_vec(), canisters)];
    match if bad(cx, 10) { cx.draw(3) } else { 9 } {
        0 => reasons.push("no time"),
        1 => {
            reasons.push("an endless time");
            state.push((b"time".to_vec(), leaf(vec![0x80; cx.range(0, 9)])))
        }
        2 => {
            reasons.push("time is no leaf");
            state.push((b"time".to_vec(), label("x", leaf(leb(ns)))))
        }
        _ => state.push((b"time".to_vec(), leaf(leb(ns)))),
    }
    if cx.chance(1, 3) {
        state.push((b"subnet".to_vec(), label(cx.blob(3), leaf("x"))));
    }
    let full = forest(cx, state);
    let shown_state = if cx.bool() {
        full.clone()
    } else {
        view(cx, &full, &[vec![b"time".to_vec()], vec![b"canister".to_vec(), canister.clone(), b"certified_data".to_vec()]])
    };

    let named = |cx: &mut Cx, n: u8| [vec![n], cx.blob(132)].concat();
    let root = named(cx, 1);
    let key = named(cx, 2);
    let other_key = named(cx, 4);
    let delegated = cx.chance(1, 3);
    let delegation = delegated.then(|| {
        let (mut lo, mut hi) = (canister.clone(), canister.clone());
        lo[5] = 0;
        hi[8] = 2;
        if bad(cx, 6) {
            reasons.push("outside of the ranges");
            lo = vec![9; 10];
            hi = vec![10; 10];
        }
        let subnet = cx.blob(29);
        let t = cert::subnet_tree(&subnet, &cert::ranges_cbor(&[(lo, hi)]), &key, ns);
        let by = if bad(cx, 6) {
            reasons.push("delegation signed by another key");
            &other_key
        } else {
            &root
        };
        let c = Cert { signature: sign(by, &t), tree: t, delegation: None };
        Deleg { subnet_id: subnet, certificate: c.cbor() }
    });
    let signer = if delegated { &key } else { &root };
    let mut signature = sign(signer, &full);
    if bad(cx, 6) {
        reasons.push("bad signature");
        signature[cx.draw(32) as usize] ^= 1;
    }
    let mut used = root.clone();
    if bad(cx, 8) {
        reasons.push("another root key");
        used = if delegated && cx.bool() { key.clone() } else { named(cx, 3) };
    }
    let mut certificate = Cert { tree: shown_state, signature, delegation }.cbor();
    let mut encoded = tree.cbor();
    let mut cut = false;
    if bad(cx, 12) {
        cut = true;
        let b = if cx.bool() { &mut certificate } else { &mut encoded };
        let n = b.len();
        b.truncate(cx.draw(n as u64) as usize);
    }
    cx.note(|| format!("time {ms} ms + {below} ns, offset {offset}, tree {tree:?}, certificate {reasons:?}, late {late}, tree {bad_tree:?}, cut {cut}"));
    Case {
        json: json!({
            "canister": hex::encode(&canister), "certificate": hex::encode(certificate), "tree": hex::encode(encoded),
            "root": hex::encode(used), "offset": offset,
        }),
        tree,
        cert: reasons,
        time: late,
        bad_tree,
        edge,
        cut,
    }
}

/// Has the package verify cases at the same time, and compares the answers with the model. How many were accepted and refused.
fn judge(cx: &mut Cx, now: i64, cases: &[Case]) -> Result<(usize, usize), Fail> {
    let n = cases.len();
    let group = json!({"now": now, "cases": cases.iter().map(|c| c.json.clone()).collect::<Vec<_>>()});
    let Some(got) = node::ask("jscert/driver.cjs", "build/jscert/bundle.cjs", &group) else {
        fail("ended", "node ended without an answer")?;
        return Ok((0, 0));
    };
    let got = got.as_array().cloned().unwrap_or_default();
    ensure!(got.len() == n, "ended", "{} answers for {n} cases", got.len());
    let (mut yes, mut no) = (0, 0);
    for (c, got) in cases.iter().zip(&got) {
        let what = || format!("certificate {:?}, late {}, tree {:?}, cut {}: {}", c.cert, c.time, c.bad_tree, c.cut, got.to_string().chars().take(400).collect::<String>());
        ensure!(got.get("changed").is_none(), "changed", "the arguments were changed, {}", what());
        let good = c.cert.is_empty() && !c.time && c.bad_tree.is_empty() && !c.cut;
        if c.edge {
            continue;
        }
        if good {
            yes += 1;
            ensure!(got["tree"] == shown(&c.tree), "accept", "{}, but it holds {:?}", what(), c.tree);
            continue;
        }
        no += 1;
        ensure!(got.get("tree").is_none(), "forged", "accepted although {}", what());
        ensure!(got["error"] == json!(true), "kind", "no error was thrown: {}", what());
        if c.cut || !c.cert.is_empty() {
            cx.label("certificate refused");
        } else if c.time && c.bad_tree.is_empty() {
            cx.label("time refused");
            ensure!(got["name"] == json!("CertificateTimeError"), "kind", "another error than that of times: {}", what());
        } else if !c.time {
            cx.label("tree refused");
            ensure!(got["name"] == json!("CertificateVerificationError"), "kind", "another error than that of trees: {}", what());
        }
    }
    Ok((yes, no))
}

fn gen_now(cx: &mut Cx) -> i64 {
    match cx.weighted(&[4, 1]) {
        0 => 1_700_000_000_000 + cx.draw(1000) as i64,
        _ => cx.draw(1_000_000) as i64,
    }
}

fn verified(cx: &mut Cx) -> Res {
    let now = gen_now(cx);
    let n = if cx.chance(1, 40) { 1 + cx.size(40) } else { 1 + cx.weighted(&[4, 1, 1, 1]) };
    let cases: Vec<Case> = (0..n).map(|_| gen_case(cx, now)).collect();
    let (yes, no) = judge(cx, now, &cases)?;
    if yes > 0 {
        cx.label("accepted");
    }
    if yes + no > 0 {
        cx.nontrivial();
    }
    Ok(())
}

/// The same things again, as they were or with one argument changed: what was verified before has no influence.
fn again(cx: &mut Cx) -> Res {
    let now = gen_now(cx);
    let n = cx.range(1, 2);
    let pool: Vec<Case> = (0..n).map(|_| gen_case(cx, now)).collect();
    let (mut before, mut accepted) = (vec![false; n], false);
    for _ in 0..cx.range(2, 6) {
        let at = now + if cx.chance(1, 8) { 20_000_000_000_000 } else { 0 };
        let mut round = vec![];
        for _ in 0..cx.range(1, 2) {
            let i = cx.draw(n as u64) as usize;
            let mut c = pool[i].clone();
            if at != now {
                c.time = true;
                c.edge = false;
            }
            let how = match cx.weighted(&[6, 3, 3, 3, 3]) {
                1 => {
                    c.json["root"] = json!(hex::encode([vec![5], cx.blob(132)].concat()));
                    c.cert.push("verified under another key");
                    "another key"
                }
                2 => {
                    c.json["canister"] = json!("ffffffffffff99ff0101");
                    c.cert.push("verified for another canister");
                    "another canister"
                }
                3 => {
                    let t = label("another", c.tree.clone());
                    c.json["tree"] = json!(hex::encode(t.cbor()));
                    c.tree = t;
                    c.bad_tree.push("another tree");
                    "another tree"
                }
                4 => {
                    let mut b = hex::decode(c.json["certificate"].as_str().unwrap()).unwrap();
                    b.push(0);
                    c.json["certificate"] = json!(hex::encode(b));
                    c.cut = true;
                    "a longer certificate"
                }
                _ => "the same",
            };
            if how != "the same" && before[i] {
                cx.nontrivial();
                cx.label("changed after it was accepted");
            }
            let good = c.cert.is_empty() && !c.time && c.bad_tree.is_empty() && !c.cut && !c.edge;
            accepted |= good;
            cx.note(|| format!("case {i}, {how}, at {at}"));
            round.push((i, good, c));
        }
        judge(cx, at, &round.iter().map(|r| r.2.clone()).collect::<Vec<_>>())?;
        for (i, good, _) in round {
            before[i] |= good;
        }
    }
    if accepted {
        cx.label("accepted");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        rule: "groups of 1-4 certified trees, verified at the same time by the JavaScript package, with certificates (whole or pruned, delegated or not) whose time is on and around the edges of the window, half of them with up to a few things wrong in the certificate, its time, what it certifies, or the encoding; non-trivial: an outcome was judged; and histories of such verifications with the same arguments or one of them changed (again), non-trivial: one was changed after the others had been accepted; distinct by choice sequence",
        assumptions: &["@dfinity/agent, candid and principal, which are not installed, are played by stand-ins in which a hash takes the place of the BLS signature", "times within a millisecond of an edge are not judged"],
        subs: vec![sub("verified", 6_000, 200_000, verified), sub("again", 4_000, 100_000, again)],
    }]
}
