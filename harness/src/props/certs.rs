//! C10, C11, C12: certificate verification.
use crate::{engine::*, ensure, util::bls::key, util::*};
use ic_certificate_verification::{CertificateVerificationError as E, VerifyCertificate};
use ic_certification as ic;

type VResult = Result<(), E>;

fn verify(c: &ic::Certificate, canister: &[u8], root: &[u8], now: u128, offset: u128) -> Result<VResult, Fail> {
    no_panic(|| c.verify(canister, root, &now, &offset)).or_else(|p| fail("panic", format!("verify panicked: {p}")))
}

fn short(r: &VResult) -> String {
    match r {
        Ok(()) => "accepted".into(),
        Err(e) => {
            let mut s = format!("{e}");
            s.truncate(s.char_indices().map(|x| x.0).take_while(|i| *i < 120).last().map_or(0, |i| i + 1).min(s.len()));
            format!("refused ({s})")
        }
    }
}

/// now, offset and a certificate time around the edges of the window; and whether it is inside.
fn gen_times(cx: &mut Cx) -> (u128, u128, u64, bool) {
    let any = |cx: &mut Cx| cx.u64() as u128 >> cx.draw(64);
    let now = match cx.weighted(&[10, 2, 2, 2, 1]) {
        0 => NOW,
        4 => any(cx),
        1 => cx.draw(1000) as u128,
        2 => u64::MAX as u128 - cx.draw(1000) as u128,
        _ => u128::MAX - cx.draw(3) as u128,
    };
    let offset = match cx.weighted(&[10, 2, 2, 2, 1]) {
        0 => OFFSET,
        4 => any(cx),
        1 => 0,
        2 => cx.draw(1000) as u128,
        _ => u128::MAX - cx.draw(3) as u128,
    };
    let lo = now.saturating_sub(offset);
    let hi = now.saturating_add(offset);
    let clamp = |v: u128| v.min(u64::MAX as u128) as u64;
    let t = match cx.weighted(&[8, 4, 4, 4, 4, 2, 2, 1]) {
        7 => any(cx) as u64,
        0 => clamp(now),
        1 => clamp(lo),
        2 => clamp(hi),
        3 => clamp(lo.saturating_sub(1 + cx.draw(3) as u128)),
        4 => clamp(hi.saturating_add(1 + cx.draw(3) as u128)),
        5 => 0,
        _ => u64::MAX,
    };
    (now, offset, t, lo <= t as u128 && t as u128 <= hi)
}

/// A state tree with other content around the time, of any shape.
fn gen_state(cx: &mut Cx, time_leaf: Option<T>, extra: Vec<(Vec<u8>, T)>) -> T {
    let mut items: Vec<(Vec<u8>, T)> = cx.vec(4, 1, |cx| (gen_key(cx), gen_tree(cx, 1, false)));
    if cx.chance(1, 60) {
        let n = cx.size(200);
        items.extend((0..n).map(|i| (format!("s{i}").into_bytes(), leaf(i.to_string()))));
    }
    items.extend(extra);
    if let Some(t) = time_leaf {
        items.push((b"time".to_vec(), t));
    }
    items.sort_by(|a, b| a.0.cmp(&b.0));
    items.dedup_by(|a, b| a.0 == b.0);
    let items = items.into_iter().map(|(k, t)| label(k, t)).collect();
    let empties = cx.chance(1, 4);
    gen_forest(cx, items, empties)
}

/// Prunes anything but what lies on the given paths.
fn prune_off(cx: &mut Cx, t: &T, keep: &[Vec<Vec<u8>>]) -> T {
    if keep.is_empty() {
        return if cx.bool() { T::Pruned(t.digest()) } else { t.clone() };
    }
    match t {
        T::Fork(l, r) => {
            let side = |x: &T| {
                let names = x.all_paths();
                keep.iter().filter(|k| k.first().is_some_and(|f| names.iter().any(|n| n.len() == 1 && n[0] == *f))).cloned().collect::<Vec<_>>()
            };
            let (kl, kr) = (side(l), side(r));
            let l = prune_off(cx, l, &kl);
            let r = prune_off(cx, r, &kr);
            fork(l, r)
        }
        T::Label(l, t) => {
            let k: Vec<_> = keep.iter().filter(|k| k.first() == Some(l)).map(|k| k[1..].to_vec()).collect();
            label(l, prune_off(cx, t, &k))
        }
        t => t.clone(),
    }
}

fn tamper_sig(cx: &mut Cx, s: &mut Vec<u8>) -> &'static str {
    match cx.draw(7) {
        0 => {
            let i = cx.draw(s.len() as u64) as usize;
            s[i] ^= 1 << cx.draw(8);
            "signature bit flipped"
        }
        1 => {
            let n = cx.draw(s.len() as u64) as usize;
            s.truncate(n);
            "signature cut short"
        }
        2 => {
            let n = cx.range(1, 60);
            let b = cx.blob(n);
            s.extend(b);
            "signature extended"
        }
        3 => {
            *s = cx.blob(48);
            "random signature"
        }
        4 => {
            *s = cx.blob(48);
            s[0] = *cx.pick(&[0xc0u8, 0x80, 0xa0, 0x00, 0x40, 0xe0]);
            s[1..].fill(0);
            "special point"
        }
        5 => {
            let n = *cx.pick(&[0usize, 1, 47, 49, 96, 97]);
            *s = cx.blob(n);
            "odd-sized signature"
        }
        _ => {
            s[0] ^= 0x20;
            "negated signature"
        }
    }
}

fn tamper_tree(cx: &mut Cx, t: &T) -> T {
    // change one leaf, label or structure; the digest changes
    fn go(cx: &mut Cx, t: &T) -> T {
        match t {
            T::Fork(l, r) => {
                let (l, r) = (l.clone(), r.clone());
                match cx.draw(3) {
                    0 => fork(go(cx, &l), *r),
                    1 => fork(*l, go(cx, &r)),
                    _ => fork(*r, *l),
                }
            }
            T::Label(l, x) => {
                if cx.chance(1, 4) {
                    let mut l = l.clone();
                    l.push(b'!');
                    label(l, (**x).clone())
                } else {
                    label(l, go(cx, x))
                }
            }
            T::Leaf(v) => {
                let mut v = v.clone();
                if v.is_empty() || cx.bool() {
                    v.push(1);
                } else {
                    let i = cx.draw(v.len() as u64) as usize;
                    v[i] ^= 1 << cx.draw(8);
                }
                leaf(v)
            }
            T::Empty => leaf("x"),
            T::Pruned(h) => {
                let mut h = *h;
                h[cx.draw(32) as usize] ^= 1;
                T::Pruned(h)
            }
        }
    }
    go(cx, t)
}

fn bad_der(cx: &mut Cx, der: &[u8]) -> (Vec<u8>, &'static str) {
    let mut d = der.to_vec();
    match cx.draw(6) {
        0 => {
            let n = cx.draw(d.len() as u64) as usize;
            d.truncate(n);
            (d, "key cut short")
        }
        1 => {
            d.push(0);
            (d, "key extended")
        }
        2 => {
            let i = cx.draw(37) as usize;
            d[i] ^= 1 << cx.draw(8);
            (d, "der prefix flipped")
        }
        3 => {
            let i = 37 + cx.draw(96) as usize;
            d[i] ^= 1 << cx.draw(8);
            (d, "key bit flipped")
        }
        4 => {
            let b = cx.blob(96);
            d[37..].copy_from_slice(&b);
            (d, "random key")
        }
        _ => {
            d[37..].fill(0);
            d[37] = *cx.pick(&[0xc0, 0, 0x80, 0x40, 0x20]);
            (d, "special key")
        }
    }
}

fn direct(cx: &mut Cx) -> Res {
    let (now, offset, t, fresh) = gen_times(cx);
    let mut reasons: Vec<&str> = vec![];
    if !fresh {
        reasons.push("not fresh");
    }
    // the time leaf
    let (time_leaf, bad_time) = match cx.weighted(&[12, 1, 1, 1, 1]) {
        0 => (Some(leaf(leb(t as u128))), false),
        1 => (None, true),
        2 => (Some(leaf(leb((1u128 << 64) + cx.u64() as u128))), true),
        3 => (Some(leaf(vec![0x80; cx.range(0, 12)])), true),
        _ => {
            let d = cx.bool();
            (Some(if d { label("x", leaf(leb(t as u128))) } else { T::Empty }), true)
        }
    };
    if bad_time {
        reasons.push("no readable time");
    }
    let full = gen_state(cx, time_leaf, vec![]);
    let sk = cx.weighted(&[12, 1, 1]);
    let root = key(0).der();
    let mut cert = match sk {
        0 | 1 => sign_tree(full.clone(), sk, None),
        _ => {
            // another domain separator
            let seps: [&[u8]; 5] = [b"", b"ic-state-root", b"\x0Eic-state-root", b"\x0Dic-state-roo", b"\x0Aic-request"];
            let sep = *cx.pick(&seps);
            let msg = [sep, &full.digest()].concat();
            Cert { tree: full.clone(), signature: key(0).sign(&msg), delegation: None }
        }
    };
    match sk {
        1 => reasons.push("signed by another key"),
        2 => reasons.push("signed for another domain"),
        _ => {}
    }
    // a view with the time still shown is as good as the whole; one that hides it is not
    match cx.weighted(&[3, 3, 1]) {
        0 => {}
        1 => cert.tree = prune_off(cx, &full, &[vec![b"time".to_vec()]]),
        _ => {
            cert.tree = T::Pruned(full.digest());
            reasons.push("time hidden");
        }
    }
    let canister = vec![0, 0, 0, 0, 0, 0, 0, 1, 1, 1];
    let good_so_far = reasons.is_empty();
    // verify the untampered certificate first: what follows must not be answered from its success
    let first = verify(&cert.to_ic(), &canister, &root, now, offset)?;
    cx.note(|| format!("now {now} offset {offset} time {t} tree {:?}: {} {reasons:?}", cert.tree, short(&first)));
    ensure!(first.is_ok() == good_so_far, "accept", "{}, reasons to refuse: {reasons:?}", short(&first));
    if good_so_far {
        cx.label("accepted");
    }
    let mut root2 = root.clone();
    let mut bad = cert.clone();
    let what = match cx.weighted(&[3, 3, 2, 1]) {
        0 => tamper_sig(cx, &mut bad.signature),
        1 => {
            bad.tree = tamper_tree(cx, &bad.tree);
            "tree changed"
        }
        2 => {
            let (d, w) = bad_der(cx, &root);
            root2 = d;
            w
        }
        _ => {
            root2 = key(1).der();
            if sk == 1 {
                return Ok(());
            }
            "other root key"
        }
    };
    if bad.tree.digest() == cert.tree.digest() && bad.signature == cert.signature && root2 == root {
        return Ok(());
    }
    cx.label(match what {
        "tree changed" => "tree changed",
        "other root key" => "other root key",
        w if w.contains("key") => "bad root key",
        _ => "bad signature",
    });
    let second = verify(&bad.to_ic(), &canister, &root2, now, offset)?;
    cx.note(|| format!("{what}: {}", short(&second)));
    ensure!(second.is_err(), "forged", "accepted although: {what} (signature {}, root key {})", hexs(&bad.signature), hexs(&root2));
    if good_so_far {
        cx.nontrivial();
        let third = verify(&cert.to_ic(), &canister, &root, now, offset)?;
        ensure!(third.is_ok(), "accept", "refused the second time: {}", short(&third));
    }
    Ok(())
}

fn gen_id(cx: &mut Cx) -> Vec<u8> {
    // canister ids: ten bytes, close to each other
    let mut v = vec![0, 0, 0, 0, 0, 0, 0, 0, 1, 1];
    v[6] = cx.draw(3) as u8;
    v[7] = *cx.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff]);
    if cx.chance(1, 16) {
        // anything at any position
        let i = cx.draw(10) as usize;
        v[i] = cx.draw(256) as u8;
    }
    v
}

#[derive(Clone, Debug)]
struct Delegated {
    cert: Cert,
    canister: Vec<u8>,
    reasons: Vec<&'static str>,
    /// the outcome is not specified (only that there is one)
    unsure: bool,
}

fn gen_delegated(cx: &mut Cx, now: u128, time: u64, fresh: bool) -> Delegated {
    let mut reasons = vec![];
    if !fresh {
        reasons.push("not fresh");
    }
    let sabotage = cx.bool();
    let once = |cx: &mut Cx, den: u64| sabotage && cx.chance(1, den);
    let subnet = {
        let n = cx.range(1, 29);
        cx.blob(n)
    };
    let canister = gen_id(cx);
    let mut ranges: Vec<(Vec<u8>, Vec<u8>)> = cx.vec(4, 1, |cx| (gen_id(cx), gen_id(cx)));
    if cx.chance(1, 50) {
        // many ranges, as the large subnets have
        for i in 0..cx.size(400) {
            let mut a = vec![0, 0, 0, 0, 1, 0, 0, 0, 1, 1];
            a[6..8].copy_from_slice(&(i as u16).to_be_bytes());
            ranges.push((a.clone(), a));
        }
    }
    if cx.chance(3, 4) {
        ranges.push(match cx.draw(3) {
            0 => (canister.clone(), canister.clone()),
            1 => (canister.clone(), vec![0xff; 10]),
            _ => (vec![0; 10], canister.clone()),
        });
        cx.shuffle(&mut ranges);
    }
    if !ranges.iter().any(|(a, b)| *a <= canister && canister <= *b) {
        reasons.push("canister out of range");
    }
    let mut ranges_bytes = ranges_cbor(&ranges);
    if once(cx, 10) {
        let n = cx.draw(ranges_bytes.len() as u64) as usize;
        ranges_bytes.truncate(n);
        reasons.push("ranges malformed");
    }
    let sub_key = cx.range(2, 3);
    let mut der = key(sub_key).der();
    if once(cx, 8) {
        let (d, w) = bad_der(cx, &der);
        der = d;
        reasons.push(w);
    }
    let mut sub_items = vec![];
    if once(cx, 12) {
        reasons.push("no ranges");
    } else {
        sub_items.push(label("canister_ranges", leaf(&ranges_bytes)));
    }
    sub_items.push(label("node", leaf("n")));
    if once(cx, 12) {
        reasons.push("no key");
    } else {
        sub_items.push(label("public_key", leaf(&der)));
    }
    let sub_tree = gen_forest(cx, sub_items, false);
    let named = if once(cx, 10) {
        reasons.push("delegation names another subnet");
        let mut s = subnet.clone();
        s[0] ^= 1;
        s
    } else {
        subnet.clone()
    };
    let mut subnets = vec![(subnet.clone(), sub_tree)];
    if cx.bool() {
        // another subnet with everything in order for another key
        let mut other = subnet.clone();
        other[0] ^= 2;
        let r = ranges_cbor(&[(vec![0; 10], vec![0xff; 10])]);
        subnets.push((other, fork(label("canister_ranges", leaf(r)), label("public_key", leaf(key(4).der())))));
    }
    if cx.chance(1, 50) {
        for i in 0..cx.size(60) {
            let mut other = subnet.clone();
            other.extend([i as u8]);
            subnets.push((other, label("public_key", leaf(key(4).der()))));
        }
    }
    subnets.sort_by(|a, b| a.0.cmp(&b.0));
    let subs = subnets.into_iter().map(|(k, t)| label(k, t)).collect();
    let subs = gen_forest(cx, subs, false);
    // the delegation's own time plays no role
    let dtime = match cx.draw(4) {
        0 => None,
        1 => Some(leaf(leb(0))),
        2 => Some(leaf(leb(u64::MAX as u128))),
        _ => Some(leaf(leb(now.min(u64::MAX as u128)))),
    };
    let dfull = gen_state(cx, dtime, vec![(b"subnet".to_vec(), subs)]);
    let keep: Vec<Vec<Vec<u8>>> = vec![
        vec![b"subnet".to_vec(), named.clone(), b"canister_ranges".to_vec()],
        vec![b"subnet".to_vec(), named.clone(), b"public_key".to_vec()],
    ];
    let root_signs = if once(cx, 8) {
        reasons.push("delegation signed by another root");
        1
    } else {
        0
    };
    let mut dcert = sign_tree(dfull.clone(), root_signs, None);
    if reasons.is_empty() && cx.bool() {
        dcert.tree = prune_off(cx, &dfull, &keep);
    }
    if once(cx, 10) {
        reasons.push(tamper_sig(cx, &mut dcert.signature));
    }
    if once(cx, 10) {
        let t = tamper_tree(cx, &dcert.tree);
        if t.digest() != dcert.tree.digest() {
            dcert.tree = t;
            reasons.push("delegation tree changed");
        }
    }
    if once(cx, 10) {
        reasons.push("nested delegation");
        // everything else about the nested delegation is in order
        let inner = sign_tree(
            subnet_tree(&subnet, &ranges_cbor(&[(vec![0; 10], vec![0xff; 10])]), &key(0).der(), now.min(u64::MAX as u128)),
            0,
            None,
        );
        let mut nested = Deleg { subnet_id: subnet.clone(), certificate: inner.cbor() };
        match cx.draw(8) {
            0 => nested.certificate = vec![],
            1 => nested.subnet_id = vec![],
            2 => nested = Deleg { subnet_id: vec![], certificate: vec![] },
            3 => nested.subnet_id[0] ^= 1,
            4 => nested.certificate = cx.bytes(8),
            _ => {}
        }
        dcert.delegation = Some(nested);
    }
    let mut dbytes = dcert.cbor();
    if once(cx, 12) {
        let n = cx.draw(dbytes.len() as u64) as usize;
        dbytes.truncate(n);
        reasons.push("delegation malformed");
    }
    let full = gen_state(cx, Some(leaf(leb(time as u128))), vec![(b"canister".to_vec(), label(&canister, leaf("d")))]);
    let signer = if once(cx, 6) {
        reasons.push("signed by another key");
        *cx.pick(&[0usize, 1, 4, 5])
    } else {
        sub_key
    };
    let mut cert = sign_tree(full.clone(), signer, Some(Deleg { subnet_id: named, certificate: dbytes }));
    if once(cx, 8) {
        reasons.push(tamper_sig(cx, &mut cert.signature));
    } else if once(cx, 8) {
        let t = tamper_tree(cx, &cert.tree);
        if t.digest() != cert.tree.digest() {
            cert.tree = t;
            reasons.push("tree changed");
        }
    }
    let mut canister = canister;
    let mut unsure = false;
    if once(cx, 12) {
        let n = *cx.pick(&[0usize, 9, 11, 29, 30, 64]);
        canister.resize(n, 1);
        if n <= 29 {
            // how ids of different lengths compare is not specified
            unsure = reasons.is_empty();
        } else {
            reasons.push("not a canister id");
        }
    }
    Delegated { cert, canister, reasons, unsure }
}

fn delegation(cx: &mut Cx) -> Res {
    let (now, offset, t, fresh) = if cx.chance(1, 6) { gen_times(cx) } else { (NOW, OFFSET, NOW as u64, true) };
    let d = gen_delegated(cx, now, t, fresh);
    let c = d.cert.to_ic();
    let got = verify(&c, &d.canister, &key(0).der(), now, offset)?;
    cx.note(|| format!("canister {} certificate {:?}: {} {:?}", hexs(&d.canister), d.cert, short(&got), d.reasons));
    if d.unsure {
        return Ok(());
    }
    ensure!(got.is_ok() == d.reasons.is_empty(), if got.is_ok() { "forged" } else { "accept" }, "{}, reasons to refuse: {:?}", short(&got), d.reasons);
    if d.reasons.is_empty() {
        cx.nontrivial();
        cx.label("accepted");
        // no other key or canister is covered
        let other = verify(&c, &d.canister, &key(1).der(), now, offset)?;
        ensure!(other.is_err(), "forged", "accepted under another root key");
        let mut without = c.clone();
        without.delegation = None;
        let w = verify(&without, &d.canister, &key(0).der(), now, offset)?;
        ensure!(w.is_err(), "forged", "accepted without its delegation");
    }
    if d.reasons.len() == 1 {
        cx.nontrivial();
        cx.label("one reason to refuse");
    }
    Ok(())
}

fn histories(cx: &mut Cx) -> Res {
    // certificates with known outcomes, verified in random order on several threads
    let mut pool: Vec<(ic::Certificate, Vec<u8>, Vec<u8>, bool)> = vec![];
    let n = cx.range(1, 3);
    let can = gen_id(cx);
    for _ in 0..n {
        let t = NOW as u64 - cx.draw(1 << 37);
        let good = sign_tree(state_tree(&can, &cx.blob(32), t as u128), 0, None);
        pool.push((good.to_ic(), can.clone(), key(0).der(), true));
        pool.push((good.to_ic(), can.clone(), key(1).der(), false));
        let mut bad = good.clone();
        tamper_sig(cx, &mut bad.signature);
        pool.push((bad.to_ic(), can.clone(), key(0).der(), false));
        let mut bad = good.clone();
        bad.tree = state_tree(&can, &cx.blob(31), t as u128);
        pool.push((bad.to_ic(), can.clone(), key(0).der(), false));
        if cx.bool() {
            let d = gen_delegated(cx, NOW, t, true);
            if !d.unsure {
                pool.push((d.cert.to_ic(), d.canister.clone(), key(0).der(), d.reasons.is_empty()));
            }
        }
        if cx.bool() && !pool.is_empty() {
            // a signature that belongs to another certificate
            let mut x = good.to_ic();
            x.signature = cx.pick(&pool).0.signature.clone();
            let same = x.signature == good.signature;
            pool.push((x, can.clone(), key(0).der(), same));
        }
    }
    let threads = cx.range(1, 3);
    let plans: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut plan = cx.vec(10, 6, |cx| cx.draw(pool.len() as u64) as usize);
            if cx.chance(1, 60) {
                let long = cx.size(200);
                plan.extend((0..long).map(|_| cx.draw(pool.len() as u64) as usize));
            }
            plan
        })
        .collect();
    cx.note(|| format!("{} certificates, expected {:?}, plans {plans:?}", pool.len(), pool.iter().map(|p| p.3).collect::<Vec<_>>()));
    let all: Vec<usize> = plans.iter().flatten().copied().collect();
    if threads > 1 && all.iter().any(|i| pool[*i].3) && all.iter().any(|i| !pool[*i].3) {
        cx.nontrivial();
    }
    let run = |plan: &[usize]| -> Res {
        for i in plan {
            let (c, id, root, want) = &pool[*i];
            let got = verify(c, id, root, NOW, OFFSET)?;
            ensure!(got.is_ok() == *want, "history", "certificate {i}: {}, alone it is {}", short(&got), if *want { "accepted" } else { "refused" });
        }
        Ok(())
    };
    let results: Vec<Res> = if threads == 1 {
        vec![run(&plans[0])]
    } else {
        std::thread::scope(|s| {
            let hs: Vec<_> = plans.iter().map(|p| s.spawn(|| run(p))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    };
    results.into_iter().collect::<Result<Vec<_>, _>>()?;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "certificates over random state trees (whole or pruned), with times on and around the edges of the allowed window including arithmetic extremes, signed by right and wrong keys or domains, verified and then verified again with one thing changed (tree, signature, root key); non-trivial: the untampered certificate is accepted; distinct by choice sequence",
            assumptions: &["BLS signatures cannot be forged", "certificate times are canonical LEB128"],
            subs: vec![sub("direct", 16_000, 2_000_000, direct)],
        },
        Prop {
            id: "C11",
            rule: "delegated certificates over random subnet trees and canister ranges, half of them with up to a few things wrong; non-trivial: nothing wrong, or exactly one thing wrong; distinct by choice sequence",
            assumptions: &["BLS signatures cannot be forged", "canister ids in ranges have ten bytes, as the IC issues them"],
            subs: vec![sub("delegation", 16_000, 600_000, delegation)],
        },
        Prop {
            id: "C12",
            rule: "pools of accepted and refused certificates that share keys, trees and signatures, verified in random order with repetitions on 1-3 threads; each outcome must be the one the certificate has alone; non-trivial: several threads, and both outcomes occur; distinct by choice sequence",
            assumptions: &["thread interleavings are sampled by the OS scheduler"],
            subs: vec![sub("histories", 3_000, 100_000, histories)],
        },
    ]
}
