//! C08, C09: encodings of trees, certificates and the other CBOR the verifier reads.
use crate::{engine::*, ensure, util::*};
use candid::Principal;
use ic_cbor::*;
use ic_certification as ic;
use ic_certification::hash_tree::HashTree;
use std::borrow::Cow;

// ------------------------------------------------------------------ well-formed data

/// The tree in CBOR, byte strings with heads of any width when `wide`.
fn tree_cbor(cx: &mut Cx, t: &T, wide: bool, o: &mut Vec<u8>) {
    let by = |cx: &mut Cx, o: &mut Vec<u8>, b: &[u8]| {
        if wide {
            let w = *cx.pick(&[0u8, 1, 2, 4, 8]);
            cbor::head_w(o, 2, b.len() as u64, w);
            o.extend(b);
        } else {
            cbor::bytes(o, b);
        }
    };
    match t {
        T::Empty => {
            cbor::array(o, 1);
            o.push(0);
        }
        T::Fork(l, r) => {
            cbor::array(o, 3);
            o.push(1);
            tree_cbor(cx, l, wide, o);
            tree_cbor(cx, r, wide, o);
        }
        T::Label(l, t) => {
            cbor::array(o, 3);
            o.push(2);
            by(cx, o, l);
            tree_cbor(cx, t, wide, o);
        }
        T::Leaf(v) => {
            cbor::array(o, 2);
            o.push(3);
            by(cx, o, v);
        }
        T::Pruned(h) => {
            cbor::array(o, 2);
            o.push(4);
            by(cx, o, h);
        }
    }
}

fn gen_any_tree(cx: &mut Cx) -> T {
    if cx.chance(1, 40) {
        // one long branch: as deep as serde_cbor goes by default
        let n = cx.range(1, 100);
        let mut t = leaf(gen_value(cx));
        for i in 0..n {
            t = if i % 2 == 0 { label(gen_key(cx), t) } else { fork(t, T::Empty) };
        }
        return t;
    }
    if cx.chance(1, 40) {
        let n = cx.range(250, 70_000);
        return label("big", leaf(cx.blob(n)));
    }
    let (d, e) = (cx.range(0, 3), cx.bool());
    gen_tree(cx, d, e).prune(cx, 2)
}

fn trees(cx: &mut Cx) -> Res {
    let t = gen_any_tree(cx);
    cx.note(|| format!("{t:?}"));
    if t.nodes() >= 3 {
        cx.nontrivial();
    }
    let h = t.to_ic();
    ensure!(h.digest() == t.digest(), "digest", "digest of {t:?}");
    // encoding is the specification's
    let mut plain = vec![];
    t.cbor_into(&mut plain);
    let enc = serde_cbor::to_vec(&h).or_else(|e| fail("encode", e.to_string()))?;
    ensure!(enc == plain, "encode", "the encoding {} is not the specification's {}", hexs(&enc), hexs(&plain));
    let node: &ic::HashTreeNode = h.as_ref();
    ensure!(serde_cbor::to_vec(node).ok() == Some(plain.clone()), "encode", "a node encodes differently from its tree");
    // decoding: tagged or not, any head width
    let wide = cx.chance(1, 3);
    let mut o = vec![];
    if cx.bool() {
        cbor::self_describe(&mut o);
    }
    tree_cbor(cx, &t, wide, &mut o);
    if wide {
        cx.label("wide heads");
    }
    let a = <ic::HashTree as HashTreeToCbor>::from_cbor(&o).or_else(|e| fail("ic-cbor", format!("{e} on {}", hexs(&o))))?;
    ensure!(T::of_tree(&a) == t && a == h, "ic-cbor", "ic-cbor decodes {:?}", T::of_tree(&a));
    let b: HashTree<Vec<u8>> = serde_cbor::from_slice(&o).or_else(|e| fail("serde", e.to_string()))?;
    ensure!(b == h, "serde", "serde decodes {:?}", T::of_tree(&b));
    let c: HashTree<&[u8]> = serde_cbor::from_slice(&o).or_else(|e| fail("serde-slice", e.to_string()))?;
    ensure!(T::of_tree(&c) == t && c.digest() == t.digest(), "serde-slice", "serde decodes {:?}", T::of_tree(&c));
    let d: HashTree<Cow<[u8]>> = serde_cbor::from_slice(&o).or_else(|e| fail("serde-cow", e.to_string()))?;
    ensure!(T::of_tree(&d) == t && d.digest() == t.digest(), "serde-cow", "serde decodes {:?}", T::of_tree(&d));
    Ok(())
}

fn certificates(cx: &mut Cx) -> Res {
    let tree = gen_any_tree(cx);
    let n = if cx.chance(1, 20) { cx.size(1000) } else { *cx.pick(&[48usize, 0, 1, 96]) };
    let signature = cx.blob(n);
    let delegation = cx.bool().then(|| {
        let n = if cx.chance(1, 10) { cx.size(300) } else { cx.range(0, 29) };
        let m = if cx.chance(1, 20) { cx.size(70_000) } else { cx.range(0, 300) };
        Deleg { subnet_id: cx.blob(n), certificate: cx.blob(m) }
    });
    let cert = Cert { tree, signature, delegation };
    let want = cert.to_ic();
    cx.note(|| format!("{cert:?}"));
    if cert.delegation.is_some() {
        cx.nontrivial();
        cx.label("delegation");
    }
    let enc = serde_cbor::to_vec(&want).or_else(|e| fail("encode", e.to_string()))?;
    ensure!(enc == cert.cbor()[3..], "encode", "the encoding is not the specification's: {}", hexs(&enc));
    // any field order
    let mut fields: Vec<(&str, Vec<u8>)> = vec![];
    let mut tb = vec![];
    let wide = cx.chance(1, 4);
    tree_cbor(cx, &cert.tree, wide, &mut tb);
    fields.push(("tree", tb));
    let mut sb = vec![];
    cbor::bytes(&mut sb, &cert.signature);
    fields.push(("signature", sb));
    if let Some(d) = &cert.delegation {
        let mut parts = vec![("subnet_id", &d.subnet_id), ("certificate", &d.certificate)];
        cx.shuffle(&mut parts);
        let mut db = vec![];
        cbor::map(&mut db, 2);
        for (k, v) in parts {
            cbor::text(&mut db, k);
            cbor::bytes(&mut db, v);
        }
        fields.push(("delegation", db));
    }
    cx.shuffle(&mut fields);
    let mut o = vec![];
    if cx.bool() {
        cbor::self_describe(&mut o);
    }
    cbor::map(&mut o, fields.len());
    for (k, v) in &fields {
        cbor::text(&mut o, k);
        o.extend(v);
    }
    let a = <ic::Certificate as CertificateToCbor>::from_cbor(&o).or_else(|e| fail("ic-cbor", format!("{e} on {}", hexs(&o))))?;
    ensure!(a == want, "ic-cbor", "ic-cbor decodes {a:?}");
    let b: ic::Certificate = serde_cbor::from_slice(&o).or_else(|e| fail("serde", e.to_string()))?;
    ensure!(b == want, "serde", "serde decodes {b:?}");
    let c: ic::certificate::Certificate<&[u8]> = serde_cbor::from_slice(&o).or_else(|e| fail("serde-slice", e.to_string()))?;
    ensure!(
        T::of_tree(&c.tree) == cert.tree && c.signature == cert.signature
            && c.delegation.as_ref().map(|d| (d.subnet_id.to_vec(), d.certificate.to_vec()))
                == cert.delegation.as_ref().map(|d| (d.subnet_id.clone(), d.certificate.clone())),
        "serde-slice", "serde decodes {c:?}"
    );
    let d: ic::certificate::Certificate<Cow<[u8]>> = serde_cbor::from_slice(&o).or_else(|e| fail("serde-cow", e.to_string()))?;
    ensure!(
        T::of_tree(&d.tree) == cert.tree && *d.signature == *cert.signature
            && d.delegation.as_ref().map(|d| (d.subnet_id.to_vec(), d.certificate.to_vec()))
                == cert.delegation.as_ref().map(|d| (d.subnet_id.clone(), d.certificate.clone())),
        "serde-cow", "serde decodes {d:?}"
    );
    // a certificate cut short is not a certificate
    let cut = cx.range(0, o.len() - 1);
    ensure!(<ic::Certificate as CertificateToCbor>::from_cbor(&o[..cut]).is_err(), "truncated", "the first {cut} of {} bytes decode as a certificate", o.len());
    o.push(*cx.pick(&[0u8, 0x40, 0xff, 0xa0]));
    ensure!(<ic::Certificate as CertificateToCbor>::from_cbor(&o).is_err(), "trailing", "trailing bytes are accepted");
    Ok(())
}

fn arrays(cx: &mut Cx) -> Res {
    if cx.bool() {
        let range = |cx: &mut Cx| {
            let (a, b) = (cx.range(0, 29), cx.range(0, 29));
            (cx.blob(a), cx.blob(b))
        };
        let mut ranges = cx.vec(8, 3, range);
        if cx.chance(1, 40) {
            for _ in 0..cx.size(400) {
                ranges.push(range(cx));
            }
        }
        if ranges.len() >= 2 {
            cx.nontrivial();
        }
        cx.note(|| format!("ranges {ranges:?}"));
        let enc = ranges_cbor(&ranges);
        let got = parse_cbor_principals_array(&enc).or_else(|e| fail("ranges", format!("{e}")))?;
        let want: Vec<_> = ranges
            .iter()
            .map(|(a, b)| (Principal::from_slice(a), Principal::from_slice(b)))
            .collect();
        ensure!(got == want, "ranges", "decoded {got:?}");
        let cut = cx.range(0, enc.len() - 1);
        ensure!(parse_cbor_principals_array(&enc[..cut]).is_err(), "truncated", "the first {cut} bytes decode as ranges");
    } else {
        let many = cx.chance(1, 40);
        let string = |cx: &mut Cx| {
            let n = if cx.chance(1, 40) { cx.size(400) } else { cx.range(0, 30) };
            (0..n)
                .map(|_| *cx.pick(&['a', '/', '<', '*', '>', ' ', 'é', '\u{1F600}', '\0', '"']))
                .collect::<String>()
        };
        let mut strings = cx.vec(8, 3, string);
        if many {
            for _ in 0..cx.size(400) {
                strings.push(string(cx));
            }
        }
        if strings.len() >= 2 {
            cx.nontrivial();
        }
        cx.note(|| format!("strings {strings:?}"));
        let enc = serde_cbor::to_vec(&strings).unwrap();
        let got = parse_cbor_string_array(&enc).or_else(|e| fail("strings", format!("{e}")))?;
        ensure!(got == strings, "strings", "decoded {got:?}");
        let cut = cx.range(0, enc.len() - 1);
        ensure!(parse_cbor_string_array(&enc[..cut]).is_err(), "truncated", "the first {cut} bytes decode as strings");
    }
    Ok(())
}

#[derive(Debug, Clone)]
enum V {
    U(u64, u8),
    Neg(u64, u8),
    B(Vec<u8>),
    S(String),
    A(Vec<V>),
    M(Vec<(String, V)>),
    Tag(u64, Box<V>),
}

fn gen_int(cx: &mut Cx) -> (u64, u8) {
    let w = *cx.pick(&[0u8, 1, 2, 4, 8]);
    let n = match cx.draw(3) {
        0 => cx.draw(30),
        1 => {
            let b = *cx.pick(&[23u64, 24, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX]);
            b.wrapping_add(cx.draw(2))
        }
        _ => {
            let s = cx.draw(64);
            cx.u64() >> s
        }
    };
    (n, w)
}

fn gen_v(cx: &mut Cx, depth: usize) -> V {
    let leafs = 4;
    let k = if depth == 0 { cx.weighted(&[1; 4]) } else { cx.weighted(&[3, 3, 3, 2, 4, 3, 2]) };
    let _ = leafs;
    match k {
        0 => {
            let (n, w) = gen_int(cx);
            V::U(n, w)
        }
        1 => {
            let (n, w) = gen_int(cx);
            V::Neg(n, w)
        }
        2 => V::B(gen_value(cx)),
        3 => V::S(hex::encode(gen_key(cx))),
        4 if cx.chance(1, 60) => V::A((0..cx.size(300)).map(|_| gen_v(cx, 0)).collect()),
        5 if cx.chance(1, 60) => V::M((0..cx.size(300)).map(|i| (format!("k{i}"), gen_v(cx, 0))).collect()),
        4 => V::A(cx.vec(5, 2, |cx| gen_v(cx, depth - 1))),
        5 => {
            let mut kv = cx.vec(4, 2, |cx| (hex::encode(gen_key(cx)), gen_v(cx, depth - 1)));
            let mut seen = std::collections::HashSet::new();
            kv.retain(|x| seen.insert(x.0.clone()));
            V::M(kv)
        }
        _ => {
            let n = gen_int(cx).0;
            V::Tag(n, Box::new(gen_v(cx, depth - 1)))
        }
    }
}

fn enc_v(v: &V, o: &mut Vec<u8>) {
    match v {
        V::U(n, w) => cbor::head_w(o, 0, *n, *w),
        V::Neg(n, w) => cbor::head_w(o, 1, *n, *w),
        V::B(b) => cbor::bytes(o, b),
        V::S(s) => cbor::text(o, s),
        V::A(a) => {
            cbor::array(o, a.len());
            a.iter().for_each(|v| enc_v(v, o));
        }
        V::M(m) => {
            cbor::map(o, m.len());
            for (k, v) in m {
                cbor::text(o, k);
                enc_v(v, o);
            }
        }
        V::Tag(n, v) => {
            cbor::head(o, 6, *n);
            enc_v(v, o);
        }
    }
}

fn has_huge_negative(v: &V) -> bool {
    match v {
        V::Neg(n, _) => *n > i64::MAX as u64,
        V::A(a) => a.iter().any(has_huge_negative),
        V::M(m) => m.iter().any(|x| has_huge_negative(&x.1)),
        V::Tag(_, v) => has_huge_negative(v),
        _ => false,
    }
}

fn same(v: &V, c: &CborValue) -> bool {
    match (v, c) {
        (V::U(n, _), CborValue::Unsigned(u)) => {
            let x = match u {
                CborUnsignedInt::UInt8(x) => *x as u64,
                CborUnsignedInt::UInt16(x) => *x as u64,
                CborUnsignedInt::UInt32(x) => *x as u64,
                CborUnsignedInt::UInt64(x) => *x,
            };
            x == *n
        }
        // the node tags of hash trees are read from small integers
        (V::U(n, _), CborValue::HashTree(h)) => {
            *n == match h {
                CborHashTree::Empty => 0,
                CborHashTree::Fork => 1,
                CborHashTree::Labelled => 2,
                CborHashTree::Leaf => 3,
                CborHashTree::Pruned => 4,
            }
        }
        (V::Neg(n, _), CborValue::Signed(s)) => {
            let x = match s {
                CborNegativeInt::Int8(x) => *x as i128,
                CborNegativeInt::Int16(x) => *x as i128,
                CborNegativeInt::Int32(x) => *x as i128,
                CborNegativeInt::Int64(x) => *x as i128,
            };
            x == -1 - (*n as i128)
        }
        (V::B(b), CborValue::ByteString(c)) => b == c,
        (V::S(s), CborValue::ByteString(c)) => s.as_bytes() == c,
        (V::A(a), CborValue::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (V::M(m), CborValue::Map(n)) => {
            m.len() == n.len() && m.iter().all(|(k, v)| n.get(k).is_some_and(|x| same(v, x)))
        }
        (V::Tag(_, v), c) => same(v, c),
        _ => false,
    }
}

fn values(cx: &mut Cx) -> Res {
    let mut v = gen_v(cx, 3);
    if cx.chance(1, 60) {
        for i in 0..cx.size(60) {
            v = match i % 3 {
                0 => V::A(vec![v]),
                1 => V::M(vec![("k".into(), v)]),
                _ => V::Tag(i as u64, Box::new(v)),
            };
        }
    }
    let mut o = vec![];
    enc_v(&v, &mut o);
    cx.note(|| format!("{v:?} = {}", hexs(&o)));
    if matches!(v, V::A(_) | V::M(_)) {
        cx.nontrivial();
    }
    match no_panic(|| parse_cbor(&o).map_err(|e| e.to_string())) {
        Err(p) => return fail("panic", format!("parse_cbor panicked on {}: {p}", hexs(&o))),
        Ok(Ok(c)) => ensure!(same(&v, &c), "value", "{} decodes as {c:?}, want {v:?}", hexs(&o)),
        Ok(Err(e)) => ensure!(has_huge_negative(&v), "value", "{} is refused: {e}", hexs(&o)),
    }
    let cut = cx.range(0, o.len() - 1);
    ensure!(parse_cbor(&o[..cut]).is_err(), "truncated", "the first {cut} bytes of {} decode as {:?}", hexs(&o), parse_cbor(&o[..cut]).ok());
    Ok(())
}

// ------------------------------------------------------------------ hostile data

fn gen_seed(cx: &mut Cx) -> Vec<u8> {
    match cx.weighted(&[3, 3, 2, 2, 1]) {
        0 => {
            let d = cx.range(0, 2);
            gen_tree(cx, d, true).cbor()
        }
        1 => {
            let tree = gen_tree(cx, 1, true);
            let delegation = cx.bool().then(|| Deleg {
                subnet_id: vec![1, 2, 3],
                certificate: cx.blob(8),
            });
            Cert { tree, signature: vec![7; 48], delegation }.cbor()
        }
        2 => {
            let n = *cx.pick(&[10usize, 29, 30, 31, 64]);
            ranges_cbor(&[(vec![1; 10], cx.blob(n))])
        }
        3 => {
            let v = gen_v(cx, 3);
            let mut o = vec![];
            enc_v(&v, &mut o);
            o
        }
        _ => {
            let n = cx.range(0, 30);
            cx.bytes(n)
        }
    }
}

/// Interesting heads, among them lengths no input can hold.
const HEADS: &[&[u8]] = &[
    &[0x80], &[0x81], &[0x83, 0x01], &[0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
    &[0x9b, 0, 0, 0, 0x10, 0, 0, 0, 0], &[0x9a, 0xff, 0xff, 0xff, 0xff], &[0xa0], &[0xa1],
    &[0xbb, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0xbb, 0, 0, 0, 0x10, 0, 0, 0, 0], &[0xba, 0, 0x80, 0, 0],
    &[0xba, 0xff, 0xff, 0xff, 0xff], &[0x5b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
    &[0x5b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x5a, 0xff, 0xff, 0xff, 0xff], &[0x7b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
    &[0x9f], &[0xbf], &[0x5f], &[0xff], &[0xf6], &[0xf4], &[0xfb, 0, 0, 0, 0, 0, 0, 0, 0], &[0xc0], &[0xd9, 0xd9, 0xf7],
    &[0x38, 0x80], &[0x38, 0xff], &[0x39, 0x80, 0], &[0x3a, 0x80, 0, 0, 0], &[0x3b, 0x80, 0, 0, 0, 0, 0, 0, 0],
    &[0x3b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x1b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x1c], &[0x18],
];

pub fn mutate(cx: &mut Cx, mut b: Vec<u8>, rounds: usize) -> Vec<u8> {
    for _ in 0..rounds {
        if b.is_empty() {
            b.push(cx.draw(256) as u8);
        }
        let i = cx.draw(b.len() as u64) as usize;
        match cx.draw(8) {
            0 => b[i] ^= 1 << cx.draw(8),
            1 => b[i] = cx.draw(256) as u8,
            2 => b.truncate(i),
            3 => {
                let h = *cx.pick(HEADS);
                b.splice(i..i, h.iter().copied());
            }
            4 => {
                let h = *cx.pick(HEADS);
                b.splice(i..i + 1, h.iter().copied());
            }
            5 => {
                let j = (i + cx.range(1, 8)).min(b.len());
                let part = b[i..j].to_vec();
                let at = cx.range(0, b.len());
                b.splice(at..at, part);
            }
            6 => {
                let j = (i + cx.range(1, 4)).min(b.len());
                b.drain(i..j);
            }
            _ => {
                let h = *cx.pick(HEADS);
                let e = b.len().min(i + h.len());
                b.splice(i..e, h.iter().copied());
            }
        }
    }
    b
}

pub fn gen_hostile(cx: &mut Cx) -> Vec<u8> {
    match cx.weighted(&[8, 2, 1]) {
        0 => {
            let s = gen_seed(cx);
            let n = cx.range(1, 4);
            mutate(cx, s, n)
        }
        1 => {
            // a unit repeated: nesting bombs of every kind
            let units: &[&[u8]] = &[
                &[0x81], &[0x82, 0x41, 0x61], &[0x83, 0x01], &[0x83, 0x01, 0x81, 0x00], &[0x83, 0x02, 0x41, 0x61], &[0xa1, 0x61, 0x61],
                &[0xd9, 0xd9, 0xf7], &[0xc0], &[0xf6], &[0x9a, 0xff, 0xff, 0xff, 0xff], &[0xbb, 0, 0, 0, 0, 0, 0, 0x10, 0, 0x61, 0x61],
                &[0x19, 0xff, 0xff], &[0x82, 0x80], &[0xf9, 0, 0], &[0x81, 0xc1],
            ];
            let unit = *cx.pick(units);
            let n = match cx.draw(4) {
                0 => cx.range(1, 40),
                1 => cx.range(100, 600),
                2 => cx.range(1_000, 4_000),
                _ => cx.range(10_000, 60_000),
            };
            let mut b = vec![];
            if cx.chance(1, 4) {
                b.extend([0xa1, 0x64]);
                b.extend(b"tree");
            }
            for _ in 0..n {
                b.extend(unit);
            }
            match cx.draw(3) {
                0 => {}
                1 => b.extend([0x82, 0x03, 0x41, 0x61]),
                _ => {
                    b.extend([0x82, 0x03, 0x41, 0x61]);
                    b.extend(vec![0x80; n.min(4000)]);
                }
            }
            cx.label("bomb");
            b
        }
        _ => {
            let n = cx.range(0, 64);
            cx.bytes(n)
        }
    }
}

fn bound(what: &str, b: &[u8], m: alloc::Mem) -> Res {
    // generous: a node of the parsed value is tens of bytes, a pre-allocated array up to 64 KiB per level
    ensure!(m.largest <= 128 * b.len() + (1 << 18), "alloc", "{what}: {} bytes of input make one allocation of {} bytes", b.len(), m.largest);
    ensure!(m.peak <= 1024 * b.len() + (64 << 20), "alloc", "{what}: {} bytes of input use {} bytes of memory", b.len(), m.peak);
    ensure!(m.total <= 4096 * b.len() + (128 << 20), "alloc", "{what}: {} bytes of input allocate {} bytes in total", b.len(), m.total);
    Ok(())
}

/// Lists that are almost, or not quite, canister ranges or lists of strings.
fn lists(cx: &mut Cx) -> Res {
    enum E {
        Bytes(Vec<u8>),
        Text(String),
        Other,
    }
    fn element(cx: &mut Cx, o: &mut Vec<u8>, odd: bool) -> E {
        match if odd { cx.weighted(&[4, 2, 1, 1, 1]) } else { 0 } {
            0 => {
                let n = *cx.pick(&[0usize, 1, 2, 10, 28, 29, 29, 10]);
                let n = if odd && cx.chance(1, 4) { cx.range(28, 40) } else { n };
                let b = if cx.chance(1, 3) { cx.blob(n) } else { cx.bytes(n) };
                cbor::bytes(o, &b);
                E::Bytes(b)
            }
            1 => {
                let t = cx.pick(&["", "a", "http_expr", "é", "<*>"]).to_string();
                cbor::text(o, &t);
                E::Text(t)
            }
            2 => {
                let n = *cx.pick(&[0u64, 1, 4, 5, 23, 24, 300, 1 << 40]);
                cbor::head(o, 0, n);
                E::Other
            }
            3 => {
                cbor::array(o, 0);
                E::Other
            }
            _ => {
                cbor::map(o, 0);
                E::Other
            }
        }
    }
    let mut o = vec![];
    if cx.bool() {
        cbor::self_describe(&mut o);
    }
    let n = cx.weighted(&[1, 4, 3, 1]);
    cbor::array(&mut o, n);
    if cx.bool() {
        // None: not to be accepted; Some(None): not judged
        let mut want: Option<Vec<Option<(Vec<u8>, Vec<u8>)>>> = Some(vec![]);
        let mut judged = true;
        for _ in 0..n {
            if cx.chance(1, 12) {
                element(cx, &mut o, true);
                want = None;
                continue;
            }
            let k = if cx.chance(1, 4) { cx.draw(5) as usize } else { 2 };
            let odd = cx.chance(1, 3);
            cbor::array(&mut o, k);
            let es: Vec<E> = (0..k).map(|_| element(cx, &mut o, odd)).collect();
            let of = |e: Option<&E>| match e {
                Some(E::Bytes(b)) if b.len() <= 29 => Some((b.clone(), true)),
                Some(E::Text(t)) if t.len() <= 29 => Some((t.clone().into_bytes(), false)),
                _ => None,
            };
            match (of(es.first()), of(es.get(1))) {
                (Some((a, x)), Some((b, y))) => {
                    // more than two principals, or texts in their place, may be refused
                    judged &= k == 2 && x && y;
                    if let Some(w) = &mut want {
                        w.push(Some((a, b)));
                    }
                }
                _ => want = None,
            }
        }
        cx.nontrivial();
        cx.label(if want.is_some() { "ranges" } else { "no ranges" });
        let got = no_panic(|| parse_cbor_principals_array(&o)).or_else(|p| fail("panic", format!("{}: {p}", hexs(&o))))?;
        cx.note(|| format!("{}: {got:?}", hexs(&o)));
        match (want, got) {
            (None, Ok(g)) => return fail("ranges", format!("{} is read as {g:?}", hexs(&o))),
            (Some(w), Ok(g)) => {
                let w: Vec<_> = w.into_iter().flatten().map(|(a, b)| (Principal::from_slice(&a), Principal::from_slice(&b))).collect();
                ensure!(g == w, "ranges", "{} is read as {g:?}, not {w:?}", hexs(&o));
            }
            (Some(_), Err(e)) => ensure!(!judged, "ranges", "{} is refused: {e}", hexs(&o)),
            (None, Err(_)) => {}
        }
    } else {
        let mut want: Option<Vec<String>> = Some(vec![]);
        let odd = cx.bool();
        for _ in 0..n {
            let odd = odd || cx.chance(1, 4);
            let e = element(cx, &mut o, odd);
            let s = match e {
                E::Bytes(b) => String::from_utf8(b).ok(),
                E::Text(t) => Some(t),
                E::Other => None,
            };
            match (s, &mut want) {
                (Some(s), Some(w)) => w.push(s),
                _ => want = None,
            }
        }
        cx.nontrivial();
        cx.label(if want.is_some() { "strings" } else { "no strings" });
        let got = no_panic(|| parse_cbor_string_array(&o)).or_else(|p| fail("panic", format!("{}: {p}", hexs(&o))))?;
        cx.note(|| format!("{}: {got:?}", hexs(&o)));
        ensure!(got.as_ref().ok() == want.as_ref(), "strings", "{} is read as {got:?}, not {want:?}", hexs(&o));
    }
    Ok(())
}

fn hostile(cx: &mut Cx) -> Res {
    let b = gen_hostile(cx);
    cx.note(|| hexs(&b));
    if b.len() > 2 {
        cx.nontrivial();
    }
    let run = |what: &str, f: &mut dyn FnMut()| -> Res {
        let (r, m) = alloc::measure(|| no_panic(|| f()));
        match r {
            Err(p) => fail("panic", format!("{what} panicked on {}: {p}", hexs(&b))),
            Ok(()) => bound(what, &b, m),
        }
    };
    run("parse_cbor", &mut || drop(parse_cbor(&b).map(|_| ()).map_err(|_| ())))?;
    let mut tree: Option<ic::HashTree> = None;
    run("HashTree::from_cbor", &mut || tree = <ic::HashTree as HashTreeToCbor>::from_cbor(&b).ok())?;
    let mut cert: Option<ic::Certificate> = None;
    run("Certificate::from_cbor", &mut || cert = <ic::Certificate as CertificateToCbor>::from_cbor(&b).ok())?;
    run("parse_cbor_principals_array", &mut || drop(parse_cbor_principals_array(&b)))?;
    run("parse_cbor_string_array", &mut || drop(parse_cbor_string_array(&b)))?;
    let stree: Option<HashTree<Vec<u8>>> = no_panic(|| serde_cbor::from_slice(&b).ok()).or_else(|p| fail("panic", format!("serde tree: {p}")))?;
    let scert: Option<ic::Certificate> = no_panic(|| serde_cbor::from_slice(&b).ok()).or_else(|p| fail("panic", format!("serde certificate: {p}")))?;
    no_panic(|| {
        let _ = serde_cbor::from_slice::<HashTree<&[u8]>>(&b);
        let _ = serde_cbor::from_slice::<HashTree<Cow<[u8]>>>(&b);
        let _ = serde_cbor::from_slice::<ic::certificate::Certificate<&[u8]>>(&b);
        let _ = serde_cbor::from_slice::<ic::certificate::Certificate<Cow<[u8]>>>(&b);
    })
    .or_else(|p| fail("panic", format!("serde borrowed: {p}")))?;
    if let (Some(a), Some(c)) = (&tree, &stree) {
        cx.label("both read a tree");
        ensure!(a == c, "disagree", "the decoders read different trees from {}: {:?} and {:?}", hexs(&b), T::of_tree(a), T::of_tree(c));
    }
    if let (Some(a), Some(c)) = (&cert, &scert) {
        cx.label("both read a certificate");
        ensure!(a == c, "disagree", "the decoders read different certificates from {}", hexs(&b));
    }
    if b.len() <= 4096 {
        super::reader::judge(&b)?;
    }
    // what was read can be used
    if let Some(t) = tree.or(cert.map(|c| c.tree)) {
        cx.label("read");
        no_panic(|| {
            t.digest();
            t.lookup_path(["a", "b"]);
            t.lookup_subtree(["a".as_bytes()]);
            if b.len() < 2000 {
                t.list_paths();
            }
        })
        .or_else(|p| fail("panic", format!("using the tree read from {} panicked: {p}", hexs(&b))))?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "random trees, certificates, canister range and string arrays and generic CBOR values, encoded by the harness' own writer (both with and without the self-describe tag, minimal and non-minimal heads, any field order) and decoded by ic-cbor and by serde with each storage type, and encoded by serde; strict prefixes must be refused; non-trivial: trees of at least 3 nodes, certificates with a delegation, arrays of at least 2 entries, values that are containers; distinct by choice sequence",
            assumptions: &["integers 0-4 are read as hash tree node tags, as documented in the parser"],
            subs: vec![
                sub("trees", 200_000, 2_000_000, trees),
                sub("certificates", 160_000, 1_500_000, certificates),
                sub("arrays", 200_000, 1_000_000, arrays),
                sub("values", 500_000, 3_000_000, values),
            ],
        },
        Prop {
            id: "C09",
            rule: "mutated encodings (bit flips, truncation, spliced and inflated heads, duplicated runs), nesting bombs and random bytes given to every decoder, watching for panics, crashes, memory out of proportion (counting allocator) and disagreement between decoders (hostile); lists that are almost canister ranges or strings, against what they are (lists); trees and certificates with elements, fields, tags, types, lengths and digests changed, against a reader of the harness' own (malformed; applied to the hostile inputs too); non-trivial: more than 2 bytes; distinct by choice sequence",
            assumptions: &["8 MiB of stack", "memory: one allocation at most 128 bytes per input byte + 256 KiB"],
            subs: vec![sub("hostile", 150_000, 6_000_000, hostile), sub("lists", 400_000, 3_000_000, lists), sub("malformed", 400_000, 5_000_000, super::reader::malformed)],
        },
    ]
}
