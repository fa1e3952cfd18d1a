//! A CBOR reader of our own (RFC 8949, definite lengths), what it makes of trees and certificates,
//! and the comparison of the decoders under test with it.
use crate::{engine::*, ensure, util::*};
use ic_cbor::*;
use ic_certification as ic;
use ic_certification::hash_tree::HashTree;
use std::borrow::Cow;

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    /// the value and the bytes its argument takes (0: in the head)
    U(u64, u8),
    Neg(u64),
    B(Vec<u8>),
    /// text, which may not be UTF-8
    S(Vec<u8>),
    A(Vec<R>),
    M(Vec<(R, R)>),
    Tag(u64, Box<R>),
}

pub enum Own {
    Read(R, usize),
    Malformed,
    /// simple values, floats, indefinite lengths, very deep nesting: not judged
    Skip,
}

enum Stop {
    Malformed,
    Skip,
}

struct Reader<'a> {
    b: &'a [u8],
    i: usize,
    deepest: usize,
}

impl Reader<'_> {
    fn take(&mut self, n: u64) -> Result<&[u8], Stop> {
        if n > (self.b.len() - self.i) as u64 {
            return Err(Stop::Malformed);
        }
        let s = &self.b[self.i..self.i + n as usize];
        self.i += n as usize;
        Ok(s)
    }
    fn item(&mut self, depth: usize) -> Result<R, Stop> {
        if depth > 300 {
            return Err(Stop::Skip);
        }
        self.deepest = self.deepest.max(depth);
        let h = self.take(1)?[0];
        if h >> 5 == 7 {
            return Err(Stop::Skip);
        }
        let (n, w) = match h & 31 {
            n @ 0..=23 => (n as u64, 0),
            k @ 24..=27 => {
                let w = 1u8 << (k - 24);
                (self.take(w as u64)?.iter().fold(0u64, |n, b| n << 8 | *b as u64), w)
            }
            31 => return Err(Stop::Skip),
            _ => return Err(Stop::Malformed),
        };
        Ok(match h >> 5 {
            0 => R::U(n, w),
            1 => R::Neg(n),
            2 => R::B(self.take(n)?.to_vec()),
            3 => R::S(self.take(n)?.to_vec()),
            4 => {
                let mut a = vec![];
                for _ in 0..n {
                    a.push(self.item(depth + 1)?);
                }
                R::A(a)
            }
            5 => {
                let mut m = vec![];
                for _ in 0..n {
                    m.push((self.item(depth + 1)?, self.item(depth + 1)?));
                }
                R::M(m)
            }
            _ => R::Tag(n, Box::new(self.item(depth + 1)?)),
        })
    }
}

pub fn read(b: &[u8]) -> Own {
    let mut r = Reader { b, i: 0, deepest: 0 };
    match r.item(1) {
        Ok(x) if r.i == b.len() => Own::Read(x, r.deepest),
        Ok(_) | Err(Stop::Malformed) => Own::Malformed,
        Err(Stop::Skip) => Own::Skip,
    }
}

fn untag(r: &R) -> &R {
    match r {
        R::Tag(_, x) => untag(x),
        x => x,
    }
}

fn key_of(r: &R) -> Option<&str> {
    match untag(r) {
        R::B(b) | R::S(b) => std::str::from_utf8(b).ok(),
        _ => None,
    }
}

/// May the generic parser refuse it although it is well-formed?
fn refusable(r: &R) -> bool {
    match r {
        R::U(..) | R::B(_) => false,
        R::Neg(n) => *n > i64::MAX as u64,
        R::S(s) => std::str::from_utf8(s).is_err(),
        R::A(a) => a.iter().any(refusable),
        R::M(m) => m.iter().any(|(k, v)| refusable(k) || refusable(v) || key_of(k).is_none()),
        R::Tag(_, x) => refusable(x),
    }
}

fn same(r: &R, c: &CborValue) -> bool {
    match (untag(r), c) {
        (R::U(n, _), CborValue::Unsigned(u)) => {
            *n == match *u {
                CborUnsignedInt::UInt8(x) => x as u64,
                CborUnsignedInt::UInt16(x) => x as u64,
                CborUnsignedInt::UInt32(x) => x as u64,
                CborUnsignedInt::UInt64(x) => x,
            }
        }
        (R::U(n, _), CborValue::HashTree(h)) => {
            *n == match h {
                CborHashTree::Empty => 0,
                CborHashTree::Fork => 1,
                CborHashTree::Labelled => 2,
                CborHashTree::Leaf => 3,
                CborHashTree::Pruned => 4,
            }
        }
        (R::Neg(n), CborValue::Signed(s)) => {
            -1 - (*n as i128)
                == match *s {
                    CborNegativeInt::Int8(x) => x as i128,
                    CborNegativeInt::Int16(x) => x as i128,
                    CborNegativeInt::Int32(x) => x as i128,
                    CborNegativeInt::Int64(x) => x as i128,
                }
        }
        (R::B(b) | R::S(b), CborValue::ByteString(c)) => b == c,
        (R::A(a), CborValue::Array(c)) => a.len() == c.len() && a.iter().zip(c).all(|(x, y)| same(x, y)),
        (R::M(m), CborValue::Map(c)) => {
            // of a key given more than once the last value
            let want: std::collections::HashMap<&str, &R> = m.iter().filter_map(|(k, v)| Some((key_of(k)?, v))).collect();
            m.iter().all(|(k, _)| key_of(k).is_some())
                && want.len() == c.len()
                && want.iter().all(|(k, v)| c.get(*k).is_some_and(|x| same(v, x)))
        }
        _ => false,
    }
}

/// How far what was read is from what the specification writes.
#[derive(Default, Clone, Copy, Debug)]
struct Dev {
    /// tags inside, text or numbers in place of bytes, wide node tags: may be refused or read
    odd: bool,
    /// elements too many, or a field given twice: the serde decoders refuse it, ic-cbor may read it
    extra: bool,
}

fn bytes_of(r: &R, d: &mut Dev) -> Option<Vec<u8>> {
    match r {
        R::B(b) => Some(b.clone()),
        R::S(b) => {
            d.odd = true;
            Some(b.clone())
        }
        R::A(a) => {
            d.odd = true;
            a.iter().map(|x| if let R::U(n, _) = untag(x) { u8::try_from(*n).ok() } else { None }).collect()
        }
        R::Tag(_, x) => {
            d.odd = true;
            bytes_of(x, d)
        }
        _ => None,
    }
}

fn tree_of(r: &R, d: &mut Dev) -> Option<T> {
    if let R::Tag(_, _) = r {
        d.odd = true;
    }
    let R::A(a) = untag(r) else { return None };
    let tag = a.first()?;
    if let R::Tag(..) = tag {
        d.odd = true;
    }
    let R::U(n, w) = untag(tag) else { return None };
    d.odd |= *w > 1;
    let (t, len) = match n {
        0 => (T::Empty, 1),
        1 => (T::Fork(Box::new(tree_of(a.get(1)?, d)?), Box::new(tree_of(a.get(2)?, d)?)), 3),
        2 => (T::Label(bytes_of(a.get(1)?, d)?, Box::new(tree_of(a.get(2)?, d)?)), 3),
        3 => (T::Leaf(bytes_of(a.get(1)?, d)?), 2),
        4 => (T::Pruned(bytes_of(a.get(1)?, d)?.try_into().ok()?), 2),
        _ => return None,
    };
    d.extra |= a.len() > len;
    d.odd |= a.len() > len && a[len..].iter().any(refusable);
    Some(t)
}

fn fields<'a>(m: &'a [(R, R)], names: &[&str], d: &mut Dev) -> Vec<Option<&'a R>> {
    let mut out = vec![None; names.len()];
    for (k, v) in m {
        let i = match untag(k) {
            R::U(n, _) => {
                d.odd = true;
                (*n < names.len() as u64).then_some(*n as usize)
            }
            _ => key_of(k).and_then(|k| names.iter().position(|n| *n == k)),
        };
        d.odd |= !matches!(k, R::S(_)) || i.is_none();
        if let Some(i) = i {
            d.extra |= out[i].is_some();
            out[i] = Some(v);
        }
    }
    out
}

/// The certificate, and whether a delegation is there that is not a map.
fn cert_of(r: &R, d: &mut Dev) -> Option<(Cert, bool)> {
    let r = match r {
        R::Tag(55799, x) => x,
        x => x,
    };
    if let R::Tag(..) = r {
        d.odd = true;
    }
    let R::M(m) = untag(r) else { return None };
    let f = fields(m, &["tree", "signature", "delegation"], d);
    let tree = tree_of(f[0]?, d)?;
    let signature = bytes_of(f[1]?, d)?;
    let mut strange = false;
    let delegation = match f[2].map(|x| (x, untag(x))) {
        Some((x, R::M(m))) => {
            d.odd |= x != untag(x);
            let f = fields(m, &["subnet_id", "certificate"], d);
            Some(Deleg { subnet_id: bytes_of(f[0]?, d)?, certificate: bytes_of(f[1]?, d)? })
        }
        Some(_) => {
            d.odd = true;
            strange = true;
            None
        }
        None => None,
    };
    Some((Cert { tree, signature, delegation }, strange))
}

fn strip(r: &R) -> &R {
    match r {
        R::Tag(55799, x) => x,
        x => x,
    }
}

/// Every decoder of trees and certificates, and the generic one, against the reader.
pub fn judge(b: &[u8]) -> Res {
    let panicked = |what: &'static str| move |p: String| fail::<()>("panic", format!("{what}: {p}")).unwrap_err();
    let value = no_panic(|| parse_cbor(b).map_err(|e| e.to_string())).map_err(panicked("parse_cbor"))?;
    let tree = no_panic(|| <ic::HashTree as HashTreeToCbor>::from_cbor(b).map_err(|e| e.to_string())).map_err(panicked("from_cbor"))?;
    let cert = no_panic(|| <ic::Certificate as CertificateToCbor>::from_cbor(b).map_err(|e| e.to_string())).map_err(panicked("from_cbor"))?;
    type Sr<X> = Result<X, String>;
    let strees: Vec<(&str, Sr<T>)> = no_panic(|| {
        vec![
            ("serde tree, Vec", serde_cbor::from_slice::<HashTree<Vec<u8>>>(b).map(|t| T::of_tree(&t)).map_err(|e| e.to_string())),
            ("serde tree, slice", serde_cbor::from_slice::<HashTree<&[u8]>>(b).map(|t| T::of_tree(&t)).map_err(|e| e.to_string())),
            ("serde tree, Cow", serde_cbor::from_slice::<HashTree<Cow<[u8]>>>(b).map(|t| T::of_tree(&t)).map_err(|e| e.to_string())),
        ]
    })
    .map_err(panicked("serde tree"))?;
    fn own<S: AsRef<[u8]>>(c: ic::certificate::Certificate<S>) -> Cert {
        Cert {
            tree: T::of_tree(&c.tree),
            signature: c.signature.as_ref().to_vec(),
            delegation: c.delegation.map(|d| Deleg { subnet_id: d.subnet_id.as_ref().to_vec(), certificate: d.certificate.as_ref().to_vec() }),
        }
    }
    let scerts: Vec<(&str, Sr<Cert>)> = no_panic(|| {
        vec![
            ("serde certificate, Vec", serde_cbor::from_slice::<ic::Certificate>(b).map(own).map_err(|e| e.to_string())),
            ("serde certificate, slice", serde_cbor::from_slice::<ic::certificate::Certificate<&[u8]>>(b).map(own).map_err(|e| e.to_string())),
            ("serde certificate, Cow", serde_cbor::from_slice::<ic::certificate::Certificate<Cow<[u8]>>>(b).map(own).map_err(|e| e.to_string())),
        ]
    })
    .map_err(panicked("serde certificate"))?;

    let (r, deepest) = match read(b) {
        Own::Skip => return Ok(()),
        Own::Malformed => {
            ensure!(value.is_err(), "malformed", "{} is not CBOR and is read as {:?}", hexs(b), value.ok());
            ensure!(tree.is_err(), "malformed", "{} is not CBOR and is read as a tree", hexs(b));
            ensure!(cert.is_err(), "malformed", "{} is not CBOR and is read as a certificate", hexs(b));
            for (what, t) in &strees {
                ensure!(t.is_err(), "malformed", "{what}: {} is not CBOR and is read as {:?}", hexs(b), t);
            }
            for (what, t) in &scerts {
                ensure!(t.is_err(), "malformed", "{what}: {} is not CBOR and is read as a certificate", hexs(b));
            }
            return Ok(());
        }
        Own::Read(r, deepest) => (r, deepest),
    };
    let refused = refusable(&r) || deepest > 100;
    match &value {
        Ok(v) => ensure!(same(&r, v), "value", "{} is read as {v:?}, not as {r:?}", hexs(b)),
        Err(e) => ensure!(refused, "value", "{} is refused: {e}", hexs(b)),
    }

    let mut d = Dev::default();
    let want = tree_of(strip(&r), &mut d);
    let must = want.is_some() && !d.odd && !d.extra && !refused;
    let all = std::iter::once(("ic-cbor tree", tree.map(|t| T::of_tree(&t)))).chain(strees);
    for (what, got) in all {
        match (&want, got) {
            (_, Err(e)) => ensure!(!must, "tree", "{what}: the tree {} is refused: {e}", hexs(b)),
            (None, Ok(t)) => return fail("tree", format!("{what}: {} is no tree and is read as {t:?}", hexs(b))),
            (Some(w), Ok(t)) => {
                ensure!(*w == t, "tree", "{what}: {} is read as {t:?}, not as {w:?}", hexs(b));
                ensure!(!d.extra || what.starts_with("ic-cbor"), "tree", "{what}: {} has elements too many and is read as {t:?}", hexs(b));
            }
        }
    }

    let mut d = Dev::default();
    let want = cert_of(&r, &mut d);
    let must = want.is_some() && !d.odd && !d.extra && !refused;
    match (&want, cert.map(own)) {
        (_, Err(e)) => ensure!(!must, "certificate", "the certificate {} is refused: {e}", hexs(b)),
        (None, Ok(c)) => return fail("certificate", format!("{} is no certificate and is read as {c:?}", hexs(b))),
        (Some((w, _)), Ok(c)) => ensure!(*w == c, "certificate", "{} is read as {c:?}, not as {w:?}", hexs(b)),
    }
    for (what, got) in scerts {
        match (&want, got) {
            (_, Err(e)) => ensure!(!must, "certificate", "{what}: the certificate {} is refused: {e}", hexs(b)),
            // structs may be written as arrays
            _ if matches!(untag(&r), R::A(_)) => {}
            (None, Ok(c)) => {
                // the parts of a delegation may be in an array
                ensure!(array_delegation(&r), "certificate", "{what}: {} is no certificate and is read as {c:?}", hexs(b));
            }
            (Some((w, strange)), Ok(c)) => {
                ensure!(*w == c || *strange, "certificate", "{what}: {} is read as {c:?}, not as {w:?}", hexs(b));
                ensure!(!d.extra, "certificate", "{what}: {} has parts too many and is read as {c:?}", hexs(b));
            }
        }
    }
    Ok(())
}

fn array_delegation(r: &R) -> bool {
    match untag(r) {
        R::M(m) => m.iter().any(|(_, v)| matches!(untag(v), R::A(_) if tree_of(v, &mut Dev::default()).is_none())),
        _ => false,
    }
}

// ------------------------------------------------------------------ encodings nearly right

fn r_of(t: &T) -> R {
    let u = |n| R::U(n, 0);
    match t {
        T::Empty => R::A(vec![u(0)]),
        T::Fork(l, r) => R::A(vec![u(1), r_of(l), r_of(r)]),
        T::Label(l, t) => R::A(vec![u(2), R::B(l.clone()), r_of(t)]),
        T::Leaf(v) => R::A(vec![u(3), R::B(v.clone())]),
        T::Pruned(h) => R::A(vec![u(4), R::B(h.to_vec())]),
    }
}

fn s(x: &str) -> R {
    R::S(x.as_bytes().to_vec())
}

fn r_of_cert(c: &Cert) -> R {
    let mut m = vec![(s("tree"), r_of(&c.tree)), (s("signature"), R::B(c.signature.clone()))];
    if let Some(d) = &c.delegation {
        m.push((s("delegation"), R::M(vec![(s("subnet_id"), R::B(d.subnet_id.clone())), (s("certificate"), R::B(d.certificate.clone()))])));
    }
    R::M(m)
}

fn count(r: &R) -> usize {
    1 + match r {
        R::A(a) => a.iter().map(count).sum(),
        R::M(m) => m.iter().map(|(k, v)| count(k) + count(v)).sum(),
        R::Tag(_, x) => count(x),
        _ => 0,
    }
}

fn nth<'a>(r: &'a mut R, n: &mut usize) -> Option<&'a mut R> {
    if *n == 0 {
        return Some(r);
    }
    *n -= 1;
    match r {
        R::A(a) => a.iter_mut().find_map(|x| nth(x, n)),
        R::M(m) => {
            for (k, v) in m {
                if let Some(x) = nth(k, n) {
                    return Some(x);
                }
                if let Some(x) = nth(v, n) {
                    return Some(x);
                }
            }
            None
        }
        R::Tag(_, x) => nth(x, n),
        _ => None,
    }
}

fn small(cx: &mut Cx) -> R {
    match cx.draw(8) {
        0 => R::U(cx.draw(6), 0),
        1 => R::B(gen_value(cx)),
        2 => R::A(vec![R::U(0, 0)]),
        3 => R::A(vec![]),
        4 => R::M(vec![]),
        5 => s("tree"),
        6 => R::Neg(cx.draw(300)),
        _ => R::A(vec![R::U(3, 0), R::B(gen_value(cx))]),
    }
}

fn deviate(cx: &mut Cx, r: &mut R) {
    let n = count(r);
    let mut i = cx.draw(n as u64) as usize;
    let Some(x) = nth(r, &mut i) else { return };
    match cx.draw(8) {
        0 => {
            let t = *cx.pick(&[0u64, 1, 2, 24, 55799, 300, 1 << 40]);
            *x = R::Tag(t, Box::new(x.clone()));
            return;
        }
        1 => {
            *x = R::A(vec![x.clone()]);
            return;
        }
        2 => {
            *x = small(cx);
            return;
        }
        _ => {}
    }
    match x {
        R::U(n, w) => match cx.draw(4) {
            0 => *w = *cx.pick(&[1, 2, 4, 8]),
            1 => *n = cx.draw(7),
            2 => {
                *n = n.wrapping_add(1 << *cx.pick(&[3u32, 5, 8, 16, 32, 63]));
                *w = 8;
            }
            _ => *x = R::Neg(*n),
        },
        R::B(b) => match cx.draw(6) {
            0 => *x = R::S(b.clone()),
            1 => *x = R::A(b.iter().map(|b| R::U(*b as u64, 0)).collect()),
            2 => b.push(cx.draw(256) as u8),
            3 => drop(b.pop()),
            4 => {
                let n = *cx.pick(&[0usize, 31, 32, 33, 64]);
                *b = cx.bytes(n);
            }
            _ => b.insert(0, 0xff),
        },
        R::S(b) => match cx.draw(6) {
            0 => *x = R::B(b.clone()),
            1 => b.push(*cx.pick(&[0xff, b' ', 0, 0xc3])),
            2 => b[..].make_ascii_uppercase(),
            3 => drop(b.pop()),
            4 => *x = R::U(cx.draw(4), 0),
            _ => {
                let mut c = b.clone();
                c.push(0xff);
                *x = R::B(c);
            }
        },
        R::A(a) => match cx.draw(6) {
            0 => a.push(small(cx)),
            1 => drop(a.pop()),
            2 if !a.is_empty() => {
                let i = cx.draw(a.len() as u64) as usize;
                a.remove(i);
            }
            3 if !a.is_empty() => {
                let i = cx.draw(a.len() as u64) as usize;
                let y = a[i].clone();
                a.insert(i, y);
            }
            4 if !a.is_empty() => {
                let i = cx.draw(a.len() as u64) as usize;
                a[i..].rotate_left(1);
            }
            _ => {
                let i = cx.range(0, a.len());
                let y = small(cx);
                a.insert(i, y);
            }
        },
        R::M(m) => match cx.draw(5) {
            0 if !m.is_empty() => {
                let i = cx.draw(m.len() as u64) as usize;
                m.remove(i);
            }
            1 | 2 if !m.is_empty() => {
                // a field twice, with the same or another value
                let i = cx.draw(m.len() as u64) as usize;
                let (k, mut v) = m[i].clone();
                if cx.bool() {
                    deviate(cx, &mut v);
                }
                let at = cx.range(0, m.len());
                m.insert(at, (k, v));
            }
            _ => {
                let k = *cx.pick(&["tree", "signature", "delegation", "subnet_id", "certificate", "x", "", "canister_ranges"]);
                let v = small(cx);
                let at = cx.range(0, m.len());
                m.insert(at, (s(k), v));
            }
        },
        R::Neg(n) => *n ^= 1,
        R::Tag(n, _) => *n ^= 1,
    }
}

/// Writes it; the head of item number `inflate` gets a bit of its argument set that no input can fill.
fn write(cx: &mut Cx, r: &R, wide: bool, n: &mut usize, inflate: Option<(usize, u32)>, o: &mut Vec<u8>) {
    let here = *n;
    *n += 1;
    let mut head = |cx: &mut Cx, o: &mut Vec<u8>, major: u8, len: usize| {
        let w = if wide { *cx.pick(&[0u8, 1, 2, 4, 8]) } else { 0 };
        match inflate {
            Some((i, bit)) if i == here => {
                let w = if bit < 16 { 2 } else if bit < 32 { 4 } else { 8 };
                cbor::head_w(o, major, len as u64 + (1u64 << bit), w)
            }
            _ => cbor::head_w(o, major, len as u64, w),
        }
    };
    match r {
        R::U(v, w) => cbor::head_w(o, 0, *v, *w),
        R::Neg(v) => cbor::head(o, 1, *v),
        R::B(b) => {
            head(cx, o, 2, b.len());
            o.extend(b);
        }
        R::S(b) => {
            head(cx, o, 3, b.len());
            o.extend(b);
        }
        R::A(a) => {
            head(cx, o, 4, a.len());
            a.iter().for_each(|x| write(cx, x, wide, n, inflate, o));
        }
        R::M(m) => {
            head(cx, o, 5, m.len());
            for (k, v) in m {
                write(cx, k, wide, n, inflate, o);
                write(cx, v, wide, n, inflate, o);
            }
        }
        R::Tag(t, x) => {
            cbor::head(o, 6, *t);
            write(cx, x, wide, n, inflate, o);
        }
    }
}

/// Trees and certificates that are almost what the specification writes.
pub fn malformed(cx: &mut Cx) -> Res {
    let d = cx.range(0, 2);
    let tree = gen_tree(cx, d, true).prune(cx, 3);
    let mut r = if cx.bool() {
        r_of(&tree)
    } else {
        let delegation = cx.bool().then(|| Deleg { subnet_id: vec![1, 2, 3], certificate: cx.blob(8) });
        r_of_cert(&Cert { tree, signature: vec![7; 4], delegation })
    };
    let n = cx.weighted(&[1, 6, 3, 1]);
    for _ in 0..n {
        deviate(cx, &mut r);
    }
    let wide = cx.chance(1, 6);
    let inflate = cx.chance(1, 6).then(|| (cx.draw(count(&r) as u64) as usize, *cx.pick(&[8u32, 15, 16, 23, 24, 31, 32, 33, 40, 47, 48, 56, 62, 63])));
    let mut o = vec![];
    if cx.bool() {
        cbor::self_describe(&mut o);
    }
    write(cx, &r, wide, &mut 0, inflate, &mut o);
    cx.note(|| format!("{r:?} {inflate:?}: {}", hexs(&o)));
    if n > 0 || inflate.is_some() {
        cx.nontrivial();
    }
    match read(&o) {
        Own::Malformed => cx.label("not CBOR"),
        Own::Skip => cx.label("not judged"),
        Own::Read(r, _) => {
            let mut d = Dev::default();
            let t = tree_of(strip(&r), &mut d).is_some() || cert_of(&r, &mut d).is_some();
            cx.label(match (t, d.odd, d.extra) {
                (false, ..) => "neither a tree nor a certificate",
                (_, _, true) => "parts too many",
                (_, true, _) => "odd",
                _ => "as specified",
            })
        }
    }
    judge(&o)
}
