//! C23: version 1 responses, certified by the hash of their body.
use crate::{engine::*, ensure, util::{e2e::*, http::*}, util::*};
use flate2::{
    read::{DeflateDecoder, MultiGzDecoder},
    write::{DeflateEncoder, GzEncoder},
    Compression,
};
use std::{
    collections::BTreeMap,
    io::{Read, Write},
};

fn gzip(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = GzEncoder::new(vec![], Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

fn deflate(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = DeflateEncoder::new(vec![], Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

/// What a client makes of the whole body.
fn decoded(encoding: Option<&str>, body: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    match encoding {
        Some("gzip") => {
            MultiGzDecoder::new(body).read_to_end(&mut out).ok()?;
        }
        Some("deflate") => {
            let mut d = DeflateDecoder::new(body);
            d.read_to_end(&mut out).ok()?;
            if d.total_in() != body.len() as u64 {
                return None;
            }
        }
        _ => return Some(body.to_vec()),
    }
    Some(out)
}

fn encoded(cx: &mut Cx, encoding: Option<&str>, content: &[u8]) -> Vec<u8> {
    let level = *cx.pick(&[6u32, 0, 1, 9]);
    match encoding {
        Some("gzip") if cx.chance(1, 6) => {
            let at = cx.range(0, content.len());
            [gzip(&content[..at], level), gzip(&content[at..], level)].concat()
        }
        Some("gzip") => gzip(content, level),
        Some("deflate") => deflate(content, level),
        _ => content.to_vec(),
    }
}

fn gen_path(cx: &mut Cx) -> String {
    match cx.weighted(&[4, 8, 2]) {
        0 => "/index.html".into(),
        1 => cx.pick(&["/", "/a", "/b", "/a/b", "/a/", "/a.js", "/x y", "/é", "/a%41", "/index.htm", "/index.html2"]).to_string(),
        _ => gen_request_path(cx),
    }
}

fn content(cx: &mut Cx) -> Vec<u8> {
    match cx.weighted(&[120, 80, 40, 20, 2, 1]) {
        5 => {
            // megabytes that take little room when encoded
            let n = (1 << 20) + cx.draw(2 << 20) as usize;
            vec![cx.draw(256) as u8; n]
        }
        3 => {
            // about a multiple of the sizes of buffers
            let n = (cx.range(1, 6) << *cx.pick(&[10, 10, 12, 13, 15])) + cx.range(0, 2) - 1;
            let c = cx.draw(256) as u8;
            if cx.bool() { cx.blob(n) } else { vec![c; n] }
        }
        4 => {
            let n = cx.size(2 << 20);
            let c = cx.draw(256) as u8;
            if cx.bool() { cx.blob(n) } else { vec![c; n] }
        }
        0 => cx.pick(&["", "x", "hello hello hello hello", "{}"]).as_bytes().to_vec(),
        1 => {
            let n = cx.range(0, 60);
            cx.blob(n)
        }
        _ => {
            let n = cx.range(1000, 5000);
            let c = cx.draw(256) as u8;
            vec![c; n]
        }
    }
}

struct Asset {
    content: Vec<u8>,
    encoding: Option<&'static str>,
    body: Vec<u8>,
    sha: H,
}

fn asset(cx: &mut Cx) -> Asset {
    let content = content(cx);
    let encoding = *cx.pick(&[None, None, Some("gzip"), Some("gzip"), Some("deflate"), Some("br"), Some("identity"), Some("x")]);
    let body = encoded(cx, encoding, &content);
    let raw = cx.bool();
    let sha = if raw || !matches!(encoding, Some("gzip" | "deflate")) { sha(&[&body]) } else { sha(&[&content]) };
    Asset { content, encoding, body, sha }
}

pub fn v1(cx: &mut Cx) -> Res {
    let mut site: BTreeMap<String, Asset> = BTreeMap::new();
    let sites = if cx.chance(1, 60) { 6 + cx.size(250) } else { cx.range(1, 6) };
    for i in 0..sites {
        let p = gen_path(cx);
        let p = if i > 5 { format!("{p}{}", i * 7) } else { p };
        site.insert(p, asset(cx));
    }
    let items: Vec<T> = site
        .iter()
        .map(|(p, a)| {
            let v = if cx.chance(1, 60) { a.sha[..31].to_vec() } else { a.sha.to_vec() };
            match cx.draw(240) {
                // present, but not a hash
                0 => label(p, T::Empty),
                1 | 2 => label(p, label(v, leaf(""))),
                3 => label(p, fork(label("", leaf(v)), label("a", T::Empty))),
                _ => label(p, leaf(v)),
            }
        })
        .collect();
    let assets = label("http_assets", gen_forest(cx, items, false));
    let full = match cx.draw(3) {
        0 => assets,
        1 => fork(assets, label("http_expr", label("<*>", leaf("")))),
        _ => fork(label("aaa", leaf("1")), assets),
    };
    let path = if cx.chance(2, 3) {
        let keys: Vec<&String> = site.keys().collect();
        cx.pick(&keys).to_string()
    } else {
        let p = gen_path(cx);
        if p.is_empty() { "/".into() } else { p }
    };
    let path = if path.starts_with('/') { path } else { format!("/{path}") };
    let from = if site.contains_key(&path) && !cx.chance(1, 8) { path.clone() } else { "/index.html".to_string() };
    let from = if cx.chance(1, 12) { site.keys().next().unwrap().clone() } else { from };
    let (mut body, mut encoding, plain) = match site.get(&from) {
        Some(a) => (a.body.clone(), a.encoding, a.content.clone()),
        None => {
            let b = content(cx);
            (b.clone(), None, b)
        }
    };
    let mut changed = vec![];
    let mut headers: Headers = gen_headers(cx, &["Cache-Control", "x-a", "IC-Certificat", "Content-Type"]);
    for _ in 0..cx.weighted(&[4, 4, 1]) {
        changed.push(match cx.draw(9) {
            0 => {
                if body.is_empty() {
                    body.push(1)
                } else {
                    let i = cx.draw(body.len() as u64) as usize;
                    body[i] ^= 1 << cx.draw(8);
                }
                "a bit of the body"
            }
            1 => {
                let n = cx.range(0, body.len());
                body.truncate(n);
                "body cut"
            }
            2 => {
                let n = cx.range(1, 20);
                let b = cx.blob(n);
                body.extend(b);
                "bytes appended"
            }
            3 => {
                let c = content(cx);
                let more = match encoding {
                    Some("deflate") => deflate(&c, 6),
                    Some("gzip") => gzip(&c, 6),
                    _ => c,
                };
                body.extend(more);
                "an encoded part appended"
            }
            4 => {
                body = encoded(cx, encoding, &plain);
                "encoded again"
            }
            5 => {
                encoding = *cx.pick(&[None, Some("gzip"), Some("deflate"), Some("br"), Some("GZIP"), Some("gzip, gzip")]);
                "other encoding"
            }
            6 => {
                body = plain.clone();
                "decoded body"
            }
            7 => {
                let a = asset(cx);
                body = a.body;
                encoding = a.encoding;
                "other asset"
            }
            _ => {
                let n = recase(cx, "Content-Encoding");
                headers.push((n, "gzip".into()));
                "another encoding header"
            }
        });
    }
    if let Some(e) = encoding {
        let n = recase(cx, "Content-Encoding");
        headers.push((n, e.into()));
    }
    let encoding = headers.iter().rev().find(|h| h.0.eq_ignore_ascii_case("content-encoding")).map(|h| h.1.clone());
    let encoding = encoding.as_deref();
    // the witness
    let mut tree = full.clone();
    let style = cx.draw(4);
    if style == 0 {
        tree = full.prune(cx, 3);
    }
    let root = full.digest();
    let env = VEnv { min_version: cx.draw(2) as u8, ..VEnv::default() };
    let mut signed_ok = true;
    let cert = match cx.weighted(&[14, 1, 1, 1]) {
        0 => simple_cert(CANISTER, &root, NOW),
        1 => {
            signed_ok = false;
            simple_cert(&[0, 0, 0, 0, 0, 0, 0, 8, 1, 1], &root, NOW)
        }
        2 => {
            signed_ok = false;
            simple_cert(CANISTER, &root, NOW - OFFSET - 1)
        }
        _ => {
            signed_ok = false;
            sign_tree(state_tree(CANISTER, &root, NOW), 1, None)
        }
    };
    if cx.chance(1, 16) {
        // a tree that is not the certified one
        tree = label("http_assets", label(&path, leaf(sha(&[&body]))));
    }
    let genuine = tree.digest() == root;
    let version = *cx.pick(&["", ", version=1"]);
    headers.push(("IC-Certificate".into(), format!("certificate=:{}:, tree=:{}:{version}", b64(&cert.cbor()), b64(&tree.cbor()))));
    let req = Req { raw_path: enc_random(cx, &path), path: path.clone(), query: if cx.bool() { None } else { Some("a=/index.html".into()) }, ..Req::get("/") };
    let resp = Resp { status: *cx.pick(&[200u16, 404, 500]), headers: headers.clone(), body: body.clone() };
    cx.note(|| format!("certified: {:?}", site.iter().map(|(p, a)| format!("{p:?} {:?} content {} sha {}", a.encoding, hexs(&a.content), hexs(&a.sha))).collect::<Vec<_>>()));
    cx.note(|| format!("request {path:?}, changes {changed:?}, content-encoding {encoding:?}, body {}", hexs(&body)));
    // the model
    let look = |p: &str| tree.lookup(&[b"http_assets".to_vec(), p.as_bytes().to_vec()]);
    let mut hidden = false;
    let at_index = |l: L| match l {
        L::Found(v) => Some(v),
        _ => None,
    };
    let want: Option<Vec<u8>> = match look(&path) {
        L::Found(v) => Some(v),
        L::Absent => at_index(look("/index.html")),
        _ => {
            hidden = true;
            at_index(look("/index.html"))
        }
    };
    let dec = decoded(encoding, &body);
    let raw_ok = want.as_deref() == Some(&sha(&[&body])[..]);
    let dec_ok = dec.as_ref().is_some_and(|d| want.as_deref() == Some(&sha(&[d])[..]));
    let trusted = signed_ok && genuine;
    let got = verify(&env, &req, &resp)?;
    let ok = trusted && (raw_ok || dec_ok) && !hidden;
    if !changed.is_empty() || style == 0 {
        cx.nontrivial();
    }
    cx.label(match (ok, dec_ok && !raw_ok) {
        (true, true) => "certified, decoded",
        (true, false) => "certified",
        _ => "not certified",
    });
    if got.accepted() {
        ensure!(trusted, "untrusted", "accepted under a certificate or tree that does not count: {}", got.short());
        ensure!(raw_ok || dec_ok, "accepted", "a body that is not certified: {}", got.short());
        let want = Outcome::Accepted { version: 1, status: None, headers: vec![], body: body.clone() };
        ensure!(got == want, "result", "{}, expected {}", got.short(), want.short());
        ensure!(!hidden, "hidden-path", "the body of /index.html was accepted for {path:?}, which the witness hides");
    } else if ok && dec.is_some() {
        return fail("refused", format!("a certified body: {}", got.short()));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "random sites of assets certified by the hash of their plain or encoded body, answered with honest and changed bodies, encodings, witnesses and certificates; accepted exactly if an independent model (lookup, and a decoder that has to consume the whole body) says so; non-trivial: something was changed or pruned; distinct by choice sequence",
        assumptions: &["a body that is certified as it is but does not decode is not judged", "flate2 is trusted to decode"],
        subs: vec![sub("bodies", 30_000, 1_000_000, v1)],
    }]
}
