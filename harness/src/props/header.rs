//! C24: the certificate header and the choice of the verification version. C25: hostile input.
use crate::{engine::*, ensure, props::codec, util::bls::key, util::{alloc, e2e::*, http::*}, util::*};
use ic_certification::{Certificate, HashTree};
use ic_response_verification::CertificateHeader;

/// Base64 of some spelling, and what it stands for.
fn spell(cx: &mut Cx, bytes: &[u8]) -> String {
    let mut s = b64(bytes);
    match cx.draw(6) {
        0 => s = s.trim_end_matches('=').to_string(),
        1 if s.ends_with('=') => {
            // bits that stand for nothing
            let n = s.find('=').unwrap();
            let abc = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let mut v = s.into_bytes();
            let bits = if v.len() - n == 2 { 4 } else { 2 };
            let at = abc.iter().position(|c| *c == v[n - 1]).unwrap();
            v[n - 1] = abc[at | cx.draw(1 << bits) as usize];
            s = String::from_utf8(v).unwrap();
        }
        _ => {}
    }
    s
}

#[derive(Clone, Debug)]
enum F {
    Cert(usize),
    Tree(usize),
    Path(usize),
    Version(u8),
    /// a known field whose value cannot be decoded
    Bad(&'static str),
    /// nothing that counts
    Noise,
}

fn header(cx: &mut Cx) -> Res {
    let made: Vec<Cert> = (0..2)
        .map(|i| {
            let n = if cx.chance(1, 20) { cx.size(20_000) } else { cx.range(0, 49) };
            Cert { tree: state_tree(CANISTER, &[i as u8; 32], NOW), signature: vec![i as u8; n], delegation: None }
        })
        .collect();
    let certs: Vec<Certificate> = made.iter().map(|c| c.to_ic()).collect();
    let cert_bytes: Vec<Vec<u8>> = made.iter().map(|c| c.cbor()).collect();
    let trees: Vec<T> = (0..2)
        .map(|_| {
            let depth = if cx.chance(1, 20) { 6 } else { 2 };
            gen_tree(cx, depth, false)
        })
        .collect();
    let paths: Vec<Vec<String>> = (0..2)
        .map(|_| {
            let (max, avg) = if cx.chance(1, 20) { (400, 60) } else { (4, 2) };
            cx.vec(max, avg, |cx| match cx.draw(20) {
                0 => gen_text(cx, 12),
                1 => {
                    let n = cx.size(1000);
                    "s".repeat(n)
                }
                _ => cx.pick(&["", "a", "http_expr", "<*>", "<$>", "é"]).to_string(),
            })
        })
        .collect();
    let mut fields = vec![];
    let n = if cx.chance(1, 20) { 7 + cx.size(200) } else { cx.range(0, 7) };
    let complete = cx.chance(3, 4);
    for i in 0..n {
        fields.push(match cx.weighted(&[3, 3, 3, 3, 1, 3]) {
            _ if complete && i == 0 => F::Cert(0),
            _ if complete && i == 1 => F::Tree(0),
            0 => F::Cert(cx.draw(2) as usize),
            1 => F::Tree(cx.draw(2) as usize),
            2 => F::Path(cx.draw(2) as usize),
            3 => F::Version(*cx.pick(&[2u8, 1, 0, 3, 255])),
            4 => F::Bad(*cx.pick(&["certificate", "tree", "expr_path", "version"])),
            _ => F::Noise,
        });
    }
    cx.shuffle(&mut fields);
    if cx.chance(1, 40) {
        // many fields that do not count come first
        let n = cx.size(400);
        fields.splice(0..0, (0..n).map(|_| F::Noise));
    }
    let mut text = vec![];
    for f in &fields {
        let colons = !cx.chance(1, 6);
        let (name, value) = match f {
            F::Cert(i) => ("certificate", spell(cx, &cert_bytes[*i])),
            F::Tree(i) => ("tree", spell(cx, &trees[*i].cbor())),
            F::Path(i) => ("expr_path", spell(cx, &expr_path_cbor(&paths[*i]))),
            F::Version(v) => ("version", v.to_string()),
            F::Bad("version") => ("version", cx.pick(&["256", "-1", "x", "1.0", "0x2", "99999999999999999999"]).to_string()),
            F::Bad(n) => (*n, match cx.draw(4) {
                0 => "!!!!".to_string(),
                1 => "A".to_string(),
                2 => "_-__".to_string(),
                _ => b64(&[0x41, 0]),
            }),
            F::Noise => {
                let t = match cx.draw(14) {
                    8 => format!("tree =:{}:", b64(&trees[0].cbor())),
                    9 => format!("{}=:{}:", cx.pick(&["x-tree", "trees", "tre", "mytree", "tree2", "tree:", "tree;a"]), b64(&trees[0].cbor())),
                    10 => format!("{}=:{}:", cx.pick(&["x-certificate", "certificates", "Certificate", "certificate ", "certificate\t", "cert"]), b64(&cert_bytes[0])),
                    11 => format!("{}=2", cx.pick(&["x-version", "versions", "Version", "version ", "v", "ver"])),
                    12 => format!("{}=:{}:", cx.pick(&["x-expr_path", "expr-path", "expr_paths", "path", "expr", "EXPR_PATH"]), b64(&expr_path_cbor(&paths[0]))),
                    0 => "".to_string(),
                    1 => "tree".to_string(),
                    2 => "certificate:AAAA:".to_string(),
                    3 => "tree=".to_string(),
                    4 => "tree=::".to_string(),
                    5 => "=:AAAA:".to_string(),
                    6 => format!("Tree=:{}:", b64(&trees[0].cbor())),
                    7 => "certificat=:AAAA:".to_string(),
                    _ => "other=:x:".to_string(),
                };
                text.push(t);
                continue;
            }
        };
        let colons = if *name == *"version" { !colons } else { colons };
        let v = if colons { format!(":{value}:") } else { value };
        text.push(format!("{name}={v}"));
    }
    let mut s = String::new();
    for (i, t) in text.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s += *cx.pick(&["", " ", " ", "  ", "\t"]);
        s += t;
        s += *cx.pick(&["", "", "", " "]);
    }
    cx.note(|| format!("{fields:?}"));
    cx.note(|| s.clone());
    // the model: the first field of each name counts, and has to be right
    let first = |name: &str| {
        fields.iter().find(|f| {
            matches!(
                (name, f),
                ("certificate", F::Cert(_) | F::Bad("certificate")) | ("tree", F::Tree(_) | F::Bad("tree")) | ("expr_path", F::Path(_) | F::Bad("expr_path")) | ("version", F::Version(_) | F::Bad("version"))
            )
        })
    };
    let want: Result<(usize, usize, u8, Option<usize>), ()> = (|| {
        let c = match first("certificate") {
            Some(F::Cert(i)) => *i,
            _ => return Err(()),
        };
        let t = match first("tree") {
            Some(F::Tree(i)) => *i,
            _ => return Err(()),
        };
        let v = match first("version") {
            Some(F::Version(v)) => *v,
            None => 1,
            _ => return Err(()),
        };
        let p = match first("expr_path") {
            Some(F::Path(i)) => Some(*i),
            None => None,
            _ => return Err(()),
        };
        Ok((c, t, v, p))
    })();
    if fields.len() >= 3 {
        cx.nontrivial();
    }
    cx.label(if want.is_ok() { "complete" } else { "incomplete" });
    let got = no_panic(|| CertificateHeader::from(&s)).or_else(|p| fail("panic", p))?;
    match (got, want) {
        (Ok(g), Ok((c, t, v, p))) => {
            ensure!(g.certificate == certs[c], "certificate", "another certificate");
            let want_tree: HashTree = trees[t].to_ic();
            ensure!(g.tree == want_tree, "tree", "another tree: {:?}", g.tree);
            ensure!(g.version == v, "version", "version {}, want {v}", g.version);
            ensure!(g.expr_path == p.map(|i| paths[i].clone()), "expr-path", "path {:?}, want {:?}", g.expr_path, p.map(|i| &paths[i]));
        }
        (Err(_), Err(())) => {}
        (Ok(g), Err(())) => return fail("accepted", format!("an incomplete header was accepted: {g:?}")),
        (Err(e), Ok(_)) => return fail("refused", format!("a complete header was refused: {e}")),
    }
    Ok(())
}

/// Which of the two certifications of a response is used.
pub fn negotiate(cx: &mut Cx) -> Res {
    let path = cx.pick(&["/", "/a", "/a/b"]).to_string();
    let body = gen_body(cx);
    let cel = gen_cel(cx, true);
    let req = Req { path: path.clone(), raw_path: path.clone(), ..gen_req(cx) };
    let mut resp = certifiable(cx, &cel);
    resp.headers.retain(|h| !h.0.eq_ignore_ascii_case("content-encoding"));
    resp.body = body.clone();
    let entry = Entry { path: path.clone(), wildcard: cx.bool(), cel: cel.clone(), req: req.clone(), resp: resp.clone() };
    let (has1, has2) = *cx.pick(&[(true, true), (true, true), (true, false), (false, true)]);
    let mut items = vec![];
    items.push(label("http_assets", label(&path, leaf(if has1 { sha(&[&body]) } else { sha(&[b"no"]) }))));
    let mut l = vec![b"http_expr".to_vec()];
    l.extend(if has2 { entry.labels() } else { vec![b"x".to_vec(), b"<$>".to_vec()] });
    items.push(path_tree(cx, &[l]));
    let tree = gen_forest(cx, items, false);
    let cert = simple_cert(CANISTER, &tree.digest(), NOW).cbor();
    let version = *cx.pick(&[None, Some(0u8), Some(1), Some(1), Some(2), Some(2), Some(2), Some(3), Some(255)]);
    let min = *cx.pick(&[0u8, 1, 1, 2, 2, 3, 255]);
    let mut header = format!("certificate=:{}:, tree=:{}:", b64(&cert), b64(&tree.cbor()));
    let with_all = !cx.chance(1, 12);
    if !with_all {
        header = if cx.bool() { format!("certificate=:{}:", b64(&cert)) } else { format!("tree=:{}:", b64(&tree.cbor())) };
    }
    let with_path = !cx.chance(1, 8);
    if with_path {
        header += &format!(", expr_path=:{}:", b64(&expr_path_cbor(&full_path(&entry.segs()))));
    }
    if let Some(v) = version {
        header += &format!(", version={v}");
    }
    let with_expr = !cx.chance(1, 8);
    if !with_expr {
        resp.headers.retain(|h| !h.0.eq_ignore_ascii_case("ic-certificateexpression"));
    }
    let with_cert = !cx.chance(1, 20);
    let at = cx.range(0, resp.headers.len());
    if with_cert {
        let name = recase(cx, "IC-Certificate");
        resp.headers.insert(at, (name, header));
    }
    let tampered = cx.chance(1, 5);
    if tampered {
        resp.body.push(1);
    }
    cx.note(|| format!("v1 certified: {has1}, v2 certified: {has2}, {cel:?}, version {version:?}, at least {min}, path {with_path}, expression {with_expr}, header {with_cert}, body changed {tampered}"));
    let env = VEnv { min_version: min, ..VEnv::default() };
    let v = version.unwrap_or(1);
    let want = if !with_cert || !with_all || v < min {
        None
    } else {
        match v {
            1 if has1 && !tampered => Some(Outcome::Accepted { version: 1, status: None, headers: vec![], body: resp.body.clone() }),
            2 if has2 && with_path && with_expr && (!tampered || cel == Cel::Skip) => Some(match cel.resp() {
                None => Outcome::Skipped,
                Some(c) => {
                    let mut headers = c.filter(&resp.headers);
                    let cert = resp.headers.iter().rev().find(|h| h.0.eq_ignore_ascii_case("ic-certificate")).unwrap().1.clone();
                    headers.push(("IC-Certificate".into(), cert));
                    Outcome::Accepted { version: 2, status: Some(resp.status), headers, body: resp.body.clone() }
                }
            }),
            _ => None,
        }
    };
    if has1 && has2 && version.is_some() {
        cx.nontrivial();
    }
    // the range that is advertised is the one that is supported
    let advertised = (ic_response_verification::MIN_VERIFICATION_VERSION..=ic_response_verification::MAX_VERIFICATION_VERSION).contains(&v);
    ensure!(advertised == (v == 1 || v == 2), "range", "version {v} is advertised: {advertised}");
    let got = verify(&env, &req, &resp)?;
    cx.label(match &got {
        Outcome::Refused(_) => "refused",
        Outcome::Skipped => "skipped",
        Outcome::Accepted { version: 1, .. } => "version 1",
        _ => "version 2",
    });
    match want {
        None => ensure!(!got.accepted(), "accepted", "{}", got.short()),
        Some(w) => ensure!(got == w, if got.accepted() { "result" } else { "refused" }, "{}, expected {}", got.short(), w.short()),
    }
    Ok(())
}

fn text_noise(cx: &mut Cx, s: &str) -> String {
    let b = codec::mutate(cx, s.as_bytes().to_vec(), 2);
    String::from_utf8_lossy(&b).into_owned()
}

/// C25: nothing the network sends makes the verifier fail in any way but by an error.
pub fn hostile(cx: &mut Cx) -> Res {
    let entry = gen_entry(cx);
    let labels: Vec<Vec<u8>> = std::iter::once(b"http_expr".to_vec()).chain(entry.labels()).collect();
    let tree = path_tree(cx, &[labels]);
    let path = if entry.path.starts_with('/') { entry.path.clone() } else { format!("/{}", entry.path) };
    let mut req = Req { raw_path: enc_plain(&path), path, ..entry.req.clone() };
    let mut resp = entry.resp.clone();
    let mut env = VEnv { min_version: cx.draw(3) as u8, ..VEnv::default() };
    let mut cert = simple_cert(CANISTER, &tree.digest(), NOW).cbor();
    let mut tree_b = tree.cbor();
    let mut path_b = expr_path_cbor(&full_path(&entry.segs()));
    let mut version = cx.pick(&["2", "2", "1"]).to_string();
    let mut url: Option<String> = None;
    let mut canister: Vec<u8> = CANISTER.to_vec();
    let mut head: Option<String> = None;
    for _ in 0..cx.range(1, 3) {
        match cx.draw(16) {
            0 => cert = codec::mutate(cx, cert, 3),
            1 => tree_b = codec::mutate(cx, tree_b, 3),
            2 => path_b = codec::mutate(cx, path_b, 2),
            3 => cert = codec::gen_hostile(cx),
            4 => tree_b = codec::gen_hostile(cx),
            5 => path_b = codec::gen_hostile(cx),
            6 => {
                let i = cx.draw(resp.headers.len().max(1) as u64) as usize;
                if i < resp.headers.len() {
                    let v = resp.headers[i].1.clone();
                    resp.headers[i].1 = text_noise(cx, &v);
                }
            }
            7 => {
                let e = entry.cel.print();
                let e = text_noise(cx, &e);
                resp.headers.push(("IC-CertificateExpression".into(), e));
            }
            8 => {
                let depth = *cx.pick(&[10usize, 40, 3000, 100_000]);
                let (a, b) = *cx.pick(&[("[", "]"), ("f(", ")"), ("A{a:", "}"), ("{a:", "}")]);
                let s = format!("default_certification({}{}{})", a.repeat(depth), "\"x\"", b.repeat(depth));
                resp.headers.push(("IC-CertificateExpression".into(), s));
            }
            9 => {
                let u = req.url();
                url = Some(match cx.draw(4) {
                    0 => text_noise(cx, &u),
                    1 => {
                        let n = cx.range(0, 20);
                        String::from_utf8_lossy(&cx.bytes(n)).into_owned()
                    }
                    2 => format!("/{}", cx.pick(&["%ff%fe", "%", "%4", "%zz", "%00", "//", "?", "#", "..", "%2f"])).repeat(1 + cx.draw(3) as usize),
                    _ => format!("/{}", "a/".repeat(*cx.pick(&[100usize, 3000]))),
                });
            }
            10 => {
                let n = *cx.pick(&[0usize, 1, 9, 29, 30, 64, 200]);
                canister = cx.bytes(n);
            }
            11 => env.root = match cx.draw(3) {
                0 => codec::mutate(cx, key(0).der(), 2),
                1 => {
                    let n = cx.range(0, 140);
                    cx.bytes(n)
                }
                _ => vec![],
            },
            12 => {
                env.now = *cx.pick(&[0u128, 1, u64::MAX as u128, u128::MAX, u128::MAX - 1]);
                env.offset = *cx.pick(&[0u128, 1, OFFSET, u64::MAX as u128, u128::MAX]);
            }
            13 => version = cx.pick(&["0", "1", "3", "255", "256", "", "x"]).to_string(),
            14 => {
                version = "1".into();
                let c = cx.pick(&["gzip", "deflate", "gzip, deflate", ""]).to_string();
                resp.headers.push(("content-encoding".into(), c));
                if cx.bool() {
                    let n = cx.range(0, 60);
                    let mut b = vec![0x1f, 0x8b, 8, cx.draw(32) as u8];
                    b.extend(cx.bytes(n));
                    resp.body = b;
                }
            }
            _ => {
                let h = cert_header(&cert, &tree_b, &full_path(&entry.segs()));
                let h = if cx.bool() { text_noise(cx, &h) } else { cx.pick(&["", ",", "=", ":", ",,,,", "certificate", "tree=::", "é=é"]).repeat(1 + cx.draw(4) as usize) };
                head = Some(h);
            }
        }
    }
    let mut fields = vec![format!("certificate=:{}:", b64(&cert)), format!("tree=:{}:", b64(&tree_b)), format!("expr_path=:{}:", b64(&path_b)), format!("version={version}")];
    if cx.chance(1, 5) {
        fields.remove(cx.draw(4) as usize);
    }
    let h = head.unwrap_or_else(|| fields.join(", "));
    resp.headers.push(("IC-Certificate".into(), h));
    if cx.chance(1, 10) {
        let n = cx.range(0, 5);
        for _ in 0..n {
            let (a, b) = (gen_text(cx, 8), gen_text(cx, 8));
            req.headers.push((a, b));
        }
    }
    env.canister = &canister;
    let size: usize = resp.headers.iter().map(|h| h.0.len() + h.1.len()).sum::<usize>() + resp.body.len() + req.url().len() + url.as_ref().map_or(0, |u| u.len());
    let ic_req = match &url {
        None => req.to_ic(),
        Some(u) => ic_http_certification::HttpRequest::builder()
            .with_method(req.method.parse().unwrap())
            .with_url(u.clone())
            .with_headers(req.headers.clone())
            .with_body(req.body.clone())
            .build(),
    };
    let ic_resp = resp.to_ic();
    cx.note(|| format!("url {:?}, headers {:?}", url.clone().unwrap_or(req.url()), resp.headers.iter().map(|h| (&h.0, h.1.chars().take(2000).collect::<String>())).collect::<Vec<_>>()));
    // what is allocated once, such as the signature cache, does not count
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let mut r = entry.resp.clone();
        let t = label("http_expr", leaf(""));
        let c = simple_cert(CANISTER, &t.digest(), NOW).cbor();
        r.headers.push(("IC-Certificate".into(), cert_header(&c, &t.cbor(), &[])));
        let _ = verify(&VEnv::default(), &req, &r);
    });
    let t = std::time::Instant::now();
    let (r, m) = alloc::measure(|| verify_ic(&env, ic_req, ic_resp));
    let got = r?;
    ensure!(t.elapsed().as_secs() < 20, "time", "took {:?}", t.elapsed());
    ensure!(m.largest <= 256 * size + (1 << 20), "memory", "one allocation of {} bytes for {size} bytes of input", m.largest);
    cx.nontrivial();
    cx.label(match got {
        Outcome::Refused(_) => "refused",
        _ => "accepted",
    });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            rule: "headers of known, unknown, repeated, malformed and differently spelled fields in any order against a model of what they mean (header), and responses certified for both versions, one or the other, offered under every version and minimum (negotiate); non-trivial: at least three fields (header), certified for both versions and a version is named (negotiate); distinct by choice sequence",
            assumptions: &["field names are spelled without white space"],
            subs: vec![sub("header", 240_000, 2_000_000, header), sub("negotiate", 15_000, 500_000, negotiate)],
        },
        Prop {
            id: "C25",
            rule: "responses whose header, certificate, tree, path, expression, URL, body, canister id, key, time or version is mutated or made up, watching for panics, crashes, memory out of proportion and time; every case is non-trivial; distinct by choice sequence",
            assumptions: &["8 MiB of stack", "bodies that decompress to very much more are not generated"],
            subs: vec![sub("hostile", 40_000, 2_000_000, hostile)],
        },
    ]
}
