//! C26: requests and responses on the wire. C27: the header helpers.
use crate::{engine::*, ensure, util::{e2e::*, http::*}, util::*};
use candid::{decode_one, encode_one, CandidType, Deserialize};
use ic_http_certification as hc;
use ic_http_certification::{utils, HttpRequest, HttpResponse, HttpUpdateRequest, HttpUpdateResponse, StatusCode};
use ic_response_verification::CertificateHeader;
use serde_bytes::ByteBuf;

// what the interface specification says
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
struct WireReq {
    url: String,
    method: String,
    body: ByteBuf,
    headers: Vec<(String, String)>,
    certificate_version: Option<u16>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
struct WireUpdateReq {
    url: String,
    method: String,
    body: ByteBuf,
    headers: Vec<(String, String)>,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
struct WireResp {
    body: ByteBuf,
    headers: Vec<(String, String)>,
    upgrade: Option<bool>,
    status_code: u16,
}
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
struct WireUpdateResp {
    body: ByteBuf,
    headers: Vec<(String, String)>,
    status_code: u16,
}
/// with fields the library does not know
#[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
struct NewerResp {
    body: ByteBuf,
    headers: Vec<(String, String)>,
    upgrade: Option<bool>,
    status_code: u16,
    streaming_strategy: Option<String>,
    future: u8,
}

fn token(cx: &mut Cx) -> String {
    let n = if cx.chance(1, 10) { 1 + cx.size(200) } else { cx.range(1, 12) };
    (0..n).map(|_| *cx.pick(&['A', 'G', 'x', '0', '-', '!', '~', '_'])).collect()
}

fn wire(cx: &mut Cx) -> Res {
    let method = match cx.weighted(&[3, 3, 2]) {
        0 => cx.pick(&["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE", "get"]).to_string(),
        1 => token(cx),
        _ => cx.pick(&["", " ", "GET ", "G T", "é", "GET\n", "a:b", "(", "{}", "a/b"]).to_string(),
    };
    let valid = !method.is_empty() && method.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
    let url = gen_text(cx, 20);
    let (max, avg) = if cx.chance(1, 40) { (400, 100) } else { (5, 2) };
    let headers: Headers = cx.vec(max, avg, |cx| (gen_text(cx, 6), gen_text(cx, 8)));
    let body = gen_body(cx);
    let version = *cx.pick(&[None, Some(0u16), Some(1), Some(2), Some(256), Some(65535)]);
    let w = WireReq { url: url.clone(), method: method.clone(), body: ByteBuf::from(body.clone()), headers: headers.clone(), certificate_version: version };
    cx.note(|| format!("{w:?}"));
    if !headers.is_empty() && !body.is_empty() {
        cx.nontrivial();
    }
    let bytes = encode_one(&w).unwrap();
    let got = no_panic(|| decode_one::<HttpRequest>(&bytes)).or_else(|p| fail("panic", p))?;
    match got {
        Err(e) => ensure!(!valid, "request", "a request was not decoded: {e}"),
        Ok(r) => {
            ensure!(valid, "method", "the method {method:?} was accepted");
            ensure!(
                r.method().as_str() == method && r.url() == url && r.headers() == &headers[..] && r.body() == &body[..] && r.certificate_version() == version,
                "request",
                "decoded as {r:?}"
            );
            let again: WireReq = decode_one(&encode_one(&r).unwrap()).or_else(|e| fail("request", format!("its encoding is not a request: {e}")))?;
            ensure!(again == w, "request", "encoded as {again:?}");
            let mut b = HttpRequest::builder().with_headers(headers.clone()).with_url(url.clone()).with_body(body.clone()).with_method(method.parse().unwrap());
            if let Some(v) = version {
                b = b.with_certificate_version(v);
            }
            ensure!(b.build() == r, "builder", "the builder makes another request");
        }
    }
    let wu = WireUpdateReq { url: url.clone(), method: method.clone(), body: ByteBuf::from(body.clone()), headers: headers.clone() };
    // an update request is what an upgraded query request is: the gateway sends all but the version
    let bytes = if cx.bool() { encode_one(&wu).unwrap() } else { bytes };
    match no_panic(|| decode_one::<HttpUpdateRequest>(&bytes)).or_else(|p| fail("panic", p))? {
        Err(e) => ensure!(!valid, "update-request", "an update request was not decoded: {e}"),
        Ok(r) => {
            ensure!(valid, "method", "the method {method:?} was accepted");
            ensure!(r.method().as_str() == method && r.url() == url && r.headers() == &headers[..] && r.body() == &body[..], "update-request", "decoded as {r:?}");
            let again: WireUpdateReq = decode_one(&encode_one(&r).unwrap()).or_else(|e| fail("update-request", format!("{e}")))?;
            ensure!(again == wu, "update-request", "encoded as {again:?}");
            let q: WireReq = decode_one(&encode_one(&r).unwrap()).or_else(|e| fail("update-request", format!("{e}")))?;
            ensure!(q.certificate_version.is_none(), "update-request", "a version out of nothing");
            let b = HttpRequest::builder().with_headers(headers.clone()).with_url(url.clone()).with_body(body.clone()).with_method(method.parse().unwrap());
            ensure!(b.build_update() == r, "builder", "the builder makes another update request");
        }
    }
    // responses
    let status = if cx.chance(1, 2) { *cx.pick(&[200u16, 404, 100, 99, 999, 1000, 0, 65535, 301]) } else { cx.range(0, 1200) as u16 };
    let valid = (100..1000).contains(&status);
    let upgrade = *cx.pick(&[None, Some(true), Some(false)]);
    let w = WireResp { body: ByteBuf::from(body.clone()), headers: headers.clone(), upgrade, status_code: status };
    let bytes = if cx.bool() {
        encode_one(&w).unwrap()
    } else {
        encode_one(NewerResp { body: w.body.clone(), headers: headers.clone(), upgrade, status_code: status, streaming_strategy: Some("x".into()), future: 1 }).unwrap()
    };
    cx.note(|| format!("{w:?}"));
    let resp = match no_panic(|| decode_one::<HttpResponse>(&bytes)).or_else(|p| fail("panic", p))? {
        Err(e) => {
            ensure!(!valid, "response", "a response was not decoded: {e}");
            None
        }
        Ok(r) => {
            ensure!(valid, "status", "the status {status} was accepted");
            ensure!(r.status_code().as_u16() == status && r.headers() == &headers[..] && r.body() == &body[..] && r.upgrade() == upgrade, "response", "decoded as {r:?}");
            let again: WireResp = decode_one(&encode_one(&r).unwrap()).or_else(|e| fail("response", format!("its encoding is not a response: {e}")))?;
            ensure!(again == w, "response", "encoded as {again:?}");
            Some(r)
        }
    };
    match no_panic(|| decode_one::<HttpUpdateResponse>(&bytes)).or_else(|p| fail("panic", p))? {
        Err(e) => ensure!(!valid, "update-response", "an update response was not decoded: {e}"),
        Ok(r) => {
            ensure!(valid, "status", "the status {status} was accepted");
            ensure!(r.status_code().as_u16() == status && r.headers() == &headers[..] && r.body() == &body[..], "update-response", "decoded as {r:?}");
            let again: WireUpdateResp = decode_one(&encode_one(&r).unwrap()).or_else(|e| fail("update-response", format!("{e}")))?;
            ensure!(again == WireUpdateResp { body: w.body.clone(), headers: headers.clone(), status_code: status }, "update-response", "encoded as {again:?}");
            let b = HttpResponse::builder().with_status_code(StatusCode::from_u16(status).unwrap()).with_headers(headers.clone()).with_body(body.clone());
            ensure!(b.build_update() == r, "builder", "the builder makes another update response");
            ensure!(HttpUpdateResponse::from(resp.clone().unwrap()) == r, "convert", "an update response made of the response differs");
        }
    }
    // equality does not depend on the order of headers, and on nothing else
    if let Some(r) = resp {
        let mut hs = headers.clone();
        cx.shuffle(&mut hs);
        let mut b = HttpResponse::builder().with_status_code(StatusCode::from_u16(status).unwrap()).with_headers(hs.clone()).with_body(body.clone());
        if let Some(u) = upgrade {
            b = b.with_upgrade(u);
        }
        let same = b.build();
        ensure!(same == r && r == same, "equal", "a response with its headers in another order is not equal");
        ensure!(same.headers() == &hs[..], "equal", "comparing changed the headers");
        let mut other = same.clone();
        match cx.draw(4) {
            0 if !hs.is_empty() => {
                let i = cx.draw(hs.len() as u64) as usize;
                let h = &mut other.headers_mut()[i];
                if cx.bool() {
                    h.0.push('x');
                } else {
                    h.1.push('x');
                }
            }
            1 => other.add_header(("a".into(), "b".into())),
            2 if !hs.is_empty() => {
                other.headers_mut().pop();
            }
            _ => {
                let mut nb = body.clone();
                nb.push(0);
                let b = hc::HttpResponseBuilder::from(other).with_body(nb);
                other = b.build();
                ensure!(other.status_code().as_u16() == status && other.headers() == &hs[..] && other.upgrade() == upgrade, "builder", "a builder made of a response lost something");
            }
        }
        ensure!(other != r, "equal", "different responses are equal: {other:?}");
    }
    Ok(())
}

/// Urls as the requests and update requests read them, and the short ways of building requests.
fn urls(cx: &mut Cx) -> Res {
    let path = gen_request_path(cx);
    let query = if cx.bool() { Some(cx.vec(30, 6, |cx| *cx.pick(&['a', '=', '&', '%', '+', '?', '/', '2', 'b', '.'])).into_iter().collect::<String>()) } else { None };
    let raw = enc_random(cx, &path);
    let mut url = format!("{}{raw}", cx.pick(&["", "", "https://canister.com", "http://localhost:8080"]));
    if let Some(q) = &query {
        url = format!("{url}?{q}");
    }
    if cx.chance(1, 5) {
        url.push_str(*cx.pick(&["#", "#x", "#x?y"]));
    }
    let known = !cx.chance(1, 4);
    if !known {
        // something else
        let at = (0..=cx.range(0, url.len())).rev().find(|i| url.is_char_boundary(*i)).unwrap();
        url.insert_str(at, *cx.pick(&[" ", "%", "%f", "%ff", "\\", "é", "\0", "[", ":", "//", "?", "#", "%C3", "%F0%9F%98%80"]));
    }
    cx.note(|| format!("url {url:?}, path {path:?}, query {query:?}"));
    let method = cx.draw(5) as usize;
    let b = [HttpRequest::get, HttpRequest::post, HttpRequest::put, HttpRequest::patch, HttpRequest::delete][method](url.clone());
    let name = ["GET", "POST", "PUT", "PATCH", "DELETE"][method];
    let headers: Headers = cx.vec(4, 1, |cx| (gen_text(cx, 6), gen_text(cx, 8)));
    let body = gen_body(cx);
    let mut b = b.with_headers(headers.clone()).with_body(body.clone());
    let version = *cx.pick(&[None, Some(0), Some(2)]);
    if let Some(v) = version {
        b = b.with_certificate_version(v);
    }
    let r = b.build();
    ensure!(r.method().as_str() == name && r.url() == url && r.headers() == &headers[..] && r.body() == &body[..] && r.certificate_version() == version, "short", "{name} of {url:?} is {r:?}");
    let u = HttpUpdateRequest::from(r.clone());
    ensure!(u.method().as_str() == name && u.url() == url && u.headers() == &headers[..] && u.body() == &body[..], "convert", "{r:?} becomes {u:?}");
    let (p, q) = (no_panic(|| r.get_path()), no_panic(|| r.get_query()));
    let (up, uq) = (no_panic(|| u.get_path()), no_panic(|| u.get_query()));
    let show = |x: &dyn std::fmt::Debug| format!("{x:?}");
    ensure!(p.is_ok() && q.is_ok() && up.is_ok() && uq.is_ok(), "panic", "reading {url:?} panicked");
    ensure!(show(&p) == show(&up) && show(&q) == show(&uq), "update", "{url:?} is {p:?} and {q:?} for a request, {up:?} and {uq:?} for an update");
    if known {
        cx.nontrivial();
        let (p, q) = (p.unwrap(), q.unwrap());
        ensure!(p.as_ref().is_ok_and(|p| *p == path), "path", "the path of {url:?} is {p:?}, expected {path:?}");
        ensure!(q.as_ref().is_ok_and(|q| *q == query), "query", "the query of {url:?} is {q:?}, expected {query:?}");
    }
    // an update response changes like a response
    let mut resp = HttpResponse::builder().with_headers(headers.clone()).with_body(body.clone()).build();
    let mut ur = HttpUpdateResponse::from(resp.clone());
    for _ in 0..cx.range(0, 3) {
        if cx.bool() {
            let h = (gen_text(cx, 6), gen_text(cx, 6));
            resp.add_header(h.clone());
            ur.add_header(h);
        } else {
            let n = cx.range(0, 4);
            resp.headers_mut().truncate(n);
            ur.headers_mut().truncate(n);
        }
    }
    ensure!(ur == HttpUpdateResponse::from(resp.clone()) && ur.headers() == resp.headers(), "update", "{resp:?} and {ur:?} after the same changes");
    no_panic(|| format!("{resp:?} {ur:?} {r:?} {u:?}")).or_else(|p| fail("panic", p))?;
    Ok(())
}

fn helpers(cx: &mut Cx) -> Res {
    // the certificate header says what it is given, and nothing else changes
    let n = if cx.chance(1, 30) { cx.size(100_000) } else { cx.range(0, 300) };
    let tree = gen_tree(cx, 3, true);
    let tree = tree.prune(cx, 5);
    let (max, avg) = if cx.chance(1, 30) { (400, 60) } else { (5, 2) };
    let mut path: Vec<String> = cx.vec(max, avg, |cx| gen_text(cx, 5));
    if cx.chance(1, 30) {
        let n = cx.size(50_000);
        path.push("long segment ".repeat(n / 13 + 1));
    }
    let cert = simple_cert(CANISTER, &sha(&[b"x"]), NOW);
    let mut resp = gen_resp(cx);
    let mut ic = resp.to_ic();
    let before = ic.headers().to_vec();
    no_panic(|| utils::add_v2_certificate_header(&cert.cbor(), &mut ic, &tree.to_ic(), &path)).or_else(|p| fail("panic", p))?;
    let hs = ic.headers().to_vec();
    ensure!(hs.len() == before.len() + 1 && hs[..before.len()] == before[..] && ic.body() == &resp.body[..] && ic.status_code().as_u16() == resp.status, "header", "the response changed: {hs:?}");
    let (name, value) = hs.last().unwrap();
    ensure!(name == "IC-Certificate", "header", "the header is called {name:?}");
    let h = CertificateHeader::from(value).or_else(|e| fail("header", format!("{e}: {value}")))?;
    ensure!(h.certificate == cert.to_ic() && h.tree == tree.to_ic() && h.version == 2 && h.expr_path == Some(path.clone()), "header", "the header says {h:?}");
    // any certificate bytes
    let raw = cx.blob(n);
    let mut ic = resp.to_ic();
    utils::add_v2_certificate_header(&raw, &mut ic, &tree.to_ic(), &path);
    ensure!(ic.headers().last().unwrap().1.starts_with(&format!("certificate=:{}:, ", b64(&raw))), "header", "another certificate in {:?}", ic.headers().last());
    // skipping certification
    let data = utils::skip_certification_certified_data();
    let honest = !cx.chance(1, 4);
    let certified = if honest { data } else { sha(&[&data]) };
    let env = VEnv { min_version: cx.range(0, 2) as u8, now: if cx.chance(1, 8) { NOW + OFFSET + 1 } else { NOW + OFFSET / 2 }, ..VEnv::default() };
    let fresh = env.now <= NOW + OFFSET;
    let cert = simple_cert(CANISTER, &certified, NOW).cbor();
    resp.headers.retain(|h| honest || !h.0.eq_ignore_ascii_case("ic-certificate"));
    if cx.chance(1, 6) {
        resp.headers.push(("Ic-CERTIFICATE".into(), "nothing".into()));
        resp.headers.push(("ic-certificateexpression".into(), "nothing".into()));
    }
    let mut ic = resp.to_ic();
    utils::add_skip_certification_header(cert, &mut ic);
    ensure!(ic.headers().len() == resp.headers.len() + 2 && ic.headers()[..resp.headers.len()] == resp.headers[..], "skip", "the response changed: {:?}", ic.headers());
    let mut req = gen_req(cx);
    let p = gen_request_path(cx);
    req.raw_path = enc_random(cx, &p);
    req.path = p;
    cx.note(|| format!("certified: {honest}, fresh: {fresh}, {req:?}"));
    cx.nontrivial();
    let got = verify_ic(&env, req.to_ic(), ic)?;
    if honest && fresh {
        ensure!(got == Outcome::Skipped, "skip", "{}", got.short());
    } else {
        ensure!(!got.accepted(), "skip", "{}", got.short());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "random requests and responses, encoded in Candid by record types written from the interface specification, decoded by the library, encoded again, built by the builders, and compared; with invalid methods and statuses, unknown fields and shuffled headers; paths and queries that requests and update requests read from random urls (urls); non-trivial: headers and a body (urls: a well-formed url); distinct by choice sequence",
            assumptions: &["the candid crate is trusted"],
            subs: vec![sub("wire", 60_000, 2_000_000, wire), sub("urls", 60_000, 1_000_000, urls)],
        },
        Prop {
            id: "C27",
            rule: "random trees, paths and responses given to the header helper and read back; random requests and responses skipped under the certified data of the skip helper, under other data, and after the certificate is too old; every case is non-trivial; distinct by choice sequence",
            assumptions: &[],
            subs: vec![sub("helpers", 12_000, 500_000, helpers)],
        },
    ]
}
