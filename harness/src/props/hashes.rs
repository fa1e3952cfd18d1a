//! C13, C14, C15: the hashes that tie a certification to a request and a response.
use crate::{engine::*, ensure, util::http::*, util::*};
use ic_http_certification as hc;
use ic_representation_independent_hash::{hash, representation_independent_hash, Value};

#[derive(Clone, Debug, PartialEq, Hash)]
enum V {
    S(String),
    N(u64),
    B(Vec<u8>),
    A(Vec<V>),
}

impl V {
    fn ic(&self) -> Value {
        match self {
            V::S(s) => Value::String(s.clone()),
            V::N(n) => Value::Number(*n),
            V::B(b) => Value::Bytes(b.clone()),
            V::A(v) => Value::Array(v.iter().map(V::ic).collect()),
        }
    }
    fn hash(&self) -> H {
        match self {
            V::S(s) => sha(&[s.as_bytes()]),
            V::N(n) => sha(&[&leb(*n as u128)]),
            V::B(b) => sha(&[b]),
            V::A(v) => {
                let flat: Vec<u8> = v.iter().flat_map(|e| e.hash()).collect();
                sha(&[&flat])
            }
        }
    }
    fn gen(cx: &mut Cx, depth: usize) -> V {
        match cx.weighted(&[3, 3, 2, if depth > 0 { 2 } else { 0 }]) {
            0 => V::S(gen_text(cx, 20)),
            1 => V::N(match cx.draw(4) {
                0 => cx.draw(130),
                1 => 1 << cx.draw(64),
                2 => (1u64 << (7 * cx.draw(9))) - cx.draw(2),
                _ => cx.u64(),
            }),
            2 => {
                let n = if cx.chance(1, 100) { cx.size(70_000) } else { cx.range(0, 70) };
                V::B(cx.blob(n))
            }
            _ if cx.chance(1, 60) => {
                if cx.bool() {
                    return V::A((0..cx.size(300)).map(|_| V::gen(cx, 0)).collect());
                }
                let n = cx.size(100);
                (0..n).fold(V::gen(cx, 0), |v, _| V::A(vec![v]))
            }
            _ => V::A(cx.vec(5, 2, |cx| V::gen(cx, depth - 1))),
        }
    }
}

fn ref_hash(m: &[(String, V)]) -> H {
    map_hash(m.iter().map(|(k, v)| (sha(&[k.as_bytes()]), v.hash())).collect())
}

fn lib_hash(m: &[(String, V)]) -> Result<H, Fail> {
    let m: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.clone(), v.ic())).collect();
    no_panic(|| representation_independent_hash(&m)).or_else(|p| fail("panic", p))
}

fn gen_map(cx: &mut Cx) -> Vec<(String, V)> {
    let entry = |cx: &mut Cx| {
        let k = match cx.draw(3) {
            0 => cx.pick(&["a", "b", "name", "", "Name", ":ic-cert-status"]).to_string(),
            _ => gen_text(cx, 8),
        };
        (k, V::gen(cx, 2))
    };
    let mut m = cx.vec(8, 3, entry);
    if cx.chance(1, 60) {
        for i in 0..cx.size(500) {
            m.push((i.to_string(), V::gen(cx, 0)));
        }
    }
    if !m.is_empty() && cx.chance(1, 4) {
        // a repeated key, perhaps with the same value
        let mut d = cx.pick(&m).clone();
        if cx.bool() {
            d.1 = V::gen(cx, 1);
        }
        m.push(d);
    }
    m
}

fn ri_hash(cx: &mut Cx) -> Res {
    let mut m = gen_map(cx);
    cx.note(|| format!("map {m:?}"));
    if m.len() >= 2 {
        cx.nontrivial();
    }
    let want = ref_hash(&m);
    let got = lib_hash(&m)?;
    ensure!(got == want, "hash", "the hash of {m:?} is {}, the specification says {}", hexs(&got), hexs(&want));
    cx.shuffle(&mut m);
    let again = lib_hash(&m)?;
    ensure!(again == want, "order", "the hash depends on the order of the entries: {m:?}");
    // any one change of the content changes the hash
    let mut o = m.clone();
    let what = match cx.draw(6) {
        0 if !o.is_empty() => {
            let i = cx.draw(o.len() as u64) as usize;
            o.remove(i);
            "an entry removed"
        }
        1 => {
            let v = V::gen(cx, 1);
            o.push((gen_text(cx, 4), v));
            "an entry added"
        }
        2 if !o.is_empty() => {
            let i = cx.draw(o.len() as u64) as usize;
            o[i].1 = V::gen(cx, 1);
            "a value replaced"
        }
        3 if !o.is_empty() => {
            let i = cx.draw(o.len() as u64) as usize;
            o[i].0.push('x');
            "a key extended"
        }
        4 if o.len() >= 2 => {
            let v = o[0].1.clone();
            o[0].1 = o[1].1.clone();
            o[1].1 = v;
            "values swapped"
        }
        5 if !o.is_empty() => {
            let d = cx.pick(&o).clone();
            o.push(d);
            "an entry repeated"
        }
        _ => "nothing",
    };
    let norm = |m: &[(String, V)]| {
        let mut v: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.hash())).collect();
        v.sort();
        v
    };
    let same = norm(&o) == norm(&m);
    cx.note(|| format!("{what}: {o:?}"));
    let h = lib_hash(&o)?;
    ensure!((h == got) == same, if same { "split" } else { "collision" }, "{what}: the hashes of {m:?} and {o:?} are {}", if h == got { "equal" } else { "different" });
    let b = {
        let n = if cx.chance(1, 100) { cx.size(1 << 20) } else { cx.range(0, 200) };
        cx.blob(n)
    };
    ensure!(hash(&b) == sha(&[&b]), "sha", "hash({})", hexs(&b));
    Ok(())
}

fn lib_request_hash(r: &Req, headers: &[String], params: &[String]) -> Result<H, Fail> {
    let ic = r.to_ic();
    match no_panic(|| hc::request_hash(&ic, &request_c(headers, params))) {
        Err(p) => fail("panic", format!("request_hash panicked: {p}")),
        Ok(Err(e)) => fail("refused", format!("request_hash of {r:?}: {e}")),
        Ok(Ok(h)) => Ok(h),
    }
}

fn request(cx: &mut Cx) -> Res {
    let headers = gen_names(cx, REQ_HEADERS);
    let params = gen_names(cx, PARAMS);
    let r = gen_req(cx);
    cx.note(|| format!("certified headers {headers:?} parameters {params:?} of {r:?}"));
    let fh = req_filter(&r, &headers);
    let fq = r.query.as_ref().map(|q| query_filter(q, &params));
    if !fh.is_empty() || fq.as_ref().is_some_and(|q| !q.is_empty()) {
        cx.nontrivial();
    }
    let want = ref_request_hash(&r, &headers, &params);
    let got = lib_request_hash(&r, &headers, &params)?;
    ensure!(got == want, "hash", "request_hash({r:?}) is {}, the specification says {}", hexs(&got), hexs(&want));

    // a related request: the hash is the same exactly if the certified parts are
    let mut o = r.clone();
    for _ in 0..cx.range(1, 3) {
        match cx.draw(10) {
            0 => o.method = cx.pick(&["GET", "POST", "HEAD", "PUT", "get"]).to_string(),
            1 => {
                let i = cx.draw(o.body.len() as u64 + 1) as usize;
                if i < o.body.len() {
                    o.body[i] ^= 1 << cx.draw(8);
                } else {
                    o.body.push(0);
                }
            }
            2 if !o.headers.is_empty() => {
                let i = cx.draw(o.headers.len() as u64) as usize;
                o.headers.remove(i);
            }
            3 => {
                let h = gen_headers(cx, REQ_HEADERS);
                o.headers.extend(h);
            }
            4 if !o.headers.is_empty() => {
                let i = cx.draw(o.headers.len() as u64) as usize;
                o.headers[i].1 = gen_text(cx, 5);
            }
            5 => {
                let mut h = o.headers.clone();
                for x in &mut h {
                    x.0 = recase(cx, &x.0);
                }
                cx.shuffle(&mut h);
                o.headers = h;
            }
            6 => o.query = gen_query(cx),
            7 => {
                if let Some(q) = &o.query {
                    let mut parts: Vec<&str> = q.split('&').collect();
                    cx.shuffle(&mut parts);
                    o.query = Some(parts.join("&"));
                }
            }
            8 => {
                if let Some(q) = &o.query {
                    o.query = Some(format!("{q}{}{}={}", if cx.chance(1, 8) { "" } else { "&" }, cx.pick(PARAMS), cx.draw(3)));
                }
            }
            _ => {
                o.path = gen_path_text(cx);
                o.raw_path = enc_random(cx, &o.path);
                o.origin = *cx.pick(&["", "https://other.example"]);
            }
        }
    }
    // whether there is a query string at all is part of the hash
    let norm = |r: &Req| {
        let mut h = req_filter(r, &headers);
        h.sort();
        (r.method.clone(), h, r.query.as_ref().map(|q| query_filter(q, &params)), r.body.clone())
    };
    let same = norm(&r) == norm(&o);
    cx.note(|| format!("related {o:?} ({})", if same { "same certified parts" } else { "different" }));
    cx.label(if same { "related request with the same certified parts" } else { "related request that differs" });
    let h = lib_request_hash(&o, &headers, &params)?;
    ensure!((h == got) == same, if same { "split" } else { "collision" }, "the hashes of {r:?} and {o:?} are {}", if h == got { "equal" } else { "different" });
    Ok(())
}

/// Requests with arbitrary URLs.
fn urls(cx: &mut Cx) -> Res {
    let n = if cx.chance(1, 60) { cx.size(3000) } else { cx.range(0, 24) };
    let url: String = (0..n)
        .map(|_| if cx.chance(1, 2) { *cx.pick(&['/', '%', '?', '#', '&', '=', ':', '@', '[', ']', ' ', 'é', '\u{0}', '*', '.', '2', 'F', 'a', '<', '"', '\\', '^']) } else { (33 + cx.draw(94) as u8) as char })
        .collect();
    let url = if cx.bool() { format!("/{url}") } else { url };
    cx.note(|| format!("url {url:?}"));
    let params = gen_names(cx, PARAMS);
    let ic = hc::HttpRequest::get(url.clone()).build();
    let h = no_panic(|| hc::request_hash(&ic, &request_c(&[], &params))).or_else(|p| fail("panic", format!("request_hash({url:?}) panicked: {p}")))?;
    let q = no_panic(|| ic.get_query()).or_else(|p| fail("panic", format!("get_query({url:?}) panicked: {p}")))?;
    let p = no_panic(|| ic.get_path()).or_else(|p| fail("panic", format!("get_path({url:?}) panicked: {p}")))?;
    match (h, q) {
        (Err(_), Err(_)) => {
            ensure!(p.is_err(), "url", "{url:?} has a path but no query");
            cx.label("malformed");
        }
        (Ok(h), Ok(q)) => {
            cx.nontrivial();
            let m = Req { query: q, ..Req::get("/") };
            ensure!(h == ref_request_hash(&m, &[], &params), "hash", "request_hash of {url:?}");
            if let (Ok(p), true) = (&p, url.starts_with('/')) {
                let raw = url.split(['?', '#']).next().unwrap();
                ensure!(Some(p.clone().into_bytes()) == pct_decode(raw), "path", "get_path of {url:?} is {p:?}");
                let wq = url.split('#').next().unwrap().split_once('?').map(|x| x.1.to_string());
                ensure!(m.query == wq, "query", "get_query of {url:?} is {:?}", m.query);
            }
        }
        (h, q) => return fail("url", format!("{url:?}: request_hash {h:?}, get_query {q:?}")),
    }
    Ok(())
}

/// Percent-decoding; None if a '%' is not followed by two digits (the behaviour is then not specified).
fn pct_decode(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).filter(|h| h.bytes().all(|c| c.is_ascii_hexdigit())).and_then(|h| u8::from_str_radix(h, 16).ok());
            match h {
                Some(h) => {
                    o.push(h);
                    i += 3;
                    continue;
                }
                None => o.push(b'%'),
            }
        } else {
            o.push(b[i]);
        }
        i += 1;
    }
    Some(o)
}

fn lib_response_hash(r: &Resp, c: &RespC, o: Option<H>) -> Result<H, Fail> {
    let ic = r.to_ic();
    no_panic(|| hc::response_hash(&ic, &c.to_ic(), o)).or_else(|p| fail("panic", format!("response_hash panicked: {p}")))
}

fn add_ic_headers(cx: &mut Cx, r: &mut Resp) {
    for n in ["IC-Certificate", "IC-CertificateExpression"] {
        for _ in 0..cx.weighted(&[2, 5, 1]) {
            let n = recase(cx, n);
            let v = gen_text(cx, 10);
            let at = cx.range(0, r.headers.len());
            r.headers.insert(at, (n, v));
        }
    }
}

fn response(cx: &mut Cx) -> Res {
    let mut c = gen_resp_c(cx);
    if cx.chance(1, 6) {
        c.headers.push(cx.pick(&["IC-Certificate", "ic-certificateexpression", "IC-CertificateExpression"]).to_string());
    }
    if !c.headers.is_empty() && cx.chance(1, 20) {
        // names that are not quite those of the response
        for h in &mut c.headers {
            match cx.draw(6) {
                0 => h.push(' '),
                1 => h.insert(0, ' '),
                2 => h.push('\t'),
                3 => drop(h.pop()),
                4 => h.push('x'),
                _ => {}
            }
        }
    }
    if cx.chance(1, 80) {
        // a long list before the names that count
        let n = cx.size(600);
        c.headers.splice(0..0, (0..n).map(|i| format!("h{i}")));
    }
    let mut r = gen_resp(cx);
    add_ic_headers(cx, &mut r);
    cx.note(|| format!("{c:?} of {r:?}"));
    let f = c.filter(&r.headers);
    if f.iter().any(|h| !h.0.starts_with("ic-")) && f.len() < r.headers.len() {
        cx.nontrivial();
    }
    let want = c.hash(&r);
    let got = lib_response_hash(&r, &c, None)?;
    ensure!(got == want, "hash", "response_hash({c:?}, {r:?}) is {}, the specification says {}", hexs(&got), hexs(&want));
    ensure!(lib_response_hash(&r, &c, Some(sha(&[&r.body])))? == want, "body-hash", "response_hash with the hash of the body given differs");
    // the hash of a body that is not here, as for streamed bodies
    let other = Resp { body: gen_value(cx), ..r.clone() };
    ensure!(lib_response_hash(&r, &c, Some(sha(&[&other.body])))? == c.hash(&other), "body-hash", "response_hash of {r:?} with the hash of the body {} given", hexs(&other.body));
    let ic = r.to_ic();
    let fl = hc::filter_response_headers(&ic, &c.to_ic());
    ensure!(fl.headers == f, "filter", "filter_response_headers({c:?}, {:?}) = {:?}, expected {f:?}", r.headers, fl.headers);
    let last = r.headers.iter().rev().find(|h| h.0.eq_ignore_ascii_case("ic-certificate")).map(|h| h.1.clone());
    ensure!(fl.certificate == last, "certificate", "the certificate header is {:?}, expected {last:?}", fl.certificate);

    let mut o = r.clone();
    for _ in 0..cx.range(1, 3) {
        match cx.draw(8) {
            0 => o.status = *cx.pick(&[200u16, 201, 328, 404, 100]),
            1 => {
                let i = cx.draw(o.body.len() as u64 + 1) as usize;
                if i < o.body.len() {
                    o.body[i] ^= 1 << cx.draw(8);
                } else {
                    o.body.push(0);
                }
            }
            2 if !o.headers.is_empty() => {
                let i = cx.draw(o.headers.len() as u64) as usize;
                o.headers.remove(i);
            }
            3 => {
                let h = gen_headers(cx, RESP_HEADERS);
                o.headers.extend(h);
            }
            4 if !o.headers.is_empty() => {
                let i = cx.draw(o.headers.len() as u64) as usize;
                o.headers[i].1 = gen_text(cx, 5);
            }
            5 => {
                let mut h = o.headers.clone();
                for x in &mut h {
                    x.0 = recase(cx, &x.0);
                }
                cx.shuffle(&mut h);
                o.headers = h;
            }
            6 => o.headers.push(("ic-certificate".into(), gen_text(cx, 5))),
            _ => add_ic_headers(cx, &mut o),
        }
    }
    let norm = |r: &Resp| {
        let mut h = c.filter(&r.headers);
        h.sort();
        (r.status, h, r.body.clone())
    };
    let same = norm(&r) == norm(&o);
    cx.note(|| format!("related {o:?}"));
    cx.label(if same { "related response with the same certified parts" } else { "related response that differs" });
    let h = lib_response_hash(&o, &c, None)?;
    ensure!((h == got) == same, if same { "split" } else { "collision" }, "the hashes of {r:?} and {o:?} are {}", if h == got { "equal" } else { "different" });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "random maps with repeated keys and nested arrays, against an independent implementation of the specification, then shuffled and changed in one place; non-trivial: at least two entries; distinct by choice sequence",
            assumptions: &["text and bytes of the same content, and a number and its LEB128 bytes, have the same hash by specification"],
            subs: vec![sub("hash", 600_000, 4_000_000, ri_hash)],
        },
        Prop {
            id: "C14",
            rule: "random requests and certification filters against an independent implementation, and pairs of related requests whose hashes have to agree exactly if their certified parts do; arbitrary URL text; non-trivial: some header or parameter is certified (urls: the URL parses); distinct by choice sequence",
            assumptions: &["header names do not start with ':'", "whether the URL has a query string at all counts as certified"],
            subs: vec![sub("request", 500_000, 4_000_000, request), sub("urls", 500_000, 4_000_000, urls)],
        },
        Prop {
            id: "C15",
            rule: "random responses and certification filters against an independent implementation, and pairs of related responses whose hashes have to agree exactly if their certified parts do; non-trivial: some header is certified and some is not; distinct by choice sequence",
            assumptions: &["header names do not start with ':'"],
            subs: vec![sub("response", 400_000, 4_000_000, response)],
        },
    ]
}
