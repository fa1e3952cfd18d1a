//! C32: the JavaScript bindings of the verifier, compared with the verifier itself.
use super::{assets, e2e, header, v1};
use crate::{engine::*, ensure, util::e2e::*, util::http::*};
use serde_json::{json, Value};

/// Has the bindings, run by node, take one case. None: node ended without an answer.
fn ask(case: &Value) -> Option<Value> {
    crate::util::node::ask("wasm/driver.js", "build/wasm-pkg", case)
}

fn pairs(h: &Headers) -> Value {
    Value::Array(h.iter().map(|(a, b)| json!([a, b])).collect())
}

fn short(v: &Value) -> String {
    let s = v.to_string();
    s.chars().take(700).collect()
}

/// The case for the bindings.
fn case_of(cx: &mut Cx, c: &Call) -> Value {
    let mut order = vec![0, 1, 2, 3, 4];
    cx.shuffle(&mut order);
    json!({
        "url": c.url, "method": c.method, "reqHeaders": pairs(&c.req_headers), "reqBody": hex::encode(&c.req_body),
        "status": c.status, "headers": pairs(&c.headers), "body": hex::encode(&c.body),
        "canister": hex::encode(&c.canister), "now": c.now.to_string(), "offset": c.offset.to_string(), "root": hex::encode(&c.root),
        "min": c.min_version, "order": order, "how": cx.draw(3),
    })
}

/// Labels need to last.
fn kept(code: &str) -> &'static str {
    static CODES: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(vec![]);
    let mut codes = CODES.lock().unwrap();
    if let Some(c) = codes.iter().find(|c| **c == code) {
        return c;
    }
    codes.push(Box::leak(code.to_string().into_boxed_str()));
    codes[codes.len() - 1]
}

fn compare(cx: &mut Cx, c: &Call) -> Res {
    let fits = |t: u128| t <= u64::MAX as u128;
    let Some(native) = &c.result else { return Ok(()) };
    if !fits(c.now) || !fits(c.offset) {
        return Ok(());
    }
    let case = case_of(cx, c);
    let Some(got) = ask(&case) else { return fail("ended", "node ended without an answer") };
    if let Some(t) = got.get("trap") {
        return fail("trap", format!("the bindings trapped: {t}, natively: {}", match native {
            Ok(i) => format!("{:?}", i.response.as_ref().map(|r| r.status_code)),
            Err(e) => format!("{e:?}"),
        }));
    }
    match native {
        Err((code, text)) => {
            cx.label(kept(code));
            let want = json!({"err": {"code": code, "message": text}});
            ensure!(got == want, if got.get("err").is_some() { "error" } else { "accepted" }, "the bindings: {}, natively: {}", short(&got), short(&want));
        }
        Ok(i) => {
            let Some(ok) = got.get("ok") else { return fail("refused", format!("the bindings: {}, natively accepted", short(&got))) };
            ensure!(ok["version"] == json!(i.verification_version), "version", "version {}, natively {}", ok["version"], i.verification_version);
            match &i.response {
                None => ensure!(ok["response"].is_null(), "response", "a response where there is none natively: {}", short(&ok["response"])),
                Some(r) => {
                    let p = &ok["response"];
                    ensure!(p["typed"] == json!(true), "types", "the response has other types: {}", short(p));
                    ensure!(p["status"] == json!(r.status_code), "status", "status {}, natively {:?}", p["status"], r.status_code);
                    ensure!(p["headers"] == pairs(&r.headers), "headers", "headers {}, natively {:?}", short(&p["headers"]), r.headers);
                    ensure!(p["body"] == json!(hex::encode(&r.body)), "body", "body {}, natively {}", short(&p["body"]), crate::util::hexs(&r.body));
                }
            }
        }
    }
    Ok(())
}

/// The pairs another property's check makes up; whether that property holds is not the question.
fn calls(cx: &mut Cx, f: fn(&mut Cx) -> Res) -> Vec<Call> {
    CALLS.with(|c| *c.borrow_mut() = Some(vec![]));
    let _ = no_panic(|| f(cx));
    cx.forget();
    CALLS.with(|c| c.borrow_mut().take()).unwrap()
}

fn bindings(cx: &mut Cx) -> Res {
    let which = cx.weighted(&[3, 3, 6, 4, 3, 6, 1]);
    let f: fn(&mut Cx) -> Res = [header::negotiate, e2e::honest, e2e::tampered, e2e::specific, v1::v1, header::hostile, assets::verified][which];
    let mut all = calls(cx, f);
    for c in all.iter_mut().take(12) {
        // for a url that is close to another, or none
        if cx.chance(1, 8) {
            let at = cx.range(0, c.url.len());
            let at = (0..=at).rev().find(|i| c.url.is_char_boundary(*i)).unwrap();
            let bit = *cx.pick(&[" ", "#x", "\n", "\t", "%", "%20", "\0", "é", "\u{feff}", "\\", "/", "?", "?a=b", ":", "//", "[", "\u{a0}", "..", "\"", "😀"]);
            let (a, b) = c.url.split_at(at);
            let url = match cx.weighted(&[2, 2, 4, 1]) {
                0 => format!("{bit}{}", c.url),
                1 => format!("{}{bit}", c.url),
                2 => format!("{a}{bit}{b}"),
                _ => a.to_string(),
            };
            cx.note(|| format!("for the url {url:?}"));
            c.ask_for(url);
            cx.label("changed url");
        }
        match &c.result {
            Some(Ok(i)) => {
                cx.nontrivial();
                cx.label(match (&i.response, i.verification_version) {
                    (None, _) => "not certified",
                    (_, 1) => "version 1",
                    _ => "version 2",
                });
            }
            Some(Err(_)) => {
                cx.nontrivial();
                cx.label("refused");
            }
            None => cx.label("panicked natively"),
        }
        compare(cx, c)?;
    }
    Ok(())
}

/// A status code as the network sends it, which need not be one of HTTP's.
fn status(cx: &mut Cx) -> Res {
    let entry = gen_entry(cx);
    let code: u64 = match cx.draw(4) {
        0 => *cx.pick(&[0u64, 1, 99, 100, 199, 200, 599, 600, 999, 1000, 1200, 65535]),
        1 => cx.draw(65536),
        2 => *cx.pick(&[65536 + 200, 65536, 4294967296 + 200, 1 << 40]),
        _ => 100 + cx.draw(900),
    };
    let labels: Vec<Vec<u8>> = std::iter::once(b"http_expr".to_vec()).chain(entry.labels()).collect();
    let tree = path_tree(cx, &[labels]);
    let cert = crate::util::cert::simple_cert(CANISTER, &tree.digest(), crate::util::cert::NOW).cbor();
    let mut headers = entry.resp.headers.clone();
    headers.push(("IC-Certificate".into(), cert_header(&cert, &tree.cbor(), &full_path(&entry.segs()))));
    let path = if entry.path.starts_with('/') { entry.path.clone() } else { format!("/{}", entry.path) };
    let req = Req { raw_path: enc_plain(&path), path, ..entry.req.clone() };
    let env = VEnv::default();
    cx.note(|| format!("status {code}, certified {}, {:?}", entry.resp.status, entry.cel));
    let call = Call {
        canister: CANISTER.to_vec(),
        now: env.now,
        offset: env.offset,
        root: env.root,
        min_version: 2,
        method: req.method.clone(),
        url: req.url(),
        req_headers: req.headers.clone(),
        req_body: req.body.clone(),
        status: entry.resp.status,
        headers,
        body: entry.resp.body.clone(),
        result: None,
    };
    let mut case = case_of(cx, &call);
    case["status"] = json!(code);
    if !(100..1000).contains(&code) {
        cx.nontrivial();
        cx.label("not of HTTP");
    }
    let Some(got) = ask(&case) else { return fail("ended", "node ended without an answer") };
    ensure!(got.get("trap").is_none(), "status-trap", "the bindings trapped for status {code}: {}", got["trap"]);
    // accepted only if the status is the certified one or not certified
    if let Some(ok) = got.get("ok") {
        ensure!((100..1000).contains(&code), "status-accepted", "status {code} was accepted");
        let p = &ok["response"];
        if !p.is_null() {
            ensure!(p["status"] == json!(code) && code == entry.resp.status as u64, "status", "status {code} was accepted as {}, certified is {}", p["status"], entry.resp.status);
        }
    } else if code == entry.resp.status as u64 {
        cx.label("refused");
    }
    Ok(())
}

fn limits(cx: &mut Cx) -> Res {
    let which = cx.draw(2);
    cx.nontrivial();
    let Some(got) = ask(&json!({"limits": true, "n": which})) else { return fail("ended", "node ended without an answer") };
    let want = json!({"min": ic_response_verification::MIN_VERIFICATION_VERSION, "max": ic_response_verification::MAX_VERIFICATION_VERSION});
    ensure!(got == want, "limits", "the bindings say {got}, natively {want}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "the request-response pairs the checks of C20 to C25 and C29 make up, honest, tampered and hostile, given to the JavaScript bindings, compiled to wasm and run by node, and to the verifier itself (bindings), and responses with any status code (status); the answers, error codes and texts have to be the same, whatever the order of the fields and the kind of byte array; non-trivial: at least one answer was compared (bindings), a status that is none of HTTP's (status); distinct by choice sequence",
        assumptions: &["node and wasm-bindgen are trusted", "requests have a valid method and times are below 2^64, as the bindings' types say"],
        subs: vec![sub("bindings", 3_000, 100_000, bindings), sub("status", 1_500, 40_000, status), sub("limits", 2, 2, limits)],
    }]
}
