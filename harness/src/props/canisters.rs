//! C34, C35, C36: the example canisters, run by node on a replica of one canister.
use crate::{engine::*, ensure, util::cert::*, util::e2e::*, util::http::*, util::*};
use ic_http_certification as hc;
use serde_json::{json, Value};
use std::collections::BTreeMap;

struct Replica {
    certified: Option<Vec<u8>>,
    time: u128,
}

enum Reply {
    Data(Vec<u8>),
    Trapped(String),
}

impl Replica {
    fn ask(&mut self, case: Value) -> Result<Reply, Fail> {
        let Some(v) = node::ask("canisters/driver.js", "build/canisters", &case) else { return fail("ended", "node ended without an answer") };
        if let Some(t) = v.get("trapped") {
            return Ok(Reply::Trapped(t.as_str().unwrap_or_default().to_string()));
        }
        if let Some(c) = v.get("certified").and_then(|c| c.as_str()) {
            self.certified = Some(hex::decode(c).unwrap());
        }
        Ok(Reply::Data(v.get("reply").and_then(|r| r.as_str()).map(|r| hex::decode(r).unwrap()).unwrap_or_default()))
    }
    fn message(&mut self, more: Value) -> Result<Reply, Fail> {
        let mut case = json!({"time": self.time.to_string()});
        for (k, v) in more.as_object().unwrap() {
            case[k] = v.clone();
        }
        self.ask(case)
    }
    fn install(name: &str, site: &[u8], entry: Option<&str>) -> Result<Replica, Fail> {
        let mut r = Replica { certified: None, time: NOW };
        match r.message(json!({"install": name, "site": hex::encode(site), "entry": entry, "kind": "update"}))? {
            Reply::Trapped(t) if !t.starts_with("no method") => fail("install", format!("{name} does not install: {t}")),
            _ => Ok(r),
        }
    }
    /// New code, and what is certified stays.
    fn upgrade(&mut self, name: &str, site: &[u8], entry: Option<&str>) -> Res {
        match self.message(json!({"install": name, "site": hex::encode(site), "entry": entry, "kind": "update"}))? {
            Reply::Trapped(t) if !t.starts_with("no method") => fail("upgrade", format!("{name} does not upgrade: {t}")),
            _ => Ok(()),
        }
    }
    fn update(&mut self, method: &str, arg: &[u8]) -> Result<Reply, Fail> {
        self.message(json!({"entry": format!("canister_update {method}"), "kind": "update", "arg": hex::encode(arg)}))
    }
    fn certificate(&self) -> Vec<u8> {
        simple_cert(CANISTER, self.certified.as_deref().unwrap_or(&[]), self.time).cbor()
    }
    fn query(&mut self, method: &str, arg: &[u8]) -> Result<Reply, Fail> {
        let cert = self.certificate();
        self.message(json!({"entry": format!("canister_query {method}"), "kind": "query", "arg": hex::encode(arg), "cert": hex::encode(cert)}))
    }
    /// An HTTP query. None: the canister wants an update call.
    fn http(&mut self, req: &Req) -> Result<Option<hc::HttpResponse<'static>>, Fail> {
        let arg = candid::encode_one(req.to_ic()).unwrap();
        match self.query("http_request", &arg)? {
            Reply::Trapped(t) => fail("trap", format!("the query {} {} trapped: {t}", req.method, req.url())),
            Reply::Data(d) => {
                let r = match candid::decode_one::<hc::HttpResponse>(&d) {
                    Ok(r) => r,
                    Err(e) => return fail("reply", format!("not a response: {e}")),
                };
                Ok((r.upgrade() != Some(true)).then_some(r))
            }
        }
    }
    fn env(&self) -> VEnv<'static> {
        VEnv { now: self.time, ..VEnv::default() }
    }
}

/// The response the verifier passes on has to be the one of the canister, but for its certificate.
fn passed_on(got: &Outcome, resp: &hc::HttpResponse) -> bool {
    match got {
        Outcome::Accepted { version: 2, status, headers, body } => {
            let all = |h: &[(String, String)]| {
                let mut v: Vec<_> = h.iter().filter(|h| !h.0.to_ascii_lowercase().starts_with("ic-certificate")).map(|h| (h.0.to_ascii_lowercase(), h.1.clone())).collect();
                v.sort();
                v
            };
            *status == Some(resp.status_code().as_u16()) && body == resp.body() && all(headers) == all(resp.headers())
        }
        _ => false,
    }
}

#[derive(candid::CandidType, serde::Deserialize)]
struct CertifiedCounter {
    count: u32,
    certificate: Vec<u8>,
    witness: Vec<u8>,
}

/// C34: every count is proven by its witness.
fn counter(cx: &mut Cx) -> Res {
    use ic_cbor::HashTreeToCbor;
    let mut r = Replica::install("counter", &[], Some("canister_init"))?;
    let none = candid::encode_args(()).unwrap();
    let mut want = 0u32;
    let mut old: Vec<(u32, Vec<u8>)> = vec![];
    // a failure that is known does not end the history
    let mut known = None;
    for _ in 0..cx.range(1, 12) {
        match cx.weighted(&[6, 6, 1]) {
            0 => {
                for _ in 0..if cx.chance(1, 6) { cx.range(1, 300) } else { 1 } {
                    if let Reply::Trapped(t) = r.update("inc_count", &none)? {
                        return fail("trap", format!("inc_count trapped: {t}"));
                    }
                    want += 1;
                }
            }
            1 => {
                r.time += cx.draw(1_000_000_000) as u128;
                let cert = r.certificate();
                let d = match r.query("get_count", &none)? {
                    Reply::Data(d) => d,
                    Reply::Trapped(t) => return fail("trap", format!("get_count trapped: {t}")),
                };
                let Ok(c) = candid::decode_one::<CertifiedCounter>(&d) else { return fail("reply", "not a counter") };
                cx.note(|| format!("count {} after {want} increments", c.count));
                ensure!(c.count == want, "count", "count {} after {want} increments", c.count);
                ensure!(c.certificate == cert, "certificate", "another certificate than the replica's");
                let Ok(tree) = ic_certification::HashTree::from_cbor(&c.witness) else { return fail("witness", "the witness does not decode") };
                let t = T::of_tree(&tree);
                if want == 0 && t == T::Empty && r.certified.as_deref() != Some(&t.digest()[..]) {
                    known = Some(Fail { kind: "witness".into(), msg: "the count is not certified before the first increment".into(), sig: Some("initial-count".into()) });
                    continue;
                }
                ensure!(Some(t.digest().to_vec()) == r.certified, "witness", "the witness after {want} increments is not of the certified tree");
                let hash = sha(&[&c.count.to_be_bytes()]).to_vec();
                ensure!(t.lookup(&[b"count".to_vec()]) == L::Found(hash), "witness", "the witness does not hold the hash of the count: {t:?}");
                if want > 1 {
                    cx.nontrivial();
                }
                old.push((want, c.witness));
            }
            _ => {
                // the count starts again after an upgrade
                r.upgrade("counter", &[], Some("canister_post_upgrade"))?;
                want = 0;
                old.clear();
                cx.label("upgraded");
            }
        }
        // what was shown before is no longer certified
        for (n, w) in &old {
            let t = T::of_tree(&ic_certification::HashTree::from_cbor(w).unwrap());
            ensure!((Some(t.digest().to_vec()) == r.certified) == (*n == want), "stale", "the witness of count {n} and the tree after {want} increments");
        }
    }
    known.map_or(Ok(()), Err)
}

#[derive(Clone, Debug, PartialEq)]
struct Todo {
    title: String,
    completed: bool,
}

const METHODS: &[&str] = &["GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "CONNECT"];

fn json_headers(h: &[(String, String)]) -> bool {
    h.iter().any(|h| h.0.eq_ignore_ascii_case("content-type") && h.1 == "application/json")
}

fn method_of(cx: &mut Cx, update: bool, path: &str) -> &'static str {
    if update && cx.chance(3, 4) {
        if path == "/todos" { "POST" } else { *cx.pick(&["PATCH", "DELETE"]) }
    } else {
        *cx.pick(METHODS)
    }
}

/// C35: the answers of the JSON example verify, and say what the history of requests makes them say.
fn json_api(cx: &mut Cx) -> Res {
    let mut r = Replica::install("json_api", &[], Some("canister_init"))?;
    let mut todos: BTreeMap<u32, Todo> = BTreeMap::new();
    let mut next = 0u32;
    let mut changes = 0;
    let mut old: Option<(Req, Resp)> = None;
    // a failure that is known does not end the history
    let mut known = None;
    for _ in 0..cx.range(4, 24) {
        if cx.chance(1, 40) {
            // nothing is kept through an upgrade
            r.upgrade("json_api", &[], Some("canister_post_upgrade"))?;
            todos.clear();
            next = 0;
            cx.label("upgraded");
            continue;
        }
        let id = cx.draw(next as u64 + 2) as u32;
        let path = match cx.weighted(&[8, 6, 1, 1, 1, 1, 1, 1]) {
            0 => "/todos".to_string(),
            1 => format!("/todos/{id}"),
            2 => "/".into(),
            3 => "/todos/".into(),
            4 => format!("/todos/{id}/x"),
            5 => format!("/todos/{}", cx.pick(&["abc", "-1", "4294967296", "0x1"])),
            6 => "/Todos".into(),
            _ => gen_request_path(cx),
        };
        let update = cx.chance(1, 2);
        let listed = !update && cx.chance(2, 5);
        let path = if listed { "/todos".to_string() } else { path };
        let method = if listed { "GET" } else { method_of(cx, update, &path) };
        let mut req = Req { method: method.into(), raw_path: if cx.chance(1, 8) { enc_random(cx, &path) } else { enc_plain(&path) }, ..Req::get(&path) };
        if cx.chance(1, 4) {
            req.headers = gen_headers(cx, REQ_HEADERS);
        }
        let title = gen_text(cx, 12);
        let done = cx.bool();
        let (with_title, with_done) = (cx.bool(), cx.bool());
        let valid = !cx.chance(1, 8);
        if update {
            let mut b = json!({});
            if method == "POST" || with_title {
                b["title"] = json!(title);
            }
            if method != "POST" && with_done {
                b["completed"] = json!(done);
            }
            req.body = if valid { b.to_string().into_bytes() } else { cx.pick(&["", "{", "[]", "{\"title\":1}", "null"]).as_bytes().to_vec() };
            let arg = candid::encode_one(req.to_ic()).unwrap();
            let before = r.certified.clone();
            let got = r.update("http_request_update", &arg)?;
            let todo_id = path.strip_prefix("/todos/").and_then(|s| s.parse::<u32>().ok().filter(|_| s.bytes().all(|c| c.is_ascii_digit())));
            let did = match (method, path.as_str(), todo_id) {
                ("POST", "/todos", _) if valid => {
                    let t = Todo { title: title.clone(), completed: false };
                    todos.insert(next, t);
                    next += 1;
                    Some((201, Some(json!({"ok": {"data": {"id": next - 1, "title": title, "completed": false}}}))))
                }
                ("PATCH", _, Some(id)) if valid && todos.contains_key(&id) => {
                    let t = todos.get_mut(&id).unwrap();
                    if with_title {
                        t.title = title;
                    }
                    if with_done {
                        t.completed = done;
                    }
                    Some((200, None))
                }
                ("DELETE", _, Some(id)) => {
                    todos.remove(&id);
                    Some((204, None))
                }
                _ => None,
            };
            cx.note(|| format!("update {method} {path:?} {:?}", String::from_utf8_lossy(&req.body)));
            match (did, got) {
                (Some(_), Reply::Trapped(t)) => return fail("update", format!("{method} {path:?} trapped: {t}")),
                (Some((status, body)), Reply::Data(d)) => {
                    let Ok(resp) = candid::decode_one::<hc::HttpResponse>(&d) else { return fail("reply", "not a response") };
                    ensure!(resp.status_code().as_u16() == status && json_headers(resp.headers()), "update", "{method} {path:?} answered with {resp:?}");
                    if let Some(b) = body {
                        ensure!(serde_json::from_slice::<Value>(resp.body()).ok() == Some(b), "update", "{method} {path:?} answered with {:?}", String::from_utf8_lossy(resp.body()));
                    }
                    changes += 1;
                }
                (None, Reply::Trapped(_)) => ensure!(r.certified == before, "update", "certified data of a message that trapped"),
                (None, Reply::Data(d)) => {
                    // refused otherwise
                    let Ok(resp) = candid::decode_one::<hc::HttpResponse>(&d) else { return fail("reply", "not a response") };
                    ensure!(resp.status_code().as_u16() >= 400 && r.certified == before, "update", "{method} {path:?} answered with {resp:?}");
                }
            }
            continue;
        }
        // a request for "//a" is verified as one for "/a"
        if path.contains("//") {
            continue;
        }
        if cx.chance(1, 12) {
            req.query = gen_query(cx);
        }
        cx.note(|| format!("query {method} {}", req.url()));
        let routed = match method {
            "POST" => path == "/todos",
            "PATCH" | "DELETE" => path.strip_prefix("/todos/").is_some_and(|s| !s.is_empty() && !s.contains('/')),
            _ => false,
        };
        let answer = match r.http(&req) {
            // POST, PATCH and DELETE have only the routes that ask for update calls, the others have none for "/"
            Err(f) if f.kind == "trap" && !routed && (path == "/" || matches!(method, "POST" | "PATCH" | "DELETE")) => {
                known = Some(Fail { sig: Some("no-route".into()), ..f });
                continue;
            }
            a => a?,
        };
        let Some(resp) = answer else {
            ensure!(routed, "upgrade", "{method} {path:?} asks for an update call");
            continue;
        };
        ensure!(!routed, "upgrade", "{method} {path:?} does not ask for an update call");
        let got = verify(&r.env(), &req, &Resp::of(&resp))?;
        if !passed_on(&got, &resp) {
            let sig = (path == "/todos" && req.query.is_some()).then(|| "query".to_string());
            return Err(Fail { kind: "verify".into(), msg: format!("the answer to {method} {} does not verify: {}", req.url(), got.short()), sig });
        }
        let body: Option<Value> = serde_json::from_slice(resp.body()).ok();
        let status = resp.status_code().as_u16();
        ensure!(json_headers(resp.headers()), "headers", "{method} {path:?} answered with {:?}", resp.headers());
        let want = if path != "/todos" { 404 } else if method == "GET" { 200 } else { 405 };
        ensure!(status == want, "status", "{method} {path:?} answered with {status}");
        if want == 200 {
            let mut list = body.as_ref().and_then(|b| b["ok"]["data"].as_array().cloned()).unwrap_or_default();
            list.sort_by_key(|t| t["id"].as_u64());
            let model: Vec<Value> = todos.iter().map(|(id, t)| json!({"id": id, "title": t.title, "completed": t.completed})).collect();
            ensure!(list == model, "list", "list {list:?}, expected {model:?}");
            if changes > 1 {
                cx.nontrivial();
            }
            // a list of the past is no longer certified
            if let Some((q, p)) = &old {
                if p.body != *resp.body() {
                    let mut stale = p.clone();
                    let fresh = Resp::of(&resp);
                    let h = fresh.headers.iter().find(|h| h.0.eq_ignore_ascii_case("ic-certificate")).unwrap().clone();
                    for x in &mut stale.headers {
                        if x.0.eq_ignore_ascii_case("ic-certificate") {
                            *x = h.clone();
                        }
                    }
                    ensure!(!verify(&r.env(), q, &stale)?.accepted(), "stale", "a list of the past is accepted");
                    cx.label("a list of the past");
                }
            }
            old = Some((req.clone(), Resp::of(&resp)));
        } else {
            ensure!(body.as_ref().and_then(|b| b["err"]["code"].as_u64()) == Some(want as u64), "body", "{method} {path:?} answered with {:?}", String::from_utf8_lossy(resp.body()));
        }
    }
    known.map_or(Ok(()), Err)
}

struct Files(BTreeMap<String, Vec<u8>>);

impl Files {
    fn gen(cx: &mut Cx) -> Files {
        let mut f = BTreeMap::new();
        f.insert("index.html".to_string(), cx.vec(40, 12, |cx| cx.draw(256) as u8));
        for _ in 0..cx.range(0, 6) {
            let dir = *cx.pick(&["assets/", "assets/", "assets/", "assets/sub/", "assets/sub/deep/", "", "other/"]);
            let name = *cx.pick(&["a", "b", "index", "x y", "é", "app-1", "a.b"]);
            let ext = *cx.pick(&["css", "js", "ico", "svg", "css", "js", "txt"]);
            let len = if cx.chance(1, 30) { cx.range(1000, 5000) } else { cx.range(0, 20) };
            f.insert(format!("{dir}{name}.{ext}"), cx.blob(len));
        }
        let names: Vec<String> = f.keys().cloned().collect();
        for n in names {
            for e in ["gz", "br"] {
                if cx.chance(1, 3) {
                    let len = cx.range(0, 12);
                    let mut b = format!("{e} ").into_bytes();
                    b.extend(cx.blob(len));
                    f.insert(format!("{n}.{e}"), b);
                }
            }
        }
        Files(f)
    }
    fn encoded(&self) -> Vec<u8> {
        let mut o = vec![];
        for (n, c) in &self.0 {
            for b in [n.as_bytes(), c] {
                o.extend((b.len() as u32).to_be_bytes());
                o.extend(b);
            }
        }
        o
    }
    fn kind(name: &str) -> Option<&'static str> {
        Some(match name.rsplit('.').next().unwrap() {
            "css" => "text/css",
            "js" => "text/javascript",
            "ico" => "image/x-icon",
            "svg" => "image/svg+xml",
            _ => return None,
        })
    }
    fn request(&self, cx: &mut Cx) -> Req {
        let names: Vec<&String> = self.0.keys().collect();
        let path = match cx.weighted(&[10, 3, 2, 2, 1, 2]) {
            0 => format!("/{}", names[cx.draw(names.len() as u64) as usize]),
            1 => "/".into(),
            2 => cx.pick(&["/metrics", "/uncertified", "/old-url", "/metrics/", "/uncertified/x", "/old-url/"]).to_string(),
            3 => gen_request_path(cx),
            4 => format!("/{}/", names[cx.draw(names.len() as u64) as usize]),
            _ => format!("/{}{}", names[cx.draw(names.len() as u64) as usize], cx.pick(&["x", "/a", "."])),
        };
        let mut req = Req { raw_path: if cx.chance(1, 6) { enc_random(cx, &path) } else { enc_plain(&path) }, ..Req::get(&path) };
        match cx.draw(5) {
            0 => {}
            1 => req.headers = gen_headers(cx, &["Accept", "host", "cookie"]),
            _ => {
                let accept = match cx.draw(6) {
                    0 => "gzip",
                    1 => "br",
                    2 => "gzip, br",
                    3 => "br;q=1.0, gzip;q=0.8",
                    4 => "identity",
                    _ => "gzip, deflate, br, zstd",
                };
                req.headers.push((recase(cx, "Accept-Encoding"), accept.into()));
            }
        }
        req
    }
    /// The answer has to be this file in an encoding that is asked for.
    fn holds(&self, file: &str, kind: Option<&str>, req: &Req, resp: &hc::HttpResponse) -> Res {
        let header = |n: &str| resp.headers().iter().find(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.as_str());
        let asked = req.headers.iter().find(|h| h.0.eq_ignore_ascii_case("accept-encoding")).map_or("", |h| &h.1);
        let (name, ok) = match header("content-encoding") {
            None | Some("identity") => (file.to_string(), true),
            Some("br") => (format!("{file}.br"), asked.contains("br")),
            Some("gzip") => (format!("{file}.gz"), asked.contains("gzip")),
            Some(e) => return fail("encoding", format!("encoding {e}")),
        };
        ensure!(ok, "encoding", "{} answered with encoding {:?}, asked for {asked:?}", req.url(), header("content-encoding"));
        ensure!(resp.status_code().as_u16() == 200, "status", "{} answered with {}", req.url(), resp.status_code());
        match self.0.get(&name) {
            Some(b) => ensure!(b == resp.body(), "body", "{} answered with another body than that of {name}", req.url()),
            None => return fail("body", format!("{} answered with {name}, which there is none of", req.url())),
        }
        if kind.is_some() {
            ensure!(header("content-type") == kind, "type", "{} answered with type {:?}", req.url(), header("content-type"));
        }
        Ok(())
    }
}

fn answered(r: &mut Replica, req: &Req) -> Result<(hc::HttpResponse<'static>, Outcome), Fail> {
    let Some(resp) = r.http(req)? else { return fail("upgrade", format!("{} asks for an update call", req.url())) };
    let got = verify(&r.env(), req, &Resp::of(&resp))?;
    Ok((resp, got))
}

/// C36: assets certified by hand.
fn custom_assets(cx: &mut Cx) -> Res {
    let mut f = Files::gen(cx);
    // the site in its public folder only; no encoding of its own accord
    f.0.retain(|n, _| !n.ends_with("metrics"));
    let mut r = Replica::install("custom_assets", &f.encoded(), Some("canister_init"))?;
    cx.note(|| format!("{:?}", f.0.keys().collect::<Vec<_>>()));
    if f.0.len() > 3 {
        cx.nontrivial();
    }
    for _ in 0..cx.range(1, 8) {
        if cx.chance(1, 12) {
            f = Files::gen(cx);
            r.upgrade("custom_assets", &f.encoded(), Some("canister_post_upgrade"))?;
            cx.label("upgraded");
        }
        let mut req = f.request(cx);
        if cx.chance(1, 6) {
            req.query = gen_query(cx);
        }
        let (resp, got) = answered(&mut r, &req)?;
        if req.path == "/uncertified" {
            ensure!(got == Outcome::Skipped, "skip", "/uncertified: {}", got.short());
            continue;
        }
        ensure!(passed_on(&got, &resp), "verify", "the answer to {} {:?} does not verify: {}", req.url(), req.headers, got.short());
        let name = &req.path[1..];
        match Files::kind(name) {
            Some(k) if name.starts_with("assets/") && f.0.contains_key(name) => f.holds(name, Some(k), &req, &resp)?,
            _ => f.holds("index.html", Some("text/html"), &req, &resp)?,
        }
    }
    Ok(())
}

/// C36: assets certified by the asset router.
fn assets(cx: &mut Cx) -> Res {
    let mut f = Files::gen(cx);
    let mut r = Replica::install("assets", &f.encoded(), Some("canister_init"))?;
    cx.note(|| format!("{:?}", f.0.keys().collect::<Vec<_>>()));
    if f.0.len() > 3 {
        cx.nontrivial();
    }
    for _ in 0..cx.range(1, 8) {
        if cx.chance(1, 12) {
            f = Files::gen(cx);
            r.upgrade("assets", &f.encoded(), Some("canister_post_upgrade"))?;
            cx.label("upgraded");
        }
        let req = f.request(cx);
        let (resp, got) = answered(&mut r, &req)?;
        if req.path == "/metrics" {
            ensure!(got == Outcome::Skipped, "skip", "/metrics: {}", got.short());
            let m: Option<Value> = serde_json::from_slice(resp.body()).ok();
            ensure!(m.is_some_and(|m| m["num_assets"].is_u64() && m["num_fallback_assets"].is_u64()), "metrics", "/metrics: {:?}", String::from_utf8_lossy(resp.body()));
            continue;
        }
        ensure!(passed_on(&got, &resp), "verify", "the answer to {} {:?} does not verify: {}", req.url(), req.headers, got.short());
        if req.path == "/old-url" {
            let to = resp.headers().iter().find(|h| h.0.eq_ignore_ascii_case("location")).map(|h| h.1.as_str());
            ensure!(resp.status_code().as_u16() == 308 && to == Some("/") || resp.status_code().as_u16() == 301 && to == Some("/"), "redirect", "/old-url: {} {to:?}", resp.status_code());
            continue;
        }
        let name = &req.path[1..];
        if f.0.contains_key(name) && name != "index.html" {
            // encoded files of a configured asset are assets too, as they are
            let kind = Files::kind(name);
            f.holds(name, kind, &req, &resp)?;
        } else {
            f.holds("index.html", Some("text/html"), &req, &resp)?;
        }
    }
    Ok(())
}

/// C36: answers that are not certified at all, or by a call that is.
fn others(cx: &mut Cx) -> Res {
    let req = {
        let mut q = gen_req(cx);
        q.method = (*cx.pick(METHODS)).into();
        q
    };
    cx.note(|| format!("{} {}", req.method, req.url()));
    cx.nontrivial();
    let mut r = Replica::install("skip", &[], Some("canister_init"))?;
    r.time += cx.draw(1_000_000_000_000) as u128;
    let (resp, got) = answered(&mut r, &req)?;
    ensure!(got == Outcome::Skipped, "skip", "{} {}: {}", req.method, req.url(), got.short());
    ensure!(String::from_utf8_lossy(resp.body()).contains(&r.time.to_string()), "time", "the answer does not say the time");
    // but not as the answer of another canister, or of the past
    let other = VEnv { canister: &[0, 0, 0, 0, 0, 0, 0, 8, 1, 1], now: r.time, ..VEnv::default() };
    ensure!(!verify(&other, &req, &Resp::of(&resp))?.accepted(), "other", "accepted from another canister");
    let late = VEnv { now: r.time + OFFSET + 1, ..VEnv::default() };
    ensure!(!verify(&late, &req, &Resp::of(&resp))?.accepted(), "late", "accepted when it is too old");

    let mut r = Replica::install("upgrade", &[], None)?;
    ensure!(r.http(&req)?.is_none(), "upgrade", "{} {} does not ask for an update call", req.method, req.url());
    match r.update("http_request_update", &candid::encode_one(req.to_ic()).unwrap())? {
        Reply::Trapped(t) => return fail("trap", format!("the update call trapped: {t}")),
        Reply::Data(d) => {
            let Ok(u) = candid::decode_one::<hc::HttpUpdateResponse>(&d) else { return fail("reply", "not a response to an update call") };
            ensure!(u.status_code().as_u16() == 418, "status", "status {}", u.status_code());
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C34",
            rule: "histories of increments, queries and upgrades of the certified counter, compiled to WebAssembly and run on a replica of one canister; non-trivial: a count above one is shown; distinct by choice sequence",
            assumptions: &["the replica certifies what the canister last set as its certified data"],
            subs: vec![sub("counter", 1_500, 30_000, counter)],
        },
        Prop {
            id: "C35",
            rule: "histories of HTTP queries and update calls of every method on paths near those of the JSON example, some malformed, with upgrades in between, against a model of the list; non-trivial: a list is shown after at least two changes; distinct by choice sequence",
            assumptions: &["requests with repeated slashes are not judged", "an update call that cannot be carried out may trap, and then leaves nothing behind"],
            subs: vec![sub("json-api", 3_000, 60_000, json_api)],
        },
        Prop {
            id: "C36",
            rule: "generated sites served by the two asset examples, and requests of any kind to the examples without certification; non-trivial: the site has more than three files; distinct by choice sequence",
            assumptions: &["the directory of assets is read when the canister is installed instead of when it is compiled"],
            subs: vec![sub("custom-assets", 2_500, 40_000, custom_assets), sub("assets", 2_000, 30_000, assets), sub("others", 1_200, 5_000, others)],
        },
    ]
}
