//! Certified responses put together from the specification, without the code under test.
use super::{cbor, cert::*, fork, http::*, label, leaf, T};
use crate::engine::*;
use base64::{engine::general_purpose::STANDARD, Engine};
use ic_response_verification as rv;
use std::collections::BTreeMap;

pub const CANISTER: &[u8] = &[0, 0, 0, 0, 0, 0, 0, 7, 1, 1];

#[derive(Default)]
struct Node(BTreeMap<Vec<u8>, Node>);

/// The tree with an empty leaf at each path; None if there is no path.
pub fn path_tree(cx: &mut Cx, paths: &[Vec<Vec<u8>>]) -> T {
    let mut root = Node::default();
    for p in paths {
        let mut n = &mut root;
        for l in p {
            n = n.0.entry(l.clone()).or_default();
        }
    }
    fn build(cx: &mut Cx, n: &Node) -> T {
        if n.0.is_empty() {
            return leaf("");
        }
        let items: Vec<T> = n.0.iter().map(|(l, n)| label(l, build(cx, n))).collect();
        join(cx, &items)
    }
    fn join(cx: &mut Cx, items: &[T]) -> T {
        if items.len() == 1 {
            return items[0].clone();
        }
        let at = cx.range(1, items.len() - 1);
        let l = join(cx, &items[..at]);
        fork(l, join(cx, &items[at..]))
    }
    build(cx, &root)
}

pub fn expr_path_cbor(p: &[String]) -> Vec<u8> {
    let mut o = vec![];
    cbor::self_describe(&mut o);
    cbor::array(&mut o, p.len());
    for s in p {
        cbor::text(&mut o, s);
    }
    o
}

pub fn b64(b: &[u8]) -> String {
    STANDARD.encode(b)
}

pub fn cert_header(cert: &[u8], tree: &[u8], expr_path: &[String]) -> String {
    format!("certificate=:{}:, tree=:{}:, expr_path=:{}:, version=2", b64(cert), b64(tree), b64(&expr_path_cbor(expr_path)))
}

pub fn full_path(p: &[String]) -> Vec<String> {
    let mut v = vec!["http_expr".to_string()];
    v.extend_from_slice(p);
    v
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Refused(String),
    /// accepted without certification
    Skipped,
    Accepted { version: u16, status: Option<u16>, headers: Headers, body: Vec<u8> },
}

impl Outcome {
    pub fn accepted(&self) -> bool {
        !matches!(self, Outcome::Refused(_))
    }
    pub fn short(&self) -> String {
        match self {
            Outcome::Refused(e) => format!("refused ({})", e.chars().take(160).collect::<String>()),
            Outcome::Skipped => "accepted, not certified".into(),
            Outcome::Accepted { version, status, headers, body } => format!("accepted v{version} status {status:?} headers {headers:?} body of {} bytes", body.len()),
        }
    }
}

pub struct VEnv<'a> {
    pub canister: &'a [u8],
    pub now: u128,
    pub offset: u128,
    pub root: Vec<u8>,
    pub min_version: u8,
}

impl Default for VEnv<'_> {
    fn default() -> Self {
        VEnv { canister: CANISTER, now: NOW, offset: OFFSET, root: super::bls::key(0).der(), min_version: 2 }
    }
}

/// A call of the verifier and what came of it.
pub struct Call {
    pub canister: Vec<u8>,
    pub now: u128,
    pub offset: u128,
    pub root: Vec<u8>,
    pub min_version: u8,
    pub method: String,
    pub url: String,
    pub req_headers: Headers,
    pub req_body: Vec<u8>,
    pub status: u16,
    pub headers: Headers,
    pub body: Vec<u8>,
    /// None if it panicked; else the answer, or the name of the error and its text
    pub result: Option<Result<rv::types::VerificationInfo, (String, String)>>,
}

impl Call {
    fn run(&mut self, req: ic_http_certification::HttpRequest, resp: ic_http_certification::HttpResponse) {
        self.result = no_panic(|| rv::verify_request_response_pair(req, resp, &self.canister, self.now, self.offset, &self.root, self.min_version))
            .ok()
            .map(|r| r.map_err(|e| (format!("{e:?}").split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap().to_string(), e.to_string())));
    }
    /// The same for another url.
    pub fn ask_for(&mut self, url: String) {
        use ic_http_certification::{HttpRequest, HttpResponse, Method, StatusCode};
        let (Ok(method), Ok(status)) = (Method::from_bytes(self.method.as_bytes()), StatusCode::from_u16(self.status)) else { return };
        self.url = url;
        let req = HttpRequest::builder().with_method(method).with_url(&self.url).with_headers(self.req_headers.clone()).with_body(self.req_body.clone()).build();
        let resp = HttpResponse::builder().with_status_code(status).with_headers(self.headers.clone()).with_body(self.body.clone()).build();
        self.run(req, resp);
    }
}

thread_local! {
    /// When set, the calls of the verifier are kept here.
    pub static CALLS: std::cell::RefCell<Option<Vec<Call>>> = const { std::cell::RefCell::new(None) };
}

pub fn verify_ic(env: &VEnv, req: ic_http_certification::HttpRequest, resp: ic_http_certification::HttpResponse) -> Result<Outcome, Fail> {
    if CALLS.with(|c| c.borrow().is_some()) {
        let mut call = Call {
            canister: env.canister.to_vec(),
            now: env.now,
            offset: env.offset,
            root: env.root.clone(),
            min_version: env.min_version,
            method: req.method().to_string(),
            url: req.url().to_string(),
            req_headers: req.headers().to_vec(),
            req_body: req.body().to_vec(),
            status: resp.status_code().as_u16(),
            headers: resp.headers().to_vec(),
            body: resp.body().to_vec(),
            result: None,
        };
        call.run(req.clone(), resp.clone());
        CALLS.with(|c| c.borrow_mut().as_mut().unwrap().push(call));
    }
    let r = no_panic(|| rv::verify_request_response_pair(req, resp, env.canister, env.now, env.offset, &env.root, env.min_version))
        .or_else(|p| fail("panic", format!("verify_request_response_pair panicked: {p}")))?;
    Ok(match r {
        Err(e) => Outcome::Refused(no_panic(|| format!("{e} {e:?}")).or_else(|p| fail("panic", format!("printing the error panicked: {p}")))?),
        Ok(i) => match i.response {
            None => {
                ensure2(i.verification_version == 2, "an answer without a response, version 1")?;
                Outcome::Skipped
            }
            Some(r) => Outcome::Accepted { version: i.verification_version, status: r.status_code, headers: r.headers, body: r.body },
        },
    })
}

fn ensure2(c: bool, m: &str) -> Result<(), Fail> {
    if c {
        Ok(())
    } else {
        fail("result", m)
    }
}

pub fn verify(env: &VEnv, req: &Req, resp: &Resp) -> Result<Outcome, Fail> {
    verify_ic(env, req.to_ic(), resp.to_ic())
}

/// What the verifier has to return for an acceptable response.
pub fn expected(cel: &Cel, resp: &Resp) -> Outcome {
    match cel.resp() {
        None => Outcome::Skipped,
        Some(c) => {
            let mut headers = c.filter(&resp.headers);
            let cert = resp.headers.iter().rev().find(|h| h.0.eq_ignore_ascii_case("ic-certificate")).unwrap().1.clone();
            headers.push(("IC-Certificate".into(), cert));
            Outcome::Accepted { version: 2, status: Some(resp.status), headers, body: resp.body.clone() }
        }
    }
}

/// A certified entry of a site.
#[derive(Clone, Debug)]
pub struct Entry {
    pub path: String,
    pub wildcard: bool,
    pub cel: Cel,
    /// the certified request, but for its path
    pub req: Req,
    /// with its IC-CertificateExpression header
    pub resp: Resp,
}

impl Entry {
    pub fn segs(&self) -> Vec<String> {
        entry_path(&self.path, self.wildcard)
    }
    /// Under "http_expr".
    pub fn labels(&self) -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = self.segs().into_iter().map(|s| s.into_bytes()).collect();
        v.extend(self.cel.tail(&self.cel.print(), &self.req, &self.resp));
        v
    }
    pub fn ic_path(&self) -> ic_http_certification::HttpCertificationPath<'static> {
        use ic_http_certification::HttpCertificationPath as P;
        if self.wildcard {
            P::wildcard(self.path.clone())
        } else {
            P::exact(self.path.clone())
        }
    }
    pub fn ic(&self) -> Result<ic_http_certification::HttpCertificationTreeEntry<'static>, Fail> {
        let c = match no_panic(|| self.cel.certify(&self.req, &self.resp)) {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => return fail("certify", format!("certifying {self:?}: {e}")),
            Err(p) => return fail("panic", format!("certifying {self:?} panicked: {p}")),
        };
        Ok(ic_http_certification::HttpCertificationTreeEntry::new(self.ic_path(), c))
    }
}

pub fn gen_site_path(cx: &mut Cx) -> String {
    let mut n = cx.weighted(&[20, 40, 40, 20, 3, 1, 1, 2]);
    if n == 7 {
        n = cx.size(40);
    }
    let mut s = String::new();
    for _ in 0..n {
        s.push('/');
        s += match cx.weighted(&[60, 8, 3, 1]) {
            0 => *cx.pick(&["a", "b", "c", "a", "b", "c", "ab", "a.", "0", "1"]),
            1 => *cx.pick(&["index.html", "x y", "é", "a%41", ".", "..", ".well-known", "A", "a;b=c", "a+b", "a?b", "a#b", "\\", " ", "a ", " b", "a:b", "*", "~", "%", "%2F", "日本", "a&b", "\u{7f}", "\t", "\0", "a,b", "\""]),
            2 => "http_expr",
            _ => "http_assets",
        };
        if cx.chance(1, 200) {
            s += &"l".repeat(cx.size(400));
        }
    }
    if n > 0 && cx.chance(1, 3) || n == 0 && cx.chance(3, 4) {
        s.push('/');
    }
    s
}

/// A path a request can have: it starts with a slash.
pub fn gen_request_path(cx: &mut Cx) -> String {
    let p = gen_site_path(cx);
    if p.is_empty() {
        "/".into()
    } else {
        p
    }
}

pub fn certifiable(cx: &mut Cx, cel: &Cel) -> Resp {
    let mut resp = gen_resp(cx);
    resp.headers.retain(|h| !h.0.to_ascii_lowercase().starts_with("ic-cert"));
    let at = cx.range(0, resp.headers.len());
    let name = recase(cx, "IC-CertificateExpression");
    resp.headers.insert(at, (name, cel.print()));
    resp
}

pub fn gen_entry(cx: &mut Cx) -> Entry {
    let path = gen_site_path(cx);
    let wildcard = cx.bool();
    let cel = gen_cel(cx, true);
    let req = gen_req(cx);
    let resp = certifiable(cx, &cel);
    Entry { path, wildcard, cel, req, resp }
}

/// What may answer a request for a path, the most specific first: the exact path, then wildcards.
pub fn candidates(path: &str) -> Vec<Vec<String>> {
    let segs = segments(path);
    let slash = segs.last().is_some_and(|s| s.is_empty());
    let names = &segs[..segs.len() - slash as usize];
    let mut out = vec![entry_path(path, false)];
    let mut push = |v: &[String], dir: bool| {
        let mut v = v.to_vec();
        if dir {
            v.push(String::new());
        }
        v.push("<*>".into());
        out.push(v);
    };
    for k in (0..=names.len()).rev() {
        if k < names.len() || slash {
            push(&names[..k], true);
        }
        push(&names[..k], false);
    }
    out
}

/// A wildcard for the directory of the very path requested ("/a/" for a request of "/a"): whether
/// it answers the request is not specified.
pub fn unspecified_candidate(path: &str) -> Option<Vec<String>> {
    let mut segs = segments(path);
    if segs.last().is_some_and(|s| s.is_empty()) {
        return None;
    }
    segs.push(String::new());
    segs.push("<*>".into());
    Some(segs)
}
