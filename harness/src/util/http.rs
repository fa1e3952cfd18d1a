//! Models of requests, responses and certification expressions, written from the HTTP gateway
//! protocol specification and independent of the code under test.
use super::{leb, sha, H};
use crate::engine::Cx;
use ic_http_certification as hc;
use ic_http_certification::cel as c;

pub type Headers = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Req {
    pub method: String,
    pub origin: &'static str,
    /// percent-decoded
    pub path: String,
    /// as it stands in the URL
    pub raw_path: String,
    pub query: Option<String>,
    pub headers: Headers,
    pub body: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Resp {
    pub status: u16,
    pub headers: Headers,
    pub body: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RespC {
    pub exclude: bool,
    pub headers: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cel {
    Skip,
    ResponseOnly(RespC),
    Full { headers: Vec<String>, params: Vec<String>, resp: RespC },
}

impl Req {
    pub fn get(path: &str) -> Req {
        Req { method: "GET".into(), origin: "", path: path.into(), raw_path: enc_plain(path), query: None, headers: vec![], body: vec![] }
    }
    pub fn url(&self) -> String {
        format!("{}{}{}", self.origin, self.raw_path, self.query.as_ref().map_or(String::new(), |q| format!("?{q}")))
    }
    pub fn to_ic(&self) -> hc::HttpRequest<'static> {
        hc::HttpRequest::builder()
            .with_method(hc::Method::from_bytes(self.method.as_bytes()).unwrap())
            .with_url(self.url())
            .with_headers(self.headers.clone())
            .with_body(self.body.clone())
            .build()
    }
}

impl Resp {
    pub fn to_ic(&self) -> hc::HttpResponse<'static> {
        hc::HttpResponse::builder()
            .with_status_code(hc::StatusCode::from_u16(self.status).unwrap())
            .with_headers(self.headers.clone())
            .with_body(self.body.clone())
            .build()
    }
    pub fn of(r: &hc::HttpResponse) -> Resp {
        Resp { status: r.status_code().as_u16(), headers: r.headers().to_vec(), body: r.body().to_vec() }
    }
}

/// Percent-encodes everything but unreserved characters and '/'.
pub fn enc_plain(path: &str) -> String {
    let mut o = String::new();
    for b in path.bytes() {
        if b.is_ascii_alphanumeric() || b"-._~/".contains(&b) {
            o.push(b as char);
        } else {
            o += &format!("%{b:02X}");
        }
    }
    o
}

/// Percent-encodes, with other characters encoded at random too, but never '/'.
pub fn enc_random(cx: &mut Cx, path: &str) -> String {
    let style = cx.draw(4);
    let mut o = String::new();
    for b in path.bytes() {
        let plain = b.is_ascii_alphanumeric() || b"-._~/".contains(&b);
        let optional = b"!$&'()*+,;=:@".contains(&b);
        if (plain || optional && cx.bool()) && (b == b'/' || style != 0 || !cx.chance(1, 4)) {
            o.push(b as char);
        } else if cx.bool() {
            o += &format!("%{b:02X}");
        } else {
            o += &format!("%{b:02x}");
        }
    }
    o
}

pub const REQ_HEADERS: &[&str] = &["Accept", "Accept-Encoding", "If-Match", "host", "x-custom", "X_Under", "range", "cookie"];
pub const RESP_HEADERS: &[&str] = &["Cache-Control", "ETag", "Content-Type", "Content-Encoding", "Content-Length", "Set-Cookie", "Date", "x.y", "X_Under", "location"];
pub const PARAMS: &[&str] = &["foo", "bar", "q", "x_y", "a.b", "foo[]"];

pub fn recase(cx: &mut Cx, s: &str) -> String {
    match cx.draw(4) {
        0 | 1 => s.into(),
        2 => s.to_ascii_lowercase(),
        _ => s.chars().map(|c| if cx.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

pub fn gen_text(cx: &mut Cx, max: usize) -> String {
    let n = match cx.draw(400) {
        0..=99 => 0,
        100..=199 => 1,
        399 => cx.size(3000),
        _ => cx.range(0, max),
    };
    let wild = cx.chance(1, 4);
    (0..n)
        .map(|_| if wild && cx.chance(1, 3) { *cx.pick(&['é', '"', '\\', ',', ':', '\u{0}', '😀', '\u{212a}', ' ', '=', '\n']) } else { (b' ' + cx.draw(95) as u8) as char })
        .collect()
}

fn gen_name(cx: &mut Cx, pool: &[&str]) -> String {
    if cx.chance(1, 8) {
        let n = cx.range(1, 6);
        (0..n).map(|_| *cx.pick(&['a', 'Z', '0', '-', '_', '.', '!', '~', '+', '*', '^', '#', '$', '%', '&', '\'', '`', '|'])).collect()
    } else {
        let s = *cx.pick(pool);
        recase(cx, s)
    }
}

pub fn gen_headers(cx: &mut Cx, pool: &[&str]) -> Headers {
    let mut v: Headers = cx.vec(7, 2, |cx| (gen_name(cx, pool), gen_text(cx, 12)));
    if cx.chance(1, 80) {
        for _ in 0..cx.size(150) {
            v.push((gen_name(cx, pool), gen_text(cx, 3)));
        }
    }
    if !v.is_empty() && cx.chance(1, 6) {
        let d = cx.pick(&v).clone();
        v.push(d);
    }
    v
}

pub fn gen_names(cx: &mut Cx, pool: &[&str]) -> Vec<String> {
    let mut v = cx.vec(5, 2, |cx| gen_name(cx, pool));
    if cx.chance(1, 80) {
        for _ in 0..cx.size(100) {
            v.push(gen_name(cx, pool));
        }
    }
    v
}

pub fn gen_query(cx: &mut Cx) -> Option<String> {
    if cx.chance(1, 3) {
        return None;
    }
    let part = |cx: &mut Cx| {
        let name = match cx.draw(9) {
            8 => {
                // a parameter's name with something at its end
                let p = *cx.pick(PARAMS);
                let e = *cx.pick(&[";", ";a", "+", "%3D", "%26", "?", "/", ":", ",", "[]", "%00", "."]);
                format!("{p}{e}")
            }
            0 => String::new(),
            1 => cx.pick(&["foo%20", "%66oo", "fo", "fooo", "z"]).to_string(),
            _ => {
                let p = *cx.pick(PARAMS);
                recase(cx, p)
            }
        };
        match cx.draw(6) {
            5 => format!("{name}={}", cx.pick(&["1;2", "a+b", "%26", "?", "%3D1", "a;bar=1", "#", "/"]).trim_end_matches('#')),
            0 => name,
            1 => format!("{name}="),
            2 => format!("{name}=a=b"),
            _ => format!("{name}={}", cx.draw(20)),
        }
    };
    let mut parts: Vec<String> = cx.vec(6, 2, part);
    if cx.chance(1, 80) {
        for _ in 0..cx.size(150) {
            parts.push(part(cx));
        }
    }
    if cx.chance(1, 80) {
        parts.push(format!("{}={}", cx.pick(PARAMS), "v".repeat(cx.size(3000))));
    }
    Some(parts.join("&"))
}

pub fn gen_path_text(cx: &mut Cx) -> String {
    let n = match cx.draw(100) {
        0..=19 => 0,
        20..=59 => 1,
        60..=79 => 2,
        99 => cx.size(40),
        _ => 3,
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push('/');
        s += *cx.pick(&["a", "b", "c", "assets", "index.html", "a b", "é", "%", "A", "app.js", "0", ".", "..", "a;b", "a+b", "?", "#", "a ", " "]);
    }
    if !s.is_empty() && cx.chance(1, 80) {
        s += &"long".repeat(cx.size(300));
    }
    if s.is_empty() || cx.chance(1, 4) {
        s.push('/');
    }
    s
}

pub fn gen_req(cx: &mut Cx) -> Req {
    let path = gen_path_text(cx);
    Req {
        method: cx.pick(&["GET", "GET", "GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "PURGE"]).to_string(),
        origin: *cx.pick(&["", "", "https://canister.com", "http://localhost:8080"]),
        raw_path: enc_random(cx, &path),
        path,
        query: gen_query(cx),
        headers: gen_headers(cx, REQ_HEADERS),
        body: gen_body(cx),
    }
}

pub fn gen_body(cx: &mut Cx) -> Vec<u8> {
    let n = match cx.weighted(&[200, 400, 100, 1]) {
        0 => 0,
        3 => cx.size(1 << 21),
        1 => cx.range(1, 40),
        _ => cx.range(41, 3000),
    };
    cx.blob(n)
}

pub fn gen_resp(cx: &mut Cx) -> Resp {
    Resp {
        status: if cx.chance(1, 3) { cx.range(100, 999) as u16 } else { *cx.pick(&[200u16, 404, 301, 206, 304, 500, 127, 128, 100, 255, 256]) },
        headers: gen_headers(cx, RESP_HEADERS),
        body: gen_body(cx),
    }
}

pub fn gen_resp_c(cx: &mut Cx) -> RespC {
    RespC { exclude: cx.bool(), headers: gen_names(cx, RESP_HEADERS) }
}

pub fn gen_cel(cx: &mut Cx, skip: bool) -> Cel {
    match cx.weighted(&[if skip { 1 } else { 0 }, 3, 4]) {
        0 => Cel::Skip,
        1 => Cel::ResponseOnly(gen_resp_c(cx)),
        _ => Cel::Full { headers: gen_names(cx, REQ_HEADERS), params: gen_names(cx, PARAMS), resp: gen_resp_c(cx) },
    }
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","))
}

impl RespC {
    pub fn to_ic(&self) -> hc::DefaultResponseCertification<'_> {
        let v: Vec<&str> = self.headers.iter().map(|s| s.as_str()).collect();
        if self.exclude {
            hc::DefaultResponseCertification::response_header_exclusions(v)
        } else {
            hc::DefaultResponseCertification::certified_response_headers(v)
        }
    }
    fn print(&self) -> String {
        format!(
            "response_certification:ResponseCertification{{{}:ResponseHeaderList{{headers:{}}}}}",
            if self.exclude { "response_header_exclusions" } else { "certified_response_headers" },
            list(&self.headers)
        )
    }
    /// The certified headers of a response, names in lower case.
    pub fn filter(&self, headers: &Headers) -> Headers {
        headers
            .iter()
            .filter(|(n, _)| {
                let n = n.to_ascii_lowercase();
                let listed = self.headers.iter().any(|h| h.to_ascii_lowercase() == n);
                match n.as_str() {
                    "ic-certificate" => false,
                    "ic-certificateexpression" => true,
                    _ => listed != self.exclude,
                }
            })
            .map(|(n, v)| (n.to_ascii_lowercase(), v.clone()))
            .collect()
    }
    pub fn hash(&self, r: &Resp) -> H {
        let mut m: Vec<(H, H)> = self.filter(&r.headers).iter().map(|(n, v)| (sha(&[n.as_bytes()]), sha(&[v.as_bytes()]))).collect();
        m.push((sha(&[b":ic-cert-status"]), sha(&[&leb(r.status as u128)])));
        sha(&[&map_hash(m), &sha(&[&r.body])])
    }
}

/// The representation-independent hash of a map, from the hashes of its keys and values.
pub fn map_hash(mut m: Vec<(H, H)>) -> H {
    m.sort();
    let flat: Vec<u8> = m.iter().flat_map(|(a, b)| [*a, *b].concat()).collect();
    sha(&[&flat])
}

pub fn request_c<'a>(headers: &'a [String], params: &'a [String]) -> c::DefaultRequestCertification<'a> {
    c::DefaultRequestCertification::new(
        headers.iter().map(|s| s.as_str()).collect::<Vec<_>>(),
        params.iter().map(|s| s.as_str()).collect::<Vec<_>>(),
    )
}

/// The certified part of a query string.
pub fn query_filter(query: &str, params: &[String]) -> String {
    let mut out: Vec<&str> = vec![];
    for f in query.split('&') {
        let name = f.split_once('=').map_or(f, |x| x.0);
        if params.iter().any(|p| p.eq_ignore_ascii_case(name)) {
            out.push(f);
        }
    }
    out.join("&")
}

pub fn req_filter(r: &Req, headers: &[String]) -> Headers {
    r.headers
        .iter()
        .filter(|(n, _)| headers.iter().any(|h| h.eq_ignore_ascii_case(n)))
        .map(|(n, v)| (n.to_ascii_lowercase(), v.clone()))
        .collect()
}

pub fn ref_request_hash(r: &Req, headers: &[String], params: &[String]) -> H {
    let mut m: Vec<(H, H)> = req_filter(r, headers).iter().map(|(n, v)| (sha(&[n.as_bytes()]), sha(&[v.as_bytes()]))).collect();
    m.push((sha(&[b":ic-cert-method"]), sha(&[r.method.as_bytes()])));
    if let Some(q) = &r.query {
        m.push((sha(&[b":ic-cert-query"]), sha(&[query_filter(q, params).as_bytes()])));
    }
    sha(&[&map_hash(m), &sha(&[&r.body])])
}

impl Cel {
    /// The canonical text.
    pub fn print(&self) -> String {
        let inner = match self {
            Cel::Skip => "no_certification:Empty{}".to_string(),
            Cel::ResponseOnly(r) => format!("certification:Certification{{no_request_certification:Empty{{}},{}}}", r.print()),
            Cel::Full { headers, params, resp } => format!(
                "certification:Certification{{request_certification:RequestCertification{{certified_request_headers:{},certified_query_parameters:{}}},{}}}",
                list(headers),
                list(params),
                resp.print()
            ),
        };
        format!("default_certification(ValidationArgs{{{inner}}})")
    }
    pub fn resp(&self) -> Option<&RespC> {
        match self {
            Cel::Skip => None,
            Cel::ResponseOnly(r) | Cel::Full { resp: r, .. } => Some(r),
        }
    }
    pub fn expr_hash(&self) -> H {
        sha(&[self.print().as_bytes()])
    }
    /// The labels below the path of an entry.
    pub fn tail(&self, expr: &str, req: &Req, resp: &Resp) -> Vec<Vec<u8>> {
        let e = sha(&[expr.as_bytes()]).to_vec();
        match self {
            Cel::Skip => vec![e],
            Cel::ResponseOnly(r) => vec![e, vec![], r.hash(resp).to_vec()],
            Cel::Full { headers, params, resp: r } => vec![e, ref_request_hash(req, headers, params).to_vec(), r.hash(resp).to_vec()],
        }
    }
    pub fn certify(&self, req: &Req, resp: &Resp) -> hc::HttpCertificationResult<hc::HttpCertification> {
        match self {
            Cel::Skip => Ok(hc::HttpCertification::skip()),
            Cel::ResponseOnly(r) => hc::HttpCertification::response_only(&c::DefaultResponseOnlyCelExpression { response: r.to_ic() }, &resp.to_ic(), None),
            Cel::Full { headers, params, resp: r } => hc::HttpCertification::full(
                &c::DefaultFullCelExpression { request: request_c(headers, params), response: r.to_ic() },
                &req.to_ic(),
                &resp.to_ic(),
                None,
            ),
        }
    }
    pub fn printed_by_lib(&self) -> String {
        match self {
            Cel::Skip => hc::DefaultCelBuilder::skip_certification().to_string(),
            Cel::ResponseOnly(r) => hc::DefaultCelBuilder::response_only_certification().with_response_certification(r.to_ic()).build().to_string(),
            Cel::Full { headers, params, resp } => {
                let h: Vec<&str> = headers.iter().map(|s| s.as_str()).collect();
                let p: Vec<&str> = params.iter().map(|s| s.as_str()).collect();
                hc::DefaultCelBuilder::full_certification().with_request_headers(h).with_request_query_parameters(p).with_response_certification(resp.to_ic()).build().to_string()
            }
        }
    }
}

/// The segments of a path under "http_expr", without the terminator.
pub fn segments(path: &str) -> Vec<String> {
    let mut v: Vec<String> = path.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    if path.ends_with('/') {
        v.push(String::new());
    }
    v
}

pub fn entry_path(path: &str, wildcard: bool) -> Vec<String> {
    let mut v = segments(path);
    v.push(if wildcard { "<*>" } else { "<$>" }.into());
    v
}
