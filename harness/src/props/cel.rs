//! C16: what a certification expression says is what is enforced.
use crate::{engine::*, ensure, util::{e2e::*, http::*}, util::*};

/// The syntax of an expression.
#[derive(Clone, Debug, PartialEq)]
enum A {
    Str(String),
    Arr(Vec<A>),
    Obj(String, Vec<(String, A)>),
    Fun(String, Vec<A>),
}

fn strs(v: &[String]) -> A {
    A::Arr(v.iter().map(|s| A::Str(s.clone())).collect())
}

fn obj(name: &str, f: Vec<(&str, A)>) -> A {
    A::Obj(name.into(), f.into_iter().map(|(k, v)| (k.into(), v)).collect())
}

fn ast(c: &Cel) -> A {
    let resp = |r: &RespC| {
        let l = obj("ResponseHeaderList", vec![("headers", strs(&r.headers))]);
        obj("ResponseCertification", vec![(if r.exclude { "response_header_exclusions" } else { "certified_response_headers" }, l)])
    };
    let empty = || obj("Empty", vec![]);
    let args = match c {
        Cel::Skip => vec![("no_certification", empty())],
        Cel::ResponseOnly(r) => vec![("certification", obj("Certification", vec![("no_request_certification", empty()), ("response_certification", resp(r))]))],
        Cel::Full { headers, params, resp: r } => vec![(
            "certification",
            obj(
                "Certification",
                vec![
                    ("request_certification", obj("RequestCertification", vec![("certified_request_headers", strs(headers)), ("certified_query_parameters", strs(params))])),
                    ("response_certification", resp(r)),
                ],
            ),
        )],
    };
    A::Fun("default_certification".into(), vec![obj("ValidationArgs", args)])
}

fn ws(cx: &mut Cx, style: u64) -> &'static str {
    match style {
        0 => "",
        1 => " ",
        _ => *cx.pick(&["", "", " ", "\n", "\t", "  \r\n ", "    "]),
    }
}

fn print(cx: &mut Cx, a: &A, style: u64, o: &mut String) {
    fn seq<X>(cx: &mut Cx, style: u64, o: &mut String, v: &[X], mut f: impl FnMut(&mut Cx, &X, &mut String)) {
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                *o += ws(cx, style);
                o.push(',');
            }
            *o += ws(cx, style);
            f(cx, x, o);
        }
        *o += ws(cx, style);
    }
    match a {
        A::Str(s) => *o += &format!("\"{s}\""),
        A::Arr(v) => {
            o.push('[');
            seq(cx, style, o, v, |cx, x, o| print(cx, x, style, o));
            o.push(']');
        }
        A::Fun(n, v) => {
            *o += n;
            *o += ws(cx, style);
            o.push('(');
            seq(cx, style, o, v, |cx, x, o| print(cx, x, style, o));
            o.push(')');
        }
        A::Obj(n, v) => {
            *o += n;
            *o += ws(cx, style);
            o.push('{');
            seq(cx, style, o, v, |cx, (k, x), o| {
                *o += k;
                *o += ws(cx, style);
                o.push(':');
                *o += ws(cx, style);
                print(cx, x, style, o);
            });
            o.push('}');
        }
    }
}

fn shuffle_fields(cx: &mut Cx, a: &mut A) {
    match a {
        A::Obj(_, f) => {
            cx.shuffle(f);
            for (_, x) in f {
                shuffle_fields(cx, x);
            }
        }
        A::Fun(_, v) | A::Arr(v) if !matches!(v.first(), Some(A::Str(_))) => {
            for x in v {
                shuffle_fields(cx, x);
            }
        }
        _ => {}
    }
}

/// What the specification makes of an expression; Err if it is malformed.
fn interpret(a: &A) -> Result<Cel, ()> {
    fn object<'a>(a: &'a A, name: &str) -> Result<&'a Vec<(String, A)>, ()> {
        match a {
            A::Obj(n, f) if n == name => Ok(f),
            _ => Err(()),
        }
    }
    fn get<'a>(f: &'a [(String, A)], k: &str) -> Option<&'a A> {
        f.iter().find(|x| x.0 == k).map(|x| &x.1)
    }
    fn list(a: &A) -> Result<Vec<String>, ()> {
        match a {
            A::Arr(v) => v.iter().map(|x| if let A::Str(s) = x { Ok(s.clone()) } else { Err(()) }).collect(),
            _ => Err(()),
        }
    }
    fn repeated(a: &A) -> bool {
        match a {
            A::Str(_) => false,
            A::Arr(v) | A::Fun(_, v) => v.iter().any(repeated),
            A::Obj(_, f) => f.iter().enumerate().any(|(i, x)| repeated(&x.1) || f[..i].iter().any(|y| y.0 == x.0)),
        }
    }
    if repeated(a) {
        return Err(());
    }
    let A::Fun(n, v) = a else { return Err(()) };
    if n != "default_certification" {
        return Err(());
    }
    let args = object(v.first().ok_or(())?, "ValidationArgs")?;
    let cert = match (get(args, "no_certification"), get(args, "certification")) {
        (Some(_), None) => return Ok(Cel::Skip),
        (None, Some(c)) => object(c, "Certification")?,
        _ => return Err(()),
    };
    let rc = object(get(cert, "response_certification").ok_or(())?, "ResponseCertification")?;
    let headers = |k: &str| get(rc, k).map(|l| object(l, "ResponseHeaderList").and_then(|l| list(get(l, "headers").ok_or(())?))).transpose();
    let resp = match (headers("certified_response_headers")?, headers("response_header_exclusions")?) {
        (Some(h), None) => RespC { exclude: false, headers: h },
        (None, Some(h)) => RespC { exclude: true, headers: h },
        _ => return Err(()),
    };
    match (get(cert, "no_request_certification"), get(cert, "request_certification")) {
        (Some(_), None) => Ok(Cel::ResponseOnly(resp)),
        (None, Some(r)) => {
            let r = object(r, "RequestCertification")?;
            Ok(Cel::Full { headers: list(get(r, "certified_request_headers").ok_or(())?)?, params: list(get(r, "certified_query_parameters").ok_or(())?)?, resp })
        }
        _ => Err(()),
    }
}

struct Case {
    req: Req,
    resp: Resp,
    tree: T,
    expr_path: Vec<String>,
}

/// A certified response whose tree has the given labels below its path.
fn pack(cx: &mut Cx, req: &Req, resp: &Resp, expr: &str, tails: &[Vec<Vec<u8>>]) -> Case {
    let wildcard = cx.bool();
    let path = entry_path(&req.path, wildcard);
    let expr_path = full_path(&path);
    let base: Vec<Vec<u8>> = expr_path.iter().map(|s| s.as_bytes().to_vec()).collect();
    let paths: Vec<Vec<Vec<u8>>> = tails.iter().map(|t| [base.clone(), t.clone()].concat()).collect();
    let tree = path_tree(cx, &paths);
    let mut c = Case { req: req.clone(), resp: resp.clone(), tree, expr_path };
    c.resp.headers.retain(|h| !h.0.to_ascii_lowercase().starts_with("ic-cert"));
    let cert = simple_cert(CANISTER, &c.tree.digest(), NOW).cbor();
    let at = cx.range(0, c.resp.headers.len());
    c.resp.headers.insert(at, ("IC-CertificateExpression".into(), expr.into()));
    c.resp.headers.push(("IC-Certificate".into(), cert_header(&cert, &c.tree.cbor(), &c.expr_path)));
    c
}

fn with_expr(resp: &Resp, expr: &str) -> Resp {
    let mut r = resp.clone();
    r.headers.push(("IC-CertificateExpression".into(), expr.into()));
    r
}

fn enforced(cx: &mut Cx) -> Res {
    let cel = gen_cel(cx, true);
    cx.note(|| format!("{cel:?}"));
    let canonical = cel.print();
    ensure!(cel.printed_by_lib() == canonical, "print", "{cel:?} is printed as {}", cel.printed_by_lib());
    let mut a = ast(&cel);
    ensure!(interpret(&a).as_ref() == Ok(&cel), "model", "the model does not understand {a:?}");
    let (mut style, mut expr) = (0, canonical.clone());
    if cx.chance(2, 3) {
        style = 1 + cx.draw(2);
        if cx.bool() {
            shuffle_fields(cx, &mut a);
        }
        expr.clear();
        print(cx, &a, style, &mut expr);
    }
    cx.label(if style == 0 { "canonical" } else { "other spelling" });
    cx.note(|| format!("expression {expr:?}"));
    let req = gen_req(cx);
    let resp = gen_resp(cx);
    let tail = cel.tail(&expr, &req, &with_expr(&Resp { headers: resp.headers.iter().filter(|h| !h.0.to_ascii_lowercase().starts_with("ic-cert")).cloned().collect(), ..resp.clone() }, &expr));
    let c = pack(cx, &req, &resp, &expr, &[tail]);
    cx.note(|| format!("request {:?} response {:?}", c.req, c.resp));
    let env = VEnv::default();
    let got = verify(&env, &c.req, &c.resp)?;
    let want = expected(&cel, &c.resp);
    ensure!(got == want, if got.accepted() { "result" } else { "refused" }, "with expression {expr:?}: {}, expected {}", got.short(), want.short());
    if !matches!(cel, Cel::Skip) {
        cx.nontrivial();
    }
    // each header and each parameter is enforced exactly if the expression says so
    let Some(rc) = cel.resp() else { return Ok(()) };
    for _ in 0..cx.range(1, 3) {
        let mut r = c.resp.clone();
        let mut q = c.req.clone();
        match (cx.draw(4), &cel) {
            (0, _) => {
                let n = *cx.pick(RESP_HEADERS);
                r.headers.push((recase(cx, n), "new".into()));
            }
            (1, _) if rc.headers.len() > 0 => {
                let n = cx.pick(&rc.headers).clone();
                r.headers.push((recase(cx, &n), "new".into()));
            }
            (2, Cel::Full { headers, .. }) => {
                let n = if cx.bool() && !headers.is_empty() { cx.pick(headers).clone() } else { cx.pick(REQ_HEADERS).to_string() };
                q.headers.push((recase(cx, &n), "new".into()));
            }
            (3, Cel::Full { params, .. }) if q.query.is_some() => {
                let n = if cx.bool() && !params.is_empty() { cx.pick(params).clone() } else { cx.pick(PARAMS).to_string() };
                if n.contains(['#', '&', '=', '^', '`', '|']) {
                    continue;
                }
                q.query = Some(format!("{}&{}=new", q.query.unwrap(), n));
            }
            _ => {
                q.method = "PATCH".into();
                q.body.push(1);
            }
        }
        let same_req = match &cel {
            Cel::Full { headers, params, .. } => ref_request_hash(&q, headers, params) == ref_request_hash(&c.req, headers, params),
            _ => true,
        };
        let ok = same_req && rc.hash(&r) == rc.hash(&c.resp);
        let got = verify(&env, &q, &r)?;
        let want = expected(&cel, &r);
        cx.note(|| format!("changed request {q:?} response {:?}: {}", r.headers.last(), got.short()));
        cx.label(if ok { "change outside" } else { "change inside" });
        if ok {
            ensure!(got == want, "outside", "a change outside of what {expr:?} certifies: {}, expected {}", got.short(), want.short());
        } else {
            ensure!(!got.accepted(), "not-enforced", "a change of what {expr:?} certifies: {}", got.short());
        }
    }
    Ok(())
}

fn nodes(a: &mut A, f: &mut dyn FnMut(&mut A) -> bool) -> bool {
    if f(a) {
        return true;
    }
    match a {
        A::Str(_) => false,
        A::Arr(v) | A::Fun(_, v) => v.iter_mut().any(|x| nodes(x, f)),
        A::Obj(_, v) => v.iter_mut().any(|x| nodes(&mut x.1, f)),
    }
}

fn nth(a: &mut A, n: u64, f: &mut dyn FnMut(&mut A)) {
    let mut i = 0;
    nodes(a, &mut |x| {
        if i == n {
            f(x);
            return true;
        }
        i += 1;
        false
    });
}

fn count(a: &mut A) -> u64 {
    let mut n = 0;
    nodes(a, &mut |_| {
        n += 1;
        false
    });
    n
}

/// Expressions that are not well-formed certify nothing, whatever the tree has.
fn malformed(cx: &mut Cx) -> Res {
    let cel = gen_cel(cx, true);
    let mut a = ast(&cel);
    let style = cx.draw(3);
    for _ in 0..*cx.pick(&[1, 1, 1, 2, 2, 3]) {
        let n = count(&mut a);
        let at = cx.draw(n);
        let which = cx.draw(8);
        let other = match cx.draw(5) {
            0 => A::Str("x".into()),
            1 => A::Arr(vec![]),
            2 => obj("Empty", vec![]),
            3 => A::Fun("default_certification".into(), vec![]),
            _ => strs(&["a".into()]),
        };
        let k = cx.draw(8);
        let name = *cx.pick(&["Empty", "ValidationArgs", "Certification", "RequestCertification", "ResponseCertification", "ResponseHeaderList", "default_certification", "x"]);
        let field = *cx.pick(&["no_certification", "certification", "no_request_certification", "request_certification", "certified_response_headers", "response_header_exclusions", "headers", "certified_request_headers"]);
        let rl = obj("ResponseHeaderList", if cx.bool() { vec![("headers", strs(&[]))] } else { vec![] });
        let front = cx.bool();
        nth(&mut a, at, &mut |x| match (which, x) {
            (0, x) => *x = other.clone(),
            (1, A::Obj(_, f)) if !f.is_empty() => {
                let i = (k as usize) % f.len();
                f.remove(i);
            }
            (2, A::Obj(n, f)) => {
                // the field that excludes the one that is there, with or without content; or any other
                let other_of = |f: &str| match f {
                    "certified_response_headers" => Some("response_header_exclusions"),
                    "response_header_exclusions" => Some("certified_response_headers"),
                    "no_request_certification" => Some("request_certification"),
                    "request_certification" => Some("no_request_certification"),
                    "certification" => Some("no_certification"),
                    "no_certification" => Some("certification"),
                    _ => None,
                };
                let field = f.iter().find_map(|x| other_of(&x.0)).filter(|_| n != "x").unwrap_or(field);
                if !f.iter().any(|x| x.0 == field) {
                    let v = if field.contains("response") { rl.clone() } else { other.clone() };
                    f.insert(if front { 0 } else { f.len() }, (field.into(), v));
                }
            }
            (3, A::Obj(n, _) | A::Fun(n, _)) => *n = name.into(),
            (4, A::Obj(_, f)) if !f.is_empty() => {
                let i = (k as usize) % f.len();
                f[i].0 = field.into();
            }
            (5, A::Fun(_, v)) => v.clear(),
            (6, A::Obj(_, f)) if !f.is_empty() => {
                // a field twice
                let i = (k as usize) % f.len();
                let mut v = f[i].clone();
                if let A::Obj(_, g) = &mut v.1 {
                    if k > 4 && !g.is_empty() {
                        g.remove(0);
                    }
                }
                f.insert(if front { 0 } else { f.len() }, v);
            }
            _ => {}
        });
    }
    let meaning = interpret(&a);
    let mut expr = String::new();
    print(cx, &a, style, &mut expr);
    let broken = meaning.is_ok() && cx.chance(1, 2);
    if broken && cx.bool() {
        // an expression, but not the end
        expr += *cx.pick(&[")", "}", "x", ",", " ()", "[]", "\"\"", " default_certification(ValidationArgs{no_certification:Empty{}})", "&& a()", ";", "\\", "é"]);
    } else if broken {
        // not even an expression: cut short
        let n = expr.trim_end().len() - 1;
        let mut n = cx.draw(n as u64 + 1) as usize;
        while !expr.is_char_boundary(n) {
            n -= 1;
        }
        expr.truncate(n);
    }
    cx.note(|| format!("expression {expr:?} {}", if broken { "is cut short or has text after its end".to_string() } else { format!("means {meaning:?}") }));
    let req = gen_req(cx);
    let mut resp = gen_resp(cx);
    resp.headers.retain(|h| !h.0.to_ascii_lowercase().starts_with("ic-cert"));
    // the tree certifies the pair under any reading of the expression
    let mut readings = vec![Cel::Skip, cel.clone()];
    if let Ok(m) = &meaning {
        readings.push(m.clone());
    }
    for exclude in [true, false] {
        for l in [vec![], cel.resp().map_or(vec![], |r| r.headers.clone()), vec!["a".to_string()]] {
            let resp = RespC { exclude, headers: l };
            readings.push(Cel::ResponseOnly(resp.clone()));
            if let Cel::Full { headers, params, .. } = &cel {
                readings.push(Cel::Full { headers: headers.clone(), params: params.clone(), resp: resp.clone() });
            }
            readings.push(Cel::Full { headers: vec![], params: vec![], resp });
        }
    }
    let re = with_expr(&resp, &expr);
    let tails: Vec<_> = readings.iter().map(|c| c.tail(&expr, &req, &re)).filter(|t| t.len() > 1).collect();
    let c = pack(cx, &req, &resp, &expr, &tails);
    let got = verify(&VEnv::default(), &c.req, &c.resp)?;
    match meaning {
        Ok(m) if !broken => {
            cx.label("still well-formed");
            let want = expected(&m, &c.resp);
            ensure!(got == want, "meaning", "with expression {expr:?}: {}, expected {}", got.short(), want.short());
        }
        _ => {
            cx.nontrivial();
            cx.label(if broken { "cut short or too long" } else { "malformed" });
            ensure!(!got.accepted(), "malformed", "a response with the malformed expression {expr:?}: {}", got.short());
        }
    }
    Ok(())
}

/// Expressions of any length and depth get an answer.
fn deep(cx: &mut Cx) -> Res {
    let n = 1usize << cx.range(0, if cx.big { 20 } else { 18 });
    let unit = *cx.pick(&["[", "a(", "a{b:", "(", "{:", "default_certification(", "[[],", "\"a\",", "a{b:\"\"},", " ", "default_certification(ValidationArgs{certification:"]);
    let head = *cx.pick(&["", "default_certification(", "["]);
    let mut expr = format!("{head}{}", unit.repeat(n));
    if cx.bool() {
        let mut close: Vec<char> = expr.chars().filter_map(|c| match c { '(' => Some(')'), '[' => Some(']'), '{' => Some('}'), _ => None }).collect();
        if unit != "[[]," && unit != "a{b:\"\"}," {
            close.reverse();
            expr.extend(close);
        }
    }
    cx.note(|| format!("{head:?} then {n} times {unit:?}"));
    if n > 64 {
        cx.nontrivial();
    }
    let req = Req::get("/");
    let resp = Resp { status: 200, headers: vec![], body: vec![] };
    let c = pack(cx, &req, &resp, &expr, &[vec![sha(&[expr.as_bytes()]).to_vec()]]);
    let got = verify(&VEnv::default(), &c.req, &c.resp)?;
    ensure!(!got.accepted(), "malformed", "an expression of {n} times {unit:?}: {}", got.short());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "random expressions in the canonical and other spellings, each certified for a random request and response by an independent model and then verified; headers, parameters and bodies are changed inside and outside of what the expression certifies; structurally broken expressions whose tree certifies every reading; very long and deep ones; non-trivial: something is certified (malformed: it is; deep: more than 64 levels); distinct by choice sequence",
        assumptions: &["names contain no quotes, backslashes or white space", "fields the specification does not name are not judged"],
        subs: vec![
            sub("enforced", 20_000, 200_000, enforced),
            sub("malformed", 20_000, 200_000, malformed),
            sub("deep", 200, 3_000, deep),
        ],
    }]
}
