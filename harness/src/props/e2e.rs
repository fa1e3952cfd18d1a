//! C20, C21, C22: certified sites, and the verifier at the other end.
use crate::{engine::*, ensure, util::bls::key, util::{e2e::*, http::*}, util::*};
use ic_certification::{merge_hash_trees, HashTree};
use ic_http_certification::{utils, HttpCertificationTree};
use std::collections::BTreeSet;

type Segs = Vec<String>;
type Labels = Vec<Vec<u8>>;

/// A site: its entries, in the certification tree of the library and as a set.
struct Site {
    entries: Vec<Entry>,
    tree: HttpCertificationTree,
    /// a path of many segments with entries along it
    deep: Option<String>,
    /// entry path and what is below it
    all: BTreeSet<(Segs, Labels)>,
}

fn gen_site(cx: &mut Cx) -> Result<Site, Fail> {
    let mut entries: Vec<Entry> = cx.vec(8, 4, gen_entry);
    if entries.is_empty() {
        entries.push(gen_entry(cx));
    }
    let mut deep = None;
    if cx.chance(1, 10) {
        let n = if cx.chance(1, 10) { cx.size(60) } else { cx.range(4, 12) };
        let mut base = String::new();
        for _ in 0..n {
            if cx.chance(2, 3) {
                let mut e = gen_entry(cx);
                e.path = format!("{base}/{}", cx.pick(&["a", "b", "c", "z", ""]));
                entries.push(e);
            }
            base.push('/');
            base.push_str(*cx.pick(&["a", "b", "c"]));
        }
        deep = Some(base);
    }
    if cx.chance(1, 60) {
        // many paths, or many entries on few paths
        let few = cx.bool();
        for i in 0..cx.size(150) {
            let mut e = gen_entry(cx);
            e.path = if few { format!("/{}", cx.pick(&["a", "b"])) } else { format!("/many/{i}") };
            entries.push(e);
        }
    }
    // some paths have several entries, some entries appear on several paths
    for _ in 0..cx.range(0, 2) {
        let mut e = cx.pick(&entries).clone();
        match cx.draw(4) {
            0 => {
                e.resp = certifiable(cx, &e.cel);
            }
            1 => e.req.method = "POST".into(),
            2 => e.path = gen_site_path(cx),
            _ => e.wildcard = !e.wildcard,
        }
        entries.push(e);
    }
    let mut tree = HttpCertificationTree::default();
    let mut all = BTreeSet::new();
    // entries that come and go
    let gone: Vec<Entry> = cx.vec(2, 1, gen_entry);
    for e in &gone {
        tree.insert(&e.ic()?);
    }
    for e in &entries {
        tree.insert(&e.ic()?);
    }
    for e in &gone {
        if !entries.iter().any(|x| x.segs() == e.segs() && x.labels() == e.labels()) {
            tree.delete(&e.ic()?);
        }
    }
    for e in &entries {
        let s = e.segs();
        let tail = e.labels()[s.len()..].to_vec();
        all.insert((s, tail));
    }
    Ok(Site { entries, tree, deep, all })
}

impl Site {
    fn has_path(&self, p: &Segs) -> bool {
        self.all.iter().any(|x| x.0 == *p)
    }
    /// The path whose entries have to answer a request. None: there is none, or it is not specified.
    fn best(&self, path: &str) -> Option<Segs> {
        if unspecified_candidate(path).is_some_and(|c| self.has_path(&c)) {
            return candidates(path).into_iter().take(2).find(|c| self.has_path(c));
        }
        candidates(path).into_iter().find(|c| self.has_path(c))
    }
    /// May this path answer the request?
    fn may_answer(&self, path: &str, segs: &Segs) -> bool {
        let c = candidates(path);
        match c.iter().position(|x| x == segs) {
            Some(i) => !c[..i].iter().any(|x| self.has_path(x)),
            None => unspecified_candidate(path).as_ref() == Some(segs) && !c[..2].iter().any(|x| self.has_path(x)),
        }
    }
    /// Is this response to this request certified, under this path?
    fn allows(&self, req: &Req, resp: &Resp, expr_path: &[String]) -> bool {
        let Some((p, segs)) = expr_path.split_first() else { return false };
        if p != "http_expr" || !self.may_answer(&req.path, &segs.to_vec()) {
            return false;
        }
        let Some(expr) = resp.headers.iter().rev().find(|h| h.0.eq_ignore_ascii_case("ic-certificateexpression")) else { return false };
        self.entries.iter().any(|e| e.cel.print() == expr.1 && self.all.contains(&(segs.to_vec(), e.cel.tail(&expr.1, req, resp))))
    }
    fn full_tree(&self, cx: &mut Cx) -> T {
        let paths: Vec<Labels> = self
            .all
            .iter()
            .map(|(s, t)| {
                let mut p = vec![b"http_expr".to_vec()];
                p.extend(s.iter().map(|x| x.as_bytes().to_vec()));
                p.extend(t.clone());
                p
            })
            .collect();
        path_tree(cx, &paths)
    }
    fn show(&self) -> String {
        self.entries.iter().map(|e| format!("{} {:?} {:?} status {}", if e.wildcard { "wildcard" } else { "exact" }, e.path, e.cel, e.resp.status)).collect::<Vec<_>>().join("\n    ")
    }
}

/// A request that the entry answers, with uncertified parts of its own.
fn request_for(cx: &mut Cx, site: &Site, e: &Entry, path: &str) -> Req {
    let _ = site;
    let mut r = match &e.cel {
        Cel::Full { headers, params, .. } => {
            let mut r = e.req.clone();
            // anything not certified may differ
            r.headers.retain(|h| headers.iter().any(|x| x.eq_ignore_ascii_case(&h.0)) || h.1.len() % 2 == 0);
            let more = gen_headers(cx, REQ_HEADERS);
            r.headers.extend(more.into_iter().filter(|h| !headers.iter().any(|x| x.eq_ignore_ascii_case(&h.0))));
            if cx.bool() {
                cx.shuffle(&mut r.headers);
            }
            for h in &mut r.headers {
                h.0 = recase(cx, &h.0);
            }
            if let Some(q) = &mut r.query {
                if cx.bool() && !params.iter().any(|p| p == "other") {
                    q.push_str("&other=1");
                }
            }
            r
        }
        _ => gen_req(cx),
    };
    r.path = path.into();
    r.raw_path = enc_random(cx, path);
    r.origin = *cx.pick(&["", "", "https://canister.com", "http://a.localhost:8080"]);
    r
}

/// The certified response, with uncertified headers of its own.
fn response_for(cx: &mut Cx, e: &Entry) -> Resp {
    let mut r = e.resp.clone();
    match e.cel.resp() {
        None => {
            let expr = e.cel.print();
            r = gen_resp(cx);
            r.headers.retain(|h| !h.0.to_ascii_lowercase().starts_with("ic-cert"));
            r.headers.push(("IC-CertificateExpression".into(), expr));
        }
        Some(c) => {
            let more = gen_headers(cx, RESP_HEADERS);
            let more: Headers = more.into_iter().filter(|h| c.filter(&vec![h.clone()]).is_empty()).collect();
            r.headers.extend(more);
            if cx.bool() {
                cx.shuffle(&mut r.headers);
            }
        }
    }
    r
}

/// A path that may be answered by a path of the site.
fn path_near(cx: &mut Cx, site: &Site) -> String {
    let p = usual_path_near(cx, site);
    if !cx.chance(1, 14) {
        return p;
    }
    // with a name that the tree uses for something else, which no entry has
    let mut p = format!("{}/{}", p.trim_end_matches('/'), cx.pick(&["<$>", "<*>", "<$>", "<*>", "<*><$>", "<>"]));
    match cx.draw(4) {
        0 => p += "/",
        1 => p += *cx.pick(&["/a", "/<*>", "/<$>", "/http_expr"]),
        _ => {}
    }
    p
}

fn usual_path_near(cx: &mut Cx, site: &Site) -> String {
    if let (Some(d), true) = (&site.deep, cx.chance(3, 4)) {
        return if cx.bool() { format!("{d}{}", gen_request_path(cx)) } else if d.is_empty() { "/".into() } else { d.clone() };
    }
    if cx.chance(1, 4) {
        return gen_request_path(cx);
    }
    let e = cx.pick(&site.entries).clone();
    let mut p = if e.path.starts_with('/') { e.path } else { format!("/{}", e.path) };
    if e.wildcard && cx.chance(2, 3) || cx.chance(1, 6) {
        p = format!("{}{}", p.trim_end_matches('/'), gen_request_path(cx));
    } else if cx.chance(1, 6) {
        // a name that starts alike
        p = format!("{}{}", p.trim_end_matches('/'), cx.pick(&["b", ".", "*", "b/", "%"]));
        if !p.starts_with('/') {
            p.insert(0, '/');
        }
    } else if cx.chance(1, 8) {
        if p.ends_with('/') && p.len() > 1 {
            p.pop();
        } else {
            p.push('/');
        }
    }
    p
}

/// A certificate of some kind for the data, all of which the default environment accepts.
fn certificate(cx: &mut Cx, data: &[u8]) -> Cert {
    let time = match cx.draw(4) {
        0 => NOW - OFFSET,
        1 => NOW + OFFSET,
        _ => NOW,
    };
    let state = state_tree(CANISTER, data, time);
    if cx.chance(1, 3) {
        let subnet = vec![9u8; 29];
        let ranges = ranges_cbor(&[(vec![0, 0, 0, 0, 0, 0, 0, 0, 1, 1], vec![0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 1, 1])]);
        let inner = sign_tree(subnet_tree(&subnet, &ranges, &key(2).der(), NOW - 1_000_000_000_000), 0, None);
        sign_tree(state, 2, Some(Deleg { subnet_id: subnet, certificate: inner.cbor() }))
    } else {
        sign_tree(state, 0, None)
    }
}

struct Answer {
    entry: Entry,
    req: Req,
    resp: Resp,
    witness: HashTree,
    expr_path: Vec<String>,
    cert: Cert,
}

/// An honest answer of the site.
fn answer(cx: &mut Cx, site: &Site) -> Result<Option<Answer>, Fail> {
    let path = path_near(cx, site);
    let Some(best) = site.best(&path) else { return Ok(None) };
    let at: Vec<&Entry> = site.entries.iter().filter(|e| e.segs() == best).collect();
    let e = (*cx.pick(&at)).clone();
    let req = request_for(cx, site, &e, &path);
    let mut resp = response_for(cx, &e);
    let witness = match no_panic(|| site.tree.witness(&e.ic()?, &path).or_else(|x| fail("witness", format!("no witness of {:?} for {path:?}: {x}", e.segs())))) {
        Ok(w) => w?,
        Err(p) => return fail("panic", p),
    };
    let cert = certificate(cx, &site.tree.root_hash());
    let expr_path = e.ic_path().to_expr_path();
    let mut ic = resp.to_ic();
    utils::add_v2_certificate_header(&cert.cbor(), &mut ic, &witness, &expr_path);
    resp.headers = ic.headers().to_vec();
    if cx.chance(1, 4) {
        cx.shuffle(&mut resp.headers);
    }
    Ok(Some(Answer { entry: e, req, resp, witness, expr_path, cert }))
}

fn note_answer(cx: &mut Cx, site: &Site, a: &Answer) {
    let s = site.show();
    cx.note(|| format!("site:\n    {s}"));
    cx.note(|| format!("request {:?}", a.req));
    let hs: Vec<_> = a.resp.headers.iter().filter(|h| !h.0.eq_ignore_ascii_case("ic-certificate")).collect();
    cx.note(|| format!("answered by {:?} with status {} headers {hs:?} body {}", a.expr_path, a.resp.status, hexs(&a.resp.body)));
}

/// C20: every honest answer verifies, and yields exactly its certified parts.
pub fn honest(cx: &mut Cx) -> Res {
    let site = gen_site(cx)?;
    for _ in 0..3 {
        let Some(a) = answer(cx, &site)? else {
            cx.label("nothing certified for the request");
            continue;
        };
        note_answer(cx, &site, &a);
        if site.entries.len() >= 3 {
            cx.nontrivial();
        }
        cx.label(match (&a.entry.cel, a.entry.wildcard) {
            (Cel::Skip, false) => "skip, exact",
            (Cel::Skip, true) => "skip, wildcard",
            (Cel::ResponseOnly(_), false) => "response only, exact",
            (Cel::ResponseOnly(_), true) => "response only, wildcard",
            (Cel::Full { .. }, false) => "full, exact",
            (Cel::Full { .. }, true) => "full, wildcard",
        });
        let env = VEnv { min_version: cx.range(0, 2) as u8, ..VEnv::default() };
        let got = verify(&env, &a.req, &a.resp)?;
        let want = expected(&a.entry.cel, &a.resp);
        ensure!(got == want, if got.accepted() { "result" } else { "refused" }, "an honest answer: {}, expected {}", got.short(), want.short());
    }
    Ok(())
}

fn flip(cx: &mut Cx, b: &mut Vec<u8>) {
    if b.is_empty() {
        b.push(1);
        return;
    }
    let i = cx.draw(b.len() as u64) as usize;
    b[i] ^= 1 << cx.draw(8);
}

/// C21: whatever is done to an answer, it is accepted only if it is still a certified one.
pub fn tampered(cx: &mut Cx) -> Res {
    let site = gen_site(cx)?;
    let Some(mut a) = answer(cx, &site)? else { return Ok(()) };
    note_answer(cx, &site, &a);
    let mut env = VEnv::default();
    let mut broken_env = false;
    let other = gen_site(cx)?;
    let foreign = answer(cx, &other)?;
    a.resp.headers.retain(|h| !h.0.eq_ignore_ascii_case("ic-certificate"));
    let mut cert = a.cert.cbor();
    let mut tree = T::of_tree(&a.witness);
    let mut raw_tree: Option<Vec<u8>> = None;
    let root = tree.digest();
    let mut header: Option<String> = None;
    for _ in 0..cx.weighted(&[0, 6, 2, 1]) {
        let what = match cx.draw(24) {
            0 => {
                flip(cx, &mut a.resp.body);
                "body changed"
            }
            1 => {
                a.resp.body.truncate(a.resp.body.len() / 2);
                "body cut"
            }
            2 => {
                a.resp.status = *cx.pick(&[200u16, 201, 404, 500, 328]);
                "status"
            }
            3 if !a.resp.headers.is_empty() => {
                let i = cx.draw(a.resp.headers.len() as u64) as usize;
                a.resp.headers.remove(i);
                "header removed"
            }
            4 => {
                let h = gen_headers(cx, RESP_HEADERS);
                a.resp.headers.extend(h);
                "headers added"
            }
            5 if !a.resp.headers.is_empty() => {
                let i = cx.draw(a.resp.headers.len() as u64) as usize;
                if cx.bool() {
                    a.resp.headers[i].1.push(' ');
                } else {
                    a.resp.headers[i].1 = gen_text(cx, 6);
                }
                "header value"
            }
            6 if !a.resp.headers.is_empty() => {
                let d = cx.pick(&a.resp.headers).clone();
                a.resp.headers.push(d);
                "header repeated"
            }
            7 => {
                let e = cx.pick(&site.entries).cel.print();
                a.resp.headers.push(("ic-CERTIFICATEexpression".into(), e));
                "second expression"
            }
            8 => {
                let e = if cx.bool() { cx.pick(&site.entries).cel.clone() } else { gen_cel(cx, true) };
                for h in &mut a.resp.headers {
                    if h.0.eq_ignore_ascii_case("ic-certificateexpression") {
                        h.1 = e.print();
                    }
                }
                "other expression"
            }
            9 => {
                let e = cx.pick(&site.entries).clone();
                a.resp = e.resp;
                "response of another entry"
            }
            10 => {
                let p = gen_request_path(cx);
                a.req.path = p.clone();
                a.req.raw_path = enc_random(cx, &p);
                "other path"
            }
            11 => {
                a.req.method = cx.pick(&["GET", "POST", "HEAD"]).to_string();
                "method"
            }
            12 => {
                a.req.query = gen_query(cx);
                "query"
            }
            13 => {
                let h = gen_headers(cx, REQ_HEADERS);
                a.req.headers.extend(h);
                "request headers added"
            }
            14 if !a.req.headers.is_empty() => {
                let i = cx.draw(a.req.headers.len() as u64) as usize;
                a.req.headers.remove(i);
                "request header removed"
            }
            15 => {
                flip(cx, &mut a.req.body);
                "request body"
            }
            16 => {
                let e = cx.pick(&site.entries).clone();
                a.expr_path = e.ic_path().to_expr_path();
                "expression path of another entry"
            }
            17 => {
                match cx.draw(5) {
                    0 => {
                        a.expr_path.pop();
                    }
                    1 if !a.expr_path.is_empty() => {
                        let i = cx.draw(a.expr_path.len() as u64) as usize;
                        a.expr_path.remove(i);
                    }
                    2 => {
                        let i = cx.range(0, a.expr_path.len());
                        a.expr_path.insert(i, cx.pick(&["", "a", "<*>", "<$>", "http_expr"]).to_string());
                    }
                    3 if !a.expr_path.is_empty() => {
                        let n = a.expr_path.len();
                        a.expr_path[n - 1] = cx.pick(&["<*>", "<$>", "", "<a>"]).to_string();
                    }
                    _ => a.expr_path.clear(),
                }
                "expression path changed"
            }
            18 => {
                if let Some(f) = &foreign {
                    tree = T::of_tree(&f.witness);
                    a.expr_path = f.expr_path.clone();
                    a.resp.headers = f.resp.headers.iter().filter(|h| !h.0.eq_ignore_ascii_case("ic-certificate")).cloned().collect();
                    a.resp.body = f.resp.body.clone();
                    a.resp.status = f.resp.status;
                    a.req = f.req.clone();
                }
                "everything but the certificate from another site"
            }
            19 => {
                tree = tree.prune(cx, 2);
                "witness pruned"
            }
            20 => {
                let mut b = tree.cbor();
                flip(cx, &mut b);
                raw_tree = Some(b);
                "bit of the witness"
            }
            21 => {
                flip(cx, &mut cert);
                "bit of the certificate"
            }
            22 => {
                broken_env = true;
                match cx.draw(4) {
                    0 => env.canister = &[0, 0, 0, 0, 0, 0, 0, 8, 1, 1],
                    1 => env.now = NOW + 2 * OFFSET + 1,
                    2 => env.now = NOW - 2 * OFFSET - 1,
                    _ => env.root = key(1).der(),
                }
                "other canister, time or root key"
            }
            _ => {
                let c = certificate(cx, &sha(&[b"other"]));
                cert = match cx.draw(3) {
                    0 => Cert { signature: a.cert.signature.clone(), ..c }.cbor(),
                    1 => Cert { tree: c.tree, ..a.cert.clone() }.cbor(),
                    _ => {
                        // signed by nobody in particular
                        sign_tree(state_tree(CANISTER, &root, NOW), 5, None).cbor()
                    }
                };
                if cx.bool() {
                    let t = tree.cbor();
                    header = Some(format!("tree=:{}:, version=2", b64(&t)));
                }
                "other certificate"
            }
        };
        cx.note(|| what.to_string());
    }
    let t = raw_tree.unwrap_or_else(|| tree.cbor());
    a.resp.headers.push(("IC-Certificate".into(), header.unwrap_or_else(|| cert_header(&cert, &t, &a.expr_path))));
    let hs: Vec<_> = a.resp.headers.iter().filter(|h| !h.0.eq_ignore_ascii_case("ic-certificate")).collect();
    cx.note(|| format!("request {:?}, path {:?}, status {} headers {hs:?} body {}", a.req, a.expr_path, a.resp.status, hexs(&a.resp.body)));
    let got = verify(&env, &a.req, &a.resp)?;
    let allowed = !broken_env && site.allows(&a.req, &a.resp, &a.expr_path);
    cx.label(match (allowed, got.accepted()) {
        (true, true) => "still certified",
        (true, false) => "still certified, not shown",
        (false, _) => "not certified",
    });
    if !allowed {
        cx.nontrivial();
        ensure!(!got.accepted(), "accepted", "an answer that is not certified: {}", got.short());
    } else if got.accepted() {
        let expr = &a.resp.headers.iter().rev().find(|h| h.0.eq_ignore_ascii_case("ic-certificateexpression")).unwrap().1;
        let cel = &site.entries.iter().find(|e| e.cel.print() == *expr).unwrap().cel;
        let want = expected(cel, &a.resp);
        ensure!(got == want, "result", "{}, expected {}", got.short(), want.short());
    }
    Ok(())
}

/// The tree with what is at the path changed; None if the path is not shown.
fn edit(t: &T, path: &[Vec<u8>], f: &mut dyn FnMut(&T) -> T) -> Option<T> {
    let Some((first, rest)) = path.split_first() else { return Some(f(t)) };
    match t {
        T::Label(l, t) if l == first => Some(label(l, edit(t, rest, f)?)),
        T::Fork(l, r) => match edit(l, path, f) {
            Some(l) => Some(fork(l, (**r).clone())),
            None => Some(fork((**l).clone(), edit(r, path, f)?)),
        },
        _ => None,
    }
}

/// Prunes a label with all that is below it.
fn hide_label(t: &T, name: &[u8]) -> T {
    match t {
        T::Label(l, _) if l == name => T::Pruned(t.digest()),
        T::Fork(l, r) => fork(hide_label(l, name), hide_label(r, name)),
        t => t.clone(),
    }
}

/// Renames the label at the end of the path.
fn rename(t: &T, path: &[Vec<u8>], new: &[u8]) -> Option<T> {
    match t {
        T::Label(l, x) if *l == path[0] && path.len() == 1 => Some(label(new, (**x).clone())),
        T::Label(l, x) if *l == path[0] => Some(label(l, rename(x, &path[1..], new)?)),
        T::Fork(l, r) => match rename(l, path, new) {
            Some(l) => Some(fork(l, (**r).clone())),
            None => Some(fork((**l).clone(), rename(r, path, new)?)),
        },
        _ => None,
    }
}

/// C21: a tree that is certified, but does not hold the response where and how it has to, certifies nothing.
pub fn misplaced(cx: &mut Cx) -> Res {
    let site = gen_site(cx)?;
    let Some(a) = answer(cx, &site)? else { return Ok(()) };
    note_answer(cx, &site, &a);
    let mut whole = vec![b"http_expr".to_vec()];
    whole.extend(a.entry.labels());
    let at = 1 + a.entry.segs().len();
    let tree = if cx.bool() { T::of_tree(&a.witness) } else { site.full_tree(cx) };
    let last = whole.len() - 1;
    let other = |cx: &mut Cx, h: &[u8]| -> Vec<u8> {
        match cx.draw(6) {
            0 => h[..h.len() / 2].to_vec(),
            1 => [h, &[0]].concat(),
            2 => sha(&[h]).to_vec(),
            3 => vec![],
            4 => sha(&[&a.resp.body]).to_vec(),
            _ => {
                let mut h = h.to_vec();
                if h.is_empty() {
                    h.push(0);
                } else {
                    let i = cx.draw(h.len() as u64) as usize;
                    h[i] ^= 1 << cx.draw(8);
                }
                h
            }
        }
    };
    let mut data = None;
    let mut expr_path = a.expr_path.clone();
    let (what, changed) = match cx.draw(if matches!(a.entry.cel, Cel::Skip) { 4 } else { 11 }) {
        0 => ("nothing", Some(tree.clone())),
        3 => {
            let h = tree.digest().to_vec();
            let n = h.len();
            data = Some(match cx.draw(6) {
                0 => vec![],
                1 => h[..cx.draw(n as u64) as usize].to_vec(),
                2 => [&h[..], &[0]].concat(),
                3 => [&h[..], &h[..]].concat(),
                4 => h[1..].to_vec(),
                _ => {
                    let mut h = h;
                    h[cx.draw(n as u64) as usize] ^= 1 << cx.draw(8);
                    h
                }
            });
            ("other certified data", Some(tree.clone()))
        }
        1 => {
            let new = other(cx, &whole[at]);
            ("another expression", rename(&tree, &whole[..=at], &new))
        }
        2 => {
            let new = *cx.pick(&["<*>", "<$>", "", "<a>", "<*>x", "<$>x", "<*", "*"]);
            let new = if new.as_bytes() == whole[at - 1] { "<" } else { new };
            if new != "<*>" && new != "<$>" && cx.bool() {
                // asked for by that name
                *expr_path.last_mut().unwrap() = new.to_string();
            }
            ("below another path", rename(&tree, &whole[..at], new.as_bytes()))
        }
        4 => {
            let b = [vec![b'x'], vec![0], a.resp.body.clone(), whole[last].clone()];
            let b = cx.pick(&b).clone();
            let b = if b.is_empty() { vec![1] } else { b };
            ("content in the leaf", edit(&tree, &whole, &mut |_| leaf(&b)))
        }
        5 => {
            let k = cx.draw(3);
            ("no leaf", edit(&tree, &whole, &mut |t| match k {
                0 => T::Empty,
                1 => T::Pruned(t.digest()),
                _ => label("", t.clone()),
            }))
        }
        6 => {
            let new = other(cx, &whole[last]);
            ("another response", rename(&tree, &whole, &new))
        }
        7 => {
            let new = if whole[last - 1].is_empty() { whole[last].clone() } else { other(cx, &whole[last - 1]) };
            ("another request", rename(&tree, &whole[..last], &new))
        }
        8 => ("no request", edit(&tree, &whole[..last], &mut |_| leaf(""))),
        9 => {
            let l = whole[last].clone();
            ("response in the place of the request", edit(&tree, &whole[..last - 1], &mut |_| label(&l, leaf(""))))
        }
        _ => {
            let l = whole[last - 1..].to_vec();
            ("no expression", edit(&tree, &whole[..at], &mut |_| label(&l[0], label(&l[1], leaf("")))))
        }
    };
    let Some(tree) = changed else { return fail("harness", format!("{whole:?} is not in {tree:?}")) };
    cx.note(|| what.to_string());
    let same = data.is_none() && (what == "nothing" || tree.lookup(&whole) == L::Found(vec![]));
    let cert = certificate(cx, &data.unwrap_or(tree.digest().to_vec())).cbor();
    let mut r = a.resp.clone();
    r.headers.retain(|h| !h.0.eq_ignore_ascii_case("ic-certificate"));
    r.headers.push(("IC-Certificate".into(), cert_header(&cert, &tree.cbor(), &expr_path)));
    let got = verify(&VEnv::default(), &a.req, &r)?;
    if what == "nothing" {
        ensure!(got == expected(&a.entry.cel, &r), "refused", "an honest answer: {}", got.short());
    } else if !same {
        cx.nontrivial();
        cx.label(what);
        ensure!(!got.accepted(), "accepted", "accepted, with {what}: {}", got.short());
    }
    Ok(())
}

/// C21: what a witness hides says nothing, whatever expression the response carries.
pub fn hidden(cx: &mut Cx) -> Res {
    let site = gen_site(cx)?;
    let Some(mut a) = answer(cx, &site)? else { return Ok(()) };
    note_answer(cx, &site, &a);
    let e = if cx.chance(2, 3) { a.entry.clone() } else { cx.pick(&site.entries).clone() };
    let mut whole = vec![b"http_expr".to_vec()];
    whole.extend(e.labels());
    a.expr_path = e.ic_path().to_expr_path();
    let full = site.full_tree(cx);
    let tree = if cx.bool() { T::of_tree(&a.witness) } else { full.clone() };
    // the labels of the path are shown, what is at or below one of them is not
    let depth = cx.range(1.max(whole.len().saturating_sub(4)), whole.len());
    let label_too = cx.chance(1, 3);
    let hide = |t: &T| match label_too {
        false => edit(t, &whole[..depth], &mut |t| T::Pruned(t.digest())),
        true => edit(t, &whole[..depth - 1], &mut |t| hide_label(t, &whole[depth - 1])),
    };
    let Some(mut tree) = hide(&tree).or_else(|| hide(&full)) else { return Ok(()) };
    if cx.chance(1, 4) {
        tree = tree.prune(cx, 4);
    }
    a.resp.headers.retain(|h| !h.0.eq_ignore_ascii_case("ic-certificate"));
    let cel = match cx.draw(4) {
        0 => e.cel.clone(),
        1 => gen_cel(cx, true),
        2 => Cel::ResponseOnly(RespC { exclude: true, headers: vec![] }),
        _ => Cel::Skip,
    };
    for h in &mut a.resp.headers {
        if h.0.eq_ignore_ascii_case("ic-certificateexpression") {
            h.1 = cel.print();
        }
    }
    if cx.bool() {
        flip(cx, &mut a.resp.body);
    }
    a.resp.headers.push(("IC-Certificate".into(), cert_header(&a.cert.cbor(), &tree.cbor(), &a.expr_path)));
    cx.note(|| format!("request {:?}, path {:?}, {cel:?}, hidden at {depth} of {}", a.req, a.expr_path, whole.len()));
    let got = verify(&VEnv::default(), &a.req, &a.resp)?;
    // hidden up to the response, nothing is left that could be shown
    let shown = site.allows(&a.req, &a.resp, &a.expr_path);
    cx.label(match (&cel, shown) {
        (Cel::Skip, false) => "skip, not certified",
        (_, false) => "not certified",
        _ => "certified, but hidden",
    });
    if !shown {
        cx.nontrivial();
        ensure!(!got.accepted(), "accepted", "an answer that is not certified: {}", got.short());
    }
    Ok(())
}

/// C22: of the certified paths that match a request, only the most specific one answers it.
pub fn specific(cx: &mut Cx) -> Res {
    // a site whose entries all have the same response
    let mut site = gen_site(cx)?;
    let cel = Cel::ResponseOnly(RespC { exclude: true, headers: vec![] });
    let resp = Resp { status: 200, headers: vec![("IC-CertificateExpression".into(), cel.print())], body: b"x".to_vec() };
    let mut tree = HttpCertificationTree::default();
    site.all.clear();
    for _ in 0..cx.range(0, 4) {
        let e = gen_entry(cx);
        site.entries.push(e);
    }
    let path = path_near(cx, &site);
    if cx.bool() {
        // more that matches the request
        let c = candidates(&path);
        for _ in 0..cx.range(1, 3) {
            let mut e = gen_entry(cx);
            let segs = cx.pick(&c).clone();
            let (last, names) = segs.split_last().unwrap();
            e.wildcard = last == "<*>";
            e.path = names.iter().map(|n| format!("/{n}")).collect();
            if e.segs() == segs && !names.iter().any(|n| n == "<*>" || n == "<$>") {
                site.entries.push(e);
            }
        }
    }
    for e in &mut site.entries {
        e.cel = cel.clone();
        e.resp = resp.clone();
        tree.insert(&e.ic()?);
        let s = e.segs();
        site.all.insert((s.clone(), e.labels()[s.len()..].to_vec()));
    }
    site.tree = tree;
    let names: Vec<Segs> = site.all.iter().map(|x| x.0.clone()).collect();
    cx.note(|| format!("site {names:?}"));
    let req = Req { raw_path: enc_random(cx, &path), path: path.clone(), ..Req::get("/") };
    let cands = candidates(&path);
    if names.iter().filter(|n| cands.contains(n)).count() >= 2 {
        cx.nontrivial();
        cx.label("several match");
    }
    cx.note(|| format!("request {path:?}"));
    let full = site.full_tree(cx);
    let lib_full = {
        // everything the library can show
        let mut t: Option<HashTree> = None;
        for e in &site.entries {
            let w = if e.wildcard { no_panic(|| site.tree.witness(&e.ic()?, &path).or_else(|_| Ok(site.tree.witness(&e.ic()?, &e.path).unwrap()))) } else { no_panic(|| Ok(site.tree.witness(&e.ic()?, &path).unwrap())) }.or_else(|p| fail("panic", p))??;
            t = Some(match t {
                None => w,
                Some(t) => no_panic(|| merge_hash_trees(t, w)).or_else(|p| fail("panic", format!("merging witnesses panicked: {p}")))?,
            });
        }
        T::of_tree(&t.unwrap())
    };
    ensure!(lib_full.digest() == site.tree.root_hash(), "witness", "merged witnesses have another digest");
    for (i, segs) in names.iter().enumerate() {
        let may = site.may_answer(&path, segs);
        let must = may && site.best(&path).as_ref() == Some(segs);
        let expr_path = full_path(segs);
        let style = cx.draw(5);
        let (tree, shown) = match style {
            // everything but (part of) a better path
            4 => {
                let better: Vec<&Segs> = cands.iter().take_while(|c| *c != segs).filter(|c| names.contains(c)).collect();
                if better.is_empty() {
                    continue;
                }
                cx.label("a better path is hidden");
                let b: Vec<Vec<u8>> = full_path(&better[cx.draw(better.len() as u64) as usize]).into_iter().map(|s| s.into_bytes()).collect();
                let own = full_path(segs);
                let common = b.iter().zip(&own).take_while(|(a, b)| **a == b.as_bytes()).count();
                let depth = if common + 1 < b.len() { cx.range(common + 1, b.len()) } else { b.len() };
                let whole = cx.bool();
                // below a label, or label and all
                let mut tree = edit(&full, &b[..depth], &mut |t| T::Pruned(t.digest())).unwrap();
                if whole {
                    tree = edit(&full, &b[..depth - 1], &mut |t| hide_label(t, &b[depth - 1])).unwrap();
                }
                (tree, false)
            }
            0 => (full.clone(), true),
            1 => (full.prune(cx, 3), false),
            2 => (lib_full.clone(), true),
            _ => {
                // as the library answers with this entry
                let e = site.entries.iter().find(|e| e.segs() == *segs).unwrap();
                match no_panic(|| site.tree.witness(&e.ic()?, &path).or_else(|_| fail("x", "x"))).or_else(|p| fail("panic", p))? {
                    Ok(w) => (T::of_tree(&w), true),
                    Err(_) => {
                        ensure!(!must, "witness", "no witness of {segs:?} for {path:?}");
                        continue;
                    }
                }
            }
        };
        let cert = simple_cert(CANISTER, &tree.digest(), NOW).cbor();
        let mut r = resp.clone();
        r.headers.push(("IC-Certificate".into(), cert_header(&cert, &tree.cbor(), &expr_path)));
        let got = verify(&VEnv::default(), &req, &r)?;
        cx.note(|| format!("{i}: {segs:?} with {}: {}", ["the full tree", "a pruned tree", "all witnesses", "its witness", "a better path hidden"][style as usize], got.short()));
        if got.accepted() {
            ensure!(may, "less-specific", "{segs:?} answers {path:?}, on a site with {names:?}");
        } else {
            ensure!(!(must && shown), "most-specific", "{segs:?} does not answer {path:?}, on a site with {names:?}: {}", got.short());
        }
    }
    // and nothing answers where nothing is certified
    let cert = simple_cert(CANISTER, &full.digest(), NOW).cbor();
    for segs in cands.iter().filter(|c| !names.contains(c)) {
        let mut r = resp.clone();
        r.headers.push(("IC-Certificate".into(), cert_header(&cert, &full.cbor(), &full_path(segs))));
        if cx.chance(1, 3) {
            let got = verify(&VEnv::default(), &req, &r)?;
            ensure!(!got.accepted(), "nothing", "{segs:?} answers {path:?}, on a site with {names:?}");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            rule: "random sites in a certification tree, with several entries on a path, wildcards, and entries that were removed; for requests the most specific path answers through the library's witness and header, with and without a delegation, and with uncertified headers and parameters of all kinds; non-trivial: the site has at least three entries; distinct by choice sequence",
            assumptions: &["requests start with a slash", "a wildcard for the directory \"/a/\" and a request of \"/a\" are not judged"],
            subs: vec![sub("honest", 4_000, 150_000, honest)],
        },
        Prop {
            id: "C21",
            rule: "honest answers with up to three changes to request, response, expression, path, witness, certificate or environment, accepted only if an independent model still finds them certified (tampered); certified trees that hold the response in the wrong place or form (misplaced); witnesses that hide the path, the expression, the request or the response, under any expression (hidden); non-trivial: they are not certified; distinct by choice sequence",
            assumptions: &["SHA-256 and BLS are sound"],
            subs: vec![sub("tampered", 12_000, 400_000, tampered), sub("misplaced", 8_000, 250_000, misplaced), sub("hidden", 6_000, 200_000, hidden)],
        },
        Prop {
            id: "C22",
            rule: "random sites whose paths all have the same response; each path in turn is offered as the answer to a request, with the full tree, pruned trees, a tree with only a more specific path hidden, all witnesses merged, and the witness of the library; non-trivial: at least two paths match the request; distinct by choice sequence",
            assumptions: &["a wildcard for the directory \"/a/\" and a request of \"/a\" are not judged"],
            subs: vec![sub("specific", 4_000, 150_000, specific)],
        },
    ]
}
