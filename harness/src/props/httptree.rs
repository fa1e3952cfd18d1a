//! C17, C18, C19: certifications, their paths, and the certification tree.
use crate::{engine::*, ensure, util::{e2e::*, http::*}, util::*};
use base64::{engine::general_purpose::STANDARD, Engine};
use ic_certification::{labeled_hash, AsHashTree, NestedTree};
use ic_http_certification as hc;
use ic_http_certification::{cel as c, utils, HttpCertificationError as HE, HttpCertificationPath as P, HttpCertificationTree};
use std::collections::BTreeSet;

/// C17: a certification exists exactly for responses that carry its expression, once.
fn certification(cx: &mut Cx) -> Res {
    let cel = gen_cel(cx, false);
    let req = gen_req(cx);
    let mut resp = gen_resp(cx);
    resp.headers.retain(|h| !h.0.to_ascii_lowercase().starts_with("ic-cert"));
    let text = cel.print();
    let copies = if cx.chance(1, 40) { cx.size(300) } else { cx.weighted(&[1, 6, 2, 1]) };
    for _ in 0..copies {
        let name = recase(cx, "IC-CertificateExpression");
        let value = match cx.draw(8) {
            0 => format!("{text} "),
            1 => text.to_lowercase(),
            2 => gen_cel(cx, true).print(),
            _ => text.clone(),
        };
        let at = cx.range(0, resp.headers.len());
        resp.headers.insert(at, (name, value));
    }
    if cx.chance(1, 4) {
        let n = *cx.pick(&["IC-CertificateExpressio", "IC-CertificateExpressions", " IC-CertificateExpression", "IC-Certificate"]);
        resp.headers.push((n.into(), text.clone()));
    }
    cx.note(|| format!("{cel:?} for {resp:?}"));
    let values: Vec<&String> = resp.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("ic-certificateexpression")).map(|h| &h.1).collect();
    let right = values.iter().filter(|v| ***v == text).count();
    let body_hash = if cx.bool() { Some(sha(&[&resp.body])) } else { None };
    let got = match &cel {
        Cel::ResponseOnly(r) => no_panic(|| hc::HttpCertification::response_only(&c::DefaultResponseOnlyCelExpression { response: r.to_ic() }, &resp.to_ic(), body_hash)),
        Cel::Full { headers, params, resp: r } => no_panic(|| {
            hc::HttpCertification::full(&c::DefaultFullCelExpression { request: request_c(headers, params), response: r.to_ic() }, &req.to_ic(), &resp.to_ic(), body_hash)
        }),
        Cel::Skip => unreachable!(),
    }
    .or_else(|p| fail("panic", p))?;
    let ok = values.len() == 1 && right == 1;
    cx.label(if ok { "certified" } else { "refused" });
    cx.nontrivial();
    match got {
        Ok(got) => {
            ensure!(ok, "lenient", "a certification for a response with expressions {values:?}, expected only {text:?}");
            // it stands for exactly the hashes of the specification
            let e = Entry { path: "/x".into(), wildcard: false, cel: cel.clone(), req: req.clone(), resp: resp.clone() };
            let mut tree = HttpCertificationTree::default();
            tree.insert(&hc::HttpCertificationTreeEntry::new(e.ic_path(), got));
            let want = label("http_expr", path_tree(cx, &[e.labels()])).digest();
            ensure!(tree.root_hash() == want, "hashes", "the root hash of a tree with {e:?} is {}, the specification says {}", hexs(&tree.root_hash()), hexs(&want));
            // and is equal to another one exactly if these are
            let other = if cx.bool() { certifiable(cx, &cel) } else { Resp { status: if cx.bool() { resp.status } else { 203 }, ..resp.clone() } };
            let o = Entry { resp: other.clone(), ..e.clone() };
            if let Ok(Ok(oc)) = no_panic(|| cel.certify(&req, &other)) {
                ensure!((oc == got) == (o.labels() == e.labels()), "equality", "certifications of {resp:?} and {other:?} are {}", if oc == got { "equal" } else { "different" });
            }
        }
        Err(e) => {
            ensure!(!ok, "strict", "no certification for {cel:?} and {resp:?}: {e}");
            let kind = match e {
                HE::CertificateExpressionHeaderMissing { .. } => values.is_empty(),
                HE::CertificateExpressionHeaderMismatch { .. } => right < values.len(),
                HE::MultipleCertificateExpressionHeaders { .. } => values.len() > 1,
                _ => false,
            };
            ensure!(kind, "reason", "expressions {values:?}, expected {text:?}: {e}");
        }
    }
    if let Cel::Full { headers, params, resp: r } = &cel {
        // a URL that is none
        let bad = *cx.pick(&["http://[", "/a b", "\u{7f}", "/\n", "", "http://a:b:c/"]);
        let ic = hc::HttpRequest::get(bad).build();
        let good = Resp { headers: vec![("ic-certificateexpression".into(), text.clone())], ..resp.clone() };
        let got = no_panic(|| hc::HttpCertification::full(&c::DefaultFullCelExpression { request: request_c(headers, params), response: r.to_ic() }, &ic, &good.to_ic(), None)).or_else(|p| fail("panic", p))?;
        ensure!(got.is_err(), "url", "a certification for a request of {bad:?}");
    }
    Ok(())
}

/// C18: the expression path of a path names the place of its certification.
fn paths(cx: &mut Cx) -> Res {
    let gen = |cx: &mut Cx| {
        let mut p = gen_site_path(cx);
        if cx.chance(1, 4) {
            p = p.trim_start_matches('/').to_string();
        }
        if cx.chance(1, 6) {
            p = p.replacen('/', "//", 1);
        }
        p
    };
    let (p, w) = (gen(cx), cx.bool());
    let ic = |p: &str, w: bool| if w { P::wildcard(p.to_string()) } else { P::exact(p.to_string()) };
    cx.note(|| format!("{} {p:?}", if w { "wildcard" } else { "exact" }));
    let got = no_panic(|| ic(&p, w).to_expr_path()).or_else(|e| fail("panic", e))?;
    let want = full_path(&entry_path(&p, w));
    ensure!(got == want, "expr-path", "the expression path of {p:?} is {got:?}, expected {want:?}");
    if p.matches('/').count() > 1 {
        cx.nontrivial();
    }
    // the entry is there
    let mut t = HttpCertificationTree::default();
    let entry = hc::HttpCertificationTreeEntry::new(ic(&p, w), hc::HttpCertification::skip());
    t.insert(&entry);
    let mut at: Vec<Vec<u8>> = want.iter().map(|s| s.as_bytes().to_vec()).collect();
    at.push(Cel::Skip.expr_hash().to_vec());
    let model = path_tree(cx, &[at]);
    ensure!(t.root_hash() == model.digest(), "place", "the certification of {p:?} is not at {want:?}");
    // the header says so
    let witness = match no_panic(|| t.witness(&entry, &p)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("witness", format!("no witness for {p:?}: {e}")),
        Err(e) => return fail("panic", e),
    };
    let mut resp = hc::HttpResponse::builder().build();
    let cert = {
        let n = if cx.chance(1, 20) { cx.size(100_000) } else { cx.range(0, 80) };
        cx.blob(n)
    };
    utils::add_v2_certificate_header(&cert, &mut resp, &witness, &got);
    let h = &resp.headers()[0];
    ensure!(resp.headers().len() == 1 && h.0 == "IC-Certificate", "header", "headers {:?}", resp.headers());
    let (mut fields, mut seen) = (vec![], BTreeSet::new());
    for f in h.1.split(", ") {
        let (k, v) = f.split_once('=').unwrap_or(("", ""));
        ensure!(seen.insert(k.to_string()), "header", "field {k} is repeated in {}", h.1);
        fields.push((k, v.trim_matches(':')));
    }
    let field = |k: &str| fields.iter().find(|f| f.0 == k).map_or("", |f| f.1);
    ensure!(field("version") == "2", "header", "version in {}", h.1);
    ensure!(STANDARD.decode(field("certificate")).ok() == Some(cert), "header", "certificate in {}", h.1);
    ensure!(STANDARD.decode(field("expr_path")).ok() == Some(expr_path_cbor(&want)), "header", "expr_path in {}", h.1);
    ensure!(STANDARD.decode(field("tree")).ok() == Some(T::of_tree(&witness).cbor()), "header", "tree in {}", h.1);
    // other paths have other places
    let (q, v) = if cx.chance(1, 3) { (format!("{p}/"), w) } else { (gen(cx), cx.bool()) };
    let same = w == v && segments(&p) == segments(&q);
    ensure!((ic(&q, v).to_expr_path() == got) == same, "distinct", "the expression paths of {p:?} and {q:?}");
    Ok(())
}

/// C18: what is more specific than a wildcard.
fn specific(cx: &mut Cx) -> Res {
    let gen = |cx: &mut Cx| {
        let n = if cx.chance(1, 25) { cx.size(60) } else { cx.range(0, 4) };
        let mut v: Vec<String> = (0..n).map(|_| match cx.weighted(&[60, 30, 10, 10, 10, 1]) {
            0 => "a",
            1 => "b",
            2 => "a b",
            3 => "http_expr",
            5 => "a name of more than sixty-four characters, as no file should have, which is there all the same",
            _ => *cx.pick(&["<*>", "<$>", "a"]),
        }
        .to_string()).collect();
        if cx.chance(1, 3) {
            v.push(String::new());
        }
        v
    };
    let req = gen(cx);
    let mut wild = if cx.chance(2, 3) {
        let n = cx.range(0, req.len());
        let mut v = req[..n].to_vec();
        if cx.chance(1, 3) && v.last().map_or(true, |s| !s.is_empty()) {
            v.push(String::new());
        }
        v
    } else {
        gen(cx)
    };
    if wild.last().is_some_and(|s| s.is_empty()) && wild.len() >= 2 && wild[wild.len() - 2].is_empty() {
        wild.pop();
    }
    cx.note(|| format!("request {req:?} wildcard {wild:?}"));
    let b = |v: &[String]| v.iter().map(|s| s.as_bytes().to_vec()).collect::<Vec<_>>();
    let path = format!("/{}", req.join("/"));
    let path = if req.is_empty() { String::new() } else { path };
    let cands: Vec<Vec<Vec<u8>>> = candidates(&path)[1..].iter().map(|v| b(v)).collect();
    let mut wt = b(&wild);
    wt.push(b"<*>".to_vec());
    let pos = cands.iter().position(|c| *c == wt);
    let odd = unspecified_candidate(&path).map(|c| b(&c)) == Some(wt.clone());
    if !req.is_empty() && pos.is_some() {
        cx.nontrivial();
    }
    let valid = no_panic(|| utils::is_wildcard_path_valid_for_request_path(&b(&wild), &b(&req))).or_else(|e| fail("panic", e))?;
    if !odd {
        ensure!(valid == pos.is_some(), "valid", "wildcard {wild:?} is {} for {req:?}", if valid { "valid" } else { "not valid" });
    }
    if let Some(pos) = pos {
        // with and without prefix and terminators
        let pre = |mut v: Vec<Vec<u8>>, p: bool, t: Option<&str>| {
            if p {
                v.insert(0, b"http_expr".to_vec());
            }
            if let Some(t) = t {
                v.push(t.as_bytes().to_vec());
            }
            v
        };
        // (a path that starts or ends like one that has them is given with them)
        let ends = |v: &[String]| v.last().is_some_and(|s| s == "<*>" || s == "<$>");
        let starts = |v: &[String]| v.first().is_some_and(|s| s == "http_expr");
        let p = cx.bool() || starts(&req) || starts(&wild);
        let t = cx.bool() || ends(&req) || ends(&wild);
        let got = no_panic(|| utils::more_specific_wildcards_for(&pre(b(&req), p, t.then_some("<$>")), &pre(b(&wild), p, t.then_some("<*>")))).or_else(|e| fail("panic", e))?;
        let mut got = got.clone();
        got.sort();
        let mut want = cands[..pos].to_vec();
        want.sort();
        ensure!(got == want, "specific", "more specific than {wild:?} for {req:?}: {got:?}, expected {want:?}");
    }
    Ok(())
}

/// C19: the tree holds exactly the entries inserted and not deleted since.
fn history(cx: &mut Cx) -> Res {
    let mut tree = HttpCertificationTree::default();
    let empty_hash = tree.root_hash();
    ensure!(empty_hash == label("http_expr", T::Empty).digest(), "empty", "the root hash of an empty tree");
    let mut mirror: NestedTree<Vec<u8>, Vec<u8>> = NestedTree::default();
    let mut model: BTreeSet<Vec<Vec<u8>>> = BTreeSet::new();
    let large = cx.chance(1, 60);
    let mut pool: Vec<Entry> = if large { cx.vec(150, 60, gen_entry) } else { cx.vec(7, 4, gen_entry) };
    let extra: Vec<Entry> = pool
        .iter()
        .map(|e| {
            let mut e = e.clone();
            match cx.draw(4) {
                0 => e.wildcard = !e.wildcard,
                1 => e.resp.status = 201,
                2 => e.req.method = "PUT".into(),
                _ => {
                    e.cel = Cel::Skip;
                }
            }
            if let Some(h) = e.resp.headers.iter_mut().find(|h| h.0.eq_ignore_ascii_case("ic-certificateexpression")) {
                h.1 = e.cel.print();
            }
            e
        })
        .collect();
    pool.extend(extra);
    if pool.is_empty() {
        return Ok(());
    }
    let ics = pool.iter().map(|e| e.ic()).collect::<Result<Vec<_>, _>>()?;
    let labels: Vec<_> = pool.iter().map(|e| e.labels()).collect();
    let mut snapshot: Option<(HttpCertificationTree, H)> = None;
    let n = if large { cx.range(30, 400) } else { cx.range(1, 30) };
    let (mut deletes, mut max) = (0, 0);
    for _ in 0..n {
        let i = cx.draw(pool.len() as u64) as usize;
        let before = tree.root_hash();
        match cx.weighted(&[10, 6, 1, 1]) {
            0 => {
                cx.note(|| format!("insert {i}: {} {:?} {:?}", if pool[i].wildcard { "wildcard" } else { "exact" }, pool[i].path, pool[i].cel));
                no_panic(|| tree.insert(&ics[i])).or_else(|p| fail("panic", p))?;
                mirror.insert(&labels[i], vec![]);
                if !model.insert(labels[i].clone()) {
                    ensure!(tree.root_hash() == before, "idempotent", "inserting an entry again changes the root hash");
                }
            }
            1 => {
                cx.note(|| format!("delete {i}"));
                no_panic(|| tree.delete(&ics[i])).or_else(|p| fail("panic", p))?;
                mirror.delete(&labels[i]);
                if model.remove(&labels[i]) {
                    deletes += 1;
                } else {
                    ensure!(tree.root_hash() == before, "absent", "deleting an absent entry changes the root hash");
                }
            }
            2 => {
                cx.note(|| "clear".into());
                tree.clear();
                mirror.clear();
                model.clear();
            }
            _ => {
                cx.note(|| "clone".into());
                snapshot = Some((tree.clone(), tree.root_hash()));
            }
        }
        max = max.max(model.len());
        let root = tree.root_hash();
        ensure!(root == labeled_hash(b"http_expr", &mirror.root_hash()), "root", "the root hash is not that of the labels inserted");
        if model.is_empty() {
            ensure!(root == empty_hash, "empty", "the root hash of a tree emptied by deletions");
        } else {
            ensure!(root != empty_hash, "empty", "the root hash of a tree with entries is that of the empty tree");
        }
        // a witness for any entry, asked for with any request it can answer
        let j = cx.draw(pool.len() as u64) as usize;
        let url = if pool[j].wildcard && cx.chance(3, 4) {
            format!("{}/{}", pool[j].path.trim_end_matches('/'), cx.pick(&["a", "b/c", "", "z"]))
        } else if cx.chance(1, 4) {
            gen_request_path(cx)
        } else {
            pool[j].path.clone()
        };
        let w = match no_panic(|| tree.witness(&ics[j], &url)) {
            Err(p) => return fail("panic", format!("witness of {j} for {url:?} panicked: {p}")),
            Ok(Err(e)) => {
                ensure!(matches!(e, HE::WildcardPathNotValidForRequestPath { .. }), "witness-error", "witness of {j} for {url:?}: {e}");
                let cands = candidates(&url);
                ensure!(!cands.contains(&pool[j].segs()), "witness-error", "no witness of {:?} for {url:?}: {e}", pool[j].path);
                cx.label("no witness");
                continue;
            }
            Ok(Ok(w)) => T::of_tree(&w),
        };
        ensure!(w.digest() == root, "witness", "the digest of the witness of {j} for {url:?} is not the root hash");
        for (k, l) in labels.iter().enumerate() {
            let p = [vec![b"http_expr".to_vec()], l.clone()].concat();
            let inside = model.contains(l);
            match w.lookup(&p) {
                L::Found(v) => ensure!(inside && v.is_empty(), "witness-found", "the witness of {j} shows {k}, which is not in the tree"),
                L::Absent => ensure!(!inside, "witness-absent", "the witness of {j} denies {k}, which is in the tree"),
                L::Unknown => ensure!(k != j && labels[k] != labels[j], "witness-unknown", "the witness of {j} for {url:?} does not tell whether {j} is in the tree"),
                L::Error => return fail("witness-error", format!("looking up {k} in the witness of {j}")),
            }
        }
    }
    if let Some((t, h)) = snapshot {
        ensure!(t.root_hash() == h, "clone", "changes reach a clone taken before");
    }
    if deletes >= 1 && max >= 3 {
        cx.nontrivial();
    }
    // deleting what is left, in any order, leaves nothing
    let mut rest: Vec<usize> = (0..pool.len()).collect();
    cx.shuffle(&mut rest);
    for i in rest {
        tree.delete(&ics[i]);
        mirror.delete(&labels[i]);
        model.remove(&labels[i]);
    }
    ensure!(tree.root_hash() == empty_hash, "empty", "the root hash after deleting every entry");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "random expressions and responses with no, one or several expression headers, equal, similar or different; the certification is compared with the hashes of an independent model through the root hash of a tree; every case is non-trivial; distinct by choice sequence",
            assumptions: &[],
            subs: vec![sub("certification", 300_000, 1_500_000, certification)],
        },
        Prop {
            id: "C18",
            rule: "random paths with and without slashes at their ends, repeated slashes and reserved names, against an independent model of expression paths and of the order of candidates; non-trivial: more than one slash (specific: the wildcard is valid for a non-empty request path); distinct by choice sequence",
            assumptions: &["a wildcard for the directory \"/a/\" and a request of \"/a\" are not judged"],
            subs: vec![sub("paths", 700_000, 4_000_000, paths), sub("specific", 1_000_000, 4_000_000, specific)],
        },
        Prop {
            id: "C19",
            rule: "random histories of insertions, deletions, clears and clones of entries over a small pool of paths, with a witness after each step, against a set of label paths; non-trivial: an entry was deleted and there were at least three; distinct by choice sequence",
            assumptions: &[],
            subs: vec![sub("history", 30_000, 300_000, history)],
        },
    ]
}
