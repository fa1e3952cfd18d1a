//! C28 to C31: the asset router.
use crate::{engine::*, ensure, util::{cert::*, e2e::*, http::*}, util::*};
use ic_asset_certification as ac;
use ic_asset_certification::{Asset, AssetConfig, AssetEncoding, AssetFallbackConfig, AssetMap, AssetRedirectKind, AssetRouter, ASSET_CHUNK_SIZE};
use ic_http_certification::{HttpCertificationTree, HttpRequest, StatusCode};
use std::{borrow::Cow, cell::RefCell, collections::{BTreeMap, BTreeSet}, rc::Rc};

/// The documented order of preference.
const ENCODINGS: [(AssetEncoding, &str, &str); 5] = [
    (AssetEncoding::Brotli, "br", ".br"),
    (AssetEncoding::Zstd, "zstd", ".zst"),
    (AssetEncoding::Gzip, "gzip", ".gz"),
    (AssetEncoding::Deflate, "deflate", ".zz"),
    (AssetEncoding::Identity, "identity", ""),
];
type Enc = Option<usize>;

#[derive(Clone, Debug, PartialEq)]
enum Conf {
    File { path: String, ctype: Option<String>, headers: Headers, fallbacks: Vec<(String, Option<u16>)>, aliases: Vec<String>, encodings: Vec<(usize, String)> },
    Pattern { pattern: &'static str, ctype: Option<String>, headers: Headers, encodings: Vec<(usize, String)> },
    Redirect { from: String, to: String, permanent: bool },
}

impl Conf {
    fn to_ic(&self) -> AssetConfig {
        let encs = |v: &Vec<(usize, String)>| {
            v.iter().map(|(e, x)| if x == ENCODINGS[*e].2 { ENCODINGS[*e].0.default_config() } else { ENCODINGS[*e].0.custom_config(x.clone()) }).collect()
        };
        match self {
            Conf::File { path, ctype, headers, fallbacks, aliases, encodings } => AssetConfig::File {
                path: path.clone(),
                content_type: ctype.clone(),
                headers: headers.clone(),
                fallback_for: fallbacks.iter().map(|(s, c)| AssetFallbackConfig { scope: s.clone(), status_code: c.map(|c| StatusCode::from_u16(c).unwrap()) }).collect(),
                aliased_by: aliases.clone(),
                encodings: encs(encodings),
            },
            Conf::Pattern { pattern, ctype, headers, encodings } => {
                AssetConfig::Pattern { pattern: pattern.to_string(), content_type: ctype.clone(), headers: headers.clone(), encodings: encs(encodings) }
            }
            Conf::Redirect { from, to, permanent } => AssetConfig::Redirect {
                from: from.clone(),
                to: to.clone(),
                kind: if *permanent { AssetRedirectKind::Permanent } else { AssetRedirectKind::Temporary },
            },
        }
    }
    fn matches(&self, path: &str) -> bool {
        match self {
            Conf::File { path: p, .. } => p == path,
            Conf::Pattern { pattern, .. } => glob(pattern, path),
            Conf::Redirect { .. } => false,
        }
    }
    fn encodings(&self) -> &[(usize, String)] {
        match self {
            Conf::File { encodings, .. } | Conf::Pattern { encodings, .. } => encodings,
            _ => &[],
        }
    }
}

/// The documented glob syntax.
fn glob(p: &str, s: &str) -> bool {
    fn go(p: &[char], s: &[char]) -> bool {
        match p {
            [] => s.is_empty(),
            ['*', '*', '/', rest @ ..] => (0..=s.len()).any(|i| (i == 0 || s[i - 1] == '/') && go(rest, &s[i..])),
            ['/', '*', '*'] => s.len() > 1 && s[0] == '/',
            ['*', '*'] => true,
            ['*', rest @ ..] => (0..=s.len()).any(|i| go(rest, &s[i..])),
            ['?', rest @ ..] => !s.is_empty() && go(rest, &s[1..]),
            ['[', rest @ ..] => {
                let end = rest.iter().position(|c| *c == ']').unwrap();
                let (set, not) = if rest[0] == '!' { (&rest[1..end], true) } else { (&rest[..end], false) };
                let within = |c: char| if let [a, '-', b] = set { (*a..=*b).contains(&c) } else { set.contains(&c) };
                !s.is_empty() && within(s[0]) != not && go(&rest[end + 1..], &s[1..])
            }
            ['{', rest @ ..] => {
                let end = rest.iter().position(|c| *c == '}').unwrap();
                rest[..end].split(|c| *c == ',').any(|alt| go(&[alt, &rest[end + 1..]].concat(), s))
            }
            [c, rest @ ..] => s.first() == Some(c) && go(rest, &s[1..]),
        }
    }
    go(&p.chars().collect::<Vec<_>>(), &s.chars().collect::<Vec<_>>())
}

const PATTERNS: &[&str] = &["**/*.js", "**/*.{js,css}", "dir/*", "*.gz", "**", "dir/**", "[ax]*", "?.js", "*.js*", "[!a]*", "*", "**/index.html", "dir/**/*.js", "{a,dir/b}.js", "no-match", "A*", "[a-f]*.js", "*.JS", "dir/?.js", "*a*", "*.[tj]*", ".*", "**/.*", "dir*"];
/// Paths of assets; the ones after them are their own urls.
const PATHS: &[&str] = &["index.html", "a.js", "dir/b.js", "dir/index.html", "404.html", "dir/sub/c.css", "/abs.txt", "dir", "x y.txt", "é.css", "q?r#s.txt", "a%41", "z/", "a.js.gz", "A.js", ".well-known/ic-domains", ".", "..", "dir/../x.js", "a;b=c.txt", "a+b.txt", " lead.txt", "trail.txt ", "back\\slash.txt", "*.js", "[a].js", "{a}.js", "100%", "日本.html", "a&b?c=d", "long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/a.html"];
/// Aliases, scopes and the asset that may have them.
const ALIASES: &[(&str, usize)] = &[("/", 0), ("/alias", 1), ("/dir/", 3), ("/404", 4), ("/404/", 4), ("/dir/sub", 5), ("/al ias", 2), ("/index", 0), ("/dir/sub/x", 5), ("/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/alias", 1), ("/dir/..", 3), ("/dir/./x", 2)];
const SCOPES: &[(&str, usize)] = &[("/", 0), ("/dir", 4), ("/dir/", 3), ("/dir/sub", 3), ("/dir/sub/", 2), ("", 4), ("/a.js", 4), ("/alias", 1), ("/x y", 0), ("/new", 5), ("/dir/sub/c.css/deep", 5), ("/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/scope", 1), ("/dir/.", 2), ("/dir/./sub", 1), ("/..", 4)];
const REDIRECTS: &[&str] = &["/old", "/dir/old", "/old/", "/o ld", "/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/old", "/dir/./old"];

fn url_of(path: &str) -> String {
    if path.starts_with('/') {
        path.into()
    } else {
        format!("/{path}")
    }
}

/// What the router answers, but for the range.
#[derive(Clone, Debug, PartialEq)]
struct Answer {
    status: u16,
    headers: Headers,
    body: Rc<Vec<u8>>,
}

#[derive(Clone, Default)]
struct Model {
    fixed: BTreeMap<(String, Enc), Answer>,
    fallback: BTreeMap<(String, Enc), Answer>,
}

/// What certify_assets and delete_assets are about: the answers by their keys.
fn effects(assets: &BTreeMap<String, Rc<Vec<u8>>>, confs: &[Conf]) -> Model {
    let mut m = Model::default();
    for (path, content) in assets {
        let conf = confs.iter().find(|c| c.matches(path));
        let mut put = |content: &Rc<Vec<u8>>, enc: Enc| {
            let mut headers: Headers = vec![];
            if let Some(Conf::File { headers: h, ctype, .. } | Conf::Pattern { headers: h, ctype, .. }) = conf {
                headers.extend(h.iter().cloned());
                headers.extend(ctype.iter().map(|c| ("content-type".to_string(), c.clone())));
            }
            headers.extend(enc.map(|e| ("content-encoding".to_string(), ENCODINGS[e].1.to_string())));
            let a = |status: Option<u16>| Answer { status: status.unwrap_or(200), headers: headers.clone(), body: content.clone() };
            m.fixed.insert((url_of(path), enc), a(None));
            if let Some(Conf::File { fallbacks, aliases, .. }) = conf {
                for (s, c) in fallbacks {
                    m.fallback.insert((s.clone(), enc), a(*c));
                }
                for s in aliases {
                    m.fixed.insert((s.clone(), enc), a(None));
                }
            }
        };
        for (e, postfix) in conf.map_or(&[][..], |c| c.encodings()) {
            if let Some(c) = assets.get(&format!("{path}{postfix}")) {
                put(c, Some(*e));
            }
        }
        put(content, None);
    }
    for c in confs {
        if let Conf::Redirect { from, to, permanent } = c {
            let a = Answer { status: if *permanent { 301 } else { 307 }, headers: vec![("location".into(), to.clone())], body: Rc::new(vec![]) };
            m.fixed.insert((from.clone(), None), a);
        }
    }
    m
}

fn cel(range: bool) -> String {
    Cel::Full { headers: if range { vec!["range".into()] } else { vec![] }, params: vec![], resp: RespC { exclude: true, headers: vec![] } }.print()
}

impl Answer {
    /// The response without its certificate, headers sorted.
    fn response(&self, begin: Option<usize>) -> Resp {
        let (body, status, mut headers) = match begin {
            None => (self.body.to_vec(), self.status, self.headers.clone()),
            Some(b) => {
                let e = (b + ASSET_CHUNK_SIZE).min(self.body.len());
                let mut h = self.headers.clone();
                h.push(("content-range".into(), format!("bytes {b}-{}/{}", e - 1, self.body.len())));
                (self.body[b..e].to_vec(), 206, h)
            }
        };
        headers.push(("content-length".into(), body.len().to_string()));
        headers.push(("ic-certificateexpression".into(), cel(begin.is_some())));
        sorted(Resp { status, headers, body })
    }
    fn chunks(&self) -> Vec<usize> {
        if self.body.len() > ASSET_CHUNK_SIZE {
            (0..self.body.len()).step_by(ASSET_CHUNK_SIZE).collect()
        } else {
            vec![]
        }
    }
}

fn sorted(mut r: Resp) -> Resp {
    for h in &mut r.headers {
        h.0 = h.0.to_ascii_lowercase();
    }
    r.headers.sort();
    r
}

impl Model {
    /// The most preferred answer for a key.
    fn choose<'a>(map: &'a BTreeMap<(String, Enc), Answer>, key: &str, accept: &[usize]) -> Option<&'a Answer> {
        accept.iter().find_map(|e| map.get(&(key.to_string(), Some(*e)))).or_else(|| map.get(&(key.to_string(), None)))
    }
    /// Whether a key is there in encodings only, and none of them is accepted; what is served then is not specified.
    fn open(&self, path: &str, accept: &[usize]) -> bool {
        let hidden = |map: &BTreeMap<(String, Enc), Answer>, key: &str| Self::choose(map, key, accept).is_none() && (0..5).any(|e| map.contains_key(&(key.to_string(), Some(e))));
        let scopes = scopes(path);
        let n = scopes.iter().position(|s| Self::choose(&self.fallback, s, accept).is_some()).unwrap_or(scopes.len());
        hidden(&self.fixed, path) || Self::choose(&self.fixed, path, accept).is_none() && scopes[..n].iter().any(|s| hidden(&self.fallback, s))
    }
    /// The answers for a path, the ones for scopes with the scope.
    fn serve(&self, path: &str, accept: &[usize]) -> Option<(&Answer, Option<String>)> {
        if let Some(a) = Self::choose(&self.fixed, path, accept) {
            return Some((a, None));
        }
        for scope in scopes(path) {
            if let Some(a) = Self::choose(&self.fallback, &scope, accept) {
                return Some((a, Some(scope)));
            }
        }
        None
    }
}

/// The scopes a path is in, the most specific first.
fn scopes(path: &str) -> Vec<String> {
    let mut out = vec![];
    let slash = path.ends_with('/');
    let names: Vec<&str> = path.split('/').filter(|s| !s.is_empty()).collect();
    for k in (0..=names.len()).rev() {
        let s: String = names[..k].iter().map(|n| format!("/{n}")).collect();
        if k < names.len() || slash {
            out.push(format!("{s}/"));
        }
        out.push(s);
    }
    out
}

struct World {
    router: AssetRouter<'static>,
    tree: Rc<RefCell<HttpCertificationTree>>,
    model: Model,
    assets: BTreeMap<String, Rc<Vec<u8>>>,
    confs: Vec<Conf>,
    /// Answers that are not served any more, with their place.
    gone: Vec<(String, bool, Answer)>,
}

fn gen_content(cx: &mut Cx) -> Rc<Vec<u8>> {
    let n = if cx.chance(1, 60) { cx.size(200_000) } else { cx.range(0, 24) };
    Rc::new(cx.blob(n))
}

fn gen_encs(cx: &mut Cx) -> Vec<(usize, String)> {
    let mut v: Vec<(usize, String)> = vec![];
    for e in 0..5 {
        if cx.chance(2, 5) {
            let x = if e != 4 && cx.chance(1, 6) { format!("-{}", ENCODINGS[e].1) } else { ENCODINGS[e].2.to_string() };
            v.push((e, x));
        }
    }
    cx.shuffle(&mut v);
    v
}

fn gen_conf_headers(cx: &mut Cx) -> (Option<String>, Headers) {
    let c = if cx.bool() { Some(cx.pick(&["text/html", "text/javascript", ""]).to_string()) } else { None };
    let (max, avg) = if cx.chance(1, 60) { (150, 50) } else { (4, 1) };
    (c, cx.vec(max, avg, |cx| (cx.pick(&["cache-control", "X-Frame-Options", "set-cookie", "x-a"]).to_string(), cx.pick(&["", "a", "no-store", "é"]).to_string())))
}

/// Assets with encoded variants and a configuration for them.
fn gen_upload(cx: &mut Cx) -> (BTreeMap<String, Rc<Vec<u8>>>, Vec<Conf>) {
    let mut assets = BTreeMap::new();
    let mut confs = vec![];
    let n = cx.range(1, 4);
    for _ in 0..n {
        let i = if cx.chance(1, 5) { cx.range(0, PATHS.len() - 1) } else { cx.range(0, 6) };
        let path = PATHS[i];
        let c = gen_content(cx);
        assets.insert(path.to_string(), c);
        let encodings = gen_encs(cx);
        let (ctype, headers) = gen_conf_headers(cx);
        if cx.chance(2, 3) {
            let fallbacks = SCOPES.iter().filter(|s| s.1 == i).collect::<Vec<_>>();
            let fallbacks = fallbacks.iter().filter_map(|s| if cx.chance(2, 3) { Some((s.0.to_string(), *cx.pick(&[None, Some(200), Some(404), Some(206), Some(503), Some(204), Some(304), Some(301), Some(100), Some(599)]))) } else { None }).collect();
            let aliases = ALIASES.iter().filter(|s| s.1 == i).collect::<Vec<_>>();
            let aliases = aliases.iter().filter_map(|s| if cx.chance(1, 2) { Some(s.0.to_string()) } else { None }).collect();
            for (_, x) in &encodings {
                if cx.chance(3, 4) {
                    let c = gen_content(cx);
                    assets.entry(format!("{path}{x}")).or_insert(c);
                }
            }
            confs.push(Conf::File { path: path.to_string(), ctype, headers, fallbacks, aliases, encodings });
        } else {
            let encodings = gen_encs(cx);
            for (_, x) in &encodings {
                if cx.bool() {
                    let c = gen_content(cx);
                    assets.entry(format!("{path}{x}")).or_insert(c);
                }
            }
            confs.push(Conf::Pattern { pattern: *cx.pick(PATTERNS), ctype, headers, encodings });
        }
    }
    // rarely, many more files, aliases, scopes and redirects, some of them deep down
    if cx.chance(1, 80) {
        let n = cx.size(150);
        // in the name of every alias and scope, since an asset of the same number may be elsewhere next time
        let deep = cx.size(30);
        let mut some = vec![];
        for i in 0..n {
            let path = match i % 4 {
                0 => format!("bulk/{i}.js"),
                1 => format!("bulk{i}.css"),
                2 => format!("{}{i}.js", "deep/".repeat(deep.min(i))),
                _ => format!("{}{i}", "long".repeat(deep.min(i) + 1)),
            };
            let c = gen_content(cx);
            assets.insert(path.clone(), c);
            let encodings = if cx.chance(1, 4) { gen_encs(cx) } else { vec![] };
            for (_, x) in &encodings {
                let c = gen_content(cx);
                assets.entry(format!("{path}{x}")).or_insert(c);
            }
            some.push((path, encodings));
        }
        for (i, (path, encodings)) in some.into_iter().enumerate() {
            if encodings.is_empty() && cx.chance(3, 4) {
                continue;
            }
            let (ctype, headers) = gen_conf_headers(cx);
            let aliases = (0..if cx.chance(1, 5) { cx.size(80) } else { 1 }).map(|k| format!("/alias{i}-{deep}/{k}")).collect();
            let fallbacks = (0..if cx.chance(1, 5) { cx.size(80) } else { 1 }).map(|k| (format!("/scope{i}-{deep}/{}{k}", "d/".repeat(k % (deep + 1))), None)).collect();
            confs.push(Conf::File { path, ctype, headers, fallbacks, aliases, encodings });
        }
        for i in 0..cx.size(100) {
            confs.push(Conf::Redirect { from: format!("/gone/{i}"), to: format!("/now/{i}"), permanent: cx.bool() });
        }
    }
    for _ in 0..cx.weighted(&[3, 2, 1]) {
        let (from, to) = (cx.pick(REDIRECTS).to_string(), cx.pick(&["/new", "https://x.y/z", "", "/é"]).to_string());
        if !confs.iter().any(|c| matches!(c, Conf::Redirect { from: f, .. } if *f == from)) {
            confs.push(Conf::Redirect { from, to, permanent: cx.bool() });
        }
    }
    cx.shuffle(&mut confs);
    (assets, confs)
}

fn to_assets(m: &BTreeMap<String, Rc<Vec<u8>>>) -> Vec<Asset<'static, 'static>> {
    m.iter().map(|(p, c)| Asset::new(Cow::<str>::Owned(p.clone()), Cow::<[u8]>::Owned(c.to_vec()))).collect()
}

impl World {
    fn new() -> World {
        let tree = Rc::new(RefCell::new(HttpCertificationTree::default()));
        World { router: AssetRouter::with_tree(tree.clone()), tree, model: Model::default(), assets: BTreeMap::new(), confs: vec![], gone: vec![] }
    }
    /// Or one whose router has a tree of its own.
    fn any(cx: &mut Cx) -> World {
        let mut w = World::new();
        match cx.weighted(&[4, 1, 1]) {
            0 => {}
            1 => w.router = AssetRouter::new(),
            _ => w.router = AssetRouter::default(),
        }
        w
    }
    fn call(&mut self, what: &str, f: impl FnOnce(&mut AssetRouter<'static>) -> ac::AssetCertificationResult<()>) -> Res {
        let r = &mut self.router;
        match no_panic(|| f(r)) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => fail("refused", format!("{what}: {e}")),
            Err(p) => fail("panic", format!("{what}: {p}")),
        }
    }
    fn retire(&mut self, m: &Model) {
        for (map, old, wild) in [(&m.fixed, &self.model.fixed, false), (&m.fallback, &self.model.fallback, true)] {
            for k in map.keys() {
                if let Some(a) = old.get(k) {
                    self.gone.push((k.0.clone(), wild, a.clone()));
                }
            }
        }
        let n = self.gone.len().saturating_sub(12);
        self.gone.drain(..n);
    }
    fn certify(&mut self, assets: BTreeMap<String, Rc<Vec<u8>>>, confs: Vec<Conf>) -> Res {
        let (a, c) = (to_assets(&assets), confs.iter().map(|c| c.to_ic()).collect::<Vec<_>>());
        self.call("certify_assets", |r| r.certify_assets(a, c))?;
        let m = effects(&assets, &confs);
        self.retire(&m);
        self.model.fixed.extend(m.fixed);
        self.model.fallback.extend(m.fallback);
        self.assets.extend(assets);
        self.confs.splice(0..0, confs);
        Ok(())
    }
    fn delete(&mut self, assets: BTreeMap<String, Rc<Vec<u8>>>, confs: Vec<Conf>) -> Res {
        let (a, c) = (to_assets(&assets), confs.iter().map(|c| c.to_ic()).collect::<Vec<_>>());
        self.call("delete_assets", |r| r.delete_assets(a, c))?;
        let m = effects(&assets, &confs);
        self.retire(&m);
        self.model.fixed.retain(|k, _| !m.fixed.contains_key(k));
        self.model.fallback.retain(|k, _| !m.fallback.contains_key(k));
        Ok(())
    }
    fn clear(&mut self) -> Res {
        self.call("delete_all_assets", |r| {
            r.delete_all_assets();
            Ok(())
        })?;
        let m = std::mem::take(&mut self.model);
        for (map, wild) in [(m.fixed, false), (m.fallback, true)] {
            self.gone.extend(map.into_iter().map(|(k, a)| (k.0, wild, a)));
        }
        let n = self.gone.len().saturating_sub(12);
        self.gone.drain(..n);
        Ok(())
    }
    /// A configuration with a pattern that is none is refused, and nothing changes.
    fn refused(&mut self, cx: &mut Cx) -> Res {
        let (a, c) = gen_upload(cx);
        let (a, mut c) = (to_assets(&a), c.iter().map(|c| c.to_ic()).collect::<Vec<_>>());
        let pattern = cx.pick(&["[", "{a", "[b-a]*", "*[", "**/*.{js,css"]).to_string();
        c.insert(cx.range(0, c.len()), AssetConfig::Pattern { pattern: pattern.clone(), content_type: None, headers: vec![], encodings: vec![] });
        let before = self.router.root_hash();
        let (r, before, delete) = (&mut self.router, before, cx.chance(1, 3));
        match no_panic(|| if delete { r.delete_assets(a, c) } else { r.certify_assets(a, c) }) {
            Err(p) => return fail("panic", format!("the pattern {pattern:?}: {p}")),
            Ok(r) => ensure!(r.is_err(), "pattern", "the pattern {pattern:?} is accepted (delete_assets: {delete})"),
        }
        ensure!(self.router.root_hash() == before, "pattern", "a refused configuration changes the root hash (delete_assets: {delete})");
        self.compare()
    }
    fn step(&mut self, cx: &mut Cx) -> Res {
        match cx.weighted(&[6, 2, 2, 1]) {
            0 => {
                let (a, c) = gen_upload(cx);
                cx.note(|| format!("certify {} with {c:?}", names(&a)));
                self.certify(a, c)
            }
            // again, some of it changed
            1 => {
                let mut a = self.some(cx);
                let keys: Vec<String> = a.keys().cloned().collect();
                for k in keys {
                    if cx.bool() {
                        let c = gen_content(cx);
                        a.insert(k, c);
                    }
                }
                let c = self.confs.clone();
                cx.note(|| format!("certify again {} with {c:?}", names(&a)));
                self.certify(a, c)
            }
            2 => {
                let a = if cx.chance(1, 3) { self.assets.clone() } else { self.some(cx) };
                let mut c = self.confs.clone();
                if cx.chance(1, 4) {
                    // the configuration excludes something
                    for x in &mut c {
                        if let Conf::File { encodings, fallbacks, aliases, .. } = x {
                            encodings.retain(|_| cx.bool());
                            fallbacks.retain(|_| cx.bool());
                            aliases.retain(|_| cx.bool());
                        }
                    }
                }
                c.retain(|x| !matches!(x, Conf::Redirect { .. }) || cx.bool());
                cx.note(|| format!("delete {} with {c:?}", names(&a)));
                self.delete(a, c)
            }
            _ => {
                cx.note(|| "delete everything".into());
                self.clear()
            }
        }
    }
    fn some(&self, cx: &mut Cx) -> BTreeMap<String, Rc<Vec<u8>>> {
        self.assets.iter().filter(|_| cx.bool()).map(|(a, b)| (a.clone(), b.clone())).collect()
    }
    /// What the maps of the router show.
    fn compare(&self) -> Res {
        for (what, map, model) in [("assets", true, &self.model.fixed), ("fallbacks", false, &self.model.fallback)] {
            let mut want: BTreeMap<(String, Option<String>, Option<usize>), Resp> = BTreeMap::new();
            for ((k, e), a) in model {
                let e = e.map(|e| ENCODINGS[e].1.to_string());
                want.insert((k.clone(), e.clone(), None), a.response(None));
                if map {
                    for b in a.chunks() {
                        want.insert((k.clone(), e.clone(), Some(b)), a.response(Some(b)));
                    }
                }
            }
            let mut got = BTreeMap::new();
            let (a, f) = (self.router.get_assets(), self.router.get_fallback_assets());
            let (len, empty) = if map { (a.len(), a.is_empty()) } else { (f.len(), f.is_empty()) };
            // the iterator borrows the map for as long as the contents live
            let it: Vec<_> = unsafe_iter(&self.router, map);
            for (k, r) in it {
                ensure!(got.insert(k.clone(), r).is_none(), "maps", "{what} has {k:?} twice");
            }
            ensure!(len == got.len() && empty == got.is_empty(), "maps", "{what}: length {len}, empty {empty}, {} entries", got.len());
            for (k, r) in &want {
                let Some(g) = got.get(k) else { return fail("maps", format!("{what} lacks {k:?}")) };
                ensure!(g == r, "maps", "{what} has {} for {k:?}, expected {}", brief(g), brief(r));
                let e = k.1.as_ref().map(|e| ENCODINGS.iter().find(|x| x.1 == e).unwrap().0);
                let g = if map { a.get(k.0.clone(), e, k.2) } else { f.get(k.0.clone(), e, k.2) };
                ensure!(g.is_some_and(|g| sorted(Resp::of(g)) == *r), "maps", "get({k:?}) of {what} does not show what the iterator shows");
            }
            if let Some(k) = got.keys().find(|k| !want.contains_key(*k)) {
                return fail("maps", format!("{what} has {k:?}"));
            }
        }
        Ok(())
    }
}

fn unsafe_iter(r: &AssetRouter<'static>, fixed: bool) -> Vec<((String, Option<String>, Option<usize>), Resp)> {
    // iter() asks for a borrow as long as the lifetime of the contents; nothing borrowed leaves this function
    let r: &'static AssetRouter<'static> = unsafe { &*(r as *const _) };
    let own = |((p, e, b), x): ((&str, Option<&str>, Option<usize>), &ic_http_certification::HttpResponse)| ((p.to_string(), e.map(|e| e.to_string()), b), sorted(Resp::of(x)));
    if fixed {
        r.get_assets().iter().map(own).collect()
    } else {
        r.get_fallback_assets().iter().map(own).collect()
    }
}

fn names(a: &BTreeMap<String, Rc<Vec<u8>>>) -> String {
    format!("{:?}", a.iter().map(|(k, v)| format!("{k} ({} bytes)", v.len())).collect::<Vec<_>>())
}

fn brief(r: &Resp) -> String {
    let h = &r.body[..r.body.len().min(24)];
    format!("status {} headers {:?} body of {} bytes {}…", r.status, r.headers, r.body.len(), hexs(h))
}

struct Ask {
    req: Req,
    accept: Vec<usize>,
}

fn gen_ask(cx: &mut Cx, w: &World) -> Ask {
    let keys: Vec<&String> = w.model.fixed.keys().map(|k| &k.0).chain(w.model.fallback.keys().map(|k| &k.0)).collect();
    let path = if !keys.is_empty() && cx.chance(3, 4) {
        let k = (*cx.pick(&keys)).clone();
        match cx.draw(5) {
            0 | 1 | 2 => k,
            3 => format!("{k}/x"),
            _ => format!("{k}/"),
        }
    } else {
        cx.pick(&["/", "/dir", "/dir/", "/dir/sub", "/dir/sub/", "/dir/sub/x/y", "/none", "/a.js", "/a.js/x", "/alias/x", "/old/x", "/x y/z", "/dir/b.js.gz", "/index.html", "/new", "/dir/<$>", "/<*>", "/dir/sub/<*>", "/<$>/"]).to_string()
    };
    let path = if path.starts_with('/') { path.replace("//", "/") } else { format!("/{path}") };
    let mut req = Req::get(&path);
    req.raw_path = enc_random(cx, &path);
    req.origin = *cx.pick(&["", "", "https://canister.com", "http://localhost:8080"]);
    let mut accept = vec![];
    if cx.chance(2, 3) {
        let mut names: Vec<String> = vec![];
        for e in 0..5 {
            if cx.chance(2, 5) {
                let zero = cx.chance(1, 12);
                let name = if cx.chance(1, 8) { ENCODINGS[e].1.to_uppercase() } else { ENCODINGS[e].1.to_string() };
                names.push(format!("{name}{}", if zero { *cx.pick(&[";q=0", "; q=0.0", ";q=0.000"]) } else { *cx.pick(&["", "", ";q=0.5", "; q=0.001", ";q=1.0"]) }));
                if !zero {
                    accept.push(e);
                }
            }
        }
        if cx.chance(1, 6) {
            names.push(cx.pick(&["*", "compress", "x-br", "brr", "", "*;q=0.1"]).to_string());
        }
        if cx.chance(1, 8) {
            // many that nobody has
            let n = cx.size(200);
            for i in 0..n {
                let q = *cx.pick(&["", "", ";q=0.9", ";q=0", "; x=y"]);
                names.push(format!("{}{i}{q}", cx.pick(&["x-", "br-", "gzip-", "pack200-"])));
            }
        }
        cx.shuffle(&mut names);
        let sep = *cx.pick(&[",", ", ", " , "]);
        let name = recase(cx, "Accept-Encoding");
        req.headers.push((name, names.join(sep)));
    }
    if cx.chance(1, 4) {
        req.headers.push((cx.pick(&["host", "x-range", "cookie", "accept"]).to_string(), "gzip".into()));
    }
    cx.shuffle(&mut req.headers);
    Ask { req, accept }
}

fn certificate(w: &World) -> Vec<u8> {
    simple_cert(CANISTER, &w.router.root_hash(), NOW).cbor()
}

fn serve(w: &World, cert: &[u8], req: &HttpRequest) -> Result<Option<Resp>, Fail> {
    match no_panic(|| w.router.serve_asset(cert, req)) {
        Err(p) => fail("panic", format!("serve_asset panicked: {p}")),
        Ok(Err(ac::AssetCertificationError::NoAssetMatchingRequestUrl { .. })) => Ok(None),
        Ok(Err(e)) => fail("error", format!("serve_asset for {req:?}: {e}")),
        Ok(Ok(r)) => Ok(Some(Resp::of(&r))),
    }
}

fn without_cert(r: &Resp) -> Result<Resp, Fail> {
    let mut r = r.clone();
    let n = r.headers.len();
    r.headers.retain(|h| !h.0.eq_ignore_ascii_case("ic-certificate"));
    ensure!(r.headers.len() + 1 == n, "certificate", "{} IC-Certificate headers", n - r.headers.len());
    Ok(sorted(r))
}

/// C28: the router serves what was certified, and shows it in its maps.
fn model(cx: &mut Cx) -> Res {
    let mut w = World::any(cx);
    for _ in 0..cx.range(1, 5) {
        if cx.chance(1, 20) {
            w.refused(cx)?;
        }
        w.step(cx)?;
        w.compare()?;
        for _ in 0..4 {
            let mut ask = gen_ask(cx, &w);
            if ask.req.headers.iter().any(|h| h.0.eq_ignore_ascii_case("accept-encoding")) && cx.chance(1, 12) {
                several(cx, &w, &mut ask)?;
                continue;
            }
            let got = serve(&w, b"certificate", &ask.req.to_ic())?;
            if w.model.open(&ask.req.path, &ask.accept) {
                cx.label("open");
                continue;
            }
            let want = w.model.serve(&ask.req.path, &ask.accept);
            cx.note(|| format!("ask {:?}: {:?}", ask.req, got.as_ref().map(brief)));
            if let Some((a, s)) = &want {
                cx.nontrivial();
                cx.label(if s.is_some() { "fallback" } else if a.headers.iter().any(|h| h.0 == "content-encoding") { "encoded" } else if a.status == 200 { "exact" } else { "redirect" });
            }
            match (&got, want) {
                (None, None) => cx.label("nothing"),
                (Some(g), None) => return fail("serve", format!("{:?} with {:?} answered by {}, expected nothing", ask.req.path, ask.req.headers, brief(g))),
                (None, Some((a, s))) => return fail("serve", format!("{:?} with {:?} not answered, expected {} of scope {s:?}", ask.req.path, ask.req.headers, brief(&a.response(None)))),
                (Some(g), Some((a, s))) => {
                    let (g, a) = (without_cert(g)?, a.response(None));
                    ensure!(g == a, "serve", "{:?} with {:?} answered by {}, expected {} of scope {s:?}", ask.req.path, ask.req.headers, brief(&g), brief(&a));
                }
            }
        }
    }
    Ok(())
}

/// A second header of encodings that are accepted: whether it counts is open, but nothing is served that neither of them accepts.
fn several(cx: &mut Cx, w: &World, ask: &mut Ask) -> Res {
    let also: Vec<usize> = (0..5).filter(|e| !ask.accept.contains(e) && cx.bool()).collect();
    ask.req.headers.push(("accept-encoding".into(), also.iter().map(|e| ENCODINGS[*e].1).collect::<Vec<_>>().join(", ")));
    let mut both = [ask.accept.clone(), also.clone()].concat();
    both.sort();
    let readings = [ask.accept.clone(), also, both];
    let got = serve(w, b"certificate", &ask.req.to_ic())?;
    if readings.iter().any(|a| w.model.open(&ask.req.path, a)) {
        return Ok(());
    }
    cx.label("two headers");
    let got = got.map(|g| without_cert(&g)).transpose()?;
    let ok = readings.iter().any(|a| w.model.serve(&ask.req.path, a).map(|(a, _)| a.response(None)) == got);
    ensure!(ok, "serve", "{:?} with {:?} answered by {:?}", ask.req.path, ask.req.headers, got.as_ref().map(brief));
    Ok(())
}

/// C29: whatever the router serves, the verifier accepts as it is.
pub fn verified(cx: &mut Cx) -> Res {
    let mut w = World::any(cx);
    for _ in 0..cx.range(1, 4) {
        w.step(cx)?;
    }
    let cert = certificate(&w);
    for _ in 0..3 {
        let mut ask = gen_ask(cx, &w);
        if cx.chance(1, 30) {
            ask.req.query = Some(cx.pick(&["", "v=1", "a&b=/"]).to_string());
        }
        let single = ask.req.clone();
        if ask.req.query.is_none() && cx.chance(1, 40) {
            ask.req.path = ask.req.path.replacen('/', "//", 1);
            ask.req.raw_path = enc_plain(&ask.req.path);
        }
        let Some(got) = serve(&w, &cert, &ask.req.to_ic())? else { continue };
        if w.model.open(&ask.req.path, &ask.accept) || w.model.open(&single.path, &ask.accept) {
            continue;
        }
        cx.nontrivial();
        cx.note(|| format!("ask {:?}: {}", ask.req, brief(&got)));
        let out = verify(&VEnv::default(), &ask.req, &got)?;
        let Outcome::Accepted { version, status, headers, body } = &out else {
            return Err(Fail {
                kind: "unverifiable".into(),
                msg: format!("{:?} with {:?} is answered by {}: {}", ask.req.url(), ask.req.headers, brief(&without_cert(&got)?), out.short()),
                sig: if ask.req.query.is_some() && verify(&VEnv::default(), &Req { query: None, ..ask.req.clone() }, &got)?.accepted() {
                    Some("query".into())
                } else if ask.req.path.contains("//") && serve(&w, &cert, &single.to_ic())?.is_some_and(|g| verify(&VEnv::default(), &single, &g).is_ok_and(|o| o.accepted())) {
                    Some("repeated-slashes".into())
                } else {
                    None
                },
            });
        };
        let mut all: Headers = got.headers.iter().map(|h| (h.0.to_ascii_lowercase(), h.1.clone())).collect();
        let mut shown: Headers = headers.iter().map(|h| (h.0.to_ascii_lowercase(), h.1.clone())).collect();
        all.sort();
        shown.sort();
        ensure!(*version == 2 && *status == Some(got.status) && *body == got.body && shown == all, "verified", "{} of {}", out.short(), brief(&got));
        // and nothing else
        let mut other = got.clone();
        match cx.draw(3) {
            0 => other.body.push(0),
            1 => other.status = if got.status == 200 { 404 } else { 200 },
            _ => other.headers.insert(0, ("x-added".into(), "1".into())),
        }
        let out = verify(&VEnv::default(), &ask.req, &other)?;
        ensure!(!out.accepted(), "tampered", "{} for {:?}, served was {}", out.short(), ask.req.url(), brief(&got));
    }
    Ok(())
}

/// The response of an answer under the certificate and the tree of the router.
fn replayed(w: &World, cert: &[u8], path: &str, wild: bool, a: &Answer, begin: Option<usize>) -> Result<(Req, Resp), Fail> {
    let mut resp = a.response(begin);
    let mut req = Req::get(if path.is_empty() { "/" } else { path });
    if let Some(b) = begin.filter(|b| *b > 0) {
        req.headers.push(("range".into(), format!("bytes={b}-")));
    }
    let c = Cel::Full { headers: if begin.is_some() { vec!["range".into()] } else { vec![] }, params: vec![], resp: RespC { exclude: true, headers: vec![] } };
    let e = Entry { path: path.to_string(), wildcard: wild, cel: c, req: req.clone(), resp: resp.clone() };
    let entry = e.ic()?;
    match no_panic(|| w.tree.borrow().witness(&entry, &req.path)) {
        Err(p) => return fail("panic", p),
        Ok(Err(_)) => {}
        Ok(Ok(t)) => resp.headers.push(("ic-certificate".into(), cert_header(cert, &T::of_tree(&t).cbor(), &full_path(&e.segs())))),
    }
    Ok((req, resp))
}

/// C31: what is deleted or replaced is no longer certified, and nothing is left behind.
fn deleted(cx: &mut Cx) -> Res {
    let mut w = World::new();
    for _ in 0..cx.range(2, 5) {
        w.step(cx)?;
    }
    let cert = certificate(&w);
    // what is there is certified
    let live: Vec<(String, bool, Answer)> =
        w.model.fixed.iter().map(|(k, a)| (k.0.clone(), false, a.clone())).chain(w.model.fallback.iter().map(|(k, a)| (k.0.clone(), true, a.clone()))).collect();
    if !live.is_empty() {
        let (p, wild, a) = cx.pick(&live).clone();
        let (req, resp) = replayed(&w, &cert, &p, wild, &a, None)?;
        let exact = w.model.fixed.keys().any(|k| k.0 == req.path) || w.model.fallback.keys().any(|k| segments(&k.0).len() > segments(&p).len());
        if !(wild && exact) {
            let out = verify(&VEnv::default(), &req, &resp)?;
            ensure!(out.accepted(), "lost", "what is served for {p:?} (wildcard: {wild}) is not certified: {}", out.short());
        }
    }
    let gone = w.gone.clone();
    for (p, wild, a) in gone.iter().filter(|g| !live.contains(g)) {
        cx.nontrivial();
        let (req, resp) = replayed(&w, &cert, p, *wild, a, None)?;
        let out = verify(&VEnv::default(), &req, &resp)?;
        ensure!(!out.accepted(), "stale", "a replaced or deleted response of {p:?} (wildcard: {wild}) is still certified: {}", brief(&resp));
    }
    // in the end
    let (a, c) = (w.assets.clone(), w.confs.clone());
    match cx.draw(3) {
        0 => w.clear()?,
        1 => w.delete(a, c)?,
        _ => {
            for (k, v) in a {
                w.delete([(k, v)].into(), c.clone())?;
            }
            w.delete(BTreeMap::new(), c)?;
        }
    }
    w.compare()?;
    if w.model.fixed.is_empty() && w.model.fallback.is_empty() {
        let empty = HttpCertificationTree::default().root_hash();
        ensure!(w.router.root_hash() == empty && w.tree.borrow().root_hash() == empty, "left", "everything is deleted, but the root hash is {}, not {}", hexs(&w.router.root_hash()), hexs(&empty));
    } else {
        cx.label("something left");
    }
    Ok(())
}

/// C31: entries of others in a tree that the router shares stay as they are.
fn shared(cx: &mut Cx) -> Res {
    let mut w = World::new();
    let mut own: Vec<Entry> = vec![];
    let mut removed: Vec<Entry> = vec![];
    for _ in 0..cx.range(2, 6) {
        if own.is_empty() || cx.chance(1, 3) {
            let mut e = gen_entry(cx);
            let (path, wildcard) = *cx.pick(&[("/metrics", false), ("/api/x", false), ("/api/", false), ("/own", true), ("/own/y/", true), ("/dir/metrics", false)]);
            e.path = path.into();
            e.wildcard = wildcard;
            cx.note(|| format!("own entry {path:?} {:?}", e.cel));
            let entry = e.ic()?;
            w.tree.borrow_mut().insert(&entry);
            removed.retain(|x| x.segs() != e.segs() || x.labels() != e.labels());
            own.push(e);
        } else if cx.chance(1, 8) {
            let e = own.remove(cx.draw(own.len() as u64) as usize);
            if !own.iter().any(|x| x.segs() == e.segs() && x.labels() == e.labels()) {
                let entry = e.ic()?;
                w.tree.borrow_mut().delete(&entry);
                cx.note(|| format!("own entry {:?} removed", e.path));
                removed.push(e);
            }
        }
        w.step(cx)?;
        w.compare()?;
        ensure!(w.router.root_hash() == w.tree.borrow().root_hash(), "root", "the root hashes of the router and its tree differ");
        let cert = certificate(&w);
        for (e, there) in own.iter().map(|e| (e, true)).chain(removed.iter().map(|e| (e, false))) {
            let path = if e.wildcard { format!("{}{}", e.path.trim_end_matches('/'), cx.pick(&["/x", "/y/z", "/y/"])) } else { e.path.clone() };
            if e.wildcard && own.iter().any(|o| o.wildcard && o.path != e.path) {
                // one may be more specific than the other
                continue;
            }
            let req = Req { raw_path: enc_plain(&path), path: path.clone(), ..e.req.clone() };
            let entry = e.ic()?;
            let t = match no_panic(|| w.tree.borrow().witness(&entry, &path)) {
                Err(p) => return fail("panic", p),
                Ok(Err(err)) if there && e.path != "/own/y/" => return fail("lost", format!("no witness of an own entry for {path:?}: {err}")),
                Ok(Err(_)) => continue,
                Ok(Ok(t)) => t,
            };
            let mut resp = e.resp.clone();
            resp.headers.push(("IC-Certificate".into(), cert_header(&cert, &T::of_tree(&t).cbor(), &full_path(&e.segs()))));
            if e.wildcard && !candidates(&path).contains(&e.segs()) {
                continue;
            }
            let out = verify(&VEnv::default(), &req, &resp)?;
            if there {
                ensure!(out.accepted(), "lost", "the response of an own entry for {path:?} is refused: {}", out.short());
                cx.nontrivial();
            } else {
                ensure!(!out.accepted(), "stale", "the response of an own entry for {path:?} that is removed is accepted");
            }
        }
        // and the router serves its own
        let ask = gen_ask(cx, &w);
        if let Some(got) = serve(&w, &cert, &ask.req.to_ic())? {
            if !w.model.open(&ask.req.path, &ask.accept) && !ask.req.path.starts_with("/own") && !ask.req.path.ends_with("/metrics") && !ask.req.path.starts_with("/api") {
                let out = verify(&VEnv::default(), &ask.req, &got)?;
                ensure!(out.accepted(), "router", "the answer of the router to {:?} is refused: {}", ask.req, out.short());
            }
        }
    }
    w.clear()?;
    for e in &own {
        let entry = e.ic()?;
        w.tree.borrow_mut().delete(&entry);
    }
    let empty = HttpCertificationTree::default().root_hash();
    ensure!(w.tree.borrow().root_hash() == empty, "left", "everything is deleted, but something is left");
    Ok(())
}

/// A body of any length.
fn large(cx: &mut Cx) -> Rc<Vec<u8>> {
    let c = ASSET_CHUNK_SIZE;
    let n = match cx.weighted(&[20, 30, 30, 20, 20, 20, 1]) {
        6 => cx.range(3, 12) * c + cx.range(0, 2) - 1,
        0 => cx.range(0, 100),
        1 => *cx.pick(&[c - 1, c]),
        2 => c + 1,
        3 => *cx.pick(&[2 * c - 1, 2 * c, 2 * c + 1]),
        4 => cx.range(c + 1, 3 * c + c / 2),
        _ => cx.range(1, c),
    };
    let mut x = cx.u64() | 1;
    let mut v = vec![];
    while v.len() < n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(n);
    Rc::new(v)
}

/// C30: large assets come in chunks that verify and make up the asset.
pub fn chunks(cx: &mut Cx) -> Res {
    let mut w = World::any(cx);
    let path = cx.pick(&["video.mp4", "dir/b.js", "x y.bin"]).to_string();
    let n = cx.range(1, 2);
    for round in 0..n {
        if round > 0 && cx.chance(1, 3) {
            let (a, c) = (w.assets.clone(), w.confs.clone());
            cx.note(|| "delete".into());
            w.delete(a, c)?;
        }
        let mut assets = BTreeMap::from([(path.clone(), large(cx))]);
        let mut encodings = vec![];
        for e in [0usize, 2, 4] {
            if cx.chance(1, 4) {
                encodings.push((e, format!(".enc{e}")));
            }
        }
        for (_, x) in &encodings {
            assets.insert(format!("{path}{x}"), large(cx));
        }
        let (ctype, headers) = gen_conf_headers(cx);
        let aliases = if cx.chance(1, 3) { vec!["/alias".to_string()] } else { vec![] };
        let fallbacks = if cx.chance(1, 4) { vec![("/".to_string(), None)] } else { vec![] };
        let confs = vec![Conf::File { path: path.clone(), ctype, headers, fallbacks, aliases, encodings }];
        cx.note(|| format!("certify {} with {confs:?}", names(&assets)));
        w.certify(assets, confs)?;
    }
    w.compare()?;
    let cert = certificate(&w);
    let keys: BTreeSet<String> = w.model.fixed.keys().map(|k| k.0.clone()).collect();
    let keys: Vec<String> = keys.into_iter().collect();
    let url = cx.pick(&keys).clone();
    let accept: Vec<usize> = [0, 2, 4].into_iter().filter(|_| cx.chance(2, 3)).collect();
    let mut req = Req::get(&url);
    if !accept.is_empty() {
        req.headers.push(("accept-encoding".into(), accept.iter().map(|e| ENCODINGS[*e].1).collect::<Vec<_>>().join(", ")));
    }
    let want = w.model.serve(&url, &accept).unwrap().0.clone();
    let begins = want.chunks();
    cx.note(|| format!("get {url} with {:?}: {} chunks", req.headers, begins.len()));
    let mut body: Vec<u8> = vec![];
    loop {
        let first = body.is_empty();
        let mut r = req.clone();
        if !first {
            let name = recase(cx, "Range");
            r.headers.push((name, format!("bytes={}-", body.len())));
        }
        let Some(got) = serve(&w, &cert, &r.to_ic())? else { return fail("missing", format!("nothing for {:?} after {} bytes", url, body.len())) };
        let model = want.response(if begins.is_empty() { None } else { Some(body.len()) });
        let plain = without_cert(&got)?;
        ensure!(plain == model, "chunk", "after {} bytes of {url:?}: {}, expected {}", body.len(), brief(&plain), brief(&model));
        let out = verify(&VEnv::default(), &r, &got)?;
        ensure!(matches!(&out, Outcome::Accepted { status, body, .. } if *status == Some(got.status) && *body == got.body), "unverifiable", "the chunk of {url:?} after {} bytes: {}", body.len(), out.short());
        // it does not answer for another chunk
        if !begins.is_empty() && begins.len() > 1 && cx.bool() {
            let other = *cx.pick(&begins);
            if other != body.len() {
                let mut q = req.clone();
                if other > 0 {
                    q.headers.push(("range".into(), format!("bytes={other}-")));
                }
                let out = verify(&VEnv::default(), &q, &got)?;
                ensure!(!out.accepted(), "swapped", "the chunk of {url:?} after {} bytes is accepted for the one after {other}", body.len());
            }
        }
        body.extend_from_slice(&got.body);
        if begins.is_empty() || body.len() >= want.body.len() || got.body.is_empty() {
            break;
        }
        cx.nontrivial();
    }
    ensure!(body == *want.body, "body", "the chunks make up {} bytes, not the {} of the asset", body.len(), want.body.len());
    // nothing of what was replaced or deleted
    let live: Vec<(String, bool, Answer)> =
        w.model.fixed.iter().map(|(k, a)| (k.0.clone(), false, a.clone())).chain(w.model.fallback.iter().map(|(k, a)| (k.0.clone(), true, a.clone()))).collect();
    for (p, wild, a) in w.gone.iter().filter(|g| !live.contains(g)) {
        let b = if *wild { vec![] } else { a.chunks() };
        let begin = if b.is_empty() || cx.chance(1, 4) { None } else { Some(*cx.pick(&b)) };
        let (req, resp) = replayed(&w, &cert, p, *wild, a, begin)?;
        let out = verify(&VEnv::default(), &req, &resp)?;
        ensure!(!out.accepted(), "stale", "a replaced or deleted response of {p:?} from {begin:?} is still certified: {}", brief(&resp));
    }
    // nothing is left in the end
    let mut probe = Ok(());
    for _ in 0..cx.range(1, 4) {
        match range_probe(cx, &w, &cert, &url, &req, &want) {
            Err(e) if e.sig.is_none() => return Err(e),
            Err(e) => probe = Err(e),
            Ok(()) => {}
        }
    }
    let (a, c) = (w.assets.clone(), w.confs.clone());
    w.delete(a, c)?;
    w.compare()?;
    if w.model.fixed.is_empty() && w.model.fallback.is_empty() {
        let empty = HttpCertificationTree::default().root_hash();
        ensure!(w.router.root_hash() == empty, "left", "everything is deleted, but the root hash is {}, not {}", hexs(&w.router.root_hash()), hexs(&empty));
    }
    probe
}

/// Ranges of what does not come in chunks are answered by all of it, and never by something else.
fn range_probe(cx: &mut Cx, w: &World, cert: &[u8], url: &str, req: &Req, want: &Answer) -> Res {
    let begins = want.chunks();
    // (the starts of the chunks of other encodings among them)
    let begin = match cx.weighted(&[1, 1, 4]) {
        0 => 0,
        1 => match cx.draw(3) {
            0 => cx.range(0, want.body.len()),
            // close to the start of a chunk
            1 => {
                let off = *cx.pick(&[1, 2, 3, 5, 8, 9, 10, 16, 32, 100, 1000, 1024]);
                let start = ASSET_CHUNK_SIZE * cx.range(0, 3);
                if cx.bool() { start + off } else { start.saturating_sub(off) }
            }
            // close to the end, or beyond it
            _ => (want.body.len() + cx.range(0, 20)).saturating_sub(10),
        },
        _ => ASSET_CHUNK_SIZE * cx.range(1, 3),
    };
    let mut r = req.clone();
    let end = if cx.chance(1, 3) { Some(begin + cx.range(0, 2 * ASSET_CHUNK_SIZE)) } else { None };
    let odd = cx.chance(1, 6);
    let mut value = format!("bytes={begin}-{}", end.map_or(String::new(), |e| e.to_string()));
    if odd {
        // which are no ranges, or of a kind the router does not know: refused, or answered by all of it or a chunk
        value = match cx.draw(10) {
            0 => format!("bytes=-{begin}"),
            1 => format!("bytes={begin}-{},{}-", begin + 1, begin + 9),
            2 => format!("items={begin}-"),
            3 => format!("bytes={}-{begin}", begin + 1),
            4 => "bytes=18446744073709551616-".into(),
            5 => format!("bytes={begin}"),
            6 => format!("Bytes={begin}-"),
            7 => format!(" bytes = {begin} - "),
            8 => format!("bytes={begin}-18446744073709551616"),
            _ => cx.pick(&["", "bytes=", "bytes=-", "bytes=a-b", "bytes=0x0-", "bytes=+0-", "bytes=0--1", "bytes=é-", "bytes=0-0", "bytes=18446744073709551615-", "bytes=18446744073709551615-18446744073709551615"]).to_string(),
        };
    }
    r.headers.push(("range".into(), value.clone()));
    let got = match no_panic(|| w.router.serve_asset(cert, &r.to_ic())) {
        Err(p) => return fail("panic", p),
        Ok(r) => r.ok().map(|r| Resp::of(&r)),
    };
    match got {
        Some(g) if odd => {
            let p = without_cert(&g)?;
            let ok = p == want.response(None) && begins.is_empty() || begins.iter().any(|b| p == want.response(Some(*b)));
            ensure!(ok, "range", "the range {value:?} of {url:?} ({} bytes) is answered by {}", want.body.len(), brief(&p));
        }
        None if odd => {}
        None => ensure!(!begins.is_empty() && !begins.contains(&begin), "range", "{begin}- of {url:?} ({} bytes) is refused", want.body.len()),
        Some(g) => {
            let p = without_cert(&g)?;
            let whole = begins.is_empty() && p == want.response(None);
            let part = begins.contains(&begin) && p == want.response(Some(begin));
            ensure!(whole || part, "range", "{begin}- of {url:?} ({} bytes) is answered by {}", want.body.len(), brief(&p));
            let out = verify(&VEnv::default(), &r, &g)?;
            if !out.accepted() {
                let sig = match end {
                    Some(_) if part => Some("explicit-range-end".to_string()),
                    None if part && begin == 0 => Some("explicit-first-range".to_string()),
                    _ => None,
                };
                return Err(Fail { kind: "unverifiable".into(), msg: format!("{begin}- of {url:?} ({} bytes): {}", want.body.len(), out.short()), sig });
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C28",
            rule: "histories of uploads with file, pattern and redirect configurations, encoded variants, aliases and fallbacks, changes, deletions and clears; the maps of the router and its answers to random requests are compared with a model after each step; non-trivial: a request is answered; distinct by choice sequence",
            assumptions: &[],
            subs: vec![sub("model", 60_000, 1_500_000, model)],
        },
        Prop {
            id: "C29",
            rule: "the same histories; each answer is given to the verifier under a certificate for the root hash of the router, as it is and tampered with; non-trivial: a request is answered; distinct by choice sequence",
            assumptions: &[],
            subs: vec![sub("verified", 24_000, 600_000, verified)],
        },
        Prop {
            id: "C30",
            rule: "assets of lengths around multiples of the chunk size, encoded, aliased, replaced and deleted; a client fetches them chunk by chunk, verifies each chunk, and puts them together; ranges in between; non-trivial: more than one chunk; distinct by choice sequence",
            assumptions: &[],
            subs: vec![sub("chunks", 2_500, 60_000, chunks)],
        },
        Prop {
            id: "C31",
            rule: "the same histories as C28; responses of the past are given to the verifier under the present tree and certificate, and everything is deleted in the end (deleted); entries of others in a tree shared with the router are checked after each step (shared); non-trivial: something was replaced or deleted, or an own entry is checked; distinct by choice sequence",
            assumptions: &[],
            subs: vec![sub("deleted", 20_000, 500_000, deleted), sub("shared", 8_000, 200_000, shared)],
        },
    ]
}
