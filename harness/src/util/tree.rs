//! A reference model of hash trees, written from the interface specification.
use super::{cbor, sha, H};
use crate::engine::Cx;
use ic_certification as ic;

#[derive(Clone, PartialEq, Eq)]
pub enum T {
    Empty,
    Fork(Box<T>, Box<T>),
    Label(Vec<u8>, Box<T>),
    Leaf(Vec<u8>),
    Pruned(H),
}

impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        fn s(b: &[u8]) -> String {
            match std::str::from_utf8(b) {
                Ok(s) if s.chars().all(|c| c.is_ascii_graphic()) => format!("'{s}'"),
                _ => format!("0x{}", super::hexs(b)),
            }
        }
        match self {
            T::Empty => write!(f, "Empty"),
            T::Fork(l, r) => write!(f, "Fork({l:?}, {r:?})"),
            T::Label(l, t) => write!(f, "{}=>{t:?}", s(l)),
            T::Leaf(v) => write!(f, "Leaf({})", s(v)),
            T::Pruned(h) => write!(f, "Pruned({:02x}{:02x}..)", h[0], h[1]),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum L {
    Absent,
    Unknown,
    Found(Vec<u8>),
    Error,
}

fn sep(s: &str) -> Vec<u8> {
    let mut v = vec![s.len() as u8];
    v.extend(s.as_bytes());
    v
}

pub fn fork(l: T, r: T) -> T {
    T::Fork(Box::new(l), Box::new(r))
}
pub fn label(l: impl AsRef<[u8]>, t: T) -> T {
    T::Label(l.as_ref().to_vec(), Box::new(t))
}
pub fn leaf(v: impl AsRef<[u8]>) -> T {
    T::Leaf(v.as_ref().to_vec())
}

impl T {
    pub fn digest(&self) -> H {
        match self {
            T::Empty => sha(&[&sep("ic-hashtree-empty")]),
            T::Fork(l, r) => sha(&[&sep("ic-hashtree-fork"), &l.digest(), &r.digest()]),
            T::Label(l, t) => sha(&[&sep("ic-hashtree-labeled"), l, &t.digest()]),
            T::Leaf(v) => sha(&[&sep("ic-hashtree-leaf"), v]),
            T::Pruned(h) => *h,
        }
    }

    pub fn of<S: AsRef<[u8]>>(n: &ic::hash_tree::HashTreeNode<S>) -> T {
        use ic::hash_tree::HashTreeNode as N;
        match n {
            N::Empty() => T::Empty,
            N::Fork(b) => fork(T::of(&b.0), T::of(&b.1)),
            N::Labeled(l, t) => label(l.as_bytes(), T::of(t)),
            N::Leaf(v) => leaf(v.as_ref()),
            N::Pruned(h) => T::Pruned(*h),
        }
    }
    pub fn of_tree<S: AsRef<[u8]>>(t: &ic::hash_tree::HashTree<S>) -> T {
        T::of(t.as_ref())
    }

    pub fn to_ic(&self) -> ic::HashTree {
        match self {
            T::Empty => ic::empty(),
            T::Fork(l, r) => ic::fork(l.to_ic(), r.to_ic()),
            T::Label(l, t) => ic::labeled(l.as_slice(), t.to_ic()),
            T::Leaf(v) => ic::leaf(v.clone()),
            T::Pruned(h) => ic::pruned(*h),
        }
    }

    pub fn cbor_into(&self, o: &mut Vec<u8>) {
        match self {
            T::Empty => {
                cbor::array(o, 1);
                o.push(0);
            }
            T::Fork(l, r) => {
                cbor::array(o, 3);
                o.push(1);
                l.cbor_into(o);
                r.cbor_into(o);
            }
            T::Label(l, t) => {
                cbor::array(o, 3);
                o.push(2);
                cbor::bytes(o, l);
                t.cbor_into(o);
            }
            T::Leaf(v) => {
                cbor::array(o, 2);
                o.push(3);
                cbor::bytes(o, v);
            }
            T::Pruned(h) => {
                cbor::array(o, 2);
                o.push(4);
                cbor::bytes(o, h);
            }
        }
    }
    pub fn cbor(&self) -> Vec<u8> {
        let mut o = vec![];
        cbor::self_describe(&mut o);
        self.cbor_into(&mut o);
        o
    }

    /// flatten_forks of the specification.
    fn flatten<'a>(&'a self, out: &mut Vec<&'a T>) {
        match self {
            T::Empty => {}
            T::Fork(l, r) => {
                l.flatten(out);
                r.flatten(out);
            }
            t => out.push(t),
        }
    }

    /// find_label of the specification, on the flattened forest.
    fn find(&self, want: &[u8]) -> Result<&T, L> {
        let mut f = vec![];
        self.flatten(&mut f);
        for t in &f {
            if let T::Label(l, t) = t {
                if l == want {
                    return Ok(t);
                }
            }
        }
        for w in f.windows(2) {
            if let (T::Label(a, _), T::Label(b, _)) = (w[0], w[1]) {
                if a.as_slice() < want && want < b.as_slice() {
                    return Err(L::Absent);
                }
            }
        }
        if let Some(T::Label(l, _)) = f.first() {
            if want < l.as_slice() {
                return Err(L::Absent);
            }
        }
        if let Some(T::Label(l, _)) = f.last() {
            if l.as_slice() < want {
                return Err(L::Absent);
            }
        }
        match f.as_slice() {
            [T::Leaf(_)] | [] => Err(L::Absent),
            _ => Err(L::Unknown),
        }
    }

    pub fn subtree(&self, path: &[Vec<u8>]) -> Result<&T, L> {
        match path.split_first() {
            None => Ok(self),
            Some((l, rest)) => self.find(l)?.subtree(rest),
        }
    }

    pub fn lookup(&self, path: &[Vec<u8>]) -> L {
        match self.subtree(path) {
            Err(l) => l,
            Ok(T::Leaf(v)) => L::Found(v.clone()),
            Ok(T::Empty) => L::Absent,
            Ok(T::Pruned(_)) => L::Unknown,
            Ok(_) => L::Error,
        }
    }

    /// Every path that ends at a leaf, in order.
    pub fn leaf_paths(&self) -> Vec<Vec<Vec<u8>>> {
        fn go(t: &T, p: &mut Vec<Vec<u8>>, out: &mut Vec<Vec<Vec<u8>>>) {
            match t {
                T::Empty | T::Pruned(_) => {}
                T::Leaf(_) => out.push(p.clone()),
                T::Fork(l, r) => {
                    go(l, p, out);
                    go(r, p, out);
                }
                T::Label(l, t) => {
                    p.push(l.clone());
                    go(t, p, out);
                    p.pop();
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }

    /// Every labeled path (leaf or not).
    pub fn all_paths(&self) -> Vec<Vec<Vec<u8>>> {
        fn go(t: &T, p: &mut Vec<Vec<u8>>, out: &mut Vec<Vec<Vec<u8>>>) {
            match t {
                T::Empty | T::Pruned(_) | T::Leaf(_) => {}
                T::Fork(l, r) => {
                    go(l, p, out);
                    go(r, p, out);
                }
                T::Label(l, t) => {
                    p.push(l.clone());
                    out.push(p.clone());
                    go(t, p, out);
                    p.pop();
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }

    pub fn nodes(&self) -> usize {
        match self {
            T::Fork(l, r) => 1 + l.nodes() + r.nodes(),
            T::Label(_, t) => 1 + t.nodes(),
            _ => 1,
        }
    }
    pub fn height(&self) -> usize {
        match self {
            T::Fork(l, r) => 1 + l.height().max(r.height()),
            T::Label(_, t) => 1 + t.height(),
            _ => 1,
        }
    }
    pub fn pruned_nodes(&self) -> usize {
        match self {
            T::Fork(l, r) => l.pruned_nodes() + r.pruned_nodes(),
            T::Label(_, t) => t.pruned_nodes(),
            T::Pruned(_) => 1,
            _ => 0,
        }
    }

    /// Replaces subtrees by their digest, each with probability num/16.
    pub fn prune(&self, cx: &mut Cx, num: u64) -> T {
        if cx.chance(num, 16) {
            return T::Pruned(self.digest());
        }
        match self {
            T::Fork(l, r) => {
                let l = l.prune(cx, num);
                let r = r.prune(cx, num);
                fork(l, r)
            }
            T::Label(l, t) => label(l, t.prune(cx, num)),
            t => t.clone(),
        }
    }
}

/// True if `view` is `full` with some subtrees replaced by their digests.
pub fn is_view(view: &T, full: &T) -> bool {
    match (view, full) {
        (T::Pruned(h), f) => *h == f.digest(),
        (T::Fork(a, b), T::Fork(c, d)) => is_view(a, c) && is_view(b, d),
        (T::Label(l, a), T::Label(m, b)) => l == m && is_view(a, b),
        (a, b) => a == b,
    }
}

const ALPHA: &[u8] = b"abc";

/// A short key over a small alphabet: collisions, shared prefixes and the empty key are likely.
pub fn gen_key(cx: &mut Cx) -> Vec<u8> {
    match cx.weighted(&[96, 24, 8, 1]) {
        0 => {
            let n = cx.weighted(&[4, 6, 6, 3]);
            let n = [1, 2, 3, 0][n];
            (0..n).map(|_| *cx.pick(ALPHA)).collect()
        }
        1 => {
            let n = cx.range(1, 3);
            (0..n).map(|_| *cx.pick(&[0u8, 1, 0x7f, 0x80, 0xfe, 0xff])).collect()
        }
        2 => {
            let n = cx.range(20, 40);
            let mut v = vec![b'a'; n];
            v[n - 1] = *cx.pick(ALPHA);
            v
        }
        _ => {
            let n = cx.size(1100);
            cx.blob(n)
        }
    }
}

pub fn gen_value(cx: &mut Cx) -> Vec<u8> {
    match cx.weighted(&[60, 20, 10, 1]) {
        0 => {
            let n = cx.range(0, 4);
            (0..n).map(|_| *cx.pick(b"xyz")).collect()
        }
        1 => {
            let n = cx.range(0, 40);
            cx.blob(n)
        }
        2 => cx.blob(32),
        _ => {
            let n = cx.size(5000);
            cx.blob(n)
        }
    }
}

/// Joins sorted items into a forest with an arbitrary fork shape, with empty trees mixed in.
pub fn gen_forest(cx: &mut Cx, mut items: Vec<T>, empties: bool) -> T {
    if empties {
        let mut i = 0;
        while i <= items.len() {
            if cx.chance(1, 8) {
                items.insert(i, T::Empty);
                i += 1;
            }
            i += 1;
        }
    }
    fn go(cx: &mut Cx, items: &[T]) -> T {
        match items {
            [] => T::Empty,
            [t] => t.clone(),
            ts => {
                let at = if ts.len() > 16 { ts.len() / 2 } else { cx.range(1, ts.len() - 1) };
                let l = go(cx, &ts[..at]);
                let r = go(cx, &ts[at..]);
                fork(l, r)
            }
        }
    }
    go(cx, &items)
}

/// Mostly a few, at times many.
fn gen_keys(cx: &mut Cx) -> Vec<Vec<u8>> {
    if cx.chance(1, 60) {
        let n = cx.size(150);
        return (0..n).map(|_| cx.draw(400).to_string().into_bytes()).collect();
    }
    cx.vec(6, 3, gen_key)
}

/// A full, sorted tree as the specification describes them; at times one that is far deeper.
pub fn gen_tree(cx: &mut Cx, depth: usize, empties: bool) -> T {
    let mut t = gen_bush(cx, depth, empties);
    if depth > 0 && cx.chance(1, 40) {
        for _ in 0..cx.size(60) {
            if t.height() > 90 {
                // serde_cbor goes to 128
                break;
            }
            let mut items = vec![label(gen_key(cx), t)];
            if cx.chance(1, 3) {
                let k = gen_key(cx);
                if !matches!(&items[0], T::Label(l, _) if *l == k) {
                    items.push(label(k, leaf(gen_value(cx))));
                }
            }
            items.sort_by(|a, b| match (a, b) {
                (T::Label(a, _), T::Label(b, _)) => a.cmp(b),
                _ => unreachable!(),
            });
            t = gen_forest(cx, items, empties);
        }
    }
    t
}

fn gen_bush(cx: &mut Cx, depth: usize, empties: bool) -> T {
    if depth == 0 || cx.chance(1, 4) {
        return if empties && cx.chance(1, 12) {
            T::Empty
        } else {
            leaf(gen_value(cx))
        };
    }
    let mut keys = gen_keys(cx);
    keys.sort();
    keys.dedup();
    let items = keys
        .into_iter()
        .map(|k| {
            let t = gen_bush(cx, depth - 1, empties);
            label(k, t)
        })
        .collect();
    gen_forest(cx, items, empties)
}

/// A path into (or close to) the tree.
pub fn gen_path(cx: &mut Cx, t: &T) -> Vec<Vec<u8>> {
    let all = t.all_paths();
    let mut p = if all.is_empty() || cx.chance(1, 6) {
        cx.vec(3, 1, gen_key)
    } else {
        all[cx.draw(all.len() as u64) as usize].clone()
    };
    match cx.weighted(&[6, 2, 2, 2]) {
        0 => {}
        1 => {
            p.pop();
        }
        2 => p.push(gen_key(cx)),
        _ => {
            if !p.is_empty() {
                let i = cx.draw(p.len() as u64) as usize;
                p[i] = gen_key(cx);
            }
        }
    }
    p
}

pub fn show_path(p: &[Vec<u8>]) -> String {
    p.iter()
        .map(|s| match std::str::from_utf8(s) {
            Ok(s) if s.chars().all(|c| c.is_ascii_graphic()) => s.to_string(),
            _ => format!("0x{}", hex::encode(s)),
        })
        .collect::<Vec<_>>()
        .join("/")
}
