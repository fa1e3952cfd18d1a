//! C04, C05, C06: the nested certified map, its witnesses, and merging views.
use crate::{engine::*, ensure, util::*};
use ic_certification::{merge_hash_trees, AsHashTree, NestedTree};
use std::collections::BTreeMap;

type Key = Vec<u8>;
type Nested = NestedTree<Key, Vec<u8>>;

#[derive(Clone, PartialEq, Eq, Debug)]
enum N {
    Leaf(Vec<u8>),
    Node(BTreeMap<Key, N>),
}

impl N {
    fn at(&self, path: &[Key]) -> Option<&N> {
        match (path.split_first(), self) {
            (None, n) => Some(n),
            (Some((k, rest)), N::Node(m)) => m.get(k)?.at(rest),
            _ => None,
        }
    }
    fn insert(&mut self, path: &[Key], v: Vec<u8>) {
        match path.split_first() {
            None => *self = N::Leaf(v),
            Some((k, rest)) => {
                if let N::Leaf(_) = self {
                    *self = N::Node(BTreeMap::new());
                }
                let N::Node(m) = self else { unreachable!() };
                m.entry(k.clone())
                    .or_insert_with(|| N::Node(BTreeMap::new()))
                    .insert(rest, v);
            }
        }
    }
    fn delete(&mut self, path: &[Key]) {
        match path.split_first() {
            None => *self = N::Node(BTreeMap::new()),
            Some((k, rest)) => {
                if let N::Node(m) = self {
                    if let Some(c) = m.get_mut(k) {
                        c.delete(rest);
                        if matches!(c, N::Node(x) if x.is_empty()) {
                            m.remove(k);
                        }
                    }
                }
            }
        }
    }
    fn leaves(&self) -> usize {
        match self {
            N::Leaf(_) => 1,
            N::Node(m) => m.values().map(|n| n.leaves()).sum(),
        }
    }
    fn paths(&self, prefix: &mut Vec<Key>, out: &mut Vec<Vec<Key>>) {
        if let N::Node(m) = self {
            for (k, n) in m {
                prefix.push(k.clone());
                out.push(prefix.clone());
                n.paths(prefix, out);
                prefix.pop();
            }
        }
    }
    fn all_paths(&self) -> Vec<Vec<Key>> {
        let mut out = vec![];
        self.paths(&mut vec![], &mut out);
        out
    }
    /// Does the (full) hash tree hold exactly this content, in order?
    fn matches(&self, t: &T) -> bool {
        match (self, t) {
            (N::Leaf(v), T::Leaf(w)) => v == w,
            (N::Node(m), t) => {
                let mut items = vec![];
                flat(t, &mut items)
                    && items.len() == m.len()
                    && items
                        .iter()
                        .zip(m)
                        .all(|((l, t), (k, n))| l == k && n.matches(t))
            }
            _ => false,
        }
    }
}

fn flat(t: &T, out: &mut Vec<(Key, T)>) -> bool {
    match t {
        T::Empty => true,
        T::Fork(l, r) => flat(l, out) && flat(r, out),
        T::Label(l, t) => {
            out.push((l.clone(), (**t).clone()));
            true
        }
        _ => false,
    }
}

#[derive(Debug, Clone)]
enum Op {
    Insert(Vec<Key>, Vec<u8>),
    Delete(Vec<Key>),
    Clear,
}

fn near_path(cx: &mut Cx, m: &N) -> Vec<Key> {
    let all = m.all_paths();
    if all.is_empty() || cx.chance(1, 4) {
        return cx.vec(4, 2, gen_key);
    }
    let mut p = all[cx.draw(all.len() as u64) as usize].clone();
    match cx.weighted(&[6, 2, 3, 2, 1]) {
        0 => {}
        1 => {
            p.pop();
        }
        2 => {
            p.push(gen_key(cx));
            if cx.bool() {
                p.push(gen_key(cx));
            }
        }
        3 => {
            let i = cx.draw(p.len() as u64) as usize;
            p[i] = gen_key(cx);
        }
        _ => {
            // right next to an existing key
            let i = cx.draw(p.len() as u64) as usize;
            if cx.bool() {
                p[i].push(0);
            } else {
                p[i].pop();
            }
        }
    }
    p
}

fn gen_op(cx: &mut Cx, m: &N, top: bool) -> Op {
    match cx.weighted(&[7, 4, 1]) {
        0 => {
            let mut p = near_path(cx, m);
            if p.is_empty() && !(top && cx.chance(1, 4)) {
                p.push(gen_key(cx));
            }
            Op::Insert(p, gen_value(cx))
        }
        1 => {
            let mut p = near_path(cx, m);
            if p.is_empty() && !(top && cx.chance(1, 4)) {
                p.push(gen_key(cx));
            }
            Op::Delete(p)
        }
        _ if top && cx.chance(1, 4) => Op::Clear,
        _ => Op::Insert(vec![gen_key(cx), gen_key(cx)], gen_value(cx)),
    }
}

fn apply(t: &mut Nested, m: &mut N, op: &Op) {
    match op {
        Op::Insert(p, v) => {
            t.insert(p, v.clone());
            m.insert(p, v.clone());
        }
        Op::Delete(p) => {
            t.delete(p);
            m.delete(p);
        }
        Op::Clear => {
            t.clear();
            *m = N::Node(BTreeMap::new());
        }
    }
}

/// At times many entries, or a very long path, to start with.
fn prefill(cx: &mut Cx, t: &mut Nested, m: &mut N) {
    if cx.chance(1, 100) {
        let shared: Vec<Key> = cx.vec(3, 1, gen_key);
        let order = cx.draw(1 << 16) as usize;
        let fan = *cx.pick(&[1000, 30, 4]);
        for i in 0..cx.size(300) {
            let i = i * (order * 2 + 1) % 1024;
            let mut p = shared.clone();
            p.extend([i / fan, i % fan].iter().filter(|k| fan < 1000 || **k > 0).map(|k| k.to_string().into_bytes()));
            if p.len() > shared.len() {
                apply(t, m, &Op::Insert(p, i.to_string().into_bytes()));
            }
        }
    }
    if cx.chance(1, 100) {
        let n = cx.size(40).max(1);
        let p: Vec<Key> = (0..n).map(|_| gen_key(cx)).collect();
        apply(t, m, &Op::Insert(p, gen_value(cx)));
    }
}

fn grow(cx: &mut Cx, max: usize, avg: u64, top: bool) -> (Nested, N) {
    let mut t = Nested::default();
    let mut m = N::Node(BTreeMap::new());
    prefill(cx, &mut t, &mut m);
    let mut n = 0;
    while n < max && cx.draw(avg + 1) != 0 {
        let op = gen_op(cx, &m, top);
        apply(&mut t, &mut m, &op);
        n += 1;
    }
    (t, m)
}

fn history(cx: &mut Cx) -> Res {
    let mut t = Nested::default();
    let mut m = N::Node(BTreeMap::new());
    prefill(cx, &mut t, &mut m);
    let mut n = 0;
    let (mut replaced, mut removed) = (false, false);
    let max = if cx.big { 120 } else { 40 };
    let mut peak = 0;
    while n < max && cx.draw(15) != 0 {
        let op = gen_op(cx, &m, true);
        cx.note(|| format!("{op:?}"));
        match &op {
            Op::Insert(p, _) => {
                replaced |= (0..p.len()).any(|i| matches!(m.at(&p[..i]), Some(N::Leaf(_))))
                    || matches!(m.at(p), Some(N::Node(_)))
            }
            Op::Delete(p) => removed |= !p.is_empty() && m.at(p).is_some(),
            _ => {}
        }
        apply(&mut t, &mut m, &op);
        n += 1;
        peak = peak.max(m.leaves());
        let full = T::of_tree(&t.as_hash_tree());
        ensure!(m.matches(&full), "content", "after {op:?} the tree is {full:?}, want {m:?}");
        ensure!(t.root_hash() == full.digest(), "root", "after {op:?} the root hash is not the digest of the tree");
        for _ in 0..2 {
            let p = near_path(cx, &m);
            let want = m.at(&p);
            let value = match want {
                Some(N::Leaf(v)) => Some(v),
                _ => None,
            };
            ensure!(t.get(&p) == value, "get", "get({}) = {:?}, want {value:?}", show_path(&p), t.get(&p));
            ensure!(t.contains_leaf(&p) == value.is_some(), "contains_leaf", "contains_leaf({})", show_path(&p));
            ensure!(t.contains_path(&p) == want.is_some(), "contains_path", "contains_path({}) = {}", show_path(&p), t.contains_path(&p));
        }
    }
    if replaced {
        cx.label("leaf<->subtree replaced");
    }
    if removed {
        cx.label("removed");
    }
    if peak >= 100 {
        cx.label("100 values and more");
    }
    if removed && peak >= 3 {
        cx.nontrivial();
    }
    Ok(())
}

/// The values a view shows.
fn shown_leaves(t: &T) -> Vec<Vec<Key>> {
    t.leaf_paths()
}

fn witness(cx: &mut Cx) -> Res {
    let (t, m) = grow(cx, if cx.big { 120 } else { 40 }, 12, false);
    let full = T::of_tree(&t.as_hash_tree());
    let root = t.root_hash();
    if m.leaves() >= 3 {
        cx.nontrivial();
    }
    cx.note(|| format!("tree {full:?}"));
    for _ in 0..cx.range(1, 4) {
        let p = near_path(cx, &m);
        let w = t.witness(&p);
        let v = T::of_tree(&w);
        cx.note(|| format!("witness({}) = {v:?}", show_path(&p)));
        ensure!(w.digest() == root && v.digest() == root, "digest", "the witness of {} has another digest", show_path(&p));
        ensure!(is_view(&v, &full), "view", "the witness of {} is not a view of the tree", show_path(&p));
        let at = m.at(&p);
        match at {
            Some(N::Leaf(x)) => {
                cx.label("leaf");
                ensure!(v.lookup(&p) == L::Found(x.clone()), "found", "the witness of {} reads {:?}", show_path(&p), v.lookup(&p));
            }
            Some(N::Node(_)) => {
                cx.label("subtree");
                let want = full.subtree(&p).ok();
                ensure!(v.subtree(&p).ok() == want, "subtree", "the witness of {} does not show the whole subtree", show_path(&p));
            }
            None => {
                cx.label("absent");
                ensure!(v.lookup(&p) == L::Absent, "absent", "the witness of absent {} reads {:?}", show_path(&p), v.lookup(&p));
            }
        }
        // what the library reads is the same
        use ic_certification::LookupResult as R;
        let lib = w.lookup_path(&p);
        let ok = match at {
            Some(N::Leaf(x)) => lib == R::Found(x),
            Some(N::Node(x)) if x.is_empty() => lib == R::Absent,
            Some(N::Node(_)) => lib == R::Error,
            None => lib == R::Absent,
        };
        ensure!(ok, "lookup", "the library reads {lib:?} for {}", show_path(&p));
        // no value off the path is shown
        for l in shown_leaves(&v) {
            ensure!(
                l.starts_with(&p) || p.starts_with(&l),
                "minimal", "the witness of {} shows the value of {}", show_path(&p), show_path(&l)
            );
        }
        // at each level only the path's key, or its two neighbours, are named
        let mut here = Some(&v);
        let mut full_here = Some(&m);
        for k in &p {
            let (Some(x), Some(N::Node(fm))) = (here, full_here) else { break };
            let mut items = vec![];
            if !collect(x, &mut items) {
                break;
            }
            let names: Vec<&Key> = items.iter().map(|i| i.0).collect();
            let lo = fm.range(..k.clone()).next_back().map(|x| x.0);
            let hi = fm
                .range::<Key, _>((std::ops::Bound::Excluded(k), std::ops::Bound::Unbounded))
                .next()
                .map(|x| x.0);
            if fm.contains_key(k) {
                ensure!(names == vec![k], "minimal", "the witness of {} names {names:?}", show_path(&p));
            } else {
                ensure!(
                    names.iter().all(|n| Some(*n) == lo || Some(*n) == hi),
                    "minimal", "the witness of absent {} names {names:?}", show_path(&p)
                );
            }
            here = items.iter().find(|i| i.0 == k).map(|i| i.1);
            full_here = fm.get(k);
        }
    }
    Ok(())
}

fn collect<'a>(t: &'a T, out: &mut Vec<(&'a Key, &'a T)>) -> bool {
    match t {
        T::Empty | T::Pruned(_) => true,
        T::Leaf(_) => false,
        T::Fork(l, r) => collect(l, out) && collect(r, out),
        T::Label(l, t) => {
            out.push((l, t));
            true
        }
    }
}

/// The information of both views.
fn union(a: &T, b: &T) -> T {
    match (a, b) {
        (T::Pruned(_), b) => b.clone(),
        (a, T::Pruned(_)) => a.clone(),
        (T::Fork(a, b), T::Fork(c, d)) => fork(union(a, c), union(b, d)),
        (T::Label(l, a), T::Label(_, b)) => label(l, union(a, b)),
        (a, _) => a.clone(),
    }
}

fn merge(cx: &mut Cx) -> Res {
    let from_map = cx.bool();
    let (full, views): (T, Vec<T>) = if from_map {
        let (t, m) = grow(cx, 40, 12, false);
        let full = T::of_tree(&t.as_hash_tree());
        let n = if cx.chance(1, 40) { cx.range(5, 20) } else { cx.range(2, 4) };
        let views = (0..n)
            .map(|_| {
                let p = near_path(cx, &m);
                T::of_tree(&t.witness(&p))
            })
            .collect();
        (full, views)
    } else {
        let empties = cx.bool();
        let full = gen_tree(cx, 3, empties);
        let n = if cx.chance(1, 40) { cx.range(5, 20) } else { cx.range(2, 4) };
        let views = (0..n).map(|_| full.prune(cx, 4)).collect();
        (full, views)
    };
    cx.note(|| format!("full {full:?} views {views:?}"));
    let want = views.iter().skip(1).fold(views[0].clone(), |a, b| union(&a, b));
    if views.iter().all(|v| *v != want) {
        cx.nontrivial();
    }
    let mut order: Vec<usize> = (0..views.len()).collect();
    cx.shuffle(&mut order);
    let mut acc = views[order[0]].to_ic();
    let left = cx.bool();
    for i in &order[1..] {
        let v = views[*i].to_ic();
        let (a, b) = if left { (acc, v) } else { (v, acc) };
        acc = no_panic(|| merge_hash_trees(a, b)).or_else(|p| fail("panic", format!("merging two views of one tree panicked: {p}")))?;
    }
    let got = T::of_tree(&acc);
    ensure!(got.digest() == full.digest(), "digest", "the merged view has another digest: {got:?}");
    ensure!(is_view(&got, &full), "view", "the merge is not a view of the tree: {got:?}");
    ensure!(got == want, "union", "the merge {got:?} is not the union {want:?}");
    // merging again changes nothing
    let again = T::of_tree(&merge_hash_trees(acc.clone(), acc));
    ensure!(again == got, "idempotent", "merging a view with itself changed it");
    // what either view could read, the merge reads
    for v in &views {
        for p in v.all_paths() {
            let l = v.lookup(&p);
            if matches!(l, L::Found(_) | L::Absent) {
                ensure!(got.lookup(&p) == l, "info", "the merge lost {}", show_path(&p));
            }
        }
    }
    Ok(())
}

/// Where both views show a node, or both hide one.
fn common(a: &T, b: &T) -> usize {
    match (a, b) {
        (T::Fork(a, b), T::Fork(c, d)) => 1 + common(a, c) + common(b, d),
        (T::Label(_, a), T::Label(_, b)) => 1 + common(a, b),
        (T::Leaf(_), T::Leaf(_)) | (T::Pruned(_), T::Pruned(_)) => 1,
        _ => 0,
    }
}

fn other_bytes(cx: &mut Cx, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match cx.draw(4) {
        0 if !v.is_empty() => {
            v.pop();
        }
        1 => v.push(cx.draw(256) as u8),
        2 => v.insert(0, 0),
        _ if !v.is_empty() => {
            let i = cx.range(0, v.len() - 1);
            v[i] ^= 1 << cx.draw(8);
        }
        _ => v = b"x".to_vec(),
    }
    v
}

/// The second view, different at the n-th of those nodes.
fn contradict(cx: &mut Cx, a: &T, b: &T, n: &mut usize) -> T {
    let here = !matches!((a, b), (T::Empty, _) | (_, T::Empty)) && std::mem::discriminant(a) == std::mem::discriminant(b);
    if !here {
        return b.clone();
    }
    if *n == 0 {
        *n = usize::MAX;
        let kind = cx.chance(1, 4);
        return match b {
            T::Pruned(h) => {
                let mut h = *h;
                h[cx.range(0, 31)] ^= 1 << cx.draw(8);
                T::Pruned(h)
            }
            T::Leaf(v) if kind => label(v, leaf("")),
            T::Leaf(v) => leaf(other_bytes(cx, v)),
            T::Label(l, t) if kind => fork(label(l, (**t).clone()), label("z", leaf(""))),
            T::Label(l, _) if cx.chance(1, 4) => leaf(l),
            T::Label(l, t) => label(other_bytes(cx, l), (**t).clone()),
            _ => if cx.bool() { leaf("") } else { label("a", leaf("")) },
        };
    }
    *n -= 1;
    match (a, b) {
        (T::Fork(a, b), T::Fork(c, d)) => {
            let l = contradict(cx, a, c, n);
            let r = if *n == usize::MAX { (**d).clone() } else { contradict(cx, b, d, n) };
            fork(l, r)
        }
        (T::Label(_, a), T::Label(l, b)) => label(l, contradict(cx, a, b, n)),
        _ => b.clone(),
    }
}

/// Views that contradict each other are not mixed.
fn conflict(cx: &mut Cx) -> Res {
    let empties = cx.bool();
    let full = gen_tree(cx, 3, empties);
    let (a, b) = (full.prune(cx, 6), full.prune(cx, 6));
    let n = common(&a, &b);
    if n == 0 {
        return Ok(());
    }
    let mut at = cx.range(0, n - 1);
    let b = contradict(cx, &a, &b, &mut at);
    cx.note(|| format!("{a:?} and {b:?}"));
    cx.nontrivial();
    for (x, y) in [(&a, &b), (&b, &a)] {
        if let Ok(t) = no_panic(|| merge_hash_trees(x.to_ic(), y.to_ic())) {
            return fail("mixed", format!("{x:?} and {y:?} are merged to {:?}", T::of_tree(&t)));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "a random history of insert/delete/clear over nested paths (values replacing subtrees and the reverse, empty keys, the root itself) is applied to the nested map and to a recursive BTreeMap; after every step contents, order, root digest and get/contains are compared; non-trivial: at least 3 values alive at once and an existing path removed; distinct by choice sequence",
            assumptions: &["keys and values are byte vectors"],
            subs: vec![sub("history", 200_000, 2_000_000, history)],
        },
        Prop {
            id: "C05",
            rule: "witnesses of paths on, below, above and beside stored ones in nested maps grown by random histories, judged by a reference lookup, by digest, and by what they disclose; non-trivial: at least 3 values stored; distinct by choice sequence",
            assumptions: &["SHA-256 collisions do not occur"],
            subs: vec![sub("witness", 300_000, 2_000_000, witness)],
        },
        Prop {
            id: "C06",
            rule: "2-4 random views of one tree (nested map witnesses, or random prunings of random trees) merged in a random order; compared with the union of what they show; non-trivial: the union shows more than any single view; distinct by choice sequence; conflict: two views of one tree, one of them changed where both show (or both hide) something, do not merge",
            assumptions: &["a contradiction between what one view hides and the other shows is not looked for"],
            subs: vec![sub("merge", 350_000, 3_000_000, merge), sub("conflict", 200_000, 2_000_000, conflict)],
        },
    ]
}
