//! C01, C02, C03: the ordered certified map.
use crate::{engine::*, ensure, util::*};
use ic_certification::{AsHashTree, RbTree};
use std::collections::BTreeMap;

type Map = RbTree<Vec<u8>, Vec<u8>>;
type Model = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Debug, Clone)]
enum Op {
    Insert(Vec<u8>, Vec<u8>),
    Delete(Vec<u8>),
    Modify(Vec<u8>, Vec<u8>),
}

fn gen_ops(cx: &mut Cx) -> Vec<Op> {
    // three regimes: small key space (collisions), wide key space (deep trees), sorted runs
    let regime = cx.weighted(&[4, 3, 2]);
    let (max, avg) = match regime {
        0 => (60, 12),
        1 => (if cx.big { 600 } else { 160 }, if cx.big { 300 } else { 60 }),
        _ => (120, 40),
    };
    let mut n = 0u32;
    // at times on top of many entries
    let mut base = vec![];
    if cx.chance(1, 150) {
        let n = cx.size(if cx.big { 6000 } else { 1500 });
        let order = cx.range(0, 2);
        let seed = cx.draw(1 << 20) as usize;
        base = (0..n)
            .map(|i| match order {
                0 => i,
                1 => n - i,
                _ => (i * 2 + 1) * (seed * 2 + 1) % 65536,
            })
            .map(|i| Op::Insert(format!("{i:05}").into_bytes(), i.to_string().into_bytes()))
            .collect();
    }
    let mut used: Vec<Vec<u8>> = base.iter().map(|o| match o { Op::Insert(k, _) => k.clone(), _ => unreachable!() }).collect();
    let ops = cx.vec(max, avg, |cx| {
        let fresh = |cx: &mut Cx| match regime {
            0 => gen_key(cx),
            1 => {
                let l = cx.range(1, 3);
                cx.bytes(l)
            }
            _ => {
                n += 1;
                format!("k{n:04}").into_bytes()
            }
        };
        let known = !used.is_empty() && cx.chance(1, 2);
        match cx.weighted(&[6, 4, 2]) {
            0 => {
                let mut fresh = fresh;
                let k = if known && regime != 2 { cx.pick(&used).clone() } else { fresh(cx) };
                used.push(k.clone());
                Op::Insert(k, gen_value(cx))
            }
            1 => {
                let mut fresh = fresh;
                let k = if known || regime == 2 && !used.is_empty() {
                    cx.pick(&used).clone()
                } else {
                    fresh(cx)
                };
                Op::Delete(k)
            }
            _ => {
                let mut fresh = fresh;
                let k = if known { cx.pick(&used).clone() } else { fresh(cx) };
                Op::Modify(k, gen_value(cx))
            }
        }
    });
    base.extend(ops);
    base
}

fn apply(t: &mut Map, m: &mut Model, op: &Op) {
    match op {
        Op::Insert(k, v) => {
            t.insert(k.clone(), v.clone());
            m.insert(k.clone(), v.clone());
        }
        Op::Delete(k) => {
            t.delete(k);
            m.remove(k);
        }
        Op::Modify(k, v) => {
            let v2 = v.clone();
            t.modify(k, |x| *x = v2);
            if let Some(x) = m.get_mut(k) {
                *x = v.clone();
            }
        }
    }
}

pub fn history(cx: &mut Cx) -> Res {
    let ops = gen_ops(cx);
    let mut t = Map::new();
    let mut m = Model::new();
    let mut deleted = false;
    let mut peak = 0;
    cx.note(|| format!("{} ops: {:?}", ops.len(), &ops[..ops.len().min(12)]));
    for (i, op) in ops.iter().enumerate() {
        if let Op::Delete(k) = op {
            deleted |= m.contains_key(k);
        }
        apply(&mut t, &mut m, op);
        peak = peak.max(m.len());
        ensure!(t.is_empty() == m.is_empty(), "map", "is_empty wrong after op {i} {op:?}");
        let k = match op {
            Op::Insert(k, _) | Op::Delete(k) | Op::Modify(k, _) => k,
        };
        ensure!(t.get(k) == m.get(k), "map", "get({}) after op {i} {op:?}: {:?}, want {:?}", hexs(k), t.get(k), m.get(k));
        // full comparison at every step while small, at intervals when large
        if m.len() < 12 || i % (7 + m.len() / 20) == 0 || i + 1 == ops.len() {
            let got: Vec<(&Vec<u8>, &Vec<u8>)> = t.iter().collect();
            let want: Vec<(&Vec<u8>, &Vec<u8>)> = m.iter().collect();
            ensure!(got == want, "map", "contents differ after op {i} {op:?}: {got:?}, want {want:?}");
            let each = std::rc::Rc::new(std::cell::RefCell::new(Vec::<(Vec<u8>, Vec<u8>)>::new()));
            let sink = each.clone();
            t.for_each(move |k, v| sink.borrow_mut().push((k.to_vec(), v.clone())));
            let each = each.borrow();
            ensure!(
                each.len() == want.len()
                    && each.iter().zip(&want).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1),
                "map", "for_each differs after op {i} {op:?}"
            );
        }
    }
    for k in m.keys() {
        ensure!(t.get(k) == m.get(k), "map", "get({}) at the end", hexs(k));
    }
    let absent = gen_key(cx);
    ensure!(t.get(&absent) == m.get(&absent), "map", "get({}) of a random key", hexs(&absent));
    // a map rebuilt from the same content is equal; one that differs is ordered as its content
    let mut items: Vec<_> = m.clone().into_iter().collect();
    cx.shuffle(&mut items);
    let t2: Map = items.into_iter().collect();
    ensure!(t == t2, "map-eq", "equal contents, unequal maps");
    ensure!(t.cmp(&t2) == std::cmp::Ordering::Equal, "map-eq", "equal contents, cmp not Equal");
    let mut t3 = t2.clone();
    let mut m3 = m.clone();
    let (k, v) = (gen_key(cx), gen_value(cx));
    if cx.bool() {
        t3.insert(k.clone(), v.clone());
        m3.insert(k, v);
    } else {
        t3.delete(&k);
        m3.remove(&k);
    }
    ensure!((t == t3) == (m == m3), "map-eq", "== disagrees with content equality");
    ensure!(t.cmp(&t3) == m.iter().cmp(m3.iter()), "map-eq", "cmp disagrees with content order");
    ensure!(t.partial_cmp(&t3) == Some(t.cmp(&t3)) && t3.partial_cmp(&t) == Some(t3.cmp(&t)), "map-eq", "partial_cmp disagrees with cmp");
    if m.len() < 20 {
        let text = no_panic(|| format!("{t:?}")).or_else(|p| fail("panic", p))?;
        ensure!(m.keys().all(|k| text.contains(&*String::from_utf8_lossy(k))), "debug", "{m:?} is printed as {text}");
    }
    if deleted && peak >= 4 {
        cx.nontrivial();
    }
    if peak >= 32 {
        cx.label("peak>=32");
    }
    if peak >= 500 {
        cx.label("peak>=500");
    }
    if deleted {
        cx.label("deleted");
    }
    if m.is_empty() && peak > 0 {
        cx.label("emptied");
    }
    Ok(())
}

fn fork_depth(t: &T) -> usize {
    match t {
        T::Fork(l, r) => 1 + fork_depth(l).max(fork_depth(r)),
        _ => 0,
    }
}

fn commits(t: &Map, m: &Model, when: &str) -> Res {
    let full = T::of_tree(&t.as_hash_tree());
    ensure!(t.root_hash() == full.digest(), "root", "root hash is not the digest of the full tree {when}");
    ensure!(full.pruned_nodes() == 0, "root", "the full tree has pruned nodes {when}");
    let mut items = vec![];
    fn flat(t: &T, out: &mut Vec<(Vec<u8>, T)>) -> bool {
        match t {
            T::Empty => true,
            T::Fork(l, r) => flat(l, out) && flat(r, out),
            T::Label(l, t) => {
                out.push((l.clone(), (**t).clone()));
                true
            }
            _ => false,
        }
    }
    ensure!(flat(&full, &mut items), "root", "the full tree is not a forest of labels {when}");
    let want: Vec<_> = m.iter().map(|(k, v)| (k.clone(), leaf(v))).collect();
    ensure!(items == want, "root", "the full tree does not hold the contents in order {when}: {items:?}");
    // logarithmic witnesses: a red-black tree of n keys has height <= 2*log2(n+1), and a node
    // contributes at most two forks
    let n = m.len() as f64;
    let bound = 2.0 * (2.0 * (n + 1.0).log2()).floor() + 2.0;
    ensure!(
        (fork_depth(&full) as f64) <= bound,
        "balance", "{} keys but fork depth {} {when}", m.len(), fork_depth(&full)
    );
    Ok(())
}

pub fn commitment(cx: &mut Cx) -> Res {
    let ops = gen_ops(cx);
    cx.note(|| format!("{} ops: {:?}", ops.len(), &ops[..ops.len().min(12)]));
    let mut t = Map::new();
    let mut m = Model::new();
    let mut prev = (m.clone(), t.root_hash());
    commits(&t, &m, "when empty")?;
    for (i, op) in ops.iter().enumerate() {
        apply(&mut t, &mut m, op);
        let h = t.root_hash();
        ensure!((prev.1 == h) == (prev.0 == m) || prev.0 == m, "root", "content changed but the root hash did not at op {i} {op:?}");
        if m.len() < 10 || i % (5 + m.len() / 20) == 0 || i + 1 == ops.len() {
            commits(&t, &m, &format!("after op {i} {op:?}"))?;
        }
        // reading and failed updates change nothing
        if prev.0 == m && matches!(op, Op::Modify(..)) {
            ensure!(prev.1 == h, "root", "a modification without effect changed the root hash");
        }
        prev = (m.clone(), h);
    }
    if m.len() >= 3 {
        cx.nontrivial();
    }
    if m.len() >= 32 {
        cx.label("n>=32");
    }
    if m.len() >= 500 {
        cx.label("n>=500");
    }
    Ok(())
}

fn boundary_key(cx: &mut Cx, m: &Model) -> Vec<u8> {
    if m.is_empty() || cx.chance(1, 4) {
        return gen_key(cx);
    }
    let keys: Vec<_> = m.keys().collect();
    let mut k = (*cx.pick(&keys)).clone();
    match cx.weighted(&[6, 1, 1, 1, 1]) {
        0 => {}
        1 => k.push(0),
        2 => k.truncate(k.len() - 1.min(k.len()) - if cx.chance(1, 3) { k.len() / 2 } else { 0 }),
        3 => {
            if let Some(b) = k.last_mut() {
                *b = b.wrapping_add(1);
            }
        }
        _ => {
            if let Some(b) = k.last_mut() {
                *b = b.wrapping_sub(1);
            }
        }
    }
    k
}

/// The keys a view discloses, in order, and for each whether its value is shown.
fn disclosed(t: &T) -> Vec<(Vec<u8>, bool)> {
    match t {
        T::Fork(l, r) => [disclosed(l), disclosed(r)].concat(),
        T::Label(l, t) => vec![(l.clone(), !matches!(**t, T::Pruned(_)))],
        _ => vec![],
    }
}

pub fn witnesses(cx: &mut Cx) -> Res {
    let ops = gen_ops(cx);
    let mut t = Map::new();
    let mut m = Model::new();
    for op in &ops {
        apply(&mut t, &mut m, op);
    }
    let full = T::of_tree(&t.as_hash_tree());
    let root = t.root_hash();
    cx.note(|| format!("map {:?}", m.keys().take(16).map(|k| hexs(k)).collect::<Vec<_>>()));
    if m.len() >= 3 {
        cx.nontrivial();
    }
    let rounds = cx.range(1, 6);
    for _ in 0..rounds {
        let a = boundary_key(cx, &m);
        let b = boundary_key(cx, &m);
        let below = m.range(..a.clone()).next_back().map(|x| x.0.clone());
        match cx.draw(5) {
            0 => {
                // one key
                let w = t.witness(&a);
                let v = T::of_tree(&w);
                cx.note(|| format!("witness({}) = {v:?}", hexs(&a)));
                ensure!(v.digest() == root, "digest", "witness of {} has another digest", hexs(&a));
                ensure!(is_view(&v, &full), "view", "witness of {} is not a view of the tree: {v:?}", hexs(&a));
                let got = v.lookup(&[a.clone()]);
                let shown: Vec<_> = disclosed(&v);
                match m.get(&a) {
                    Some(x) => {
                        cx.label("present");
                        ensure!(got == L::Found(x.clone()), "present", "witness of present key {} gives {got:?}", hexs(&a));
                        ensure!(shown == vec![(a.clone(), true)], "minimal", "witness of {} discloses {shown:?}", hexs(&a));
                    }
                    None => {
                        cx.label("absent");
                        ensure!(got == L::Absent, "absent", "witness of absent key {} gives {got:?}", hexs(&a));
                        ensure!(
                            shown.len() <= 2 && shown.iter().all(|s| !s.1),
                            "minimal", "witness of absent {} discloses {shown:?}", hexs(&a)
                        );
                    }
                }
                // what the library itself reads from the witness
                let lib = w.lookup_path([&a]);
                let want = match m.get(&a) {
                    Some(x) => ic_certification::LookupResult::Found(x),
                    None => ic_certification::LookupResult::Absent,
                };
                ensure!(lib == want, "lookup", "library reads {lib:?} for {}", hexs(&a));
            }
            1 => {
                // the caller's value witness
                let pr: H = full.subtree(&[a.clone()]).map(|t| t.digest()).unwrap_or_default();
                let w = T::of_tree(&t.nested_witness(&a, |_| ic_certification::pruned(pr)));
                ensure!(w.digest() == root, "digest", "nested witness of {}", hexs(&a));
                ensure!(is_view(&w, &full), "view", "nested witness of {}", hexs(&a));
                let want = if m.contains_key(&a) { L::Unknown } else { L::Absent };
                ensure!(w.lookup(&[a.clone()]) == want, "nested", "nested witness of {} reads {:?}", hexs(&a), w.lookup(&[a.clone()]));
            }
            2 => {
                // ranges of keys or values
                let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
                let values = cx.bool();
                let w = if values { t.value_range(&lo, &hi) } else { t.key_range(&lo, &hi) };
                let v = T::of_tree(&w);
                cx.note(|| format!("range({}, {}) values={values} = {v:?}", hexs(&lo), hexs(&hi)));
                ensure!(v.digest() == root, "digest", "range {}..={}", hexs(&lo), hexs(&hi));
                ensure!(is_view(&v, &full), "view", "range {}..={} {v:?}", hexs(&lo), hexs(&hi));
                let shown = disclosed(&v);
                let inside: Vec<_> = m.range(lo.clone()..=hi.clone()).map(|(k, _)| (k.clone(), values)).collect();
                let got: Vec<_> = shown.iter().filter(|(k, _)| *k >= lo && *k <= hi).cloned().collect();
                ensure!(got == inside, "range", "range {}..={} shows {got:?}, want {inside:?}", hexs(&lo), hexs(&hi));
                let outside: Vec<_> = shown.iter().filter(|(k, _)| *k < lo || *k > hi).collect();
                let lo_n = m.range(..lo.clone()).next_back().map(|x| x.0);
                let hi_n = m.range::<Vec<u8>, _>((std::ops::Bound::Excluded(&hi), std::ops::Bound::Unbounded)).next().map(|x| x.0);
                ensure!(
                    outside.iter().all(|(k, s)| !s && (Some(k) == lo_n || Some(k) == hi_n)),
                    "minimal", "range {}..={} discloses {outside:?}", hexs(&lo), hexs(&hi)
                );
                // complete: every key in the range that is not shown is provably absent
                for probe in probes(&lo, &hi, &inside) {
                    if probe >= lo && probe <= hi && !m.contains_key(&probe) {
                        ensure!(v.lookup(&[probe.clone()]) == L::Absent, "complete",
                            "range {}..={} does not prove {} absent", hexs(&lo), hexs(&hi), hexs(&probe));
                    }
                }
                cx.label("range");
                if inside.len() > 1 {
                    cx.label("range>1");
                }
            }
            3 => {
                // prefix
                let v = T::of_tree(&t.keys_with_prefix(&a));
                cx.note(|| format!("prefix({}) = {v:?}", hexs(&a)));
                ensure!(v.digest() == root, "digest", "prefix {}", hexs(&a));
                ensure!(is_view(&v, &full), "view", "prefix {}", hexs(&a));
                let shown = disclosed(&v);
                let want: Vec<_> = m.keys().filter(|k| k.starts_with(&a)).map(|k| (k.clone(), false)).collect();
                let got: Vec<_> = shown.iter().filter(|(k, _)| k.starts_with(&a)).cloned().collect();
                ensure!(got == want, "prefix", "prefix {} shows {got:?}, want {want:?}", hexs(&a));
                let above = m.keys().find(|k| **k > a && !k.starts_with(&a));
                let outside: Vec<_> = shown.iter().filter(|(k, _)| !k.starts_with(&a)).collect();
                ensure!(
                    outside.iter().all(|(k, s)| !s && (Some(k) == below.as_ref() || Some(k) == above)),
                    "minimal", "prefix {} discloses {outside:?}", hexs(&a)
                );
                let mut probe = a.clone();
                for tail in [&b""[..], b"\0", b"a", b"zz", b"\xff\xff"] {
                    probe.truncate(a.len());
                    probe.extend(tail);
                    if !m.contains_key(&probe) {
                        ensure!(v.lookup(&[probe.clone()]) == L::Absent, "complete",
                            "prefix {} does not prove {} absent", hexs(&a), hexs(&probe));
                    }
                }
                cx.label("prefix");
                if want.len() > 1 {
                    cx.label("prefix>1");
                }
            }
            _ => {
                let v = T::of_tree(&t.keys());
                ensure!(v.digest() == root, "digest", "keys()");
                ensure!(is_view(&v, &full), "view", "keys()");
                let want: Vec<_> = m.keys().map(|k| (k.clone(), false)).collect();
                ensure!(disclosed(&v) == want, "keys", "keys() shows {:?}", disclosed(&v));
            }
        }
    }
    Ok(())
}

fn probes(lo: &[u8], hi: &[u8], inside: &[(Vec<u8>, bool)]) -> Vec<Vec<u8>> {
    let mut out = vec![lo.to_vec(), hi.to_vec()];
    for k in inside.iter().map(|x| x.0.as_slice()).chain([lo]) {
        let mut k = k.to_vec();
        k.push(0);
        out.push(k);
    }
    out
}

/// A map of maps, and what it should hold.
type Outer = RbTree<String, Map>;
type OuterModel = BTreeMap<String, Model>;

fn gen_outer(cx: &mut Cx) -> Result<(Outer, OuterModel), Fail> {
    let (mut t, mut m) = (Outer::new(), OuterModel::new());
    let keys = ["", "a", "b", "ab", "é", "z", "a\0", "long long key"];
    let n = cx.range(0, 25);
    for i in 0..n {
        let k = cx.pick(&keys).to_string();
        match cx.weighted(&[3, 1, 6]) {
            0 => {
                let (mut it, mut im) = (Map::new(), Model::new());
                for _ in 0..cx.range(0, 4) {
                    let op = Op::Insert(gen_key(cx), gen_value(cx));
                    apply(&mut it, &mut im, &op);
                }
                t.insert(k.clone(), it);
                m.insert(k, im);
            }
            1 => {
                t.delete(k.as_bytes());
                m.remove(&k);
            }
            _ => {
                // in place; the map inside may change, or not
                let op = match cx.draw(4) {
                    0 | 1 => Op::Insert(gen_key(cx), gen_value(cx)),
                    2 => Op::Delete(gen_key(cx)),
                    _ => Op::Modify(gen_key(cx), gen_value(cx)),
                };
                cx.note(|| format!("within {k:?}: {op:?}"));
                let mut im = m.get(&k).cloned().unwrap_or_default();
                let was = (t.root_hash(), im.clone());
                t.modify(k.as_bytes(), |it| apply(it, &mut im, &op));
                if let Some(x) = m.get_mut(&k) {
                    *x = im.clone();
                    ensure!((was.1 == im) == (t.root_hash() == was.0), "root", "{op:?} within {k:?} at step {i}: the root hash changed: {}", t.root_hash() != was.0);
                }
            }
        }
        let want = outer_tree(&m);
        let full = T::of_tree(&t.as_hash_tree());
        ensure!(t.root_hash() == full.digest(), "root", "the root hash of a map of maps is not the digest of its tree after step {i}");
        ensure!(contents(&full) == contents(&want), "root", "the tree of a map of maps holds {full:?}, expected {want:?}");
        for k in keys {
            let got = t.get(k.as_bytes()).map(|x| x.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Model>());
            ensure!(got == m.get(k).cloned(), "map", "get({k:?}) of a map of maps: {got:?}");
        }
        ensure!(t.iter().map(|x| x.0.clone()).eq(m.keys().cloned()), "map", "the keys of a map of maps");
    }
    Ok((t, m))
}

fn outer_tree(m: &OuterModel) -> T {
    let mut t = T::Empty;
    let join = |a: T, b: T| if matches!(a, T::Empty) { b } else { T::Fork(Box::new(a), Box::new(b)) };
    for (k, im) in m {
        let mut inner = T::Empty;
        for (k, v) in im {
            inner = join(inner, label(k, leaf(v)));
        }
        t = join(t, label(k.as_bytes(), inner));
    }
    t
}

/// The contents, however the forks are arranged.
fn contents(t: &T) -> Vec<(Vec<u8>, String)> {
    match t {
        T::Fork(l, r) => [contents(l), contents(r)].concat(),
        T::Label(l, t) => vec![(l.clone(), match &**t {
            T::Empty | T::Fork(..) | T::Label(..) => format!("{:?}", contents(t)),
            t => format!("{t:?}"),
        })],
        T::Empty => vec![],
        t => vec![(vec![], format!("{t:?}"))],
    }
}

fn of_maps(cx: &mut Cx) -> Res {
    let (_, m) = gen_outer(cx)?;
    if m.values().any(|m| m.len() >= 2) {
        cx.nontrivial();
    }
    // and one of hashes
    let (mut t, mut m) = (RbTree::<&'static str, H>::new(), BTreeMap::new());
    for _ in 0..cx.range(0, 12) {
        let k = *cx.pick(&["", "a", "b", "c", "ab", "é", "zz"]);
        let v = sha(&[&[cx.draw(3) as u8]]);
        match cx.weighted(&[4, 2, 2]) {
            0 => {
                t.insert(k, v);
                m.insert(k, v);
            }
            1 => {
                t.delete(k.as_bytes());
                m.remove(k);
            }
            _ => {
                t.modify(k.as_bytes(), |x| *x = v);
                m.entry(k).and_modify(|x| *x = v);
            }
        }
        let full = T::of_tree(&t.as_hash_tree());
        ensure!(t.root_hash() == full.digest(), "root", "the root hash of a map of hashes is not the digest of its tree");
        let want: Vec<_> = m.iter().map(|(k, v)| (k.as_bytes().to_vec(), format!("{:?}", leaf(v)))).collect();
        ensure!(contents(&full) == want, "root", "the tree of a map of hashes holds {full:?}, expected {want:?}");
        ensure!(t.get(k.as_bytes()) == m.get(k), "map", "get({k:?}) of a map of hashes: {:?}", t.get(k.as_bytes()));
    }
    Ok(())
}

fn inner_witnesses(cx: &mut Cx) -> Res {
    let (t, m) = gen_outer(cx)?;
    let (full, root) = (T::of_tree(&t.as_hash_tree()), t.root_hash());
    if m.values().any(|m| m.len() >= 2) {
        cx.nontrivial();
    }
    for _ in 0..cx.range(1, 5) {
        let k = cx.pick(&["", "a", "b", "ab", "é", "z", "a\0", "a\0\0", "aa", "zz"]).to_string();
        let ik = match m.get(&k) {
            Some(im) => boundary_key(cx, im),
            None => gen_key(cx),
        };
        let path = [k.as_bytes().to_vec(), ik.clone()];
        let how = cx.draw(4);
        let w = match how {
            0 | 1 => t.nested_witness(k.as_bytes(), |it| it.witness(&ik)),
            2 => t.witness(k.as_bytes()),
            _ => t.value_range(b"", b"\xff"),
        };
        let v = T::of_tree(&w);
        cx.note(|| format!("witness of {k:?} {} = {v:?}", hexs(&ik)));
        ensure!(v.digest() == root, "digest", "the witness for {k:?} {} has another digest", hexs(&ik));
        ensure!(is_view(&v, &full), "view", "the witness for {k:?} {} is not a view of the tree: {v:?}", hexs(&ik));
        let want = match m.get(&k).map(|im| im.get(&ik)) {
            Some(Some(x)) => L::Found(x.clone()),
            _ => L::Absent,
        };
        ensure!(v.lookup(&path) == want, "nested", "the witness for {k:?} {} reads {:?}, expected {want:?}", hexs(&ik), v.lookup(&path));
        if how < 2 {
            let shown = v.all_paths().iter().filter(|p| p.len() == 2 && p[0] != k.as_bytes()).count();
            ensure!(shown == 0, "minimal", "the witness for {k:?} {} discloses {v:?}", hexs(&ik));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a random history of insert/delete/modify over byte-string keys (small colliding key space, wide key space, ascending runs) is applied to the map and to std BTreeMap and compared after every step; non-trivial: at least 4 keys alive at once and at least one present key deleted; distinct by choice sequence",
            assumptions: &["keys and values are byte vectors"],
            subs: vec![sub("history", 160_000, 1_500_000, history)],
        },
        Prop {
            id: "C02",
            rule: "after every step of a random history the root hash is compared with the specification's digest of the materialised tree, whose flattened content must be the model's entries, with logarithmic depth; maps of maps, changed in place, and maps of hashes the same way (of maps); non-trivial: at least 3 entries at the end (of maps: a map inside with two); distinct by choice sequence",
            assumptions: &["SHA-256 (sha2 crate) is trusted"],
            subs: vec![sub("commitment", 75_000, 800_000, commitment), sub("of maps", 15_000, 300_000, of_maps)],
        },
        Prop {
            id: "C03",
            rule: "witnesses of keys, ranges, prefixes and key sets asked of maps grown by random histories, with probe keys on and around the stored ones, judged by a reference lookup on the view; nested witnesses of maps of maps (of maps); non-trivial: the map has at least 3 entries (of maps: a map inside with two); distinct by choice sequence",
            assumptions: &["first <= last for range witnesses"],
            subs: vec![sub("witness", 200_000, 2_000_000, witnesses), sub("of maps", 20_000, 400_000, inner_witnesses)],
        },
    ]
}
