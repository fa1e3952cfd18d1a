//! C07: reading (partial) hash trees.
use crate::{engine::*, ensure, util::{http::gen_text, *}};
use ic_certification as ic;
use ic_certification::hash_tree::{HashTree, LookupResult, SubtreeLookupResult};
use std::borrow::Cow;

fn as_l(r: LookupResult) -> L {
    match r {
        LookupResult::Absent => L::Absent,
        LookupResult::Unknown => L::Unknown,
        LookupResult::Found(v) => L::Found(v.to_vec()),
        LookupResult::Error => L::Error,
    }
}

fn lookup(cx: &mut Cx) -> Res {
    let empties = cx.chance(1, 2);
    let depth = cx.range(1, 3);
    let full = gen_tree(cx, depth, empties);
    let cut = *cx.pick(&[2u64, 4, 6, 0]);
    let view = full.prune(cx, cut);
    cx.note(|| format!("view {view:?}"));
    let tree = view.to_ic();
    ensure!(tree.digest() == full.digest(), "digest", "the digest of a view is not that of the tree");
    let cb = view.cbor();
    let slice: HashTree<&[u8]> = serde_cbor::from_slice(&cb).or_else(|e| fail("decode", format!("{e}")))?;
    let cow: HashTree<Cow<[u8]>> = serde_cbor::from_slice(&cb).or_else(|e| fail("decode", format!("{e}")))?;
    if view.pruned_nodes() > 0 && view.all_paths().len() >= 2 {
        cx.nontrivial();
    }
    for _ in 0..cx.range(1, 6) {
        let mut p = gen_path(cx, &full);
        if !p.is_empty() && cx.chance(1, 6) {
            let i = cx.draw(p.len() as u64) as usize;
            if cx.bool() {
                p[i].push(0);
            } else {
                p[i].pop();
            }
        }
        let want = view.lookup(&p);
        let got = as_l(tree.lookup_path(&p));
        cx.note(|| format!("lookup {} = {got:?}", show_path(&p)));
        ensure!(got == want, "lookup", "lookup_path({}) = {got:?}, the specification says {want:?}, in {view:?}", show_path(&p));
        ensure!(as_l(slice.lookup_path(&p)) == want, "lookup-slice", "lookup_path({}) on borrowed storage", show_path(&p));
        ensure!(as_l(cow.lookup_path(&p)) == want, "lookup-cow", "lookup_path({}) on cow storage", show_path(&p));
        match &got {
            L::Found(_) => cx.label("found"),
            L::Absent => cx.label("absent"),
            L::Unknown => cx.label("unknown"),
            L::Error => cx.label("error"),
        }
        // whatever the view says is true of the full tree
        if matches!(got, L::Found(_) | L::Absent) {
            ensure!(full.lookup(&p) == got, "unsound", "the view says {got:?} for {}, the tree says {:?}", show_path(&p), full.lookup(&p));
        }
        let sub = tree.lookup_subtree(&p);
        match (sub, view.subtree(&p)) {
            (SubtreeLookupResult::Found(s), Ok(w)) => {
                ensure!(T::of_tree(&s) == *w, "subtree", "lookup_subtree({}) found {:?}", show_path(&p), T::of_tree(&s))
            }
            (SubtreeLookupResult::Absent, Err(L::Absent)) => {}
            (SubtreeLookupResult::Unknown, Err(L::Unknown)) => {}
            (s, w) => return fail("subtree", format!("lookup_subtree({}) = {s:?}, want {w:?}, in {view:?}", show_path(&p))),
        }
    }
    let paths: Vec<Vec<Vec<u8>>> = tree
        .list_paths()
        .iter()
        .map(|p| p.iter().map(|l| l.as_bytes().to_vec()).collect())
        .collect();
    ensure!(paths == view.leaf_paths(), "list_paths", "list_paths gives {paths:?}");
    Ok(())
}

/// Every forest of up to 4 items over 3 labels with pruned and empty nodes, against every label: the
/// small-scope space that the random search samples.
fn small_forests(cx: &mut Cx) -> Res {
    // items in label order; each present, pruned (with its neighbours) or empty
    let labels: [&[u8]; 3] = [b"a", b"c", b"e"];
    let mut items = vec![];
    for l in labels {
        match cx.draw(4) {
            0 => items.push(label(l, leaf(l))),
            1 => items.push(T::Pruned(label(l, leaf(l)).digest())),
            2 => items.push(T::Empty),
            _ => {}
        }
    }
    if items.iter().any(|i| matches!(i, T::Empty)) {
        cx.label("empty inside");
    }
    let t = gen_forest(cx, items, false);
    cx.key(format!("{t:?}"));
    if matches!(t, T::Fork(..)) {
        cx.nontrivial();
    }
    cx.note(|| format!("{t:?}"));
    let tree = t.to_ic();
    for want in ["", "a", "b", "c", "d", "e", "f"] {
        let p = vec![want.as_bytes().to_vec()];
        let got = as_l(tree.lookup_path(&p));
        ensure!(got == t.lookup(&p), "lookup", "lookup_path({want}) = {got:?}, the specification says {:?}, in {t:?}", t.lookup(&p));
    }
    ensure!(T::of_tree(&ic::empty()) == T::Empty, "lookup", "empty()");
    Ok(())
}

/// Labels made of whatever a label can be made of are the same, and print so that they can be told apart.
fn labels(cx: &mut Cx) -> Res {
    use ic_certification::hash_tree::Label;
    let text = gen_text(cx, 8);
    let bytes = if cx.bool() { text.clone().into_bytes() } else { gen_key(cx) };
    let l: Label<Vec<u8>> = bytes.clone().into();
    let mut all: Vec<Label<Vec<u8>>> = vec![(&bytes[..]).into(), Label::from_bytes(&bytes)];
    let slice: Label<&[u8]> = Label::from(&bytes[..]);
    let cow: Label<Cow<[u8]>> = (&bytes[..]).into();
    let (s2, c2) = (Label::<&[u8]>::from_bytes(&bytes), Label::<Cow<[u8]>>::from_bytes(&bytes));
    all.push(Label::from_label(Label::<Vec<u8>>::from(bytes.clone())));
    ensure!(slice.as_bytes() == bytes && cow.as_bytes() == bytes && s2.as_bytes() == bytes && c2.as_bytes() == bytes, "label", "borrowed labels of {} differ", hexs(&bytes));
    if let Ok(t) = std::str::from_utf8(&bytes) {
        all.push(t.into());
        all.push(t.to_string().into());
        ensure!(Label::<&[u8]>::from(t).as_bytes() == bytes && Label::<Cow<[u8]>>::from(t).as_bytes() == bytes, "label", "labels of the text {t:?} differ");
    }
    if let Ok(a) = <[u8; 4]>::try_from(&bytes[..]) {
        all.push(a.into());
        all.push((&a).into());
        ensure!(Label::<&[u8]>::from(&a).as_bytes() == bytes && Label::<Cow<[u8]>>::from(&a).as_bytes() == bytes, "label", "labels of arrays differ");
        cx.label("array");
    }
    for (i, o) in all.iter().enumerate() {
        ensure!(*o == l && o.as_bytes() == bytes && o.as_ref() == bytes, "label", "label {i} of {} is {o:?}", hexs(&bytes));
    }
    let other = gen_key(cx);
    let o: Label<Vec<u8>> = other.clone().into();
    ensure!((l == o) == (bytes == other) && l.cmp(&o) == bytes.cmp(&other), "label", "labels of {} and {} compare otherwise", hexs(&bytes), hexs(&other));
    let (shown, hex) = (l.to_string(), format!("{l:?}"));
    let graphic = bytes.iter().all(|b| b.is_ascii_graphic());
    let upper: String = bytes.iter().map(|b| format!("{b:02X}")).collect();
    ensure!(hex == upper, "label", "the label {} is printed as {hex}", hexs(&bytes));
    let want = if graphic { format!("\"{}\"", String::from_utf8_lossy(&bytes)) } else { format!("0x{upper}") };
    ensure!(shown == want, "label", "the label {} is shown as {shown}", hexs(&bytes));
    // leaves, labels and pruned nodes made of them
    let tree = ic::fork(ic::labeled(l.clone(), ic::leaf(other.clone())), ic::pruned(sha(&[&other])));
    let again = ic::fork(ic::labeled(bytes.clone(), ic::leaf(other.clone())), ic::pruned_from_hex(hex::encode(sha(&[&other]))).or_else(|e| fail("hex", e.to_string()))?);
    ensure!(tree == again && tree.digest() == again.digest(), "tree", "{tree:?} is not {again:?}");
    let cut = cx.range(0, 63);
    ensure!(ic::pruned_from_hex(&hex::encode(sha(&[&other]))[..cut]).is_err(), "hex", "{cut} digits are a digest");
    for r in [tree.lookup_path([&l]), tree.lookup_path([&bytes]), tree.lookup_path([bytes.as_slice()]), tree.lookup_path(vec![l.clone()])] {
        ensure!(r == LookupResult::Found(&other), "lookup", "{r:?} for {} in {tree:?}", hexs(&bytes));
    }
    let printed = no_panic(|| format!("{tree:?} {:#?}", tree)).or_else(|p| fail("panic", p))?;
    ensure!(printed.contains(&hex::encode(sha(&[&other]))), "debug", "{printed}");
    if bytes != other && !bytes.is_empty() {
        cx.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07",
        rule: "random sorted trees with arbitrary fork shapes, empty nodes and pruned subtrees, read at paths on and around their labels with owned, borrowed and cow storage, against the specification's find_label on the flattened forest; small-forests samples all forests over three labels; labels made in every way there is, compared, looked up and printed (labels); non-trivial: something is pruned and at least two labels are shown (a fork for small-forests, two different labels for labels); distinct by choice sequence",
        assumptions: &["labels of a forest are sorted and distinct, as in every tree the IC issues"],
        subs: vec![
            sub("lookup", 600_000, 6_000_000, lookup),
            sub("small-forests", 20_000, 100_000, small_forests),
            sub("labels", 60_000, 600_000, labels),
        ],
    }]
}
