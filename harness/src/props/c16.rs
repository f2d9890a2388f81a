//! C16 path lookup.
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq};
use metrix::snapshot::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// a snapshot that can be generated, shrunk and stored
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Item {
    Text(String),
    B(bool),
    F(F),
    U(u64),
    I(i64),
    S(Vec<(String, Item)>),
}
impl Item {
    pub fn kind(&self) -> ItemKind {
        match self {
            Item::Text(s) => ItemKind::Text(s.clone()),
            Item::B(b) => ItemKind::Boolean(*b),
            Item::F(f) => ItemKind::Float(f.get()),
            Item::U(v) => ItemKind::UInt(*v),
            Item::I(v) => ItemKind::Int(*v),
            Item::S(v) => ItemKind::Snapshot(snapshot_of(v)),
        }
    }
}
pub fn snapshot_of(v: &[(String, Item)]) -> Snapshot {
    Snapshot { items: v.iter().map(|(n, i)| (n.clone(), i.kind())).collect() }
}

pub fn tree<N: Strategy<Value = String> + Clone + 'static>(name: N, text: BoxedStrategy<String>) -> BoxedStrategy<Vec<(String, Item)>> {
    let leaf = prop_oneof![
        2 => text.prop_map(Item::Text),
        1 => any::<bool>().prop_map(Item::B),
        2 => any_f64().prop_map(Item::F),
        2 => any_u64().prop_map(Item::U),
        2 => any_i64().prop_map(Item::I),
    ];
    let n = name.clone();
    let item = leaf.prop_recursive(5, 60, 6, move |inner| vec((n.clone(), inner), 0..6).prop_map(Item::S));
    let (n1, n2) = (name.clone(), name.clone());
    let usual = vec((name, item), 0..7).boxed();
    prop_oneof![
        20 => usual.clone(),
        // very deep, with siblings before and after
        1 => (usual.clone(), vec((n1, any::<u8>()), 8..100)).prop_map(|(mut t, levels)| {
            for (i, (n, at)) in levels.into_iter().enumerate() {
                let deep = (n, Item::S(std::mem::take(&mut t)));
                t = (0..at % 3).map(|k| (format!("s{}", k), Item::U(i as u64))).collect();
                t.insert(at as usize / 3 % (t.len() + 1), deep);
            }
            t
        }),
        // very wide: the same items again and again, most of them renamed
        1 => (usual.clone(), 10u16..600, any::<u8>()).prop_map(|(t, n, m)| {
            let m = m as usize % 5 + 1;
            (0..n as usize).filter_map(|i| t.get(i % t.len().max(1)).map(|(k, v)| (if i % m == 0 { k.clone() } else { format!("{}{}", k, i) }, v.clone()))).collect()
        }),
        // very long texts
        1 => (usual, n2, prop_oneof!["[a-z ]{1,6}", "\\PC{1,6}", "[\"\\\\\n]{1,3}"], prop_oneof![1usize..200, 200usize..70_000]).prop_map(|(mut t, n, s, len)| {
            t.push((n, Item::Text(s.chars().cycle().take(len).collect())));
            t
        }),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    tree: Vec<(String, Item)>,
    sep: char,
    paths: Vec<PathGen>,
}

/// Walk down the tree by `steps` (indices), then append `tail`, with empty
/// segments inserted where `empties` says so.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct PathGen {
    steps: Vec<u8>,
    tail: Vec<String>,
    empties: Vec<u8>,
    split: u8,
}

fn name(sepish: bool) -> BoxedStrategy<String> {
    if sepish {
        prop_oneof![6 => "[abc]{1,2}", 1 => "[a-c/.]{0,3}", 1 => Just("".to_string()), 1 => Just("ä€".to_string()), 1 => "\\PC{0,3}"].boxed()
    } else {
        prop_oneof![6 => "[abc]{1,2}", 1 => Just("ä€".to_string()), 1 => "[A-Za-z0-9 _-]{1,8}"].boxed()
    }
}

fn case() -> impl Strategy<Value = Case> {
    let path = (prop_oneof![20 => vec(any::<u8>(), 0..7), 2 => vec(any::<u8>(), 7..110)], vec(name(true), 0..3), vec(0u8..12, 0..4), 0u8..7)
        .prop_map(|(steps, tail, empties, split)| PathGen { steps, tail, empties, split });
    (
        prop_oneof![tree(name(false), "[a-z]{0,5}".boxed()), tree(name(true), "[a-z]{0,5}".boxed())],
        prop_oneof![4 => Just('/'), 1 => Just('.'), 1 => Just('a'), 1 => Just('€'), 1 => any::<char>()],
        vec(path, 1..6),
    )
        .prop_map(|(tree, sep, paths)| Case { tree, sep, paths })
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Want<'a> {
    Missing,
    Level(&'a [(String, Item)]),
    Leaf(&'a Item),
}
impl<'a> Want<'a> {
    fn agrees(&self, f: &FindItem) -> bool {
        match (self, f) {
            (Want::Missing, FindItem::NotFound) => true,
            (Want::Level(l), FindItem::Found(ItemKind::Snapshot(s))) => same_snap(s, &snapshot_of(l)),
            (Want::Leaf(i), FindItem::Found(k)) => same_item(k, &i.kind()),
            _ => false,
        }
    }
}
impl PartialEq for Item {
    fn eq(&self, other: &Item) -> bool {
        same_item(&self.kind(), &other.kind())
    }
}

/// the reference: walk the generated tree
fn walk<'a>(level: &'a [(String, Item)], segs: &[&str]) -> Want<'a> {
    let segs: Vec<&str> = segs.iter().copied().filter(|s| !s.is_empty()).collect();
    let mut cur = Want::Level(level);
    for s in &segs {
        match cur {
            Want::Level(l) => {
                cur = match l.iter().find(|(n, _)| n == s) {
                    None => return Want::Missing,
                    Some((_, Item::S(l))) => Want::Level(l),
                    Some((_, leaf)) => Want::Leaf(leaf),
                }
            }
            other => return other,
        }
    }
    cur
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let snap = snapshot_of(&c.tree);
    let root = ItemKind::Snapshot(snap.clone());
    for p in &c.paths {
        // build the segments
        let mut segs: Vec<String> = Vec::new();
        let mut cur: Option<&Vec<(String, Item)>> = Some(&c.tree);
        for st in &p.steps {
            match cur {
                Some(l) if !l.is_empty() => {
                    let (n, i) = &l[*st as usize % l.len()];
                    segs.push(n.clone());
                    cur = match i {
                        Item::S(l) => Some(l),
                        _ => None,
                    };
                }
                _ => break,
            }
        }
        segs.extend(p.tail.iter().cloned());
        let real_len = segs.len();
        for e in &p.empties {
            let k = *e as usize % (segs.len() + 1);
            segs.insert(k, String::new());
        }
        let refs: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();

        // lookup by segments
        let want = walk(&c.tree, &refs);
        let got = find_item(&root, &refs);
        ensure!(want.agrees(&got), "find_item {:?}: got {:?}, expected {:?}", refs, got, want);

        // lookup by path: segments are what the separator makes of it
        let path = refs.join(&c.sep.to_string());
        let split: Vec<&str> = path.split(c.sep).collect();
        let empty = split.iter().all(|s| s.is_empty());
        let want_p = if empty { Want::Missing } else { walk(&c.tree, &split) };
        let got_p = snap.find_with_separator(&path, c.sep);
        ensure!(want_p.agrees(&got_p), "find {:?} separated by {:?}: got {:?}, expected {:?}", path, c.sep, got_p, want_p);
        let found_root = FindItem::Found(&root);
        let got_f = found_root.find_with_separator(&path, c.sep);
        ensure!(want_p.agrees(&got_f), "FindItem::find {:?}: got {:?}, expected {:?}", path, got_f, want_p);
        ensure_eq!(got_p.opt().is_some(), !matches!(got_p, FindItem::NotFound), "opt");
        if c.sep == '/' {
            ensure!(want_p.agrees(&snap.find(&path)), "find {:?}: got {:?}, expected {:?}", path, snap.find(&path), want_p);
            ensure!(want_p.agrees(&found_root.find(&path)), "FindItem::find {:?}: got {:?}, expected {:?}", path, found_root.find(&path), want_p);
        }
        ensure!(FindItem::NotFound.find_with_separator(&path, c.sep) == FindItem::NotFound, "lookup from nothing found something");

        // in two steps: first a prefix, then the rest from what was found
        let k = p.split as usize % (split.len() + 1);
        let first = split[..k].join(&c.sep.to_string());
        let rest = split[k..].join(&c.sep.to_string());
        if !split[..k].iter().all(|s| s.is_empty()) && !split[k..].iter().all(|s| s.is_empty()) {
            let mid = snap.find_with_separator(&first, c.sep);
            let two = mid.find_with_separator(&rest, c.sep);
            match mid {
                FindItem::Found(ItemKind::Snapshot(_)) => {
                    ensure!(want_p.agrees(&two), "lookup in two steps {:?} {:?}: got {:?}, expected {:?}", first, rest, two, want_p);
                    o.label("lookup in two steps");
                }
                _ => ensure!(two == FindItem::NotFound, "lookup below something that is no level found {:?}", two),
            }
        }
        match want_p {
            Want::Missing => o.label("missing"),
            Want::Level(_) => o.label("found a level"),
            Want::Leaf(_) if real_len > 1 => o.label("found a nested value"),
            Want::Leaf(_) => o.label("found a value"),
        }
        o.nontrivial_if(!matches!(want_p, Want::Missing) && real_len > 1);
    }
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "reference-walk",
        "trees up to depth 6 with equal, odd and empty names; up to 5 paths each, walking existing names, with empty and extra segments, any separator; non-trivial: a found item on a path of more than one segment",
        Clock::Local,
        80_000,
        800_000,
        case,
        check,
    )]
}
