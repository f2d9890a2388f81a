//! C15 JSON output; oracle: serde_json, an independent parser.
use super::c16::{snapshot_of, tree, Item};
use crate::engine::*;
use crate::{ensure, ensure_eq};
use metrix::snapshot::*;
use proptest::prelude::*;
use serde::de::{MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    tree: Vec<(String, Item)>,
    ints: bool,
    indent: Option<u16>,
}

/// parsed JSON that keeps order and duplicate keys
#[derive(Debug, Clone, PartialEq)]
enum J {
    Null,
    B(bool),
    U(u64),
    I(i64),
    F(f64),
    S(String),
    A(usize),
    O(Vec<(String, J)>),
}
impl<'de> Deserialize<'de> for J {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<J, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = J;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "JSON")
            }
            fn visit_unit<E>(self) -> Result<J, E> {
                Ok(J::Null)
            }
            fn visit_bool<E>(self, v: bool) -> Result<J, E> {
                Ok(J::B(v))
            }
            fn visit_u64<E>(self, v: u64) -> Result<J, E> {
                Ok(J::U(v))
            }
            fn visit_i64<E>(self, v: i64) -> Result<J, E> {
                Ok(J::I(v))
            }
            fn visit_f64<E>(self, v: f64) -> Result<J, E> {
                Ok(J::F(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<J, E> {
                Ok(J::S(v.to_string()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
                let mut n = 0;
                while a.next_element::<J>()?.is_some() {
                    n += 1;
                }
                Ok(J::A(n))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
                let mut v = Vec::new();
                while let Some(e) = a.next_entry::<String, J>()? {
                    v.push(e);
                }
                Ok(J::O(v))
            }
        }
        d.deserialize_any(V)
    }
}

fn number(j: &J, want: f64) -> bool {
    match j {
        J::F(v) => *v == want || v.to_bits() == want.to_bits(),
        J::U(v) => *v as f64 == want,
        J::I(v) => *v as f64 == want,
        _ => false,
    }
}

/// Does `j` represent `i`? Equal names on one level can only appear once in
/// an object; any of their values is accepted then.
fn represents(j: &J, i: &Item, ints: bool, at: &str) -> Res {
    let ok = match (i, j) {
        (Item::Text(s), J::S(t)) => s == t,
        (Item::B(b), J::B(c)) if !ints => b == c,
        (Item::B(b), J::U(v)) if ints => *v == u64::from(*b),
        (Item::F(f), J::Null) => !f.get().is_finite(),
        (Item::F(f), n) => f.get().is_finite() && number(n, f.get()),
        (Item::U(v), J::U(w)) => v == w,
        (Item::I(v), J::I(w)) => v == w,
        (Item::I(v), J::U(w)) => *v >= 0 && *v as u64 == *w,
        (Item::S(l), J::O(m)) => return object(m, l, ints, at),
        _ => false,
    };
    ensure!(ok, "at {:?}: {:?} became {:?}", at, i, j);
    Ok(())
}

fn object(m: &[(String, J)], l: &[(String, Item)], ints: bool, at: &str) -> Res {
    // names in order of first appearance
    let mut order: Vec<&String> = Vec::new();
    for (n, _) in l {
        if !order.contains(&n) {
            order.push(n);
        }
    }
    let got: Vec<&String> = m.iter().map(|x| &x.0).collect();
    ensure_eq!(got, order, "at {:?}: names", at);
    for (n, j) in m {
        let mut res = Ok(());
        for (_, i) in l.iter().filter(|x| &x.0 == n) {
            res = represents(j, i, ints, &format!("{}/{}", at, n));
            if res.is_ok() {
                break;
            }
        }
        res?;
    }
    Ok(())
}

/// removes white space outside of strings
fn strip(s: &str) -> String {
    let (mut out, mut inside, mut esc) = (String::new(), false, false);
    for c in s.chars() {
        if inside {
            out.push(c);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                inside = false;
            }
        } else if c == '"' {
            inside = true;
            out.push(c);
        } else if !matches!(c, ' ' | '\n' | '\r' | '\t') {
            out.push(c);
        }
    }
    out
}

fn lines(j: &J) -> usize {
    match j {
        J::O(m) if !m.is_empty() => 2 + m.iter().map(|x| lines(&x.1)).sum::<usize>(),
        _ => 1,
    }
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let s = snapshot_of(&c.tree);
    let text = s.to_json(&JsonConfig { make_booleans_ints: c.ints, pretty: c.indent });
    let j: J = serde_json::from_str(&text).map_err(|e| format!("invalid JSON: {}: {:?}", e, text))?;
    let J::O(m) = &j else { return Err(format!("not an object: {}", text)) };
    object(m, &c.tree, c.ints, "")?;
    let compact = s.to_json(&JsonConfig { make_booleans_ints: c.ints, pretty: None });
    ensure_eq!(strip(&text), strip(&compact), "pretty printing changes more than white space");
    ensure_eq!(s.to_default_json(), s.to_json(&JsonConfig::default()), "default output");
    ensure_eq!(s.to_default_json(), s.to_json(&JsonConfig { make_booleans_ints: false, pretty: None }), "default configuration");
    if let Some(n) = c.indent {
        // each entry has a line of its own, indented by its level
        let mut level = 0usize;
        for l in text.lines() {
            let bare = l.trim_start_matches(' ');
            if bare.starts_with('}') {
                level = level.saturating_sub(1);
            }
            ensure!(l.len() - bare.len() == level * n as usize, "{:?} is indented by {}, expected {} times {}", l, l.len() - bare.len(), level, n);
            // (in strings there are no braces at the end of a line)
            if bare.ends_with('{') {
                level += 1;
            }
        }
        ensure!(text.lines().count() == lines(&j), "{} lines instead of {}", text.lines().count(), lines(&j));
        o.label("pretty");
    }
    fn depth(l: &[(String, Item)]) -> usize {
        1 + l.iter().map(|(_, i)| if let Item::S(l) = i { depth(l) } else { 0 }).max().unwrap_or(0)
    }
    o.nontrivial_if(c.tree.len() > 1 || depth(&c.tree) > 1);
    o.label_if(depth(&c.tree) > 2, "three or more levels");
    Ok(())
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9 _.-]{0,8}",
        3 => "\\PC{0,8}",
        2 => proptest::collection::vec(any::<char>(), 0..8).prop_map(|v| v.into_iter().collect::<String>()),
        2 => "[\"\\\\/\u{0}-\u{1f}\u{7f}\u{2028}\u{2029}\u{feff}a]{0,6}",
        1 => prop_oneof![Just("\u{10ffff}".to_string()), Just("\\u0041".to_string()), Just("null".to_string()), Just("\u{d7ff}\u{e000}".to_string())],
        1 => "[a-z\"\\\\\n]{30,80}",
    ]
    .boxed()
}

fn case() -> impl Strategy<Value = Case> {
    (
        prop_oneof![tree("[a-e]{1,2}", text()), tree(text(), text())],
        any::<bool>(),
        prop_oneof![2 => Just(None), 2 => (0u16..9).prop_map(Some), 1 => any::<u8>().prop_map(|v| Some(v as u16))],
    )
        .prop_map(|(tree, ints, indent)| Case { tree, ints, indent })
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "parse-back",
        "trees up to depth 6 of all item kinds with arbitrary names and strings, every JSON configuration, parsed by serde_json; non-trivial: more than one entry or level",
        Clock::Local,
        50_000,
        600_000,
        case,
        check,
    )]
}
