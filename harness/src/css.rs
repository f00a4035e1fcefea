//! An independent reading of selectors, stylesheets and the cascade.
use crate::doc::*;
use crate::values;
use std::collections::BTreeMap;

pub struct Node<'a> {
    pub x: &'a X,
    pub parent: Option<usize>,
    pub kids: Vec<usize>,
    /// Place among the element siblings
    pub pos: usize,
}

pub struct Tree<'a> {
    pub nodes: Vec<Node<'a>>,
}

impl<'a> Tree<'a> {
    /// Indexes the elements below (and including) `root`, in document order.
    pub fn new(root: &'a X) -> Self {
        fn go<'a>(x: &'a X, parent: Option<usize>, pos: usize, t: &mut Vec<Node<'a>>) -> usize {
            let me = t.len();
            t.push(Node { x, parent, kids: vec![], pos });
            let kids: Vec<usize> = x.els().enumerate().map(|(i, c)| go(c, Some(me), i, t)).collect();
            t[me].kids = kids;
            me
        }
        let mut nodes = vec![];
        go(root, None, 0, &mut nodes);
        Tree { nodes }
    }
    pub fn siblings(&self, i: usize) -> &[usize] {
        match self.nodes[i].parent {
            Some(p) => &self.nodes[p].kids,
            None => std::slice::from_ref(&ROOT),
        }
    }
    pub fn by_id(&self, id: &str) -> Option<usize> {
        (0..self.nodes.len()).find(|i| self.nodes[*i].x.attr("id") == Some(id))
    }
}
static ROOT: usize = 0;

#[derive(Clone, Debug, PartialEq)]
pub enum Simple {
    Any,
    Tag(String),
    Id(String),
    Class(String),
    /// name, operator (`=`, `~=`, `|=`, `^=`, `$=`, `*=` or none), value
    Attr(String, String, String),
    Not(Vec<Selector>),
    Is(Vec<Selector>),
    Where(Vec<Selector>),
    /// a and b of an+b, from the end, of type
    Nth(i64, i64, bool, bool),
    /// Of type
    Only(bool),
    Empty,
    Root,
    /// A state that never holds here, such as `:hover`
    Never(String),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Selector {
    /// Compounds with the combinator that precedes each
    pub parts: Vec<(char, Vec<Simple>)>,
}

pub type Spec = (u32, u32, u32);

impl Selector {
    pub fn specificity(&self) -> Spec {
        let mut s = (0, 0, 0);
        for simple in self.parts.iter().flat_map(|p| &p.1) {
            let a = match simple {
                Simple::Any | Simple::Where(_) => (0, 0, 0),
                Simple::Tag(_) => (0, 0, 1),
                Simple::Id(_) => (1, 0, 0),
                Simple::Not(l) | Simple::Is(l) => l.iter().map(Selector::specificity).max().unwrap_or_default(),
                _ => (0, 1, 0),
            };
            s = (s.0 + a.0, s.1 + a.1, s.2 + a.2);
        }
        s
    }

    pub fn matches(&self, t: &Tree, i: usize) -> bool {
        fn go(parts: &[(char, Vec<Simple>)], t: &Tree, i: usize) -> bool {
            let Some((last, rest)) = parts.split_last() else { return true };
            if !last.1.iter().all(|s| simple(s, t, i)) {
                return false;
            }
            if rest.is_empty() {
                return true;
            }
            let prev = |j: usize| t.nodes[j].pos.checked_sub(1).map(|p| t.siblings(j)[p]);
            match last.0 {
                '>' => t.nodes[i].parent.is_some_and(|p| go(rest, t, p)),
                '+' => prev(i).is_some_and(|p| go(rest, t, p)),
                '~' => {
                    let mut j = prev(i);
                    while let Some(k) = j {
                        if go(rest, t, k) {
                            return true;
                        }
                        j = prev(k);
                    }
                    false
                }
                _ => {
                    let mut j = t.nodes[i].parent;
                    while let Some(k) = j {
                        if go(rest, t, k) {
                            return true;
                        }
                        j = t.nodes[k].parent;
                    }
                    false
                }
            }
        }
        go(&self.parts, t, i)
    }
}

fn simple(s: &Simple, t: &Tree, i: usize) -> bool {
    let n = &t.nodes[i];
    match s {
        Simple::Any => true,
        Simple::Tag(name) => n.x.name() == name,
        Simple::Id(id) => n.x.attr("id") == Some(id),
        Simple::Class(c) => n.x.attr("class").is_some_and(|v| v.split([' ', '\t', '\n', '\r', '\x0c']).any(|w| w == c)),
        Simple::Attr(name, op, want) => n.x.attr(name).is_some_and(|v| match op.as_str() {
            "" => true,
            "=" => v == want,
            "~=" => !want.is_empty() && v.split([' ', '\t', '\n', '\r', '\x0c']).any(|w| w == want),
            "|=" => v == want || v.strip_prefix(want.as_str()).is_some_and(|r| r.starts_with('-')),
            "^=" => !want.is_empty() && v.starts_with(want.as_str()),
            "$=" => !want.is_empty() && v.ends_with(want.as_str()),
            "*=" => !want.is_empty() && v.contains(want.as_str()),
            _ => false,
        }),
        Simple::Not(l) => !l.iter().any(|s| s.matches(t, i)),
        Simple::Is(l) | Simple::Where(l) => l.iter().any(|s| s.matches(t, i)),
        Simple::Nth(a, b, from_end, of_type) => {
            let sib = t.siblings(i);
            let same = |j: &usize| !of_type || t.nodes[*j].x.name() == n.x.name() && t.nodes[*j].x.ns() == n.x.ns();
            let k = if *from_end { sib[n.pos..].iter().filter(|j| same(j)).count() } else { sib[..=n.pos].iter().filter(|j| same(j)).count() } as i64;
            if *a == 0 { k == *b } else { (k - b) % a == 0 && (k - b) / a >= 0 }
        }
        Simple::Only(of_type) => t.siblings(i).iter().filter(|j| !of_type || t.nodes[**j].x.name() == n.x.name() && t.nodes[**j].x.ns() == n.x.ns()).count() == 1,
        Simple::Empty => n.x.children().iter().all(|c| matches!(c, X::Comment(_) | X::Pi(..)) || matches!(c, X::Text(t) if t.is_empty())),
        Simple::Root => n.parent.is_none(),
        Simple::Never(s) => other_conditions() && matches!(s.as_str(), "hover" | "focus" | "active"),
    }
}

pub fn parse_list(s: &str) -> Option<Vec<Selector>> {
    split_list(s).iter().map(|s| parse_selector(s)).collect()
}

fn split_list(s: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let (mut depth, mut quote) = (0i32, None);
    for c in s.chars() {
        match (quote, c) {
            (Some(q), c) if c == q => quote = None,
            (Some(_), _) => {}
            (None, '"' | '\'') => quote = Some(c),
            (None, '(' | '[') => depth += 1,
            (None, ')' | ']') => depth -= 1,
            _ => {}
        }
        if c == ',' && depth == 0 && quote.is_none() {
            out.push(String::new());
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out
}

fn ident(c: &[char], i: &mut usize) -> Option<String> {
    let mut s = String::new();
    while *i < c.len() {
        let ch = c[*i];
        if ch.is_alphanumeric() || ch == '-' || ch == '_' || !ch.is_ascii() {
            s.push(ch);
        } else if ch == '\\' && *i + 1 < c.len() {
            *i += 1;
            s.push(c[*i]);
        } else {
            break;
        }
        *i += 1;
    }
    (!s.is_empty()).then_some(s)
}

pub fn parse_selector(s: &str) -> Option<Selector> {
    let c: Vec<char> = s.trim().chars().collect();
    let mut i = 0;
    let mut sel = Selector::default();
    let mut comb = ' ';
    while i < c.len() {
        let mut parts = vec![];
        while i < c.len() {
            match c[i] {
                '*' => {
                    i += 1;
                    parts.push(Simple::Any);
                }
                '#' => {
                    i += 1;
                    parts.push(Simple::Id(ident(&c, &mut i)?));
                }
                '.' => {
                    i += 1;
                    parts.push(Simple::Class(ident(&c, &mut i)?));
                }
                '[' => {
                    let end = c[i..].iter().position(|x| *x == ']')? + i;
                    let body: String = c[i + 1..end].iter().collect();
                    i = end + 1;
                    let at = body.find('=');
                    parts.push(match at {
                        None => Simple::Attr(body.trim().into(), String::new(), String::new()),
                        Some(p) => {
                            let opc = body[..p].chars().last().filter(|c| "~|^$*".contains(*c));
                            let (name, op) = match opc {
                                Some(o) => (&body[..p - 1], format!("{o}=")),
                                None => (&body[..p], "=".to_string()),
                            };
                            Simple::Attr(name.trim().into(), op, body[p + 1..].trim().trim_matches(['"', '\'']).into())
                        }
                    });
                }
                ':' => {
                    i += 1;
                    let name = ident(&c, &mut i)?;
                    let arg = if c.get(i) == Some(&'(') {
                        let mut d = 0;
                        let st = i + 1;
                        loop {
                            match c.get(i)? {
                                '(' => d += 1,
                                ')' => d -= 1,
                                _ => {}
                            }
                            i += 1;
                            if d == 0 {
                                break;
                            }
                        }
                        Some(c[st..i - 1].iter().collect::<String>())
                    } else {
                        None
                    };
                    parts.push(match (name.as_str(), arg) {
                        ("not", Some(a)) => Simple::Not(parse_list(&a)?),
                        ("is", Some(a)) => Simple::Is(parse_list(&a)?),
                        ("where", Some(a)) => Simple::Where(parse_list(&a)?),
                        ("first-child", None) => Simple::Nth(0, 1, false, false),
                        ("last-child", None) => Simple::Nth(0, 1, true, false),
                        ("first-of-type", None) => Simple::Nth(0, 1, false, true),
                        ("last-of-type", None) => Simple::Nth(0, 1, true, true),
                        ("only-child", None) => Simple::Only(false),
                        ("only-of-type", None) => Simple::Only(true),
                        ("nth-child", Some(a)) => nth(&a, false, false)?,
                        ("nth-last-child", Some(a)) => nth(&a, true, false)?,
                        ("nth-of-type", Some(a)) => nth(&a, false, true)?,
                        ("nth-last-of-type", Some(a)) => nth(&a, true, true)?,
                        ("empty", None) => Simple::Empty,
                        ("root", None) => Simple::Root,
                        (n, None) => Simple::Never(n.into()),
                        _ => return None,
                    });
                }
                ch if ch.is_alphanumeric() || ch == '_' || ch == '-' || !ch.is_ascii() => parts.push(Simple::Tag(ident(&c, &mut i)?)),
                _ => break,
            }
        }
        if parts.is_empty() {
            return None;
        }
        sel.parts.push((comb, parts));
        comb = ' ';
        while i < c.len() && (c[i].is_whitespace() || ">+~".contains(c[i])) {
            if !c[i].is_whitespace() {
                comb = c[i];
            }
            i += 1;
        }
    }
    (!sel.parts.is_empty()).then_some(sel)
}

fn nth(a: &str, from_end: bool, of_type: bool) -> Option<Simple> {
    let a: String = a.chars().filter(|c| !c.is_whitespace()).collect();
    let (x, y) = match a.as_str() {
        "odd" => (2, 1),
        "even" => (2, 0),
        a => match a.split_once('n') {
            None => (0, a.parse().ok()?),
            Some((k, b)) => (
                match k {
                    "" | "+" => 1,
                    "-" => -1,
                    k => k.parse().ok()?,
                },
                if b.is_empty() { 0 } else { b.parse().ok()? },
            ),
        },
    };
    Some(Simple::Nth(x, y, from_end, of_type))
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub selectors: Vec<Selector>,
    pub decls: Vec<(String, String, bool)>,
}

/// Reads style rules. Rules under `@media` are kept when they apply to a screen; other at-rules are skipped.
pub fn parse_sheet(s: &str) -> Vec<Rule> {
    rules(s, &|m| media_applies(m).then_some(false)).into_iter().map(|r| r.1).collect()
}

/// Reads style rules, telling whether each is under a media query.
pub fn parse_sheet_all(s: &str) -> Vec<(bool, Rule)> {
    rules(s, &|_| Some(true))
}

fn rules(s: &str, media: &dyn Fn(&str) -> Option<bool>) -> Vec<(bool, Rule)> {
    let mut out = vec![];
    let s = strip_comments(s);
    let mut rest = s.as_str();
    loop {
        rest = rest.trim_start();
        if rest.is_empty() {
            break;
        }
        let Some(open) = rest.find(['{', ';']) else { break };
        if rest.as_bytes()[open] == b';' {
            rest = &rest[open + 1..];
            continue;
        }
        let head = rest[..open].trim().to_string();
        let mut depth = 0;
        let mut end = rest.len();
        for (i, c) in rest[open..].char_indices() {
            match c {
                '{' => depth += 1,
                '}' => {
                    depth -= 1;
                    if depth == 0 {
                        end = open + i;
                        break;
                    }
                }
                _ => {}
            }
        }
        let body = &rest[open + 1..end];
        rest = rest.get(end + 1..).unwrap_or("");
        if let Some(query) = head.strip_prefix("@media") {
            if let Some(conditional) = media(query) {
                out.extend(rules(body, media).into_iter().map(|r| (conditional, r.1)));
            }
        } else if !head.starts_with('@') {
            if let Some(selectors) = parse_list(&head) {
                out.push((false, Rule { selectors, decls: values::declarations(body) }));
            }
        }
    }
    out
}

pub fn media_applies(m: &str) -> bool {
    let m = m.trim().to_ascii_lowercase();
    let medium = if other_conditions() { "print" } else { "screen" };
    m.is_empty() || m.split(',').any(|q| q.trim() == "all" || q.trim().trim_start_matches("only ") == medium)
}

thread_local! {
    static OTHER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn other_conditions() -> bool {
    OTHER.get()
}

/// Does something as if printed, with the pointer on everything, rather than on an untouched screen.
pub fn under_other_conditions<T>(f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            OTHER.set(false);
        }
    }
    let _back = Back;
    OTHER.set(true);
    f()
}

fn strip_comments(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(a) = rest.find("/*") {
        out.push_str(&rest[..a]);
        match rest[a..].find("*/") {
            Some(b) => rest = &rest[a + b + 2..],
            None => return out,
        }
    }
    out.push_str(rest);
    out
}

pub const INHERITED: &[&str] = &[
    "fill", "stroke", "fill-opacity", "stroke-opacity", "stroke-width", "fill-rule", "clip-rule", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-dasharray", "stroke-dashoffset",
    "visibility", "color", "font-family", "font-size", "font-weight", "font-style", "text-anchor", "letter-spacing", "word-spacing", "marker-start", "marker-mid", "marker-end", "marker", "shape-rendering", "pointer-events", "paint-order",
    "color-interpolation", "cursor", "direction", "writing-mode", "text-rendering", "image-rendering",
];

pub const PROPERTIES: &[&str] = &[
    "fill", "stroke", "fill-opacity", "stroke-opacity", "stroke-width", "fill-rule", "clip-rule", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-dasharray", "stroke-dashoffset",
    "visibility", "color", "font-family", "font-size", "font-weight", "font-style", "text-anchor", "letter-spacing", "word-spacing", "marker-start", "marker-mid", "marker-end", "shape-rendering", "pointer-events", "paint-order",
    "opacity", "display", "overflow", "clip-path", "mask", "filter", "stop-color", "stop-opacity", "flood-color", "flood-opacity", "lighting-color", "text-decoration", "dominant-baseline", "alignment-baseline", "baseline-shift",
    "vector-effect", "mix-blend-mode", "isolation", "color-interpolation", "cursor", "direction", "writing-mode", "text-rendering", "image-rendering", "unicode-bidi", "clip", "enable-background",
];

pub type Style = BTreeMap<String, String>;

/// The stylesheet of a document: every `style` element in order.
pub fn sheet(t: &Tree) -> Vec<Rule> {
    let mut rules = vec![];
    for n in &t.nodes {
        if n.x.name() == "style" && n.x.ns() == SVG {
            let css = n.x.attr("type").is_none_or(|t| t.is_empty() || t == "text/css");
            if css && n.x.attr("media").is_none_or(media_applies) {
                rules.extend(parse_sheet(&n.x.raw_text()));
            }
        }
    }
    rules
}

/// What the cascade gives each element, before inheritance.
pub fn specified(t: &Tree, rules: &[Rule], i: usize) -> Style {
    let x = t.nodes[i].x;
    // (important, level, specificity) of the winner so far
    let mut won: BTreeMap<String, ((bool, u8, Spec), String)> = BTreeMap::new();
    let mut put = |name: &str, key: (bool, u8, Spec), value: &str| {
        let e = won.get(name);
        if e.is_none_or(|e| e.0 <= key) {
            won.insert(name.to_string(), (key, value.to_string()));
        }
    };
    if let X::El { attrs, .. } = x {
        for ((ns, name), v) in attrs {
            if ns.is_empty() && PROPERTIES.contains(&name.as_str()) {
                put(name, (false, 0, (0, 0, 0)), v.trim());
            }
        }
    }
    for r in rules {
        let spec = r.selectors.iter().filter(|s| s.matches(t, i)).map(Selector::specificity).max();
        if let Some(spec) = spec {
            for (n, v, imp) in &r.decls {
                put(n, (*imp, 1, spec), v);
            }
        }
    }
    if let Some(s) = x.attr("style") {
        for (n, v, imp) in values::declarations(s) {
            put(&n, (imp, 2, (0, 0, 0)), &v);
        }
    }
    won.into_iter().map(|(k, v)| (k, v.1)).collect()
}

/// Computes an element's style given its parent's.
pub fn computed(spec: &Style, parent: Option<&Style>) -> Style {
    let mut out = Style::new();
    if let Some(p) = parent {
        for n in INHERITED {
            if let Some(v) = p.get(*n) {
                out.insert((*n).to_string(), v.clone());
            }
        }
    }
    for (n, v) in spec {
        if v == "inherit" {
            match parent.and_then(|p| p.get(n)) {
                Some(v) => out.insert(n.clone(), v.clone()),
                None => out.remove(n),
            };
        } else {
            out.insert(n.clone(), v.clone());
        }
    }
    out
}
