//! What editing actions do to a document, to its selection and to the record of them.
use crate::cli;
use crate::css;
use crate::doc::*;
use crate::fw::*;
use crate::lint;
use crate::refpath::{self, Poly};
use crate::select;
use crate::xml;
use oxvg_actions::{Action, Actor, DerivedState, OXVG_XMLNS};
use oxvg_ast::parse::roxmltree::{ParsingOptions, parse_with_options};
use oxvg_ast::xmlwriter::Options;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Intersect,
    Union,
    Subtract,
    Xor,
}

#[derive(Clone, Debug, PartialEq)]
enum Act {
    Attr(String, String),
    Class(String),
    Path(Op),
    Style(String, String),
    Transform(&'static str, Vec<f32>),
    Insert(String),
    Forget,
    Select(String),
    More(String),
    Deselect,
}

impl Act {
    fn action(&self) -> Action<'static> {
        match self {
            Act::Attr(name, value) => Action::Attr { name: name.clone().into(), value: value.clone().into() },
            Act::Class(name) => Action::Class(name.clone().into()),
            Act::Path(Op::Intersect) => Action::PathIntersect,
            Act::Path(Op::Union) => Action::PathUnion,
            Act::Path(Op::Subtract) => Action::PathSubtract,
            Act::Path(Op::Xor) => Action::PathXor,
            Act::Style(property, value) => Action::Style { property: property.clone().into(), value: value.clone().into() },
            Act::Transform(f, v) => match (*f, v.as_slice()) {
                ("matrix", &[a, b, c, d, e, f]) => Action::Matrix(a, b, c, d, e, f),
                ("translate", v) => Action::Translate(v[0], v.get(1).copied()),
                ("scale", v) => Action::Scale(v[0], v.get(1).copied()),
                ("rotate", v) => Action::Rotate(v[0], v.get(1).copied().zip(v.get(2).copied())),
                ("skewX", v) => Action::SkewX(v[0]),
                (_, v) => Action::SkewY(v[0]),
            },
            Act::Insert(name) => Action::Insert(name.clone().into()),
            Act::Forget => Action::Forget,
            Act::Select(q) => Action::Select(q.clone().into()),
            Act::More(q) => Action::SelectMore(q.clone().into()),
            Act::Deselect => Action::Deselect,
        }
    }
    /// As given to the program
    fn words(&self, rng: &mut Rng) -> Vec<String> {
        match self {
            Act::Attr(n, v) => vec!["-attr".into(), n.clone(), v.clone()],
            Act::Class(n) => vec!["-class".into(), n.clone()],
            Act::Path(op) => vec![match op {
                Op::Intersect => "-path-intersect",
                Op::Union => "-path-union",
                Op::Subtract => "-path-subtract",
                Op::Xor => "-path-xor",
            }
            .into()],
            Act::Style(p, v) => vec!["-style".into(), p.clone(), v.clone()],
            Act::Transform(f, v) => std::iter::once(format!("-{f}")).chain(v.iter().map(f32::to_string)).collect(),
            Act::Insert(n) => vec![(*rng.pick(&["-insert", "-create-element"])).into(), n.clone()],
            Act::Forget => vec!["-forget".into()],
            Act::Select(q) => vec!["-select".into(), q.clone()],
            Act::More(q) => vec!["-select-more".into(), q.clone()],
            Act::Deselect => vec!["-deselect".into()],
        }
    }
    /// The name and arguments kept in the document
    fn record(&self) -> (String, Vec<String>) {
        let (name, args): (&str, Vec<String>) = match self {
            Act::Attr(n, v) => ("Attr", vec![n.clone(), v.clone()]),
            Act::Class(n) => ("Class", vec![n.clone()]),
            Act::Path(Op::Intersect) => ("PathIntersect", vec![]),
            Act::Path(Op::Union) => ("PathUnion", vec![]),
            Act::Path(Op::Subtract) => ("PathSubtract", vec![]),
            Act::Path(Op::Xor) => ("PathXor", vec![]),
            Act::Style(p, v) => ("Style", vec![p.clone(), v.clone()]),
            Act::Transform(f, v) => (
                match *f {
                    "matrix" => "Matrix",
                    "translate" => "Translate",
                    "scale" => "Scale",
                    "rotate" => "Rotate",
                    "skewX" => "SkewX",
                    _ => "SkewY",
                },
                v.iter().map(f32::to_string).collect(),
            ),
            Act::Insert(n) => ("Insert", vec![n.clone()]),
            Act::Forget => ("Forget", vec![]),
            Act::Select(q) => ("Select", vec![q.clone()]),
            Act::More(q) => ("SelectMore", vec![q.clone()]),
            Act::Deselect => ("Deselect", vec![]),
        };
        (name.into(), args)
    }
}

type Place = Vec<usize>;

fn at<'a>(root: &'a El, place: &[usize]) -> Option<&'a El> {
    let mut e = root;
    for i in place {
        let Some(Nd::El(c)) = e.children.get(*i) else { return None };
        e = c;
    }
    Some(e)
}
fn at_mut<'a>(root: &'a mut El, place: &[usize]) -> Option<&'a mut El> {
    let mut e = root;
    for i in place {
        let Some(Nd::El(c)) = e.children.get_mut(*i) else { return None };
        e = c;
    }
    Some(e)
}
/// The places of all nodes below and including the root, in order
fn places(root: &El) -> Vec<Place> {
    fn go(e: &El, at: &mut Place, out: &mut Vec<Place>) {
        out.push(at.clone());
        for (i, c) in e.children.iter().enumerate() {
            at.push(i);
            match c {
                Nd::El(c) => go(c, at, out),
                _ => out.push(at.clone()),
            }
            at.pop();
        }
    }
    let mut out = vec![];
    go(root, &mut vec![], &mut out);
    out
}

/// What is filled by merged paths
#[derive(Clone, Debug)]
struct Area {
    first: (String, bool),
    rest: Vec<(Op, String, bool)>,
}

#[derive(Clone, Debug)]
struct Model {
    root: El,
    selection: Vec<Place>,
    history: Vec<(String, Vec<String>)>,
    forgotten: bool,
    /// The fill of paths that came of merging, by the `data-area` they have
    areas: BTreeMap<String, Area>,
    effects: BTreeMap<&'static str, u64>,
}

const AREA: &str = "data-area";

impl Model {
    fn new(root: El) -> Self {
        Model { root, selection: vec![], history: vec![], forgotten: false, areas: BTreeMap::new(), effects: BTreeMap::new() }
    }
    fn query(&self, q: &str) -> Option<Vec<Place>> {
        let all = places(&self.root);
        if q.starts_with(|c: char| c.is_ascii_digit()) {
            return q.split([',', ' ']).filter(|s| !s.is_empty()).map(|s| all.get(s.parse::<usize>().ok()?.checked_sub(1)?).cloned()).collect();
        }
        let list = css::parse_list(q)?;
        let x = read_root(&Doc::of(self.root.clone()).text()).expect("harness: model");
        let tree = css::Tree::new(&x);
        let elements: Vec<Place> = all.into_iter().filter(|p| at(&self.root, p).is_some()).collect();
        Some((0..tree.nodes.len()).filter(|i| list.iter().any(|s| s.matches(&tree, *i))).map(|i| elements[i].clone()).collect())
    }
    fn select(&mut self, new: Vec<Place>, keep: bool) {
        if !keep {
            self.selection.clear();
        }
        for p in new {
            if !self.selection.contains(&p) {
                self.selection.push(p);
            }
        }
    }
    fn ids(&self) -> BTreeSet<usize> {
        let all = places(&self.root);
        self.selection.iter().map(|p| 1 + all.iter().position(|q| q == p).expect("harness: place")).collect()
    }
    fn evenodd(&self, place: &[usize]) -> bool {
        for n in (0..=place.len()).rev() {
            let e = at(&self.root, &place[..n]).expect("harness: place");
            let style = e.get("style").unwrap_or("");
            let own = style.split(';').filter_map(|d| d.split_once(':')).filter(|d| d.0.trim() == "fill-rule").last().map(|d| d.1.trim());
            if let Some(v) = own.or(e.get("fill-rule")) {
                return v == "evenodd";
            }
        }
        false
    }
    fn saw(&mut self, what: &'static str, n: usize) {
        *self.effects.entry(what).or_default() += n as u64;
    }
    /// Whether the action can be told to succeed
    fn perform(&mut self, act: &Act) -> bool {
        self.history.push(act.record());
        let was_forgotten = std::mem::replace(&mut self.forgotten, false);
        let mut n = 0;
        match act {
            Act::Select(q) | Act::More(q) => {
                let Some(new) = self.query(q) else {
                    self.history.pop();
                    self.forgotten = was_forgotten;
                    return false;
                };
                n = new.len();
                self.select(new, matches!(act, Act::More(_)));
            }
            Act::Deselect => self.selection.clear(),
            Act::Forget => {
                self.selection.clear();
                self.forgotten = true;
            }
            Act::Attr(name, value) => {
                for p in &self.selection {
                    let Some(e) = at_mut(&mut self.root, p) else { continue };
                    if accepts(&e.name, name) {
                        e.set(name, value.clone());
                        n += 1;
                    }
                }
            }
            Act::Class(name) => {
                for p in &self.selection {
                    let Some(e) = at_mut(&mut self.root, p) else { continue };
                    let mut list: Vec<String> = e.get("class").unwrap_or("").split_whitespace().map(Into::into).collect();
                    if list.contains(name) {
                        list.retain(|c| c != name);
                    } else {
                        list.push(name.clone());
                    }
                    e.set("class", list.join(" "));
                    n += 1;
                }
            }
            Act::Style(property, value) => {
                for p in &self.selection {
                    let Some(e) = at_mut(&mut self.root, p) else { continue };
                    let old = e.get("style").unwrap_or("").trim_end_matches(';').to_string();
                    let sep = if old.is_empty() { "" } else { ";" };
                    e.set("style", format!("{old}{sep}{property}:{value}"));
                    n += 1;
                }
            }
            Act::Transform(f, v) => {
                let list: Vec<String> = v.iter().map(f32::to_string).collect();
                for p in &self.selection {
                    let Some(e) = at_mut(&mut self.root, p) else { continue };
                    let old = e.get("transform").filter(|v| *v != "inherit").unwrap_or("").to_string();
                    e.set("transform", format!("{old} {f}({})", list.join(" ")).trim().to_string());
                    n += 1;
                }
            }
            Act::Insert(name) => {
                let mut new = vec![];
                for p in &self.selection {
                    let Some(e) = at_mut(&mut self.root, p) else { continue };
                    if lint::permitted(&e.name, name) == Some(true) {
                        e.push(El::new(name));
                        new.push(p.iter().copied().chain([e.children.len() - 1]).collect());
                    }
                }
                n = new.len();
                if n > 0 {
                    self.select(new, false);
                }
            }
            Act::Path(op) => {
                let mut paths: Vec<Place> =
                    self.selection.iter().filter(|p| at(&self.root, p).is_some_and(|e| e.name == "path" && e.children.is_empty() && e.get("d").is_some())).cloned().collect();
                paths.sort();
                n = paths.len();
                let fill = |p: &Place| (at(&self.root, p).and_then(|e| e.get("d")).unwrap_or("").to_string(), self.evenodd(p));
                if n > 1 {
                    let area = Area { first: fill(&paths[0]), rest: paths[1..].iter().map(|p| (*op, fill(p).0, fill(p).1)).collect() };
                    let key = format!("a{}", self.areas.len());
                    let last = at_mut(&mut self.root, &paths[n - 1]).expect("harness: path");
                    last.set(AREA, key.clone());
                    last.set("d", "M0 0");
                    last.set("fill-rule", "evenodd");
                    self.areas.insert(key.clone(), area);
                    for p in paths[..n - 1].iter().rev() {
                        let (i, parent) = p.split_last().expect("harness: root path");
                        at_mut(&mut self.root, parent).expect("harness: parent").children.remove(*i);
                    }
                    let now = places(&self.root).into_iter().find(|p| at(&self.root, p).is_some_and(|e| e.get(AREA) == Some(&key))).expect("harness: merged");
                    self.selection = vec![now];
                } else if n == 1 {
                    self.selection = paths;
                }
            }
        }
        self.saw(
            match act {
                Act::Attr(..) => "attr",
                Act::Class(_) => "class",
                Act::Path(_) => "merge",
                Act::Style(..) => "style",
                Act::Transform(..) => "transform",
                Act::Insert(_) => "insert",
                Act::Select(_) => "select",
                Act::More(_) => "select more",
                Act::Deselect => "deselect",
                Act::Forget => "forget",
            },
            n,
        );
        true
    }
}

/// Whether an element takes an attribute, when that is beyond doubt
fn certain(element: &str, name: &str) -> Option<bool> {
    if element == "title" {
        return match name {
            "id" | "class" | "lang" => Some(true),
            "d" | "points" | "offset" | "gradientUnits" | "width" | "r" => Some(false),
            _ => None,
        };
    }
    let entries: Vec<&lint::Attribute> = lint::ATTRIBUTES.iter().filter(|a| a.name == name).collect();
    match name {
        "id" => return Some(true),
        "foo" | "colour" | "nosuch" => return Some(false),
        "transform" => return None,
        _ => {}
    }
    if entries.is_empty() {
        return None;
    }
    if entries.iter().any(|a| a.on.is_empty() || a.on.contains(&element)) {
        return Some(true);
    }
    ["d", "points", "r", "offset", "gradientUnits", "spreadMethod", "clipPathUnits", "maskUnits", "patternUnits", "markerWidth", "orient", "stdDeviation", "calcMode", "textLength"].contains(&name).then_some(false)
}
fn accepts(element: &str, name: &str) -> bool {
    certain(element, name) == Some(true)
}

fn path_data(rng: &mut Rng) -> String {
    let mut d = String::new();
    for _ in 0..*rng.pick(&[1, 1, 1, 2]) {
        let (x, y) = (rng.range(0, 20), rng.range(0, 20));
        let (w, h) = (rng.range(4, 20), rng.range(4, 20));
        let _ = match rng.below(6) {
            0 => write!(d, "M{x} {y}h{w}v{h}h-{w}z"),
            1 => write!(d, "M{x} {y}v{h}h{w}v-{h}z"),
            2 => write!(d, "M{x} {y}l{w} {}l-{} {h}z", rng.range(0, 6), rng.range(0, 6)),
            3 => write!(d, "M{x} {y}a{w} {w} 0 1 0 {} 0a{w} {w} 0 1 0 -{} 0z", 2 * w, 2 * w),
            4 => write!(d, "M{x} {y}q{w} {} {w} {h}q-{} {} -{w} -{h}z", -rng.range(0, 9), w + 4, rng.range(0, 9)),
            // Over itself
            _ => write!(d, "M{x} {y}h{w}v{h}h-{w}z M{} {}h{}v{}h-{}z", x + 1, y + 1, w - 2, h - 2, w - 2),
        };
    }
    d
}

fn value(rng: &mut Rng, name: &str) -> String {
    match name {
        "id" => format!("n{}", rng.below(100)),
        "d" => path_data(rng),
        _ => {
            let of: Vec<&str> = lint::ATTRIBUTES.iter().filter(|a| a.name == name).flat_map(|a| a.values).copied().collect();
            if of.is_empty() { "v".into() } else { (*rng.pick(&of)).into() }
        }
    }
}

const STYLES: &[(&str, &[&str])] = &[
    ("fill", &["red", "#123456", "none"]),
    ("opacity", &["0.5", ".25"]),
    ("stroke-width", &["2px", "3"]),
    ("fill-rule", &["evenodd", "nonzero"]),
    ("stroke", &["blue", "red !important", "green!important"]),
    ("display", &["none", "inline"]),
];
const OWN: &[&str] = &["fill", "opacity", "stroke-width", "fill-rule", "visibility", "stroke-linecap", "lang"];

fn number(rng: &mut Rng) -> f32 {
    *rng.pick(&[0.0, 1.0, -1.0, 2.0, 10.0, -7.5, 0.25, 45.0, 90.0, -30.0, 1.5, 100.0])
}
fn transform(rng: &mut Rng) -> (&'static str, Vec<f32>) {
    let (f, n) = *rng.pick(&[("matrix", 6), ("translate", 1), ("translate", 2), ("scale", 1), ("scale", 2), ("rotate", 1), ("rotate", 3), ("skewX", 1), ("skewY", 1)]);
    (f, (0..n).map(|_| number(rng)).collect())
}

fn dress(rng: &mut Rng, e: &mut El) {
    if rng.chance(1, 3) {
        e.set("id", *rng.pick(select::IDS));
    }
    if rng.chance(1, 2) {
        let n = 1 + rng.below(2);
        let mut list: Vec<&str> = (0..n).map(|_| *rng.pick(select::CLASSES)).collect();
        list.dedup();
        e.set("class", list.join(" "));
    }
    if e.name == "title" {
        return;
    }
    if rng.chance(1, 3) {
        let name = *rng.pick(OWN);
        let v = value(rng, name);
        e.set(name, v);
    }
    if rng.chance(1, 5) {
        let (p, v) = rng.pick(STYLES);
        e.set("style", format!("{p}:{}{}", rng.pick(v), rng.pick(&["", ";"])));
    }
    if rng.chance(1, 5) && e.name != "path" {
        let (f, v) = transform(rng);
        let v: Vec<String> = v.iter().map(f32::to_string).collect();
        e.set("transform", if rng.chance(1, 6) { "inherit".into() } else { format!("{f}({})", v.join(",")) });
    }
}

fn element(rng: &mut Rng, depth: usize, left: &mut usize, paths: bool) -> El {
    let name = if paths { *rng.pick(&["g", "path", "path", "path", "rect", "text"]) } else { *rng.pick(&["g", "g", "a", "rect", "circle", "path", "path", "text", "linearGradient", "clipPath", "defs", "use", "title"]) };
    let mut e = El::new(name);
    dress(rng, &mut e);
    match name {
        "path" => {
            if !rng.chance(1, 10) {
                e.set("d", path_data(rng));
            }
            if rng.chance(1, 12) {
                e = e.holding(El::new("title").text("in"));
            }
        }
        "rect" => {
            e.set("width", "5");
        }
        "text" | "title" => {
            if rng.chance(3, 4) {
                e.children.push(Nd::Text((*rng.pick(&["one", "two", "one", "a < b & c"])).into()));
            }
        }
        "linearGradient" => {
            for _ in 0..rng.below(3) {
                e.push(El::new("stop").with(&[("offset", *rng.pick(&["0", ".5", "1"]))]));
            }
        }
        "clipPath" => {
            e.push(El::new("circle").with(&[("r", "4")]));
        }
        "g" | "a" | "defs" if depth > 0 => {
            for _ in 0..rng.below(5) {
                if *left == 0 {
                    break;
                }
                *left -= 1;
                if rng.chance(1, 12) {
                    e.children.push(Nd::Comment("note".into()));
                } else {
                    e.push(element(rng, depth - 1, left, paths));
                }
            }
        }
        _ => {}
    }
    e
}

fn document(rng: &mut Rng, paths: bool) -> El {
    let mut root = svg();
    if rng.chance(1, 3) {
        root.set("viewBox", "0 0 40 40");
    }
    if rng.chance(1, 6) {
        root.set("class", "a");
    }
    let mut left = 1 + rng.below(12);
    for _ in 0..rng.below(5) {
        root.push(element(rng, 3, &mut left, paths));
    }
    root
}

fn query(rng: &mut Rng, root: &El, paths: bool) -> String {
    match rng.below(10) {
        0 | 1 => {
            let all = places(root).len();
            let n = 1 + rng.below(3);
            let sep = *rng.pick(&[" ", ",", ", "]);
            (0..n).map(|_| (1 + rng.below(all)).to_string()).collect::<Vec<_>>().join(sep)
        }
        2 => select::selector(rng),
        3 => format!(".{}", rng.pick(select::CLASSES)),
        4 => (*rng.pick(&["svg", "*", "svg > :last-child", ":last-child", ":nth-last-child(1)", ":empty", "svg > *", ":not(g)"])).into(),
        _ if paths => "path".into(),
        _ => (*rng.pick(&["g", "rect", "path", "text", "stop", "circle", "a", "path, rect", "g *", "linearGradient", "title", "use", "clipPath", "#i"])).into(),
    }
}

fn next(rng: &mut Rng, m: &Model, paths: bool) -> Option<Act> {
    let selected: Vec<&El> = m.selection.iter().filter_map(|p| at(&m.root, p)).collect();
    if selected.is_empty() && rng.chance(3, 4) {
        return Some(Act::Select(query(rng, &m.root, paths)));
    }
    Some(match rng.below(20) {
        0 | 1 => Act::Select(query(rng, &m.root, paths)),
        2 | 3 => Act::More(query(rng, &m.root, paths)),
        4 => Act::Deselect,
        5 if rng.chance(1, 2) => Act::Forget,
        5..=7 => {
            let name = match rng.below(6) {
                0 => "id",
                1 => *rng.pick(&["nosuch", "foo", "colour"]),
                2 => *rng.pick(OWN),
                _ => rng.pick(lint::ATTRIBUTES).name,
            };
            if name.contains(':') || name == AREA || name == "style" || selected.iter().any(|e| certain(&e.name, name).is_none() || (name == "d" && e.get(AREA).is_some())) {
                return None;
            }
            let v = value(rng, name);
            Act::Attr(name.into(), v)
        }
        8..=10 => Act::Class((*rng.pick(select::CLASSES)).into()),
        11 | 12 => {
            let (p, v) = rng.pick(STYLES);
            if selected.iter().any(|e| e.name == "title") {
                return None;
            }
            Act::Style((*p).into(), (*rng.pick(v)).into())
        }
        13..=15 => {
            if selected.iter().any(|e| (e.name == "path" && paths) || e.name == "title") {
                return None;
            }
            let (f, v) = transform(rng);
            Act::Transform(f, v)
        }
        _ if !paths => {
            let name = *rng.pick(&["g", "rect", "path", "stop", "title", "circle", "animate", "tspan", "linearGradient", "bogus", "defs", "text", "style", "feOffset"]);
            if selected.iter().any(|e| e.name == "title" || lint::permitted(&e.name, name).is_none() || e.children.iter().any(|c| matches!(c, Nd::Text(_)))) {
                return None;
            }
            Act::Insert(name.into())
        }
        _ => {
            // A path that came of merging is compared by what it fills, so it can't be merged again
            if selected.iter().any(|e| e.get(AREA).is_some()) {
                return None;
            }
            Act::Path(*rng.pick(&[Op::Intersect, Op::Union, Op::Subtract, Op::Xor]))
        }
    })
}

fn with_actor<T>(src: &str, f: impl FnOnce(&mut Actor) -> Result<T, String>) -> Result<T, String> {
    parse_with_options(src, ParsingOptions { allow_dtd: true, ..Default::default() }, |dom, allocator| {
        let mut actor = Actor::new(dom, allocator).map_err(|e| format!("no actor: {e}"))?;
        f(&mut actor)
    })
    .map_err(|e| format!("cannot read: {e}"))?
}

fn dispatch(actor: &mut Actor, acts: &[Act]) -> Result<(), String> {
    for a in acts {
        actor.dispatch(a.action()).map_err(|e| format!("{a:?} failed: {e}"))?;
    }
    Ok(())
}

/// Takes the record apart from the rest of a document
struct State {
    history: Vec<(String, Vec<String>)>,
    ids: BTreeSet<usize>,
}
fn split(mut x: X) -> Result<(X, Option<State>), String> {
    let X::El { children, .. } = &mut x else { return Err("no root".into()) };
    let mut state = None;
    if children.last().is_some_and(|c| c.ns() == OXVG_XMLNS && c.name() == "state") {
        state = children.pop();
    }
    let mut stray = false;
    x.walk(&mut |n| stray |= n.ns() == OXVG_XMLNS);
    if stray {
        return Err("parts of the record are elsewhere in the document".into());
    }
    let Some(state) = state else { return Ok((x, None)) };
    let mut out = State { history: vec![], ids: BTreeSet::new() };
    for part in state.children() {
        match part.name() {
            "history" => {
                for a in part.children() {
                    out.history.push((a.attr_ns(OXVG_XMLNS, "id").unwrap_or("").to_string(), a.children().iter().map(X::raw_text).collect()));
                }
            }
            "selection" => {
                let ids = part.attr_ns(OXVG_XMLNS, "ids").unwrap_or("");
                out.ids.extend(ids.split_whitespace().map(|s| s.parse::<usize>().unwrap_or(usize::MAX)));
            }
            n => return Err(format!("record has {n:?}")),
        }
    }
    Ok((x, Some(out)))
}

fn polys(d: &str) -> Vec<Poly> {
    refpath::flatten(&refpath::geometry(&refpath::parse(d).0), 0.002)
}
fn inside(p: &[Poly], evenodd: bool, at: (f64, f64)) -> bool {
    let w = refpath::winding(p, at);
    if evenodd { w % 2 != 0 } else { w != 0 }
}
/// Whether a path fills what it should, as far as points well off all edges tell
fn fills(area: &Area, d: &str, evenodd: bool, rng: &mut Rng, points: &mut usize) -> Result<(), String> {
    let first = (polys(&area.first.0), area.first.1);
    let rest: Vec<(Op, Vec<Poly>, bool)> = area.rest.iter().map(|(op, d, e)| (*op, polys(d), *e)).collect();
    let got = polys(d);
    for _ in 0..60 {
        let p = (rng.float(-5.0, 60.0), rng.float(-5.0, 60.0));
        let eps = 0.15;
        if refpath::dist(&first.0, p, true) < eps || rest.iter().any(|r| refpath::dist(&r.1, p, true) < eps) {
            continue;
        }
        *points += 1;
        let mut want = inside(&first.0, first.1, p);
        for (op, q, e) in &rest {
            let other = inside(q, *e, p);
            want = match op {
                Op::Intersect => want && other,
                Op::Union => want || other,
                Op::Subtract => want && !other,
                Op::Xor => want != other,
            };
        }
        if want != inside(&got, evenodd, p) {
            return Err(format!("the merged path {d:?} {} {p:?}, from {area:?}", if want { "leaves out" } else { "fills" }));
        }
    }
    Ok(())
}

fn classes(x: &X) -> BTreeSet<&str> {
    x.attr("class").unwrap_or("").split_whitespace().collect()
}
fn same(want: &X, got: &X, place: &str, m: &Model, rng: &mut Rng, points: &mut usize, evenodd: bool) -> Result<(), String> {
    match (want, got) {
        (X::El { ns, name, attrs, children }, X::El { ns: gns, name: gname, attrs: gattrs, children: gchildren }) => {
            if (ns, name) != (gns, gname) {
                return Err(format!("{place}: {name} is {gname}"));
            }
            if classes(want) != classes(got) {
                return Err(format!("{place}/{name}: classes {:?} are {:?}", classes(want), classes(got)));
            }
            let area = want.attr(AREA).and_then(|a| m.areas.get(a));
            let drop = |(_, n): &(String, String)| n == "class" || n == AREA || (n == "d" && area.is_some());
            let a: BTreeMap<_, _> = attrs.iter().filter(|a| !drop(a.0)).collect();
            let b: BTreeMap<_, _> = gattrs.iter().filter(|a| !drop(a.0)).collect();
            if a != b {
                return Err(format!("{place}/{name}: attributes should be {a:?} but are {b:?}"));
            }
            let style = got.attr("style").unwrap_or("");
            let own = style.split(';').filter_map(|d| d.split_once(':')).filter(|d| d.0.trim() == "fill-rule").last().map(|d| d.1.trim());
            let evenodd = own.or(got.attr("fill-rule")).map_or(evenodd, |v| v == "evenodd");
            if let Some(area) = area {
                fills(area, got.attr("d").unwrap_or(""), evenodd, rng, points)?;
            }
            if children.len() != gchildren.len() {
                let names = |l: &[X]| l.iter().map(|c| if c.is_el() { c.name().to_string() } else { "-".into() }).collect::<Vec<_>>();
                return Err(format!("{place}/{name}: should hold {:?} but holds {:?}", names(children), names(gchildren)));
            }
            for (i, (a, b)) in children.iter().zip(gchildren).enumerate() {
                same(a, b, &format!("{place}/{name}[{i}]"), m, rng, points, evenodd)?;
            }
            Ok(())
        }
        (a, b) if a == b => Ok(()),
        (a, b) => Err(format!("{place}: {a:?} is {b:?}")),
    }
}

/// Compares a written document to the model of it
fn judge(m: &Model, text: &str, rng: &mut Rng, points: &mut usize) -> Result<(), String> {
    let want = xml::write(&Doc::of(m.root.clone()).text(), Options::default())?;
    let want = read_root(&want)?;
    let (got, state) = split(read_root(text).map_err(|e| format!("result is not XML: {e}"))?)?;
    same(&want, &got, "", m, rng, points, false).map_err(|e| format!("document: {e}"))?;
    match state {
        None if m.forgotten || m.history.is_empty() => Ok(()),
        None => Err("record: nothing is kept in the document".into()),
        Some(_) if m.forgotten => Err("record: kept although it was to be forgotten".into()),
        Some(s) if s.history != m.history => Err(format!("record: history should be {:?} but is {:?}", m.history, s.history)),
        Some(s) if s.ids != m.ids() => Err(format!("record: selection should be {:?} but is {:?}", m.ids(), s.ids)),
        Some(_) => Ok(()),
    }
}

/// Compares what the actor tells about the selection
fn informed(m: &Model, acts: &[Act], state: &DerivedState) -> Result<(), String> {
    let want: Vec<Action> = acts.iter().map(Act::action).collect();
    let spelled = |l: &[Action]| l.iter().map(|a| format!("{a:?}").replace("Local(", "Cow(")).collect::<Vec<_>>();
    if spelled(&want) != spelled(&state.history) {
        return Err(format!("derived history {:?} instead of {:?}", state.history, want));
    }
    let ids: BTreeSet<usize> = state.selection.iter().copied().collect();
    if ids != m.ids() || ids.len() != state.selection.len() {
        return Err(format!("derived selection {:?} instead of {:?}", state.selection, m.ids()));
    }
    let selected: Vec<&El> = m.selection.iter().filter_map(|p| at(&m.root, p)).collect();
    if selected.len() != m.selection.len() {
        return if state.info.is_some() { Err("information about text is given".into()) } else { Ok(()) };
    }
    let Some(info) = &state.info else { return Err("no information".into()) };
    let name = selected.first().filter(|f| selected.iter().all(|e| e.name == f.name)).map(|e| e.name.as_str());
    let got = info.element_id.as_ref().map(|e| e.local_name().to_string());
    if name != got.as_deref() {
        return Err(format!("derived element {got:?} instead of {name:?}"));
    }
    let text = |e: &El| if e.children.iter().all(|c| matches!(c, Nd::Text(_))) { Some(e.raw_text()) } else { None };
    let common = selected.first().map_or(Some(String::new()), |f| text(f).filter(|t| selected.iter().all(|e| text(e).as_ref() == Some(t))));
    // The record counts as content of the root
    if !m.selection.contains(&vec![]) && info.text.as_ref().map(|t| t.to_string()) != common {
        return Err(format!("derived text {:?} instead of {common:?}", info.text));
    }
    // Attributes as written
    let tree = read_root(&xml::write(&Doc::of(m.root.clone()).text(), Options::default())?)?;
    let xs: Vec<&X> = m
        .selection
        .iter()
        .map(|p| {
            let mut x = &tree;
            for i in p {
                x = &x.children()[*i];
            }
            x
        })
        .collect();
    if !selected.iter().any(|e| e.get(AREA).is_some() || e.get("class").is_some() || e.get("style").is_some()) {
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        if let Some(X::El { attrs, .. }) = xs.first() {
            for ((ns, n), v) in attrs {
                if xs.iter().all(|x| x.attr_ns(ns, n) == Some(v)) {
                    want.insert(n.clone(), v.clone());
                }
            }
        }
        // Attributes of one name are other ones on other elements
        let own = |n: &String| name.is_some() || ["id", "lang", "opacity", "stroke-width", "fill-rule", "visibility"].contains(&n.as_str());
        want.retain(|n, _| own(n));
        let got: BTreeMap<String, String> = info.attributes.values.iter().map(|(k, v)| (k.local_name().to_string(), v.to_string())).filter(|(n, _)| n != "xmlns" && n != "oxvg" && own(n)).collect();
        if want.keys().ne(got.keys()) {
            return Err(format!("derived attributes {got:?} instead of {want:?}"));
        }
    }
    for name in ["d", "points", "offset", "gradientUnits", "clipPathUnits"] {
        let all = !selected.is_empty() && selected.iter().all(|e| certain(&e.name, name) == Some(true));
        let has = info.attributes.expected_attributes.iter().any(|a| a.local_name().as_str() == name);
        if all != has {
            return Err(format!("derived attributes {} {name}", if has { "wrongly expect" } else { "don't expect" }));
        }
    }
    Ok(())
}

fn list(rng: &mut Rng) -> (El, Vec<Act>, Model, bool) {
    let paths = rng.chance(1, 4);
    let root = document(rng, paths);
    let mut m = Model::new(root.clone());
    let mut acts = vec![];
    let n = 1 + rng.below(8);
    for _ in 0..4 * n {
        if acts.len() >= n {
            break;
        }
        let Some(a) = next(rng, &m, paths) else { continue };
        if m.perform(&a) {
            acts.push(a);
        }
    }
    (root, acts, m, paths)
}

fn show(root: &El, acts: &[Act]) -> String {
    format!("{}\n{acts:?}", Doc::of(root.clone()).text())
}

fn whole(root: &El, acts: &[Act], m: &Model, rng: &mut Rng, points: &mut usize) -> Result<String, String> {
    with_actor(&Doc::of(root.clone()).text(), |actor| {
        dispatch(actor, acts)?;
        let state = actor.derive_state().map_err(|e| format!("no state: {e}"))?;
        informed(m, acts, &state)?;
        let text = actor.snapshot().map_err(|e| format!("no snapshot: {e}"))?;
        judge(m, &text, rng, points)?;
        Ok(text)
    })
}

fn modelled(root: &El, acts: &[Act]) -> Option<Model> {
    let mut m = Model::new(root.clone());
    acts.iter().all(|a| m.perform(a)).then_some(m)
}

/// P16: actions do what they are described to, to what is selected
pub fn edits(ctx: &Ctx) {
    ctx.rule("editing actions change what is selected as described, and selection and record follow");
    ctx.explore("lists", ctx.scale(300_000, 5_000_000), |rng, _, obs| {
        let (root, acts, m, _) = list(rng);
        for (k, n) in &m.effects {
            obs.add(k, *n);
        }
        let mut points = 0;
        match whole(&root, &acts, &m, rng, &mut points) {
            Ok(_) => {}
            Err(e) => {
                let (root, acts, e) = smaller(&root, &acts, e);
                return obs.violation(sign(&e), show(&root, &acts), e);
            }
        }
        obs.add("points", points as u64);
        if m.effects.values().sum::<u64>() > 1 {
            obs.nontrivial(&show(&root, &acts));
        }
        obs.sample(|| json!({"document": Doc::of(root.clone()).text(), "actions": format!("{acts:?}")}));
    });
    // In parts, each going on from the document the last one left
    ctx.explore("parts", ctx.scale(120_000, 2_000_000), |rng, _, obs| {
        let (root, acts, mut m, _) = list(rng);
        let cut = rng.below(acts.len() + 1);
        if acts[..cut].contains(&Act::Forget) {
            // What was forgotten stays so
            let last = acts[..cut].iter().rposition(|a| *a == Act::Forget).expect("forget") + 1;
            if last != cut {
                return;
            }
            m.history.drain(..cut);
        }
        let mut points = 0;
        let run = || -> Result<(), String> {
            let first = with_actor(&Doc::of(root.clone()).text(), |actor| {
                dispatch(actor, &acts[..cut])?;
                actor.snapshot().map_err(|e| format!("no snapshot: {e}"))
            })?;
            let text = with_actor(&first, |actor| {
                dispatch(actor, &acts[cut..])?;
                actor.snapshot().map_err(|e| format!("no snapshot: {e}"))
            })
            .map_err(|e| format!("going on: {e}"))?;
            judge(&m, &text, rng, &mut points).map_err(|e| format!("in two parts, {e}"))
        };
        match guarded(run) {
            Ok(Ok(())) => obs.count("parts"),
            Ok(Err(e)) => obs.violation(sign(&e), format!("{}\ncut at {cut}", show(&root, &acts)), e),
            Err(p) => obs.violation(p.sig(), format!("{}\ncut at {cut}", show(&root, &acts)), format!("{p:?}")),
        }
    });
    // Queries that can't be understood
    ctx.explore("refused", ctx.scale(3_000, 60_000), |rng, _, obs| {
        let (root, acts, m, _) = list(rng);
        let bad = if rng.chance(1, 2) { Act::Select((*rng.pick(BAD)).into()) } else { Act::More((*rng.pick(BAD)).into()) };
        let run = with_actor(&Doc::of(root.clone()).text(), |actor| {
            dispatch(actor, &acts)?;
            if actor.dispatch(bad.action()).is_ok() {
                return Err(format!("{bad:?} succeeded"));
            }
            let ids: BTreeSet<usize> = actor.derive_state().map_err(|e| e.to_string())?.selection.into_iter().collect();
            if ids != m.ids() {
                return Err(format!("{bad:?} changed the selection from {:?} to {ids:?}", m.ids()));
            }
            Ok(())
        });
        match run {
            Ok(()) => obs.count("refused"),
            Err(e) => obs.violation(sign(&e), show(&root, &acts), e),
        }
    });
    ctx.explore("program", ctx.scale(4_000, 60_000), |rng, _, obs| {
        if let Err((e, input)) = program(rng, obs) {
            obs.violation(sign(&e), input, e);
        }
    });
    ctx.directed("directed", DIRECTED, |(name, src, words, want), obs| {
        let scratch = cli::Scratch::new();
        scratch.give_away();
        let mut out = (*src).to_string();
        let mut ran = None;
        for words in *words {
            let mut args: Vec<String> = vec!["action".into(), "run".into(), "--pretty".into(), "none".into()];
            args.extend(words.iter().map(|w| (*w).to_string()));
            let r = cli::run(&scratch, &scratch.0, &args, Some(out.as_bytes()));
            out = String::from_utf8_lossy(&r.stdout).into_owned();
            ran = Some(r);
        }
        let ran = ran.expect("harness: nothing to run");
        obs.nontrivial(name);
        obs.count("directed");
        if !out.contains(want) {
            obs.violation(format!("directed {name}"), format!("{src}\n{words:?}"), format!("{want:?} not in {out:?} ({:?}, {:?})", ran.code, clip(&ran.stderr, 200)));
        }
    });
}

const BAD: &[&str] = &["[", "g >", ":no-such-thing", "##", ""];

/// A name, a document, what is run on it one after another, and what should be in the result
type Directed = (&'static str, &'static str, &'static [&'static [&'static str]], &'static str);
const DIRECTED: &[Directed] = &[
    ("derived state", r#"<svg xmlns="http://www.w3.org/2000/svg"/>"#, &[&["--derive-state", "--", "-select", "svg"]], r#""selection""#),
    (
        "white space between elements",
        "<svg xmlns=\"http://www.w3.org/2000/svg\">\n  <g/>\n  <path d=\"M0 0\"/>\n</svg>",
        &[&["--", "-select", "path"], &["--", "-attr", "id", "x"]],
        r#"<path d="M0 0" id="x""#,
    ),
    ("the document itself", r#"<svg xmlns="http://www.w3.org/2000/svg"/>"#, &[&["--", "-select", "0", "-attr", "id", "x", "-class", "a", "-scale", "2", "-insert", "g", "-path-union"]], "<svg "),
    ("no such node", r#"<svg xmlns="http://www.w3.org/2000/svg"/>"#, &[&["--", "-select", "999", "-attr", "id", "x", "-class", "a", "-scale", "2", "-insert", "g", "-path-union"]], "<svg "),
    ("a name of three parts", r#"<svg xmlns="http://www.w3.org/2000/svg"/>"#, &[&["--", "-select", "svg", "-attr", "a:b:c", "x"]], "<svg "),
    ("an undeclared prefix", r#"<svg xmlns="http://www.w3.org/2000/svg"/>"#, &[&["--", "-select", "svg", "-attr", "xlink:href", "x", "-attr", "id", "y"]], r#" id="y"><oxvg:state"#),
];

fn sign(e: &str) -> String {
    let mut s: String = e.chars().map(|c| if c.is_ascii_digit() { '0' } else { c }).collect();
    s.truncate(s.char_indices().nth(60).map_or(s.len(), |c| c.0));
    s
}

fn smaller(root: &El, acts: &[Act], e: String) -> (El, Vec<Act>, String) {
    let mut best = (root.clone(), acts.to_vec(), e);
    let fails = |root: &El, acts: &[Act]| -> Option<String> {
        let m = modelled(root, acts)?;
        guarded(|| whole(root, acts, &m, &mut Rng::new(1), &mut 0)).ok()?.err()
    };
    let mut i = 0;
    while i < best.1.len() {
        let mut acts = best.1.clone();
        acts.remove(i);
        match fails(&best.0, &acts) {
            Some(e) => best = (best.0, acts, e),
            None => i += 1,
        }
    }
    let acts = best.1.clone();
    let doc = shrink(&Doc::of(best.0.clone()), &mut |d| fails(&d.root, &acts).is_some());
    if let Some(e) = fails(&doc.root, &acts) {
        best = (doc.root, acts, e);
    }
    best
}

fn program(rng: &mut Rng, obs: &mut Obs) -> Result<(), (String, String)> {
    let (root, acts, m, _) = list(rng);
    let scratch = cli::Scratch::new();
    let src = Doc::of(root.clone()).text();
    let mut words: Vec<String> = acts.iter().flat_map(|a| a.words(rng)).collect();
    let wrong = rng.chance(1, 6);
    if wrong {
        words.extend(match rng.below(4) {
            0 => vec!["-select".to_string(), "[".to_string()],
            1 => vec!["-no-such".to_string()],
            2 => vec!["-attr".to_string(), "id".to_string()],
            _ => vec!["stray".to_string()],
        });
    }
    let file = rng.chance(1, 3);
    let mut args: Vec<String> = vec!["action".into()];
    if rng.chance(1, 2) {
        args.push("run".into());
    }
    args.extend(["--pretty".to_string(), "none".to_string()]);
    let given = scratch.0.join("in.svg");
    let left = scratch.0.join("out.svg");
    if file {
        std::fs::write(&given, &src).expect("harness: write");
        args.extend([given.display().to_string(), "-o".to_string(), left.display().to_string()]);
    }
    args.push("--".into());
    args.extend(words);
    scratch.give_away();
    let input = format!("{src}\n{args:?}");
    let ran = cli::run(&scratch, &scratch.0, &args, (!file).then_some(src.as_bytes()));
    let fail = |e: String| (e, input.clone());
    if wrong {
        obs.count("program refuses");
        if ran.code == Some(0) {
            return Err(fail(format!("program: exit code 0 although an action failed: {}", clip(&ran.stderr, 100))));
        }
        if left.exists() || !ran.stdout.is_empty() {
            return Err(fail("program: wrote a document although an action failed".into()));
        }
        return Ok(());
    }
    if ran.code != Some(0) {
        return Err(fail(format!("program: exit code {:?}: {}", ran.code, clip(&ran.stderr, 200))));
    }
    let text = if file { std::fs::read_to_string(&left).map_err(|e| fail(format!("program: no output: {e}")))? } else { String::from_utf8_lossy(&ran.stdout).into_owned() };
    judge(&m, &text, rng, &mut 0).map_err(|e| fail(format!("program: {e}")))?;
    obs.count("program runs");
    obs.nontrivial(&input);
    Ok(())
}
