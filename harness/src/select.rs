//! Selectors and resolved styles against the reading in `css`.
use crate::css;
use crate::doc::*;
use crate::fw::*;
use crate::values;
use lightningcss::printer::PrinterOptions;
use oxvg_ast::element::Element;
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::style::{ComputedStyles, Mode};
use oxvg_collections::attribute::AttrId;
use oxvg_serialize::ToValue as _;
use serde_json::json;

const TAGS: &[&str] = &["g", "g", "g", "rect", "path", "a", "linearGradient", "circle", "text"];
pub const CLASSES: &[&str] = &["a", "b", "c", "A", "a-b", "x1"];
pub const IDS: &[&str] = &["i", "j", "k", "I", "i-j"];
const DATA: &[(&str, &[&str])] = &[("data-k", &["one", "two", "one two", "one-two", "", "two-one"]), ("name", &["one", "onetwo", "tw"]), ("lang", &["en", "en-GB", "e"])];

fn tree(rng: &mut Rng, depth: usize, left: &mut usize) -> El {
    let mut e = El::new(*rng.pick(TAGS));
    if rng.chance(1, 4) {
        e.set("id", *rng.pick(IDS));
    }
    if rng.chance(1, 2) {
        let n = 1 + rng.below(3);
        let list: Vec<&str> = (0..n).map(|_| *rng.pick(CLASSES)).collect();
        e.set("class", list.join(*rng.pick(&[" ", "  ", "\n"])));
    }
    for (n, vs) in DATA {
        if rng.chance(1, 4) {
            e.set(n, *rng.pick(vs));
        }
    }
    if depth > 0 {
        for _ in 0..rng.below(5) {
            if *left == 0 {
                break;
            }
            *left -= 1;
            match rng.below(10) {
                0 => e.children.push(Nd::Comment("c".into())),
                1 => e.children.push(Nd::Text("t".into())),
                _ => {
                    e.push(tree(rng, depth - 1, left));
                }
            }
        }
    }
    e
}

fn document(rng: &mut Rng, foreign: bool) -> Doc {
    let mut left = 1 + rng.below(30);
    let mut root = svg();
    for _ in 0..1 + rng.below(4) {
        root.push(tree(rng, 4, &mut left));
    }
    // the same names from elsewhere, or by another prefix
    if foreign && rng.chance(1, 4) {
        root.set("xmlns:x", "http://example.com/x");
        root.set("xmlns:s", "http://www.w3.org/2000/svg");
        root.walk_mut(&mut |e| {
            if e.name != "svg" && rng.chance(1, 3) {
                e.name = format!("{}:{}", rng.pick(&["x", "x", "s"]), e.name);
            }
        });
    }
    let mut n = 0;
    root.walk_mut(&mut |e| {
        e.set("data-n", n.to_string());
        n += 1;
    });
    Doc::of(root)
}

fn an_plus_b(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => "odd".into(),
        1 => "even".into(),
        2 => (1 + rng.below(4)).to_string(),
        3 => format!("{}n", 1 + rng.below(3)),
        4 => format!("{}n+{}", 1 + rng.below(3), rng.below(4)),
        _ => format!("-n+{}", 1 + rng.below(3)),
    }
}

fn compound(rng: &mut Rng, nested: bool) -> String {
    let mut s = match rng.below(4) {
        0 => "*".to_string(),
        1 => String::new(),
        _ => (*rng.pick(TAGS)).to_string(),
    };
    let extra = if s.is_empty() { 1 } else { 0 };
    for _ in 0..extra + rng.below(3) {
        s += &match rng.below(12) {
            0..=2 => format!(".{}", rng.pick(CLASSES)),
            3 => format!("#{}", rng.pick(IDS)),
            4 | 5 => {
                let (n, vs) = rng.pick(DATA);
                let v = rng.pick(vs);
                let v = if rng.chance(1, 2) && v.len() > 2 { &v[..v.len() - 1] } else { v };
                match rng.below(7) {
                    0 => format!("[{n}]"),
                    1 => format!("[{n}=\"{v}\"]"),
                    2 => format!("[{n}~=\"{v}\"]"),
                    3 => format!("[{n}|=\"{v}\"]"),
                    4 => format!("[{n}^=\"{v}\"]"),
                    5 => format!("[{n}$=\"{v}\"]"),
                    _ => format!("[{n}*=\"{v}\"]"),
                }
            }
            6 => format!(":{}({})", rng.pick(&["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"]), an_plus_b(rng)),
            7 | 8 => (*rng.pick(&[":first-child", ":last-child", ":first-of-type", ":last-of-type", ":only-child", ":only-of-type", ":empty", ":root"])).to_string(),
            9 if !nested => format!(":not({})", compound(rng, true)),
            9 => format!(".{}", rng.pick(CLASSES)),
            _ => format!(".{}", rng.pick(CLASSES)),
        };
    }
    s
}

fn complex(rng: &mut Rng) -> String {
    let mut s = compound(rng, false);
    for _ in 0..*rng.pick(&[0, 0, 1, 1, 2, 3]) {
        s += *rng.pick(&[" ", " ", ">", " > ", "+", " ~ ", "~"]);
        s += &compound(rng, false);
    }
    s
}

pub fn selector(rng: &mut Rng) -> String {
    let n = *rng.pick(&[1, 1, 1, 2, 3]);
    (0..n).map(|_| complex(rng)).collect::<Vec<_>>().join(*rng.pick(&[",", ", "]))
}

fn number(e: &Element) -> Option<usize> {
    e.attributes().into_iter().find(|a| a.local_name().as_str() == "data-n").and_then(|a| a.value().to_value_string(PrinterOptions::default()).ok()?.parse().ok())
}

/// P06: selecting finds exactly what the selector describes.
pub fn selectors(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when some but not all elements match; distinct by document and selector");
    ctx.explore("selectors", ctx.scale(150_000, 1_500_000), |rng, _, obs| {
        let doc = document(rng, true);
        let src = doc.text();
        let list: Vec<String> = (0..4).map(|_| selector(rng)).collect();
        let from = rng.chance(1, 3);
        let x = read_root(&src).expect("generated documents are well-formed");
        let t = css::Tree::new(&x);
        let start = if from { rng.below(t.nodes.len()) } else { 0 };
        let within = |mut i: usize| loop {
            match t.nodes[i].parent {
                Some(p) if p == start => return true,
                Some(p) => i = p,
                None => return false,
            }
        };
        let results = parse(&src, |dom, _| {
            let dom = Element::new(dom).expect("a document is an element too");
            let at = if from { dom.breadth_first().find(|e| number(e) == Some(start)).expect("element is present") } else { dom };
            list.iter()
                .map(|s| at.select(s).map(|found| found.map(|e| number(&e).unwrap_or(usize::MAX)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}")))
                .collect::<Vec<_>>()
        });
        let Ok(results) = results else {
            obs.violation("document not read", &src, "parse failed");
            return;
        };
        for (s, got) in list.iter().zip(results) {
            let Some(sel) = css::parse_list(s) else {
                obs.count("not_understood");
                continue;
            };
            let want: Vec<usize> = (0..t.nodes.len()).filter(|i| (!from || within(*i)) && sel.iter().any(|s| s.matches(&t, *i))).collect();
            let input = format!("{s} from {} in {src}", if from { start.to_string() } else { "the document".into() });
            match got {
                Err(e) => obs.violation("selector refused", input, e),
                Ok(mut got) => {
                    obs.count("selections");
                    got.sort_unstable();
                    if got != want {
                        let kind = if got.iter().any(|g| !want.contains(g)) { "selected an element that does not match" } else if got.len() > want.len() { "selected an element twice" } else { "missed a matching element" };
                        obs.violation(kind, input, format!("expected {want:?}, got {got:?}"));
                    } else if !want.is_empty() && want.len() < t.nodes.len() {
                        obs.nontrivial(&(s, &src));
                    }
                }
            }
        }
        obs.sample(|| json!({"selectors": list, "document": clip(&src, 300)}));
    });
}

/// Properties with values in both spellings the reader keeps apart.
const STYLES: &[(&str, AttrId<'static>, &[&str])] = &[
    ("fill", AttrId::Fill, &["red", "#00f", "none", "green"]),
    ("stroke", AttrId::Stroke, &["red", "#00f", "none", "green"]),
    ("stroke-width", AttrId::StrokeWidth, &["1px", "2px", "3.5px"]),
    ("opacity", AttrId::Opacity, &["0", ".5", "1"]),
    ("fill-opacity", AttrId::FillOpacity, &["0", ".5", "1"]),
    ("fill-rule", AttrId::FillRule, &["nonzero", "evenodd"]),
    ("visibility", AttrId::Visibility, &["visible", "hidden", "collapse"]),
    ("stroke-linecap", AttrId::StrokeLinecap, &["butt", "round", "square"]),
    ("stroke-linejoin", AttrId::StrokeLinejoin, &["miter", "round", "bevel"]),
    ("display", AttrId::Display, &["none", "inline", "block"]),
];

fn declarations(rng: &mut Rng) -> String {
    let n = 1 + rng.below(3);
    (0..n)
        .map(|_| {
            let (p, _, vs) = rng.pick(STYLES);
            format!("{p}:{}{}", rng.pick(vs), if rng.chance(1, 5) { "!important" } else { "" })
        })
        .collect::<Vec<_>>()
        .join(";")
}

fn style_sheet(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + rng.below(6) {
        let sel = loop {
            let s = selector(rng);
            if css::parse_list(&s).is_some() {
                break s;
            }
        };
        let rule = format!("{sel}{{{}}}", declarations(rng));
        s += &match rng.below(8) {
            0 => format!("@media {}{{{rule}}}", rng.pick(&["print", "screen", "(min-width:10px)"])),
            _ => rule,
        };
    }
    s
}

#[derive(Clone, Debug, PartialEq)]
struct Won {
    value: String,
    conditional: bool,
}

/// The winning declarations of each element: conditional rules take part, and are marked.
fn cascade(t: &css::Tree, sheet: &[(bool, css::Rule)], i: usize, name: &str) -> Option<Won> {
    let x = t.nodes[i].x;
    let mut best: Option<((bool, u8, css::Spec), Won)> = None;
    let mut put = |key: (bool, u8, css::Spec), value: &str, conditional: bool| {
        if best.as_ref().is_none_or(|b| b.0 <= key) {
            best = Some((key, Won { value: value.trim().into(), conditional }));
        }
    };
    if let Some(v) = x.attr(name) {
        put((false, 0, (0, 0, 0)), v, false);
    }
    for (conditional, r) in sheet {
        if let Some(spec) = r.selectors.iter().filter(|s| s.matches(t, i)).map(css::Selector::specificity).max() {
            for (n, v, imp) in &r.decls {
                if n == name {
                    put((*imp, 1, spec), v, *conditional);
                }
            }
        }
    }
    if let Some(s) = x.attr("style") {
        for (n, v, imp) in values::declarations(s) {
            if n == name {
                put((imp, 2, (0, 0, 0)), &v, false);
            }
        }
    }
    let parent = t.nodes[i].parent;
    match best {
        Some((_, w)) if w.value == "inherit" => parent.and_then(|p| cascade(t, sheet, p, name)),
        Some((_, w)) => Some(w),
        None if css::INHERITED.contains(&name) => parent.and_then(|p| cascade(t, sheet, p, name)),
        None => None,
    }
}

/// P07: the style an element resolves to is the one the cascade gives it.
pub fn styles(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when an element resolves a property set more than once for it or above it; distinct by document");
    ctx.explore("styles", ctx.scale(80_000, 600_000), |rng, _, obs| {
        let mut doc = document(rng, false);
        doc.root.walk_mut(&mut |e| {
            for (p, _, vs) in STYLES {
                if rng.chance(1, 10) {
                    e.set(p, if rng.chance(1, 8) && css::INHERITED.contains(p) { "inherit" } else { *rng.pick(vs) });
                }
            }
            if rng.chance(1, 6) {
                e.set("style", declarations(rng));
            }
        });
        let sheets: Vec<String> = (0..1 + rng.below(2)).map(|_| style_sheet(rng)).collect();
        for s in sheets.iter().rev() {
            let mut e = El::new("style");
            e.children.push(Nd::CData(s.clone()));
            e.set("data-n", "style");
            doc.root.children.insert(0, Nd::El(e));
        }
        let src = doc.text();
        let x = read_root(&src).expect("generated documents are well-formed");
        let t = css::Tree::new(&x);
        let mut rules = vec![];
        for n in t.nodes.iter().filter(|n| n.x.name() == "style") {
            rules.extend(css::parse_sheet_all(&n.x.raw_text()));
        }
        let found = parse(&src, |dom, _| {
            let dom = Element::new(dom).expect("a document is an element too");
            let sheets: Vec<_> = dom.breadth_first().filter(|e| e.local_name().as_str() == "style").filter_map(|e| e.first_child()?.style().cloned()).collect();
            dom.breadth_first()
                .filter_map(|e| Some((number(&e)?, e)))
                .map(|(n, e)| {
                    let styles = ComputedStyles::default().with_all(e, &sheets).map_err(|e| format!("{e:?}"))?;
                    Ok((n, STYLES.iter().map(|(_, id, _)| styles.get(id).map(|(a, m)| (a.value().to_value_string(PrinterOptions::default()).unwrap_or_default(), m == Mode::Dynamic))).collect::<Vec<_>>()))
                })
                .collect::<Result<Vec<_>, String>>()
        });
        match found {
            Err(e) => obs.violation("document not read", &src, format!("{e}")),
            Ok(Err(e)) => obs.violation("styles not resolved", &src, e),
            Ok(Ok(found)) => {
                for (n, got) in found {
                    let i = (0..t.nodes.len()).find(|i| t.nodes[*i].x.attr("data-n") == Some(&n.to_string())).expect("numbered");
                    for ((p, _, _), got) in STYLES.iter().zip(got) {
                        let want = cascade(&t, &rules, i, p);
                        obs.count("properties");
                        let fine = match (&want, &got) {
                            (None, None) => true,
                            (Some(w), Some((v, dynamic))) => *dynamic == w.conditional && values::same(&values::canon(p, &w.value), &values::canon(p, v), 1e-6),
                            _ => false,
                        };
                        if !fine {
                            obs.violation(format!("wrong {}", if want.is_some() == got.is_some() { "value" } else if got.is_some() { "extra value" } else { "missing value" }), &src, format!("{p} of element {n}: expected {want:?}, got {got:?}"));
                        } else if want.is_some() {
                            obs.count("set_properties");
                            obs.nontrivial(&src);
                        }
                    }
                }
            }
        }
        obs.sample(|| json!({"document": clip(&src, 400)}));
    });
}
