//! Reading a document and writing it back (P03), and laying it out for people (P04).
use crate::doc::*;
use crate::fw::*;
use crate::names;
use crate::values;
use oxvg_ast::serialize::{Indent, Node as _, Options, Space};
use oxvg_ast::parse::roxmltree::{ParsingOptions, parse_with_options};
use serde_json::json;

const SHAPES: &[&str] = &["rect", "circle", "ellipse", "line", "polyline", "polygon", "path"];
const PRESENTATION: &[&str] = &[
    "fill", "stroke", "opacity", "fill-opacity", "stroke-opacity", "stroke-width", "fill-rule", "clip-rule", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-dasharray",
    "stroke-dashoffset", "visibility", "display", "color", "font-weight", "font-style", "text-anchor", "shape-rendering", "pointer-events", "clip-path", "mask", "filter", "marker-start", "marker-end", "overflow", "style", "class", "transform", "id",
];

pub fn specific(el: &str) -> &'static [&'static str] {
    match el {
        "rect" => &["x", "y", "width", "height", "rx", "ry"],
        "circle" => &["cx", "cy", "r"],
        "ellipse" => &["cx", "cy", "rx", "ry"],
        "line" => &["x1", "y1", "x2", "y2"],
        "polyline" | "polygon" => &["points"],
        "path" => &["d", "pathLength"],
        "svg" => &["x", "y", "width", "height", "viewBox", "preserveAspectRatio"],
        "use" => &["x", "y", "width", "height", "href"],
        "image" => &["x", "y", "width", "height", "href", "preserveAspectRatio"],
        "linearGradient" => &["x1", "y1", "x2", "y2", "gradientUnits", "gradientTransform", "spreadMethod", "href"],
        "radialGradient" => &["cx", "cy", "r", "fx", "fy", "gradientUnits", "gradientTransform", "spreadMethod"],
        "stop" => &["offset", "stop-color", "stop-opacity"],
        "clipPath" => &["clipPathUnits"],
        "mask" => &["x", "y", "width", "height", "maskUnits", "maskContentUnits"],
        "pattern" => &["x", "y", "width", "height", "patternUnits", "patternTransform", "viewBox"],
        "marker" => &["refX", "refY", "markerWidth", "markerHeight", "viewBox"],
        "text" | "tspan" => &["x", "y", "dx", "dy", "rotate", "textLength"],
        "textPath" => &["startOffset", "href"],
        "feGaussianBlur" => &["stdDeviation"],
        "feFlood" => &["flood-color", "flood-opacity"],
        "feOffset" => &["dx", "dy"],
        _ => &[],
    }
}

const CONTAINERS: &[&str] = &["g", "g", "g", "defs", "symbol", "svg", "a", "switch", "clipPath", "mask", "pattern", "marker"];

pub struct Style {
    /// Elements and attributes of other vocabularies
    pub foreign: bool,
    pub text: bool,
    pub style: bool,
    pub preserve: bool,
    pub comments: bool,
}

struct Gen<'a> {
    rng: &'a mut Rng,
    st: Style,
    id: usize,
    left: usize,
}

const PREFIXES: &[(&str, &str)] = &[("a", "urn:a"), ("b", "urn:b"), ("inkscape", "http://www.inkscape.org/namespaces/inkscape"), ("sodipodi", "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd")];

impl Gen<'_> {
    fn attrs(&mut self, e: &mut El, scope: &Vec<(String, String)>) {
        let own = specific(&e.name);
        for a in own {
            if self.rng.chance(3, 5) {
                let v = if *a == "href" { "#a".to_string() } else { values::generate(self.rng, a) };
                e.set(a, v);
            }
        }
        for _ in 0..self.rng.below(4) {
            let a = *self.rng.pick(PRESENTATION);
            if e.get(a).is_some() {
                continue;
            }
            let v = if a == "id" {
                self.id += 1;
                format!("{}{}", self.rng.pick(&["a", "b-", "Layer_", "é"]), self.id)
            } else {
                values::generate(self.rng, a)
            };
            e.set(a, v);
        }
        if self.st.foreign && self.rng.chance(1, 5) {
            let n = *self.rng.pick(&["data-x", "aria-label", "unknown", "onclick", "title", "lang"]);
            e.set(n, values::generate(self.rng, n));
        }
        if self.st.foreign && self.rng.chance(1, 5) {
            let (p, _) = self.rng.pick(scope).clone();
            if !p.is_empty() {
                let n = format!("{p}:{}", self.rng.pick(&["label", "q", "href", "title"]));
                if e.get(&n).is_none() {
                    e.set(&n, values::generate(self.rng, "unknown"));
                }
            }
        }
        if self.rng.chance(1, 2) {
            self.rng.shuffle(&mut e.attrs);
        }
    }

    fn words(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.rng.below(4) {
            s.push_str(self.rng.pick(&["hello", "a&b", "x<y", "\u{a0}", "é☃", "]]>", "'q'", "\"", "1", "w"]));
            s.push_str(self.rng.pick(&["", " ", "  ", "\n ", "\t"]));
        }
        if self.rng.chance(1, 3) {
            s.insert(0, ' ');
        }
        s
    }

    fn filler(&mut self, into: &mut Vec<Nd>) {
        if self.rng.chance(1, 3) {
            into.push(Nd::Text((*self.rng.pick(&["\n", "\n  ", " ", "\n\t\n"])).into()));
        }
        if self.st.comments && self.rng.chance(1, 12) {
            into.push(Nd::Comment((*self.rng.pick(&["c", " a comment ", " <x> & y ", "multi\nline", ""])).into()));
        }
        if self.st.comments && self.rng.chance(1, 25) {
            into.push(Nd::Pi((*self.rng.pick(&["pi", "xml-stylesheet", "php"])).into(), (*self.rng.pick(&["", "a=\"b\"", "x > y & z"])).into()));
        }
    }

    fn element(&mut self, depth: usize, scope: &[(String, String)]) -> El {
        self.left = self.left.saturating_sub(1);
        let mut scope = scope.to_vec();
        let mut decls: Vec<(String, String)> = vec![];
        if self.st.foreign && self.rng.chance(1, 8) {
            let (p, u) = *self.rng.pick(PREFIXES);
            let u = if self.rng.chance(1, 4) { "urn:other" } else { u };
            decls.push((format!("xmlns:{p}"), u.to_string()));
            scope.retain(|s| s.0 != p);
            scope.push((p.to_string(), u.to_string()));
        }
        let foreign: Vec<_> = scope.iter().filter(|s| !s.0.is_empty() && s.0 != "xlink").cloned().collect();
        if self.st.foreign && !foreign.is_empty() && self.rng.chance(1, 10) {
            let (p, _) = self.rng.pick(&foreign).clone();
            let mut e = El::new(&format!("{p}:{}", self.rng.pick(&["meta", "el", "path", "g"])));
            e.attrs = decls;
            self.attrs(&mut e, &scope);
            self.children(&mut e, depth, &scope, true);
            return e;
        }
        if self.st.foreign && self.rng.chance(1, 20) {
            let mut e = El::new(self.rng.pick(&["div", "rect", "thing"]));
            let u = *self.rng.pick(&["urn:a", "http://www.w3.org/1999/xhtml", "urn:z", ""]);
            decls.push(("xmlns".into(), u.into()));
            e.attrs = decls;
            e.set("q", "1");
            self.children(&mut e, depth, &scope, true);
            // everything below is in that default namespace too
            return e;
        }
        let container = depth > 0 && self.left > 0 && self.rng.chance(1, 2);
        let mut e = if container {
            El::new(self.rng.pick(CONTAINERS))
        } else if self.st.text && self.rng.chance(1, 6) {
            El::new("text")
        } else if self.st.style && self.rng.chance(1, 12) {
            let mut e = El::new("style");
            e.children.push(Nd::Text(self.css()));
            return e;
        } else if self.rng.chance(1, 10) {
            let mut e = El::new(self.rng.pick(&["linearGradient", "radialGradient"]));
            for _ in 0..self.rng.below(3) {
                let mut s = El::new("stop");
                self.attrs(&mut s, &scope);
                e.push(s);
            }
            e
        } else if self.st.text && self.rng.chance(1, 10) {
            let mut e = El::new(self.rng.pick(&["title", "desc"]));
            e.children.push(Nd::Text(self.words()));
            e
        } else {
            El::new(if self.rng.chance(1, 8) { self.rng.pick(&["use", "image"]) } else { self.rng.pick(SHAPES) })
        };
        e.attrs = decls;
        self.attrs(&mut e, &scope);
        if self.st.preserve && self.rng.chance(1, 15) {
            e.set("xml:space", *self.rng.pick(&["preserve", "preserve", "default"]));
        }
        if e.name == "text" {
            self.text_children(&mut e, 2);
        } else if container {
            self.children(&mut e, depth - 1, &scope, false);
        }
        e
    }

    fn text_children(&mut self, e: &mut El, depth: usize) {
        for _ in 0..self.rng.below(4) {
            if depth > 0 && self.rng.chance(1, 3) {
                let mut c = El::new(self.rng.pick(&["tspan", "tspan", "a", "textPath"]));
                if self.rng.chance(1, 2) {
                    self.attrs(&mut c, &vec![(String::new(), String::new())]);
                }
                if self.st.preserve && self.rng.chance(1, 8) {
                    c.set("xml:space", *self.rng.pick(&["preserve", "default"]));
                }
                self.text_children(&mut c, depth - 1);
                e.push(c);
            } else if self.st.comments && self.rng.chance(1, 10) {
                e.children.push(Nd::Comment("in text".into()));
            } else {
                let t = self.words();
                e.children.push(Nd::Text(t));
            }
        }
    }

    fn children(&mut self, e: &mut El, depth: usize, scope: &[(String, String)], texty: bool) {
        self.filler(&mut e.children);
        for _ in 0..self.rng.below(5) {
            if self.left == 0 {
                break;
            }
            if texty && self.rng.chance(1, 3) {
                let t = self.words();
                e.children.push(Nd::Text(t));
            }
            let c = self.element(depth.saturating_sub(1), scope);
            e.push(c);
            self.filler(&mut e.children);
        }
    }

    fn css(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.rng.below(3) {
            let sel = *self.rng.pick(&[".a", "#a1", "rect", "g > path", ".a .b", "*", "rect,circle", "path:hover", "[fill]", ".c-1:not(.a)"]);
            let body = values::generate(self.rng, "style");
            s.push_str(&format!("{}{sel}{}{{{body}}}", self.rng.pick(&["", "\n", "  "]), self.rng.pick(&["", " "])));
        }
        s
    }
}

pub fn random_document(rng: &mut Rng, st: Style, size: usize) -> Doc {
    let left = 1 + rng.below(size);
    let mut g = Gen { rng, st, id: 0, left };
    let mut root = svg();
    let mut scope = vec![(String::new(), SVG.to_string())];
    if g.rng.chance(1, 3) {
        root.set("xmlns:xlink", XLINK);
        scope.push(("xlink".into(), XLINK.into()));
    }
    if g.st.foreign {
        for (p, u) in PREFIXES {
            if g.rng.chance(1, 4) {
                root.set(&format!("xmlns:{p}"), *u);
                scope.push((p.to_string(), u.to_string()));
            }
        }
        if g.rng.chance(1, 10) {
            // the SVG vocabulary under a prefix as well
            root.set("xmlns:s", SVG);
        }
    }
    g.attrs(&mut root, &scope);
    let depth = 1 + g.rng.below(5);
    g.children(&mut root, depth, &scope, false);
    let mut doc = Doc::of(root);
    if g.st.comments {
        if g.rng.chance(1, 8) {
            doc.before.push(Nd::Comment("before".into()));
        }
        if g.rng.chance(1, 8) {
            doc.before.push(Nd::Pi("pi".into(), "x".into()));
        }
        if g.rng.chance(1, 8) {
            doc.after.push(Nd::Comment("after".into()));
        }
    }
    // names under an XML prefix must be unique once resolved
    doc
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum White {
    /// Text is the same to the character
    Exact,
    /// Runs of white space are one space, where text is rendered
    Collapsed,
    /// As collapsed, but the space next to inline elements may be missing
    Trimmed,
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\n' | '\t' | '\r')
}

fn collapse(s: &str) -> String {
    s.split(is_ws).filter(|p| !p.is_empty()).collect::<Vec<_>>().join(" ")
}

/// The characters a `text` element renders, with the element boundaries marked.
fn rendered(x: &X, preserve: bool, out: &mut Vec<(char, bool)>) {
    let p = match x.attr_ns(XML, "space") {
        Some("preserve") => true,
        Some("default") => false,
        _ => preserve,
    };
    for c in x.children() {
        match c {
            X::Text(t) => out.extend(t.chars().map(|c| (if is_ws(c) { ' ' } else { c }, p))),
            X::El { .. } => {
                rendered(c, p, out);
            }
            _ => {}
        }
    }
}

fn rendered_text(x: &X, preserve: bool) -> String {
    let mut v = vec![];
    rendered(x, preserve, &mut v);
    let mut s = String::new();
    let mut last_space = true;
    let mut kept: Vec<bool> = vec![];
    for (c, p) in v {
        if c == ' ' && !p {
            if last_space {
                continue;
            }
            last_space = true;
        } else {
            last_space = false;
        }
        s.push(c);
        kept.push(p);
    }
    if s.ends_with(' ') && kept.last() == Some(&false) {
        s.pop();
    }
    s
}

/// Whether `t` is `s` with some of its spaces gone.
fn thinned(s: &str, t: &str) -> bool {
    let mut t = t.chars().peekable();
    for c in s.chars() {
        if t.peek() == Some(&c) {
            t.next();
        } else if c != ' ' {
            return false;
        }
    }
    t.next().is_none()
}

pub const TEXT_CONTENT: &[&str] = &["text"];

pub fn compare(a: &X, b: &X, white: White, preserve: bool, path: &str) -> Result<(), (String, String)> {
    match (a, b) {
        (X::El { ns, name, attrs, .. }, X::El { ns: ns2, name: name2, attrs: attrs2, .. }) => {
            let here = format!("{path}/{name}");
            if ns != ns2 || name != name2 {
                return Err(("element changed".into(), format!("{here}: {{{ns}}}{name} became {{{ns2}}}{name2}")));
            }
            for (k, v) in attrs {
                let Some(w) = attrs2.get(k) else {
                    return Err(("attribute lost".into(), format!("{here}: {k:?}={v:?} is gone")));
                };
                let svg_attr = k.0.is_empty();
                let same = v == w || svg_attr && values::same(&values::canon(&k.1, v), &values::canon(&k.1, w), 2e-6);
                if !same {
                    return Err((format!("attribute value changed: {}", k.1), format!("{here}: {}={v:?} became {w:?}", k.1)));
                }
            }
            if let Some((k, w)) = attrs2.iter().find(|(k, _)| !attrs.contains_key(*k)) {
                return Err(("attribute appeared".into(), format!("{here}: {k:?}={w:?} is new")));
            }
            let preserve = match a.attr_ns(XML, "space") {
                Some("preserve") => true,
                Some("default") => false,
                _ => preserve,
            };
            if name == "style" {
                return compare_css(&a.raw_text(), &b.raw_text()).map_err(|d| ("stylesheet changed".into(), format!("{here}: {d}")));
            }
            if white != White::Exact && ns == SVG && TEXT_CONTENT.contains(&name.as_str()) {
                let (s, t) = (rendered_text(a, preserve), rendered_text(b, preserve));
                let same = if white == White::Trimmed { thinned(&s, &t) } else { s == t };
                if !same {
                    return Err(("rendered text changed".into(), format!("{here}: {s:?} became {t:?}")));
                }
            }
            let norm = |x: &X| -> Vec<X> {
                x.children()
                    .iter()
                    .filter_map(|c| match c {
                        X::Text(t) if white == White::Exact => Some(X::Text(t.clone())),
                        X::Text(t) if preserve => Some(X::Text(t.replace(is_ws, " "))),
                        X::Text(t) => Some(collapse(t)).filter(|t| !t.is_empty()).map(X::Text),
                        c => Some(c.clone()),
                    })
                    .filter(|c| *c != X::Text(String::new()))
                    .collect()
            };
            let (ca, cb) = (norm(a), norm(b));
            for (x, y) in ca.iter().zip(&cb) {
                compare(x, y, white, preserve, &here)?;
            }
            if ca.len() != cb.len() {
                let (which, rest) = if ca.len() > cb.len() { ("lost", &ca[cb.len()..]) } else { ("appeared", &cb[ca.len()..]) };
                return Err((format!("content {which}"), format!("{here}: {:?}", clip(&format!("{rest:?}"), 300))));
            }
            Ok(())
        }
        (X::Text(s), X::Text(t)) if s == t => Ok(()),
        (X::Comment(s), X::Comment(t)) if s == t => Ok(()),
        (X::Pi(s, v), X::Pi(t, w)) if s == t && v == w => Ok(()),
        _ => Err((format!("{} changed", kind_of(a)), format!("{path}: {:?} became {:?}", clip(&format!("{a:?}"), 200), clip(&format!("{b:?}"), 200)))),
    }
}

fn kind_of(x: &X) -> &'static str {
    match x {
        X::El { .. } => "element",
        X::Text(_) => "text",
        X::Comment(_) => "comment",
        X::Pi(..) => "processing instruction",
    }
}

/// Rules of a simple stylesheet: selector text without spacing, and declarations.
pub fn css_rules(s: &str) -> Vec<(String, Vec<(String, Vec<values::Tok>, bool)>)> {
    let mut out = vec![];
    for part in s.split('}') {
        if let Some((sel, body)) = part.split_once('{') {
            let sel: String = sel.split_whitespace().collect::<Vec<_>>().join(" ").replace(" > ", ">").replace(" ,", ",").replace(", ", ",");
            let mut d: Vec<_> = values::declarations(body).into_iter().map(|(n, v, i)| (n, values::tokens(&v), i)).collect();
            d.sort_by_key(|d| d.2);
            out.push((sel, d));
        }
    }
    out
}

fn compare_css(a: &str, b: &str) -> Result<(), String> {
    let (ra, rb) = (css_rules(a), css_rules(b));
    let ok = ra.len() == rb.len()
        && ra.iter().zip(&rb).all(|(x, y)| x.0 == y.0 && values::same(&values::Canon::Style(x.1.clone()), &values::Canon::Style(y.1.clone()), 1e-5));
    if ok { Ok(()) } else { Err(format!("{a:?} became {b:?}")) }
}

pub fn write(src: &str, opts: Options) -> Result<String, String> {
    parse_with_options(src, ParsingOptions { allow_dtd: true, ..Default::default() }, |dom, _| {
        dom.serialize_with_options(opts).map_err(|e| format!("cannot write: {e}"))
    })
    .map_err(|e| format!("cannot read: {e}"))?
}

/// Repeated attributes once names are resolved, which no XML reader accepts.
fn acceptable(src: &str) -> bool {
    read(src).is_ok()
}

/// P03: a document that is read and written is the same document.
pub fn round_trip(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when the document has at least four nodes below its root; distinct by the text");
    ctx.explore("documents", ctx.scale(60_000, 1_500_000), |rng, _, obs| {
        let st = Style { foreign: rng.chance(1, 2), text: true, style: true, preserve: rng.chance(1, 2), comments: rng.chance(1, 2) };
        let doc = random_document(rng, st, 24);
        let src = doc.varied(rng);
        if !acceptable(&src) {
            obs.count("generated_not_well_formed");
            return;
        }
        let (which, opts, white) = match rng.below(4) {
            0 => ("as is", Options { trim_whitespace: Space::Never, ..Options::default() }, White::Exact),
            1 => ("as is, single quotes", Options { trim_whitespace: Space::Never, use_single_quote: true, ..Options::default() }, White::Exact),
            2 => ("minified, open tags", Options { enable_self_closing: false, ..Options::default() }, White::Collapsed),
            _ => ("minified", Options::default(), White::Collapsed),
        };
        check_round_trip(&src, which, opts, white, obs, "");
    });
    ctx.explore("odd values", ctx.scale(60_000, 1_000_000), |rng, _, obs| {
        let mut root = El::new("svg");
        root.set("xmlns", SVG);
        let mut e = El::new(rng.pick(names::ELEMENTS));
        for _ in 0..1 + rng.below(3) {
            let n = *rng.pick(names::ATTRIBUTES);
            if !matches!(n, "style" | "d" | "path" | "points" | "autofocus") && !n.starts_with("xmlns") {
                e.set(n, (0..1 + rng.below(3)).map(|_| *rng.pick(ODD)).collect::<Vec<_>>().join(rng.pick(&[" ", ",", ";", ""])));
            }
        }
        root.push(e);
        let src = Doc::of(root).text();
        obs.nontrivial(&src);
        let before = read(&src).expect("readable");
        let after = write(&src, Options::default()).and_then(|o| read(&o).map_err(|e| format!("{e}: {o}")));
        match after {
            Ok(after) => {
                if let Err(e) = same_values(&before, &after) {
                    obs.violation(format!("value of {} that cannot be read changed", e.0), &src, e.1);
                }
            }
            Err(e) => obs.violation("well-formed document refused", &src, e),
        }
    });
    ctx.directed("known", KNOWN, |(name, src), obs| check_round_trip(src, "minified", Options::default(), White::Collapsed, obs, name));
}

/// Parts no attribute other than free text ones takes.
const ODD: &[&str] = &["~", "foo~", "?1", "%", "!x", "a!b", "@", "x{", "}", "~0", "é", "1~", "*", "`"];

fn same_values(a: &X, b: &X) -> Result<(), (String, String)> {
    let (mut x, mut y) = (vec![], vec![]);
    a.walk(&mut |n| if let X::El { attrs, .. } = n { x.extend(attrs.iter().map(|(k, v)| (k.clone(), v.clone()))) });
    b.walk(&mut |n| if let X::El { attrs, .. } = n { y.extend(attrs.iter().map(|(k, v)| (k.clone(), v.clone()))) });
    for (p, q) in x.iter().zip(&y) {
        if p != q {
            return Err((format!("{:?}", p.0), format!("{p:?} became {q:?}")));
        }
    }
    if x.len() != y.len() { Err(("one".into(), "attribute lost".into())) } else { Ok(()) }
}

const KNOWN: &[(&str, &str)] = &[
    ("less-than in a media query", r#"<svg xmlns="http://www.w3.org/2000/svg"><style>@media (width&lt;=200px){a{fill:red}}</style></svg>"#),
];

fn check_round_trip(src: &str, which: &str, opts: Options, white: White, obs: &mut Obs, name: &str) {
    let tag = |s: &str| if name.is_empty() { s.to_string() } else { format!("{name}: {s}") };
    let before = read(src).expect("readable");
    let out = match write(src, opts) {
        Ok(o) => o,
        Err(e) => {
            obs.violation(tag("well-formed document refused"), src, e);
            return;
        }
    };
    let mut n = 0;
    before.walk(&mut |_| n += 1);
    if n > 5 {
        obs.nontrivial(&src);
    }
    obs.add("nodes_compared", n);
    obs.count(&format!("written {which}"));
    let after = match read(&out) {
        Ok(a) => a,
        Err(e) => {
            obs.violation(tag("the written document is not well-formed"), src, format!("{e}: {out}"));
            return;
        }
    };
    if !name.is_empty() {
        return;
    }
    if let Err((sig, d)) = compare(&before, &after, white, false, "") {
        obs.violation(sig, src, format!("{which}: {d}; written as {}", clip(&out, 600)));
        return;
    }
    let again = write(&out, opts);
    if again.as_ref() != Ok(&out) {
        obs.violation("writing is not stable", src, format!("{which}: first {out}, then {again:?}"));
    }
    obs.sample(|| json!({"source": clip(src, 300), "written": clip(&out, 300)}));
}

/// P04: laying out a document changes only white space that is not rendered.
pub fn layout(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when the document has at least four nodes below its root; distinct by the text and layout");
    ctx.assume("space next to inline elements of text is not compared in random documents: dropping it is a recorded finding");
    ctx.explore("documents", ctx.scale(60_000, 1_500_000), |rng, _, obs| {
        let st = Style { foreign: rng.chance(1, 2), text: rng.chance(2, 3), style: true, preserve: rng.chance(1, 2), comments: rng.chance(1, 2) };
        let doc = random_document(rng, st, 24);
        let src = doc.varied(rng);
        if !acceptable(&src) {
            obs.count("generated_not_well_formed");
            return;
        }
        let indent = match rng.below(6) {
            0 => Indent::Tabs,
            1 => Indent::Spaces(0),
            n => Indent::Spaces(n as u8),
        };
        let attributes_indent = if rng.chance(1, 4) { Indent::Spaces(2) } else { Indent::None };
        let opts = Options { indent, attributes_indent, use_single_quote: rng.chance(1, 5), enable_self_closing: rng.chance(4, 5), ..Options::pretty() };
        let before = read(&src).expect("readable");
        let out = match write(&src, opts) {
            Ok(o) => o,
            Err(e) => {
                obs.violation("well-formed document refused", &src, e);
                return;
            }
        };
        let after = match read(&out) {
            Ok(a) => a,
            Err(e) => {
                obs.violation("the laid out document is not well-formed", &src, format!("{e}: {out}"));
                return;
            }
        };
        let mut n = 0;
        before.walk(&mut |_| n += 1);
        if n > 5 {
            obs.nontrivial(&(&src, format!("{opts:?}")));
        }
        obs.add("nodes_compared", n);
        if let Err((sig, d)) = compare(&before, &after, White::Trimmed, false, "") {
            obs.violation(sig, &src, format!("{opts:?}: {d}; laid out as {}", clip(&out, 900)));
            return;
        }
        let again = write(&out, opts);
        if again.as_ref() != Ok(&out) {
            obs.violation("laying out is not stable", &src, format!("{opts:?}: first {out}, then {again:?}"));
        }
        if attributes_indent == Indent::None {
            if let Err(d) = indentation(&out, indent, obs) {
                obs.violation("indentation does not follow nesting", &src, format!("{opts:?}: {d}; laid out as {}", clip(&out, 900)));
            }
        }
        obs.sample(|| json!({"source": clip(&src, 300), "written": clip(&out, 300)}));
    });
    ctx.directed("known", INLINE, |(name, src), obs| {
        let before = read(src).unwrap();
        let out = write(src, Options::pretty()).unwrap_or_default();
        let after = read(&out).unwrap();
        obs.nontrivial(name);
        if let Err((sig, d)) = compare(&before, &after, White::Collapsed, false, "") {
            obs.violation(format!("{name}: {sig}"), *src, d);
        }
    });
}

const INLINE: &[(&str, &str)] = &[
    ("space before an inline element", r#"<svg xmlns="http://www.w3.org/2000/svg"><text>A <tspan>b</tspan></text></svg>"#),
    ("space inside an inline element", r#"<svg xmlns="http://www.w3.org/2000/svg"><text>A<tspan> b</tspan></text></svg>"#),
];

/// Every tag that starts a line is indented by its depth.
fn indentation(out: &str, indent: Indent, obs: &mut Obs) -> Result<(), String> {
    let opts = roxmltree::ParsingOptions { allow_dtd: true, ..Default::default() };
    let doc = roxmltree::Document::parse_with_options(out, opts).map_err(|e| e.to_string())?;
    for e in doc.descendants().filter(|e| e.is_element()) {
        let inline = e.ancestors().skip(1).any(|a| a.attribute((XML, "space")).is_some() || matches!(a.tag_name().name(), "text" | "a") || a.children().any(|c| c.is_text() && c.text().is_some_and(|t| !t.trim().is_empty())));
        if inline {
            continue;
        }
        let start = e.range().start;
        let line = out[..start].rfind('\n').map_or(0, |p| p + 1);
        let lead = &out[line..start];
        let depth = e.ancestors().filter(|a| a.is_element()).count() - 1;
        let want = match indent {
            Indent::None => continue,
            Indent::Tabs => "\t".repeat(depth),
            Indent::Spaces(n) => " ".repeat(depth * n as usize),
        };
        if lead != want {
            return Err(format!("{} at depth {depth} is preceded by {lead:?}", e.tag_name().name()));
        }
        obs.count("indented_tags");
    }
    Ok(())
}
