//! Jobs that remove or add what they name.
use crate::css;
use crate::doc::*;
use crate::fw::*;
use crate::rendering::optimise;
use oxvg_optimiser::Jobs;
use serde_json::{Value, json};

const EDITORS: &[(&str, &str)] = &[("inkscape", "http://www.inkscape.org/namespaces/inkscape"), ("sodipodi", "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd"), ("sketch", "http://www.bohemiancoding.com/sketch/ns"), ("rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#")];
const OTHERS: &[(&str, &str)] = &[("foo", "urn:foo"), ("bar", "urn:bar")];
const EVENTS: &[&str] = &["onclick", "onload", "onmouseover", "onbegin", "onend", "onrepeat", "onfocusin", "onunload", "onerror", "onresize", "onscroll", "oninput", "onchange", "onkeydown", "onwheel", "ontoggle", "oncopy", "ondrag", "onplay", "onactivate"];
const HREFS: &[&str] = &["#a", "pic.svg", "pic.png", "dir/pic.jpg", "pic.jpeg", "pic.gif", "data:image/png;base64,AA==", "data:image/jpeg;base64,AA==", "data:image/svg+xml;base64,AA==", "https://example.com/page"];
const JS: &[&str] = &["javascript:alert(1)", " javascript:x()", "JavaScript:alert(1)", "javascriptish", "#javascript:", "https://example.com/?javascript:"];
const IDS: &[&str] = &["a", "b", "c-d", "e"];
const CLASSES: &[&str] = &["x", "y", "z", "x-y"];

struct Make<'a> {
    rng: &'a mut Rng,
    prefixes: Vec<&'static str>,
    ids: Vec<&'static str>,
}

impl Make<'_> {
    fn attrs(&mut self, e: &mut El) {
        for _ in 0..self.rng.below(5) {
            match self.rng.below(14) {
                0 => {
                    if let Some(i) = self.ids.pop() {
                        e.set("id", i);
                    }
                }
                1 | 2 => {
                    let mut c: Vec<&str> = (0..1 + self.rng.below(3)).map(|_| *self.rng.pick(CLASSES)).collect();
                    c.dedup();
                    e.set("class", c.join(" "));
                }
                3 | 4 => {
                    let n = *self.rng.pick(&["fill", "stroke", "color", "stop-color"]);
                    let v = *self.rng.pick(&["red", "green", "currentColor", "#123"]);
                    e.set(n, v);
                }
                5 => {
                    e.set(*self.rng.pick(&["data-a", "data-b", "data-a-b", "fill-opacity", "role", "lang"]), *self.rng.pick(&["1", "0"]));
                }
                6 => {
                    let n = *self.rng.pick(EVENTS);
                    e.set(n, "f()");
                }
                7 if matches!(e.name.as_str(), "g" | "rect" | "path" | "text" | "a" | "image" | "svg" | "use") => {
                    e.set(*self.rng.pick(&["requiredFeatures", "systemLanguage", "requiredExtensions"]), *self.rng.pick(&["", "en"]));
                }
                8 => {
                    e.set(*self.rng.pick(&["id", "class", "fill", "style", "transform", "data-e", "stroke-dasharray", "x", "d", "points", "onclick", "href"]), "");
                }
                9 | 10 if !self.prefixes.is_empty() => {
                    let p = *self.rng.pick(&self.prefixes);
                    e.set(&format!("{p}:{}", self.rng.pick(&["label", "bar", "title"])), "v");
                }
                11 => {
                    e.set("xlink:href", *self.rng.pick(HREFS));
                }
                12 => {
                    e.set("href", *self.rng.pick(HREFS));
                }
                _ => {
                    e.set(*self.rng.pick(&["x", "y", "r", "rx"]), (1 + self.rng.below(9)).to_string());
                }
            }
        }
    }

    fn dims(&mut self, e: &mut El) {
        let v = ["10", "20", "20px", "10px", "1in", "50%", "2em", "12.5", "10.0"];
        if self.rng.chance(2, 3) {
            e.set("width", *self.rng.pick(&v));
        }
        if self.rng.chance(2, 3) {
            e.set("height", *self.rng.pick(&v));
        }
        if self.rng.chance(1, 2) {
            e.set("viewBox", *self.rng.pick(&["0 0 10 20", "0 0 20 20", "0 0 10 10", "0 0 20 10", "1 0 10 10", "0 1 10 20", "0 0 96 10", "0 0 12.5 12.5"]));
        }
    }

    fn el(&mut self, depth: usize) -> Nd {
        if self.rng.chance(1, 8) {
            return Nd::Comment((*self.rng.pick(&["!legal", "note", " !not first", "keep me", " legal 12", "12", "!", "x!"])).into());
        }
        if self.rng.chance(1, 20) {
            return Nd::Pi((*self.rng.pick(&["xml-stylesheet", "php", "xmlish"])).into(), "a=\"b\"".into());
        }
        let mut names = vec!["g", "g", "rect", "path", "text", "a", "image", "script", "style", "title", "desc", "metadata", "linearGradient", "pattern", "symbol", "svg", "use"];
        let foreign: Vec<String> = self.prefixes.iter().flat_map(|p| ["title", "script", "namedview", "metadata", "g", "text", "image", "style"].map(|n| format!("{p}:{n}"))).collect();
        if !foreign.is_empty() && self.rng.chance(1, 6) {
            names = foreign.iter().map(String::as_str).collect();
        }
        let name = (*self.rng.pick(&names)).to_string();
        let mut e = El::new(&name);
        self.attrs(&mut e);
        match name.as_str() {
            "script" => e.children.push(Nd::Text("alert(1)".into())),
            "style" => e.children.push(Nd::Text(".x{fill:red}".into())),
            "title" | "metadata" if self.rng.chance(2, 3) => e.children.push(Nd::Text((*self.rng.pick(&["One", "Created with", "Two"])).into())),
            "desc" => {
                if self.rng.chance(3, 4) {
                    e.children.push(Nd::Text((*self.rng.pick(&["About", "Created with Sketch.", "Created using Figma", " ", "Not Created with", "created with"])).into()));
                }
                if self.rng.chance(1, 5) {
                    e.push(El::new("g"));
                }
            }
            "text" => {
                for _ in 0..self.rng.below(4) {
                    match self.rng.below(5) {
                        0 | 1 => e.children.push(Nd::Text((*self.rng.pick(&["one", "two", " three ", " "])).into())),
                        2 => {
                            let mut t = El::new("tspan");
                            self.attrs(&mut t);
                            if self.rng.chance(1, 2) {
                                t = t.text(*self.rng.pick(&["in", " ", "side"]));
                            }
                            e.push(t);
                        }
                        3 => {
                            let mut t = El::new("tref");
                            if self.rng.chance(1, 2) {
                                t.set("xlink:href", "#a");
                            }
                            e.push(t);
                        }
                        _ => {
                            let mut t = El::new("a").text("link");
                            let js = *self.rng.pick(JS);
                            t.set(*self.rng.pick(&["href", "xlink:href"]), js);
                            e.push(t);
                        }
                    }
                }
            }
            "a" => {
                if self.rng.chance(1, 2) {
                    let js = *self.rng.pick(JS);
                    e.set(*self.rng.pick(&["href", "xlink:href"]), js);
                }
                self.inside(&mut e, depth);
            }
            "svg" | "pattern" | "symbol" => {
                self.dims(&mut e);
                self.inside(&mut e, depth);
            }
            _ => self.inside(&mut e, depth),
        }
        Nd::El(e)
    }

    fn inside(&mut self, e: &mut El, depth: usize) {
        if depth > 0 {
            for _ in 0..self.rng.below(4) {
                let c = self.el(depth - 1);
                e.children.push(c);
            }
        }
    }
}

fn document(rng: &mut Rng) -> Doc {
    let mut root = El::new("svg");
    let mut declared = vec![];
    let mut spaces: Vec<(&'static str, &'static str)> = vec![];
    for (p, u) in EDITORS.iter().chain(OTHERS) {
        if rng.chance(1, 3) {
            spaces.push((p, u));
            declared.push(*p);
        }
    }
    root.set("xmlns", SVG).set("xmlns:xlink", XLINK);
    for (p, u) in &spaces {
        root.set(&format!("xmlns:{p}"), *u);
    }
    let mut m = Make { rng, prefixes: declared, ids: IDS.to_vec() };
    if m.rng.chance(1, 2) {
        m.prefixes.pop();
    }
    m.dims(&mut root);
    if m.rng.chance(1, 3) {
        root.set("class", *m.rng.pick(&["x", "y q", "q"]));
    }
    if m.rng.chance(1, 4) {
        root.set("onload", "f()");
    }
    for _ in 0..1 + m.rng.below(6) {
        let c = m.el(3);
        root.children.push(c);
    }
    let mut doc = Doc::of(root);
    if m.rng.chance(1, 4) {
        doc.before.push(Nd::Comment((*m.rng.pick(&["!top", "top"])).into()));
    }
    if m.rng.chance(1, 6) {
        doc.before.push(Nd::Pi("xml-stylesheet".into(), "href=\"a.css\"".into()));
    }
    if m.rng.chance(1, 6) {
        doc.after.push(Nd::Comment((*m.rng.pick(&["!end", "end"])).into()));
    }
    doc
}

/// Removes the elements below `e` for which `bad` holds.
fn drop_els(e: &mut El, bad: &dyn Fn(&El) -> bool) {
    e.children.retain(|c| !matches!(c, Nd::El(c) if bad(c)));
    for c in e.els_mut() {
        drop_els(c, bad);
    }
}

fn drop_attrs(e: &mut El, bad: &dyn Fn(&El, &str, &str) -> bool) {
    e.walk_mut(&mut |e| {
        let whole = e.clone();
        e.attrs.retain(|(n, v)| !bad(&whole, n, v));
    });
}

fn px(v: &str) -> Option<f64> {
    if let Some(v) = v.strip_suffix("px") {
        return v.parse().ok();
    }
    if let Some(v) = v.strip_suffix("in") {
        return v.parse().ok().map(|v: f64| v * 96.0);
    }
    v.parse().ok()
}

fn editor(name: &str, more: &[&str]) -> bool {
    let p = name.split_once(':').map_or("", |p| p.0);
    EDITORS.iter().any(|e| e.0 == p) || more.contains(&p)
}

fn blank(e: &El) -> bool {
    e.children.iter().all(|c| matches!(c, Nd::Text(t) if t.trim().is_empty()))
}

type Test = (&'static str, fn(&str) -> bool);
const ELEMENTS: &[Test] = &[("*", |_| true), (".*", |_| true), ("rect", |n| n == "rect"), ("(rect|path)", |n| n == "rect" || n == "path"), ("rect|path", |n| n == "rect" || n == "path"), ("t.*", |n| n.starts_with('t')), ("[^g]", |n| n.len() == 1 && n != "g")];
const ATTRS: &[Test] = &[
    ("fill", |n| n == "fill"), ("(fill|stroke)", |n| n == "fill" || n == "stroke"), ("fill|stroke", |n| n == "fill" || n == "stroke"), ("data-.*", |n| n.starts_with("data-")), ("class", |n| n == "class"), ("id", |n| n == "id"), ("(stop-)?color", |n| n == "color" || n == "stop-color"),
    ("fill.*", |n| n.starts_with("fill")),
];
const VALUES: &[Test] = &[("*", |_| true), ("red", |v| v == "red"), ("1", |v| v == "1"), ("r.*", |v| v.starts_with('r')), ("red|green", |v| v == "red" || v == "green")];
const COMMENTS: &[Test] = &[("^!", |t| t.starts_with('!')), ("keep", |t| t.contains("keep")), ("[0-9]+$", |t| t.ends_with(|c: char| c.is_ascii_digit())), ("^ ", |t| t.starts_with(' ')), ("zzz", |_| false)];
const SELECTORS: &[&str] = &["rect", ".x", "#a", "g > rect", "[fill]", "rect, path", "g *", ".x.y", "text", "svg > g", "[data-a=\"1\"]", "rect + *", ":not(g)", "*", "svg"];

/// A configuration and what it should make of the document.
fn request(rng: &mut Rng, doc: &Doc) -> (String, Value, Option<Doc>) {
    let mut d = doc.clone();
    let kind = *rng.pick(&[
        "removeComments", "removeMetadata", "removeDesc", "removeTitle", "removeStyleElement", "removeScripts", "removeScripts", "removeRasterImages", "removeElementsByAttr", "removeAttributesBySelector", "removeAttrs", "removeAttrs", "removeDimensions", "removeViewBox", "addAttributesToSVGElement",
        "addClassesToSVGElement", "removeXMLNS", "removeEditorsNSData", "removeEmptyAttrs", "removeEmptyText", "removeUnusedNS", "removeXMLProcInst", "removeDoctype",
    ]);
    let on = !rng.chance(1, 10);
    let config = match kind {
        "removeComments" => {
            let keep: Vec<&Test> = if rng.chance(1, 2) { vec![&COMMENTS[0]] } else { (0..rng.below(3)).map(|_| rng.pick(COMMENTS)).collect() };
            let config = if keep.len() == 1 && keep[0].0 == "^!" && rng.chance(3, 4) { json!({}) } else { json!({"preservePatterns": keep.iter().map(|k| k.0).collect::<Vec<_>>()}) };
            fn go(c: &mut Vec<Nd>, keep: &[&Test]) {
                c.retain(|n| !matches!(n, Nd::Comment(t) if !keep.iter().any(|k| (k.1)(t))));
                for n in c {
                    if let Nd::El(e) = n {
                        go(&mut e.children, keep);
                    }
                }
            }
            go(&mut d.before, &keep);
            go(&mut d.after, &keep);
            go(&mut d.root.children, &keep);
            config
        }
        "removeMetadata" | "removeTitle" | "removeStyleElement" => {
            let name = match kind {
                "removeMetadata" => "metadata",
                "removeTitle" => "title",
                _ => "style",
            };
            if on {
                drop_els(&mut d.root, &|e| e.name == name);
            }
            json!(on)
        }
        "removeDesc" => {
            let any = rng.chance(1, 3);
            drop_els(&mut d.root, &|e| e.name == "desc" && (any || blank(e) || e.children.iter().any(|c| matches!(c, Nd::Text(t) if t.starts_with("Created with") || t.starts_with("Created using")))));
            json!({"removeAny": any})
        }
        "removeScripts" => {
            if on {
                drop_els(&mut d.root, &|e| e.name == "script");
                drop_attrs(&mut d.root, &|_, n, _| n.starts_with("on") && !n.contains(':'));
                fn links(e: &mut El) {
                    for c in e.els_mut() {
                        links(c);
                    }
                    let js = |e: &El| e.name == "a" && e.attrs.iter().any(|(n, v)| (n == "href" || n == "xlink:href") && v.trim_start().to_ascii_lowercase().starts_with("javascript:"));
                    e.children = std::mem::take(&mut e.children)
                        .into_iter()
                        .flat_map(|c| match c {
                            Nd::El(a) if js(&a) => a.children.into_iter().filter(|c| !matches!(c, Nd::Text(t) if t.trim().is_empty())).collect(),
                            c => vec![c],
                        })
                        .collect();
                }
                links(&mut d.root);
            }
            json!(on)
        }
        "removeRasterImages" => {
            let raster = |v: &str| [".png", ".jpg", ".jpeg", ".gif", "image/png", "image/jpeg"].iter().any(|p| v.contains(p));
            if on {
                drop_els(&mut d.root, &|e| e.name == "image" && e.attrs.iter().any(|(n, v)| (n == "href" || n == "xlink:href") && raster(v)));
            }
            json!(on)
        }
        "removeElementsByAttr" => {
            let id: Vec<&str> = IDS.iter().copied().filter(|_| rng.chance(1, 3)).collect();
            let class: Vec<&str> = CLASSES.iter().copied().filter(|_| rng.chance(1, 4)).collect();
            d.root.remove("class");
            let root_class = doc.root.get("class").map(str::to_string);
            drop_els(&mut d.root, &|e| e.get("id").is_some_and(|i| id.contains(&i)) || e.get("class").is_some_and(|c| c.split(' ').any(|c| class.contains(&c))));
            if let Some(c) = root_class {
                if c.split(' ').any(|c| class.contains(&c)) {
                    return (kind.into(), json!(null), None);
                }
                d.root = doc.root.clone();
                drop_els(&mut d.root, &|e| e.get("id").is_some_and(|i| id.contains(&i)) || e.get("class").is_some_and(|c| c.split(' ').any(|c| class.contains(&c))));
            }
            json!({"id": id, "class": class})
        }
        "removeAttributesBySelector" => {
            let mut items = vec![];
            for _ in 0..1 + rng.below(2) {
                let selector = *rng.pick(SELECTORS);
                let names: Vec<&str> = ["fill", "class", "data-a", "stroke", "x", "xlink:href", "href", "width"].into_iter().filter(|_| rng.chance(1, 3)).collect();
                let x = read_root(&d.text()).expect("well-formed");
                let t = css::Tree::new(&x);
                let list = css::parse_list(selector).expect("a selector");
                for i in 0..t.nodes.len() {
                    if list.iter().any(|s| s.matches(&t, i)) {
                        if let Some(e) = d.root.nth_mut(i) {
                            e.attrs.retain(|a| !names.contains(&a.0.as_str()));
                        }
                    }
                }
                items.push(json!({"selector": selector, "attributes": names}));
            }
            json!(items)
        }
        "removeAttrs" => {
            let sep = *rng.pick(&[":", ":", "@", "::"]);
            let keep = rng.chance(1, 3);
            let mut patterns = vec![];
            for _ in 0..1 + rng.below(2) {
                let (e, a, v) = (*rng.pick(ELEMENTS), *rng.pick(ATTRS), *rng.pick(VALUES));
                let parts = 1 + rng.below(3);
                patterns.push(match parts {
                    1 => a.0.to_string(),
                    2 => format!("{}{sep}{}", e.0, a.0),
                    _ => format!("{}{sep}{}{sep}{}", e.0, a.0, v.0),
                });
                let current = |x: &str| keep && x == "currentColor";
                drop_attrs(&mut d.root, &|el, n, x| !current(x) && (a.1)(n) && (parts < 2 || (e.1)(&el.name)) && (parts < 3 || (v.1)(x)));
            }
            json!({"attrs": patterns, "elemSeparator": sep, "preserveCurrentColor": keep})
        }
        "removeDimensions" => {
            if on {
                d.root.walk_mut(&mut |e| {
                    if e.name != "svg" {
                        return;
                    }
                    if e.get("viewBox").is_none() {
                        let (Some(w), Some(h)) = (e.get("width").and_then(px), e.get("height").and_then(px)) else { return };
                        e.remove("width");
                        e.remove("height");
                        e.set("viewBox", format!("0 0 {w} {h}"));
                    }
                    e.remove("width");
                    e.remove("height");
                });
            }
            json!(on)
        }
        "removeViewBox" => {
            if on {
                let mut first = true;
                d.root.walk_mut(&mut |e| {
                    let root = std::mem::take(&mut first);
                    if !(root || matches!(e.name.as_str(), "pattern" | "symbol")) {
                        return;
                    }
                    let Some(b) = e.get("viewBox") else { return };
                    let b: Vec<f64> = b.split(' ').filter_map(|v| v.parse().ok()).collect();
                    if b[0] == 0.0 && b[1] == 0.0 && e.get("width").and_then(px) == Some(b[2]) && e.get("height").and_then(px) == Some(b[3]) {
                        e.remove("viewBox");
                    }
                });
            }
            json!(on)
        }
        "addAttributesToSVGElement" => {
            let mut add: Vec<(&str, &str)> = [("class", "n"), ("data-n", "1"), ("fill", "red"), ("id", "n"), ("width", "30"), ("xlink:href", "#z"), ("focusable", "false")].into_iter().filter(|_| rng.chance(1, 3)).collect();
            add.sort();
            for (n, v) in &add {
                if d.root.get(n).is_none() {
                    d.root.set(n, *v);
                }
            }
            json!({"attributes": add.iter().map(|(n, v)| ((*n).to_string(), json!(v))).collect::<serde_json::Map<_, _>>()})
        }
        "addClassesToSVGElement" => {
            let names: Vec<&str> = (0..rng.below(4)).map(|_| *rng.pick(&["x", "n", "m", "q", "k"])).collect();
            let text = *rng.pick(&["x n", " m  k ", "n", "q q", ""]);
            let list: Vec<&str> = d.root.get("class").map(|c| c.split(' ').map(|c| &*c.to_string().leak()).collect()).unwrap_or_default();
            let use_names = rng.chance(1, 2);
            let both = rng.chance(1, 4);
            let mut list = list;
            let new: Vec<&str> = if use_names { names.clone() } else { text.split_whitespace().collect() };
            for n in new {
                if !list.contains(&n) {
                    list.push(n);
                }
            }
            if !list.is_empty() {
                d.root.set("class", list.join(" "));
            }
            match (use_names, both) {
                (true, true) => json!({"classNames": names, "className": text}),
                (true, false) => json!({"classNames": names}),
                _ => json!({"className": text}),
            }
        }
        "removeEditorsNSData" => {
            let more: &[&str] = if rng.chance(1, 3) { &["foo"] } else { &[] };
            drop_els(&mut d.root, &|e| editor(&e.name, more));
            drop_attrs(&mut d.root, &|_, n, _| editor(n, more) || n.strip_prefix("xmlns:").is_some_and(|p| editor(&format!("{p}:"), more)));
            if more.is_empty() { json!({}) } else { json!({"additionalNamespaces": ["urn:foo"]}) }
        }
        "removeEmptyAttrs" => {
            if on {
                drop_attrs(&mut d.root, &|_, n, v| v.is_empty() && !matches!(n, "requiredFeatures" | "requiredExtensions" | "systemLanguage"));
            }
            json!(on)
        }
        "removeEmptyText" => {
            let opts = [rng.chance(3, 4), rng.chance(3, 4), rng.chance(3, 4)];
            fn go(e: &mut El, opts: [bool; 3]) {
                e.children.retain(|c| {
                    let Nd::El(c) = c else { return true };
                    match c.name.as_str() {
                        "text" => !opts[0] || !blank(c),
                        "tspan" => !opts[1] || !c.children.is_empty(),
                        "tref" => !opts[2] || c.get("xlink:href").is_some(),
                        _ => true,
                    }
                });
                for c in e.els_mut() {
                    go(c, opts);
                }
            }
            go(&mut d.root, opts);
            json!({"text": opts[0], "tspan": opts[1], "tref": opts[2]})
        }
        "removeUnusedNS" => {
            if on {
                let mut used = std::collections::BTreeSet::new();
                d.root.walk(&mut |e| {
                    for n in std::iter::once(&e.name).chain(e.attrs.iter().map(|a| &a.0)) {
                        if let Some((p, _)) = n.split_once(':') {
                            used.insert(p.to_string());
                        }
                    }
                });
                d.root.attrs.retain(|(n, _)| n.strip_prefix("xmlns:").is_none_or(|p| used.contains(p)));
            }
            json!(on)
        }
        _ => json!(on),
    };
    (kind.into(), config, Some(d))
}

/// P09: jobs that name what they remove or add do just that.
pub fn exact(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when the job had something to change; distinct by document and configuration");
    let none = Jobs::none();
    ctx.explore("requests", ctx.scale(80_000, 2_000_000), |rng, _, obs| {
        let doc = document(rng);
        let (kind, config, want) = request(rng, &doc);
        let Some(want) = want else { return };
        let src = doc.text();
        let config = json!({ kind.as_str(): config }).to_string();
        let jobs: Jobs = serde_json::from_str(&config).unwrap_or_else(|e| panic!("{config}: {e}"));
        let verdict = |doc: &Doc, want: &Doc| -> Result<bool, (String, String)> {
            let src = doc.text();
            let mut got = optimise(&src, &jobs).map_err(|e| ("fails".to_string(), e))?;
            if kind != "removeXMLNS" {
                got = optimise(&got, &none).map_err(|e| ("fails".to_string(), e))?;
            }
            let base = optimise(&src, &none).map_err(|e| ("fails".to_string(), e))?;
            let mut expected = optimise(&want.text(), &none).map_err(|e| ("fails".to_string(), e))?;
            if kind == "removeXMLNS" && config.contains("true") {
                expected = expected.replace(&format!(" xmlns=\"{SVG}\""), "");
            }
            if kind == "addClassesToSVGElement" {
                (got, expected) = (sorted_classes(&got), sorted_classes(&expected));
            }
            if got == expected { Ok(base != expected) } else { Err(("differs".into(), format!("expected {expected}, got {got}"))) }
        };
        match verdict(&doc, &want) {
            Ok(true) => {
                obs.nontrivial(&format!("{config} {src}"));
                obs.count(&format!("changed_{kind}"));
            }
            Ok(false) => obs.count("nothing_to_change"),
            Err((what, detail)) => obs.violation(format!("{kind} {what}"), format!("{config} on {src}"), detail),
        }
        obs.sample(|| json!({"config": config, "document": src}));
    });
    orders(ctx);
}

/// With the classes of the first tag in order; the job does not promise one.
fn sorted_classes(src: &str) -> String {
    let Some(start) = src.find(" class=\"").filter(|i| *i < src[src.find("<svg").unwrap_or(0)..].find('>').unwrap_or(0) + src.find("<svg").unwrap_or(0)) else { return src.into() };
    let start = start + 8;
    let end = start + src[start..].find('"').unwrap_or(0);
    let mut names: Vec<&str> = src[start..end].split(' ').collect();
    names.sort_unstable();
    format!("{}{}{}", &src[..start], names.join(" "), &src[end..])
}

/// Attribute order as documented.
fn orders(ctx: &Ctx) {
    ctx.explore("orders", ctx.scale(20_000, 400_000), |rng, _, obs| {
        let doc = document(rng);
        let mut src = doc.text();
        let order: Option<Vec<&str>> = rng.chance(1, 2).then(|| {
            let mut all = vec!["class", "id", "fill", "data", "x", "href", "stroke", "width", "zzz"];
            rng.shuffle(&mut all);
            all.truncate(rng.below(6));
            all
        });
        let front = rng.chance(1, 2);
        let mut config = json!({"xmlnsOrder": if front { "front" } else { "alphabetical" }});
        if let Some(o) = &order {
            config["order"] = json!(o);
        }
        let config = json!({ "sortAttrs": config }).to_string();
        let jobs: Jobs = serde_json::from_str(&config).unwrap_or_else(|e| panic!("{config}: {e}"));
        let (Ok(base), Ok(got)) = (optimise(&src, &Jobs::none()), optimise(&src, &jobs)) else {
            obs.violation("sortAttrs fails", src, config);
            return;
        };
        src = base;
        let order = order.unwrap_or_else(|| vec!["id", "width", "height", "x", "x1", "x2", "y", "y1", "y2", "cx", "cy", "r", "fill", "stroke", "marker", "d", "points"]);
        let rank = |n: &str| -> (usize, usize) {
            let space = match n {
                "xmlns" if front => 0,
                n if front && n.starts_with("xmlns:") => 1,
                n if n.contains(':') => 2,
                _ => 3,
            };
            let local = n.split_once(':').map_or(n, |p| p.1);
            let part = local.split('-').next().unwrap_or("");
            (space, order.iter().position(|o| *o == part).unwrap_or(usize::MAX))
        };
        let (a, b) = (tags(&src), tags(&got));
        let mut moved = false;
        for (a, b) in a.iter().zip(&b) {
            let (mut x, mut y) = (a.clone(), b.clone());
            moved |= x != y;
            x.sort();
            y.sort();
            if x != y {
                obs.violation("sortAttrs changes attributes", format!("{config} on {src}"), format!("{a:?} became {b:?}"));
                return;
            }
            if let Some(w) = b.windows(2).find(|w| rank(&w[0].0) > rank(&w[1].0) || rank(&w[0].0) == rank(&w[1].0) && w[0].0 > w[1].0) {
                obs.violation("sortAttrs leaves attributes out of order", format!("{config} on {src}"), format!("{} before {} in {got}", w[0].0, w[1].0));
                return;
            }
        }
        if a.len() != b.len() {
            obs.violation("sortAttrs changes elements", format!("{config} on {src}"), got);
            return;
        }
        if moved {
            obs.nontrivial(&format!("{config} {src}"));
            obs.count("changed_sortAttrs");
        }
    });
}

/// The attributes of each start tag in the order written.
fn tags(src: &str) -> Vec<Vec<(String, String)>> {
    let mut out = vec![];
    let mut rest = src;
    while let Some(i) = rest.find('<') {
        rest = &rest[i + 1..];
        if let Some(r) = rest.strip_prefix("!--") {
            rest = r.find("-->").map_or("", |i| &r[i + 3..]);
            continue;
        }
        if let Some(r) = rest.strip_prefix("![CDATA[") {
            rest = r.find("]]>").map_or("", |i| &r[i + 3..]);
            continue;
        }
        if rest.starts_with('?') || rest.starts_with('/') || rest.starts_with('!') {
            continue;
        }
        let mut attrs = vec![];
        let n = rest.find(|c: char| c.is_whitespace() || c == '>' || c == '/').unwrap_or(rest.len());
        rest = &rest[n..];
        loop {
            rest = rest.trim_start();
            if rest.is_empty() || rest.starts_with('>') || rest.starts_with("/>") {
                break;
            }
            let Some(eq) = rest.find('=') else { break };
            let name = rest[..eq].trim().to_string();
            rest = rest[eq + 1..].trim_start();
            let Some(q) = rest.chars().next() else { break };
            let Some(end) = rest[1..].find(q) else { break };
            attrs.push((name, rest[1..=end].to_string()));
            rest = &rest[end + 2..];
        }
        out.push(attrs);
    }
    out
}
