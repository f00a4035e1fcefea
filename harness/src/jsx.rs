//! Documents as components (P17).
use crate::cli;
use crate::doc::*;
use crate::fw::*;
use crate::jsxread::{self as jr, At, Ch, Js, Jx, Module, Param};
use crate::names;
use crate::xml::{self, White};
use oxvg_ast::parse::roxmltree::{ParsingOptions, parse_with_options};
use oxvg_ast::xmlwriter::{Options, Space};
use oxvg_collections::attribute::AttrId;
use oxvg_collections::element::ElementId;
use oxvg_collections::name::Prefix;
use oxvg_jsx::config::{ExpandProps, ExportType, Icon, JSXRuntime, JsxRuntimeImport, State};
use oxvg_jsx::{Config, transform};
use oxvg_optimiser::Jobs;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// The name React has for an attribute.
fn react_name(ns: &str, name: &str) -> Option<String> {
    let camel = |prefix: &str| {
        let mut c = name.chars();
        c.next().map(|f| format!("{prefix}{}{}", f.to_uppercase(), c.as_str()))
    };
    match ns {
        XLINK => ["actuate", "arcrole", "href", "role", "show", "title", "type"].contains(&name).then(|| camel("xlink")).flatten(),
        XML => ["base", "lang", "space"].contains(&name).then(|| camel("xml")).flatten(),
        "" => Some(match name {
            "class" => "className".into(),
            "tabindex" => "tabIndex".into(),
            "crossorigin" => "crossOrigin".into(),
            "hreflang" => "hrefLang".into(),
            "referrerpolicy" => "referrerPolicy".into(),
            "autofocus" => "autoFocus".into(),
            n if !n.contains('-') || n.starts_with("aria-") || n.starts_with("data-") => n.into(),
            n => {
                let mut out = String::new();
                for (i, p) in n.split('-').enumerate() {
                    let mut c = p.chars();
                    match c.next() {
                        Some(f) if i > 0 => out.push_str(&format!("{}{}", f.to_uppercase(), c.as_str())),
                        Some(f) => out.push_str(&format!("{f}{}", c.as_str())),
                        None => {}
                    }
                }
                out
            }
        }),
        _ => None,
    }
}

fn back() -> &'static BTreeMap<String, (String, String)> {
    static T: std::sync::OnceLock<BTreeMap<String, (String, String)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = BTreeMap::new();
        for n in names::ATTRIBUTES {
            t.insert(react_name("", n).expect("plain"), (String::new(), n.to_string()));
        }
        for n in ["actuate", "arcrole", "href", "role", "show", "title", "type"] {
            t.insert(react_name(XLINK, n).expect("xlink"), (XLINK.into(), n.into()));
        }
        for n in ["base", "lang", "space"] {
            t.insert(react_name(XML, n).expect("xml"), (XML.into(), n.into()));
        }
        t
    })
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    Num(f64),
    Str(String),
    Bool(bool),
    Style(Vec<(String, String)>),
    /// What the caller handed over to hold on to the element
    Ref,
    Absent,
    Props(Vec<(String, V)>),
    Tree(Box<E>),
}

#[derive(Clone, Debug, PartialEq)]
struct E {
    name: String,
    attrs: BTreeMap<String, V>,
    children: Vec<N>,
}

#[derive(Clone, Debug, PartialEq)]
enum N {
    El(E),
    Text(String),
}

type Env = BTreeMap<String, V>;

fn truthy(v: &V) -> bool {
    !matches!(v, V::Absent | V::Bool(false)) && *v != V::Str(String::new()) && *v != V::Num(0.0)
}

fn eval(e: &Js, env: &Env) -> Result<V, String> {
    Ok(match e {
        Js::Num(n) => V::Num(*n),
        Js::Str(s) => V::Str(s.clone()),
        Js::Bool(b) => V::Bool(*b),
        Js::Null => V::Absent,
        Js::Ident(i) if i == "undefined" => V::Absent,
        Js::Ident(i) => env.get(i).cloned().ok_or_else(|| format!("{i} is not bound"))?,
        Js::Obj(props) => V::Style(
            props
                .iter()
                .map(|(k, v)| match eval(v, env)? {
                    V::Str(s) => Ok((k.clone(), s)),
                    v => Err(format!("style {k} is {v:?}")),
                })
                .collect::<Result<_, String>>()?,
        ),
        Js::Or(a, b) => {
            let a = eval(a, env)?;
            if truthy(&a) { a } else { eval(b, env)? }
        }
        Js::Same(a, b) => V::Bool(eval(a, env)? == eval(b, env)?),
        Js::Cond(c, a, b) => if truthy(&eval(c, env)?) { eval(a, env)? } else { eval(b, env)? },
        Js::Jsx(x) => V::Tree(Box::new(render(x, env)?)),
    })
}

fn render(x: &Jx, env: &Env) -> Result<E, String> {
    let mut e = E { name: x.name.clone().unwrap_or_default(), attrs: BTreeMap::new(), children: vec![] };
    for a in &x.attrs {
        match a {
            At::Attr(k, v) => {
                e.attrs.insert(k.clone(), eval(v, env)?);
            }
            At::Spread(p) => match eval(p, env)? {
                V::Props(p) => e.attrs.extend(p),
                V::Absent => {}
                v => return Err(format!("spreading {v:?}")),
            },
        }
    }
    e.attrs.retain(|_, v| *v != V::Absent);
    for c in &x.children {
        let n = match c {
            Ch::Text(t) => N::Text(t.clone()),
            Ch::El(x) => N::El(render(x, env)?),
            Ch::Expr(None) => continue,
            Ch::Expr(Some(j)) => match eval(j, env)? {
                V::Absent | V::Bool(_) => continue,
                V::Str(s) => N::Text(s),
                V::Num(n) => N::Text(n.to_string()),
                V::Tree(t) => N::El(*t),
                v => return Err(format!("{v:?} as a child")),
            },
        };
        if let (Some(N::Text(a)), N::Text(b)) = (e.children.last_mut(), &n) {
            a.push_str(b);
        } else {
            e.children.push(n);
        }
    }
    Ok(e)
}

fn props_of(opts: &Opts, given: bool) -> Vec<(String, V)> {
    let mut p = vec![];
    if !given {
        return p;
    }
    let s = |t: &str| V::Str(t.into());
    if opts.title {
        p.extend([("title".to_string(), s("Given title")), ("titleId".into(), s("given-title"))]);
    }
    if opts.desc {
        p.extend([("desc".to_string(), s("Given desc")), ("descId".into(), s("given-desc"))]);
    }
    if opts.expand != 2 {
        p.extend([("className".to_string(), s("given")), ("data-given".into(), s("yes")), ("width".into(), V::Num(7.0))]);
    }
    p
}

fn mount(m: &Module, props: &[(String, V)]) -> Result<E, String> {
    let mut env = Env::new();
    env.insert("color".into(), V::Str("COLOR".into()));
    for (i, p) in m.params.iter().enumerate() {
        match (i, p) {
            (0, Param::Name(n)) => {
                env.insert(n.clone(), V::Props(props.to_vec()));
            }
            (0, Param::Object(names, rest)) => {
                for n in names {
                    env.insert(n.clone(), props.iter().find(|p| p.0 == *n).map_or(V::Absent, |p| p.1.clone()));
                }
                if let Some(r) = rest {
                    env.insert(r.clone(), V::Props(props.iter().filter(|p| !names.contains(&p.0)).cloned().collect()));
                }
            }
            (1, Param::Name(n)) => {
                env.insert(n.clone(), V::Ref);
            }
            _ => return Err(format!("parameter {i} is {p:?}")),
        }
    }
    match eval(m.body.as_ref().expect("a body"), &env)? {
        V::Tree(t) => Ok(*t),
        v => Err(format!("renders {v:?}")),
    }
}

/// The rendered tree as a document.
fn to_x(e: &E) -> X {
    let mut attrs = BTreeMap::new();
    for (k, v) in &e.attrs {
        if k == "xmlns" || k == "xmlnsXlink" {
            continue;
        }
        let key = back().get(k).cloned().unwrap_or((String::new(), k.clone()));
        let text = match v {
            V::Num(n) => n.to_string(),
            V::Bool(b) => b.to_string(),
            V::Str(s) => s.clone(),
            V::Style(p) => p.iter().map(|(k, v)| format!("{}:{v}", css_name(k))).collect::<Vec<_>>().join(";"),
            V::Ref => "REF".into(),
            v => format!("{v:?}"),
        };
        attrs.insert(key, text);
    }
    X::El {
        ns: SVG.into(),
        name: e.name.clone(),
        attrs,
        children: e
            .children
            .iter()
            .map(|c| match c {
                N::El(e) => to_x(e),
                N::Text(t) => X::Text(t.clone()),
            })
            .collect(),
    }
}

fn css_name(k: &str) -> String {
    if k.starts_with("--") {
        return k.into();
    }
    let mut out = String::new();
    for c in k.chars() {
        if c.is_uppercase() {
            out.push('-');
            out.extend(c.to_lowercase());
        } else {
            out.push(c);
        }
    }
    out
}

#[derive(Clone, Debug, Default)]
struct Opts {
    native: bool,
    r#ref: bool,
    title: bool,
    desc: bool,
    /// start, end, none
    expand: usize,
    dimensions: bool,
    icon: Option<(String, V2)>,
    svg_props: Vec<(String, String)>,
    replace: Vec<(String, String)>,
    typescript: bool,
    memo: bool,
    named: bool,
    alias: Option<String>,
    /// classic, automatic, preact, or of one's own
    runtime: usize,
    own_runtime: (bool, bool, bool, bool),
    name: Option<String>,
}

#[derive(Clone, Debug)]
enum V2 {
    True,
    Text,
    Number(f64),
}

const KEYS: &[(&str, &[&str])] = &[
    ("data-testid", &["icon", "a\"b", "x & y", "{color}"]),
    ("className", &["icon big", "{color}"]),
    ("viewBox", &["0 0 24 24"]),
    ("role", &["img", "{\"img\"}"]),
    ("tabIndex", &["{3}", "4"]),
    ("focusable", &["false", "{false}"]),
    ("ariaish", &["'", "\\", "{", "}", "<", "a{b}c"]),
    ("fill", &["none", "{color}"]),
];

const REPLACE: &[(&str, &[&str])] =
    &[("none", &["currentColor", "foo", "{color}"]), ("foo", &["Bar baz", "none", "x\"y"]), ("currentColor", &["{color}", "none"]), ("a", &["b", "{color}"]), ("b", &["a", "c"]), ("nonzero", &["evenodd"])];

fn random_opts(rng: &mut Rng) -> Opts {
    let some = |rng: &mut Rng, table: &[(&str, &[&str])], n: usize| -> Vec<(String, String)> {
        let mut t: Vec<_> = table.to_vec();
        rng.shuffle(&mut t);
        let n = rng.below(n + 1).min(t.len());
        t[..n].iter().map(|(k, v)| (k.to_string(), rng.pick(v).to_string())).collect()
    };
    let plain = rng.chance(1, 4);
    let p = |rng: &mut Rng| !plain && rng.chance(1, 3);
    Opts {
        native: p(rng),
        r#ref: p(rng),
        title: p(rng),
        desc: p(rng),
        expand: if plain { 1 } else { rng.below(3) },
        dimensions: !p(rng),
        icon: p(rng).then(|| match rng.below(3) {
            0 => ("1em".to_string(), V2::True),
            1 => ("2em".to_string(), V2::Text),
            _ => (String::new(), V2::Number(*rng.pick(&[24.0, 16.5, 0.0]))),
        }),
        svg_props: if p(rng) { some(rng, KEYS, 5) } else { vec![] },
        replace: if p(rng) { some(rng, REPLACE, 4) } else { vec![] },
        typescript: p(rng),
        memo: p(rng),
        named: p(rng),
        alias: p(rng).then(|| (*rng.pick(&["ReactComponent", "default_", "X1"])).to_string()),
        runtime: if plain { 0 } else { rng.below(4) },
        own_runtime: (rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 2)),
        name: p(rng).then(|| (*rng.pick(&["Arrow", "IconA1", "_x", "$"])).to_string()),
    }
}

fn config(o: &Opts, jobs: Option<Jobs>) -> Config {
    let map = |v: &Vec<(String, String)>| (!v.is_empty()).then(|| v.iter().cloned().collect::<HashMap<_, _>>());
    Config {
        r#ref: Some(o.r#ref),
        title_prop: Some(o.title),
        desc_prop: Some(o.desc),
        expand_props: Some([ExpandProps::Start, ExpandProps::End, ExpandProps::None][o.expand]),
        dimensions: Some(o.dimensions),
        icon: o.icon.as_ref().map(|(t, v)| match v {
            V2::True => Icon::Bool(true),
            V2::Text => Icon::String(t.clone()),
            V2::Number(n) => Icon::Number(*n),
        }),
        native: Some(o.native),
        svg_props: map(&o.svg_props),
        replace_attr_values: map(&o.replace),
        typescript: Some(o.typescript),
        oxvg: Some(jobs.is_some()),
        oxvg_config: jobs,
        memo: Some(o.memo),
        export_type: Some(if o.named { ExportType::Named } else { ExportType::Default }),
        named_export: o.alias.clone(),
        jsx_runtime: Some([JSXRuntime::Classic, JSXRuntime::Automatic, JSXRuntime::ClassicPreact, JSXRuntime::Classic][o.runtime]),
        jsx_runtime_import: (o.runtime == 3).then(|| {
            let (apart, star, default, some) = o.own_runtime;
            JsxRuntimeImport {
                source_namespace: apart.then(|| "own/core".into()),
                source: "own".into(),
                specifiers: some.then(|| vec!["h".into(), "Fragment".into()]),
                namespace: star.then(|| "Own".into()),
                default_specifier: default.then(|| "own".into()),
            }
        }),
        warn: Some(false),
    }
}

fn convert(src: &str, cfg: Config, name: Option<String>) -> Result<String, String> {
    parse_with_options(src, ParsingOptions { allow_dtd: true, ..Default::default() }, |dom, allocator| {
        let mut out = vec![];
        let template: Option<oxvg_jsx::config::Template<Vec<u8>>> = None;
        transform(dom, allocator, Some(cfg), name.map(|n| State { component_name: n }), template, &mut out).map_err(|e| e.to_string())?;
        String::from_utf8(out).map_err(|e| e.to_string())
    })
    .map_err(|e| format!("cannot read: {e}"))?
}

const NATIVE: &[(&str, &str)] = &[
    ("svg", "Svg"), ("circle", "Circle"), ("clipPath", "ClipPath"), ("ellipse", "Ellipse"), ("g", "G"), ("linearGradient", "LinearGradient"), ("radialGradient", "RadialGradient"), ("line", "Line"),
    ("path", "Path"), ("pattern", "Pattern"), ("polygon", "Polygon"), ("polyline", "Polyline"), ("rect", "Rect"), ("symbol", "Symbol"), ("text", "Text"), ("textPath", "TextPath"), ("tspan", "TSpan"),
    ("use", "Use"), ("defs", "Defs"), ("stop", "Stop"), ("mask", "Mask"), ("image", "Image"), ("foreignObject", "ForeignObject"),
];

/// What of a document a component has: no comments, no instructions, nothing of other vocabularies.
fn wanted(x: &X, native: bool) -> Option<X> {
    match x {
        X::El { ns, name, attrs, children } => {
            if ns != SVG {
                return None;
            }
            let tag = name;
            let name = if native { NATIVE.iter().find(|n| n.0 == name)?.1.to_string() } else { name.clone() };
            // names with a hyphen or a prefix are known by the elements that take them
            let takes = |prefix: Prefix<'static>, a: &str| !matches!(ElementId::new(Prefix::SVG, tag.to_string().into()).parse_attr_id(&prefix, a.to_string().into()), AttrId::Unknown(_));
            let taken = |ns: &str, a: &str| match ns {
                "" => !a.contains('-') || a.starts_with("data-") || a.starts_with("aria-") || takes(Prefix::SVG, a),
                XLINK => takes(Prefix::XLink, a),
                XML => takes(Prefix::XML, a),
                _ => true,
            };
            let attrs = attrs.iter().filter(|((ns, a), _)| react_name(ns, a).is_some() && taken(ns, a)).map(|(k, v)| (k.clone(), v.clone())).collect();
            let mut kids: Vec<X> = vec![];
            for c in children.iter().filter_map(|c| wanted(c, native)) {
                if let (Some(X::Text(a)), X::Text(b)) = (kids.last_mut(), &c) {
                    a.push_str(b);
                } else {
                    kids.push(c);
                }
            }
            Some(X::El { ns: ns.clone(), name, attrs, children: kids })
        }
        X::Text(t) => Some(X::Text(t.clone())),
        _ => None,
    }
}

fn key(react: &str) -> (String, String) {
    back().get(react).cloned().unwrap_or((String::new(), react.to_string()))
}

/// A value of the configuration, braces standing for an expression.
fn templated(v: &str) -> String {
    match v {
        "{color}" => "COLOR".into(),
        "{\"img\"}" => "img".into(),
        "{3}" => "3".into(),
        "{false}" => "false".into(),
        v => v.into(),
    }
}

fn apply(x: &mut X, o: &Opts, given: bool) {
    let X::El { attrs, children, .. } = x else { return };
    let mut own = attrs.clone();
    for (k, v) in &o.svg_props {
        own.insert(key(k), templated(v));
    }
    if o.r#ref {
        own.insert(key("ref"), "REF".into());
    }
    for (on, name, id, text, label) in [(o.desc, "desc", "given-desc", "Given desc", "aria-describedby"), (o.title, "title", "given-title", "Given title", "aria-labelledby")] {
        if !on {
            continue;
        }
        own.remove(&key(label));
        if given {
            own.insert(key(label), id.into());
        }
        let tag = if o.native { format!("{}{}", name[..1].to_uppercase(), &name[1..]) } else { name.to_string() };
        let made = |id: Option<&str>| X::El {
            ns: SVG.into(),
            name: tag.clone(),
            attrs: id.map(|id| (key("id"), id.to_string())).into_iter().collect(),
            children: vec![X::Text(text.into())],
        };
        match children.iter_mut().find(|c| c.name() == tag) {
            Some(old) if given => *old = made(Some(id)),
            Some(_) => {}
            None if given => children.insert(0, made(Some(id))),
            None => {}
        }
    }
    if !o.dimensions {
        own.remove(&key("width"));
        own.remove(&key("height"));
    }
    if let Some((t, v)) = &o.icon {
        let t = match v {
            V2::True if o.native => "24".into(),
            V2::Number(n) => n.to_string(),
            _ => t.clone(),
        };
        own.insert(key("width"), t.clone());
        own.insert(key("height"), t);
    }
    let mut passed = BTreeMap::new();
    if given && o.expand != 2 {
        passed.insert(key("className"), "given".to_string());
        passed.insert(key("data-given"), "yes".to_string());
        passed.insert(key("width"), "7".to_string());
    }
    if o.expand == 0 {
        passed.extend(own);
        *attrs = passed;
    } else {
        own.extend(passed);
        *attrs = own;
    }
}

/// Names are bound once, used ones are bound, and imports come from where the options say.
fn names_hold(m: &Module, o: &Opts) -> Result<(), String> {
    let mut bound: BTreeMap<String, String> = BTreeMap::new();
    let mut bind = |name: &str, from: &str| match bound.insert(name.to_string(), from.to_string()) {
        None => Ok(()),
        Some(_) => Err(format!("{name} is bound twice")),
    };
    for i in &m.imports {
        if let Some(d) = &i.default {
            bind(d, &format!("{} default", i.from))?;
        }
        if let Some(n) = &i.namespace {
            bind(n, &format!("{} *", i.from))?;
        }
        for n in &i.named {
            bind(n, &i.from)?;
        }
    }
    for n in m.interfaces.keys() {
        bind(n, "here")?;
    }
    bind(&m.component, "here")?;
    for (n, _, _) in &m.wraps {
        bind(n, "here")?;
    }
    let mut used: BTreeSet<String> = BTreeSet::new();
    fn tags(e: &Js, used: &mut BTreeSet<String>) {
        fn el(x: &Jx, used: &mut BTreeSet<String>) {
            if let Some(n) = &x.name {
                if n.starts_with(|c: char| c.is_uppercase()) {
                    used.insert(n.clone());
                }
            }
            for a in &x.attrs {
                match a {
                    At::Attr(_, v) | At::Spread(v) => tags(v, used),
                }
            }
            for c in &x.children {
                match c {
                    Ch::El(x) => el(x, used),
                    Ch::Expr(Some(e)) => tags(e, used),
                    _ => {}
                }
            }
        }
        match e {
            Js::Jsx(x) => el(x, used),
            Js::Or(a, b) | Js::Same(a, b) => {
                tags(a, used);
                tags(b, used);
            }
            Js::Cond(a, b, c) => {
                tags(a, used);
                tags(b, used);
                tags(c, used);
            }
            _ => {}
        }
    }
    tags(m.body.as_ref().expect("a body"), &mut used);
    let elements = used.clone();
    for (_, f, a) in &m.wraps {
        used.insert(f.clone());
        used.insert(a.clone());
    }
    for (_, inner) in &m.exports {
        used.insert(inner.clone());
    }
    for t in m.types.iter().flatten() {
        if !["SVGSVGElement", "string"].contains(&t.as_str()) {
            used.insert(t.clone());
        }
    }
    if let Some(u) = used.iter().find(|u| !bound.contains_key(*u)) {
        return Err(format!("{u} is not bound"));
    }
    // where each comes from
    let from = |n: &str| bound.get(n).map(String::as_str);
    let want = |n: &str, w: Option<&str>| if from(n) == w { Ok(()) } else { Err(format!("{n} comes from {:?} rather than {w:?}", from(n))) };
    if o.native {
        for e in &elements {
            want(e, Some(if e == "Svg" { "react-native-svg default" } else { "react-native-svg" }))?;
        }
        for i in m.imports.iter().filter(|i| i.from == "react-native-svg") {
            for n in &i.named {
                if !elements.contains(n) && n != "SVGProps" {
                    return Err(format!("{n} is imported for nothing"));
                }
            }
        }
    }
    let (apart, star, default, some) = o.own_runtime;
    let source = match o.runtime {
        0 | 1 => "react",
        2 => "preact/compat",
        _ if apart => "own/core",
        _ => "own",
    };
    for (on, n) in [(o.r#ref, "forwardRef"), (o.memo, "memo")] {
        want(n, on.then_some(source))?;
    }
    want("React", (o.runtime == 0).then_some("react *"))?;
    match o.runtime {
        2 => want("h", Some("preact/compat"))?,
        3 => {
            let core = if apart { "own/core" } else { "own" };
            want("h", some.then_some("own"))?;
            want("Own", star.then_some(format!("{core} *").as_str()))?;
            want("own", default.then_some(format!("{core} default").as_str()))?;
        }
        _ => want("h", None)?,
    }
    Ok(())
}

fn shape_holds(m: &Module, o: &Opts) -> Result<(), String> {
    let name = o.name.clone().unwrap_or("SvgComponent".into());
    if m.component != name {
        return Err(format!("the component is called {}", m.component));
    }
    let mut want = vec![];
    let mut last = name;
    for (on, f, n) in [(o.r#ref, "forwardRef", "ForwardRef"), (o.memo, "memo", "Memo")] {
        if on {
            want.push((n.to_string(), f.to_string(), last));
            last = n.to_string();
        }
    }
    if m.wraps != want {
        return Err(format!("wrapped by {:?}", m.wraps));
    }
    let outer = if o.named { o.alias.clone().unwrap_or(last.clone()) } else { "default".into() };
    if m.exports != vec![(outer, last)] {
        return Err(format!("exports {:?}", m.exports));
    }
    let props: Vec<&str> = [(o.title, ["title", "titleId"]), (o.desc, ["desc", "descId"])].into_iter().filter(|p| p.0).flat_map(|p| p.1).collect();
    for (i, t) in m.types.iter().enumerate() {
        if !o.typescript && !t.is_empty() {
            return Err("types without TypeScript".into());
        }
        if o.typescript && i == 0 && m.params[0] != Param::Name("_".into()) {
            let has = |n: &str| t.iter().any(|t| t == n);
            if (o.expand != 2) != has("SVGProps") {
                return Err(format!("passed on properties typed {t:?}"));
            }
            let declared: Vec<&String> = t.iter().filter_map(|t| m.interfaces.get(t)).flatten().collect();
            if declared != props {
                return Err(format!("properties {props:?} declared as {declared:?}"));
            }
        }
        if o.typescript && i == 1 && *t != ["Ref", "SVGSVGElement"] {
            return Err(format!("reference typed {t:?}"));
        }
    }
    if !o.typescript && !m.interfaces.is_empty() {
        return Err("interfaces without TypeScript".into());
    }
    Ok(())
}

fn replaced(e: &E, map: &[(String, String)]) -> E {
    let mut e = e.clone();
    for v in e.attrs.values_mut() {
        if let V::Str(s) = v {
            if let Some((_, n)) = map.iter().find(|(k, _)| k == s) {
                *v = V::Str(templated(n));
            }
        }
    }
    for c in e.children.iter_mut() {
        if let N::El(x) = c {
            *x = replaced(x, map);
        }
    }
    e
}

fn judge(src: &str, source: &X, o: &Opts, jobs: Option<&Jobs>, obs: &mut Obs) -> Result<(), (String, String)> {
    let bad = |s: &str, d: String| Err((s.to_string(), d));
    let mut plain = o.clone();
    plain.replace.clear();
    let out = match convert(src, config(&plain, jobs.cloned()), o.name.clone()) {
        Ok(o) => o,
        Err(e) => return bad("a document cannot be converted", e),
    };
    obs.trace(&out);
    let m = match jr::module(&out) {
        Ok(m) => m,
        Err(e) => return bad("the module is not valid", format!("{e} in {out}")),
    };
    if let Err(e) = names_hold(&m, o) {
        return bad("names of the module", format!("{e} in {out}"));
    }
    if let Err(e) = shape_holds(&m, o) {
        return bad("declarations of the module", format!("{e} in {out}"));
    }
    if convert(src, config(&plain, jobs.cloned()), o.name.clone()).as_ref() != Ok(&out) {
        return bad("the same document gives another module", out);
    }
    for given in [false, true] {
        let props = props_of(o, given);
        let tree = match mount(&m, &props) {
            Ok(t) => t,
            Err(e) => return bad("the component does not render", format!("{e} in {out}")),
        };
        let Some(mut want) = wanted(source, o.native) else { return bad("no root", String::new()) };
        apply(&mut want, o, given);
        obs.count(if given { "rendered with properties" } else { "rendered" });
        // renamed native elements keep their own text rules
        if let Err((sig, d)) = xml::compare(&want, &to_x(&tree), White::Collapsed, false, "") {
            return bad(&sig, format!("{d} (properties {}) in {out}", if given { "given" } else { "not given" }));
        }
        if !o.replace.is_empty() {
            let out2 = match convert(src, config(o, jobs.cloned()), o.name.clone()) {
                Ok(o) => o,
                Err(e) => return bad("a document cannot be converted", e),
            };
            let t2 = jr::module(&out2).and_then(|m| mount(&m, &props));
            let base = mount(&m, &[]).map(|_| ()).and_then(|()| {
                // values passed by the caller are not replaced
                mount(&m, &props)
            });
            let want = base.map(|b| {
                let mut r = replaced(&b, &o.replace);
                for (k, v) in &props {
                    if o.expand == 1 && ["className", "data-given", "width"].contains(&k.as_str()) && r.attrs.contains_key(k) {
                        r.attrs.insert(k.clone(), v.clone());
                    }
                }
                r
            });
            obs.count("values replaced");
            match (t2, want) {
                (Ok(a), Ok(b)) if to_x(&a) == to_x(&b) => {}
                (a, b) => return bad("replaced values", format!("{:?} rather than {:?} in {out2}", a.map(|a| to_x(&a)), b.map(|b| to_x(&b)))),
            }
        }
    }
    Ok(())
}

/// A document whose every element can be in a component or is under a prefix.
fn document(rng: &mut Rng, size: usize) -> Doc {
    let st = xml::Style { foreign: rng.chance(1, 2), text: true, style: true, preserve: rng.chance(1, 3), comments: rng.chance(1, 2) };
    let mut doc = xml::random_document(rng, st, size);
    doc.root.prune(&|e| e.get("xmlns").is_some());
    // words that mean something in a module
    doc.root.walk_mut(&mut |e| {
        for c in e.children.iter_mut() {
            if let Nd::Text(t) = c {
                if !t.trim().is_empty() && rng.chance(1, 4) && e.name != "style" {
                    t.push_str(rng.pick(&["{", "}", "{color}", "&lt;", "&copy;", "\\n", "`", "//", "{/*"]));
                }
            }
        }
        if rng.chance(1, 6) {
            let n = *rng.pick(&["data-a", "data-b-c", "id", "class", "lang", "role"]);
            let v = *rng.pick(&["{", "}", "{color}", "&lt;", "&copy;", "a\\nb", "'", "\"", "a\nb", "\\", "é\u{2028}", "'\"", "<b>", "&#65;"]);
            if !(n == "id" || n == "class") || !v.contains(['"', '\'', '\n', '&', '<']) {
                e.set(n, v);
            }
        }
    });
    let depth = doc.root.count();
    if rng.chance(1, 3) {
        let k = rng.below(depth);
        let name = *rng.pick(&["title", "desc"]);
        let mut t = El::new(name).text("Old one");
        if rng.chance(1, 2) {
            t.set("id", "old");
        }
        if let Some(e) = doc.root.nth_mut(if rng.chance(2, 3) { 0 } else { k }) {
            if !["style", "text", "tspan", "textPath", "title", "desc"].contains(&e.name.as_str()) {
                e.children.insert(0, Nd::El(t));
            }
        }
    }
    doc
}

fn odd(rng: &mut Rng) -> Doc {
    let mut root = svg();
    for _ in 0..1 + rng.below(3) {
        let mut e = El::new(rng.pick(names::ELEMENTS));
        for _ in 0..1 + rng.below(4) {
            let n = *rng.pick(names::ATTRIBUTES);
            if !n.starts_with("xmlns") && !n.starts_with("on") && n != "autofocus" {
                e.set(n, crate::values::generate(rng, n));
            }
        }
        root.push(e);
    }
    Doc::of(root)
}

fn written(src: &str) -> Result<X, String> {
    xml::write(src, Options { trim_whitespace: Space::Never, ..Options::default() }).and_then(|s| read_root(&s))
}

pub fn components(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when the document has at least three elements; distinct by document and options");
    ctx.assume("components are rendered by an evaluator of our own that follows the rules of React for values and text");
    for (group, n, optimised) in [("documents", ctx.scale(160_000, 1_000_000), false), ("attributes", ctx.scale(80_000, 500_000), false), ("optimised", ctx.scale(20_000, 300_000), true)] {
        ctx.explore(group, n, |rng, _, obs| {
            let mut doc = if group == "attributes" { odd(rng) } else { document(rng, 16) };
            if optimised {
                // moved to another element such an attribute is still not known
                doc.root.walk_mut(&mut |e| {
                    if e.name == "g" || e.name == "svg" {
                        e.attrs.retain(|a| !a.0.starts_with("xlink:"));
                    }
                });
            }
            let src = doc.varied(rng);
            let Ok(_) = read(&src) else {
                obs.count("generated_not_well_formed");
                return;
            };
            let o = random_opts(rng);
            if doc.root.count() > 2 {
                obs.nontrivial(&format!("{src}{o:?}"));
            }
            let jobs = optimised.then(|| if rng.chance(1, 2) { Jobs::default() } else { Jobs::safe() });
            let source = match &jobs {
                Some(j) => match cli::expect(&src, j, None, Options::default()) {
                    Some(s) => read_root(&s),
                    None => return,
                },
                // how values are read and written is a matter of its own
                None => written(&src),
            };
            let Ok(source) = source else { return };
            obs.sample(|| json!({"source": clip(&src, 300), "options": format!("{o:?}")}));
            let Err((sig, d)) = judge(&src, &source, &o, jobs.as_ref(), obs) else { return };
            // make it smaller, if it is not a matter of optimisation
            let mut best = (src.clone(), d);
            if !optimised {
                let small = shrink(&doc, &mut |d| {
                    let t = d.text();
                    written(&t).is_ok_and(|s| judge(&t, &s, &o, None, &mut Obs::default()).is_err_and(|e| e.0 == sig))
                });
                let t = small.text();
                if let Ok(s) = written(&t) {
                    if let Err((s2, d2)) = judge(&t, &s, &o, None, &mut Obs::default()) {
                        if s2 == sig {
                            best = (t, d2);
                        }
                    }
                }
            }
            obs.violation(sig, format!("{o:?}\n{}", best.0), best.1);
        });
    }
}
