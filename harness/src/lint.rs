//! What the linter reports, where, and how.
use crate::cli;
use crate::doc;
use crate::fw::*;
use oxvg_ast::parse::roxmltree::{ParsingOptions, parse_with_options};
use oxvg_ast::visitor::Visitor as _;
use oxvg_lint::error::{DeprecatedProblem, LintingError, NoXLinkProblem, Problem};
use oxvg_lint::{Rules, Severity};
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;
use std::io::{BufReader, Write as _};
use std::ops::Range;
use std::path::PathBuf;
use std::process::Stdio;

const SHAPES: &[&str] = &["rect", "circle", "ellipse", "line", "path", "polygon", "polyline"];
const CONTAINERS: &[&str] = &["svg", "g", "defs", "symbol", "a", "marker", "mask", "pattern"];
const GRADIENTS: &[&str] = &["linearGradient", "radialGradient"];
const PRIMITIVES: &[&str] = &["feGaussianBlur", "feOffset", "feMerge", "feFlood"];
const LEGACY: &[&str] = &["font", "cursor", "tref", "glyph", "altGlyph", "animateColor", "hkern"];
const ELEMENTS: &[&str] = &[
    "svg", "g", "defs", "symbol", "a", "marker", "mask", "pattern", "rect", "circle", "ellipse", "line", "path", "polygon", "polyline", "use", "image", "text", "tspan", "linearGradient",
    "radialGradient", "stop", "clipPath", "filter", "feGaussianBlur", "feOffset", "feMerge", "feFlood", "feMergeNode", "switch", "animate", "set", "style", "title", "desc", "view", "font",
    "cursor", "tref", "glyph", "hkern", "bogus", "Rect", "lineargradient",
];

/// Whether an element may be in another by the specification, when that is beyond doubt
pub fn permitted(parent: &str, child: &str) -> Option<bool> {
    let has = |list: &[&str], n: &str| list.contains(&n);
    if has(&["bogus", "Rect", "lineargradient"], child) {
        return Some(false);
    }
    let described = has(&["title", "desc"], child);
    let animated = has(&["animate", "set"], child);
    let only = |parents: &[&str]| parents.contains(&parent);
    match child {
        "stop" => return Some(has(GRADIENTS, parent)),
        "feMergeNode" => return Some(parent == "feMerge"),
        "feGaussianBlur" | "feOffset" | "feMerge" | "feFlood" => return Some(parent == "filter"),
        "tspan" if parent != "a" => return Some(only(&["text", "tspan"])),
        "tref" if parent != "a" => return Some(only(&["text", "tspan"])),
        "glyph" | "hkern" => return Some(parent == "font"),
        _ => {}
    }
    match parent {
        p if has(CONTAINERS, p) => match child {
            "tspan" | "tref" => None,
            // Left out of masks by mistake or not
            "pattern" | "linearGradient" | "radialGradient" => Some(true),
            _ => Some(true),
        },
        p if has(SHAPES, p) => {
            if described || animated || has(GRADIENTS, child) || has(&["clipPath", "marker", "mask", "style", "pattern"], child) {
                Some(true)
            } else if has(SHAPES, child) || has(&["svg", "g", "defs", "symbol", "text", "use", "a", "image", "switch", "filter", "view", "font"], child) {
                Some(false)
            } else {
                None
            }
        }
        p if has(GRADIENTS, p) => {
            if described || animated || child == "style" {
                Some(true)
            } else {
                Some(false)
            }
        }
        "stop" => {
            if animated || child == "style" {
                Some(true)
            } else if has(SHAPES, child) || has(CONTAINERS, child) || has(GRADIENTS, child) || has(&["text", "use", "image", "filter", "clipPath"], child) {
                Some(false)
            } else {
                None
            }
        }
        "clipPath" => {
            if described || animated || has(SHAPES, child) || has(&["text", "use"], child) {
                Some(true)
            } else if has(CONTAINERS, child) || has(GRADIENTS, child) || has(&["image", "filter", "clipPath", "switch", "view"], child) {
                Some(false)
            } else {
                None
            }
        }
        "text" | "tspan" => {
            if described || animated || has(&["a", "style"], child) {
                Some(true)
            } else if has(SHAPES, child) || has(&["svg", "g", "defs", "symbol", "text", "use", "image", "switch", "filter", "view"], child) {
                Some(false)
            } else {
                None
            }
        }
        "filter" => {
            if described || animated {
                Some(true)
            } else if has(SHAPES, child) || has(CONTAINERS, child) || has(GRADIENTS, child) || has(&["text", "use", "image", "filter", "clipPath", "view"], child) {
                Some(false)
            } else {
                None
            }
        }
        "feMerge" | "feMergeNode" | "feGaussianBlur" | "feOffset" | "feFlood" => {
            if has(SHAPES, child) || has(CONTAINERS, child) || has(GRADIENTS, child) || has(&["text", "use", "image", "filter"], child) {
                Some(false)
            } else {
                None
            }
        }
        "use" | "image" => {
            if described || animated || has(&["clipPath", "mask", "style"], child) {
                Some(true)
            } else if has(SHAPES, child) || has(&["svg", "g", "defs", "symbol", "a", "text", "use", "image", "filter"], child) {
                Some(false)
            } else {
                None
            }
        }
        "switch" => {
            if animated || has(SHAPES, child) || has(&["svg", "g", "use", "image", "text", "a", "switch"], child) {
                Some(true)
            } else {
                None
            }
        }
        "animate" | "set" | "view" => {
            if described {
                Some(true)
            } else if has(SHAPES, child) || has(CONTAINERS, child) || has(GRADIENTS, child) || has(&["text", "use", "image"], child) {
                Some(false)
            } else {
                None
            }
        }
        "title" | "desc" => None,
        _ => None,
    }
}

pub struct Attribute {
    pub name: &'static str,
    /// The elements it belongs to, or none when it belongs to all of them
    pub on: &'static [&'static str],
    pub values: &'static [&'static str],
    default: &'static [&'static str],
    invalid: &'static [&'static str],
    deprecated: bool,
}

const fn attribute(
    name: &'static str,
    on: &'static [&'static str],
    values: &'static [&'static str],
    default: &'static [&'static str],
    invalid: &'static [&'static str],
) -> Attribute {
    Attribute { name, on, values, default, invalid, deprecated: false }
}
const fn deprecated(name: &'static str, on: &'static [&'static str], values: &'static [&'static str], default: &'static [&'static str]) -> Attribute {
    Attribute { name, on, values, default, invalid: &[], deprecated: true }
}

pub const ATTRIBUTES: &[Attribute] = &[
    // for all elements
    attribute("fill", &[], &["red", "#123", "none", "url(#q) blue"], &[], &[]),
    attribute("fill-opacity", &[], &[".5", "0"], &["1", "1.0", "100%"], &["half"]),
    attribute("stroke-width", &[], &["2", "3px", "10%"], &["1", "1px"], &["thick"]),
    attribute("stroke-linecap", &[], &["round", "square"], &["butt"], &["bevel", "Round!"]),
    attribute("stroke-linejoin", &[], &["round", "bevel"], &["miter"], &["square"]),
    attribute("stroke-miterlimit", &[], &["10", "5"], &["4"], &["x"]),
    attribute("fill-rule", &[], &["evenodd"], &["nonzero"], &["odd"]),
    attribute("opacity", &[], &[".3"], &["1"], &["all"]),
    attribute("visibility", &[], &["hidden"], &["visible"], &["no"]),
    attribute("text-anchor", &[], &["middle", "end"], &["start"], &["left"]),
    attribute("clip-path", &[], &["url(#q)"], &["none"], &[]),
    attribute("marker-end", &[], &["url(#q)"], &["none"], &[]),
    attribute("class", &[], &["a", "b c"], &[], &[]),
    attribute("lang", &[], &["en"], &[], &[]),
    attribute("tabindex", &[], &["1"], &[], &["first"]),
    attribute("transform", &[], &["translate(1 2)", "scale(2)"], &[], &["move(1)"]),
    // for some
    attribute("d", &["path"], &["M0 0h4", "M1 2L3 4z"], &[], &["M0 0h4 oops", "M1 2L3 4z%"]),
    attribute("points", &["polygon", "polyline"], &["0 0 5 5 5 0", "1,1 2,2"], &[], &[]),
    attribute("pathLength", &["path", "rect", "circle", "ellipse", "line", "polygon", "polyline"], &["5"], &[], &["far"]),
    attribute("x", &["rect", "use", "image", "svg"], &["4", "2%"], &["0", "0px"], &["left"]),
    attribute("y", &["rect", "use", "image", "svg"], &["4", "2%"], &["0", "0px"], &["top"]),
    attribute("width", &["rect", "use", "image"], &["4", "2%"], &[], &["wide"]),
    attribute("width", &["svg"], &["4", "99%"], &[], &["wide"]),
    attribute("height", &["svg"], &["4", "100"], &[], &["tall"]),
    attribute("width", &["mask", "filter"], &["4", "100%", "120"], &["120%"], &["wide"]),
    attribute("x", &["mask", "filter"], &["4", "10%", "-10"], &["-10%"], &["left"]),
    attribute("y", &["mask", "filter"], &["0", "10%", "-10"], &["-10%"], &["left"]),
    attribute("cx", &["circle", "ellipse"], &["4", "50%", "50"], &["0"], &["mid"]),
    attribute("r", &["circle"], &["4"], &["0"], &["big"]),
    attribute("cx", &["radialGradient"], &["4", "50", "0"], &["50%"], &["mid"]),
    attribute("cy", &["radialGradient"], &["4", "50", "0"], &["50%"], &["mid"]),
    attribute("r", &["radialGradient"], &["4", "50", "0", "5%"], &["50%"], &["mid"]),
    attribute("x1", &["linearGradient"], &["4", "50%"], &["0%"], &["mid"]),
    attribute("x2", &["linearGradient"], &["4", "0", "100", "1%"], &["100%"], &["mid"]),
    attribute("y1", &["linearGradient"], &["4", "50%", "-10%"], &["0%"], &["mid"]),
    attribute("y2", &["linearGradient"], &["4", "50%"], &["0%"], &["mid"]),
    attribute("x1", &["line"], &["4", "50%"], &["0"], &["mid"]),
    attribute("x2", &["line"], &["4", "50%"], &["0"], &["mid"]),
    attribute("y1", &["line"], &["4", "50%"], &[], &["mid"]),
    attribute("y2", &["line"], &["4", "50%"], &[], &["mid"]),
    attribute("gradientUnits", GRADIENTS, &["userSpaceOnUse"], &["objectBoundingBox"], &["none"]),
    attribute("spreadMethod", GRADIENTS, &["reflect", "repeat"], &["pad"], &["none"]),
    attribute("offset", &["stop"], &["0", ".5", "20%"], &[], &["start"]),
    attribute("clipPathUnits", &["clipPath"], &["objectBoundingBox"], &["userSpaceOnUse"], &["px"]),
    attribute("maskUnits", &["mask"], &["userSpaceOnUse"], &["objectBoundingBox"], &["px"]),
    attribute("maskContentUnits", &["mask"], &["objectBoundingBox"], &["userSpaceOnUse"], &["px"]),
    attribute("patternUnits", &["pattern"], &["userSpaceOnUse"], &["objectBoundingBox"], &["px"]),
    attribute("patternContentUnits", &["pattern"], &["objectBoundingBox"], &["userSpaceOnUse"], &["px"]),
    attribute("primitiveUnits", &["filter"], &["objectBoundingBox"], &["userSpaceOnUse"], &["px"]),
    attribute("markerWidth", &["marker"], &["4", "2"], &["3"], &["wide"]),
    attribute("markerUnits", &["marker"], &["userSpaceOnUse"], &["strokeWidth"], &["px"]),
    attribute("orient", &["marker"], &["auto", "45"], &["0"], &["up"]),
    attribute("viewBox", &["svg", "symbol", "marker", "pattern", "view"], &["0 0 4 4", "1,2,3,4"], &[], &["1 2", "all"]),
    attribute("preserveAspectRatio", &["svg", "symbol", "marker", "pattern", "view", "image"], &["none", "xMinYMin slice"], &["xMidYMid", "xMidYMid meet"], &["left"]),
    attribute("stdDeviation", &["feGaussianBlur"], &["4", "1 2"], &["0"], &["much"]),
    attribute("in", &["feGaussianBlur", "feOffset", "feMergeNode"], &["SourceGraphic"], &[], &[]),
    attribute("dx", &["feOffset"], &["4"], &["0"], &["near"]),
    attribute("textLength", &["text", "tspan"], &["4"], &[], &["long"]),
    attribute("lengthAdjust", &["text", "tspan"], &["spacingAndGlyphs"], &["spacing"], &["no"]),
    attribute("target", &["a"], &["_blank", "_top"], &["_self"], &[]),
    attribute("href", &["a", "use", "image", "linearGradient", "radialGradient", "pattern"], &["#q", "b.svg"], &[], &[]),
    attribute("attributeName", &["animate", "set"], &["fill"], &[], &[]),
    attribute("calcMode", &["animate"], &["discrete"], &[], &["fast"]),
    attribute("additive", &["animate"], &["sum"], &["replace"], &["no"]),
    attribute("accumulate", &["animate"], &["sum"], &["none"], &["no"]),
    attribute("restart", &["animate", "set"], &["never"], &["always"], &["no"]),
    attribute("media", &["style"], &["print"], &["all"], &[]),
    attribute("type", &["style"], &[], &["text/css"], &[]),
    // of old
    deprecated("version", &["svg"], &["1.2"], &["1.1"]),
    deprecated("baseProfile", &["svg"], &["tiny"], &["none"]),
    deprecated("zoomAndPan", &["svg", "view"], &["disable"], &["magnify"]),
    deprecated("color-rendering", &[], &["inherit"], &["auto"]),
    deprecated("kerning", &[], &["2"], &["auto"]),
    deprecated("requiredFeatures", &["g", "rect", "svg", "switch", "text"], &["x"], &[]),
    deprecated("externalResourcesRequired", &["g", "rect", "svg", "text", "path"], &["true"], &["false"]),
    deprecated("xml:space", &[], &["preserve", "default"], &[]),
];
/// Attributes no element has
const STRANGE: &[&str] = &["foo", "colour", "Fill", "viewbox", "strokewidth"];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum Rule {
    Element,
    Attribute,
    Deprecated,
    Default,
    XLink,
    Ids,
    Namespaces,
    Invalid,
}
const RULES: &[Rule] = &[Rule::Element, Rule::Attribute, Rule::Deprecated, Rule::Default, Rule::XLink, Rule::Ids, Rule::Namespaces, Rule::Invalid];

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
struct Report {
    at: (usize, usize),
    rule: Rule,
    about: String,
    error: bool,
}

struct Found {
    report: Report,
    message: String,
    help: Option<String>,
}

fn found(e: &oxvg_lint::error::Error) -> Found {
    let (rule, about) = match &e.problem {
        Problem::UnknownElement { parent, element } => (Rule::Element, format!("{element} in {parent}")),
        Problem::UnknownAttribute { attribute, element } => (Rule::Attribute, format!("{attribute} of {element}")),
        Problem::Deprecated(DeprecatedProblem::DeprecatedElement(e)) => (Rule::Deprecated, format!("element {e}")),
        Problem::Deprecated(DeprecatedProblem::DeprecatedAttribute(a)) => (Rule::Deprecated, format!("attribute {a}")),
        Problem::DefaultAttribute(a) => (Rule::Default, a.to_string()),
        Problem::NoXLink(p) => (
            Rule::XLink,
            match p {
                NoXLinkProblem::XLinkShowReplace => "xlink:show replace".into(),
                NoXLinkProblem::XLinkShowNew => "xlink:show new".into(),
                NoXLinkProblem::XLinkTitle => "xlink:title".into(),
                NoXLinkProblem::XLinkHref => "xlink:href".into(),
                NoXLinkProblem::XLinkUnsupported(a) => format!("other {a}"),
            },
        ),
        Problem::UnreferencedId(id) => (Rule::Ids, id.to_string()),
        Problem::UnreferencedXMLNS(p, uri) => (Rule::Namespaces, format!("{}={uri}", p.as_deref().unwrap_or(""))),
        Problem::InvalidAttribute { attribute } => (Rule::Invalid, attribute.to_string()),
    };
    let at = e.range.clone().unwrap_or(usize::MAX..usize::MAX);
    Found { report: Report { at: (at.start, at.end), rule, about, error: matches!(e.severity, Severity::Error) }, message: e.problem.to_string(), help: e.help.clone() }
}

fn rules(levels: &[Severity; 8]) -> Rules {
    Rules {
        no_unknown_elements: levels[0],
        no_unknown_attributes: levels[1],
        no_deprecated: levels[2],
        no_default_attributes: levels[3],
        no_x_link: levels[4],
        no_unused_ids: levels[5],
        no_unused_xmlns: levels[6],
        no_invalid_attributes: levels[7],
    }
}

fn run(src: &str, rules: &Rules) -> Result<Vec<Found>, String> {
    parse_with_options(src, ParsingOptions { allow_dtd: true, ..ParsingOptions::default() }, |dom, allocator| match rules.start_with_path(dom, allocator, None) {
        Ok(_) => vec![],
        Err(errors) => errors.iter().map(found).collect(),
    })
    .map_err(|e| e.to_string())
}

/// A document and what is wrong with it
struct Make<'a> {
    rng: &'a mut Rng,
    src: String,
    want: Vec<Report>,
    /// Ids with where they are
    ids: Vec<(String, Range<usize>)>,
    used: Vec<String>,
    /// Declared prefixes: prefix, uri, element start, whether used
    spaces: Vec<(String, String, usize, bool)>,
    left: usize,
    next: usize,
    script: bool,
    style: bool,
    wide: bool,
}

impl Make<'_> {
    fn report(&mut self, rule: Rule, at: Range<usize>, about: impl Into<String>) {
        self.want.push(Report { at: (at.start, at.end), rule, about: about.into(), error: false });
    }

    fn space(&mut self) {
        let s = *self.rng.pick(&[" ", " ", " ", " ", "\n", "\n  ", "\t", "  ", "\r\n "]);
        self.src.push_str(s);
    }

    /// Writes an attribute; where all of it, its name and its value are
    fn attr(&mut self, name: &str, value: &str) -> (Range<usize>, Range<usize>, Range<usize>) {
        self.space();
        let start = self.src.len();
        self.src.push_str(name);
        let named = start..self.src.len();
        self.src.push_str(*self.rng.pick(&["=", "=", "=", "=", " = ", "= ", " ="]));
        let quote = if self.rng.chance(1, 3) { '\'' } else { '"' };
        self.src.push(quote);
        let at = self.src.len();
        self.src.push_str(value);
        let valued = at..self.src.len();
        self.src.push(quote);
        (start..self.src.len(), named, valued)
    }

    fn use_space(&mut self, prefix: &str) {
        if let Some(s) = self.spaces.iter_mut().rev().find(|s| s.0 == prefix) {
            s.3 = true;
        }
    }

    fn id(&mut self) -> String {
        // Ids are given before or after what refers to them
        let n = self.rng.below(self.next.max(1) + 3);
        format!("{}{n}", if self.wide { "é" } else { "i" })
    }

    fn text(&mut self) {
        let t = *self.rng.pick(&["\n", "\n  ", "", "", " ", "<!-- a -->", "<!-- ünï <b> -->\n", "<?p i?>"]);
        self.src.push_str(t);
    }

    fn element(&mut self, parent: Option<&str>, depth: usize) {
        let (prefix, name) = match parent {
            None => (String::new(), "svg"),
            Some(p) => loop {
                // Elements of other namespaces
                let known: Vec<String> = self.spaces.iter().filter(|s| s.0 == "p" || s.0 == "q").map(|s| s.0.clone()).collect();
                if !known.is_empty() && self.rng.chance(1, 12) {
                    let k = self.rng.below(known.len());
                    break (known[k].clone(), "thing");
                }
                let name = *self.rng.pick(ELEMENTS);
                if name == "style" && (self.style || !self.rng.chance(1, 3)) {
                    continue;
                }
                if p == "?" || permitted(p, name).is_some() {
                    break (String::new(), name);
                }
                if matches!(p, "title" | "desc" | "animate" | "set" | "view") || self.rng.chance(1, 20) {
                    return;
                }
            },
        };
        let foreign = !prefix.is_empty();
        let full = if foreign { format!("{prefix}:{name}") } else { name.to_string() };
        let start = self.src.len();
        self.src.push('<');
        self.src.push_str(&full);
        let outer = self.spaces.len();
        let bogus = foreign || !crate::names::ELEMENTS.contains(&name);
        if let Some(p) = parent
            && p != "?"
            && !foreign
            && permitted(p, name) == Some(false)
        {
            self.report(Rule::Element, start..start, format!("{name} in {p}"));
        }
        if LEGACY.contains(&name) {
            self.report(Rule::Deprecated, start..start, format!("element {name}"));
        }
        let mut given: Vec<String> = vec![];
        if parent.is_none() {
            self.attr("xmlns", doc::SVG);
            self.spaces.push((String::new(), doc::SVG.into(), start, false));
        }
        if parent.is_none() || self.rng.chance(1, 10) {
            for p in ["xlink", "p", "q"] {
                if self.rng.chance(1, 3) {
                    let uri = match p {
                        "xlink" => doc::XLINK,
                        // Two prefixes for one namespace can't be told apart once parsed
                        "p" => *self.rng.pick(&["urn:a", "urn:b"]),
                        _ => *self.rng.pick(&["urn:c", "urn:d"]),
                    };
                    // The parser drops what changes nothing
                    if self.spaces.iter().rev().find(|s| s.0 == p).is_some_and(|s| s.1 == uri) {
                        continue;
                    }
                    self.attr(&format!("xmlns:{p}"), uri);
                    self.spaces.push((p.into(), uri.into(), start, false));
                }
            }
        }
        if !foreign {
            self.use_space("");
        } else {
            self.use_space(&prefix);
        }
        for _ in 0..self.rng.below(5) {
            match self.rng.below(10) {
                0..=4 => {
                    let a = self.rng.pick(ATTRIBUTES);
                    if given.iter().any(|g| g == a.name) {
                        continue;
                    }
                    // Another sort of attribute by this name may be the element's
                    let sorts: Vec<&Attribute> = ATTRIBUTES.iter().filter(|b| b.name == a.name).collect();
                    let mine = sorts.iter().find(|b| b.on.is_empty() || b.on.contains(&name)).copied();
                    let mine = if bogus { None } else { mine };
                    if mine.is_none() && !bogus && !self.not_for(a.name, name) {
                        continue;
                    }
                    if ["xml:space", "tabindex", "lang", "class"].contains(&a.name) && bogus {
                        continue;
                    }
                    if a.name == "fill" && matches!(name, "animate" | "set") || a.name == "type" && name == "a" {
                        continue;
                    }
                    given.push(a.name.to_string());
                    let of = mine.unwrap_or(a);
                    let (value, sort) = match self.rng.below(6) {
                        0 | 1 if !of.default.is_empty() => (*self.rng.pick(of.default), 1),
                        _ if of.values.is_empty() => (*self.rng.pick(of.default), 1),
                        2 if !of.invalid.is_empty() => (*self.rng.pick(of.invalid), 2),
                        _ => (*self.rng.pick(of.values), 0),
                    };
                    let (all, named, valued) = self.attr(a.name, value);
                    if value.contains("#q") {
                        self.used.push("q".into());
                    }
                    let Some(a) = mine else {
                        if !bogus {
                            self.report(Rule::Attribute, all, format!("{} of {name}", a.name));
                        }
                        continue;
                    };
                    if a.deprecated {
                        self.report(Rule::Deprecated, named, format!("attribute {}", a.name));
                    }
                    match sort {
                        1 => self.report(Rule::Default, valued, a.name),
                        2 if a.name == "d" => {
                            // From where the rest cannot be read
                            let from = value.find(|c| "o%".contains(c)).unwrap_or(0);
                            self.report(Rule::Invalid, valued.start + from..valued.end, a.name);
                        }
                        2 => self.report(Rule::Invalid, valued, a.name),
                        _ => {}
                    }
                }
                5 => {
                    let a = *self.rng.pick(STRANGE);
                    if given.iter().any(|g| g == a) {
                        continue;
                    }
                    given.push(a.into());
                    let (all, _, _) = self.attr(a, "1");
                    if !bogus {
                        self.report(Rule::Attribute, all, format!("{a} of {name}"));
                    }
                }
                6 => {
                    // Attributes of other namespaces
                    let Some(s) = self.spaces.iter().rev().find(|s| s.0 == "p" || s.0 == "q").map(|s| s.0.clone()) else { continue };
                    let a = format!("{s}:more");
                    let uri = self.spaces.iter().rev().find(|o| o.0 == s).map(|o| o.1.clone());
                    if given.contains(&a) || given.iter().any(|g| g.ends_with(":more") && self.spaces.iter().rev().find(|o| g.starts_with(&o.0) && !o.0.is_empty()).map(|o| o.1.clone()) == uri) {
                        continue;
                    }
                    given.push(a.clone());
                    let (all, _, _) = self.attr(&a, "1");
                    self.use_space(&s);
                    if !bogus {
                        self.report(Rule::Attribute, all, format!("{a} of {name}"));
                    }
                }
                7 => {
                    // Links of old
                    if !self.spaces.iter().any(|s| s.0 == "xlink") || !["a", "use", "image", "linearGradient", "radialGradient"].contains(&name) {
                        continue;
                    }
                    let (local, value) = *self.rng.pick(&[("href", "#@"), ("title", "t"), ("show", "new"), ("show", "replace"), ("show", "embed"), ("type", "simple"), ("role", "r")]);
                    let a = format!("xlink:{local}");
                    if given.contains(&a) {
                        continue;
                    }
                    given.push(a.clone());
                    let id = self.id();
                    let value = value.replace('@', &id);
                    if local == "href" {
                        self.used.push(id);
                    }
                    let (all, _, _) = self.attr(&a, &value);
                    self.use_space("xlink");
                    let about = match local {
                        "href" | "title" => a,
                        "show" if value == "new" || value == "replace" => format!("{a} {value}"),
                        _ => format!("other {a}"),
                    };
                    self.report(Rule::XLink, all, about);
                }
                8 => {
                    if given.iter().any(|g| g == "id") || foreign {
                        continue;
                    }
                    let id = self.id();
                    if self.ids.iter().any(|i| i.0 == id) {
                        continue;
                    }
                    given.push("id".into());
                    let (_, _, valued) = self.attr("id", &id);
                    self.ids.push((id, valued));
                    self.next += 1;
                }
                _ => {
                    // References
                    if bogus {
                        continue;
                    }
                    let id = self.id();
                    let (a, value) = match self.rng.below(8) {
                        0 => ("stroke", format!("url(#{id})")),
                        1 => ("mask", format!("url(#{id})")),
                        2 => ("filter", format!("url(#{id})")),
                        3 => ("marker-start", format!("url( #{id} )")),
                        4 => ("style", format!("fill:url(#{id})")),
                        5 if ["rect", "g", "path", "text", "svg", "use"].contains(&name) => ("aria-labelledby", id.clone()),
                        6 if ["animate", "set"].contains(&name) => ("begin", format!("{id}.click")),
                        7 if name == "use" && !given.iter().any(|g| g == "href") => ("href", format!("#{id}")),
                        _ => ("marker-mid", format!("url('#{id}')")),
                    };
                    if given.iter().any(|g| g == a) || (self.wide && a == "begin") {
                        continue;
                    }
                    given.push(a.into());
                    let value = if value.contains('\'') { value.replace('\'', "&quot;") } else { value };
                    self.attr(a, &value);
                    self.used.push(id);
                }
            }
        }
        if self.rng.chance(1, 8) {
            self.space();
        }
        if name == "style" {
            self.style = true;
            self.src.push('>');
            for _ in 0..self.rng.below(3) {
                let id = self.id();
                let rule = match self.rng.below(5) {
                    0 => format!("rect{{fill:url(#{id})}}"),
                    1 => format!("#{id}{{fill:red}}"),
                    2 => format!("g #{id}.a,circle{{fill:red}}"),
                    3 => format!(".a:not(#{id}){{fill:red}}"),
                    _ => format!(".a{{mask:url('#{id}');stroke:red}}"),
                };
                self.src.push_str(&rule);
                self.used.push(id);
            }
            self.src.push_str("</style>");
        } else {
            let mut inside = 0;
            if depth < 6 && !(name == "title" || name == "desc") {
                inside = if parent.is_none() { self.rng.below(9) } else { self.rng.below(4) };
            }
            if inside == 0 && self.rng.chance(1, 2) {
                self.src.push_str("/>");
            } else {
                self.src.push('>');
                for _ in 0..inside {
                    if self.left == 0 {
                        break;
                    }
                    self.left -= 1;
                    self.text();
                    self.element(Some(if bogus { "?" } else { name }), depth + 1);
                }
                self.text();
                self.src.push_str(&format!("</{full}>"));
            }
        }
        while self.spaces.len() > outer {
            let (p, uri, start, used) = self.spaces.pop().unwrap();
            if !used {
                self.report(Rule::Namespaces, start..start, format!("{p}={uri}"));
            }
        }
    }

    /// Whether an attribute is beyond doubt not for an element
    fn not_for(&self, attr: &str, el: &str) -> bool {
        if ["bogus", "Rect", "lineargradient"].contains(&el) || LEGACY.contains(&el) {
            return false;
        }
        match attr {
            "x" | "y" | "width" | "height" => ["g", "circle", "path", "stop", "linearGradient", "clipPath", "a", "defs", "polygon"].contains(&el),
            "cx" | "r" | "cy" => ["g", "rect", "path", "stop", "linearGradient", "clipPath", "a", "defs", "polygon", "svg", "use", "text"].contains(&el),
            "dx" => ["g", "rect", "path", "stop", "svg", "circle"].contains(&el),
            "type" | "media" => ["g", "rect", "path", "stop", "svg", "circle", "defs"].contains(&el),
            "in" | "offset" => ["g", "rect", "path", "svg", "circle", "defs"].contains(&el),
            "href" => ["g", "rect", "path", "svg", "circle", "defs", "stop", "clipPath", "mask"].contains(&el),
            "restart" | "additive" | "accumulate" | "calcMode" | "attributeName" => ["g", "rect", "path", "svg", "circle", "defs", "stop", "text"].contains(&el),
            "requiredFeatures" | "externalResourcesRequired" => false,
            "version" | "baseProfile" | "zoomAndPan" => ["g", "rect", "path", "circle", "stop"].contains(&el),
            _ => true,
        }
    }
}

fn make(rng: &mut Rng, size: usize) -> (String, Vec<Report>) {
    let wide = rng.chance(1, 4);
    let script = rng.chance(1, 12);
    let mut m = Make { rng, src: String::new(), want: vec![], ids: vec![], used: vec![], spaces: vec![], left: size, next: 0, script, style: false, wide };
    if m.rng.chance(1, 5) {
        m.src.push_str("<?xml version=\"1.0\"?>\n");
    }
    if m.rng.chance(1, 6) {
        m.src.push_str("<!DOCTYPE svg>");
    }
    if m.rng.chance(1, 6) {
        m.src.push_str("<!-- ünïcode\n -->\n");
    }
    m.element(None, 0);
    if m.script
        && let Some(at) = m.src.rfind("</svg>")
    {
        m.src.insert_str(at, "<script>x()</script>");
    } else {
        m.script = false;
    }
    if !m.script {
        for (id, at) in std::mem::take(&mut m.ids) {
            if !m.used.contains(&id) {
                m.report(Rule::Ids, at, id);
            }
        }
    }
    if m.rng.chance(1, 3) {
        m.src.push('\n');
    }
    (m.src, m.want)
}

fn levels(rng: &mut Rng) -> [Severity; 8] {
    let all = rng.below(4);
    std::array::from_fn(|_| match all {
        0 => Severity::Error,
        1 => Severity::Warn,
        _ => *rng.pick(&[Severity::Off, Severity::Warn, Severity::Error]),
    })
}

fn expected(want: &[Report], levels: &[Severity; 8]) -> Vec<Report> {
    let mut out: Vec<Report> = want
        .iter()
        .filter_map(|r| {
            let i = RULES.iter().position(|x| *x == r.rule)?;
            (levels[i] != Severity::Off).then(|| Report { error: levels[i] == Severity::Error, ..r.clone() })
        })
        .collect();
    out.sort();
    out
}

fn strip(s: &str) -> String {
    let mut out = String::new();
    let mut chars = s.chars();
    while let Some(c) = chars.next() {
        if c == '\x1b' {
            for c in chars.by_ref() {
                if c == 'm' {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// What is printed about a report: its message, where it is, the line it is in and what's underlined
fn printed(src: &str, f: &Found, path: &str, out: &mut std::iter::Peekable<std::str::Lines>) -> Result<(), String> {
    let mark = if f.report.error { '×' } else { '⚠' };
    let head = out.next().unwrap_or_default();
    if head != format!(" {mark} {}", f.message) {
        return Err(format!("header: {head:?} for {:?}", f.message));
    }
    let place = out.next().unwrap_or_default();
    let start = f.report.at.0;
    let zero = f.report.at.0 == f.report.at.1;
    let line = src[..start].matches('\n').count() + 1;
    let line_start = src[..start].rfind('\n').map_or(0, |i| i + 1);
    let place = place.trim_start();
    let Some(place) = place.strip_prefix("╭─[").and_then(|p| p.strip_suffix(']')).and_then(|p| p.strip_prefix(path)).and_then(|p| p.strip_prefix(':')) else {
        return Err(format!("place: {place:?}"));
    };
    let Some((l, c)) = place.split_once(':') else { return Err(format!("place: {place:?}")) };
    let column = start - line_start;
    if l != line.to_string() || (!zero && c != column.to_string()) {
        return Err(format!("place: {place} for {line}:{column}"));
    }
    // The line is shown with its number
    let text = src[line_start..].split('\n').next().unwrap_or_default();
    let mut shown = false;
    let mut under = None;
    while let Some(l) = out.next() {
        let t = l.trim_start();
        if t == "╰────" {
            break;
        }
        if let Some((n, rest)) = t.split_once(" │ ")
            && n == line.to_string()
        {
            shown = rest.trim_end_matches('\r') == text.trim_end_matches('\r') || rest.starts_with(text.trim_end_matches('\r'));
        }
        if let Some(rest) = t.strip_prefix("· ") {
            under = Some(rest.to_string());
        }
    }
    if !shown {
        return Err(format!("line {line} isn't shown: {text:?}"));
    }
    let Some(under) = under else { return Err("nothing is underlined".into()) };
    if !zero && text.is_ascii() {
        let before = under.chars().take_while(|c| *c == ' ').count();
        let length = under.chars().filter(|c| *c == '─').count();
        let want = (f.report.at.1 - start).min(src[start..].len());
        if before != column || length != want {
            return Err(format!("underlined: {before}+{length} for {column}+{want}"));
        }
    }
    if let Some(h) = &f.help
        && !out.next().unwrap_or_default().ends_with(&format!("help: {h}"))
    {
        return Err("help: isn't printed".into());
    }
    Ok(())
}

fn judge(src: &str, want: &[Report], levels: &[Severity; 8]) -> Result<usize, String> {
    let rules = rules(levels);
    let have = run(src, &rules).map_err(|e| format!("parse: {e}"))?;
    let want = expected(want, levels);
    let mut got: Vec<Report> = have.iter().map(|f| f.report.clone()).collect();
    got.sort();
    let at = |r: &Report| format!("{:?} {} at {:?}", r.rule, r.about, src.get(r.at.0..r.at.1).unwrap_or("?"));
    if got != want {
        let missing = want.iter().find(|r| want.iter().filter(|x| x == r).count() > got.iter().filter(|x| x == r).count());
        let extra = got.iter().find(|r| got.iter().filter(|x| x == r).count() > want.iter().filter(|x| x == r).count());
        return Err(match (missing, extra) {
            (Some(m), Some(e)) if m.rule == e.rule && m.about == e.about => format!("{:?} place: {} rather than {} ({:?}, {:?})", m.rule, at(e), at(m), e.at, m.at),
            (_, Some(e)) => format!("{:?} extra: {} {:?}", e.rule, at(e), e.at),
            (Some(m), _) => format!("{:?} missing: {} {:?}", m.rule, at(m), m.at),
            _ => "order".into(),
        });
    }
    // The same again
    let again: Vec<(Report, String)> = run(src, &rules).map_err(|e| format!("parse: {e}"))?.into_iter().map(|f| (f.report, f.message)).collect();
    if !again.iter().map(|(r, m)| (r, m)).eq(have.iter().map(|f| (&f.report, &f.message))) {
        return Err(format!("again: {:?}, before {:?}", again.iter().map(|a| &a.1).collect::<Vec<_>>(), have.iter().map(|f| &f.message).collect::<Vec<_>>()));
    }
    // As printed
    let mut out = String::new();
    let result = rules.lint_to(&mut out, src);
    let errors = want.iter().filter(|r| r.error).count();
    match result {
        Ok(()) if want.is_empty() => {}
        Err(LintingError::Reported { errors: e, warnings: w }) if e == errors && w == want.len() - errors && !want.is_empty() => {}
        other => return Err(format!("result: {other:?} of {} reports with {errors} errors", want.len())),
    }
    let out = strip(&out);
    let mut lines = out.lines().peekable();
    for f in &have {
        printed(src, f, "", &mut lines).map_err(|e| format!("printed {e}"))?;
    }
    if let Some(l) = lines.next() {
        return Err(format!("printed more: {l}"));
    }
    Ok(want.len())
}

/// P15: the linter reports what is wrong, all of it, where it is.
pub fn reports(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when there is something to report; distinct by the document and the rules");
    ctx.explore("documents", ctx.scale(150_000, 3_000_000), |rng, _, obs| {
        let size = 1 + rng.below(14);
        let (src, want) = make(rng, size);
        let levels = levels(rng);
        obs.trace(&src);
        match judge(&src, &want, &levels) {
            Ok(n) => {
                for r in expected(&want, &levels) {
                    obs.count(&format!("reported_{:?}", r.rule));
                }
                if n > 0 {
                    obs.nontrivial(&format!("{levels:?}{src}"));
                }
            }
            Err(e) => {
                let sort: String = e.split(':').next().unwrap_or_default().into();
                obs.violation(sort, src.clone(), e);
            }
        }
        obs.sample(|| json!({"source": clip(&src, 300), "reports": want.len()}));
    });
    let directed: Vec<(&str, &str, &[(Rule, &str)])> = vec![
        (
            "rest of a path longer than its source",
            "<!DOCTYPE svg [<!ENTITY a \"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\"><!ENTITY b \"&a;&a;&a;&a;\">]><svg xmlns=\"http://www.w3.org/2000/svg\"><path d=\"M0 0&b;\"/></svg>",
            &[(Rule::Invalid, "d")],
        ),
        ("image rendering", "<svg xmlns=\"http://www.w3.org/2000/svg\" image-rendering=\"optimizeSpeed\"/>", &[]),
        ("colour rendering", "<svg xmlns=\"http://www.w3.org/2000/svg\"><g fill=\"red\" opacity=\".5\" color-rendering=\"optimizeQuality\"/></svg>", &[(Rule::Deprecated, "attribute color-rendering")]),
        ("an empty value", "<svg xmlns=\"http://www.w3.org/2000/svg\"><rect x=\"\"/></svg>", &[(Rule::Invalid, "x")]),
        ("an empty value last", "<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox=''/>", &[(Rule::Invalid, "viewBox")]),
        ("aliased elements", "<s:svg xmlns:s=\"http://www.w3.org/2000/svg\"><s:rect foo=\"1\"><s:g/></s:rect></s:svg>", &[(Rule::Attribute, "foo of s:rect"), (Rule::Element, "s:g in s:rect")]),
    ];
    ctx.directed("directed", &directed, |(name, src, want), obs| {
        let all = rules(&[Severity::Error; 8]);
        let mut have: Vec<(Rule, String)> = run(src, &all).unwrap_or_default().into_iter().map(|f| (f.report.rule, f.report.about)).collect();
        let mut want: Vec<(Rule, String)> = want.iter().map(|(r, a)| (*r, a.to_string())).collect();
        have.sort();
        want.sort();
        let mut text = String::new();
        let printed = all.lint_to(&mut text, src);
        if have != want {
            obs.violation(format!("directed {name}"), *src, format!("{have:?} rather than {want:?}"));
        } else if printed.is_ok() == want.is_empty() || text.is_empty() != want.is_empty() {
            obs.nontrivial(name);
        } else {
            obs.violation(format!("directed {name} printed"), *src, format!("{printed:?}: {text}"));
        }
    });
    for (group, scale, f) in [
        ("program", ctx.scale(6_000, 60_000), check as fn(&mut Rng, &mut Obs) -> Result<(), (String, String)>),
        ("server", ctx.scale(3_000, 30_000), serve),
    ] {
        ctx.explore(group, scale, |rng, case, obs| match f(rng, obs) {
            Ok(()) => obs.nontrivial(&(group, case)),
            Err((sig, detail)) => obs.violation(sig, detail.clone(), detail),
        });
    }
}

const NAMES: &[&str] = &["noUnknownElements", "noUnknownAttributes", "noDeprecated", "noDefaultAttributes", "noXLink", "noUnusedIds", "noUnusedXmlns", "noInvalidAttributes"];
const RECOMMENDED: [Severity; 8] =
    [Severity::Error, Severity::Error, Severity::Error, Severity::Warn, Severity::Warn, Severity::Warn, Severity::Warn, Severity::Error];

/// A configuration with the given levels, those that are off mostly left out
fn config(rng: &mut Rng, levels: &[Severity; 8]) -> Value {
    let mut lint = Map::new();
    for (n, l) in NAMES.iter().zip(levels) {
        if *l != Severity::Off || rng.chance(1, 3) {
            lint.insert(n.to_string(), json!(format!("{l:?}")));
        }
    }
    json!({ "lint": lint })
}

fn check(rng: &mut Rng, obs: &mut Obs) -> Result<(), (String, String)> {
    let scratch = cli::Scratch::new();
    let cwd = scratch.0.join("in");
    std::fs::create_dir(&cwd).expect("harness: directory");
    let mut docs = vec![];
    for i in 0..1 + rng.below(4) {
        let size = rng.below(4);
        let (src, want) = make(rng, size);
        let (src, bad) = if rng.chance(1, 15) { (format!("{src}<"), true) } else { (src, false) };
        let name = format!("{i}.svg");
        std::fs::write(cwd.join(&name), &src).expect("harness: write");
        docs.push((name, src, want, bad));
    }
    let mut used = levels(rng);
    if rng.chance(1, 4) {
        used = [Severity::Off; 8];
        used[rng.below(8)] = *rng.pick(&[Severity::Warn, Severity::Error]);
    }
    let mut args: Vec<String> = vec!["lint".into(), "check".into()];
    let other = levels(rng);
    match rng.below(4) {
        0 => used = RECOMMENDED,
        1 => std::fs::write(cwd.join("oxvgrc.json"), config(rng, &used).to_string()).expect("harness: write"),
        n => {
            // Said on the command line, over what is in the directory
            if n == 2 {
                std::fs::write(cwd.join("oxvgrc.json"), config(rng, &other).to_string()).expect("harness: write");
            }
            std::fs::write(cwd.join("mine.json"), config(rng, &used).to_string()).expect("harness: write");
            args.extend(["--config".into(), "mine.json".into()]);
        }
    }
    let level = match rng.below(4) {
        0 => Severity::Off,
        1 => Severity::Warn,
        _ => Severity::Error,
    };
    if level != Severity::Error || rng.chance(1, 2) {
        args.extend(["--level".into(), format!("{level:?}").to_lowercase()]);
    }
    let from_stdin = docs.len() == 1 && rng.chance(1, 2);
    if !from_stdin {
        for d in &docs {
            args.push(d.0.clone());
        }
    }
    scratch.give_away();
    let ran = cli::run(&scratch, &cwd, &args, from_stdin.then(|| docs[0].1.as_bytes()));
    let about = format!("oxvg {} on {:?}, rules {used:?}", args.join(" "), docs.iter().map(|d| &d.1).collect::<Vec<_>>());
    let fail = |what: &str, detail: String| Err((format!("program {what}"), format!("{about}: {detail} (exit {:?}, stderr {:?})", ran.code, clip(&ran.stderr, 200))));
    let mut texts = vec![];
    let mut failing = false;
    for (name, src, want, bad) in &docs {
        if *bad {
            failing = true;
            if ran.stderr.is_empty() {
                return fail("error", "a document that isn't well-formed goes unmentioned".into());
            }
            continue;
        }
        let want = expected(want, &used);
        failing |= match level {
            Severity::Off => false,
            Severity::Warn => !want.is_empty(),
            Severity::Error => want.iter().any(|r| r.error),
        };
        let mut text = String::new();
        let path = PathBuf::from(name);
        let _ = rules(&used).lint_to_with_path(&mut text, src, (!from_stdin).then_some(&path));
        texts.push(text);
    }
    // Each document's reports in one piece
    let out = String::from_utf8_lossy(&ran.stdout).into_owned();
    let mut rest = out.as_str();
    texts.retain(|t| !t.is_empty());
    texts.sort_by_key(|t| std::cmp::Reverse(t.len()));
    while let Some(i) = texts.iter().position(|t| rest.starts_with(t.as_str())) {
        rest = &rest[texts.remove(i).len()..];
    }
    if !rest.is_empty() || !texts.is_empty() {
        return fail("output", format!("{} reports not printed, {:?} printed beyond", texts.len(), clip(rest, 300)));
    }
    let code = ran.code;
    if code.is_none() || (code == Some(0)) == failing {
        return fail("exit", format!("exit at level {level:?}"));
    }
    obs.count(if failing { "program_failed" } else { "program_succeeded" });
    Ok(())
}

/// Where an offset is for an editor: lines, and units of UTF-16 in the line
fn position(src: &str, at: usize) -> (u64, u64) {
    let line_start = src[..at].rfind('\n').map_or(0, |i| i + 1);
    (src[..at].matches('\n').count() as u64, src[line_start..at].encode_utf16().count() as u64)
}

fn serve(rng: &mut Rng, obs: &mut Obs) -> Result<(), (String, String)> {
    let scratch = cli::Scratch::new();
    let mut used = RECOMMENDED;
    if rng.chance(1, 2) {
        used = levels(rng);
        std::fs::write(scratch.0.join("oxvgrc.json"), config(rng, &used).to_string()).expect("harness: write");
    }
    scratch.give_away();
    let mut child = cli::command(&scratch, &scratch.0, &["lint".into(), "serve".into()])
        .stdin(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("harness: cannot run");
    let mut to = child.stdin.take().expect("piped");
    let mut from = BufReader::new(child.stdout.take().expect("piped"));
    let mut send = |v: Value| {
        let body = json_rpc(v);
        let _ = write!(to, "Content-Length: {}\r\n\r\n{body}", body.len());
        let _ = to.flush();
    };
    // What was last said about each document
    let mut said: BTreeMap<String, Value> = BTreeMap::new();
    let mut wait = |id: Option<u64>, uri: Option<&str>, said: &mut BTreeMap<String, Value>| -> bool {
        let (mut answered, mut published) = (id.is_none(), uri.is_none());
        while !answered {
            let Some(m) = receive(&mut from) else { return false };
            if m["method"] == "textDocument/publishDiagnostics" {
                let u = m["params"]["uri"].as_str().unwrap_or_default().to_string();
                published |= Some(u.as_str()) == uri;
                said.insert(u, m["params"]["diagnostics"].clone());
            }
            if m.get("method").is_none() && m["id"].as_u64() == id {
                answered = true;
            }
        }
        if id.is_none() {
            while let Some(m) = receive(&mut from) {
                if m["method"] == "textDocument/publishDiagnostics" {
                    let u = m["params"]["uri"].as_str().unwrap_or_default().to_string();
                    said.insert(u, m["params"]["diagnostics"].clone());
                }
            }
        }
        published
    };
    send(json!({"id": 1, "method": "initialize", "params": {"capabilities": {}}}));
    wait(Some(1), None, &mut said);
    send(json!({"method": "initialized", "params": {}}));
    let mut now: BTreeMap<String, (String, Vec<Report>)> = BTreeMap::new();
    let mut history = vec![];
    for step in 0..1 + rng.below(6) {
        let size = rng.below(4);
        let (src, want) = make(rng, size);
        let uri = format!("file:///{}.svg", rng.below(2));
        let open = !now.contains_key(&uri);
        send(if open {
            json!({"method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "svg", "version": step, "text": src}}})
        } else {
            json!({"method": "textDocument/didChange", "params": {"textDocument": {"uri": uri, "version": step}, "contentChanges": [{"text": src}]}})
        });
        history.push(src.clone());
        now.insert(uri.clone(), (src, want));
        let id = 10 + step as u64;
        send(json!({"id": id, "method": "x/still-there"}));
        wait(Some(id), Some(&uri), &mut said);
    }
    send(json!({"id": 2, "method": "shutdown"}));
    wait(Some(2), None, &mut said);
    send(json!({"method": "exit"}));
    drop(to);
    wait(None, None, &mut said);
    let _ = child.wait();
    for (uri, (src, want)) in &now {
        let want = expected(want, &used);
        let mut places: Vec<(u64, u64, u64, u64, u64)> = want
            .iter()
            .map(|r| {
                let (a, b) = (position(src, r.at.0), position(src, r.at.1));
                (a.0, a.1, b.0, b.1, if r.error { 1 } else { 2 })
            })
            .collect();
        places.sort_unstable();
        // There may be nothing to say
        let have = said.get(uri).map_or(Some(vec![]), |v| v.as_array().cloned());
        let about = format!("rules {used:?}, documents {history:?}");
        let Some(have) = have else {
            return Err(("server silent".into(), format!("nothing was published for {uri}: {about}")));
        };
        let mut got: Vec<(u64, u64, u64, u64, u64)> = have
            .iter()
            .map(|d| {
                let n = |p: &str| d.pointer(p).and_then(Value::as_u64).unwrap_or(u64::MAX);
                (n("/range/start/line"), n("/range/start/character"), n("/range/end/line"), n("/range/end/character"), n("/severity"))
            })
            .collect();
        got.sort_unstable();
        if got != places {
            let kind = if got.len() == places.len() { "server places" } else { "server reports" };
            return Err((kind.into(), format!("published {got:?} for {src:?}, expected {places:?}: {about}")));
        }
        let mut messages: Vec<String> = have.iter().map(|d| d["message"].as_str().unwrap_or_default().to_string()).collect();
        let mut wanted: Vec<String> = run(src, &rules(&used)).unwrap_or_default().into_iter().map(|f| f.message).collect();
        messages.sort();
        wanted.sort();
        if messages != wanted {
            return Err(("server messages".into(), format!("published {messages:?} for {src:?}, expected {wanted:?}: {about}")));
        }
        obs.add("published", have.len() as u64);
    }
    Ok(())
}

fn json_rpc(mut v: Value) -> String {
    v["jsonrpc"] = json!("2.0");
    v.to_string()
}

fn receive(from: &mut impl std::io::BufRead) -> Option<Value> {
    let mut length = 0;
    loop {
        let mut line = String::new();
        if from.read_line(&mut line).ok()? == 0 {
            return None;
        }
        let line = line.trim();
        if line.is_empty() {
            break;
        }
        if let Some(n) = line.to_ascii_lowercase().strip_prefix("content-length:") {
            length = n.trim().parse().ok()?;
        }
    }
    let mut body = vec![0; length];
    from.read_exact(&mut body).ok()?;
    serde_json::from_slice(&body).ok()
}
