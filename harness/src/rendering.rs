//! What optimising does to what is drawn.
use crate::doc::*;
use crate::drawing::{self, Want};
use crate::fw::*;
use crate::render;
use oxvg_ast::parse::roxmltree::{ParsingOptions, parse_with_options};
use oxvg_ast::serialize::Node as _;
use oxvg_ast::visitor::Info;
use oxvg_optimiser::Jobs;
use serde_json::{Value, json};

pub fn optimise(src: &str, jobs: &Jobs) -> Result<String, String> {
    optimise_as(src, jobs, None)
}

/// Optimises as if read from the file at `path`.
pub fn optimise_as(src: &str, jobs: &Jobs, path: Option<&str>) -> Result<String, String> {
    parse_with_options(src, ParsingOptions { allow_dtd: true, ..Default::default() }, |dom, allocator| {
        let mut info = Info::new(allocator);
        info.path = path.map(Into::into);
        jobs.run(dom, &info).map_err(|e| format!("job failed: {e}"))?;
        dom.serialize().map_err(|e| format!("cannot write: {e}"))
    })
    .map_err(|e| format!("cannot read: {e}"))?
}

/// Whether `out` draws what `src` draws.
pub fn same_drawing(src: &str, out: &str, rng: &mut Rng, points: usize, obs: &mut Obs) -> Result<bool, String> {
    same_everywhere(src, out, rng, points, false, obs)
}

fn same_everywhere(src: &str, out: &str, rng: &mut Rng, points: usize, inside: bool, obs: &mut Obs) -> Result<bool, String> {
    let same = same_within(src, out, rng, points, inside, obs)?;
    if only_conditional(src) {
        obs.count("compared_under_other_conditions");
        crate::css::under_other_conditions(|| same_within(src, out, rng, points / 2, inside, obs)).map_err(|e| format!("in print and hovered: {e}"))?;
    }
    Ok(same)
}

/// Whether a drawing has style rules and each of them applies under some condition only. Among others,
/// an inlined rule outranks the conditional ones, see the directed case about it.
fn only_conditional(src: &str) -> bool {
    let mut sheets = src.split("<style").skip(1).filter_map(|s| s.split_once("</style>")?.0.split_once('>')).peekable();
    sheets.peek().is_some()
        && sheets.all(|(_, text)| {
            let rules = crate::css::parse_sheet_all(text.trim_start_matches("<![CDATA["));
            rules.iter().all(|(media, r)| *media || r.selectors.iter().all(|s| s.parts.iter().any(|p| p.1.iter().any(|s| matches!(s, crate::css::Simple::Never(_))))))
        })
}

fn same_within(src: &str, out: &str, rng: &mut Rng, points: usize, inside: bool, obs: &mut Obs) -> Result<bool, String> {
    let a = read_root(src).expect("generated documents are well-formed");
    let b = read_root(out).map_err(|e| format!("not well-formed: {e}"))?;
    let (sa, sb) = (render::scene(&a), render::scene(&b));
    if !sa.unsupported.is_empty() {
        obs.count("outside_the_renderer");
        return Ok(false);
    }
    if sa.fragile || sb.fragile {
        obs.count("decided_by_rounding");
        return Ok(false);
    }
    if let Some(u) = sb.unsupported.iter().find(|u| !sa.unsupported.contains(u)) {
        return Err(format!("result uses {u}"));
    }
    if (sa.size.0 - sb.size.0).abs() > 0.01 || (sa.size.1 - sb.size.1).abs() > 0.01 {
        return Err(format!("size {:?} became {:?}", sa.size, sb.size));
    }
    let (looked, inked) = render::compare(&sa, &sb, rng, points, 0.15, inside)?;
    obs.add("points_compared", looked as u64);
    obs.add("points_with_ink", inked as u64);
    obs.add("objects_compared", sa.opaque.len() as u64);
    Ok(inked > 0)
}

/// P05: the default jobs keep what is drawn.
pub fn default_jobs(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when a compared point has ink; distinct by the document");
    let jobs = Jobs::default();
    ctx.directed("known", KNOWN, |(name, src, right), obs| match optimise(src, &jobs) {
        Ok(out) if right(src, &out) => obs.nontrivial(src),
        Ok(out) => obs.violation(format!("{name}: drawing changed"), *src, format!("became {out}")),
        Err(e) => obs.violation(format!("{name}: optimising failed"), *src, e),
    });
    ctx.explore("drawings", ctx.scale(400_000, 1_500_000), |rng, _, obs| {
        let w = Want::random(rng);
        let mut doc = drawing::drawing(rng, w, 14);
        drawing::apart(&mut doc);
        let src = doc.text();
        let out = match optimise(&src, &jobs) {
            Ok(o) => o,
            Err(e) => {
                obs.violation("optimising failed", &src, e);
                return;
            }
        };
        match same_drawing(&src, &out, rng, 60, obs) {
            Ok(n) => {
                if n {
                    obs.nontrivial(&src);
                }
            }
            Err(e) => {
                let culprit = blame(&src, rng, obs);
                report(&doc, culprit, &e, &jobs, rng, obs);
            }
        }
        obs.sample(|| json!({"source": clip(&src, 300), "optimised": clip(&out, 300)}));
    });
}

/// Drawings the random ones stay away from; the last says whether a result is right.
type Known = (&'static str, &'static str, fn(&str, &str) -> bool);

const KNOWN: &[Known] = &[
    ("open outline whose ends meet", r#"<svg xmlns="http://www.w3.org/2000/svg"><path d="M10 30v20l20-20H10" fill="none" stroke="red" stroke-width="8"/></svg>"#, |_, out| !out.contains(['z', 'Z'])),
    ("marker on a stroke without width", r#"<svg xmlns="http://www.w3.org/2000/svg"><marker id="m"><circle r="5"/></marker><path d="M10 30v20l20-20" stroke="red" stroke-width="0" marker-end="url(#m)"/></svg>"#, |_, out| {
        !out.contains("marker-end") || out.contains("stroke-width=\"0\"")
    }),
    ("important declaration repeated later", r#"<svg xmlns="http://www.w3.org/2000/svg"><style>.b{fill:blue!important}@media print{.a{fill:none}}.b{fill:red}</style><circle r="20" class="b"/><circle cx="50" r="20" class="b"/></svg>"#, |src, out| {
        same_drawing(src, out, &mut Rng::new(1), 200, &mut Obs::default()).is_ok()
    }),
    ("strokes that touch", r##"<svg xmlns="http://www.w3.org/2000/svg"><path d="M10 10h20v20z" stroke="red" stroke-width="8" opacity=".5"/><path d="M34 10h20v20z" stroke="red" stroke-width="8" opacity=".5"/></svg>"##, |src, out| {
        same_drawing(src, out, &mut Rng::new(1), 400, &mut Obs::default()).is_ok()
    }),
    ("style of what is pointed at", r#"<svg xmlns="http://www.w3.org/2000/svg"><style>.c:hover{fill:red}.c{fill:blue}</style><circle r="20" class="c"/></svg>"#, |src, out| {
        crate::css::under_other_conditions(|| same_within(src, out, &mut Rng::new(1), 200, false, &mut Obs::default())).is_ok()
    }),
    ("group referenced by its id", r##"<svg xmlns="http://www.w3.org/2000/svg"><style>.n{fill:red}.i{stroke:blue}</style><g id="b" class="n"><g class="i"><circle r="20"/><circle r="20" cx="60" class="i"/></g></g><g class="n"/><use href="#b" y="50"/></svg>"##, |src, out| {
        same_drawing(src, out, &mut Rng::new(1), 200, &mut Obs::default()).is_ok()
    }),
];

pub const DEFAULT_ORDER: &[&str] = &[
    "removeDoctype", "removeXMLProcInst", "removeComments", "removeDeprecatedAttrs", "removeMetadata", "removeEditorsNSData", "cleanupAttrs", "mergeStyles", "inlineStyles", "minifyStyles", "cleanupIds",
    "removeUselessDefs", "cleanupNumericValues", "convertColors", "removeUnknownsAndDefaults", "removeNonInheritableGroupAttrs", "removeUselessStrokeAndFill", "cleanupEnableBackground", "removeHiddenElems",
    "removeEmptyText", "convertShapeToPath", "convertEllipseToCircle", "moveElemsAttrsToGroup", "moveGroupAttrsToElems", "collapseGroups", "applyTransforms", "convertPathData", "convertTransform", "removeEmptyAttrs",
    "removeEmptyContainers", "removeUnusedNS", "mergePaths", "sortAttrs", "sortDefsChildren", "removeDesc",
];

pub fn job(name: &str) -> Option<Jobs> {
    serde_json::from_value(json!({ name: {} })).or_else(|_| serde_json::from_value(json!({ name: true }))).ok()
}

/// Runs the default jobs one at a time to find the one after which the drawing differs.
pub fn blame(src: &str, rng: &mut Rng, obs: &mut Obs) -> String {
    let mut cur = src.to_string();
    for name in DEFAULT_ORDER {
        let Some(j) = job(name) else { continue };
        let Ok(next) = optimise(&cur, &j) else { return format!("{name} fails") };
        if same_drawing(&cur, &next, rng, 400, obs).is_err() {
            return (*name).to_string();
        }
        cur = next;
    }
    "several jobs".into()
}

fn report(doc: &Doc, culprit: String, why: &str, jobs: &Jobs, rng: &mut Rng, obs: &mut Obs) {
    let sig = format!("drawing changed ({culprit})");
    if obs.violations.iter().filter(|v| v.sig == sig).count() > 2 {
        obs.violation(sig, doc.text(), why);
        return;
    }
    let alone = job(&culprit);
    let mut detail = why.to_string();
    let mut scratch = Obs::default();
    let small = shrink(doc, &mut |d: &Doc| {
        let src = d.text();
        for jobs in alone.iter().chain([jobs]) {
            if let Ok(out) = optimise(&src, jobs) {
                if let Err(e) = same_drawing(&src, &out, rng, 300, &mut scratch) {
                    if blame(&src, rng, &mut scratch) == culprit {
                        detail = format!("{e}; became {out}");
                        return true;
                    }
                }
            }
        }
        false
    });
    obs.violation(sig, small.text(), detail);
}

fn flags(rng: &mut Rng, names: &[&str]) -> Value {
    let mut o = serde_json::Map::new();
    for n in names {
        if rng.chance(1, 2) {
            o.insert((*n).into(), json!(rng.chance(1, 2)));
        }
    }
    Value::Object(o)
}

/// A job with settings under which it promises to keep the picture.
fn any_job(rng: &mut Rng) -> (&'static str, Value) {
    const ALL: &[&str] = &[
        "removeDoctype", "removeXMLProcInst", "removeComments", "removeDeprecatedAttrs", "removeMetadata", "removeEditorsNSData", "cleanupAttrs", "mergeStyles", "inlineStyles", "minifyStyles", "cleanupIds",
        "removeUselessDefs", "cleanupNumericValues", "convertColors", "removeUnknownsAndDefaults", "removeNonInheritableGroupAttrs", "removeUselessStrokeAndFill", "cleanupEnableBackground", "removeHiddenElems",
        "removeEmptyText", "convertShapeToPath", "convertEllipseToCircle", "moveElemsAttrsToGroup", "moveGroupAttrsToElems", "collapseGroups", "applyTransforms", "convertPathData", "convertTransform", "removeEmptyAttrs",
        "removeEmptyContainers", "removeUnusedNS", "mergePaths", "sortAttrs", "sortDefsChildren", "removeDesc", "convertStyleToAttrs", "cleanupListOfValues", "convertOneStopGradients", "removeOffCanvasPaths", "removeTitle", "removeViewBox",
        "reusePaths", "prefixIds", "removeXlink", "removeScripts",
    ];
    let name = *rng.pick(ALL);
    let v = match name {
        "cleanupAttrs" => flags(rng, &["newlines", "trim", "spaces"]),
        "inlineStyles" => flags(rng, &["onlyMatchedOnce", "removeMatchedSelectors"]),
        "cleanupIds" => flags(rng, &["remove", "minify"]),
        "cleanupNumericValues" | "cleanupListOfValues" => flags(rng, &["defaultPx", "convertToPx"]),
        "convertColors" => json!({}),
        "removeUnknownsAndDefaults" => flags(rng, &["unknownContent", "unknownAttrs", "defaultAttrs", "defaultMarkupDeclarations", "uselessOverrides", "keepDataAttrs", "keepAriaAttrs", "keepRoleAttr"]),
        "removeUselessStrokeAndFill" => flags(rng, &["stroke", "fill", "removeNone"]),
        "removeHiddenElems" => flags(rng, &["isHidden", "displayNone", "opacityZero", "circleRZero", "ellipseRxZero", "ellipseRyZero", "rectWidthZero", "rectHeightZero", "pathEmptyD", "polylineEmptyPoints", "polygonEmptyPoints"]),
        "removeEmptyText" => flags(rng, &["text", "tspan", "tref"]),
        "convertShapeToPath" => flags(rng, &["convertArcs"]),
        "convertPathData" => flags(rng, &["joinNodes", "removeEmptySegments", "removeZeroSegments", "straightCurves", "arcCurves", "smartArcRounding"]),
        "convertTransform" => flags(rng, &["convertToShorts", "matrixToTransform", "shortRotate", "removeUseless", "collapseIntoOne"]),
        "convertStyleToAttrs" => flags(rng, &["keepImportant"]),
        "removeXlink" => flags(rng, &["includeLegacy"]),
        "prefixIds" => {
            let mut v = flags(rng, &["prefixIds", "prefixClassNames"]);
            v["prefix"] = json!(rng.pick(&["p", "x1", "my-prefix"]));
            v["delim"] = json!(rng.pick(&["__", "-", ""]));
            v
        }
        "removeComments" | "removeEditorsNSData" | "minifyStyles" | "applyTransforms" | "mergePaths" | "sortAttrs" | "removeDeprecatedAttrs" | "removeDesc" => json!({}),
        _ => json!(true),
    };
    (name, v)
}

/// Makes a drawing offer work to the jobs that are off by default.
fn enrich(doc: &mut Doc, rng: &mut Rng) {
    let n = doc.root.count();
    let mut extra = vec![];
    for i in 1..n {
        let Some(e) = doc.root.nth(i) else { break };
        if e.name == "path" && rng.chance(1, 3) {
            let mut c = e.clone();
            c.remove("id");
            if rng.chance(1, 2) {
                c.set("transform", format!("translate({} {})", rng.range(-20, 60), rng.range(-20, 60)));
            }
            extra.push(c);
        }
    }
    for c in extra {
        if rng.chance(2, 3) {
            doc.root.push(c);
        } else {
            doc.root.push(El::new("g").with(&[("fill", "green"), ("stroke", "blue")]).holding(c));
        }
    }
    doc.root.walk_mut(&mut |e| {
        if e.name.ends_with("Gradient") && rng.chance(1, 3) {
            let mut seen = 0;
            e.children.retain(|c| !matches!(c, Nd::El(c) if c.name == "stop") || {
                seen += 1;
                seen == 1
            });
        }
    });
    if rng.chance(1, 4) {
        let (x, y) = *rng.pick(&[(150, 20), (-60, 20), (20, 140), (20, -70), (-30, -30), (-10, 30)]);
        doc.root.push(El::new("path").with(&[("d", &format!("M{x} {y}h30v20h-30z")), ("stroke", "red"), ("stroke-width", rng.pick(&["1", "12"]))]));
    }
}

/// Drawings and jobs the random ones stay away from.
const KNOWN_JOBS: &[(&str, &str, &str)] = &[
    ("reused paths without a namespace", r#"{"reusePaths":true}"#, r#"<svg xmlns="http://www.w3.org/2000/svg"><path d="M10 10h20v20z"/><path d="M10 10h20v20z" transform="translate(30 10)"/></svg>"#),
    ("reused path referenced by its id", r##"{"reusePaths":true}"##, r##"<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"><path id="a" d="M10 10h20v20z" transform="translate(30 10)"/><path d="M10 10h20v20z"/><use xlink:href="#a" x="20" y="40"/></svg>"##),
    ("font shorthand as an attribute", r#"{"convertStyleToAttrs":{}}"#, r#"<svg xmlns="http://www.w3.org/2000/svg"><text style="font:italic 15px serif">a</text></svg>"#),
];

/// P11: any selection of picture-preserving jobs keeps what is drawn.
pub fn selected_jobs(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when a compared point has ink; distinct by the document and the jobs");
    ctx.directed("known", KNOWN_JOBS, |(name, config, src), obs| {
        let jobs: Jobs = serde_json::from_str(config).expect("jobs");
        let out = optimise(src, &jobs);
        match out.and_then(|out| if out.contains(" font=") { Err(format!("became {out}")) } else { Ok(out) }).and_then(|out| same_drawing(src, &out, &mut Rng::new(1), 300, obs).map_err(|e| format!("{e}; became {out}"))) {
            Ok(_) => obs.nontrivial(src),
            Err(e) => obs.violation(format!("{name}: drawing changed"), *src, e),
        }
    });
    ctx.explore("drawings", ctx.scale(600_000, 2_000_000), |rng, _, obs| {
        let w = Want::random(rng);
        let mut doc = drawing::drawing(rng, w, 12);
        if rng.chance(1, 2) {
            enrich(&mut doc, rng);
        }
        let mut config = serde_json::Map::new();
        for _ in 0..if rng.chance(2, 3) { 1 } else { 2 + rng.below(8) } {
            let (n, v) = any_job(rng);
            config.insert(n.into(), v);
        }
        if config.contains_key("mergePaths") {
            drawing::apart(&mut doc);
        }
        if config.contains_key("convertOneStopGradients") {
            // paint of text is compared as written
            doc.root.prune(&|e| e.name == "text");
            // a gradient over the box of a straight line paints nothing, a colour does
            doc.root.walk_mut(&mut |e| {
                if e.name.ends_with("Gradient") {
                    e.set("gradientUnits", "userSpaceOnUse");
                }
            });
        }
        if config.contains_key("reusePaths") {
            // see the known ones
            for n in ["convertOneStopGradients", "removeUnusedNS"] {
                config.remove(n);
            }
            doc.root.set("xmlns:xlink", "http://www.w3.org/1999/xlink");
            doc.root.walk_mut(&mut |e| {
                if e.name == "path" {
                    e.remove("id");
                }
            });
        }
        let src = doc.text();
        if let Err(e) = selection(&src, &config, rng, 60, obs) {
            // the fewest jobs, then the smallest drawing
            let mut least = config.clone();
            let mut scratch = Obs::default();
            for n in config.keys() {
                let mut fewer = least.clone();
                fewer.remove(n);
                if selection(&src, &fewer, rng, 300, &mut scratch).is_err() {
                    least = fewer;
                }
            }
            let sig = format!("drawing changed by {}", least.keys().cloned().collect::<Vec<_>>().join(" and "));
            if obs.violations.iter().filter(|v| v.sig == sig).count() > 2 {
                obs.violation(sig, src, e);
                return;
            }
            let mut detail = e;
            let small = shrink(&doc, &mut |d: &Doc| match selection(&d.text(), &least, rng, 300, &mut scratch) {
                Err(e) => {
                    detail = e;
                    true
                }
                Ok(_) => false,
            });
            obs.violation(sig, format!("{} on {}", Value::Object(least), small.text()), detail);
            return;
        }
        for n in config.keys() {
            obs.count(&format!("ran_{n}"));
        }
        obs.sample(|| json!({"source": clip(&src, 300), "jobs": config}));
    });
}

fn selection(src: &str, config: &serde_json::Map<String, Value>, rng: &mut Rng, points: usize, obs: &mut Obs) -> Result<(), String> {
    let jobs: Jobs = serde_json::from_value(Value::Object(config.clone())).unwrap_or_else(|e| panic!("{config:?}: {e}"));
    let out = optimise(src, &jobs)?;
    if config.contains_key("reusePaths") && !src.contains("xmlns:xlink") {
        return Ok(());
    }
    let inside = config.contains_key("removeOffCanvasPaths");
    if same_everywhere(src, &out, rng, points, inside, obs).map_err(|e| format!("{e}; became {out}"))? {
        obs.nontrivial(&format!("{config:?} {src}"));
    }
    Ok(())
}
