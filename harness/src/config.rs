//! Configurations: which jobs run, and with which options.
use crate::drawing::{self, Want};
use crate::fw::{Ctx, Rng, clip};
use crate::rendering::optimise_as;
use oxvg_ast::parse::roxmltree::{ParsingOptions, parse_with_options};
use oxvg_ast::serialize::Node as _;
use oxvg_ast::visitor::Info;
use oxvg_optimiser::{Extends, Jobs};
use serde_json::{Map, Value, json};

/// Every job in the order they run, as documented, with the options it has when none are given.
/// The middle part is the default preset.
const BEFORE: &str = r#"{"precheck":{"failFast":true,"precleanChecks":false},"addAttributesToSVGElement":{"attributes":{}},"addClassesToSVGElement":{"classNames":null,"className":null},"cleanupListOfValues":{"floatPrecision":3,"defaultPx":true,"convertToPx":true},"convertOneStopGradients":true,"convertStyleToAttrs":{"keepImportant":false},"removeAttributesBySelector":[],"removeAttrs":{"attrs":[],"elemSeparator":":","preserveCurrentColor":false},"removeDimensions":true,"removeElementsByAttr":{"id":[],"class":[]},"removeOffCanvasPaths":true,"removeRasterImages":true,"removeScripts":true,"removeStyleElement":true,"removeTitle":true,"removeViewBox":true,"reusePaths":true,"removeXMLNS":true}"#;
const DEFAULT: &str = r#"{"removeDoctype":true,"removeXMLProcInst":true,"removeComments":{},"removeDeprecatedAttrs":{"removeAny":false},"removeMetadata":true,"removeEditorsNSData":{"additionalNamespaces":null},"cleanupAttrs":{"newlines":true,"trim":true,"spaces":true},"mergeStyles":true,"inlineStyles":{"onlyMatchedOnce":true,"removeMatchedSelectors":true,"useMqs":["","screen"],"usePseudos":[""]},"minifyStyles":{"usage":true},"cleanupIds":{"remove":true,"minify":true,"preserve":null,"preservePrefixes":null,"force":false},"removeUselessDefs":true,"cleanupNumericValues":{"floatPrecision":3,"defaultPx":true,"convertToPx":true},"convertColors":{"method":null},"removeUnknownsAndDefaults":{"unknownContent":true,"unknownAttrs":true,"defaultAttrs":true,"defaultMarkupDeclarations":true,"uselessOverrides":true,"keepDataAttrs":true,"keepAriaAttrs":true,"keepRoleAttr":false},"removeNonInheritableGroupAttrs":true,"removeUselessStrokeAndFill":{"stroke":true,"fill":true,"removeNone":false},"cleanupEnableBackground":true,"removeHiddenElems":{"isHidden":null,"displayNone":null,"opacityZero":null,"circleRZero":null,"ellipseRxZero":null,"ellipseRyZero":null,"rectWidthZero":null,"rectHeightZero":null,"patternWidthZero":null,"patternHeightZero":null,"imageWidthZero":null,"imageHeightZero":null,"pathEmptyD":null,"polylineEmptyPoints":null,"polygonEmptyPoints":null},"removeEmptyText":{"text":null,"tspan":null,"tref":null},"convertShapeToPath":{"convertArcs":false,"floatPrecision":3},"convertEllipseToCircle":true,"moveElemsAttrsToGroup":true,"moveGroupAttrsToElems":true,"collapseGroups":true,"applyTransforms":{"transformPrecision":null,"applyTransformsStroked":false},"convertPathData":{"closeSegments":false,"uniteSegments":false,"joinNodes":true,"removeEmptySegments":true,"removeZeroSegments":true,"removeCloseLine":false,"straightCurves":true,"arcCurves":true,"smartArcRounding":true,"tolerance":{"positional":0.001,"angular":0.001,"precision":3}},"convertTransform":{"convertToShorts":true,"degPrecision":null,"floatPrecision":3,"transformPrecision":5,"matrixToTransform":true,"shortRotate":true,"removeUseless":true,"collapseIntoOne":true},"removeEmptyAttrs":true,"removeEmptyContainers":true,"removeUnusedNS":true,"mergePaths":{"force":false},"sortAttrs":{"order":null,"xmlnsOrder":null},"sortDefsChildren":true,"removeDesc":{"removeAny":false}}"#;
const AFTER: &str = r#"{"prefixIds":{"delim":"__","prefix":true,"prefixIds":true,"prefixClassNames":true},"removeXlink":{"includeLegacy":false}}"#;

/// Options that cannot be left out.
const NEEDED: &[&str] = &["attributes", "attrs"];

struct Table {
    jobs: Map<String, Value>,
    default: Map<String, Value>,
    /// in the order of running
    names: Vec<String>,
}

/// The names of an object's members in the order they are written.
fn written(text: &str) -> Vec<String> {
    let (mut out, mut depth, mut name, mut inside, mut start) = (vec![], 0, String::new(), false, 0);
    for (i, c) in text.char_indices() {
        match c {
            '"' => {
                if inside {
                    name = text[start..i].to_string();
                } else {
                    start = i + 1;
                }
                inside = !inside;
            }
            ':' if !inside && depth == 1 => out.push(name.clone()),
            '{' | '[' if !inside => depth += 1,
            '}' | ']' if !inside => depth -= 1,
            _ => {}
        }
    }
    out
}

fn object(text: &str) -> Map<String, Value> {
    match serde_json::from_str(text).expect("table") {
        Value::Object(o) => o,
        _ => unreachable!(),
    }
}

impl Table {
    fn new() -> Self {
        let mut jobs = object(BEFORE);
        jobs.extend(object(DEFAULT));
        jobs.extend(object(AFTER));
        let names = [BEFORE, DEFAULT, AFTER].iter().flat_map(|t| written(t)).collect();
        Table { jobs, default: object(DEFAULT), names }
    }

    /// Random options for a job: what is written, and what it means in full.
    fn options(&self, rng: &mut Rng, job: &str) -> (Value, Value) {
        match &self.jobs[job] {
            Value::Bool(_) => {
                let b = rng.chance(3, 4);
                (json!(b), json!(b))
            }
            Value::Object(o) => {
                let (mut given, mut full) = (Map::new(), o.clone());
                for (k, v) in o {
                    if !NEEDED.contains(&k.as_str()) && rng.chance(1, 2) {
                        continue;
                    }
                    let v = other(rng, k, v);
                    given.insert(k.clone(), v.clone());
                    full.insert(k.clone(), v);
                }
                (Value::Object(given), Value::Object(full))
            }
            _ => {
                let v = if rng.chance(1, 2) { json!([]) } else { json!([{"selector": "rect", "attributes": ["fill", "id"]}]) };
                (v.clone(), v)
            }
        }
    }
}

fn other(rng: &mut Rng, key: &str, v: &Value) -> Value {
    let words = |rng: &mut Rng| json!((0..rng.below(3)).map(|_| *rng.pick(&["a", "b-c", "*"])).collect::<Vec<_>>());
    match (key, v) {
        ("attributes", _) => json!({"data-x": "1", "fill": "red"}),
        ("attrs", _) => json!(["path:fill", "stroke.*"]),
        ("method", _) => json!(*rng.pick(&["lightning", "currentColor"])),
        ("xmlnsOrder", _) => json!(*rng.pick(&["front", "alphabetical"])),
        ("className", _) => json!("c d"),
        ("prefix", _) => rng.pick(&[json!(false), json!(true), json!("own")]).clone(),
        ("additionalNamespaces", _) => json!(["urn:x"]),
        ("tolerance", _) => json!({"positional": 0.01, "angular": 0.5, "precision": rng.below(5)}),
        ("preserve" | "preservePrefixes" | "order" | "classNames", _) | (_, Value::Array(_)) => words(rng),
        (_, Value::Bool(_)) => json!(rng.chance(1, 2)),
        ("degPrecision" | "transformPrecision", _) | (_, Value::Number(_)) => json!(rng.below(7)),
        (_, Value::String(_)) => json!("--"),
        (_, Value::Null) => json!(rng.chance(1, 2)),
        _ => v.clone(),
    }
}

fn said(j: &Jobs) -> Value {
    serde_json::to_value(j).expect("jobs can be written")
}

/// The first difference, and where.
fn differs(at: &str, want: &Value, is: &Value) -> Option<String> {
    match (want, is) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in a {
                match b.get(k) {
                    None => return Some(format!("{at}.{k} is missing instead of {v}")),
                    Some(w) => {
                        if let Some(d) = differs(&format!("{at}.{k}"), v, w) {
                            return Some(d);
                        }
                    }
                }
            }
            b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{at}.{k} is unexpected"))
        }
        (Value::Number(a), Value::Number(b)) if a.as_f64() == b.as_f64() => None,
        _ if want == is => None,
        _ => Some(format!("{at} is {is} instead of {want}")),
    }
}

fn read_jobs(v: &Value) -> Result<Jobs, String> {
    serde_json::from_value(v.clone()).map_err(|e| format!("refused: {e}"))
}

/// A random selection: as written, and as meant.
fn selection(t: &Table, rng: &mut Rng, max: usize) -> (Map<String, Value>, Map<String, Value>) {
    let (mut given, mut full) = (Map::new(), Map::new());
    for _ in 0..rng.below(max + 1) {
        let job = rng.pick(&t.names).clone();
        let (g, f) = t.options(rng, &job);
        given.insert(job.clone(), g);
        full.insert(job, f);
    }
    (given, full)
}

/// The other tools' list of plugins for a selection: as written, and as meant.
fn plugins(t: &Table, rng: &mut Rng) -> (Vec<Value>, Value) {
    let (mut list, mut full) = (vec![], Map::new());
    for _ in 0..rng.below(5) {
        if rng.chance(1, 6) {
            list.push(json!("preset-default"));
            full.extend(t.default.clone());
            continue;
        }
        let name = rng.pick(&t.names).clone();
        if name == "convertPathData" && rng.chance(1, 2) {
            let (params, path, transforms) = path_params(rng);
            list.push(json!({"name": name, "params": params}));
            full.insert(name, path);
            if let Some(v) = transforms {
                full.insert("applyTransforms".into(), v);
            }
            continue;
        }
        match rng.below(3) {
            0 => list.push(json!(name)),
            1 => list.push(json!({"name": name})),
            _ if name == "convertPathData" => list.push(json!(name)),
            _ => {
                let (given, meant) = t.options(rng, &name);
                list.push(json!({"name": name, "params": given}));
                full.insert(name, meant);
                continue;
            }
        }
        if name == "convertPathData" {
            full.insert("applyTransforms".into(), t.jobs["applyTransforms"].clone());
        }
        full.insert(name.clone(), t.jobs[&name].clone());
    }
    (list, Value::Object(full))
}

fn path_params(rng: &mut Rng) -> (Value, Value, Option<Value>) {
    let mut params = Map::new();
    let mut path = object(DEFAULT)["convertPathData"].clone();
    for (theirs, ours) in [("convertToZ", &["closeSegments"][..]), ("collapseRepeated", &["joinNodes"]), ("removeUseless", &["removeEmptySegments", "removeZeroSegments"]), ("straightCurves", &["straightCurves"]), ("smartArcRounding", &["smartArcRounding"])] {
        if rng.chance(1, 2) {
            let b = json!(rng.chance(1, 2));
            params.insert(theirs.into(), b.clone());
            for o in ours {
                path[*o] = b.clone();
            }
        }
    }
    if rng.chance(1, 2) {
        let n = json!(rng.below(6));
        params.insert("floatPrecision".into(), n.clone());
        path["tolerance"]["precision"] = n;
    }
    // arcs and transforms are made when asked for
    path["arcCurves"] = json!(false);
    match rng.below(3) {
        0 => drop(params.insert("makeArcs".into(), json!(false))),
        1 => {
            path["arcCurves"] = json!(true);
            params.insert("makeArcs".into(), json!({"threshold": 0.25, "tolerance": 0.5}));
            path["tolerance"]["positional"] = json!(0.25);
        }
        _ => {}
    }
    let transforms = match rng.below(3) {
        0 => {
            params.insert("applyTransforms".into(), json!(false));
            None
        }
        1 => {
            params.insert("applyTransforms".into(), json!(true));
            params.insert("applyTransformsStroked".into(), json!(true));
            params.insert("transformPrecision".into(), json!(4));
            Some(json!({"transformPrecision": 4, "applyTransformsStroked": true}))
        }
        _ => None,
    };
    (Value::Object(params), path, transforms)
}

/// Runs the jobs of a selection one at a time, in the documented order.
fn one_by_one(t: &Table, src: &str, given: &Map<String, Value>) -> Result<String, String> {
    let jobs: Vec<Jobs> = t.names.iter().filter_map(|n| given.get(n).map(|v| read_jobs(&json!({n: v})))).collect::<Result<_, _>>()?;
    parse_with_options(src, ParsingOptions { allow_dtd: true, ..Default::default() }, |dom, allocator| {
        let info = Info::new(allocator);
        for j in &jobs {
            j.run(dom, &info).map_err(|e| format!("job failed: {e}"))?;
        }
        dom.serialize().map_err(|e| e.to_string())
    })
    .map_err(|e| e.to_string())?
}

pub fn meaning(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when the configuration names a job; distinct by the configuration");
    let t = Table::new();
    ctx.directed("presets", &[("none", json!({}), Extends::None), ("default", Value::Object(t.default.clone()), Extends::Default)], |(name, want, e), obs| {
        if let Some(d) = differs("", want, &said(&e.jobs())) {
            obs.violation(format!("preset {name}"), *name, d);
        }
        obs.nontrivial(name);
    });
    let mut safe = t.default.clone();
    safe.insert("precheck".into(), t.jobs["precheck"].clone());
    ctx.directed("safe preset", &[Value::Object(safe.clone())], |want, obs| {
        if let Some(d) = differs("", want, &said(&Extends::Safe.jobs())) {
            obs.violation("preset safe", "safe", d);
        }
        obs.nontrivial(&"safe");
    });
    ctx.explore("options", ctx.scale(300_000, 3_000_000), |rng, _, obs| {
        let (given, full) = selection(&t, rng, 6);
        let given = Value::Object(given);
        let mut full = Value::Object(full);
        let verdict = read_jobs(&given).and_then(|jobs| {
            if let Some(d) = differs("", &full, &said(&jobs)) {
                return Err(format!("read: {d}"));
            }
            // reading what was written changes nothing
            let again = read_jobs(&said(&jobs))?;
            if let Some(d) = differs("", &said(&jobs), &said(&again)) {
                return Err(format!("read again: {d}"));
            }
            // over a preset, without some
            let (e, base) = rng.pick(&[(Extends::None, Map::new()), (Extends::Default, t.default.clone()), (Extends::Safe, safe.clone())]).clone();
            let mut all = base;
            all.extend(full.as_object_mut().map(std::mem::take).unwrap_or_default());
            let mut jobs = e.extend(&jobs);
            if let Some(d) = differs("", &Value::Object(all.clone()), &said(&jobs)) {
                return Err(format!("extended: {d}"));
            }
            for _ in 0..rng.below(3) {
                let n = rng.pick(&t.names).clone();
                jobs.omit(&crate::cli::snake(&n));
                all.remove(&n);
            }
            differs("", &Value::Object(all), &said(&jobs)).map_or(Ok(()), |d| Err(format!("omitted: {d}")))
        });
        if let Err(e) = verdict {
            let sort = e.split(" is ").next().unwrap_or("").to_string();
            obs.violation(format!("options: {sort}"), given.to_string(), e);
        }
        if given.as_object().is_some_and(|o| !o.is_empty()) {
            obs.nontrivial(&given.to_string());
        }
        obs.sample(|| given.clone());
    });
    ctx.explore("plugins", ctx.scale(200_000, 2_000_000), |rng, _, obs| {
        let (list, full) = plugins(&t, rng);
        let text = json!(list).to_string();
        match Jobs::from_svgo_plugin_config(Some(list.clone())) {
            Ok(jobs) => {
                if let Some(d) = differs("", &full, &said(&jobs)) {
                    obs.violation(format!("plugins: {}", d.split(" is ").next().unwrap_or("")), &text, d);
                }
            }
            Err(e) => obs.violation("plugins: refused", &text, e.to_string()),
        }
        let mut bad = list;
        bad.insert(rng.below(bad.len() + 1), rng.pick(&[json!("noSuchJob"), json!({"name": "noSuchJob"}), json!({"params": {}}), json!(3), json!({"name": "noSuchJob", "params": {}})]).clone());
        if Jobs::from_svgo_plugin_config(Some(bad.clone())).is_ok() {
            obs.violation("plugins: nonsense accepted", json!(bad).to_string(), "");
        }
        obs.nontrivial(&text);
    });
    ctx.explore("selections", ctx.scale(150_000, 2_000_000), |rng, _, obs| {
        let (given, _) = selection(&t, rng, 5);
        let want = Want::random(rng);
        let doc = drawing::drawing(rng, want, 6);
        let src = doc.text();
        let jobs = match read_jobs(&Value::Object(given.clone())) {
            Ok(j) => j,
            Err(e) => return obs.violation("options: refused", json!(given).to_string(), e),
        };
        let together = optimise_as(&src, &jobs, None);
        let apart = one_by_one(&t, &src, &given);
        if together != apart {
            obs.violation("selection: not the sum of its jobs", format!("{} on {src}", json!(given)), format!("{together:?} instead of {apart:?}"));
        }
        // jobs switched off do nothing
        let on: Map<String, Value> = given.iter().filter(|(_, v)| **v != json!(false)).map(|(k, v)| (k.clone(), v.clone())).collect();
        if on.len() < given.len() {
            obs.count("switched_off");
            let without = read_jobs(&Value::Object(on)).and_then(|j| optimise_as(&src, &j, None));
            if without != together {
                obs.violation("selection: a job switched off runs", format!("{} on {src}", json!(given)), format!("{together:?} instead of {without:?}"));
            }
        }
        if together.is_ok_and(|o| o != src) {
            obs.nontrivial(&(json!(given).to_string(), src.clone()));
        }
        obs.sample(|| json!({"jobs": given, "source": clip(&src, 200)}));
    });
}
