//! Jobs that rename or drop ids: references keep pointing at the same elements.
use crate::doc::*;
use crate::fw::*;
use crate::rendering::optimise_as;
use oxvg_optimiser::Jobs;
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet};

const NAMES: &[&str] = &["a", "b", "c", "d", "A", "aa", "ab", "grad", "clip-1", "icon_2", "Layer.1", "x:y", "keep", "keep-me", "keepsake", "é", "日本", "symbol", "shape1", "shape2", "longer-identifier-3", "p", "f", "1", "42"];
const CLASSES: &[&str] = &["a", "b", "grad", "big", "keep"];
const ARIA: &[&str] = &["aria-labelledby", "aria-describedby", "aria-controls", "aria-owns", "aria-flowto", "aria-details", "aria-activedescendant"];

/// One reference: the text around it and what it names.
#[derive(Debug, PartialEq, Clone)]
enum Piece {
    Text(String),
    Id(String),
    Class(String),
}

fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%'
            && let Some(h) = s.get(i + 1..i + 3)
            && let Ok(v) = u8::from_str_radix(h, 16)
        {
            out.push(v);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).unwrap_or_else(|_| s.to_string())
}

fn urls(v: &str, out: &mut Vec<Piece>) {
    let mut rest = v;
    while let Some(k) = rest.find("url(") {
        let Some(e) = rest[k..].find(')') else { break };
        let inner = rest[k + 4..k + e].trim().trim_matches(|c| c == '"' || c == '\'');
        out.push(Piece::Text(rest[..k].to_string()));
        match inner.strip_prefix('#') {
            Some(id) => out.push(Piece::Id(decode(id))),
            None => out.push(Piece::Text(format!("url({inner})"))),
        }
        rest = &rest[k + e + 1..];
    }
    out.push(Piece::Text(rest.to_string()));
}

fn timing(v: &str, out: &mut Vec<Piece>) {
    for (k, part) in v.split(';').map(str::trim).enumerate() {
        if k > 0 {
            out.push(Piece::Text(";".into()));
        }
        match part.split_once('.') {
            Some((id, what)) if !id.is_empty() && id.starts_with(|c: char| c.is_alphabetic()) => {
                out.push(Piece::Id(id.to_string()));
                out.push(Piece::Text(what.replace(' ', "")));
            }
            _ => out.push(Piece::Text(part.to_string())),
        }
    }
}

/// References inside a style sheet, in its selectors and in its declarations.
fn sheet(css: &str, out: &mut Vec<Piece>) {
    let mut rest = css;
    while let Some(open) = rest.find('{') {
        let mut sel = &rest[..open];
        while let Some(k) = sel.find(['#', '.']) {
            let name: String = sel[k + 1..].chars().take_while(|c| c.is_alphanumeric() || *c == '-' || *c == '_').collect();
            out.push(Piece::Text(sel[..k].to_string()));
            out.push(if sel.as_bytes()[k] == b'#' { Piece::Id(name.clone()) } else { Piece::Class(name.clone()) });
            sel = &sel[k + 1 + name.len()..];
        }
        out.push(Piece::Text(sel.to_string()));
        let close = rest.find('}').unwrap_or(rest.len());
        urls(&rest[open..close], out);
        rest = rest.get(close + 1..).unwrap_or("");
    }
    out.push(Piece::Text(rest.to_string()));
}

fn pieces(element: &str, ns: &str, name: &str, v: &str) -> Vec<Piece> {
    let mut out = vec![];
    match name {
        "id" if ns.is_empty() => {}
        "href" => match v.strip_prefix('#') {
            Some(id) => out.push(Piece::Id(decode(id))),
            None => out.push(Piece::Text(v.to_string())),
        },
        "class" if ns.is_empty() => {
            let mut c: Vec<_> = v.split_whitespace().collect();
            c.sort_unstable();
            out.extend(c.into_iter().map(|c| Piece::Class(c.to_string())));
        }
        "begin" | "end" if element.starts_with("animate") || element == "set" => timing(v, &mut out),
        _ if ARIA.contains(&name) => out.extend(v.split_whitespace().map(|i| Piece::Id(i.to_string()))),
        "fill" | "stroke" | "clip-path" | "mask" | "filter" | "marker-start" | "marker-mid" | "marker-end" | "style" => urls(v, &mut out),
        _ => out.push(Piece::Text(v.to_string())),
    }
    out
}

/// What a document says, by element.
#[derive(Default)]
struct Said {
    ids: BTreeMap<usize, String>,
    /// first element with each id
    named: BTreeMap<String, usize>,
    repeated: BTreeSet<usize>,
    classes: BTreeMap<usize, Vec<String>>,
    values: BTreeMap<(usize, String), Vec<Piece>>,
}

fn listen(src: &str) -> Result<Said, String> {
    let root = read_root(src).map_err(|e| format!("not well-formed: {e}"))?;
    let mut s = Said::default();
    let mut k = 0;
    root.walk(&mut |x| {
        let X::El { name, attrs, .. } = x else { return };
        for ((ns, n), v) in attrs {
            if n == "id" && ns.is_empty() {
                s.ids.insert(k, v.clone());
                if s.named.contains_key(v) {
                    s.repeated.insert(k);
                } else {
                    s.named.insert(v.clone(), k);
                }
                continue;
            }
            if n == "class" && ns.is_empty() {
                s.classes.insert(k, v.split_whitespace().map(str::to_string).collect());
            }
            s.values.insert((k, format!("{ns} {n}")), pieces(name, ns, n, v));
        }
        if name == "style" {
            let mut p = vec![];
            sheet(&x.raw_text(), &mut p);
            s.values.insert((k, "text".into()), p);
        } else {
            let own: String = x.children().iter().filter(|c| matches!(c, X::Text(_))).map(X::raw_text).collect();
            s.values.insert((k, format!("text of {name}")), vec![Piece::Text(own)]);
        }
        k += 1;
    });
    Ok(s)
}

impl Said {
    /// Which elements a reference reaches.
    fn reach(&self, p: &Piece) -> Option<Result<Vec<usize>, String>> {
        match p {
            Piece::Text(_) => None,
            Piece::Id(id) => Some(self.named.get(id).map(|k| vec![*k]).ok_or_else(|| id.clone())),
            Piece::Class(c) => Some(Ok(self.classes.iter().filter(|(_, all)| all.contains(c)).map(|(k, _)| *k).collect())),
        }
    }
    fn referenced(&self) -> BTreeSet<usize> {
        self.values.values().flatten().filter_map(|p| if let Piece::Id(i) = p { self.named.get(i).copied() } else { None }).collect()
    }
}

struct Plan {
    jobs: Map<String, Value>,
    path: Option<&'static str>,
    preserve: Vec<String>,
    preserve_prefixes: Vec<String>,
    prefix: Option<String>,
}

impl Plan {
    fn random(rng: &mut Rng) -> Plan {
        let mut p = Plan { jobs: Map::new(), path: None, preserve: vec![], preserve_prefixes: vec![], prefix: None };
        let both = rng.chance(1, 5);
        if both || rng.chance(1, 2) {
            let mut o = Map::new();
            for n in ["remove", "minify"] {
                if rng.chance(1, 2) {
                    o.insert(n.into(), json!(rng.chance(1, 2)));
                }
            }
            if rng.chance(1, 6) {
                o.insert("force".into(), json!(rng.chance(1, 2)));
            }
            if rng.chance(1, 3) {
                p.preserve = (0..1 + rng.below(3)).map(|_| rng.pick(NAMES).to_string()).collect();
                o.insert("preserve".into(), json!(p.preserve));
            }
            if rng.chance(1, 3) {
                p.preserve_prefixes = (0..1 + rng.below(2)).map(|_| rng.pick(&["keep", "a", "shape", "é"]).to_string()).collect();
                o.insert("preservePrefixes".into(), json!(p.preserve_prefixes));
            }
            p.jobs.insert("cleanupIds".into(), Value::Object(o));
        }
        if both || p.jobs.is_empty() {
            let mut o = Map::new();
            for n in ["prefixIds", "prefixClassNames"] {
                if rng.chance(1, 3) {
                    o.insert(n.into(), json!(rng.chance(1, 2)));
                }
            }
            let mut delim = "__";
            if rng.chance(1, 2) {
                delim = rng.pick(&["-", "_", "__"]);
                o.insert("delim".into(), json!(delim));
            }
            p.prefix = match rng.below(6) {
                0 => {
                    o.insert("prefix".into(), json!(false));
                    Some(String::new())
                }
                1 | 2 => {
                    p.path = Some(*rng.pick(&["icon.svg", "dir/icon.svg", "/srv/pics/my icon.svg", "./some.where/drawing.min.svg"]));
                    let base = p.path.and_then(|p| p.rsplit('/').next()).unwrap_or("");
                    if rng.chance(1, 2) {
                        o.insert("prefix".into(), json!(true));
                    }
                    Some(format!("{}{delim}", base.replace(['.', ' '], "_")))
                }
                3 => Some(format!("prefix{delim}")),
                _ => {
                    let v = *rng.pick(&["z", "pre", "My"]);
                    o.insert("prefix".into(), json!(v));
                    Some(format!("{v}{delim}"))
                }
            };
            p.jobs.insert("prefixIds".into(), Value::Object(o));
        }
        p
    }
    fn flag(&self, job: &str, name: &str) -> bool {
        // every switch of the two jobs but `force` is on unless said otherwise
        self.jobs.get(job).and_then(|o| o.get(name)).map_or(name != "force", |v| v == &json!(true))
    }
    fn kept(&self, id: &str) -> bool {
        self.preserve.iter().any(|p| p == id) || self.preserve_prefixes.iter().any(|p| id.starts_with(p.as_str()))
    }
}

struct Make<'a> {
    rng: &'a mut Rng,
    ids: Vec<&'static str>,
    sheet: bool,
}

impl Make<'_> {
    fn id(&mut self) -> &'static str {
        if self.ids.is_empty() || self.rng.chance(1, 12) { self.rng.pick(NAMES) } else { self.rng.pick(&self.ids) }
    }
    fn spelled(&mut self) -> String {
        let id = self.id();
        if !id.is_ascii() && self.rng.chance(1, 2) { id.bytes().map(|b| format!("%{b:02X}")).collect() } else { id.to_string() }
    }
    fn url(&mut self) -> String {
        if self.rng.chance(1, 15) {
            return "url(other.svg#a)".into();
        }
        let id = self.spelled();
        let q = *self.rng.pick(&["", "'", "\""]);
        if q.is_empty() && id.contains([':', '.']) { format!("url('#{id}')") } else { format!("url({q}#{id}{q})") }
    }
    fn element(&mut self, depth: usize) -> El {
        let name = *self.rng.pick(&["g", "g", "path", "use", "linearGradient", "text", "a", "animate", "set", "clipPath", "symbol", "rect", "defs", "textPath"]);
        let mut e = El::new(name);
        if self.rng.chance(1, 2) && !self.ids.is_empty() {
            let id = if self.rng.chance(1, 14) { self.rng.pick(&self.ids) } else { "" };
            if !id.is_empty() {
                e.set("id", id);
            }
        }
        for _ in 0..self.rng.below(4) {
            match self.rng.below(9) {
                0 | 1 if matches!(name, "use" | "linearGradient" | "a" | "animate" | "set" | "textPath") => {
                    let v = if self.rng.chance(1, 10) { self.rng.pick(&["other.svg#a", "https://example.com/#b", "a"]).to_string() } else { format!("#{}", self.spelled()) };
                    e.set(*self.rng.pick(&["href", "xlink:href"]), v);
                }
                2 | 3 if !matches!(name, "animate" | "set") => {
                    let v = self.url();
                    let n = *self.rng.pick(&["fill", "stroke", "clip-path", "mask", "filter", "marker-start", "marker-mid", "marker-end"]);
                    e.set(n, v);
                }
                4 => {
                    let v: Vec<String> = (0..1 + self.rng.below(3)).map(|k| format!("{}:{}", ["fill", "stroke", "marker-start"][k], self.url())).collect();
                    e.set("style", v.join(";"));
                }
                5 if matches!(name, "g" | "path" | "text" | "use" | "a" | "rect" | "symbol") => {
                    let n = *self.rng.pick(ARIA);
                    let many = if matches!(n, "aria-details" | "aria-activedescendant") { 1 } else { 1 + self.rng.below(3) };
                    let v: Vec<&str> = (0..many).map(|_| self.id()).collect();
                    e.set(n, v.join(" "));
                }
                6 if matches!(name, "animate" | "set") => {
                    let v: Vec<String> = (0..1 + self.rng.below(3))
                        .map(|_| {
                            let id = loop {
                                let id = self.id();
                                if !id.contains(['.', ':', '-']) && !id.starts_with(|c: char| c.is_ascii_digit()) {
                                    break id;
                                }
                            };
                            match self.rng.below(5) {
                                0 => "2s".to_string(),
                                1 => "click".to_string(),
                                2 => format!("{id}.click"),
                                3 => format!("{id}.end+1s"),
                                _ => format!("{id}.begin"),
                            }
                        })
                        .collect();
                    e.set(*self.rng.pick(&["begin", "end"]), v.join(";"));
                }
                7 => {
                    let mut c: Vec<&str> = (0..1 + self.rng.below(3)).map(|_| *self.rng.pick(CLASSES)).collect();
                    c.sort_unstable();
                    c.dedup();
                    e.set("class", c.join(" "));
                }
                _ => {
                    e.set("data-x", *self.rng.pick(&["#a", "url(#a)", "a", "grad"]));
                }
            }
        }
        if depth > 0 && !matches!(name, "animate" | "set" | "use" | "path" | "rect") {
            for _ in 0..self.rng.below(4) {
                let c = self.element(depth - 1);
                e.push(c);
            }
        }
        if matches!(name, "text" | "textPath") && self.rng.chance(1, 2) {
            e = e.text("see #a");
        }
        e
    }
    fn doc(&mut self) -> Doc {
        let mut root = svg();
        root.set("xmlns:xlink", XLINK);
        root.push(El::new("rect"));
        for _ in 0..2 + self.rng.below(4) {
            let c = self.element(3);
            root.push(c);
        }
        // ids go to elements in no particular order
        let mut left = self.ids.clone();
        let n = root.count();
        for _ in 0..4 * n {
            let Some(id) = left.last().copied() else { break };
            if let Some(e) = root.nth_mut(self.rng.below(n))
                && e.get("id").is_none()
            {
                e.set("id", id);
                left.pop();
            }
        }
        if self.sheet {
            let mut css = String::new();
            for _ in 0..1 + self.rng.below(4) {
                let one = |s: &mut Self| match s.rng.below(4) {
                    0 => "path".to_string(),
                    1 => format!(".{}", s.rng.pick(CLASSES)),
                    _ => loop {
                        let id = s.id();
                        if id.is_ascii() && !id.contains(['.', ':']) && !id.starts_with(|c: char| c.is_ascii_digit()) {
                            break format!("#{id}");
                        }
                    },
                };
                let a = one(self);
                let sel = match self.rng.below(3) {
                    0 => format!("{a} {}", one(self)),
                    1 => format!("{a},{}", one(self)),
                    _ => a,
                };
                let value = if self.rng.chance(1, 2) { self.url() } else { "red".into() };
                css += &format!("{sel}{{fill:{value}}}");
            }
            root.push(El::new("style").text(&css));
        }
        Doc::of(root)
    }
}

fn judge(src: &str, plan: &Plan) -> Result<usize, String> {
    if !src.contains("<rect") {
        // a document of nothing but definitions is left alone
        return Ok(0);
    }
    let jobs: Jobs = serde_json::from_value(Value::Object(plan.jobs.clone())).expect("jobs");
    let plain = optimise_as(src, &Jobs::none(), plan.path)?;
    let out = optimise_as(src, &jobs, plan.path)?;
    let (a, b) = (listen(&plain)?, listen(&out)?);
    let fail = |e: String| Err(format!("{e}; became {out}"));

    for (at, was) in &a.values {
        let Some(is) = b.values.get(at) else { return fail(format!("element {} lost {:?}", at.0, at.1)) };
        if was.len() != is.len() {
            return fail(format!("element {}: {:?} had {was:?}, has {is:?}", at.0, at.1));
        }
        let class = at.1 == " class";
        for (x, y) in was.iter().zip(is) {
            if class {
                continue;
            }
            match (a.reach(x), b.reach(y)) {
                (None, None) if x == y => {}
                (Some(Ok(p)), Some(Ok(q))) if p == q => {}
                (Some(Err(_)), Some(Err(_))) => {}
                (p, q) => return fail(format!("element {}: {:?} reached {p:?} by {x:?}, reaches {q:?} by {y:?}", at.0, at.1)),
            }
        }
    }
    if let Some(at) = b.values.keys().find(|k| !a.values.contains_key(*k)) {
        return fail(format!("element {} gained {:?}", at.0, at.1));
    }

    let used = a.referenced();
    let cleaning = plan.jobs.contains_key("cleanupIds");
    let skipped = !plan.flag("cleanupIds", "force") && src.contains("}</style");
    let (remove, minify) = (cleaning && !skipped && plan.flag("cleanupIds", "remove"), cleaning && !skipped && plan.flag("cleanupIds", "minify"));
    let prefixing = plan.prefix.clone().filter(|_| plan.flag("prefixIds", "prefixIds"));
    let prefix = prefixing.unwrap_or_default();
    for (k, id) in &a.ids {
        if a.repeated.contains(k) && cleaning && !skipped {
            continue;
        }
        let now = b.ids.get(k);
        let bare = now.and_then(|n| n.strip_prefix(prefix.as_str()));
        let free = !plan.kept(id);
        let right = match bare {
            None => now.is_none() && remove && free && !used.contains(k),
            Some(n) => {
                if remove && free && !used.contains(k) {
                    false
                } else if minify && free {
                    n.chars().count() <= 2 || n.chars().count() <= id.chars().count()
                } else {
                    n == id
                }
            }
        };
        if !right {
            return fail(format!("element {k} with an id: {id} became {now:?}"));
        }
    }
    if let Some(k) = b.ids.keys().find(|k| !a.ids.contains_key(*k)) {
        return fail(format!("element {k} gained an id"));
    }
    if a.repeated.is_empty() && !b.repeated.is_empty() {
        return fail("ids are no longer unique".into());
    }
    let class_prefix = plan.prefix.clone().filter(|_| plan.flag("prefixIds", "prefixClassNames")).unwrap_or_default();
    for (k, all) in &a.classes {
        let mut want: Vec<String> = all.iter().map(|c| format!("{class_prefix}{c}")).collect();
        let mut have = b.classes.get(k).cloned().unwrap_or_default();
        want.sort_unstable();
        have.sort_unstable();
        if want != have {
            return fail(format!("element {k} with classes: {all:?} became {have:?}"));
        }
    }
    Ok(used.len() + a.classes.len())
}

/// P12: jobs that drop or rename ids keep every reference.
pub fn references(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when something in the document is referenced or classed; distinct by the document and the jobs");
    ctx.explore("documents", ctx.scale(120_000, 3_000_000), |rng, _, obs| {
        let plan = Plan::random(rng);
        let mut ids: Vec<&'static str> = vec![];
        for _ in 0..rng.below(9) {
            let n = *rng.pick(NAMES);
            if !ids.contains(&n) {
                ids.push(n);
            }
        }
        // cleaning by force leaves sheets alone
        let sheet = rng.chance(1, 3) && !(plan.jobs.contains_key("cleanupIds") && plan.flag("cleanupIds", "force"));
        let doc = Make { rng, ids, sheet }.doc();
        case(&plan, &doc, obs);
    });
    ctx.explore("many ids", ctx.scale(3_000, 60_000), |rng, _, obs| {
        let (plan, doc) = many(rng);
        case(&plan, &doc, obs);
    });
}

/// More referenced ids than there are letters, some of them short and to be preserved.
fn many(rng: &mut Rng) -> (Plan, Doc) {
    let letter = |rng: &mut Rng| *rng.pick(&['a', 'b', 'c', 'y', 'z', 'A', 'B', 'Z']);
    let mut ids: Vec<String> = vec![];
    let short = 1 + rng.below(12);
    for k in 0..short + 20 + rng.below(150) {
        let id = if k < short { (0..1 + rng.below(2)).map(|_| letter(rng)).collect() } else { format!("shape{k}") };
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    let mut plan = Plan { jobs: Map::new(), path: None, preserve: vec![], preserve_prefixes: vec![], prefix: None };
    let mut o = Map::new();
    if rng.chance(3, 4) {
        plan.preserve = ids.iter().filter(|id| id.len() < 3 && rng.chance(1, 2)).cloned().collect();
        plan.preserve.push("shape30".into());
        o.insert("preserve".into(), json!(plan.preserve));
    }
    if rng.chance(1, 4) {
        plan.preserve_prefixes = vec![letter(rng).to_string()];
        o.insert("preservePrefixes".into(), json!(plan.preserve_prefixes));
    }
    if rng.chance(1, 4) {
        o.insert("remove".into(), json!(false));
    }
    plan.jobs.insert("cleanupIds".into(), Value::Object(o));
    rng.shuffle(&mut ids);
    let mut root = svg();
    let mut uses = vec![];
    for id in &ids {
        root.push(El::new("rect").with(&[("id", id)]));
        if !rng.chance(1, 8) {
            uses.push(El::new("use").with(&[("href", &format!("#{id}"))]));
        }
    }
    rng.shuffle(&mut uses);
    for u in uses {
        root.push(u);
    }
    (plan, Doc::of(root))
}

fn case(plan: &Plan, doc: &Doc, obs: &mut Obs) {
    let src = doc.text();
    for n in plan.jobs.keys() {
        obs.count(&format!("ran_{n}"));
    }
    match judge(&src, plan) {
        Ok(n) => {
            obs.add("references", n as u64);
            if n > 0 {
                obs.nontrivial(&format!("{:?} {src}", plan.jobs));
            }
        }
        Err(e) => {
            let kind = |e: &str| e.chars().take_while(|c| *c != ':' && *c != ';').filter(|c| !c.is_ascii_digit()).take(24).collect::<String>();
            let sort = kind(&e);
            let mut detail = e;
            let small = shrink(doc, &mut |d: &Doc| match judge(&d.text(), plan) {
                Err(e) if kind(&e) == sort => {
                    detail = e;
                    true
                }
                _ => false,
            });
            let names = plan.jobs.keys().cloned().collect::<Vec<_>>().join(" and ");
            obs.violation(format!("{names}: {sort}"), format!("{} on {}", Value::Object(plan.jobs.clone()), small.text()), detail);
        }
    }
    obs.sample(|| json!({"source": clip(&src, 300), "jobs": plan.jobs}));
}
