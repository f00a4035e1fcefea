//! A small renderer that answers what colour a point has. It shares no code with the repository,
//! and answers nothing for points too close to an edge for rounding to be ruled out.
use crate::css::{self, Style, Tree};
use crate::doc::*;
use crate::refpath::{self, Cmd, Poly, Pt};
use crate::values::{self, IDENTITY, mul};

/// Premultiplied red, green, blue, two channels telling styles apart that have no colour, and alpha.
pub type Ink = [f64; 6];
const CLEAR: Ink = [0.0; 6];

pub enum Paint {
    Solid([f64; 3]),
    Linear { a: Pt, b: Pt, spread: String, stops: Vec<(f64, [f64; 3], f64)>, inv: [f64; 6] },
    Radial { c: Pt, r: f64, f: Pt, spread: String, stops: Vec<(f64, [f64; 3], f64)>, inv: [f64; 6] },
    Pattern { x: f64, y: f64, w: f64, h: f64, inv: [f64; 6], items: Vec<Item> },
}

pub struct Shape {
    pub polys: Vec<Poly>,
    pub bounds: (f64, f64, f64, f64),
    pub fill: Option<(Paint, f64)>,
    pub evenodd: bool,
    pub stroke: Option<(Paint, f64)>,
    pub half: f64,
    pub key: [f64; 2],
    pub inv: [f64; 6],
    pub mat: [f64; 6],
    pub scale: f64,
    pub stroke_first: bool,
    /// whether open and closed outlines look different
    pub ends: bool,
    pub slack: f64,
}

pub struct Group {
    pub opacity: f64,
    /// All of these must contain the point
    pub clips: Vec<Vec<Item>>,
    pub masks: Vec<Vec<Item>>,
    pub tag: Option<[f64; 2]>,
    pub items: Vec<Item>,
}

pub enum Item {
    Shape(Shape),
    Group(Group),
}

/// Something drawn that is compared by description: text, images.
#[derive(Clone, Debug)]
pub struct Opaque {
    pub what: String,
    pub nums: Vec<f64>,
    pub opacity: f64,
}

#[derive(Default)]
pub struct Scene {
    pub items: Vec<Item>,
    pub opaque: Vec<Opaque>,
    pub unsupported: Vec<String>,
    /// Whether rounding decides what is drawn
    pub fragile: bool,
    pub size: (f64, f64),
}

fn invert(m: [f64; 6]) -> Option<[f64; 6]> {
    let d = m[0] * m[3] - m[1] * m[2];
    if d.abs() < 1e-12 || !d.is_finite() {
        return None;
    }
    Some([m[3] / d, -m[1] / d, -m[2] / d, m[0] / d, (m[2] * m[5] - m[3] * m[4]) / d, (m[1] * m[4] - m[0] * m[5]) / d])
}

pub fn apply(m: [f64; 6], p: Pt) -> Pt {
    (m[0] * p.0 + m[2] * p.1 + m[4], m[1] * p.0 + m[3] * p.1 + m[5])
}

/// The least factor by which lengths are scaled.
fn min_scale(m: [f64; 6]) -> f64 {
    let (a, b, c, d) = (m[0], m[1], m[2], m[3]);
    let s = a * a + b * b + c * c + d * d;
    let det = a * d - b * c;
    let q = (s * s - 4.0 * det * det).max(0.0).sqrt();
    ((s - q) / 2.0).max(0.0).sqrt()
}

fn hash2(s: &str) -> [f64; 2] {
    let h = crate::fw::fnv(s.as_bytes());
    [((h & 0xffff) as f64) / 65535.0, ((h >> 16 & 0xffff) as f64) / 65535.0]
}

struct R<'a> {
    t: Tree<'a>,
    rules: Vec<css::Rule>,
    scene: Scene,
    depth: usize,
    vw: f64,
    vh: f64,
}

pub fn length(s: Option<&str>, full: f64, default: f64) -> f64 {
    let Some(s) = s else { return default };
    match values::tokens(s).first() {
        Some(values::Tok::Num(v, u)) => match u.as_str() {
            "" => *v,
            "%" => v / 100.0 * full,
            "pt" => v * 4.0 / 3.0,
            "pc" => v * 16.0,
            "mm" => v * 96.0 / 25.4,
            "cm" => v * 96.0 / 2.54,
            "in" => v * 96.0,
            "em" => v * 16.0,
            "ex" => v * 8.0,
            _ => default,
        },
        _ => default,
    }
}

pub fn href(x: &X) -> Option<&str> {
    x.attr("href").or_else(|| x.attr_ns(XLINK, "href"))
}

pub fn url_id(v: &str) -> Option<String> {
    let v = v.trim();
    let inner = v.strip_prefix("url(")?;
    let end = inner.find(')')?;
    Some(inner[..end].trim().trim_matches(['"', '\'']).strip_prefix('#')?.to_string())
}

fn num(s: Option<&String>, default: f64) -> f64 {
    s.map_or(default, |s| length(Some(s), 1.0, default))
}

pub fn shape_cmds(x: &X, vw: f64, vh: f64) -> Option<Vec<Cmd>> {
    let diag = ((vw * vw + vh * vh) / 2.0).sqrt();
    let lx = |n: &str| length(x.attr(n), vw, 0.0);
    let ly = |n: &str| length(x.attr(n), vh, 0.0);
    let c = |c: char, a: &[f64]| Cmd { c, a: a.to_vec() };
    match x.name() {
        "rect" => {
            let (px, py, w, h) = (lx("x"), ly("y"), lx("width"), ly("height"));
            if w <= 0.0 || h <= 0.0 {
                return None;
            }
            let auto = |n: &str| x.attr(n).is_none_or(|v| v == "auto");
            let mut rx = if auto("rx") { ly("ry") } else { lx("rx") };
            let mut ry = if auto("ry") { rx } else { ly("ry") };
            if auto("rx") && auto("ry") {
                rx = 0.0;
                ry = 0.0;
            } else if auto("rx") {
                rx = ry;
            }
            rx = rx.clamp(0.0, w / 2.0);
            ry = ry.clamp(0.0, h / 2.0);
            if rx == 0.0 || ry == 0.0 {
                return Some(vec![c('M', &[px, py]), c('H', &[px + w]), c('V', &[py + h]), c('H', &[px]), c('Z', &[])]);
            }
            Some(vec![
                c('M', &[px + rx, py]),
                c('H', &[px + w - rx]),
                c('A', &[rx, ry, 0.0, 0.0, 1.0, px + w, py + ry]),
                c('V', &[py + h - ry]),
                c('A', &[rx, ry, 0.0, 0.0, 1.0, px + w - rx, py + h]),
                c('H', &[px + rx]),
                c('A', &[rx, ry, 0.0, 0.0, 1.0, px, py + h - ry]),
                c('V', &[py + ry]),
                c('A', &[rx, ry, 0.0, 0.0, 1.0, px + rx, py]),
                c('Z', &[]),
            ])
        }
        "circle" | "ellipse" => {
            let (cx, cy) = (lx("cx"), ly("cy"));
            let (rx, ry) = if x.name() == "circle" {
                let r = length(x.attr("r"), diag, 0.0);
                (r, r)
            } else {
                let auto = |n: &str| x.attr(n).is_none_or(|v| v == "auto");
                match (auto("rx"), auto("ry")) {
                    (false, false) => (lx("rx"), ly("ry")),
                    (true, false) => (ly("ry"), ly("ry")),
                    (false, true) => (lx("rx"), lx("rx")),
                    _ => (0.0, 0.0),
                }
            };
            if rx <= 0.0 || ry <= 0.0 {
                return None;
            }
            Some(vec![
                c('M', &[cx + rx, cy]),
                c('A', &[rx, ry, 0.0, 0.0, 1.0, cx, cy + ry]),
                c('A', &[rx, ry, 0.0, 0.0, 1.0, cx - rx, cy]),
                c('A', &[rx, ry, 0.0, 0.0, 1.0, cx, cy - ry]),
                c('A', &[rx, ry, 0.0, 0.0, 1.0, cx + rx, cy]),
                c('Z', &[]),
            ])
        }
        "line" => Some(vec![c('M', &[lx("x1"), ly("y1")]), c('L', &[lx("x2"), ly("y2")])]),
        "polyline" | "polygon" => {
            let n: Vec<f64> = values::tokens(x.attr("points").unwrap_or(""))
                .iter()
                .map_while(|t| if let values::Tok::Num(v, _) = t { Some(*v) } else { None })
                .collect();
            if n.len() < 2 {
                return None;
            }
            let mut out = vec![];
            for p in n.chunks_exact(2) {
                out.push(c(if out.is_empty() { 'M' } else { 'L' }, p));
            }
            if x.name() == "polygon" {
                out.push(c('Z', &[]));
            }
            Some(out)
        }
        "path" => {
            let (cmds, _) = refpath::parse(x.attr("d").unwrap_or(""));
            if cmds.is_empty() { None } else { Some(cmds) }
        }
        _ => None,
    }
}

fn view_transform(x: &X, w: f64, h: f64) -> ([f64; 6], (f64, f64)) {
    let vb: Vec<f64> = values::tokens(x.attr("viewBox").unwrap_or("")).iter().filter_map(|t| if let values::Tok::Num(v, _) = t { Some(*v) } else { None }).collect();
    if vb.len() != 4 || vb[2] <= 0.0 || vb[3] <= 0.0 {
        return (IDENTITY, (w, h));
    }
    let par = x.attr("preserveAspectRatio").unwrap_or("xMidYMid meet").trim();
    let (mut sx, mut sy) = (w / vb[2], h / vb[3]);
    let (mut tx, mut ty) = (0.0, 0.0);
    if !par.starts_with("none") {
        let s = if par.ends_with("slice") { sx.max(sy) } else { sx.min(sy) };
        sx = s;
        sy = s;
        let k = |c: &str| if c == "Min" { 0.0 } else if c == "Max" { 1.0 } else { 0.5 };
        tx = (w - vb[2] * s) * k(par.get(1..4).unwrap_or("Mid"));
        ty = (h - vb[3] * s) * k(par.get(5..8).unwrap_or("Mid"));
    }
    ([sx, 0.0, 0.0, sy, tx - vb[0] * sx, ty - vb[1] * sy], (vb[2], vb[3]))
}

/// Draws the document below `root`.
pub fn scene(root: &X) -> Scene {
    let t = Tree::new(root);
    let rules = css::sheet(&t);
    let w = length(root.attr("width").filter(|w| !w.ends_with('%')), 100.0, f64::NAN);
    let h = length(root.attr("height").filter(|w| !w.ends_with('%')), 100.0, f64::NAN);
    let vb: Vec<f64> = values::tokens(root.attr("viewBox").unwrap_or("")).iter().filter_map(|t| if let values::Tok::Num(v, _) = t { Some(*v) } else { None }).collect();
    let pick = |a: f64, k: usize| if a.is_nan() { if vb.len() == 4 { vb[k] } else { 100.0 } } else { a };
    let (w, h) = (pick(w, 2), pick(h, 3));
    let (m, (vw, vh)) = view_transform(root, w, h);
    let mut r = R { t, rules, scene: Scene { size: (w, h), ..Scene::default() }, depth: 0, vw, vh };
    let style = css::computed(&css::specified(&r.t, &r.rules, 0), None);
    let mut items = vec![];
    r.wrapped(0, &style, m, &mut items, &mut |r, items| {
        r.children(0, &style, m, items);
    });
    r.scene.items = items;
    r.scene
}

impl<'a> R<'a> {
    fn x(&self, i: usize) -> &'a X {
        self.t.nodes[i].x
    }

    fn style(&self, i: usize, parent: &Style) -> Style {
        css::computed(&css::specified(&self.t, &self.rules, i), Some(parent))
    }

    fn children(&mut self, i: usize, style: &Style, m: [f64; 6], out: &mut Vec<Item>) {
        for k in self.t.nodes[i].kids.clone() {
            self.element(k, style, m, out);
            if self.x(i).name() == "switch" && self.x(i).ns() == SVG {
                break;
            }
        }
    }

    /// Draws through the group effects of element `i`.
    fn wrapped(&mut self, i: usize, st: &Style, m: [f64; 6], out: &mut Vec<Item>, f: &mut dyn FnMut(&mut Self, &mut Vec<Item>)) {
        let opacity = num(st.get("opacity"), 1.0).clamp(0.0, 1.0);
        let opacity = if st.get("opacity").is_some_and(|o| o.trim().ends_with('%')) { length(st.get("opacity").map(String::as_str), 1.0, 1.0).clamp(0.0, 1.0) } else { opacity };
        let mut tag = String::new();
        let mut clips = vec![];
        let mut masks = vec![];
        if let Some(f) = st.get("filter").filter(|f| *f != "none") {
            let names: Option<Vec<String>> = url_id(f).and_then(|id| self.t.by_id(&id)).map(|k| self.t.nodes[k].kids.iter().map(|k| self.x(*k).name().to_string()).collect());
            // distances in a filter are those of the element it is on
            let scale: Vec<String> = m[..4].iter().map(|v| format!("{:.1}", v + 0.04)).collect();
            self.scene.fragile |= m[..4].iter().any(|v| ((v + 0.04) * 10.0 - 0.5).rem_euclid(1.0).min(1.0 - ((v + 0.04) * 10.0 - 0.5).rem_euclid(1.0)) < 0.02);
            tag += &format!("filter {names:?} {scale:?}");
        }
        if let Some(b) = st.get("mix-blend-mode").filter(|b| *b != "normal") {
            tag += b;
        }
        for (prop, list) in [("clip-path", &mut clips), ("mask", &mut masks)] {
            let Some(id) = st.get(prop).and_then(|v| url_id(v)) else { continue };
            let Some(k) = self.t.by_id(&id) else { continue };
            if self.x(k).name() != (if prop == "mask" { "mask" } else { "clipPath" }) || self.depth > 6 {
                continue;
            }
            self.depth += 1;
            let mut items = vec![];
            // A clip or mask inherits from its own ancestors
            let own = self.ancestral(k);
            let mut mm = m;
            let units = if prop == "mask" { "maskContentUnits" } else { "clipPathUnits" };
            let bbox = self.bbox(i);
            if prop == "clip-path" {
                if let Some(t) = self.x(k).attr("transform").and_then(values::transform) {
                    mm = mul(mm, t);
                }
            }
            if self.x(k).attr(units) == Some("objectBoundingBox") {
                match bbox {
                    Some(b) => mm = mul(mm, [b.2 - b.0, 0.0, 0.0, b.3 - b.1, b.0, b.1]),
                    None => self.scene.unsupported.push("bounding box of a container".into()),
                }
            }
            if prop == "clip-path" {
                for c in self.t.nodes[k].kids.clone() {
                    let st = self.style(c, &own);
                    self.clip_shape(c, &st, mm, &mut items);
                }
                let own_clip = own.get("clip-path").cloned();
                if let Some(id) = own_clip.as_deref().and_then(url_id) {
                    if self.t.by_id(&id).is_some() {
                        self.scene.unsupported.push("clip of a clip".into());
                    }
                }
            } else {
                let saved = std::mem::take(&mut self.scene.opaque);
                self.children(k, &own, mm, &mut items);
                self.scene.opaque = saved;
                // the mask's own region
                let obb = self.x(k).attr("maskUnits") != Some("userSpaceOnUse");
                let x = self.x(k);
                let (rx, ry, rw, rh) = if obb {
                    let g = |n: &str, d: f64| length(x.attr(n), 1.0, d);
                    match bbox {
                        Some(b) => (b.0 + g("x", -0.1) * (b.2 - b.0), b.1 + g("y", -0.1) * (b.3 - b.1), g("width", 1.2) * (b.2 - b.0), g("height", 1.2) * (b.3 - b.1)),
                        None => {
                            self.scene.unsupported.push("bounding box of a container".into());
                            (0.0, 0.0, 0.0, 0.0)
                        }
                    }
                } else {
                    let (vw, vh) = (self.vw, self.vh);
                    (length(x.attr("x"), vw, -0.1 * vw), length(x.attr("y"), vh, -0.1 * vh), length(x.attr("width"), vw, 1.2 * vw), length(x.attr("height"), vh, 1.2 * vh))
                };
                let mut region = vec![];
                region.extend(rect_shape(rx, ry, rw, rh, m));
                items = vec![Item::Group(Group { opacity: 1.0, clips: vec![region], masks: vec![], tag: None, items })];
            }
            self.depth -= 1;
            list.push(items);
        }
        if opacity == 1.0 && tag.is_empty() && clips.is_empty() && masks.is_empty() {
            f(self, out);
            return;
        }
        let mut items = vec![];
        let before = self.scene.opaque.len();
        f(self, &mut items);
        if opacity == 0.0 {
            self.scene.opaque.truncate(before);
            return;
        }
        for o in &mut self.scene.opaque[before..] {
            o.what += &format!(" {tag}");
            o.opacity *= opacity;
        }
        out.push(Item::Group(Group { opacity, clips, masks, tag: (!tag.is_empty()).then(|| hash2(&tag)), items }));
    }

    /// The style an element gets from the place where it is written.
    fn ancestral(&self, i: usize) -> Style {
        let parent = self.t.nodes[i].parent.map(|p| self.ancestral(p));
        css::computed(&css::specified(&self.t, &self.rules, i), parent.as_ref())
    }

    fn bbox(&self, i: usize) -> Option<(f64, f64, f64, f64)> {
        let cmds = shape_cmds(self.x(i), self.vw, self.vh)?;
        extent(&refpath::geometry(&cmds))
    }

    fn clip_shape(&mut self, i: usize, st: &Style, m: [f64; 6], out: &mut Vec<Item>) {
        if st.get("display").is_some_and(|d| d == "none") || st.get("visibility").is_some_and(|v| v != "visible") {
            return;
        }
        let mut m = m;
        if let Some(t) = self.x(i).attr("transform").and_then(values::transform) {
            m = mul(m, t);
        }
        if self.x(i).name() == "use" {
            m = mul(m, [1.0, 0.0, 0.0, 1.0, length(self.x(i).attr("x"), self.vw, 0.0), length(self.x(i).attr("y"), self.vh, 0.0)]);
            if let Some(k) = href(self.x(i)).and_then(|h| h.strip_prefix('#')).and_then(|id| self.t.by_id(id)) {
                if self.depth < 6 {
                    self.depth += 1;
                    let st = self.style(k, st);
                    self.clip_shape(k, &st, m, out);
                    self.depth -= 1;
                }
            }
            return;
        }
        if self.x(i).name() == "text" {
            self.scene.unsupported.push("text in a clip".into());
        }
        let Some(cmds) = shape_cmds(self.x(i), self.vw, self.vh) else { return };
        if let Some(mut s) = outline(&cmds, m) {
            s.fill = Some((Paint::Solid([1.0; 3]), 1.0));
            s.evenodd = st.get("clip-rule").is_some_and(|r| r == "evenodd");
            out.push(Item::Shape(s));
        }
        if st.get("clip-path").is_some_and(|v| v != "none") {
            self.scene.unsupported.push("clip inside a clip".into());
        }
    }

    fn element(&mut self, i: usize, parent: &Style, m: [f64; 6], out: &mut Vec<Item>) {
        let x = self.x(i);
        if x.ns() != SVG {
            return;
        }
        let st = self.style(i, parent);
        self.styled(i, &st, m, out);
    }

    fn styled(&mut self, i: usize, st: &Style, m: [f64; 6], out: &mut Vec<Item>) {
        let x = self.x(i);
        if st.get("display").is_some_and(|d| d == "none") {
            return;
        }
        let mut m = m;
        if let Some(t) = x.attr("transform") {
            match values::transform(t) {
                Some(t) => m = mul(m, t),
                None => self.scene.unsupported.push(format!("transform {t}")),
            }
        }
        if st.contains_key("transform") && x.attr("style").is_some_and(|s| s.contains("transform")) {
            self.scene.unsupported.push("transform property".into());
        }
        match x.name() {
            "g" | "a" | "switch" => {
                self.wrapped(i, st, m, out, &mut |r, items| r.children(i, st, m, items));
            }
            "svg" => self.viewport(i, st, m, None, out),
            "use" => {
                let Some(k) = href(x).and_then(|h| h.strip_prefix('#')).and_then(|id| self.t.by_id(id)) else { return };
                // references to an ancestor draw nothing
                let mut a = Some(i);
                while let Some(p) = a {
                    if p == k {
                        return;
                    }
                    a = self.t.nodes[p].parent;
                }
                if self.depth > 8 {
                    self.scene.unsupported.push("deep references".into());
                    return;
                }
                self.depth += 1;
                self.wrapped(i, st, m, out, &mut |r, items| {
                    let t = [1.0, 0.0, 0.0, 1.0, length(x.attr("x"), r.vw, 0.0), length(x.attr("y"), r.vh, 0.0)];
                    let m = mul(m, t);
                    let kst = r.style(k, st);
                    if matches!(r.x(k).name(), "symbol" | "svg") {
                        if kst.get("display").is_some_and(|d| d == "none") {
                            return;
                        }
                        r.viewport(k, &kst, m, Some((x.attr("width"), x.attr("height"))), items);
                    } else {
                        r.styled(k, &kst, m, items);
                    }
                });
                self.depth -= 1;
            }
            "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon" | "path" => {
                let Some(cmds) = shape_cmds(x, self.vw, self.vh) else { return };
                self.wrapped(i, st, m, out, &mut |r, items| r.shape(&cmds, st, m, items));
            }
            "text" => {
                let mut desc = vec![];
                self.text_runs(i, st, x.attr_ns(XML, "space") == Some("preserve"), &mut desc);
                if desc.iter().all(|d| d.1.is_empty() || !d.1.contains("visibility=Word(\"visible\")") || d.0.trim_matches([' ', '\n', '\t', '\r']).is_empty()) {
                    return;
                }
                let what = format!("text {}", squash(desc));
                let mut dummy = vec![];
                self.wrapped(i, st, m, &mut dummy, &mut |r, _| {
                    if m.iter().all(|v| v.is_finite()) {
                        r.scene.opaque.push(Opaque { what: what.clone(), nums: m.to_vec(), opacity: 1.0 });
                    }
                });
            }
            "image" => {
                let g = |n: &str| x.attr(n).map(|v| length(Some(v), 100.0, 0.0)).unwrap_or(0.0);
                let hidden = st.get("visibility").is_some_and(|v| v != "visible");
                if !hidden && href(x).is_some() {
                    let what = format!("image {:?} {:?}", href(x), x.attr("preserveAspectRatio").unwrap_or("xMidYMid"));
                    let mut nums = m.to_vec();
                    nums.extend([g("x"), g("y"), g("width"), g("height")]);
                    let mut dummy = vec![];
                    self.wrapped(i, st, m, &mut dummy, &mut |r, _| r.scene.opaque.push(Opaque { what: what.clone(), nums: nums.clone(), opacity: 1.0 }));
                }
            }
            _ => {}
        }
    }

    fn viewport(&mut self, i: usize, st: &Style, m: [f64; 6], over: Option<(Option<&str>, Option<&str>)>, out: &mut Vec<Item>) {
        let x = self.x(i);
        let (vw, vh) = (self.vw, self.vh);
        let (mut px, mut py) = (0.0, 0.0);
        if x.name() == "svg" {
            px = length(x.attr("x"), vw, 0.0);
            py = length(x.attr("y"), vh, 0.0);
        }
        let pick = |o: Option<&str>, n: &str, full: f64| length(o.or_else(|| if x.name() == "svg" { x.attr(n) } else { None }), full, full);
        let w = pick(over.and_then(|o| o.0), "width", vw);
        let h = pick(over.and_then(|o| o.1), "height", vh);
        if w <= 0.0 || h <= 0.0 {
            return;
        }
        let (vm, (nw, nh)) = view_transform(x, w, h);
        let m0 = mul(m, [1.0, 0.0, 0.0, 1.0, px, py]);
        let m1 = mul(m0, vm);
        let clip = st.get("overflow").is_none_or(|o| o == "hidden" || o == "scroll");
        self.wrapped(i, st, m, out, &mut |r, items| {
            (r.vw, r.vh) = (nw, nh);
            let mut inner = vec![];
            r.children(i, st, m1, &mut inner);
            (r.vw, r.vh) = (vw, vh);
            let mut region = vec![];
            if clip {
                region.push(rect_shape(0.0, 0.0, w, h, m0).into_iter().collect());
            }
            items.push(Item::Group(Group { opacity: 1.0, clips: region, masks: vec![], tag: None, items: inner }));
        });
    }

    fn text_runs(&mut self, i: usize, st: &Style, preserve: bool, out: &mut Vec<(String, String, bool)>) {
        let x = self.x(i);
        if st.get("display").is_some_and(|d| d == "none") {
            return;
        }
        let mut attrs = String::new();
        for n in ["x", "y", "dx", "dy", "rotate", "textLength", "lengthAdjust", "startOffset"] {
            if let Some(v) = x.attr(n) {
                if x.name() == "text" && values::tokens(v).iter().all(|t| matches!(t, values::Tok::Num(v, _) if *v == 0.0)) {
                    continue;
                }
                attrs += &format!("{n}={} ", rounded(&values::tokens(v)));
            }
        }
        if x.name() == "textPath" {
            attrs += &format!("path={} ", href(x).is_some());
        }
        let mut key = String::new();
        let defaults = [
            ("fill", "black"), ("stroke", "none"), ("fill-opacity", "1"), ("stroke-opacity", "1"), ("stroke-width", "1"), ("visibility", "visible"), ("font-family", ""), ("font-size", "medium"), ("font-weight", "normal"),
            ("font-style", "normal"), ("text-anchor", "start"), ("letter-spacing", "normal"), ("word-spacing", "normal"), ("text-decoration", "none"), ("dominant-baseline", "auto"), ("writing-mode", ""), ("direction", "ltr"),
        ];
        for (n, d) in defaults {
            let v = st.get(n).map_or(d, String::as_str);
            let v = if v == "currentColor" || v == "currentcolor" { st.get("color").map_or("black", String::as_str) } else { v };
            let v = match (n, v) {
                ("font-weight", "bold") => "700",
                ("font-weight", "400") => "normal",
                (_, v) => v,
            };
            if (n == "stroke-width" || n == "stroke-opacity") && st.get("stroke").is_none_or(|s| s == "none") {
                continue;
            }
            if n == "fill-opacity" && st.get("fill").is_some_and(|s| s == "none") {
                continue;
            }
            key += &format!("{n}={} ", rounded(&self.resolved(v)));
        }
        out.push((format!("<{}{attrs}", if x.name() == "text" { "text" } else { x.name() }), String::new(), preserve));
        for c in x.children() {
            match c {
                X::Text(t) => out.push((t.clone(), key.clone(), preserve)),
                X::El { .. } => {
                    let k = self.t.nodes[i].kids.iter().copied().find(|k| std::ptr::eq(self.x(*k), c));
                    if let Some(k) = k.filter(|k| matches!(self.x(*k).name(), "tspan" | "a" | "textPath") && self.x(*k).ns() == SVG) {
                        let p = match c.attr_ns(XML, "space") {
                            Some("preserve") => true,
                            Some("default") => false,
                            _ => preserve,
                        };
                        let kst = self.style(k, st);
                        if kst.get("opacity").is_some_and(|o| o != "1") {
                            self.scene.unsupported.push("opacity in text".into());
                        }
                        self.text_runs(k, &kst, p, out);
                    }
                }
                _ => {}
            }
        }
        out.push((">".into(), String::new(), preserve));
    }

    fn resolved(&self, v: &str) -> Vec<values::Tok> {
        if url_id(v).is_some() {
            return vec![values::Tok::Word("reference".into())];
        }
        values::tokens(v)
    }

    fn shape(&mut self, cmds: &[Cmd], st: &Style, m: [f64; 6], out: &mut Vec<Item>) {
        if st.get("visibility").is_some_and(|v| v != "visible") {
            return;
        }
        let cap = st.get("stroke-linecap").map_or("butt", String::as_str);
        let width = length(st.get("stroke-width").map(String::as_str), ((self.vw * self.vw + self.vh * self.vh) / 2.0).sqrt(), 1.0);
        // markers
        if width == 0.0 && ["marker-start", "marker-mid", "marker-end"].iter().any(|p| st.get(*p).is_some_and(|v| v != "none")) {
            self.scene.unsupported.push("marker without a stroke width".into());
        }
        for (prop, which) in [("marker-start", 0), ("marker-mid", 1), ("marker-end", 2)] {
            if let Some(id) = st.get(prop).and_then(|v| url_id(v)) {
                if let Some(k) = self.t.by_id(&id).filter(|k| self.x(*k).name() == "marker") {
                    let v = vertices(cmds);
                    let pts: Vec<(Pt, f64)> = match which {
                        0 => v.first().copied().into_iter().collect(),
                        1 => v.get(1..v.len().saturating_sub(1)).map(<[_]>::to_vec).unwrap_or_default(),
                        _ => v.last().copied().into_iter().collect(),
                    };
                    let unit = if self.x(k).attr("markerUnits") == Some("userSpaceOnUse") { 1.0 } else { width };
                    let shown = self.t.nodes[k].kids.iter().filter(|c| self.ancestral(**c).get("visibility").is_none_or(|v| v == "visible")).count();
                    for p in pts.into_iter().filter(|_| shown > 0) {
                        let a = apply(m, p.0);
                        self.scene.opaque.push(Opaque { what: format!("{prop} {}", shown), nums: vec![a.0, a.1, m[0] * unit, m[1] * unit, m[2] * unit, m[3] * unit], opacity: 1.0 });
                    }
                }
            }
        }
        let Some(mut s) = outline_of(cmds, m, cap != "butt") else { return };
        let (fo, so) = (num(st.get("fill-opacity"), 1.0).clamp(0.0, 1.0), num(st.get("stroke-opacity"), 1.0).clamp(0.0, 1.0));
        s.evenodd = st.get("fill-rule").is_some_and(|r| r == "evenodd");
        let (subs, near) = (refpath::geometry(cmds), 0.05 / min_scale(m).clamp(0.05, 1.0));
        let reach = |s: &refpath::Sub| refpath::flatten(std::slice::from_ref(s), 0.02).iter().flat_map(|p| p.pts.iter().map(move |q| refpath::hyp(q.0 - p.pts[0].0, q.1 - p.pts[0].1))).fold(0.0, f64::max);
        let stroked = width > 0.0 && st.get("stroke").is_some_and(|s| s != "none");
        self.scene.fragile |= stroked && subs.iter().map(reach).any(|r| r > 0.0 && r < near);
        // ends that all but meet: a rounding decides whether they do
        self.scene.fragile |= stroked
            && subs.iter().filter(|s| !s.closed).filter_map(|s| s.segs.last().map(|l| refpath::hyp(l.end().0 - s.start.0, l.end().1 - s.start.1))).any(|gap| gap > near / 5.0 && gap < near * 3.0);
        let whole = extent(&subs).unwrap_or(s.bounds);
        let thin = |a: f64, b: f64| b - a > 0.0 && b - a < near;
        self.scene.fragile |= (subs.iter().all(|s| reach(s) < near) || thin(whole.0, whole.2) || thin(whole.1, whole.3)) && ["fill", "stroke"].iter().any(|p| st.get(*p).is_some_and(|v| v.contains("url(")));
        s.fill = self.paint(st.get("fill").map_or("black", String::as_str), st, whole, m).map(|p| (p, fo));
        if width > 0.0 {
            s.stroke = self.paint(st.get("stroke").map_or("none", String::as_str), st, whole, m).map(|p| (p, so));
            s.half = width / 2.0;
        }
        if st.get("vector-effect").is_some_and(|v| v != "none") {
            self.scene.unsupported.push("vector effect".into());
        }
        let g = |n: &str, d: &str| {
            let v = st.get(n).map_or(d, String::as_str);
            rounded(&values::tokens(v))
        };
        let join = g("stroke-linejoin", "miter");
        let miter = if join.contains("miter") { g("stroke-miterlimit", "4") } else { String::new() };
        // dashes scale with the outline: their proportions go to the description, their length to the number
        let lens: Vec<f64> = values::tokens(&st.get("stroke-dasharray").cloned().unwrap_or_default()).iter().filter_map(|t| if let values::Tok::Num(v, _) = t { Some(*v) } else { None }).collect();
        let scale = (m[0] * m[3] - m[1] * m[2]).abs().sqrt();
        let total: f64 = lens.iter().sum();
        let mut dash = "none".to_string();
        let mut dash_len = 0.0;
        if total > 0.0 {
            let off = num(st.get("stroke-dashoffset"), 0.0);
            dash = lens.iter().chain([&off]).map(|l| format!("{:.1} ", l / total + 0.003)).collect();
            dash_len = 0.05 * (total * scale).max(1e-3).ln();
        }
        s.key = hash2(&format!("{} {join} {miter} {dash}", g("stroke-linecap", "butt")));
        // ends that meet look like a corner when both are round
        s.ends = !(cap == "round" && st.get("stroke-linejoin").is_some_and(|j| j == "round"));
        s.key[1] += dash_len;
        s.stroke_first = st.get("paint-order").is_some_and(|p| p.trim_start().starts_with("stroke"));
        if s.fill.is_some() || s.stroke.is_some() {
            out.push(Item::Shape(s));
        }
    }

    fn paint(&mut self, v: &str, st: &Style, b: (f64, f64, f64, f64), m: [f64; 6]) -> Option<Paint> {
        let v = v.trim();
        let solid = |v: &str| -> Option<Paint> {
            let v = if v.eq_ignore_ascii_case("currentcolor") { st.get("color").map_or("black", String::as_str) } else { v };
            values::colour(v).filter(|c| c.3 > 0.0).map(|(r, g, b, _)| Paint::Solid([f64::from(r) / 255.0, f64::from(g) / 255.0, f64::from(b) / 255.0]))
        };
        if v == "none" {
            return None;
        }
        if let Some(id) = url_id(v) {
            let fallback = v[v.find(')').unwrap() + 1..].trim();
            let Some(k) = self.t.by_id(&id) else {
                return if fallback.is_empty() || fallback == "none" { None } else { solid(fallback) };
            };
            return match self.x(k).name() {
                "linearGradient" | "radialGradient" => self.gradient(k, b, m),
                "pattern" => self.pattern(k, b, m),
                _ => if fallback.is_empty() || fallback == "none" { None } else { solid(fallback) },
            };
        }
        solid(v)
    }

    fn chain(&self, k: usize) -> Vec<usize> {
        let mut chain = vec![k];
        while let Some(n) = href(self.x(*chain.last().unwrap())).and_then(|h| h.strip_prefix('#')).and_then(|id| self.t.by_id(id)) {
            if chain.contains(&n) || !matches!(self.x(n).name(), "linearGradient" | "radialGradient" | "pattern") {
                break;
            }
            chain.push(n);
        }
        chain
    }

    fn gradient(&mut self, k: usize, b: (f64, f64, f64, f64), m: [f64; 6]) -> Option<Paint> {
        let chain = self.chain(k);
        let attr = |n: &str| chain.iter().find_map(|i| self.x(*i).attr(n));
        let same_kind = |n: &str| chain.iter().filter(|i| self.x(**i).name() == self.x(k).name()).find_map(|i| self.x(*i).attr(n));
        let with_stops = chain.iter().find(|i| self.t.nodes[**i].kids.iter().any(|s| self.x(*s).name() == "stop"));
        let mut stops = vec![];
        if let Some(g) = with_stops {
            let own = self.ancestral(*g);
            let mut last: f64 = 0.0;
            for s in &self.t.nodes[*g].kids {
                if self.x(*s).name() != "stop" {
                    continue;
                }
                let st = self.style(*s, &own);
                let off = length(self.x(*s).attr("offset"), 1.0, 0.0).clamp(0.0, 1.0).max(last);
                last = off;
                let c = st.get("stop-color").map_or("black", String::as_str);
                let c = if c.eq_ignore_ascii_case("currentcolor") { st.get("color").map_or("black", String::as_str) } else { c };
                let (r, g, b, _) = values::colour(c).unwrap_or((0, 0, 0, 1.0));
                stops.push((off, [f64::from(r) / 255.0, f64::from(g) / 255.0, f64::from(b) / 255.0], num(st.get("stop-opacity"), 1.0).clamp(0.0, 1.0)));
            }
        }
        if stops.is_empty() {
            return None;
        }
        let obb = attr("gradientUnits") != Some("userSpaceOnUse");
        let mut gm = m;
        let (fx, fy, fd) = if obb { (1.0, 1.0, 1.0) } else { (self.vw, self.vh, ((self.vw * self.vw + self.vh * self.vh) / 2.0).sqrt()) };
        if obb {
            if b.2 - b.0 < 1e-9 || b.3 - b.1 < 1e-9 {
                return None;
            }
            gm = mul(gm, [b.2 - b.0, 0.0, 0.0, b.3 - b.1, b.0, b.1]);
        }
        if let Some(t) = attr("gradientTransform").and_then(values::transform) {
            gm = mul(gm, t);
        }
        let inv = invert(gm)?;
        let spread = attr("spreadMethod").unwrap_or("pad").to_string();
        if self.x(k).name() == "linearGradient" {
            let a = (length(same_kind("x1"), fx, 0.0), length(same_kind("y1"), fy, 0.0));
            let b = (length(same_kind("x2"), fx, fx), length(same_kind("y2"), fy, 0.0));
            if a == b {
                let l = stops.last().unwrap();
                return Some(Paint::Linear { a: (0.0, 0.0), b: (1.0, 0.0), spread: "pad".into(), stops: vec![(0.0, l.1, l.2)], inv });
            }
            Some(Paint::Linear { a, b, spread, stops, inv })
        } else {
            let c = (length(same_kind("cx"), fx, 0.5 * fx), length(same_kind("cy"), fy, 0.5 * fy));
            let r = length(same_kind("r"), fd, 0.5 * fd);
            let f = (same_kind("fx").map_or(c.0, |v| length(Some(v), fx, 0.0)), same_kind("fy").map_or(c.1, |v| length(Some(v), fy, 0.0)));
            if r <= 0.0 {
                let l = stops.last().unwrap();
                return Some(Paint::Linear { a: (0.0, 0.0), b: (1.0, 0.0), spread: "pad".into(), stops: vec![(0.0, l.1, l.2)], inv });
            }
            Some(Paint::Radial { c, r, f, spread, stops, inv })
        }
    }

    fn pattern(&mut self, k: usize, b: (f64, f64, f64, f64), m: [f64; 6]) -> Option<Paint> {
        let chain = self.chain(k);
        let attr = |n: &str| chain.iter().find_map(|i| self.x(*i).attr(n));
        let content = chain.iter().copied().find(|i| !self.t.nodes[*i].kids.is_empty())?;
        if attr("viewBox").is_some() || attr("patternContentUnits") == Some("objectBoundingBox") {
            self.scene.unsupported.push("pattern viewBox".into());
            return None;
        }
        let obb = attr("patternUnits") != Some("userSpaceOnUse");
        let (w0, h0) = (b.2 - b.0, b.3 - b.1);
        let (x, y, w, h) = if obb {
            let g = |n: &str| length(attr(n), 1.0, 0.0);
            (b.0 + g("x") * w0, b.1 + g("y") * h0, g("width") * w0, g("height") * h0)
        } else {
            (length(attr("x"), self.vw, 0.0), length(attr("y"), self.vh, 0.0), length(attr("width"), self.vw, 0.0), length(attr("height"), self.vh, 0.0))
        };
        if w <= 0.0 || h <= 0.0 || self.depth > 4 {
            return None;
        }
        let t = attr("patternTransform").and_then(values::transform).unwrap_or(IDENTITY);
        let inv = invert(mul(m, t))?;
        let own = self.ancestral(content);
        self.depth += 1;
        let mut items = vec![];
        let saved = std::mem::take(&mut self.scene.opaque);
        // tile coordinates: the tile's corner is the origin of its content
        self.children(content, &own, [1.0, 0.0, 0.0, 1.0, if obb { 0.0 } else { -x }, if obb { 0.0 } else { -y }], &mut items);
        self.scene.opaque = saved;
        self.depth -= 1;
        Some(Paint::Pattern { x, y, w, h, inv, items })
    }
}

/// Bounds of the outlines; sub-paths of a single point have none of their own.
fn extent(subs: &[refpath::Sub]) -> Option<(f64, f64, f64, f64)> {
    let all = refpath::flatten(subs, 0.02);
    let wide: Vec<_> = all.iter().filter(|p| p.pts.iter().any(|q| refpath::hyp(q.0 - p.pts[0].0, q.1 - p.pts[0].1) > 0.01)).cloned().collect();
    refpath::bounds(if wide.is_empty() { &all } else { &wide })
}

/// Vertices of a path in order, as markers see them.
fn vertices(cmds: &[Cmd]) -> Vec<(Pt, f64)> {
    let mut out = vec![];
    for s in refpath::geometry(cmds) {
        out.push((s.start, 0.0));
        for g in &s.segs {
            out.push((g.end(), 0.0));
        }
        if s.closed {
            out.push((s.start, 0.0));
        }
    }
    // commands that do not move repeat a marker in place
    out.dedup_by(|a, b| refpath::hyp(a.0.0 - b.0.0, a.0.1 - b.0.1) < 0.02);
    out
}

/// Outlines whose ends meet are taken as closed, see the directed case about them.
fn meets(p: &Poly) -> bool {
    let (a, b) = (p.pts[0], p.pts[p.pts.len() - 1]);
    p.closed || refpath::hyp(a.0 - b.0, a.1 - b.1) < 0.05
}

fn rounded(t: &[values::Tok]) -> String {
    t.iter()
        .map(|t| match t {
            values::Tok::Num(v, u) => format!("{:.2}{u} ", v + 0.001),
            t => format!("{t:?} "),
        })
        .collect()
}

/// Text as rendered, with runs of the same style joined.
fn squash(runs: Vec<(String, String, bool)>) -> String {
    let mut out = String::new();
    let mut last_space = true;
    let mut cur = String::new();
    let mut trailing = false;
    for (t, key, preserve) in runs {
        if key.is_empty() {
            if t.contains('=') {
                out += &t;
            }
            continue;
        }
        let mut s = String::new();
        for c in t.chars() {
            let c = if matches!(c, '\n' | '\t' | '\r') { ' ' } else { c };
            if c == ' ' && !preserve {
                if last_space {
                    continue;
                }
                last_space = true;
                trailing = true;
            } else {
                last_space = false;
                trailing = false;
            }
            s.push(c);
        }
        if s.is_empty() {
            continue;
        }
        if key != cur {
            out += &format!("[{key}]");
            cur = key;
        }
        out += &s;
    }
    if trailing {
        out.truncate(out.trim_end_matches(' ').len());
    }
    out
}

fn outline(cmds: &[Cmd], m: [f64; 6]) -> Option<Shape> {
    outline_of(cmds, m, false)
}

/// Sub-paths without length only show through their caps, those without commands never.
fn outline_of(cmds: &[Cmd], m: [f64; 6], dots: bool) -> Option<Shape> {
    let inv = invert(m)?;
    let mut subs = refpath::geometry(cmds);
    subs.retain(|s| {
        let flat = refpath::flatten(std::slice::from_ref(s), 0.02);
        let long = flat.iter().any(|p| p.pts.iter().any(|q| refpath::hyp(q.0 - p.pts[0].0, q.1 - p.pts[0].1) > 0.01));
        long || dots && (s.closed || !s.segs.is_empty())
    });
    let polys = refpath::flatten(&subs, 0.02);
    let bounds = refpath::bounds(&polys)?;
    // a rounded wide radius moves the middle of its arc
    let wide = subs.iter().flat_map(|s| &s.segs).any(|s| matches!(s, refpath::Seg::Arc { r, .. } if r.0.max(r.1) > 60.0));
    let slack = if wide { crate::paths::bound(&subs, &[], 3, 1e-3, 1e-3) } else { 0.0 };
    Some(Shape { polys, bounds, fill: None, evenodd: false, stroke: None, half: 0.0, key: [0.0; 2], ends: true, slack, inv, mat: m, scale: min_scale(m), stroke_first: false })
}

fn rect_shape(x: f64, y: f64, w: f64, h: f64, m: [f64; 6]) -> Option<Item> {
    let c = |c: char, a: &[f64]| Cmd { c, a: a.to_vec() };
    let mut s = outline(&[c('M', &[x, y]), c('H', &[x + w]), c('V', &[y + h]), c('H', &[x]), c('Z', &[])], m)?;
    s.fill = Some((Paint::Solid([1.0; 3]), 1.0));
    Some(Item::Shape(s))
}

fn over(dst: &mut Ink, src: Ink) {
    for k in 0..6 {
        dst[k] = src[k] + dst[k] * (1.0 - src[5]);
    }
}

pub struct Near;

fn spread_at(t: f64, mode: &str) -> f64 {
    match mode {
        "repeat" => t.rem_euclid(1.0),
        "reflect" => {
            let u = t.rem_euclid(2.0);
            if u > 1.0 { 2.0 - u } else { u }
        }
        _ => t.clamp(0.0, 1.0),
    }
}

fn ramp(stops: &[(f64, [f64; 3], f64)], t: f64) -> Result<([f64; 3], f64), Near> {
    let f = stops.first().unwrap();
    if t <= f.0 {
        return Ok((f.1, f.2));
    }
    for w in stops.windows(2) {
        if t <= w[1].0 {
            let d = w[1].0 - w[0].0;
            // a hard edge
            if d < 0.05 && d > 0.0 {
                return Err(Near);
            }
            let k = if d == 0.0 { 1.0 } else { (t - w[0].0) / d };
            let mix = |a: f64, b: f64| a + (b - a) * k;
            return Ok(([mix(w[0].1[0], w[1].1[0]), mix(w[0].1[1], w[1].1[1]), mix(w[0].1[2], w[1].1[2])], mix(w[0].2, w[1].2)));
        }
    }
    let l = stops.last().unwrap();
    Ok((l.1, l.2))
}

fn near_edge(stops: &[(f64, [f64; 3], f64)], t: f64, mode: &str) -> bool {
    stops.windows(2).any(|w| w[1].0 - w[0].0 < 0.05 && (t - w[0].0).abs() < 0.05) || mode == "repeat" && !(0.02..=0.98).contains(&t)
}

fn paint_at(p: &Paint, alpha: f64, at: Pt, eps: f64) -> Result<Ink, Near> {
    let ([r, g, b], a) = match p {
        Paint::Solid(c) => (*c, 1.0),
        Paint::Linear { a, b, spread, stops, inv } => {
            let q = apply(*inv, at);
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            let t = ((q.0 - a.0) * dx + (q.1 - a.1) * dy) / (dx * dx + dy * dy);
            let t = spread_at(t, spread);
            if near_edge(stops, t, spread) {
                return Err(Near);
            }
            ramp(stops, t)?
        }
        Paint::Radial { c, r, f, spread, stops, inv } => {
            let q = apply(*inv, at);
            let (dx, dy) = (q.0 - f.0, q.1 - f.1);
            let (ex, ey) = (f.0 - c.0, f.1 - c.1);
            let qa = dx * dx + dy * dy;
            if qa < 1e-12 {
                return Err(Near);
            }
            let qb = 2.0 * (dx * ex + dy * ey);
            let qc = ex * ex + ey * ey - r * r;
            if qc > -0.05 * r * r {
                return Err(Near);
            }
            let disc = qb * qb - 4.0 * qa * qc;
            let k = (-qb + disc.sqrt()) / (2.0 * qa);
            let t = spread_at(1.0 / k, spread);
            if near_edge(stops, t, spread) {
                return Err(Near);
            }
            ramp(stops, t)?
        }
        Paint::Pattern { x, y, w, h, inv, items } => {
            let q = apply(*inv, at);
            let (u, v) = ((q.0 - x).rem_euclid(*w), (q.1 - y).rem_euclid(*h));
            let e = eps * 2.0;
            if u < e || v < e || w - u < e || h - v < e {
                return Err(Near);
            }
            let mut ink = ink_of(items, (u, v), eps)?;
            for c in &mut ink {
                *c *= alpha;
            }
            return Ok(ink);
        }
    };
    let a = a * alpha;
    Ok([r * a, g * a, b * a, 0.0, 0.0, a])
}

fn shape_at(s: &Shape, p: Pt, eps: f64) -> Result<Ink, Near> {
    let mut ink = CLEAR;
    let q = apply(s.inv, p);
    let eps = eps.max(s.slack * s.scale);
    // far from everything
    let pad = s.half + 2.0 * eps / s.scale.max(1e-6);
    let b = s.bounds;
    if q.0 < b.0 - pad || q.1 < b.1 - pad || q.0 > b.2 + pad || q.1 > b.3 + pad {
        return Ok(ink);
    }
    let fill = |ink: &mut Ink| -> Result<(), Near> {
        if let Some((paint, alpha)) = &s.fill {
            if refpath::dist(&s.polys, q, true) * s.scale < eps {
                return Err(Near);
            }
            let w = refpath::winding(&s.polys, q);
            if if s.evenodd { w % 2 != 0 } else { w != 0 } {
                over(ink, paint_at(paint, *alpha, p, eps)?);
            }
        }
        Ok(())
    };
    let stroke = |ink: &mut Ink| -> Result<(), Near> {
        if let Some((paint, alpha)) = &s.stroke {
            let d = refpath::dist(&s.polys, q, false);
            if (d - s.half).abs() * s.scale < eps {
                return Err(Near);
            }
            if d < s.half {
                let mut c = paint_at(paint, *alpha, p, eps)?;
                let mut open = 0.0;
                if s.ends {
                    let near = |closed: bool| s.polys.iter().any(|poly| meets(poly) == closed && refpath::dist(std::slice::from_ref(poly), q, false) < s.half + eps / s.scale);
                    match (near(true), near(false)) {
                        (true, true) => return Err(Near),
                        (false, true) => open = 0.3,
                        _ => {}
                    }
                }
                c[3] = (s.key[0] + open) * c[5];
                c[4] = s.key[1] * c[5];
                over(ink, c);
            }
        }
        Ok(())
    };
    if s.stroke_first {
        stroke(&mut ink)?;
        fill(&mut ink)?;
    } else {
        fill(&mut ink)?;
        stroke(&mut ink)?;
    }
    Ok(ink)
}

pub fn ink_of(items: &[Item], p: Pt, eps: f64) -> Result<Ink, Near> {
    let mut ink = CLEAR;
    for i in items {
        let src = match i {
            Item::Shape(s) => shape_at(s, p, eps)?,
            Item::Group(g) => {
                let mut inside = 1.0;
                for c in &g.clips {
                    if ink_of(c, p, eps)?[5] < 0.5 {
                        inside = 0.0;
                    }
                }
                if inside == 0.0 {
                    continue;
                }
                for m in &g.masks {
                    let i = ink_of(m, p, eps)?;
                    inside *= 0.2125 * i[0] + 0.7154 * i[1] + 0.0721 * i[2];
                }
                let mut c = ink_of(&g.items, p, eps)?;
                if let Some(t) = g.tag {
                    c[3] = c[3] * 0.5 + t[0] * 0.5 * c[5];
                    c[4] = c[4] * 0.5 + t[1] * 0.5 * c[5];
                }
                for c in &mut c {
                    *c *= g.opacity * inside;
                }
                c
            }
        };
        over(&mut ink, src);
    }
    Ok(ink)
}

/// Corners of everything drawn, for choosing where to look.
pub fn spots(items: &[Item], out: &mut Vec<(Pt, Pt)>) {
    for i in items {
        match i {
            Item::Shape(s) => {
                for poly in &s.polys {
                    for (k, a) in poly.pts.iter().enumerate() {
                        if poly.pts.len() > 12 && k % (poly.pts.len() / 8) != 0 {
                            continue;
                        }
                        out.push((apply(s.mat, *a), apply(s.mat, ((s.bounds.0 + s.bounds.2) / 2.0, (s.bounds.1 + s.bounds.3) / 2.0))));
                    }
                }
            }
            Item::Group(g) => spots(&g.items, out),
        }
    }
}

/// Compares two scenes at random places. `Ok` gives the number of places compared.
/// With `inside` only places on the canvas count.
pub fn compare(a: &Scene, b: &Scene, rng: &mut crate::fw::Rng, n: usize, eps: f64, inside: bool) -> Result<(usize, usize), String> {
    let mut places = vec![];
    spots(&a.items, &mut places);
    spots(&b.items, &mut places);
    let (mut looked, mut inked) = (0, 0);
    for k in 0..n {
        let p = if places.is_empty() || k % 4 == 0 {
            (rng.float(-0.2, 1.2) * a.size.0, rng.float(-0.2, 1.2) * a.size.1)
        } else {
            let (v, c) = *rng.pick(&places);
            let t = match k % 4 {
                1 => rng.float(0.0, 1.0),
                2 => rng.float(0.0, 0.2),
                _ => rng.float(-0.15, 0.1),
            };
            (v.0 + (c.0 - v.0) * t + rng.float(-1.5, 1.5), v.1 + (c.1 - v.1) * t + rng.float(-1.5, 1.5))
        };
        if inside && !((0.0..=a.size.0).contains(&p.0) && (0.0..=a.size.1).contains(&p.1)) {
            continue;
        }
        let (Ok(x), Ok(y)) = (ink_of(&a.items, p, eps), ink_of(&b.items, p, eps)) else { continue };
        looked += 1;
        if x[5] > 0.0 {
            inked += 1;
        }
        if x.iter().zip(&y).any(|(x, y)| !((x - y).abs() < 0.02)) {
            return Err(format!("at ({:.2},{:.2}) {:?} became {:?}", p.0, p.1, x.map(|v| (v * 1000.0).round() / 1000.0), y.map(|v| (v * 1000.0).round() / 1000.0)));
        }
    }
    let same = |x: &Opaque, y: &Opaque| {
        x.what.split_whitespace().eq(y.what.split_whitespace())
            && x.nums.len() == y.nums.len()
            && (x.opacity - y.opacity).abs() <= 0.02
            && x.nums.iter().zip(&y.nums).all(|(a, b)| (a - b).abs() <= 0.02 * (1.0 + a.abs()))
    };
    // markers almost in place of the previous one are one marker, or two
    let repeats = |all: &[Opaque], k: usize| {
        k > 0 && k < all.len() && all[k].what.starts_with("marker") && all[k].what == all[k - 1].what && all[k].nums.iter().zip(&all[k - 1].nums).all(|(a, b)| (a - b).abs() < 0.25)
    };
    let (mut i, mut j) = (0, 0);
    while i < a.opaque.len() || j < b.opaque.len() {
        if let (Some(x), Some(y)) = (a.opaque.get(i), b.opaque.get(j))
            && same(x, y)
        {
            i += 1;
            j += 1;
        } else if repeats(&a.opaque, i) {
            i += 1;
        } else if repeats(&b.opaque, j) {
            j += 1;
        } else {
            return Err(format!("objects {:?} became {:?}", a.opaque, b.opaque));
        }
    }
    Ok((looked, inked))
}
