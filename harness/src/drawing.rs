//! Random drawings, shaped so that the optimiser's jobs find work in them.
use crate::doc::*;
use crate::fw::Rng;
use crate::values;

#[derive(Clone, Copy, Debug, Default)]
pub struct Want {
    pub css: bool,
    pub text: bool,
    pub refs: bool,
    pub effects: bool,
    pub markers: bool,
    pub nested_svg: bool,
    pub xlink: bool,
    pub curves: bool,
    pub transforms: bool,
    pub editors: bool,
    /// Stylesheets that select by element name or position
    pub structural: bool,
    pub switches: bool,
}

impl Want {
    pub fn random(rng: &mut Rng) -> Self {
        Want {
            css: rng.chance(1, 3),
            text: rng.chance(1, 4),
            refs: rng.chance(1, 2),
            effects: rng.chance(1, 2),
            markers: rng.chance(1, 8),
            nested_svg: rng.chance(1, 8),
            xlink: rng.chance(1, 2),
            curves: rng.chance(2, 3),
            transforms: rng.chance(1, 2),
            editors: rng.chance(1, 4),
            structural: false,
            switches: false,
        }
    }
}

pub struct D<'a> {
    pub rng: &'a mut Rng,
    pub w: Want,
    pub left: usize,
    ids: usize,
    pub grads: Vec<String>,
    pub clips: Vec<String>,
    pub masks: Vec<String>,
    pub symbols: Vec<String>,
    pub marks: Vec<String>,
    pub filters: Vec<String>,
    classes: Vec<&'static str>,
}

fn n(rng: &mut Rng, lo: f64, hi: f64) -> String {
    let v = rng.float(lo, hi);
    match rng.below(5) {
        0 | 1 => format!("{}", v.round()),
        2 => format!("{:.1}", v),
        3 => format!("{:.2}", v),
        _ => format!("{:.1}", (v * 2.0).round() / 2.0),
    }
}

impl D<'_> {
    fn id(&mut self, p: &str) -> String {
        self.ids += 1;
        format!("{p}{}", self.ids)
    }

    fn colour(&mut self) -> String {
        // few colours, so that neighbours share them
        if self.rng.chance(2, 3) { (*self.rng.pick(&["red", "#00f", "green", "#ff0000", "black", "#123456", "rgb(0,128,0)", "white"])).into() } else { values::rgb(self.rng) }
    }

    fn paint(&mut self) -> String {
        if !self.grads.is_empty() && self.rng.chance(1, 5) {
            let g = self.rng.pick(&self.grads).clone();
            return if self.rng.chance(1, 6) { format!("url(#{g}) {}", self.colour()) } else { format!("url(#{g})") };
        }
        match self.rng.below(10) {
            0 | 1 => "none".into(),
            2 => "currentColor".into(),
            _ => self.colour(),
        }
    }

    fn prop(&mut self) -> (&'static str, String) {
        let p = *self.rng.pick(&["fill", "fill", "fill", "stroke", "stroke", "stroke-width", "opacity", "fill-opacity", "stroke-opacity", "fill-rule", "stroke-linecap", "stroke-linejoin", "stroke-dasharray", "color", "visibility", "display", "stroke-miterlimit"]);
        let v = match p {
            "fill" | "stroke" => self.paint(),
            "color" => self.colour(),
            "stroke-width" => (*self.rng.pick(&["1", "2", "3", "4.5", "0", "2px", ".5"])).to_string(),
            "opacity" | "fill-opacity" | "stroke-opacity" => (*self.rng.pick(&["1", ".5", "0.25", "0", ".8"])).to_string(),
            "stroke-dasharray" => (*self.rng.pick(&["none", "3 1", "2,2", "5"])).to_string(),
            "visibility" => (*self.rng.pick(&["visible", "hidden", "visible", "visible"])).to_string(),
            "display" => (*self.rng.pick(&["inline", "none", "inline", "inline"])).to_string(),
            "stroke-miterlimit" => (*self.rng.pick(&["4", "10", "1"])).to_string(),
            "fill-rule" => (*self.rng.pick(&["nonzero", "evenodd"])).to_string(),
            "stroke-linecap" => (*self.rng.pick(&["butt", "round", "square"])).to_string(),
            _ => (*self.rng.pick(&["miter", "round", "bevel"])).to_string(),
        };
        (p, v)
    }

    /// Gives the element styling through attributes, inline style and classes.
    pub fn styling(&mut self, e: &mut El, max: usize) {
        let mut inline: Vec<String> = vec![];
        for _ in 0..self.rng.below(max + 1) {
            let (p, v) = self.prop();
            if self.rng.chance(1, 4) {
                if !inline.iter().any(|d| d.starts_with(&format!("{p}:"))) {
                    let imp = if self.w.css && self.rng.chance(1, 12) { "!important" } else { "" };
                    inline.push(format!("{p}:{v}{imp}"));
                }
            } else {
                e.set(p, if self.rng.chance(1, 25) { "inherit".into() } else { v });
            }
        }
        if !inline.is_empty() {
            e.set("style", inline.join(";"));
        }
        if !self.classes.is_empty() && self.rng.chance(1, 3) {
            let a = *self.rng.pick(&self.classes);
            let c = if self.rng.chance(1, 4) { format!("{a} {}", self.rng.pick(&["x", "b", "c"])) } else { a.to_string() };
            e.set("class", c);
        }
        if self.w.effects && self.rng.chance(1, 10) && !self.clips.is_empty() {
            let c = self.rng.pick(&self.clips).clone();
            e.set("clip-path", format!("url(#{c})"));
        }
        if self.w.effects && self.rng.chance(1, 14) && !self.masks.is_empty() {
            let c = self.rng.pick(&self.masks).clone();
            e.set("mask", format!("url(#{c})"));
        }
        if self.w.effects && self.rng.chance(1, 12) && !self.filters.is_empty() {
            let c = self.rng.pick(&self.filters).clone();
            e.set("filter", format!("url(#{c})"));
        }
        if self.rng.chance(1, 10) {
            let id = self.id("i");
            e.set("id", id);
        }
    }

    pub fn transform(&mut self) -> String {
        let mut out = vec![];
        for _ in 0..1 + self.rng.below(2) {
            let t = match self.rng.below(9) {
                0 | 1 => format!("translate({} {})", n(self.rng, -20.0, 20.0), n(self.rng, -20.0, 20.0)),
                2 => format!("translate({})", n(self.rng, -20.0, 20.0)),
                3 => format!("scale({})", self.rng.pick(&["2", ".5", "1.5", "-1", "1"])),
                4 => format!("scale({},{})", self.rng.pick(&["2", ".5", "1"]), self.rng.pick(&["2", ".75", "-1", "1"])),
                5 => format!("rotate({})", self.rng.pick(&["90", "45", "30", "-90", "180", "17", "360", "0"])),
                6 => format!("rotate({} {} {})", self.rng.pick(&["90", "45", "-30"]), n(self.rng, 0.0, 50.0), n(self.rng, 0.0, 50.0)),
                7 => format!("skew{}({})", self.rng.pick(&["X", "Y"]), self.rng.pick(&["10", "20", "-15"])),
                _ => format!("matrix({} {} {} {} {} {})", self.rng.pick(&["1", "2", ".5"]), self.rng.pick(&["0", ".25", "0"]), self.rng.pick(&["0", "-.5", "0"]), self.rng.pick(&["1", "2", ".5"]), n(self.rng, -9.0, 9.0), n(self.rng, -9.0, 9.0)),
            };
            out.push(t);
        }
        out.join(self.rng.pick(&[" ", "", ","]))
    }

    pub fn shape(&mut self) -> El {
        let name = *self.rng.pick(&["rect", "rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "path", "path"]);
        let mut e = El::new(name);
        let rng = &mut *self.rng;
        match name {
            "rect" => {
                e.set("x", n(rng, 0.0, 60.0));
                e.set("y", n(rng, 0.0, 60.0));
                e.set("width", n(rng, 4.0, 40.0));
                e.set("height", n(rng, 4.0, 40.0));
                if rng.chance(1, 4) {
                    e.set("rx", n(rng, 0.0, 12.0));
                }
                if rng.chance(1, 6) {
                    e.set("ry", n(rng, 0.0, 12.0));
                }
                if rng.chance(1, 15) {
                    e.set(["width", "height"][rng.below(2)], "0");
                }
                if rng.chance(1, 15) {
                    e.remove(["x", "y", "width"][rng.below(3)]);
                }
                if rng.chance(1, 15) {
                    let p = format!("{}%", rng.range(5, 60));
                    e.set(["x", "y", "width", "height", "rx"][rng.below(5)], p);
                }
            }
            "circle" => {
                e.set("cx", n(rng, 10.0, 80.0));
                e.set("cy", n(rng, 10.0, 80.0));
                e.set("r", n(rng, 2.0, 25.0));
                if rng.chance(1, 15) {
                    e.set("r", "0");
                }
            }
            "ellipse" => {
                e.set("cx", n(rng, 10.0, 80.0));
                e.set("cy", n(rng, 10.0, 80.0));
                let r = n(rng, 2.0, 25.0);
                e.set("rx", r.clone());
                e.set("ry", if rng.chance(1, 3) { r } else { n(rng, 2.0, 25.0) });
                if rng.chance(1, 15) {
                    e.remove(["rx", "ry"][rng.below(2)]);
                }
                if rng.chance(1, 15) {
                    e.set(["rx", "ry"][rng.below(2)], *rng.pick(&["auto", "0", "10%"]));
                }
            }
            "line" => {
                for k in ["x1", "y1", "x2", "y2"] {
                    e.set(k, n(rng, 0.0, 90.0));
                }
                e.set("stroke", "black");
            }
            "polyline" | "polygon" => {
                let c = 2 * (2 + rng.below(4)) + usize::from(rng.chance(1, 12));
                let v: Vec<String> = (0..c).map(|_| n(rng, 0.0, 90.0)).collect();
                e.set("points", v.join(*rng.pick(&[" ", ",", ", "])));
            }
            _ => {
                let d = if self.w.curves && rng.chance(2, 3) {
                    let mut cmds = crate::paths::drawing_path(rng, 5);
                    if let Some(c) = cmds.first_mut() {
                        if c.c == 'M' {
                            c.a = vec![rng.range(20, 70) as f64, rng.range(20, 70) as f64];
                        }
                    }
                    crate::paths::cmds_text(&cmds)
                } else {
                    let mut s = format!("M{} {}", n(rng, 0.0, 90.0), n(rng, 0.0, 90.0));
                    for _ in 0..1 + rng.below(4) {
                        s += &match rng.below(5) {
                            0 => format!("H{}", n(rng, 0.0, 90.0)),
                            1 => format!("v{}", n(rng, -30.0, 30.0)),
                            2 => format!("l{},{}", n(rng, -30.0, 30.0), n(rng, -30.0, 30.0)),
                            _ => format!("L{} {}", n(rng, 0.0, 90.0), n(rng, 0.0, 90.0)),
                        };
                    }
                    if rng.chance(1, 2) {
                        s.push(*rng.pick(&['z', 'Z']));
                    }
                    if rng.chance(1, 8) {
                        s += &format!("M{} {}h5v5z", n(rng, 0.0, 90.0), n(rng, 0.0, 90.0));
                    }
                    s
                };
                e.set("d", d);
            }
        }
        self.styling(&mut e, 3);
        if self.w.transforms && self.rng.chance(1, 3) {
            let t = self.transform();
            e.set("transform", t);
        }
        if self.w.markers && !self.marks.is_empty() && self.rng.chance(1, 3) {
            let m = self.rng.pick(&self.marks).clone();
            let p = *self.rng.pick(&["marker-start", "marker-mid", "marker-end"]);
            e.set(p, format!("url(#{m})"));
        }
        if self.rng.chance(1, 25) {
            let t = El::new("title").text("a title");
            e.push(t);
        }
        e
    }

    fn href(&self) -> &'static str {
        if self.w.xlink { "xlink:href" } else { "href" }
    }

    pub fn body(&mut self, depth: usize) -> El {
        self.left = self.left.saturating_sub(1);
        let group = depth > 0 && self.left > 0 && self.rng.chance(2, 5);
        if group {
            let mut e = El::new(if self.rng.chance(1, 12) { if self.w.switches && self.rng.chance(1, 2) { "switch" } else { "a" } } else { "g" });
            if self.rng.chance(2, 3) {
                self.styling(&mut e, 2);
            }
            if self.w.transforms && self.rng.chance(1, 3) {
                let t = self.transform();
                e.set("transform", t);
            }
            let kids = if self.rng.chance(1, 4) { 1 } else { self.rng.below(5) };
            for _ in 0..kids {
                if self.left == 0 {
                    break;
                }
                let c = self.body(depth - 1);
                // neighbours that differ in their outline only
                let twin = (c.name == "path" && self.rng.chance(1, 4)).then(|| {
                    let mut t = c.clone();
                    t.remove("id");
                    t.set("d", format!("M{} {}h{}v9z", n(self.rng, 0.0, 80.0), n(self.rng, 0.0, 80.0), n(self.rng, 3.0, 20.0)));
                    if self.rng.chance(1, 2) {
                        t.set("d", format!("M{} {}h{}v9z", n(self.rng, 300.0, 400.0), n(self.rng, 300.0, 400.0), n(self.rng, 3.0, 20.0)));
                    }
                    t
                });
                e.push(c);
                if let Some(t) = twin {
                    e.push(t);
                }
            }
            // siblings that share an attribute, so that it can be moved
            if self.rng.chance(1, 3) {
                let (p, v) = self.prop();
                for c in e.els_mut() {
                    c.set(p, v.clone());
                }
            }
            if self.w.transforms && self.rng.chance(1, 10) {
                let t = self.transform();
                for c in e.els_mut() {
                    c.set("transform", t.clone());
                }
            }
            return e;
        }
        if self.w.refs && !self.symbols.is_empty() && self.rng.chance(1, 6) {
            let s = self.rng.pick(&self.symbols).clone();
            let h = self.href();
            let mut e = El::new("use");
            e.set(h, format!("#{s}"));
            if self.rng.chance(1, 2) {
                e.set("x", n(self.rng, -20.0, 20.0));
            }
            if self.rng.chance(1, 2) {
                e.set("y", n(self.rng, -20.0, 20.0));
            }
            self.styling(&mut e, 2);
            if self.w.transforms && self.rng.chance(1, 4) {
                let t = self.transform();
                e.set("transform", t);
            }
            return e;
        }
        if self.w.text && self.rng.chance(1, 5) {
            let mut e = El::new("text");
            e.set("x", n(self.rng, 0.0, 50.0));
            e.set("y", n(self.rng, 0.0, 50.0));
            self.styling(&mut e, 2);
            if self.rng.chance(1, 3) {
                e.set(self.rng.pick(&["font-size", "font-family", "text-anchor", "font-weight"]), "");
                let k = e.attrs.last().unwrap().0.clone();
                let v = match k.as_str() {
                    "font-size" => "12",
                    "font-family" => "Arial, sans-serif",
                    "text-anchor" => "middle",
                    _ => "bold",
                };
                e.set(&k, v);
            }
            if self.rng.chance(1, 8) {
                e.set("xml:space", "preserve");
            }
            let mut lastt = false;
            for _ in 0..self.rng.below(4) {
                if !lastt && self.rng.chance(2, 3) {
                    e.children.push(Nd::Text((*self.rng.pick(&["hello", "a b", " x ", "1  2", "é"])).into()));
                    lastt = true;
                } else {
                    let mut t = El::new("tspan").text(self.rng.pick(&["in", " in", "out ", "z"]));
                    if self.rng.chance(1, 3) {
                        t.set("fill", self.colour());
                    }
                    if self.rng.chance(1, 4) {
                        t.set("dx", "3");
                    }
                    e.push(t);
                    lastt = false;
                }
            }
            return e;
        }
        if self.rng.chance(1, 20) {
            let h = self.href();
            let mut e = El::new("image").with(&[("width", "10"), ("height", "10"), (h, "pic.png")]);
            e.set("x", n(self.rng, 0.0, 50.0));
            self.styling(&mut e, 1);
            return e;
        }
        if self.w.nested_svg && depth > 0 && self.rng.chance(1, 6) {
            let mut e = El::new("svg");
            e.set("x", n(self.rng, 0.0, 30.0));
            e.set("y", n(self.rng, 0.0, 30.0));
            if self.rng.chance(2, 3) {
                e.set("width", n(self.rng, 20.0, 60.0));
                e.set("height", n(self.rng, 20.0, 60.0));
            }
            if self.rng.chance(1, 2) {
                e.set("viewBox", format!("0 0 {} {}", self.rng.pick(&["50", "100"]), self.rng.pick(&["50", "100"])));
            }
            if self.rng.chance(1, 3) {
                e.set("overflow", "visible");
            }
            for _ in 0..1 + self.rng.below(3) {
                let c = self.body(depth - 1);
                e.push(c);
            }
            return e;
        }
        self.shape()
    }

    fn defs(&mut self) -> El {
        let mut defs = El::new("defs");
        if self.w.refs {
            for _ in 0..self.rng.below(3) {
                let id = self.id("grad");
                let mut g = El::new(self.rng.pick(&["linearGradient", "radialGradient"]));
                g.set("id", id.clone());
                let linear = g.name == "linearGradient";
                if self.rng.chance(1, 2) {
                    g.set("gradientUnits", "userSpaceOnUse");
                    if linear {
                        for (k, v) in [("x1", "10"), ("y1", "0"), ("x2", "80"), ("y2", "60")] {
                            g.set(k, v);
                        }
                    } else {
                        for (k, v) in [("cx", "40"), ("cy", "40"), ("r", "50")] {
                            g.set(k, v);
                        }
                    }
                } else if self.rng.chance(1, 3) {
                    if linear {
                        g.set("x2", "0");
                        g.set("y2", *self.rng.pick(&["1", "100%"]));
                    } else {
                        g.set("r", ".7");
                    }
                }
                if self.rng.chance(1, 4) {
                    let t = (*self.rng.pick(&["rotate(30)", "scale(.5)", "translate(.1 .2)", "matrix(1 0 0 1 0 0)", "rotate(45 .5 .5)"])).to_string();
                    g.set("gradientTransform", t);
                }
                if self.rng.chance(1, 5) {
                    g.set("spreadMethod", *self.rng.pick(&["pad", "reflect"]));
                }
                if !self.grads.is_empty() && self.rng.chance(1, 4) {
                    let h = self.href();
                    let t = self.rng.pick(&self.grads).clone();
                    g.set(h, format!("#{t}"));
                } else {
                    for (k, off) in ["0", "50%", "1"].iter().enumerate() {
                        if k == 1 && self.rng.chance(1, 2) {
                            continue;
                        }
                        let mut s = El::new("stop");
                        s.set("offset", *off);
                        let c = self.colour();
                        if self.rng.chance(1, 3) {
                            s.set("style", format!("stop-color:{c}"));
                        } else {
                            s.set("stop-color", c);
                        }
                        if self.rng.chance(1, 4) {
                            s.set("stop-opacity", *self.rng.pick(&[".5", "1", "0"]));
                        }
                        g.push(s);
                    }
                }
                self.grads.push(id);
                defs.push(g);
            }
            for _ in 0..self.rng.below(3) {
                let id = self.id("sym");
                let mut s = if self.rng.chance(1, 3) {
                    let mut s = El::new("symbol");
                    let c = self.shape();
                    s.push(c);
                    if self.rng.chance(1, 3) {
                        s.set("viewBox", "0 0 100 100");
                    }
                    s
                } else if self.rng.chance(1, 4) {
                    let mut s = El::new("g");
                    for _ in 0..1 + self.rng.below(2) {
                        let c = self.shape();
                        s.push(c);
                    }
                    s
                } else {
                    self.shape()
                };
                s.set("id", id.clone());
                self.symbols.push(id);
                defs.push(s);
            }
            if self.rng.chance(1, 5) {
                let id = self.id("pat");
                let mut p = El::new("pattern").with(&[("width", "20"), ("height", "20"), ("patternUnits", "userSpaceOnUse")]);
                p.set("id", id.clone());
                p.push(El::new("rect").with(&[("width", "12"), ("height", "9"), ("fill", "red")]));
                p.push(El::new("circle").with(&[("cx", "14"), ("cy", "14"), ("r", "4")]));
                self.grads.push(id);
                defs.push(p);
            }
        }
        if self.w.effects {
            for _ in 0..self.rng.below(3) {
                let id = self.id("clip");
                let mut c = El::new("clipPath");
                c.set("id", id.clone());
                for _ in 0..1 + self.rng.below(2) {
                    let mut s = El::new("rect").with(&[("width", "50"), ("height", "45")]);
                    if self.rng.chance(1, 2) {
                        s = El::new("circle").with(&[("cx", "45"), ("cy", "45"), ("r", "35")]);
                    } else if self.rng.chance(1, 3) {
                        s = El::new("path").with(&[("d", "M10 10H80V80H10zM30 30H50V50H30z"), ("clip-rule", *self.rng.pick(&["evenodd", "nonzero"]))]);
                    }
                    if self.w.transforms && self.rng.chance(1, 4) {
                        s.set("transform", "translate(20 10)");
                    }
                    if self.rng.chance(1, 6) {
                        s.set("fill", *self.rng.pick(&["none", "red"]));
                    }
                    c.push(s);
                }
                self.clips.push(id);
                defs.push(c);
            }
            if self.rng.chance(1, 3) {
                let id = self.id("mask");
                let mut m = El::new("mask").with(&[("maskUnits", "userSpaceOnUse"), ("x", "0"), ("y", "0"), ("width", "100"), ("height", "100")]);
                m.set("id", id.clone());
                m.push(El::new("rect").with(&[("width", "70"), ("height", "70"), ("fill", "white")]));
                if self.rng.chance(1, 2) {
                    m.push(El::new("circle").with(&[("cx", "30"), ("cy", "30"), ("r", "12"), ("fill", "black")]));
                }
                self.masks.push(id);
                defs.push(m);
            }
            if self.rng.chance(1, 4) {
                let id = self.id("filt");
                let mut f = El::new("filter");
                f.set("id", id.clone());
                f.push(El::new("feGaussianBlur").with(&[("stdDeviation", "2")]));
                self.filters.push(id);
                defs.push(f);
            }
        }
        if self.w.markers {
            let id = self.id("mark");
            let mut m = El::new("marker").with(&[("markerWidth", "4"), ("markerHeight", "4"), ("refX", "2"), ("refY", "2")]);
            m.set("id", id.clone());
            m.push(El::new("circle").with(&[("cx", "2"), ("cy", "2"), ("r", "2")]));
            self.marks.push(id);
            defs.push(m);
        }
        if self.rng.chance(1, 4) {
            // nothing refers to this one
            let s = self.shape();
            defs.push(s);
        }
        defs
    }

    fn sheet(&mut self) -> String {
        let mut s = String::new();
        let mut weight = std::collections::HashMap::new();
        let conditional = self.rng.chance(1, 4);
        for _ in 0..1 + self.rng.below(4) {
            let sel = if conditional {
                *self.rng.pick(&[".a", ".b:hover", ".c:hover", ".a:hover,.x:hover"])
            } else if self.w.structural {
                *self.rng.pick(&[".a", ".b", ".c", "rect", "circle", ".a.x", "g .a", "g>.b", ".a,.b", "path", "#i3", ".c:hover", ".b:first-child", "*"])
            } else {
                *self.rng.pick(&[".a", ".b", ".c", ".a.x", ".a,.b", "#i3", ".c:hover", ".x", ".b,#i2"])
            };
            let mut d = vec![];
            for _ in 0..1 + self.rng.below(2) {
                let (p, v) = self.prop();
                if p != "display" && p != "visibility" || self.rng.chance(1, 3) {
                    let imp = if self.rng.chance(1, 15) { "!important" } else { "" };
                    // one selector gives a property one importance, see the directed case about it
                    let imp = sel.split(',').map(|one| *weight.entry((one, p)).or_insert(imp)).last().unwrap();
                    if sel.split(',').any(|one| weight[&(one, p)] != imp) {
                        continue;
                    }
                    let v = if p == "stroke-width" && !v.ends_with("px") && v != "0" { format!("{v}px") } else { v };
                    d.push(format!("{p}:{v}{imp}"));
                }
            }
            let body = format!("{sel}{{{}}}", d.join(";"));
            s += &if self.rng.chance(1, 12) || conditional && !sel.contains("hover") { format!("@media {}{{{body}}}", self.rng.pick(&["print", "screen"])) } else { body };
        }
        s
    }
}

/// Drops paths that follow one they could be merged with and whose stroke could touch that one's, see the directed case about it.
pub fn apart(doc: &mut Doc) {
    if doc.text().contains("stroke") {
        doc.root.walk_mut(&mut |e| {
            let mut last: Option<El> = None;
            e.children.retain(|c| {
                let Nd::El(c) = c else { return true };
                let mut bare = c.clone();
                bare.attrs.retain(|a| a.0 != "d");
                bare.attrs.sort_unstable();
                let far = c.get("d").is_some_and(|d| d.starts_with("M3") && d.find([' ', '.']).is_some_and(|i| i >= 4));
                if c.name == "path" && !far && last.as_ref().is_some_and(|l| *l == bare) {
                    return false;
                }
                last = Some(bare);
                true
            });
        });
    }
}

pub fn drawing(rng: &mut Rng, w: Want, size: usize) -> Doc {
    let left = 1 + rng.below(size);
    let mut d = D { rng, w, left, ids: 0, grads: vec![], clips: vec![], masks: vec![], symbols: vec![], marks: vec![], filters: vec![], classes: vec![] };
    let mut root = svg();
    match d.rng.below(4) {
        0 => {
            root.set("width", "100");
            root.set("height", "100");
        }
        1 => {
            root.set("viewBox", "0 0 100 100");
        }
        2 => {
            root.set("width", "100");
            root.set("height", "100");
            root.set("viewBox", "0 0 100 100");
        }
        _ => {
            root.set("width", "200");
            root.set("height", "100");
            root.set("viewBox", "0 0 100 100");
        }
    }
    if w.xlink {
        root.set("xmlns:xlink", XLINK);
    }
    if w.editors {
        root.set("xmlns:inkscape", "http://www.inkscape.org/namespaces/inkscape");
        root.set("xmlns:sodipodi", "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd");
        root.set("inkscape:version", "1.0");
        root.push(El::new("sodipodi:namedview").with(&[("id", "base")]));
        root.push(El::new("metadata").text("meta"));
        root.children.push(Nd::Comment(" made by hand ".into()));
    }
    if d.rng.chance(1, 8) {
        d.styling(&mut root, 2);
    }
    if w.css {
        d.classes = vec!["a", "b", "c"];
        let s = d.sheet();
        root.push(El::new("style").text(&s));
    }
    if w.refs || w.effects || w.markers || d.rng.chance(1, 6) {
        let defs = d.defs();
        root.push(defs);
    }
    let depth = 1 + d.rng.below(4);
    for _ in 0..1 + d.rng.below(5) {
        let b = d.body(depth);
        root.push(b);
        if d.left == 0 {
            break;
        }
    }
    // drawn again from elsewhere; not a group, see the directed case about it
    if w.refs && d.rng.chance(1, 3) {
        let mut ids = vec![];
        root.walk(&mut |e| {
            if let Some(id) = e.get("id") {
                if ["path", "rect", "circle", "ellipse", "line", "polygon", "polyline", "text", "image"].contains(&e.name.as_str()) {
                    ids.push(id.to_string());
                }
            }
        });
        if !ids.is_empty() {
            let h = d.href();
            let mut e = El::new("use");
            e.set(h, format!("#{}", d.rng.pick(&ids)));
            e.set("x", n(d.rng, -20.0, 20.0));
            d.styling(&mut e, 2);
            e.remove("id");
            root.push(e);
        }
    }
    if w.editors {
        let mut k = 0;
        root.walk_mut(&mut |e| {
            k += 1;
            if k % 4 == 2 && !e.name.contains(':') {
                e.set("inkscape:label", "layer");
            }
        });
    }
    Doc::of(root)
}
