//! A document model of our own: generation, spelling as text, and reading back.
use crate::fw::Rng;
use std::collections::BTreeMap;

pub const SVG: &str = "http://www.w3.org/2000/svg";
pub const XLINK: &str = "http://www.w3.org/1999/xlink";
pub const XML: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Nd>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Nd {
    El(El),
    Text(String),
    CData(String),
    Comment(String),
    Pi(String, String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub before: Vec<Nd>,
    pub root: El,
    pub after: Vec<Nd>,
}

impl El {
    pub fn new(name: &str) -> Self {
        El { name: name.into(), attrs: vec![], children: vec![] }
    }
    pub fn with(mut self, attrs: &[(&str, &str)]) -> Self {
        for (n, v) in attrs {
            self.set(n, *v);
        }
        self
    }
    pub fn holding(mut self, e: El) -> Self {
        self.push(e);
        self
    }
    pub fn set(&mut self, name: &str, value: impl Into<String>) -> &mut Self {
        let value = value.into();
        if let Some(a) = self.attrs.iter_mut().find(|a| a.0 == name) {
            a.1 = value;
        } else {
            self.attrs.push((name.into(), value));
        }
        self
    }
    pub fn get(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == name).map(|a| a.1.as_str())
    }
    pub fn remove(&mut self, name: &str) {
        self.attrs.retain(|a| a.0 != name);
    }
    pub fn push(&mut self, el: El) -> &mut Self {
        self.children.push(Nd::El(el));
        self
    }
    pub fn text(mut self, t: &str) -> Self {
        self.children.push(Nd::Text(t.into()));
        self
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.children.iter().filter_map(|n| if let Nd::El(e) = n { Some(e) } else { None })
    }
    pub fn els_mut(&mut self) -> impl Iterator<Item = &mut El> {
        self.children.iter_mut().filter_map(|n| if let Nd::El(e) = n { Some(e) } else { None })
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for e in self.els() {
            e.walk(f);
        }
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut El)) {
        f(self);
        for e in self.els_mut() {
            e.walk_mut(f);
        }
    }
    /// Drops the elements below that answer to `f`.
    pub fn prune(&mut self, f: &dyn Fn(&El) -> bool) {
        self.children.retain(|c| !matches!(c, Nd::El(e) if f(e)));
        for e in self.els_mut() {
            e.prune(f);
        }
    }
    pub fn count(&self) -> usize {
        1 + self.els().map(El::count).sum::<usize>()
    }
    /// The `i`th element in document order.
    pub fn nth(&self, i: usize) -> Option<&El> {
        let mut k = 0;
        let mut out = None;
        self.walk(&mut |e| {
            if k == i {
                out = Some(e);
            }
            k += 1;
        });
        out
    }
    pub fn nth_mut(&mut self, i: usize) -> Option<&mut El> {
        fn go<'a>(e: &'a mut El, i: &mut usize) -> Option<&'a mut El> {
            if *i == 0 {
                return Some(e);
            }
            *i -= 1;
            for c in e.children.iter_mut() {
                if let Nd::El(c) = c {
                    if let Some(r) = go(c, i) {
                        return Some(r);
                    }
                }
            }
            None
        }
        let mut i = i;
        go(self, &mut i)
    }
    pub fn raw_text(&self) -> String {
        let mut s = String::new();
        for c in &self.children {
            match c {
                Nd::Text(t) | Nd::CData(t) => s.push_str(t),
                Nd::El(e) => s.push_str(&e.raw_text()),
                _ => {}
            }
        }
        s
    }
}

pub fn svg() -> El {
    El::new("svg").with(&[("xmlns", SVG)])
}

impl Doc {
    pub fn of(root: El) -> Self {
        Doc { before: vec![], root, after: vec![] }
    }
    /// Plain spelling.
    pub fn text(&self) -> String {
        self.spell(&mut None)
    }
    /// Spelled with random but equivalent choices.
    pub fn varied(&self, rng: &mut Rng) -> String {
        self.spell(&mut Some(rng))
    }
    fn spell(&self, rng: &mut Option<&mut Rng>) -> String {
        let mut s = String::new();
        for n in &self.before {
            spell_node(n, rng, &mut s);
        }
        spell_el(&self.root, rng, &mut s);
        for n in &self.after {
            spell_node(n, rng, &mut s);
        }
        s
    }
}

fn dice(rng: &mut Option<&mut Rng>, n: usize) -> bool {
    rng.as_mut().is_some_and(|r| r.chance(1, n))
}

fn escape(text: &str, quote: Option<char>, rng: &mut Option<&mut Rng>, out: &mut String) {
    for c in text.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '>' => out.push_str(if dice(rng, 2) && quote.is_some() { ">" } else { "&gt;" }),
            '"' if quote == Some('"') => out.push_str("&quot;"),
            '\'' if quote == Some('\'') => out.push_str(if dice(rng, 2) { "&#39;" } else { "&apos;" }),
            '\n' | '\t' if quote.is_some() => out.push_str(&format!("&#{};", c as u32)),
            '\r' => out.push_str("&#13;"),
            c if c.is_alphanumeric() && dice(rng, 40) => out.push_str(&format!("&#x{:x};", c as u32)),
            c => out.push(c),
        }
    }
}

fn spell_el(e: &El, rng: &mut Option<&mut Rng>, out: &mut String) {
    out.push('<');
    out.push_str(&e.name);
    for (n, v) in &e.attrs {
        out.push_str(if dice(rng, 8) { "\n  " } else { " " });
        out.push_str(n);
        out.push_str(if dice(rng, 10) { " = " } else { "=" });
        let q = if dice(rng, 3) { '\'' } else { '"' };
        out.push(q);
        escape(v, Some(q), rng, out);
        out.push(q);
    }
    if dice(rng, 8) {
        out.push(' ');
    }
    if e.children.is_empty() && !dice(rng, 4) {
        out.push_str("/>");
        return;
    }
    out.push('>');
    for c in &e.children {
        spell_node(c, rng, out);
    }
    out.push_str("</");
    out.push_str(&e.name);
    if dice(rng, 8) {
        out.push(' ');
    }
    out.push('>');
}

fn spell_node(n: &Nd, rng: &mut Option<&mut Rng>, out: &mut String) {
    match n {
        Nd::El(e) => spell_el(e, rng, out),
        Nd::Text(t) => {
            if !t.contains("]]>") && !t.is_empty() && dice(rng, 10) {
                out.push_str(&format!("<![CDATA[{t}]]>"));
            } else {
                escape(t, None, rng, out);
            }
        }
        Nd::CData(t) => out.push_str(&format!("<![CDATA[{t}]]>")),
        Nd::Comment(t) => out.push_str(&format!("<!--{t}-->")),
        Nd::Pi(t, v) => {
            if v.is_empty() {
                out.push_str(&format!("<?{t}?>"));
            } else {
                out.push_str(&format!("<?{t} {v}?>"));
            }
        }
    }
}

/// A document as any XML reader sees it, with names resolved.
#[derive(Clone, Debug, PartialEq)]
pub enum X {
    El { ns: String, name: String, attrs: BTreeMap<(String, String), String>, children: Vec<X> },
    Text(String),
    Comment(String),
    Pi(String, String),
}

impl X {
    pub fn children(&self) -> &[X] {
        if let X::El { children, .. } = self { children } else { &[] }
    }
    pub fn name(&self) -> &str {
        if let X::El { name, .. } = self { name } else { "" }
    }
    pub fn ns(&self) -> &str {
        if let X::El { ns, .. } = self { ns } else { "" }
    }
    pub fn attr(&self, name: &str) -> Option<&str> {
        if let X::El { attrs, .. } = self { attrs.get(&(String::new(), name.to_string())).map(String::as_str) } else { None }
    }
    pub fn attr_ns(&self, ns: &str, name: &str) -> Option<&str> {
        if let X::El { attrs, .. } = self { attrs.get(&(ns.to_string(), name.to_string())).map(String::as_str) } else { None }
    }
    pub fn is_el(&self) -> bool {
        matches!(self, X::El { .. })
    }
    pub fn els(&self) -> impl Iterator<Item = &X> {
        self.children().iter().filter(|c| c.is_el())
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a X)) {
        f(self);
        for c in self.children() {
            c.walk(f);
        }
    }
    pub fn raw_text(&self) -> String {
        match self {
            X::Text(t) => t.clone(),
            X::El { children, .. } => children.iter().map(X::raw_text).collect(),
            _ => String::new(),
        }
    }
}

/// Reads a document with roxmltree directly. The result's children are the top-level nodes.
pub fn read(src: &str) -> Result<X, String> {
    let opts = roxmltree::ParsingOptions { allow_dtd: true, ..Default::default() };
    let doc = roxmltree::Document::parse_with_options(src, opts).map_err(|e| e.to_string())?;
    Ok(convert(doc.root()).expect("root"))
}

/// The element at the top of a document.
pub fn read_root(src: &str) -> Result<X, String> {
    let X::El { children, .. } = read(src)? else { unreachable!() };
    children.into_iter().find(X::is_el).ok_or_else(|| "no root".into())
}

fn convert(n: roxmltree::Node) -> Option<X> {
    let kids = |n: roxmltree::Node| {
        let mut out: Vec<X> = vec![];
        for c in n.children().filter_map(convert) {
            if let (Some(X::Text(a)), X::Text(b)) = (out.last_mut(), &c) {
                a.push_str(b);
                continue;
            }
            out.push(c);
        }
        out
    };
    match n.node_type() {
        roxmltree::NodeType::Root => Some(X::El { ns: String::new(), name: String::new(), attrs: BTreeMap::new(), children: kids(n) }),
        roxmltree::NodeType::Element => Some(X::El {
            ns: n.tag_name().namespace().unwrap_or("").to_string(),
            name: n.tag_name().name().to_string(),
            attrs: n.attributes().map(|a| ((a.namespace().unwrap_or("").to_string(), a.name().to_string()), a.value().to_string())).collect(),
            children: kids(n),
        }),
        roxmltree::NodeType::Text => Some(X::Text(n.text().unwrap_or("").to_string())),
        roxmltree::NodeType::Comment => Some(X::Comment(n.text().unwrap_or("").to_string())),
        roxmltree::NodeType::PI => n.pi().map(|p| X::Pi(p.target.to_string(), p.value.unwrap_or("").trim_end().to_string())),
    }
}

/// Makes a document smaller while `bad` still holds.
pub fn shrink(doc: &Doc, bad: &mut dyn FnMut(&Doc) -> bool) -> Doc {
    let mut best = doc.clone();
    let mut budget = 600;
    loop {
        let mut progress = false;
        let mut i = 1;
        while i < best.root.count() && budget > 0 {
            // drop the element, or replace it by its children
            for hoist in [false, true] {
                let mut d = best.clone();
                if !remove_nth(&mut d.root, i, hoist) {
                    continue;
                }
                budget -= 1;
                if bad(&d) {
                    best = d;
                    progress = true;
                    break;
                }
            }
            i += 1;
        }
        for i in 0..best.root.count() {
            let Some(e) = best.root.nth(i) else { break };
            let names: Vec<String> = e.attrs.iter().map(|a| a.0.clone()).filter(|n| n != "xmlns").collect();
            for n in names {
                if budget == 0 {
                    break;
                }
                let mut d = best.clone();
                d.root.nth_mut(i).unwrap().remove(&n);
                budget -= 1;
                if read(&d.text()).is_ok() && bad(&d) {
                    best = d;
                    progress = true;
                } else if n == "style" || n == "transform" || n == "class" {
                    let v = best.root.nth(i).unwrap().get(&n).unwrap().to_string();
                    let parts: Vec<&str> = match n.as_str() {
                        "style" => v.split(';').collect(),
                        "class" => v.split(' ').collect(),
                        _ => v.split_inclusive(')').collect(),
                    };
                    for k in 0..parts.len() {
                        if parts.len() < 2 || budget == 0 {
                            break;
                        }
                        let mut p = parts.clone();
                        p.remove(k);
                        let mut d = best.clone();
                        d.root.nth_mut(i).unwrap().set(&n, p.join(match n.as_str() {
                            "style" => ";",
                            "class" => " ",
                            _ => "",
                        }));
                        budget -= 1;
                        if bad(&d) {
                            best = d;
                            progress = true;
                            break;
                        }
                    }
                }
            }
        }
        // rules of style elements, and text
        for i in 0..best.root.count() {
            let Some(e) = best.root.nth(i) else { break };
            for k in 0..e.children.len() {
                let Some(Nd::Text(t)) = best.root.nth(i).unwrap().children.get(k) else { continue };
                let parts: Vec<String> = t.split_inclusive('}').map(String::from).collect();
                for j in 0..parts.len() {
                    if budget == 0 {
                        break;
                    }
                    let mut p = parts.clone();
                    p.remove(j);
                    let mut d = best.clone();
                    d.root.nth_mut(i).unwrap().children[k] = Nd::Text(p.concat());
                    budget -= 1;
                    if bad(&d) {
                        best = d;
                        progress = true;
                        break;
                    }
                }
            }
        }
        if !progress || budget == 0 {
            return best;
        }
    }
}

fn remove_nth(e: &mut El, i: usize, hoist: bool) -> bool {
    fn go(e: &mut El, i: &mut usize, hoist: bool) -> bool {
        let mut k = 0;
        while k < e.children.len() {
            if let Nd::El(_) = &e.children[k] {
                *i -= 1;
                if *i == 0 {
                    let Nd::El(c) = e.children.remove(k) else { unreachable!() };
                    if hoist {
                        if c.children.is_empty() {
                            return false;
                        }
                        for (n, ch) in c.children.into_iter().enumerate() {
                            e.children.insert(k + n, ch);
                        }
                    }
                    return true;
                }
                if let Nd::El(c) = &mut e.children[k] {
                    if c.count() > *i {
                        return go(c, i, hoist);
                    }
                    *i -= c.count() - 1;
                }
            }
            k += 1;
        }
        false
    }
    let mut i = i;
    go(e, &mut i, hoist)
}
