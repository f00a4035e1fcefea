//! Edits of the document tree, followed by a model of it.
use crate::fw::*;
use lightningcss::printer::PrinterOptions;
use oxvg_ast::element::Element;
use oxvg_ast::node::{Ref, Type};
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::serialize::Node as _;
use oxvg_collections::attribute::Attr;
use oxvg_collections::element::ElementId;
use oxvg_serialize::ToValue as _;
use serde_json::json;

#[derive(Clone, Copy, Debug)]
pub struct Op {
    kind: usize,
    a: usize,
    b: usize,
    c: usize,
}

const KINDS: &[&str] = &[
    "append_child", "append", "prepend", "insert_before", "insert_after", "insert", "remove", "empty", "retain_children", "replace_children", "replace_child", "replace_with", "after", "before", "flatten",
    "sort_child_elements", "set_local_name", "set_text_content", "set_attribute", "remove_attribute", "retain_attributes", "class_add", "class_remove", "class_toggle", "class_replace", "new_element", "new_text",
];

#[derive(Clone, Debug, Default)]
struct M {
    parent: Option<usize>,
    kids: Vec<usize>,
    element: bool,
    text: String,
    name: String,
    attrs: Vec<(String, String)>,
    /// No longer of interest
    gone: bool,
}

const NAMES: &[(&str, ElementId<'static>)] = &[("g", ElementId::G), ("rect", ElementId::Rect), ("path", ElementId::Path), ("circle", ElementId::Circle)];
const SETTABLE: &[(&str, &str)] = &[("id", "x"), ("id", "y"), ("data-a", "1"), ("data-b", "2"), ("data-a", "3"), ("href", "#x"), ("xlink:href", "#y"), ("lang", "en")];
const TOKENS: &[&str] = &["p", "q", "r"];

struct Model {
    n: Vec<M>,
}

impl Model {
    fn above(&self, mut i: usize, a: usize) -> bool {
        loop {
            if i == a {
                return true;
            }
            match self.n[i].parent {
                Some(p) => i = p,
                None => return false,
            }
        }
    }
    fn detach(&mut self, i: usize) {
        if let Some(p) = self.n[i].parent.take() {
            self.n[p].kids.retain(|k| *k != i);
        }
    }
    fn put(&mut self, p: usize, at: usize, i: usize) {
        self.n[i].parent = Some(p);
        let at = at.min(self.n[p].kids.len());
        self.n[p].kids.insert(at, i);
    }
    fn place(&self, i: usize) -> usize {
        let p = self.n[i].parent.unwrap();
        self.n[p].kids.iter().position(|k| *k == i).unwrap()
    }
    fn write(&self, i: usize, out: &mut String) {
        let n = &self.n[i];
        if !n.element {
            out.push_str(&n.text);
            return;
        }
        out.push('<');
        out.push_str(&n.name);
        for (k, v) in &n.attrs {
            out.push_str(&format!(" {k}=\"{v}\""));
        }
        if n.kids.is_empty() {
            out.push_str("/>");
            return;
        }
        out.push('>');
        for k in &n.kids {
            self.write(*k, out);
        }
        out.push_str(&format!("</{}>", n.name));
    }
}

fn attrs_of(e: &Element) -> Vec<(String, String)> {
    e.attributes().into_iter().map(|a| (a.name().to_string(), a.value().to_value_string(PrinterOptions::default()).unwrap_or_default())).collect()
}

/// Runs the edits; tells how many took place, or what first went wrong.
fn run(ops: &[Op]) -> Result<(usize, usize), (String, String)> {
    let src = r#"<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"><g><rect/>one<path/></g>two<circle/><g/></svg>"#;
    parse(src, |dom, allocator| {
        let root = Element::find_element(dom).expect("there is a root");
        let doc = root.as_document();
        let mut m = Model { n: vec![] };
        let mut real: Vec<Ref> = vec![];
        fn take<'i, 'a>(r: Ref<'i, 'a>, parent: Option<usize>, m: &mut Model, real: &mut Vec<Ref<'i, 'a>>) -> usize {
            let i = real.len();
            real.push(r);
            let e = r.node_type() == Type::Element;
            m.n.push(M { parent, element: e, text: if e { String::new() } else { r.text_content().unwrap_or_default().to_string() }, ..M::default() });
            if let Some(e) = Element::new(r) {
                m.n[i].name = e.local_name().to_string();
                m.n[i].attrs = attrs_of(&e);
            }
            let kids: Vec<usize> = r.child_nodes_iter().collect::<Vec<_>>().into_iter().map(|c| take(c, Some(i), m, real)).collect();
            m.n[i].kids = kids;
            i
        }
        take(root.0, None, &mut m, &mut real);
        let mut done = 0;
        let mut kinds = std::collections::BTreeSet::new();
        for (step, op) in ops.iter().enumerate() {
            let live: Vec<usize> = (0..m.n.len()).filter(|i| !m.n[*i].gone).collect();
            let els: Vec<usize> = live.iter().copied().filter(|i| m.n[*i].element).collect();
            let p = els[op.a % els.len()];
            let x = live[op.b % live.len()];
            let e = |i: usize| Element::new(real[i]).expect("an element");
            let name = KINDS[op.kind % KINDS.len()];
            let movable = x != 0 && !m.above(p, x);
            let kid = |c: usize| (!m.n[p].kids.is_empty()).then(|| m.n[p].kids[c % m.n[p].kids.len()]);
            let mut acted = true;
            match name {
                "append_child" | "append" | "prepend" if movable => {
                    match name {
                        "append_child" => real[p].append_child(real[x]),
                        "append" => e(p).append(real[x]),
                        _ => e(p).prepend(real[x]),
                    }
                    m.detach(x);
                    let at = if name == "prepend" { 0 } else { usize::MAX };
                    m.put(p, at, x);
                }
                "insert_before" | "insert_after" | "after" | "before" if movable && kid(op.c).is_some_and(|k| k != x && (m.n[k].element || name.starts_with("insert"))) => {
                    let k = kid(op.c).unwrap();
                    match name {
                        "insert_before" => real[p].insert_before(real[x], real[k]),
                        "insert_after" => real[p].insert_after(real[x], &real[k]),
                        "after" => e(k).after(real[x]),
                        _ => {
                            e(k).before(real[x]);
                        }
                    }
                    m.detach(x);
                    let at = m.place(k);
                    m.put(p, if name.ends_with("after") { at + 1 } else { at }, x);
                }
                "insert" if movable && m.n[x].parent != Some(p) => {
                    let at = op.c % (m.n[p].kids.len() + 1);
                    real[p].insert(at, real[x]);
                    m.detach(x);
                    m.put(p, at, x);
                }
                "remove" if x != 0 => {
                    real[x].remove();
                    m.detach(x);
                }
                "empty" => {
                    real[p].empty();
                    for k in m.n[p].kids.clone() {
                        m.detach(k);
                    }
                }
                "retain_children" => {
                    let keep: Vec<bool> = (0..m.n[p].kids.len()).map(|i| op.c >> (i % 16) & 1 == 1).collect();
                    let mut i = 0;
                    real[p].retain_children(|_| {
                        i += 1;
                        keep[i - 1]
                    });
                    for (k, keep) in m.n[p].kids.clone().into_iter().zip(keep) {
                        if !keep {
                            m.detach(k);
                        }
                    }
                }
                "replace_children" => {
                    let list: Vec<usize> = live.iter().copied().filter(|i| *i != 0 && !m.above(p, *i) && (op.c ^ i * 7) % 3 == 0 && !live.iter().any(|j| j != i && (op.c ^ j * 7) % 3 == 0 && *j != 0 && m.above(*i, *j))).collect();
                    e(p).replace_children(list.iter().map(|i| real[*i]));
                    for k in m.n[p].kids.clone() {
                        m.detach(k);
                    }
                    for i in list {
                        m.detach(i);
                        m.put(p, usize::MAX, i);
                    }
                }
                "replace_child" | "replace_with" if movable && kid(op.c).is_some_and(|k| k != x && !m.above(x, k) && (m.n[k].element || name == "replace_child")) => {
                    let k = kid(op.c).unwrap();
                    if name == "replace_child" {
                        real[p].replace_child(real[x], &real[k]);
                    } else {
                        e(k).replace_with(real[x]);
                    }
                    m.detach(x);
                    let at = m.place(k);
                    m.detach(k);
                    m.put(p, at, x);
                }
                "flatten" if m.n[p].parent.is_some() => {
                    e(p).flatten();
                    let (q, at) = (m.n[p].parent.unwrap(), m.place(p));
                    m.detach(p);
                    for (i, k) in m.n[p].kids.clone().into_iter().enumerate() {
                        m.detach(k);
                        m.put(q, at + i, k);
                    }
                }
                "sort_child_elements" => {
                    e(p).sort_child_elements(|a, b| b.local_name().cmp(a.local_name()));
                    let mut kids = m.n[p].kids.clone();
                    kids.sort_by(|a, b| match (m.n[*a].element, m.n[*b].element) {
                        (true, true) => m.n[*b].name.cmp(&m.n[*a].name),
                        (a, b) => a.cmp(&b),
                    });
                    m.n[p].kids = kids;
                }
                "set_local_name" if p != 0 && m.n[p].parent.is_some() => {
                    let (n, id) = &NAMES[op.c % NAMES.len()];
                    let new = e(p).set_local_name(id.clone(), &allocator);
                    let i = real.len();
                    real.push(new.0);
                    let old = std::mem::take(&mut m.n[p]);
                    m.n[p].gone = true;
                    for k in &old.kids {
                        m.n[*k].parent = Some(i);
                    }
                    let q = old.parent.unwrap();
                    for k in &mut m.n[q].kids {
                        if *k == p {
                            *k = i;
                        }
                    }
                    m.n.push(M { name: (*n).into(), ..old });
                }
                "set_text_content" => {
                    real[p].set_text_content("new".into(), &allocator);
                    for k in m.n[p].kids.clone() {
                        m.detach(k);
                    }
                    let i = real.len();
                    let Some(t) = real[p].first_child() else { return Err((format!("{name} at step {step}"), "no text was added".into())) };
                    real.push(t);
                    m.n.push(M { text: "new".into(), ..M::default() });
                    m.put(p, 0, i);
                }
                "set_attribute" => {
                    let (k, v) = SETTABLE[op.c % SETTABLE.len()];
                    let id = e(0).parse_attr_id(k);
                    e(p).set_attribute(Attr::new(id, v));
                    match m.n[p].attrs.iter_mut().find(|a| a.0 == k) {
                        Some(a) => a.1 = v.into(),
                        None => m.n[p].attrs.push((k.into(), v.into())),
                    }
                }
                "remove_attribute" => {
                    let (k, _) = SETTABLE[op.c % SETTABLE.len()];
                    let id = e(0).parse_attr_id(k);
                    let had = m.n[p].attrs.iter().any(|a| a.0 == k);
                    if e(p).has_attribute(&id) != had || e(p).remove_attribute(&id).is_some() != had {
                        return Err((format!("{name} finds the wrong attribute"), format!("step {step}: {k} on element {p}")));
                    }
                    m.n[p].attrs.retain(|a| a.0 != k);
                }
                "retain_attributes" if p != 0 => {
                    let keep = op.c;
                    let mut i = 0;
                    e(p).attributes().retain(|_| {
                        i += 1;
                        keep >> (i % 8) & 1 == 1
                    });
                    let mut i = 0;
                    m.n[p].attrs.retain(|_| {
                        i += 1;
                        keep >> (i % 8) & 1 == 1
                    });
                }
                "class_add" | "class_remove" | "class_toggle" | "class_replace" => {
                    let t = TOKENS[op.c % TOKENS.len()];
                    let other = TOKENS[op.b % TOKENS.len()];
                    let mut list: Vec<String> = m.n[p].attrs.iter().find(|a| a.0 == "class").map(|a| a.1.split(' ').map(String::from).collect()).unwrap_or_default();
                    let has = list.iter().any(|c| c == t);
                    if e(p).has_class(t) != has || e(p).class_list().contains(t) != has {
                        return Err(("class lookup is wrong".into(), format!("step {step}: {t} on element {p}")));
                    }
                    let el = e(p);
                    let mut classes = el.class_list();
                    match name {
                        "class_add" => classes.add(t.into()),
                        "class_remove" => classes.remove(t),
                        "class_replace" if list.iter().any(|c| c == other) => acted = false,
                        "class_replace" => {
                            if classes.replace(t, other.into()) != has {
                                return Err(("class replace tells the wrong outcome".into(), format!("step {step}")));
                            }
                        }
                        _ => {
                            if classes.toggle(t.into()) == has {
                                return Err(("class toggle tells the wrong outcome".into(), format!("step {step}")));
                            }
                        }
                    }
                    if acted {
                        match (name, has) {
                            ("class_add" | "class_toggle", false) => list.push(t.into()),
                            ("class_remove" | "class_toggle", true) => list.retain(|c| c != t),
                            ("class_replace", true) => {
                                let at = list.iter().position(|c| c == t).unwrap();
                                list[at] = other.into();
                            }
                            _ => {}
                        }
                        let at = m.n[p].attrs.iter().position(|a| a.0 == "class");
                        match (at, list.is_empty()) {
                            (Some(at), true) => {
                                m.n[p].attrs.remove(at);
                            }
                            (Some(at), false) => m.n[p].attrs[at].1 = list.join(" "),
                            (None, false) => m.n[p].attrs.push(("class".into(), list.join(" "))),
                            (None, true) => {}
                        }
                    }
                }
                "new_element" if live.len() < 24 => {
                    let (n, id) = &NAMES[op.c % NAMES.len()];
                    real.push(doc.create_element(id.clone(), &allocator).0);
                    m.n.push(M { element: true, name: (*n).into(), ..M::default() });
                }
                "new_text" if live.len() < 24 => {
                    real.push(doc.create_text_node("t".into(), &allocator));
                    m.n.push(M { text: "t".into(), ..M::default() });
                }
                _ => acted = false,
            }
            if !acted {
                continue;
            }
            done += 1;
            kinds.insert(name);
            agree(&m, &real).map_err(|e| (format!("after {name}: {}", e.0), format!("step {step}: {}", e.1)))?;
        }
        let mut want = String::new();
        m.write(0, &mut want);
        match dom.serialize() {
            Ok(got) if got == want => Ok((done, kinds.len())),
            Ok(got) => Err(("the written tree differs".into(), format!("expected {want}, got {got}"))),
            Err(e) => Err(("the tree cannot be written".into(), format!("{e}"))),
        }
    })
    .expect("the document is well-formed")
}

fn agree(m: &Model, real: &[Ref]) -> Result<(), (String, String)> {
    let at = |r: Option<Ref>| r.map(|r| real.iter().position(|q| q.id_eq(r)));
    for (i, n) in m.n.iter().enumerate().filter(|(_, n)| !n.gone) {
        let r = real[i];
        let bad = |what: &str, want: String, got: String| Err((what.to_string(), format!("node {i}: expected {want}, got {got}")));
        let forward: Vec<_> = std::iter::successors(r.first_child(), |c| c.next_sibling()).take(100).map(|c| at(Some(c)).flatten()).collect();
        let want: Vec<_> = n.kids.iter().map(|k| Some(*k)).collect();
        if forward != want {
            return bad("children differ", format!("{want:?}"), format!("{forward:?}"));
        }
        let mut backward: Vec<_> = std::iter::successors(r.last_child(), |c| c.previous_sibling()).take(100).map(|c| at(Some(c)).flatten()).collect();
        backward.reverse();
        if backward != want {
            return bad("children differ read backwards", format!("{want:?}"), format!("{backward:?}"));
        }
        if i != 0 {
            let parent = r.parent_node().map(|p| at(Some(p.0)).flatten());
            if parent != n.parent.map(Some) {
                return bad("parent differs", format!("{:?}", n.parent), format!("{parent:?}"));
            }
            let beside = |d: isize| n.parent.and_then(|p| m.n[p].kids.get((m.place(i) as isize + d) as usize).copied()).map(Some);
            if at(r.next_sibling()) != beside(1) {
                return bad("next sibling differs", format!("{:?}", beside(1)), format!("{:?}", at(r.next_sibling())));
            }
            if at(r.previous_sibling()) != beside(-1) {
                return bad("previous sibling differs", format!("{:?}", beside(-1)), format!("{:?}", at(r.previous_sibling())));
            }
        }
        if r.child_node_count() != n.kids.len() || r.has_child_nodes() == n.kids.is_empty() {
            return bad("child count differs", n.kids.len().to_string(), r.child_node_count().to_string());
        }
        for (k, c) in n.kids.iter().enumerate() {
            if r.child_index(&real[*c]) != Some(k) || !r.item(k).is_some_and(|x| x.id_eq(real[*c])) || !r.contains(real[*c]) {
                return bad("child lookup differs", format!("{c} at {k}"), format!("{:?}", r.child_index(&real[*c])));
            }
        }
        if n.element {
            let e = Element::new(r).expect("an element");
            let els: Vec<usize> = n.kids.iter().copied().filter(|k| m.n[*k].element).collect();
            let got: Vec<_> = e.children_iter().map(|c| at(Some(c.0)).flatten()).collect();
            if got != els.iter().map(|k| Some(*k)).collect::<Vec<_>>() || e.child_element_count() != els.len() {
                return bad("child elements differ", format!("{els:?}"), format!("{got:?}"));
            }
            if at(e.first_element_child().map(|c| c.0)).flatten() != els.first().copied() || at(e.last_element_child().map(|c| c.0)).flatten() != els.last().copied() {
                return bad("first or last element differs", format!("{els:?}"), String::new());
            }
            for w in els.windows(2) {
                let (a, b) = (Element::new(real[w[0]]).unwrap(), Element::new(real[w[1]]).unwrap());
                if a.next_element_sibling() != Some(b) || b.previous_element_sibling() != Some(a) {
                    return bad("element siblings differ", format!("{w:?}"), String::new());
                }
            }
            let got = attrs_of(&e);
            if got != n.attrs {
                return bad("attributes differ", format!("{:?}", n.attrs), format!("{got:?}"));
            }
        }
    }
    Ok(())
}

/// P08: editing the tree does what the edit says and nothing else.
pub fn edits(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when at least five kinds of edits took place; distinct by the edits");
    ctx.explore("edits", ctx.scale(400_000, 10_000_000), |rng, _, obs| {
        let n = 4 + rng.below(30);
        let ops: Vec<Op> = (0..n).map(|_| Op { kind: rng.below(KINDS.len()), a: rng.below(1 << 16), b: rng.below(1 << 16), c: rng.below(1 << 16) }).collect();
        let show = |ops: &[Op]| ops.iter().map(|o| format!("{}({},{},{})", KINDS[o.kind], o.a, o.b, o.c)).collect::<Vec<_>>().join(" ");
        match guarded(|| run(&ops)) {
            Ok(Ok((done, kinds))) => {
                obs.add("edits", done as u64);
                if kinds >= 5 {
                    obs.nontrivial(&show(&ops));
                }
            }
            first => {
                let sig = |r: &Result<Result<(usize, usize), (String, String)>, Panicked>| match r {
                    Ok(Ok(_)) => None,
                    Ok(Err((k, d))) => Some((k.clone(), d.clone())),
                    Err(p) => Some((format!("panic in {}", p.location.rsplit('/').next().unwrap_or("?").split(':').next().unwrap_or("?")), format!("{} at {}", p.message, p.location))),
                };
                let (kind, mut detail) = sig(&first).unwrap();
                let mut small = ops.clone();
                let mut i = 0;
                while i < small.len() {
                    let mut fewer = small.clone();
                    fewer.remove(i);
                    match sig(&guarded(|| run(&fewer))) {
                        Some((k, d)) if k == kind => {
                            small = fewer;
                            detail = d;
                        }
                        _ => i += 1,
                    }
                }
                obs.violation(kind, show(&small), detail);
            }
        }
        obs.sample(|| json!({"edits": show(&ops)}));
    });
}
