//! A reader of our own for the modules made from documents: imports, interfaces, one component and its exports.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Js {
    Num(f64),
    Str(String),
    Bool(bool),
    Null,
    Ident(String),
    Obj(Vec<(String, Js)>),
    Or(Box<Js>, Box<Js>),
    Same(Box<Js>, Box<Js>),
    Cond(Box<Js>, Box<Js>, Box<Js>),
    Jsx(Box<Jx>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Jx {
    /// None for a fragment
    pub name: Option<String>,
    pub attrs: Vec<At>,
    pub children: Vec<Ch>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum At {
    Attr(String, Js),
    Spread(Js),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ch {
    Text(String),
    Expr(Option<Js>),
    El(Jx),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Import {
    pub default: Option<String>,
    pub namespace: Option<String>,
    pub named: Vec<String>,
    pub from: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Param {
    Name(String),
    Object(Vec<String>, Option<String>),
}

#[derive(Clone, Debug, Default)]
pub struct Module {
    pub imports: Vec<Import>,
    pub interfaces: BTreeMap<String, Vec<String>>,
    pub component: String,
    pub params: Vec<Param>,
    /// Names of types the parameters mention, for each parameter
    pub types: Vec<Vec<String>>,
    pub body: Option<Js>,
    /// `const a = f(b)`
    pub wraps: Vec<(String, String, String)>,
    /// Name outside, name inside
    pub exports: Vec<(String, String)>,
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}

type R<T> = Result<T, String>;

fn put(units: &mut Vec<u16>, c: char) {
    units.extend_from_slice(c.encode_utf16(&mut [0; 2]));
}

const RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "function", "if", "import", "in",
    "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield", "let", "static", "await", "implements", "interface",
    "package", "private", "protected", "public",
];

pub fn is_binding(name: &str) -> bool {
    let mut c = name.chars();
    c.next().is_some_and(|c| c.is_alphabetic() || c == '_' || c == '$') && c.all(|c| c.is_alphanumeric() || c == '_' || c == '$') && !RESERVED.contains(&name)
}

impl P<'_> {
    fn fail<T>(&self, what: &str) -> R<T> {
        let at: String = self.s[self.i.min(self.s.len())..].iter().take(40).collect();
        Err(format!("{what} expected at {at:?}"))
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn ws(&mut self) {
        while self.peek().is_some_and(char::is_whitespace) {
            self.i += 1;
        }
    }
    fn looking(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.s.get(self.i + k) == Some(&c))
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let ok = self.looking(t) && !(t.ends_with(char::is_alphanumeric) && self.s.get(self.i + t.chars().count()).is_some_and(|c| c.is_alphanumeric() || matches!(c, '_' | '$')));
        if ok {
            self.i += t.chars().count();
        }
        ok
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) { Ok(()) } else { self.fail(t) }
    }
    fn word(&mut self) -> R<String> {
        self.ws();
        let start = self.i;
        while self.peek().is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '$') {
            self.i += 1;
        }
        let w: String = self.s[start..self.i].iter().collect();
        if w.chars().next().is_none_or(|c| c.is_numeric()) {
            self.i = start;
            return self.fail("a name");
        }
        Ok(w)
    }
    fn binding(&mut self) -> R<String> {
        let w = self.word()?;
        if is_binding(&w) { Ok(w) } else { Err(format!("{w:?} cannot be bound")) }
    }
    /// A name in JSX, where hyphens are allowed
    fn tag(&mut self) -> R<String> {
        self.ws();
        let start = self.i;
        while self.peek().is_some_and(|c| c.is_alphanumeric() || matches!(c, '_' | '$' | '-')) {
            self.i += 1;
        }
        let w: String = self.s[start..self.i].iter().collect();
        if w.chars().next().is_none_or(|c| c.is_numeric() || c == '-') {
            self.i = start;
            return self.fail("a JSX name");
        }
        Ok(w)
    }
    fn string(&mut self) -> R<String> {
        self.ws();
        let q = match self.peek() {
            Some(q @ ('"' | '\'')) => q,
            _ => return self.fail("a string"),
        };
        self.i += 1;
        let mut units: Vec<u16> = vec![];
        loop {
            let Some(c) = self.peek() else { return self.fail("the end of a string") };
            self.i += 1;
            match c {
                c if c == q => break,
                '\n' | '\r' => return Err("a line break in a string".into()),
                '\\' => {
                    let Some(e) = self.peek() else { return self.fail("an escape") };
                    self.i += 1;
                    match e {
                        'n' => put(&mut units, '\n'),
                        't' => put(&mut units, '\t'),
                        'r' => put(&mut units, '\r'),
                        'b' => put(&mut units, '\u{8}'),
                        'f' => put(&mut units, '\u{c}'),
                        'v' => put(&mut units, '\u{b}'),
                        '0' if !self.peek().is_some_and(|c| c.is_ascii_digit()) => put(&mut units, '\0'),
                        'x' | 'u' => {
                            let hex = if e == 'u' && self.peek() == Some('{') {
                                self.i += 1;
                                let start = self.i;
                                while self.peek().is_some_and(|c| c != '}') {
                                    self.i += 1;
                                }
                                let h: String = self.s[start..self.i].iter().collect();
                                self.i += 1;
                                h
                            } else {
                                let n = if e == 'x' { 2 } else { 4 };
                                let h: String = self.s[self.i..].iter().take(n).collect();
                                self.i += n;
                                h
                            };
                            let Ok(n) = u32::from_str_radix(&hex, 16) else { return self.fail("hexadecimal digits") };
                            if let Ok(u) = u16::try_from(n) {
                                units.push(u);
                            } else if let Some(c) = char::from_u32(n) {
                                put(&mut units, c);
                            } else {
                                return self.fail("a code point");
                            }
                        }
                        '1'..='9' => return self.fail("an escape allowed in modules"),
                        '\n' => {}
                        c => put(&mut units, c),
                    }
                }
                c => put(&mut units, c),
            }
        }
        String::from_utf16(&units).map_err(|_| "an unpaired surrogate in a string".into())
    }
    fn number(&mut self) -> R<f64> {
        self.ws();
        let start = self.i;
        if self.peek() == Some('-') {
            self.i += 1;
        }
        while self.peek().is_some_and(|c| c.is_ascii_digit() || c == '.' || c == 'e' || c == 'E' || (matches!(c, '+' | '-') && matches!(self.s[self.i - 1], 'e' | 'E'))) {
            self.i += 1;
        }
        let t: String = self.s[start..self.i].iter().collect();
        t.parse().map_err(|_| format!("{t:?} is not a number"))
    }
    fn primary(&mut self) -> R<Js> {
        self.ws();
        match self.peek() {
            Some('"' | '\'') => Ok(Js::Str(self.string()?)),
            Some('0'..='9' | '-' | '.') => Ok(Js::Num(self.number()?)),
            Some('<') => Ok(Js::Jsx(Box::new(self.element()?))),
            Some('(') => {
                self.i += 1;
                let e = self.expr()?;
                self.need(")")?;
                Ok(e)
            }
            Some('{') => {
                self.i += 1;
                let mut props = vec![];
                while !self.eat("}") {
                    self.ws();
                    let key = if matches!(self.peek(), Some('"' | '\'')) { self.string()? } else { self.word()? };
                    self.need(":")?;
                    props.push((key, self.expr()?));
                    if !self.eat(",") {
                        self.need("}")?;
                        break;
                    }
                }
                Ok(Js::Obj(props))
            }
            _ => {
                let w = self.word()?;
                Ok(match w.as_str() {
                    "true" => Js::Bool(true),
                    "false" => Js::Bool(false),
                    "null" => Js::Null,
                    w if RESERVED.contains(&w) => return Err(format!("{w:?} is not an expression")),
                    _ => Js::Ident(w),
                })
            }
        }
    }
    fn expr(&mut self) -> R<Js> {
        let mut e = self.primary()?;
        loop {
            if self.eat("||") {
                e = Js::Or(Box::new(e), Box::new(self.primary()?));
            } else if self.eat("===") {
                e = Js::Same(Box::new(e), Box::new(self.primary()?));
            } else if self.eat("?") {
                let a = self.expr()?;
                self.need(":")?;
                let b = self.expr()?;
                return Ok(Js::Cond(Box::new(e), Box::new(a), Box::new(b)));
            } else {
                return Ok(e);
            }
        }
    }
    fn attr_string(&mut self) -> R<String> {
        let q = self.s[self.i];
        self.i += 1;
        let start = self.i;
        while self.peek().is_some_and(|c| c != q) {
            self.i += 1;
        }
        if self.peek().is_none() {
            return self.fail("the end of an attribute");
        }
        let t: String = self.s[start..self.i].iter().collect();
        self.i += 1;
        Ok(entities(&t))
    }
    fn element(&mut self) -> R<Jx> {
        self.need("<")?;
        self.ws();
        if self.eat(">") {
            let children = self.children()?;
            self.need(">")?;
            return Ok(Jx { name: None, attrs: vec![], children });
        }
        let name = self.tag()?;
        if matches!(self.peek(), Some('.' | ':')) {
            return Err(format!("<{name}… is not a plain element"));
        }
        let mut attrs: Vec<At> = vec![];
        loop {
            if self.eat("/>") {
                return Ok(Jx { name: Some(name), attrs, children: vec![] });
            }
            if self.eat(">") {
                break;
            }
            if self.eat("{") {
                self.need("...")?;
                let e = self.expr()?;
                self.need("}")?;
                attrs.push(At::Spread(e));
                continue;
            }
            if !self.s[self.i - 1].is_whitespace() {
                return self.fail("space before an attribute");
            }
            let key = self.tag()?;
            if attrs.iter().any(|a| matches!(a, At::Attr(k, _) if *k == key)) {
                return Err(format!("attribute {key} is given twice"));
            }
            self.need("=")?;
            self.ws();
            let value = match self.peek() {
                Some('"' | '\'') => Js::Str(self.attr_string()?),
                Some('{') => {
                    self.i += 1;
                    let e = self.expr()?;
                    self.need("}")?;
                    e
                }
                _ => return self.fail("a value"),
            };
            attrs.push(At::Attr(key, value));
        }
        let children = self.children()?;
        let close = self.tag()?;
        if close != name {
            return Err(format!("<{name}> closed by </{close}>"));
        }
        self.need(">")?;
        Ok(Jx { name: Some(name), attrs, children })
    }
    /// Children up to and including `</`
    fn children(&mut self) -> R<Vec<Ch>> {
        let mut out = vec![];
        loop {
            let start = self.i;
            while self.peek().is_some_and(|c| !matches!(c, '<' | '{')) {
                if matches!(self.s[self.i], '>' | '}') {
                    return self.fail("text without an unescaped > or }");
                }
                self.i += 1;
            }
            let t: String = self.s[start..self.i].iter().collect();
            if let Some(t) = jsx_text(&t) {
                out.push(Ch::Text(t));
            }
            match self.peek() {
                None => return self.fail("a closing tag"),
                Some('{') => {
                    self.i += 1;
                    if self.eat("}") {
                        out.push(Ch::Expr(None));
                    } else {
                        let e = self.expr()?;
                        self.need("}")?;
                        out.push(Ch::Expr(Some(e)));
                    }
                }
                _ => {
                    if self.looking("</") {
                        self.i += 2;
                        return Ok(out);
                    }
                    out.push(Ch::El(self.element()?));
                }
            }
        }
    }
    fn ty(&mut self, seen: &mut Vec<String>) -> R<()> {
        loop {
            let name = self.word()?;
            seen.push(name);
            if self.eat("<") {
                loop {
                    self.ty(seen)?;
                    if !self.eat(",") {
                        break;
                    }
                }
                self.need(">")?;
            }
            if !self.eat("&") {
                return Ok(());
            }
        }
    }
    fn param(&mut self, m: &mut Module) -> R<()> {
        self.ws();
        let p = if self.eat("{") {
            let mut names = vec![];
            let mut rest = None;
            while !self.eat("}") {
                if self.eat("...") {
                    rest = Some(self.binding()?);
                    self.need("}")?;
                    break;
                }
                names.push(self.binding()?);
                if !self.eat(",") {
                    self.need("}")?;
                    break;
                }
            }
            Param::Object(names, rest)
        } else {
            Param::Name(self.binding()?)
        };
        m.params.push(p);
        let mut types = vec![];
        if self.eat(":") {
            self.ty(&mut types)?;
        }
        m.types.push(types);
        Ok(())
    }
    fn params(&mut self, m: &mut Module) -> R<()> {
        self.need("(")?;
        while !self.eat(")") {
            self.param(m)?;
            if !self.eat(",") {
                self.need(")")?;
                break;
            }
        }
        Ok(())
    }
    fn import(&mut self) -> R<Import> {
        let mut i = Import::default();
        self.ws();
        if !matches!(self.peek(), Some('"' | '\'')) {
            self.ws();
            if self.peek().is_some_and(|c| c != '{' && c != '*') {
                i.default = Some(self.binding()?);
                if !self.eat(",") {
                    self.need("from")?;
                    i.from = self.string()?;
                    return Ok(i);
                }
            }
            if self.eat("*") {
                self.need("as")?;
                i.namespace = Some(self.binding()?);
            } else {
                self.need("{")?;
                while !self.eat("}") {
                    i.named.push(self.binding()?);
                    if !self.eat(",") {
                        self.need("}")?;
                        break;
                    }
                }
            }
            self.need("from")?;
        }
        i.from = self.string()?;
        Ok(i)
    }
    fn module(&mut self) -> R<Module> {
        let mut m = Module::default();
        loop {
            self.ws();
            if self.peek().is_none() {
                return Ok(m);
            }
            if self.eat("import") {
                let i = self.import()?;
                m.imports.push(i);
            } else if self.eat("interface") {
                let name = self.binding()?;
                let mut props = vec![];
                self.need("{")?;
                while !self.eat("}") {
                    props.push(self.word()?);
                    self.eat("?");
                    self.need(":")?;
                    self.ty(&mut vec![])?;
                    self.eat(";");
                }
                if m.interfaces.insert(name.clone(), props).is_some() {
                    return Err(format!("interface {name} twice"));
                }
            } else if self.eat("function") {
                m.component = self.binding()?;
                self.params(&mut m)?;
                self.need("{")?;
                self.need("return")?;
                m.body = Some(self.expr()?);
                self.eat(";");
                self.need("}")?;
            } else if self.eat("const") {
                let name = self.binding()?;
                self.need("=")?;
                self.ws();
                if self.peek() == Some('(') {
                    if m.body.is_some() {
                        return Err("a second component".into());
                    }
                    m.component = name;
                    self.params(&mut m)?;
                    self.need("=>")?;
                    m.body = Some(self.expr()?);
                } else {
                    let f = self.binding()?;
                    self.need("(")?;
                    let arg = self.binding()?;
                    self.need(")")?;
                    m.wraps.push((name, f, arg));
                }
            } else if self.eat("export") {
                if self.eat("default") {
                    let inner = self.binding()?;
                    m.exports.push(("default".into(), inner));
                } else {
                    self.need("{")?;
                    let inner = self.binding()?;
                    let outer = if self.eat("as") { self.word()? } else { inner.clone() };
                    self.need("}")?;
                    m.exports.push((outer, inner));
                }
            } else {
                return self.fail("a statement");
            }
            self.eat(";");
        }
    }
}

/// Character references, as JSX reads them
fn entities(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(k) = rest.find('&') {
        out.push_str(&rest[..k]);
        rest = &rest[k..];
        let known = rest.find(';').and_then(|e| {
            let name = &rest[1..e];
            let c = match name {
                "amp" => '&',
                "lt" => '<',
                "gt" => '>',
                "quot" => '"',
                "apos" => '\'',
                "nbsp" => '\u{a0}',
                "copy" => '\u{a9}',
                "eacute" => 'é',
                n if n.starts_with("#x") => char::from_u32(u32::from_str_radix(&n[2..], 16).ok()?)?,
                n if n.starts_with('#') => char::from_u32(n[1..].parse().ok()?)?,
                _ => return None,
            };
            Some((c, e + 1))
        });
        match known {
            Some((c, n)) => {
                out.push(c);
                rest = &rest[n..];
            }
            None => {
                out.push('&');
                rest = &rest[1..];
            }
        }
    }
    out.push_str(rest);
    out
}

/// What JSX makes of literal text: lines are trimmed and joined, and blank ones are nothing.
fn jsx_text(s: &str) -> Option<String> {
    let s = s.replace("\r\n", "\n").replace('\r', "\n");
    let lines: Vec<&str> = s.split('\n').collect();
    let last = lines.len() - 1;
    let mut kept: Vec<&str> = vec![];
    for (i, l) in lines.iter().enumerate() {
        let mut l = *l;
        if i > 0 {
            l = l.trim_start_matches([' ', '\t']);
        }
        if i < last {
            l = l.trim_end_matches([' ', '\t']);
        }
        if !l.is_empty() {
            kept.push(l);
        }
    }
    if kept.is_empty() { None } else { Some(entities(&kept.join(" "))) }
}

pub fn module(src: &str) -> R<Module> {
    let s: Vec<char> = src.chars().collect();
    let mut p = P { s: &s, i: 0 };
    let m = p.module()?;
    if m.body.is_none() {
        return Err("no component".into());
    }
    Ok(m)
}

/// A list of `export { a as b } from "./c"`: file, name inside, name outside
pub fn index(src: &str) -> R<Vec<(String, String, String)>> {
    let s: Vec<char> = src.chars().collect();
    let mut p = P { s: &s, i: 0 };
    let mut out: Vec<(String, String, String)> = vec![];
    loop {
        p.ws();
        if p.peek().is_none() {
            return Ok(out);
        }
        p.need("export")?;
        p.need("{")?;
        let inner = p.word()?;
        let outer = if p.eat("as") { p.binding()? } else { inner.clone() };
        p.need("}")?;
        p.need("from")?;
        let file = p.string()?;
        p.eat(";");
        if out.iter().any(|o| o.2 == outer) {
            return Err(format!("{outer} is exported twice"));
        }
        out.push((file, inner, outer));
    }
}
