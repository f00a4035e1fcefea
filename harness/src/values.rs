//! What attribute values mean: an independent reading, for comparing spellings, and
//! generators of valid values by attribute.
use crate::fw::Rng;
use crate::refpath;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// A number with its unit, `px` counting as none
    Num(f64, String),
    Word(String),
    Colour(u8, u8, u8, f64),
    Str(String),
    Punct(char),
}

#[derive(Clone, Debug)]
pub enum Canon {
    Text(String),
    Toks(Vec<Tok>),
    Matrix([f64; 6]),
    Path(Vec<refpath::Cmd>),
    Words(Vec<String>),
    Style(Vec<(String, Vec<Tok>, bool)>),
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

fn same_toks(a: &[Tok], b: &[Tok], tol: f64) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| match (a, b) {
            (Tok::Num(x, u), Tok::Num(y, v)) => close(*x, *y, tol) && (u == v || *x == 0.0 && *y == 0.0),
            (Tok::Colour(r, g, b, a), Tok::Colour(r2, g2, b2, a2)) => r == r2 && g == g2 && b == b2 && (a - a2).abs() < 0.004,
            _ => a == b,
        })
}

pub fn same(a: &Canon, b: &Canon, tol: f64) -> bool {
    match (a, b) {
        (Canon::Text(a), Canon::Text(b)) => a == b,
        (Canon::Toks(a), Canon::Toks(b)) => same_toks(a, b, tol),
        (Canon::Matrix(a), Canon::Matrix(b)) => a.iter().zip(b).all(|(a, b)| close(*a, *b, tol * 10.0)),
        (Canon::Path(a), Canon::Path(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.c == b.c && a.a.len() == b.a.len() && a.a.iter().zip(&b.a).all(|(x, y)| close(*x, *y, tol)))
        }
        (Canon::Words(a), Canon::Words(b)) => a == b,
        (Canon::Style(a), Canon::Style(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && a.2 == b.2 && same_toks(&a.1, &b.1, tol)),
        _ => false,
    }
}

pub const COLOURS: &[(&str, u32)] = &[
    ("aliceblue", 0xf0f8ff), ("antiquewhite", 0xfaebd7), ("aqua", 0x00ffff), ("aquamarine", 0x7fffd4), ("azure", 0xf0ffff), ("beige", 0xf5f5dc), ("bisque", 0xffe4c4),
    ("black", 0x000000), ("blanchedalmond", 0xffebcd), ("blue", 0x0000ff), ("blueviolet", 0x8a2be2), ("brown", 0xa52a2a), ("burlywood", 0xdeb887), ("cadetblue", 0x5f9ea0),
    ("chartreuse", 0x7fff00), ("chocolate", 0xd2691e), ("coral", 0xff7f50), ("cornflowerblue", 0x6495ed), ("cornsilk", 0xfff8dc), ("crimson", 0xdc143c), ("cyan", 0x00ffff),
    ("darkblue", 0x00008b), ("darkcyan", 0x008b8b), ("darkgoldenrod", 0xb8860b), ("darkgray", 0xa9a9a9), ("darkgreen", 0x006400), ("darkgrey", 0xa9a9a9), ("darkkhaki", 0xbdb76b),
    ("darkmagenta", 0x8b008b), ("darkolivegreen", 0x556b2f), ("darkorange", 0xff8c00), ("darkorchid", 0x9932cc), ("darkred", 0x8b0000), ("darksalmon", 0xe9967a), ("darkseagreen", 0x8fbc8f),
    ("darkslateblue", 0x483d8b), ("darkslategray", 0x2f4f4f), ("darkslategrey", 0x2f4f4f), ("darkturquoise", 0x00ced1), ("darkviolet", 0x9400d3), ("deeppink", 0xff1493), ("deepskyblue", 0x00bfff),
    ("dimgray", 0x696969), ("dimgrey", 0x696969), ("dodgerblue", 0x1e90ff), ("firebrick", 0xb22222), ("floralwhite", 0xfffaf0), ("forestgreen", 0x228b22), ("fuchsia", 0xff00ff),
    ("gainsboro", 0xdcdcdc), ("ghostwhite", 0xf8f8ff), ("gold", 0xffd700), ("goldenrod", 0xdaa520), ("gray", 0x808080), ("green", 0x008000), ("greenyellow", 0xadff2f), ("grey", 0x808080),
    ("honeydew", 0xf0fff0), ("hotpink", 0xff69b4), ("indianred", 0xcd5c5c), ("indigo", 0x4b0082), ("ivory", 0xfffff0), ("khaki", 0xf0e68c), ("lavender", 0xe6e6fa), ("lavenderblush", 0xfff0f5),
    ("lawngreen", 0x7cfc00), ("lemonchiffon", 0xfffacd), ("lightblue", 0xadd8e6), ("lightcoral", 0xf08080), ("lightcyan", 0xe0ffff), ("lightgoldenrodyellow", 0xfafad2), ("lightgray", 0xd3d3d3),
    ("lightgreen", 0x90ee90), ("lightgrey", 0xd3d3d3), ("lightpink", 0xffb6c1), ("lightsalmon", 0xffa07a), ("lightseagreen", 0x20b2aa), ("lightskyblue", 0x87cefa), ("lightslategray", 0x778899),
    ("lightslategrey", 0x778899), ("lightsteelblue", 0xb0c4de), ("lightyellow", 0xffffe0), ("lime", 0x00ff00), ("limegreen", 0x32cd32), ("linen", 0xfaf0e6), ("magenta", 0xff00ff), ("maroon", 0x800000),
    ("mediumaquamarine", 0x66cdaa), ("mediumblue", 0x0000cd), ("mediumorchid", 0xba55d3), ("mediumpurple", 0x9370db), ("mediumseagreen", 0x3cb371), ("mediumslateblue", 0x7b68ee),
    ("mediumspringgreen", 0x00fa9a), ("mediumturquoise", 0x48d1cc), ("mediumvioletred", 0xc71585), ("midnightblue", 0x191970), ("mintcream", 0xf5fffa), ("mistyrose", 0xffe4e1), ("moccasin", 0xffe4b5),
    ("navajowhite", 0xffdead), ("navy", 0x000080), ("oldlace", 0xfdf5e6), ("olive", 0x808000), ("olivedrab", 0x6b8e23), ("orange", 0xffa500), ("orangered", 0xff4500), ("orchid", 0xda70d6),
    ("palegoldenrod", 0xeee8aa), ("palegreen", 0x98fb98), ("paleturquoise", 0xafeeee), ("palevioletred", 0xdb7093), ("papayawhip", 0xffefd5), ("peachpuff", 0xffdab9), ("peru", 0xcd853f), ("pink", 0xffc0cb),
    ("plum", 0xdda0dd), ("powderblue", 0xb0e0e6), ("purple", 0x800080), ("rebeccapurple", 0x663399), ("red", 0xff0000), ("rosybrown", 0xbc8f8f), ("royalblue", 0x4169e1), ("saddlebrown", 0x8b4513),
    ("salmon", 0xfa8072), ("sandybrown", 0xf4a460), ("seagreen", 0x2e8b57), ("seashell", 0xfff5ee), ("sienna", 0xa0522d), ("silver", 0xc0c0c0), ("skyblue", 0x87ceeb), ("slateblue", 0x6a5acd),
    ("slategray", 0x708090), ("slategrey", 0x708090), ("snow", 0xfffafa), ("springgreen", 0x00ff7f), ("steelblue", 0x4682b4), ("tan", 0xd2b48c), ("teal", 0x008080), ("thistle", 0xd8bfd8), ("tomato", 0xff6347),
    ("turquoise", 0x40e0d0), ("violet", 0xee82ee), ("wheat", 0xf5deb3), ("white", 0xffffff), ("whitesmoke", 0xf5f5f5), ("yellow", 0xffff00), ("yellowgreen", 0x9acd32),
];

/// Reads a CSS colour in the forms the generators use.
pub fn colour(s: &str) -> Option<(u8, u8, u8, f64)> {
    let t = s.trim().to_ascii_lowercase();
    if let Some((_, c)) = COLOURS.iter().find(|(n, _)| *n == t) {
        return Some(((c >> 16) as u8, (c >> 8) as u8, *c as u8, 1.0));
    }
    if t == "transparent" {
        return Some((0, 0, 0, 0.0));
    }
    if let Some(h) = t.strip_prefix('#') {
        if !h.chars().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        let d: Vec<u8> = h.chars().map(|c| c.to_digit(16).unwrap() as u8).collect();
        return match d.len() {
            3 => Some((d[0] * 17, d[1] * 17, d[2] * 17, 1.0)),
            4 => Some((d[0] * 17, d[1] * 17, d[2] * 17, f64::from(d[3] * 17) / 255.0)),
            6 => Some((d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5], 1.0)),
            8 => Some((d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5], f64::from(d[6] * 16 + d[7]) / 255.0)),
            _ => None,
        };
    }
    let inner = |p: &str| t.strip_prefix(p).and_then(|r| r.trim_start().strip_prefix('(')).and_then(|r| r.strip_suffix(')')).map(str::to_string);
    let args = |s: String| -> Vec<(f64, bool)> {
        s.split(|c: char| c == ',' || c == '/' || c.is_whitespace())
            .filter(|p| !p.is_empty())
            .filter_map(|p| {
                let pct = p.ends_with('%');
                p.trim_end_matches(['%']).trim_end_matches("deg").parse().ok().map(|v: f64| (v, pct))
            })
            .collect()
    };
    if let Some(a) = inner("rgba").or_else(|| inner("rgb")) {
        let a = args(a);
        if a.len() < 3 {
            return None;
        }
        let ch = |(v, pct): (f64, bool)| if pct { (v * 2.55).round().clamp(0.0, 255.0) as u8 } else { v.round().clamp(0.0, 255.0) as u8 };
        let al = a.get(3).map_or(1.0, |(v, pct)| if *pct { v / 100.0 } else { *v });
        return Some((ch(a[0]), ch(a[1]), ch(a[2]), al));
    }
    if let Some(a) = inner("hsla").or_else(|| inner("hsl")) {
        let a = args(a);
        if a.len() < 3 {
            return None;
        }
        let (h, s, l) = (a[0].0.rem_euclid(360.0), (a[1].0 / 100.0).clamp(0.0, 1.0), (a[2].0 / 100.0).clamp(0.0, 1.0));
        let c = (1.0 - (2.0 * l - 1.0).abs()) * s;
        let x = c * (1.0 - ((h / 60.0) % 2.0 - 1.0).abs());
        let (r, g, b) = match (h / 60.0) as u32 {
            0 => (c, x, 0.0),
            1 => (x, c, 0.0),
            2 => (0.0, c, x),
            3 => (0.0, x, c),
            4 => (x, 0.0, c),
            _ => (c, 0.0, x),
        };
        let m = l - c / 2.0;
        let q = |v: f64| ((v + m) * 255.0).round() as u8;
        let al = a.get(3).map_or(1.0, |(v, pct)| if *pct { v / 100.0 } else { *v });
        return Some((q(r), q(g), q(b), al));
    }
    None
}

/// Splits a value into tokens. Commas and spaces are equivalent separators.
pub fn tokens(s: &str) -> Vec<Tok> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() || ch == ',' {
            i += 1;
        } else if ch.is_ascii_digit() || ((ch == '.' || ch == '-' || ch == '+') && c.get(i + 1).is_some_and(|d| d.is_ascii_digit() || *d == '.')) {
            let st = i;
            i += 1;
            let mut dot = ch == '.';
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.' && !dot) {
                dot |= c[i] == '.';
                i += 1;
            }
            if i < c.len() && (c[i] == 'e' || c[i] == 'E') {
                let mut j = i + 1;
                if j < c.len() && (c[j] == '-' || c[j] == '+') {
                    j += 1;
                }
                if j < c.len() && c[j].is_ascii_digit() {
                    while j < c.len() && c[j].is_ascii_digit() {
                        j += 1;
                    }
                    i = j;
                }
            }
            let n: String = c[st..i].iter().collect();
            let us = i;
            while i < c.len() && (c[i].is_ascii_alphabetic() || c[i] == '%') {
                i += 1;
            }
            let u: String = c[us..i].iter().collect::<String>().to_ascii_lowercase();
            out.push(Tok::Num(n.parse().unwrap_or(f64::NAN), if u == "px" { String::new() } else { u }));
        } else if ch == '#' {
            let st = i;
            i += 1;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '-' || c[i] == '_') {
                i += 1;
            }
            let w: String = c[st..i].iter().collect();
            out.push(colour(&w).map_or(Tok::Word(w), |(r, g, b, a)| Tok::Colour(r, g, b, a)));
        } else if ch == '"' || ch == '\'' {
            let st = i + 1;
            i += 1;
            while i < c.len() && c[i] != ch {
                i += 1;
            }
            out.push(Tok::Str(c[st..i].iter().collect()));
            i += 1;
        } else if ch.is_alphabetic() || ch == '_' || ch == '-' {
            let st = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '-' || c[i] == '_') {
                i += 1;
            }
            let w: String = c[st..i].iter().collect();
            let lower = w.to_ascii_lowercase();
            if c.get(i) == Some(&'(') {
                let mut depth = 0;
                let mut j = i;
                while j < c.len() {
                    match c[j] {
                        '(' => depth += 1,
                        ')' => {
                            depth -= 1;
                            if depth == 0 {
                                break;
                            }
                        }
                        _ => {}
                    }
                    j += 1;
                }
                let inner: String = c[i + 1..j.min(c.len())].iter().collect();
                let all = format!("{lower}({inner})");
                if let Some((r, g, b, a)) = colour(&all) {
                    out.push(Tok::Colour(r, g, b, a));
                    i = j + 1;
                    continue;
                }
                if lower == "url" {
                    out.push(Tok::Word("url(".into()));
                    out.push(Tok::Str(inner.trim().trim_matches(['"', '\'']).to_string()));
                    i = j + 1;
                    continue;
                }
                out.push(Tok::Word(lower + "("));
                i += 1;
                continue;
            }
            out.push(colour(&lower).map_or(Tok::Word(w), |(r, g, b, a)| Tok::Colour(r, g, b, a)));
        } else {
            out.push(Tok::Punct(ch));
            i += 1;
        }
    }
    out
}

pub fn mul(a: [f64; 6], b: [f64; 6]) -> [f64; 6] {
    [
        a[0] * b[0] + a[2] * b[1],
        a[1] * b[0] + a[3] * b[1],
        a[0] * b[2] + a[2] * b[3],
        a[1] * b[2] + a[3] * b[3],
        a[0] * b[4] + a[2] * b[5] + a[4],
        a[1] * b[4] + a[3] * b[5] + a[5],
    ]
}

pub const IDENTITY: [f64; 6] = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];

/// Evaluates an SVG transform list.
pub fn transform(s: &str) -> Option<[f64; 6]> {
    let mut m = IDENTITY;
    let toks = tokens(s);
    let mut i = 0;
    while i < toks.len() {
        let Tok::Word(w) = &toks[i] else { return None };
        let name = w.strip_suffix('(')?;
        i += 1;
        let mut a = vec![];
        while let Some(Tok::Num(n, u)) = toks.get(i) {
            if !u.is_empty() && u != "deg" {
                return None;
            }
            a.push(*n);
            i += 1;
        }
        if toks.get(i) != Some(&Tok::Punct(')')) {
            return None;
        }
        i += 1;
        let g = |k: usize, d: f64| a.get(k).copied().unwrap_or(d);
        let t = match (name.to_ascii_lowercase().as_str(), a.len()) {
            ("matrix", 6) => [a[0], a[1], a[2], a[3], a[4], a[5]],
            ("translate", 1 | 2) => [1.0, 0.0, 0.0, 1.0, a[0], g(1, 0.0)],
            ("scale", 1 | 2) => [a[0], 0.0, 0.0, g(1, a[0]), 0.0, 0.0],
            ("rotate", 1 | 3) => {
                let (s, c) = a[0].to_radians().sin_cos();
                let (x, y) = (g(1, 0.0), g(2, 0.0));
                mul(mul([1.0, 0.0, 0.0, 1.0, x, y], [c, s, -s, c, 0.0, 0.0]), [1.0, 0.0, 0.0, 1.0, -x, -y])
            }
            ("skewx", 1) => [1.0, 0.0, a[0].to_radians().tan(), 1.0, 0.0, 0.0],
            ("skewy", 1) => [1.0, a[0].to_radians().tan(), 0.0, 1.0, 0.0, 0.0],
            _ => return None,
        };
        m = mul(m, t);
    }
    Some(m)
}

/// Splits on `sep` outside of quotes and parentheses.
pub fn split_top(s: &str, sep: char) -> Vec<String> {
    let mut out = vec![String::new()];
    let (mut depth, mut quote) = (0, None);
    for c in s.chars() {
        match (quote, c) {
            (Some(q), _) if q == c => quote = None,
            (Some(_), _) => {}
            (None, '"' | '\'') => quote = Some(c),
            (None, '(') => depth += 1,
            (None, ')') => depth -= 1,
            _ => {}
        }
        if c == sep && depth == 0 && quote.is_none() {
            out.push(String::new());
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out
}

pub fn declarations(s: &str) -> Vec<(String, String, bool)> {
    split_top(s, ';')
        .into_iter()
        .filter_map(|d| {
            let (n, v) = d.split_once(':')?;
            let v = v.trim();
            let lower = v.to_ascii_lowercase();
            let important = lower.ends_with("important") && lower[..lower.len() - 9].trim_end().ends_with('!');
            let v = if important { v[..v.rfind('!').unwrap()].trim().to_string() } else { v.to_string() };
            Some((n.trim().to_ascii_lowercase(), v, important))
        })
        .collect()
}

pub fn canon(attr: &str, value: &str) -> Canon {
    match attr {
        "d" => {
            let (cmds, _) = refpath::parse(value);
            Canon::Path(cmds)
        }
        "transform" | "gradientTransform" | "patternTransform" => transform(value).map_or_else(|| Canon::Text(value.into()), Canon::Matrix),
        "font-weight" => Canon::Text(match value {
            "bold" => "700".into(),
            "normal" => "400".into(),
            v => v.into(),
        }),
        "class" => Canon::Words(value.split_whitespace().map(String::from).collect()),
        "style" => {
            let mut d: Vec<_> = declarations(value).into_iter().map(|(n, v, i)| (n, tokens(&v), i)).collect();
            d.sort_by_key(|d| d.2);
            Canon::Style(d)
        }
        _ => match kind(attr) {
            Kind::Text => Canon::Text(value.into()),
            // keywords of CSS properties are case-insensitive, unlike those of SVG attributes
            Kind::Words(_) if !attr.ends_with("Units") && attr != "spreadMethod" => Canon::Text(value.to_ascii_lowercase()),
            _ => Canon::Toks(tokens(value)),
        },
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Text,
    Number,
    Length,
    Paint,
    Colour,
    Words(&'static [&'static str]),
    Url,
    Transform,
    Numbers(usize),
    Lengths,
    Path,
    Points,
    ViewBox,
    Class,
    Style,
    Dash,
    AspectRatio,
}

pub fn kind(attr: &str) -> Kind {
    match attr {
        "opacity" | "fill-opacity" | "stroke-opacity" | "stop-opacity" | "flood-opacity" | "stroke-miterlimit" | "offset" | "k1" | "k2" | "k3" | "k4" | "pathLength" | "surfaceScale" | "seed" | "scale" => Kind::Number,
        "x" | "y" | "width" | "height" | "cx" | "cy" | "r" | "rx" | "ry" | "x1" | "x2" | "y1" | "y2" | "fx" | "fy" | "stroke-width" | "stroke-dashoffset" | "startOffset" | "textLength" | "markerWidth" | "markerHeight" | "refX" | "refY" | "letter-spacing" | "font-size" => Kind::Length,
        "fill" | "stroke" => Kind::Paint,
        "stop-color" | "flood-color" | "color" | "lighting-color" => Kind::Colour,
        "fill-rule" | "clip-rule" => Kind::Words(&["nonzero", "evenodd"]),
        "stroke-linecap" => Kind::Words(&["butt", "round", "square"]),
        "stroke-linejoin" => Kind::Words(&["miter", "round", "bevel"]),
        "visibility" => Kind::Words(&["visible", "hidden", "collapse"]),
        "display" => Kind::Words(&["inline", "none", "block"]),
        "overflow" => Kind::Words(&["visible", "hidden", "scroll", "auto"]),
        "text-anchor" => Kind::Words(&["start", "middle", "end"]),
        "font-weight" => Kind::Words(&["normal", "bold", "700", "400"]),
        "font-style" => Kind::Words(&["normal", "italic", "oblique"]),
        "shape-rendering" => Kind::Words(&["auto", "crispEdges", "geometricPrecision", "optimizeSpeed"]),
        "gradientUnits" | "patternUnits" | "clipPathUnits" | "maskUnits" | "patternContentUnits" | "maskContentUnits" => Kind::Words(&["userSpaceOnUse", "objectBoundingBox"]),
        "spreadMethod" => Kind::Words(&["pad", "reflect", "repeat"]),
        "pointer-events" => Kind::Words(&["none", "all", "visiblePainted", "stroke", "fill"]),
        "clip-path" | "mask" | "filter" | "marker-start" | "marker-mid" | "marker-end" => Kind::Url,
        "transform" | "gradientTransform" | "patternTransform" => Kind::Transform,
        "points" => Kind::Points,
        "viewBox" => Kind::ViewBox,
        "stroke-dasharray" => Kind::Dash,
        "dx" | "dy" => Kind::Lengths,
        "rotate" => Kind::Numbers(3),
        "stdDeviation" | "baseFrequency" | "radius" => Kind::Numbers(2),
        "d" => Kind::Path,
        "class" => Kind::Class,
        "style" => Kind::Style,
        "preserveAspectRatio" => Kind::AspectRatio,
        _ => Kind::Text,
    }
}

fn case(rng: &mut Rng, s: &str) -> String {
    match rng.below(6) {
        0 => s.to_ascii_uppercase(),
        _ => s.to_string(),
    }
}

pub fn number(rng: &mut Rng, lo: f64, hi: f64) -> String {
    let v = rng.float(lo, hi);
    match rng.below(9) {
        0 => format!("{}", v.round()),
        1 => format!("{:.1}", v),
        2 => format!("{:.2}", v),
        3 => format!("{:.3}", v),
        4 => format!("{:.4}", v),
        5 => {
            let s = format!("{:.2}", v);
            if let Some(r) = s.strip_prefix("0.") { format!(".{r}") } else if let Some(r) = s.strip_prefix("-0.") { format!("-.{r}") } else { s }
        }
        6 if v > 0.0 => format!("+{:.1}", v),
        7 => format!("{}", v.trunc() as i64),
        8 => format!("{:.1}e0", v),
        _ => format!("{}", v.round()),
    }
}

pub fn rgb(rng: &mut Rng) -> String {
    match rng.below(7) {
        0 | 1 => {
            let (n, _) = rng.pick(COLOURS);
            case(rng, n)
        }
        2 => format!("#{:03x}", rng.below(0x1000)),
        3 => {
            let s = format!("#{:06x}", rng.below(0x1000000));
            case(rng, &s).replace("#", "#")
        }
        4 => format!("rgb({},{},{})", rng.below(256), rng.below(256), rng.below(256)),
        5 => format!("rgb({}%, {}%, {}%)", rng.below(6) * 20, rng.below(6) * 20, rng.below(6) * 20),
        _ => {
            let (a, b, c) = (rng.below(16), rng.below(16), rng.below(16));
            format!("#{a:x}{a:x}{b:x}{b:x}{c:x}{c:x}")
        }
    }
}

pub fn transform_list(rng: &mut Rng) -> String {
    let n = 1 + rng.below(3);
    let mut out = vec![];
    for _ in 0..n {
        let sep = *rng.pick(&[",", " ", ", "]);
        let num = |rng: &mut Rng, lo: f64, hi: f64| number(rng, lo, hi);
        let f = match rng.below(8) {
            0 => format!("translate({})", num(rng, -20.0, 20.0)),
            1 => format!("translate({}{sep}{})", num(rng, -20.0, 20.0), num(rng, -20.0, 20.0)),
            2 => format!("scale({})", num(rng, 0.5, 3.0)),
            3 => format!("scale({}{sep}{})", num(rng, 0.5, 3.0), num(rng, -3.0, -0.5)),
            4 => format!("rotate({})", rng.range(-180, 180)),
            5 => format!("rotate({}{sep}{}{sep}{})", rng.range(-180, 180), num(rng, -20.0, 20.0), num(rng, -20.0, 20.0)),
            6 => format!("skew{}({})", rng.pick(&["X", "Y"]), rng.range(-40, 40)),
            _ => {
                let m: Vec<String> = (0..6).map(|k| num(rng, if k == 0 || k == 3 { 0.5 } else { -2.0 }, 2.0)).collect();
                format!("matrix({})", m.join(sep))
            }
        };
        out.push(f);
    }
    out.join(*rng.pick(&[" ", "", ", ", "  "]))
}

/// A valid value for the attribute.
pub fn generate(rng: &mut Rng, attr: &str) -> String {
    match kind(attr) {
        Kind::Text => {
            let words = ["foo", "Bar baz", "a&b", "x<y", "\"q\"", "it's", "10", "é☃", "a;b:c", "#id", "url(#x)", "", " pad ", "100%", "javascript", "\u{a0}nb", "-"];
            let mut s = String::new();
            for _ in 0..1 + rng.below(3) {
                s.push_str(rng.pick(&words));
            }
            s
        }
        Kind::Number => number(rng, 0.0, 1.0),
        Kind::Length => {
            let unit = *rng.pick(&["", "", "", "px", "%", "em", "mm", "pt", "cm", "in", "pc", "ex"]);
            number(rng, 0.0, 60.0).replace("e0", "") + unit
        }
        Kind::Paint => match rng.below(8) {
            0 => "none".into(),
            1 => "currentColor".into(),
            2 => "url(#grad)".into(),
            3 => format!("url(#grad) {}", rgb(rng)),
            _ => rgb(rng),
        },
        Kind::Colour => if rng.chance(1, 8) { "currentColor".into() } else { rgb(rng) },
        Kind::Words(w) => (*rng.pick(w)).to_string(),
        Kind::Url => format!("url({})", rng.pick(&["#a", "#b-c", "'#a'", "\"#a\"", " #a "])),
        Kind::Transform => transform_list(rng),
        Kind::Numbers(n) => (0..1 + rng.below(n)).map(|_| number(rng, 0.0, 9.0)).collect::<Vec<_>>().join(rng.pick(&[" ", ",", " , "])),
        Kind::Lengths => (0..1 + rng.below(3)).map(|_| number(rng, -9.0, 9.0)).collect::<Vec<_>>().join(rng.pick(&[" ", ",", " , "])),
        Kind::Path => {
            let c = crate::paths::drawing_path(rng, 5);
            crate::paths::cmds_text(&c)
        }
        Kind::Points => {
            let n = 2 * (1 + rng.below(5));
            (0..n).map(|_| number(rng, -50.0, 50.0)).collect::<Vec<_>>().join(rng.pick(&[" ", ",", ", "]))
        }
        Kind::ViewBox => format!("{} {} {} {}", number(rng, -20.0, 20.0), number(rng, -20.0, 20.0), number(rng, 10.0, 100.0), number(rng, 10.0, 100.0)),
        Kind::Class => (0..1 + rng.below(3)).map(|_| *rng.pick(&["a", "b", "c-1", "D", "st0", "é"])).collect::<Vec<_>>().join(rng.pick(&[" ", "  "])),
        Kind::Style => {
            let mut props = ["fill", "stroke", "opacity", "stroke-width", "fill-rule", "visibility", "stroke-linecap", "stop-color"];
            rng.shuffle(&mut props);
            (0..1 + rng.below(3)).map(|i| format!("{}{}{}{}", props[i], rng.pick(&[":", ": ", " : "]), css_value(rng, props[i]), if rng.chance(1, 8) { " !important" } else { "" })).collect::<Vec<_>>().join(rng.pick(&[";", "; "]))
        }
        Kind::Dash => if rng.chance(1, 6) { "none".into() } else { (0..1 + rng.below(3)).map(|_| number(rng, 0.5, 9.0)).collect::<Vec<_>>().join(rng.pick(&[" ", ",", ", "])) },
        Kind::AspectRatio => if rng.chance(1, 4) { "none".into() } else { format!("{}{}", rng.pick(&["xMidYMid", "xMinYMax", "xMinYMid", "xMaxYMin"]), rng.pick(&["", " slice"])) },
    }
}

/// A value for a property in CSS, which allows fewer number spellings for some units.
pub fn css_value(rng: &mut Rng, prop: &str) -> String {
    match kind(prop) {
        Kind::Length => format!("{}px", number(rng, 0.5, 20.0).replace("e0", "")),
        Kind::Number => number(rng, 0.0, 1.0),
        _ => generate(rng, prop),
    }
}
