//! What each kind of attribute value means, and whether writing keeps it.
use crate::doc::*;
use crate::fw::*;
use crate::rendering::optimise;
use crate::values::{self, Tok, number, tokens};
use crate::xml::write;
use oxvg_ast::xmlwriter::Options;
use oxvg_optimiser::Jobs;

/// Elements, attributes and the kind of value they take.
const TABLE: &[(&str, &str, &str)] = &[
    ("text tspan g rect", "font-family", "families"),
    ("text g", "font", "font"),
    ("text g tspan", "font-size", "size"),
    ("text g", "font-size-adjust", "num ci:none"),
    ("text g", "font-stretch", "stretch ci:normal|ultra-condensed|extra-condensed|condensed|semi-condensed|semi-expanded|expanded|extra-expanded|ultra-expanded"),
    ("text g", "font-style", "ci:normal|italic|oblique"),
    ("text g", "font-variant", "ci:normal|small-caps"),
    ("text g", "font-weight", "ci:bolder|lighter|100|900|350"),
    ("text g tspan", "letter-spacing word-spacing", "len ci:normal"),
    ("text g", "text-anchor", "ci:start|middle|end"),
    ("text g", "text-decoration", "decoration"),
    ("text g", "text-rendering", "ci:auto|optimizeSpeed|optimizeLegibility|geometricPrecision"),
    ("text g", "direction", "ci:ltr|rtl"),
    ("text g", "unicode-bidi", "ci:normal|embed|bidi-override|isolate|isolate-override|plaintext"),
    ("text g", "writing-mode", "ci:lr-tb|rl-tb|tb-rl|lr|rl|tb"),
    ("text tspan", "dominant-baseline", "ci:auto|text-bottom|alphabetic|ideographic|middle|central|mathematical|hanging|text-top"),
    ("text tspan", "alignment-baseline", "ci:auto|baseline|before-edge|text-before-edge|middle|central|after-edge|text-after-edge|ideographic|alphabetic|hanging|mathematical"),
    ("text tspan", "baseline-shift", "ci:baseline|sub|super lenpct"),
    ("text tspan", "kerning", "ci:auto len"),
    ("text", "glyph-orientation-horizontal", "angle"),
    ("text", "glyph-orientation-vertical", "angle ci:auto"),
    ("text tspan", "x y dx dy", "lens"),
    ("text tspan", "rotate", "nums"),
    ("text tspan textPath", "textLength", "len"),
    ("text tspan textPath", "lengthAdjust", "kw:spacing|spacingAndGlyphs"),
    ("textPath", "startOffset", "lenpct"),
    ("textPath", "method", "kw:align|stretch"),
    ("textPath", "spacing", "kw:auto|exact"),
    ("textPath", "side", "kw:left|right"),
    ("g rect path", "fill stroke", "paint"),
    ("g rect path", "opacity fill-opacity stroke-opacity", "alpha"),
    ("g rect path", "stroke-width stroke-dashoffset", "lenpct"),
    ("g rect path", "stroke-dasharray", "dash"),
    ("g rect path", "stroke-miterlimit", "num1"),
    ("g rect path", "stroke-linecap", "ci:butt|round|square"),
    ("g rect path", "stroke-linejoin", "ci:miter|round|bevel|arcs|miter-clip"),
    ("g rect path", "paint-order", "order"),
    ("g rect path", "vector-effect", "ci:none|non-scaling-stroke"),
    ("g rect path", "visibility", "ci:visible|hidden|collapse"),
    ("g rect path", "display", "ci:inline|block|none|inline-block|flex"),
    ("svg g image", "overflow", "ci:visible|hidden|scroll|auto"),
    ("g rect path", "pointer-events", "ci:bounding-box|visiblePainted|visibleFill|visibleStroke|visible|painted|fill|stroke|all|none"),
    ("g rect path", "shape-rendering", "ci:auto|optimizeSpeed|crispEdges|geometricPrecision"),
    ("image g", "image-rendering", "ci:auto|optimizeSpeed|optimizeQuality"),
    ("g rect", "color-rendering", "ci:auto|optimizeSpeed|optimizeQuality"),
    ("g rect", "color-interpolation color-interpolation-filters", "ci:auto|sRGB|linearRGB"),
    ("g rect", "fill-rule clip-rule", "ci:nonzero|evenodd"),
    ("g rect", "cursor", "cursor"),
    ("svg", "clip", "clip"),
    ("g rect", "mask", "url ci:none masks"),
    ("g rect", "clip-path filter", "url ci:none"),
    ("path line", "marker-start marker-mid marker-end", "url ci:none"),
    ("g", "enable-background", "ci:accumulate|new background"),
    ("g rect", "transform-origin", "origin"),
    ("g rect", "color", "colour"),
    ("stop", "stop-color", "colour"),
    ("stop", "stop-opacity", "alpha"),
    ("stop", "offset", "num pct"),
    ("feFlood", "flood-color", "colour"),
    ("feFlood", "flood-opacity", "alpha"),
    ("feDiffuseLighting", "lighting-color", "colour"),
    ("linearGradient", "x1 x2 y1 y2", "lenpct"),
    ("radialGradient", "cx cy r", "lenpct"),
    ("radialGradient", "fx fy fr", "len lenpct"),
    ("linearGradient radialGradient", "spreadMethod", "kw:pad|reflect|repeat"),
    ("linearGradient radialGradient", "gradientUnits", "kw:userSpaceOnUse|objectBoundingBox"),
    ("pattern", "patternUnits patternContentUnits", "kw:userSpaceOnUse|objectBoundingBox"),
    ("mask", "maskUnits maskContentUnits", "kw:userSpaceOnUse|objectBoundingBox"),
    ("filter", "filterUnits primitiveUnits", "kw:userSpaceOnUse|objectBoundingBox"),
    ("clipPath", "clipPathUnits", "kw:userSpaceOnUse|objectBoundingBox"),
    ("rect", "rx ry", "lenpct kw:auto"),
    ("rect image svg use", "x y width height", "lenpct"),
    ("svg image marker pattern symbol view", "preserveAspectRatio", "aspect"),
    ("svg marker pattern symbol view", "viewBox", "nums4"),
    ("marker", "markerWidth markerHeight", "len"),
    ("marker", "refX", "len kw:left|center|right"),
    ("marker", "refY", "len kw:top|center|bottom"),
    ("marker", "markerUnits", "kw:userSpaceOnUse|strokeWidth"),
    ("marker", "orient", "angle kw:auto|auto-start-reverse"),
    ("svg", "zoomAndPan", "kw:disable|magnify"),
    ("animate set animateTransform animateMotion", "begin end", "begins"),
    ("animate set animateTransform", "dur", "clock kw:indefinite|media"),
    ("animate set", "min max", "clock kw:media"),
    ("animate set", "repeatDur", "clock kw:indefinite"),
    ("animate", "repeatCount", "num1 kw:indefinite"),
    ("animate", "restart", "kw:always|never|whenNotActive"),
    ("animate", "calcMode", "kw:discrete|linear|paced|spline"),
    ("animate", "additive", "kw:replace|sum"),
    ("animate", "accumulate", "kw:none|sum"),
    ("animate set", "attributeType", "kw:CSS|XML|auto"),
    ("animate set", "fill", "kw:freeze|remove"),
    ("animate", "keyTimes", "semis"),
    ("animateMotion", "keyPoints", "semis"),
    ("animate", "keySplines", "splines"),
    ("animate", "values", "texts"),
    ("animate set", "from to by attributeName", "text"),
    ("animateTransform", "type", "kw:translate|scale|rotate|skewX|skewY"),
    ("animateMotion", "rotate", "angle kw:auto|auto-reverse"),
    ("feTurbulence", "type", "kw:fractalNoise|turbulence"),
    ("feTurbulence", "baseFrequency", "num2"),
    ("feTurbulence", "numOctaves", "int"),
    ("feTurbulence", "seed", "num"),
    ("feTurbulence", "stitchTiles", "kw:stitch|noStitch"),
    ("feColorMatrix", "type", "kw:matrix|saturate|hueRotate|luminanceToAlpha"),
    ("feColorMatrix", "values", "nums"),
    ("feFuncR feFuncA", "type", "kw:identity|table|discrete|linear|gamma"),
    ("feFuncR feFuncA", "tableValues", "nums"),
    ("feFuncR feFuncA", "slope intercept amplitude exponent", "num"),
    ("feConvolveMatrix", "order", "int int2"),
    ("feConvolveMatrix", "kernelMatrix", "nums"),
    ("feConvolveMatrix", "divisor bias", "num"),
    ("feConvolveMatrix", "targetX targetY", "int"),
    ("feConvolveMatrix", "edgeMode", "kw:duplicate|wrap|none"),
    ("feConvolveMatrix", "preserveAlpha", "kw:true|false"),
    ("feComposite", "operator", "kw:over|in|out|atop|xor|lighter|arithmetic"),
    ("feComposite", "k1 k2 k3 k4", "num"),
    ("feMorphology", "operator", "kw:erode|dilate"),
    ("feMorphology", "radius", "num2"),
    ("feGaussianBlur", "stdDeviation", "num2"),
    ("feGaussianBlur feBlend feOffset feComposite", "in", "kw:SourceGraphic|SourceAlpha|BackgroundImage|BackgroundAlpha|FillPaint|StrokePaint|blur1|x-y"),
    ("feBlend feComposite feDisplacementMap", "in2", "kw:SourceGraphic|SourceAlpha|BackgroundImage|BackgroundAlpha|FillPaint|StrokePaint|blur1|x-y"),
    ("feGaussianBlur feBlend", "result", "text"),
    ("feBlend", "mode", "kw:normal|multiply|screen|darken|lighten|overlay|color-dodge|color-burn|hard-light|soft-light|difference|exclusion|hue|saturation|color|luminosity"),
    ("feDisplacementMap", "xChannelSelector yChannelSelector", "kw:R|G|B|A"),
    ("feDisplacementMap", "scale", "num"),
    ("feOffset", "dx dy", "num"),
    ("feDropShadow", "dx dy", "num"),
    ("feDropShadow", "stdDeviation", "num2"),
    ("feDistantLight", "azimuth elevation", "num"),
    ("feSpotLight", "x y z pointsAtX pointsAtY pointsAtZ specularExponent limitingConeAngle", "num"),
    ("feSpecularLighting", "surfaceScale specularConstant specularExponent", "num"),
    ("feSpecularLighting", "kernelUnitLength", "num2"),
    ("feDiffuseLighting", "diffuseConstant", "num"),
    ("filter", "filterRes", "num2"),
    ("a", "rel", "words:nofollow|noopener|noreferrer|author|license|tag|help|next|prev|search"),
    ("a", "target", "kw:_self|_blank|_parent|_top|win-1"),
    ("a", "referrerpolicy", "kw:no-referrer|no-referrer-when-downgrade|same-origin|origin|strict-origin|origin-when-cross-origin|strict-origin-when-cross-origin|unsafe-url"),
    ("a", "hreflang type download", "text"),
    ("a", "ping", "words:https://a.example/x|/p?q=1&r|b.html"),
    ("image script", "crossorigin", "kw:anonymous|use-credentials"),
    ("style", "media", "media"),
    ("g rect svg text", "role", "words:button|img|presentation|graphics-document|group|none|list"),
    ("g rect svg", "tabindex", "int"),
    ("g", "aria-label aria-roledescription aria-valuetext lang", "text"),
    ("g", "aria-hidden aria-expanded aria-selected aria-grabbed", "kw:true|false|undefined"),
    ("g", "aria-checked aria-pressed", "kw:true|false|mixed|undefined"),
    ("g", "aria-atomic aria-busy aria-disabled aria-modal aria-multiline aria-multiselectable aria-readonly aria-required", "kw:true|false"),
    ("g", "aria-live", "kw:off|polite|assertive"),
    ("g", "aria-current", "kw:page|step|location|date|time|true|false"),
    ("g", "aria-haspopup", "kw:true|false|menu|listbox|tree|grid|dialog"),
    ("g", "aria-invalid", "kw:grammar|false|spelling|true"),
    ("g", "aria-orientation", "kw:horizontal|undefined|vertical"),
    ("g", "aria-sort", "kw:ascending|descending|none|other"),
    ("g", "aria-autocomplete", "kw:inline|list|both|none"),
    ("g", "aria-relevant", "words:additions|removals|text|all"),
    ("g", "aria-dropeffect", "words:copy|execute|link|move|none|popup"),
    ("g", "aria-labelledby aria-describedby aria-controls aria-owns aria-flowto", "words:a|b-c|é|x.y"),
    ("g", "aria-activedescendant aria-details aria-errormessage", "kw:a|b-c|x.y"),
    ("g", "aria-level aria-posinset aria-setsize aria-colcount aria-rowcount aria-colindex", "int"),
    ("g", "aria-valuemax aria-valuemin aria-valuenow", "num"),
    ("font", "horiz-adv-x horiz-origin-x", "num"),
    ("font-face", "units-per-em ascent descent cap-height slope", "num"),
    ("font-face", "panose-1", "ints"),
    ("font-face", "bbox", "nums4"),
    ("hkern", "u1 u2 g1 g2", "text"),
    ("glyph", "unicode glyph-name", "text"),
    ("glyph", "orientation", "kw:h|v"),
    ("glyph", "arabic-form", "kw:initial|medial|terminal|isolated"),
    ("color-profile", "rendering-intent", "kw:auto|perceptual|relative-colorimetric|saturation|absolute-colorimetric"),
];

fn ci(rng: &mut Rng, s: &str) -> String {
    match rng.below(6) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        _ => s.into(),
    }
}

fn pick_word(rng: &mut Rng, list: &str) -> String {
    let all: Vec<&str> = list.split('|').collect();
    (*rng.pick(&all)).to_string()
}

fn unit(rng: &mut Rng) -> &'static str {
    *rng.pick(&["", "", "", "px", "em", "ex", "in", "cm", "mm", "pt", "pc"])
}

fn length(rng: &mut Rng) -> String {
    number(rng, 0.0, 60.0).replace("e0", "") + unit(rng)
}

fn sep(rng: &mut Rng) -> &'static str {
    *rng.pick(&[" ", ",", ", ", " , ", "  "])
}

fn clock(rng: &mut Rng) -> String {
    let frac = |rng: &mut Rng| if rng.chance(1, 2) { format!(".{}", 1 + rng.below(999)) } else { String::new() };
    match rng.below(7) {
        0 => format!("{:02}:{:02}:{:02}{}", rng.below(30), rng.below(60), rng.below(60), frac(rng)),
        1 => format!("{:02}:{:02}{}", rng.below(60), rng.below(60), frac(rng)),
        _ => format!("{}{}{}", 1 + rng.below(200), frac(rng), rng.pick(&["s", "ms", "min", "h", ""])),
    }
}

fn begin(rng: &mut Rng) -> String {
    let sign = |rng: &mut Rng, c: String| format!("{}{}", rng.pick(&["+", "-", " + ", " - "]), c);
    let id = |rng: &mut Rng| *rng.pick(&["a", "b1", "anim-2", "x_y"]);
    let offset = |rng: &mut Rng| if rng.chance(1, 2) { let c = clock(rng); sign(rng, c) } else { String::new() };
    match rng.below(8) {
        0 => "indefinite".into(),
        1 => format!("{}.{}{}", id(rng).replace("anim-2", "an"), rng.pick(&["begin", "end"]), offset(rng)),
        2 => format!("{}.{}{}", id(rng).replace("anim-2", "an"), rng.pick(&["click", "mouseover", "focusin", "activate"]), offset(rng)),
        3 => format!("{}{}", rng.pick(&["click", "mouseover", "mousedown"]), offset(rng)),
        4 => format!("{}.repeat({}){}", id(rng).replace("anim-2", "an"), 1 + rng.below(5), offset(rng)),
        5 => format!("accessKey({}){}", rng.pick(&["a", "s", "1"]), offset(rng)),
        _ => {
            let c = clock(rng);
            format!("{}{c}", rng.pick(&["", "", "+", "-"]))
        }
    }
}

fn family(rng: &mut Rng) -> String {
    (*rng.pick(&["Arial", "sans-serif", "Foo Bar", "'MS Hei'", "\"Arial Unicode MS\"", "隶书", "serif", "Code2000", "'A, B'", "monospace", "'sans-serif'", "x-y"])).into()
}

fn one(rng: &mut Rng, kind: &str) -> String {
    if let Some(w) = kind.strip_prefix("kw:") {
        return pick_word(rng, w);
    }
    if let Some(w) = kind.strip_prefix("ci:") {
        let w = if rng.chance(1, 10) { (*rng.pick(&["inherit", "initial", "unset"])).to_string() } else { pick_word(rng, w) };
        return ci(rng, &w);
    }
    if let Some(w) = kind.strip_prefix("words:") {
        let mut all: Vec<&str> = w.split('|').collect();
        rng.shuffle(&mut all);
        all.truncate(1 + rng.below(3));
        return all.join(rng.pick(&[" ", "  "]));
    }
    match kind {
        "num" => number(rng, -9.0, 60.0),
        "num1" => number(rng, 1.0, 9.0),
        "pct" => format!("{}%", number(rng, 0.0, 100.0).replace("e0", "")),
        "alpha" => if rng.chance(1, 4) { format!("{}%", rng.below(101)) } else { number(rng, 0.0, 1.0) },
        "int" => (rng.range(-3, 12)).to_string(),
        "int2" => format!("{}{}{}", 1 + rng.below(5), sep(rng), 1 + rng.below(5)),
        "num2" => {
            let a = number(rng, 0.0, 9.0);
            if rng.chance(1, 2) { a } else { format!("{a}{}{}", sep(rng), number(rng, 0.0, 9.0)) }
        }
        "len" | "size" if kind == "len" || rng.chance(1, 2) => length(rng),
        "size" => {
            let w = pick_word(rng, "medium|small|large|x-small|xx-large|smaller|larger");
            if rng.chance(1, 3) { format!("{}%", 1 + rng.below(300)) } else { ci(rng, &w) }
        }
        "lenpct" => if rng.chance(1, 3) { one(rng, "pct") } else { length(rng) },
        "lens" => (0..1 + rng.below(4)).map(|_| length(rng)).collect::<Vec<_>>().join(sep(rng)),
        "nums" => (0..1 + rng.below(9)).map(|_| number(rng, -9.0, 9.0)).collect::<Vec<_>>().join(sep(rng)),
        "nums4" => (0..4).map(|_| number(rng, 0.5, 90.0)).collect::<Vec<_>>().join(sep(rng)),
        "ints" => (0..10).map(|_| rng.below(12).to_string()).collect::<Vec<_>>().join(" "),
        "dash" => if rng.chance(1, 6) { ci(rng, "none") } else { (0..1 + rng.below(4)).map(|_| one(rng, "lenpct")).collect::<Vec<_>>().join(sep(rng)) },
        "semis" => (0..1 + rng.below(4)).map(|_| number(rng, 0.0, 1.0)).collect::<Vec<_>>().join(rng.pick(&[";", "; ", " ; "])),
        "splines" => (0..1 + rng.below(3)).map(|_| (0..4).map(|_| number(rng, 0.0, 1.0)).collect::<Vec<_>>().join(rng.pick(&[" ", ","]))).collect::<Vec<_>>().join(rng.pick(&[";", "; "])),
        "texts" => (0..1 + rng.below(4)).map(|_| *rng.pick(&["red", "1", "M0 0h1", "0,0", "a b", "#fff", "10 20 30"])).collect::<Vec<_>>().join(rng.pick(&[";", "; "])),
        "text" => (0..1 + rng.below(3)).map(|_| *rng.pick(&["foo", "Bar baz", "a&b", "x<y", "\"q\"", "10", "é☃", "a;b:c", "A,B", "U+20"])).collect(),
        "angle" => format!("{}{}", number(rng, -90.0, 360.0).replace("e0", ""), rng.pick(&["", "", "deg", "rad", "grad"])),
        "families" => (0..1 + rng.below(4)).map(|_| family(rng)).collect::<Vec<_>>().join(rng.pick(&[",", ", ", " , "])),
        "font" => format!("{}{}{} {}", rng.pick(&["", "italic ", "bold ", "italic bold ", "small-caps "]), rng.pick(&["12px", "1.5em", "80%", "large"]), rng.pick(&["", "/1.2", "/20px"]), (0..1 + rng.below(2)).map(|_| family(rng)).collect::<Vec<_>>().join(", ")),
        "decoration" => one(rng, rng.clone().pick(&["ci:none|underline|overline|line-through", "words:underline|overline|line-through"])),
        "paint" => match rng.below(8) {
            0 => ci(rng, "none"),
            1 => ci(rng, "currentColor"),
            2 => "url(#grad)".into(),
            3 => format!("url(#grad) {}", values::rgb(rng)),
            4 => format!("url(#grad) {}", rng.pick(&["none", "currentColor"])),
            5 => (*rng.pick(&["context-fill", "context-stroke"])).into(),
            _ => values::rgb(rng),
        },
        "colour" => if rng.chance(1, 6) { ci(rng, "currentColor") } else { values::rgb(rng) },
        "order" => match rng.below(3) {
            0 => ci(rng, "normal"),
            _ => one(rng, "words:fill|stroke|markers"),
        },
        "url" => format!("url({})", rng.pick(&["#a", "#b-c", "'#a'", "\"#a\"", " #a ", "other.svg#a"])),
        "masks" => format!("url(#a){}url(#b)", rng.pick(&[",", ", "])),
        "cursor" => match rng.below(3) {
            0 => format!("url({}){}, {}", rng.pick(&["a.cur", "'b.png'"]), rng.pick(&["", " 2 3"]), rng.pick(&["auto", "pointer", "move"])),
            1 => format!("url(a.cur), url(b.png), {}", rng.pick(&["auto", "pointer"])),
            _ => {
                let w = pick_word(rng, "auto|pointer|crosshair|move|e-resize|text|wait|help|default");
                ci(rng, &w)
            }
        },
        "clip" => if rng.chance(1, 4) { ci(rng, "auto") } else { format!("rect({})", (0..4).map(|_| if rng.chance(1, 4) { "auto".to_string() } else { format!("{}px", rng.below(30)) }).collect::<Vec<_>>().join(rng.pick(&[", ", ",", " "]))) },
        "background" => format!("new{}", if rng.chance(2, 3) { format!(" {} {} {} {}", number(rng, 0.0, 9.0), number(rng, 0.0, 9.0), number(rng, 1.0, 90.0), number(rng, 1.0, 90.0)) } else { String::new() }),
        "origin" => match rng.below(4) {
            0 => format!("{} {}", rng.pick(&["left", "center", "right"]), rng.pick(&["top", "center", "bottom"])),
            1 => format!("{} {}", rng.pick(&["top", "bottom"]), rng.pick(&["left", "right"])),
            2 => (*rng.pick(&["left", "center", "right", "top", "bottom", "50%"])).into(),
            _ => format!("{}px {}", rng.below(50), rng.pick(&["10%", "3px", "0"])),
        },
        "aspect" => format!("{}{}", rng.pick(&["none", "xMinYMin", "xMidYMin", "xMaxYMin", "xMinYMid", "xMidYMid", "xMaxYMid", "xMinYMax", "xMidYMax", "xMaxYMax"]), rng.pick(&["", " meet", " slice"])),
        "clock" => clock(rng),
        "begins" => (0..1 + rng.below(3)).map(|_| begin(rng)).collect::<Vec<_>>().join(rng.pick(&[";", "; ", " ; "])),
        "media" => (*rng.pick(&["all", "print", "screen and (min-width: 100px)", "(orientation: landscape)", "screen, print", "not all", "(prefers-color-scheme: dark)", "only screen and (max-width: 30em)"])).into(),
        k => panic!("no values of kind {k}"),
    }
}

fn seconds(s: &str) -> Option<f64> {
    let s = s.trim();
    let p: Vec<&str> = s.split(':').collect();
    if p.len() > 1 && p.iter().any(|p| p.len() < 2 || !p.as_bytes()[..2].iter().all(u8::is_ascii_digit)) {
        return None;
    }
    match p[..] {
        [h, m, s] => Some(h.parse::<f64>().ok()? * 3600.0 + m.parse::<f64>().ok()? * 60.0 + s.parse::<f64>().ok()?),
        [m, s] => Some(m.parse::<f64>().ok()? * 60.0 + s.parse::<f64>().ok()?),
        _ => {
            for (u, k) in [("ms", 0.001), ("min", 60.0), ("h", 3600.0), ("s", 1.0)] {
                if let Some(v) = s.strip_suffix(u) {
                    return v.trim().parse::<f64>().ok().map(|v| v * k);
                }
            }
            s.parse().ok()
        }
    }
}

/// An event or base with an offset in seconds.
fn timing(s: &str) -> Vec<Tok> {
    let s = s.trim();
    let split = s.char_indices().skip(1).find(|(i, c)| matches!(c, '+' | '-') && seconds(&s[i + 1..]).is_some()).map(|p| p.0);
    let (base, off) = match split {
        Some(i) => (s[..i].trim(), seconds(&s[i + 1..]).map_or(0.0, |v| if s[i..].starts_with('-') { -v } else { v })),
        None => (s, 0.0),
    };
    let signed = base.strip_prefix('-').map(|b| (b, -1.0)).or_else(|| base.strip_prefix('+').map(|b| (b, 1.0))).unwrap_or((base, 1.0));
    if let Some(v) = seconds(signed.0) {
        return vec![Tok::Num(v * signed.1, "s".into())];
    }
    vec![Tok::Word(base.into()), Tok::Num(off, "s".into())]
}

fn px(t: Tok) -> Tok {
    let Tok::Num(v, u) = &t else { return t };
    let k = match u.as_str() {
        "in" => 96.0,
        "cm" => 96.0 / 2.54,
        "mm" => 96.0 / 25.4,
        "pt" => 96.0 / 72.0,
        "pc" => 16.0,
        _ => return t,
    };
    Tok::Num(v * k, String::new())
}

fn degrees(t: Tok) -> Tok {
    let Tok::Num(v, u) = &t else { return t };
    let k = match u.as_str() {
        "rad" => 180.0 / std::f64::consts::PI,
        "grad" => 0.9,
        "turn" => 360.0,
        "deg" => 1.0,
        _ => return t,
    };
    Tok::Num(v * k, String::new())
}

fn lower(t: Vec<Tok>) -> Vec<Tok> {
    t.into_iter().map(|t| if let Tok::Word(w) = t { Tok::Word(w.to_ascii_lowercase()) } else { t }).collect()
}

/// Words with commas kept.
fn with_commas(s: &str) -> Vec<Tok> {
    let mut out = vec![];
    for (i, p) in values::split_top(s, ',').iter().enumerate() {
        if i > 0 {
            out.push(Tok::Punct(','));
        }
        out.extend(tokens(p));
    }
    out
}

/// Names between commas, quoted or not; generic names differ when quoted.
fn families(s: &str) -> Vec<Tok> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut quote = None;
    let mut quoted = false;
    let mut chars = s.chars();
    let mut flush = |cur: &mut String, quoted: &mut bool| {
        let name = cur.split_whitespace().collect::<Vec<_>>().join(" ");
        let generic = !*quoted && matches!(name.as_str(), "serif" | "sans-serif" | "monospace" | "cursive" | "fantasy");
        out.push(if generic { Tok::Word(name) } else { Tok::Str(name) });
        cur.clear();
        *quoted = false;
    };
    while let Some(c) = chars.next() {
        match (c, quote) {
            ('\\', _) => {
                if let Some(c) = chars.next() {
                    cur.push(c);
                }
            }
            (c, Some(q)) if c == q => quote = None,
            (c, Some(_)) => cur.push(c),
            ('"' | '\'', None) => {
                quote = Some(c);
                quoted = true;
            }
            (',', None) => flush(&mut cur, &mut quoted),
            (c, None) => cur.push(c),
        }
    }
    flush(&mut cur, &mut quoted);
    out
}

fn meaning(kinds: &str, s: &str) -> Vec<Tok> {
    let k = kinds.split(' ').next().unwrap_or("");
    match k {
        "text" => vec![Tok::Str(s.into())],
        "texts" => s.split(';').map(|p| Tok::Str(p.trim().into())).collect(),
        "families" => families(s),
        "stretch" => vec![Tok::Word(match s.to_ascii_lowercase().as_str() {
            "normal" => "100%",
            "ultra-condensed" => "50%",
            "extra-condensed" => "62.5%",
            "condensed" => "75%",
            "semi-condensed" => "87.5%",
            "semi-expanded" => "112.5%",
            "expanded" => "125%",
            "extra-expanded" => "150%",
            "ultra-expanded" => "200%",
            v => v,
        }
        .to_string())],
        "font" => {
            let s = s.replacen("700 ", "bold ", 1);
            let n = [s.find(|c: char| c.is_ascii_digit()), s.find("large")].into_iter().flatten().min().unwrap_or(0);
            let cut = s[n..].find(' ').map_or(s.len(), |i| n + i);
            let mut head = lower(tokens(&s[..cut])).into_iter().map(|t| if t == Tok::Word("bold".into()) { Tok::Num(700.0, String::new()) } else { t }).collect::<Vec<_>>();
            head.extend(families(&s[cut..]));
            head
        }
        "clock" | "begins" => {
            let mut out = vec![];
            for p in s.split(';') {
                out.extend(timing(p));
                out.push(Tok::Punct(';'));
            }
            out
        }
        "alpha" => tokens(s).into_iter().map(|t| if let Tok::Num(v, u) = &t { if u == "%" { Tok::Num(v / 100.0, String::new()) } else { t } } else { t }).collect(),
        "num" if kinds.contains("pct") => meaning("alpha", s),
        "num2" | "int" => {
            let mut t = tokens(s);
            if t.len() == 2 && t[0] == t[1] {
                t.pop();
            }
            t
        }
        "angle" => lower(tokens(s).into_iter().map(degrees).collect()),
        "media" => {
            let mut s = s.replace("(min-width:", "(width>=").replace("(max-width:", "(width<=");
            s.retain(|c| c != ' ');
            vec![Tok::Word(s.to_ascii_lowercase())]
        }
        "cursor" | "url" => lower(with_commas(s)),
        "origin" => {
            let mut t: Vec<String> = s.split_whitespace().map(String::from).collect();
            if t.len() == 1 {
                if matches!(t[0].as_str(), "top" | "bottom") { t.insert(0, "center".into()) } else { t.push("center".into()) }
            }
            if matches!(t[0].as_str(), "top" | "bottom") || matches!(t[1].as_str(), "left" | "right") {
                t.swap(0, 1);
            }
            t.iter()
                .map(|w| match w.as_str() {
                    "left" | "top" | "0" | "0px" | "0%" => Tok::Num(0.0, String::new()),
                    "center" => Tok::Num(50.0, "%".into()),
                    "right" | "bottom" => Tok::Num(100.0, "%".into()),
                    w => tokens(w).pop().unwrap_or(Tok::Punct('?')),
                })
                .collect()
        }
        "aspect" => {
            let mut t: Vec<&str> = s.split_whitespace().collect();
            t.retain(|w| *w != "meet");
            if t[0] == "none" {
                t.truncate(1);
            }
            t.iter().map(|w| Tok::Word((*w).into())).collect()
        }
        // what is left out follows in the usual order
        "order" => {
            let mut t: Vec<String> = s.split_whitespace().map(str::to_ascii_lowercase).filter(|w| w != "normal").collect();
            for w in ["fill", "stroke", "markers"] {
                if !t.iter().any(|x| x == w) {
                    t.push(w.into());
                }
            }
            t.into_iter().map(Tok::Word).collect()
        }
        "decoration" => {
            let mut t: Vec<String> = s.split_whitespace().map(str::to_ascii_lowercase).collect();
            t.sort();
            t.into_iter().map(Tok::Word).collect()
        }
        _ if k.starts_with("kw:") && !kinds.contains(' ') || k.starts_with("words:") => s.split_whitespace().map(|w| Tok::Word(w.into())).collect(),
        "ci:baseline|sub|super" => lower(tokens(s)).into_iter().map(|t| if t == Tok::Word("baseline".into()) { Tok::Num(0.0, String::new()) } else { px(t) }).collect(),
        _ if kinds.contains("ci:") || matches!(k, "paint" | "colour" | "dash" | "clip" | "size") => lower(tokens(s)).into_iter().map(px).collect(),
        _ => tokens(s).into_iter().map(px).collect(),
    }
}

fn is_property(attr: &str) -> bool {
    matches!(
        attr,
        "font-family" | "font" | "font-size" | "font-stretch" | "font-style" | "font-weight" | "text-anchor" | "text-decoration" | "text-rendering" | "direction" | "unicode-bidi" | "dominant-baseline" | "fill" | "stroke" | "opacity" | "fill-opacity" | "stroke-opacity" | "stroke-linecap" | "stroke-linejoin" | "paint-order"
            | "vector-effect" | "visibility" | "display" | "overflow" | "pointer-events" | "shape-rendering" | "image-rendering" | "color-rendering" | "color-interpolation" | "fill-rule" | "clip-rule" | "cursor" | "mask" | "clip-path" | "filter" | "marker-start" | "marker-mid" | "marker-end" | "color" | "stop-color"
            | "stop-opacity" | "flood-color" | "lighting-color" | "stroke-miterlimit"
    )
}

/// P10: each kind of value keeps its meaning.
pub fn kinds(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when a value was compared; distinct by element, attribute and value");
    ctx.explore("values", ctx.scale(200_000, 4_000_000), |rng, i, obs| {
        let (els, attrs, kinds) = if (i as usize) < TABLE.len() { TABLE[i as usize] } else { *rng.pick(TABLE) };
        let words = |s: &'static str| s.split(' ').collect::<Vec<_>>();
        let el = *rng.pick(&words(els));
        let attr = *rng.pick(&words(attrs));
        let kind = *rng.pick(&words(kinds));
        let kind = if kind == "stretch" { words(kinds)[1] } else { kind };
        let value = one(rng, kind);
        let css = is_property(attr) && rng.chance(1, 3);
        let mut e = El::new(el);
        if css {
            e.set("style", format!("{attr}:{value}{}", rng.pick(&["", ";", " !important", ";--a:b"])));
        } else {
            e.set(attr, &*value);
        }
        let mut root = El::new("svg");
        root.set("xmlns", SVG);
        let top = el == "svg";
        if top {
            e.set("xmlns", SVG);
            root = e;
        } else {
            root.push(e);
        }
        let src = Doc::of(root).text();
        let out = if rng.chance(1, 2) { write(&src, Options::default()) } else { optimise(&src, &Jobs::none()) };
        let out = match out {
            Ok(o) => o,
            Err(e) => {
                obs.violation("document refused", &src, e);
                return;
            }
        };
        obs.nontrivial(&format!("{el} {attr} {value}"));
        obs.count(&format!("attribute_{attr}"));
        let got = read_root(&out).ok().and_then(|r| {
            let e = if top { &r } else { r.children().first()? };
            if css { values::declarations(e.attr("style")?).into_iter().find(|d| d.0 == attr).map(|d| d.1) } else { e.attr(attr).map(str::to_string) }
        });
        let Some(got) = got else {
            obs.violation(format!("{attr} lost"), &src, out);
            return;
        };
        let (a, b) = (meaning(kinds, &value), meaning(kinds, &got));
        if !values::same(&values::Canon::Toks(a.clone()), &values::Canon::Toks(b.clone()), if kinds.starts_with("angle") { 1e-5 } else { 2e-6 }) {
            obs.violation(format!("{attr} means something else"), &src, format!("{value:?} became {got:?} ({a:?} became {b:?})"));
        }
    });
}
