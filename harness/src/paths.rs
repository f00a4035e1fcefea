//! Path data: syntax, optimisation, boolean operations.
use crate::fw::*;
use crate::refpath::{self, Cmd};
use oxvg_parse::Parse as _;
use oxvg_path::{Path, command::Data};
use serde_json::json;

pub fn to_cmds(p: &Path) -> Vec<Cmd> {
    p.0.iter()
        .map(|d| {
            let d = d.as_explicit();
            let c: char = d.id().into();
            let a = match d {
                Data::ClosePath => vec![],
                d => d.args().map(|a| a.iter().copied().collect()).unwrap_or_default(),
            };
            Cmd { c, a }
        })
        .collect()
}

/// A number token together with the value the grammar gives it
fn number_token(rng: &mut Rng) -> String {
    let neg = rng.chance(2, 5);
    let mut body = match rng.below(12) {
        0 => "0".to_string(),
        1 | 2 => rng.range(0, 9).to_string(),
        3 | 4 => rng.range(0, 1000).to_string(),
        5 | 6 => format!("{}.{}", rng.range(0, 99), rng.range(0, 999)),
        7 => format!(".{}", rng.range(0, 9999)),
        8 => format!("0.{:0>5}", rng.range(0, 99999)),
        9 => format!("{}.{}e{}", rng.range(0, 9), rng.range(0, 99), rng.range(-12, 12)),
        10 => format!("{}E{}", rng.range(1, 99), if rng.chance(1, 2) { format!("+{}", rng.range(0, 9)) } else { rng.range(-20, 25).to_string() }),
        _ => format!("{:.prec$}", rng.float(0.0, 500.0), prec = rng.below(9)),
    };
    if rng.chance(1, 12) {
        body = format!("0{body}");
    }
    if body.starts_with("0.") && rng.chance(1, 4) {
        body.remove(0);
    }
    if neg {
        format!("-{body}")
    } else if rng.chance(1, 20) {
        format!("+{body}")
    } else {
        body
    }
}

fn ws(rng: &mut Rng) -> &'static str {
    rng.pick(&[" ", "  ", "\n", "\t", " \n "])
}

/// Whether two tokens can stand next to each other
fn can_abut(prev: &str, next: &str, prev_is_flag: bool) -> bool {
    if prev.is_empty() || prev_is_flag {
        return true;
    }
    match next.as_bytes()[0] {
        b'-' | b'+' => true,
        b'.' => prev.contains('.') || prev.contains(['e', 'E']),
        _ => false,
    }
}

/// Writes random valid path data and the commands it denotes.
pub fn random_path_text(rng: &mut Rng, max_cmds: usize, finite_span: bool) -> (String, Vec<Cmd>) {
    let mut s = String::new();
    let mut cmds: Vec<Cmd> = vec![];
    if rng.chance(1, 6) {
        s.push_str(ws(rng));
    }
    let n = 1 + rng.below(max_cmds);
    let mut last_letter = ' ';
    for i in 0..n {
        let mut c = if i == 0 {
            *rng.pick(&['M', 'm'])
        } else {
            *rng.pick(&['M', 'm', 'L', 'l', 'L', 'l', 'H', 'h', 'V', 'v', 'C', 'c', 'S', 's', 'Q', 'q', 'T', 't', 'A', 'a', 'Z', 'z'])
        };
        // repeat the same letter often, to reach implicit runs
        if i > 0 && rng.chance(1, 3) && last_letter != ' ' {
            c = last_letter;
        }
        last_letter = c;
        if !s.is_empty() && !s.ends_with(char::is_whitespace) && rng.chance(1, 4) {
            s.push_str(ws(rng));
        }
        s.push(c);
        if matches!(c, 'z' | 'Z') {
            cmds.push(Cmd { c: 'Z', a: vec![] });
            continue;
        }
        let groups = if rng.chance(1, 3) { 1 + rng.below(4) } else { 1 };
        let mut prev = String::new();
        let mut prev_flag = false;
        for g in 0..groups {
            let letter = match (c, g) {
                ('M', 1..) => 'L',
                ('m', 1..) => 'l',
                (c, _) => c,
            };
            let mut a = vec![];
            for k in 0..refpath::arity(letter) {
                let flag = refpath::arity(letter) == 7 && (k == 3 || k == 4);
                let tok = if flag {
                    rng.pick(&["0", "1"]).to_string()
                } else if finite_span {
                    small_token(rng)
                } else {
                    number_token(rng)
                };
                if prev.is_empty() {
                    if rng.chance(1, 6) {
                        s.push_str(ws(rng));
                    }
                } else if !(can_abut(&prev, &tok, prev_flag) && rng.chance(2, 3)) {
                    match rng.below(5) {
                        0 => s.push(','),
                        1 => {
                            s.push_str(ws(rng));
                            s.push(',');
                            if rng.chance(1, 2) {
                                s.push_str(ws(rng));
                            }
                        }
                        2 => s.push_str(", "),
                        _ => s.push_str(ws(rng)),
                    }
                }
                s.push_str(&tok);
                a.push(tok.parse::<f64>().unwrap());
                prev = tok;
                prev_flag = flag;
            }
            cmds.push(Cmd { c: letter, a });
        }
    }
    if rng.chance(1, 6) {
        s.push_str(ws(rng));
    }
    (s, cmds)
}

pub fn small_token(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => "0".into(),
        1 => rng.range(-20, 20).to_string(),
        2 => rng.range(-100, 100).to_string(),
        3 => format!("{:.1}", rng.float(-100.0, 100.0)),
        4 => format!("{:.2}", rng.float(-50.0, 50.0)),
        _ => format!("{:.3}", rng.float(-10.0, 10.0)),
    }
}

fn same(a: &[Cmd], b: &[Cmd]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.c == y.c && x.a.len() == y.a.len() && x.a.iter().zip(&y.a).all(|(p, q)| p == q)
        })
}

fn shape_key(cmds: &[Cmd]) -> String {
    cmds.iter().map(|c| c.c).collect()
}

/// P01: the grammar is read as specified and the compact form reads back as the same commands.
pub fn syntax(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when its data has at least two commands; distinct by the text");
    ctx.explore("valid", ctx.scale(400_000, 8_000_000), |rng, _, obs| {
        let (text, want) = random_path_text(rng, 9, false);
        let (reference, ok) = refpath::parse(&text);
        assert!(ok && same(&reference, &want), "reference parser disagrees with the generator on {text:?}");
        let got = match Path::parse_string(&text) {
            Ok(p) => p,
            Err(e) => {
                obs.violation("valid path data rejected", &text, format!("{e:?}"));
                return;
            }
        };
        if want.len() >= 2 {
            obs.nontrivial(&text);
        }
        obs.add("commands_compared", want.len() as u64);
        let got_cmds = to_cmds(&got);
        if !same(&got_cmds, &want) {
            obs.violation("path data read as different commands", &text, format!("read {got_cmds:?} but the grammar says {want:?}"));
            return;
        }
        let written = got.to_string();
        let (back, ok) = refpath::parse(&written);
        if !ok || !same(&back, &want) {
            obs.violation(
                "compact path data denotes different commands",
                &text,
                format!("written as {written:?}, which reads as {back:?} (valid: {ok}) instead of {want:?}"),
            );
            return;
        }
        match Path::parse_string(&written) {
            Ok(p) if same(&to_cmds(&p), &want) => {}
            other => obs.violation("compact path data does not read back", &text, format!("written as {written:?}, read back as {other:?}")),
        }
        obs.sample(|| json!({"text": text, "written": written, "shape": shape_key(&want)}));
    });
}

/// Random path text with coordinates of drawing size, shaped so that the optimiser's rewrites apply:
/// collinear runs, curves that are straight, circular or split, smooth continuations, closing lines.
pub fn drawing_path(rng: &mut Rng, max_cmds: usize) -> Vec<Cmd> {
    let mut out = vec![];
    let mut cur = (rng.range(-50, 50) as f64, rng.range(-50, 50) as f64);
    let mut start = cur;
    let grid = *rng.pick(&[1.0, 1.0, 2.0, 4.0, 0.5, 0.1]);
    let coord = |rng: &mut Rng| -> f64 {
        match rng.below(4) {
            0 => (rng.range(-60, 60) as f64 * grid * 1000.0).round() / 1000.0,
            1 => rng.range(-60, 60) as f64,
            2 => (rng.float(-60.0, 60.0) * 10.0).round() / 10.0,
            _ => (rng.float(-60.0, 60.0) * 1000.0).round() / 1000.0,
        }
    };
    let r3 = |v: f64| (v * 1e4).round() / 1e4;
    let mut seen = vec![cur];
    out.push(Cmd { c: 'M', a: vec![cur.0, cur.1] });
    let n = 1 + rng.below(max_cmds);
    for _ in 0..n {
        let rel = rng.chance(1, 2);
        seen.push(cur);
        // points that coincide with, or mirror, earlier ones take the special cases
        let coincident = rng.chance(1, 3);
        let known = seen.clone();
        let point = |rng: &mut Rng| -> (f64, f64) {
            match rng.below(if coincident { 5 } else { 1 }) {
                1 => cur,
                2 => start,
                3 => *rng.pick(&known),
                4 => {
                    let q = *rng.pick(&known);
                    (r3(2.0 * cur.0 - q.0).clamp(-150.0, 150.0), r3(2.0 * cur.1 - q.1).clamp(-150.0, 150.0))
                }
                _ => (coord(rng), coord(rng)),
            }
        };
        let emit = |out: &mut Vec<Cmd>, c: char, pts: &[(f64, f64)], cur: &mut (f64, f64)| {
            let o = if rel { *cur } else { (0.0, 0.0) };
            let mut a = vec![];
            for p in pts {
                a.push(r3(p.0 - o.0));
                a.push(r3(p.1 - o.1));
            }
            let last = pts[pts.len() - 1];
            out.push(Cmd { c: if rel { c.to_ascii_lowercase() } else { c }, a });
            *cur = last;
        };
        match rng.below(24) {
            0 | 1 | 2 => {
                let p = point(rng);
                emit(&mut out, 'L', &[p], &mut cur);
            }
            3 => {
                // collinear run
                let d = (rng.range(-9, 9) as f64, rng.range(-9, 9) as f64);
                for _ in 0..2 + rng.below(3) {
                    let p = (r3(cur.0 + d.0), r3(cur.1 + d.1));
                    emit(&mut out, 'L', &[p], &mut cur);
                }
            }
            4 => {
                let x = coord(rng);
                out.push(Cmd { c: if rel { 'h' } else { 'H' }, a: vec![if rel { r3(x - cur.0) } else { x }] });
                cur.0 = x;
            }
            5 => {
                let y = coord(rng);
                out.push(Cmd { c: if rel { 'v' } else { 'V' }, a: vec![if rel { r3(y - cur.1) } else { y }] });
                cur.1 = y;
            }
            6 | 7 => {
                let p = [point(rng), point(rng), point(rng)];
                seen.extend(p);
                emit(&mut out, 'C', &p, &mut cur);
            }
            8 => {
                let p = [point(rng), point(rng)];
                seen.extend(p);
                emit(&mut out, 'S', &p, &mut cur);
            }
            9 => {
                let p = [point(rng), point(rng)];
                seen.extend(p);
                emit(&mut out, 'Q', &p, &mut cur);
            }
            10 => {
                let p = [point(rng)];
                emit(&mut out, 'T', &p, &mut cur);
            }
            11 => {
                let mut e = point(rng);
                // whether an arc is left out hangs on its ends being the same number
                while refpath::hyp(e.0 - cur.0, e.1 - cur.1) < 0.1 {
                    e = (coord(rng), coord(rng));
                }
                let rx = rng.range(1, 60) as f64;
                let ry = if rng.chance(1, 2) { rx } else { rng.range(1, 60) as f64 };
                let o = if rel { cur } else { (0.0, 0.0) };
                out.push(Cmd {
                    c: if rel { 'a' } else { 'A' },
                    a: vec![rx, ry, *rng.pick(&[0.0, 0.0, 30.0, -45.0, 90.0]), rng.below(2) as f64, rng.below(2) as f64, r3(e.0 - o.0), r3(e.1 - o.1)],
                });
                cur = e;
            }
            12 => {
                // a quarter or part of a circle as a cubic
                let r = rng.range(2, 40) as f64;
                let a0 = rng.below(8) as f64 * std::f64::consts::FRAC_PI_4;
                let da = *rng.pick(&[1.0, -1.0, 0.5, -0.5]) * std::f64::consts::FRAC_PI_2;
                let k = 4.0 / 3.0 * (da / 4.0).tan() * r;
                let c = (cur.0 - r * a0.cos(), cur.1 - r * a0.sin());
                let reps = 1 + rng.below(3);
                for i in 0..reps {
                    let s = a0 + da * i as f64;
                    let e = s + da;
                    let p0 = (c.0 + r * s.cos(), c.1 + r * s.sin());
                    let p3 = (c.0 + r * e.cos(), c.1 + r * e.sin());
                    let p1 = (p0.0 - k * s.sin(), p0.1 + k * s.cos());
                    let p2 = (p3.0 + k * e.sin(), p3.1 - k * e.cos());
                    emit(&mut out, 'C', &[p1, p2, (r3(p3.0), r3(p3.1))], &mut cur);
                }
            }
            13 => {
                // a straight curve
                let e = (coord(rng), coord(rng));
                let (t, u) = (rng.unit(), rng.unit());
                let f = |t: f64| (cur.0 + (e.0 - cur.0) * t, cur.1 + (e.1 - cur.1) * t);
                let p = [f(t), f(u), e];
                emit(&mut out, 'C', &p, &mut cur);
            }
            14 => {
                // a curve split in two
                let p0 = cur;
                let p = [(coord(rng), coord(rng)), (coord(rng), coord(rng)), (coord(rng), coord(rng))];
                let t = *rng.pick(&[0.5, 0.25, 0.3]);
                let mix = |a: (f64, f64), b: (f64, f64)| (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t);
                let (a, b, c) = (mix(p0, p[0]), mix(p[0], p[1]), mix(p[1], p[2]));
                let (d, e) = (mix(a, b), mix(b, c));
                let m = mix(d, e);
                emit(&mut out, 'C', &[a, d, m], &mut cur);
                emit(&mut out, 'C', &[e, c, p[2]], &mut cur);
            }
            18 => {
                // a curve that returns to where it began
                let p = [point(rng), point(rng), cur];
                emit(&mut out, 'C', &p, &mut cur);
            }
            19 => {
                // curves that continue each other smoothly, written out in full
                let quad = rng.chance(1, 2);
                let mut c = (coord(rng), coord(rng));
                let e = (coord(rng), coord(rng));
                if quad {
                    emit(&mut out, 'Q', &[c, e], &mut cur);
                } else {
                    let b = (coord(rng), coord(rng));
                    emit(&mut out, 'C', &[b, c, e], &mut cur);
                }
                for _ in 0..1 + rng.below(2) {
                    let next = (r3(2.0 * cur.0 - c.0), r3(2.0 * cur.1 - c.1));
                    let e = (coord(rng), coord(rng));
                    if quad != rng.chance(1, 6) {
                        emit(&mut out, 'Q', &[next, e], &mut cur);
                        c = next;
                    } else {
                        c = (coord(rng), coord(rng));
                        emit(&mut out, 'C', &[next, c, e], &mut cur);
                    }
                }
            }
            20 => {
                // consecutive arcs of one circle
                let r = rng.range(2, 40) as f64;
                let q = rng.below(4) as i64;
                let ccw = rng.chance(1, 2);
                let at = |k: i64| [(r, 0.0), (0.0, r), (-r, 0.0), (0.0, -r)][k.rem_euclid(4) as usize];
                let c = (cur.0 - at(q).0, cur.1 - at(q).1);
                let step = 1 + rng.below(3) as i64;
                let mut k = q;
                for _ in 0..1 + rng.below(4) {
                    k += if ccw { -step } else { step };
                    let e = (r3(c.0 + at(k).0), r3(c.1 + at(k).1));
                    let o = if rel { cur } else { (0.0, 0.0) };
                    out.push(Cmd { c: if rel { 'a' } else { 'A' }, a: vec![r, r, 0.0, if step == 3 { 1.0 } else { 0.0 }, f64::from(!ccw as u8), r3(e.0 - o.0), r3(e.1 - o.1)] });
                    cur = e;
                }
            }
            21 => {
                // a line that turns back on itself
                let d = (rng.range(-9, 9) as f64, rng.range(-9, 9) as f64);
                for k in [1.0, -2.0, *rng.pick(&[0.5, 3.0, -1.0])] {
                    let p = (r3(cur.0 + d.0 * k), r3(cur.1 + d.1 * k));
                    emit(&mut out, 'L', &[p], &mut cur);
                }
            }
            22 => {
                // tiny details
                let u = *rng.pick(&[0.0005, 0.002, 0.02, 0.05]);
                for _ in 0..1 + rng.below(4) {
                    let p = (r3(cur.0 + rng.range(-3, 3) as f64 * u), r3(cur.1 + rng.range(-3, 3) as f64 * u));
                    emit(&mut out, 'L', &[p], &mut cur);
                }
            }
            15 => {
                // no-op
                emit(&mut out, 'L', &[cur], &mut cur.clone());
            }
            16 => {
                if rng.chance(1, 2) {
                    emit(&mut out, 'L', &[start], &mut cur);
                }
                out.push(Cmd { c: 'Z', a: vec![] });
                cur = start;
                if rng.chance(4, 5) {
                    let p = (coord(rng), coord(rng));
                    emit(&mut out, 'M', &[p], &mut cur);
                    start = p;
                }
            }
            _ => {
                let p = (coord(rng), coord(rng));
                emit(&mut out, 'M', &[p], &mut cur);
                start = p;
            }
        }
    }
    if rng.chance(1, 3) {
        out.push(Cmd { c: 'Z', a: vec![] });
    }
    out
}

pub fn cmds_text(cmds: &[Cmd]) -> String {
    let mut s = String::new();
    for c in cmds {
        s.push(c.c);
        for (i, a) in c.a.iter().enumerate() {
            if i > 0 {
                s.push(' ');
            }
            s.push_str(&format!("{a}"));
        }
    }
    s
}

pub struct GeoBound {
    pub eps: f64,
}

/// How far an optimised outline may drift: rounding of each relative argument, the documented
/// tolerances, and the conditioning of arcs under a rounded radius.
pub fn bound(a: &[refpath::Sub], b: &[refpath::Sub], precision: i32, positional: f64, angular: f64) -> f64 {
    let n = a.iter().chain(b).map(|s| s.segs.len() + 1).sum::<usize>() as f64;
    let unit = 10f64.powi(-precision);
    let mut len: f64 = 1.0;
    let mut rmax: f64 = 0.0;
    let mut swing: f64 = 0.0;
    for seg in a.iter().chain(b).flat_map(|s| &s.segs) {
        let (p, q) = (seg.at(0.0), seg.end());
        len = len.max(refpath::hyp(p.0 - q.0, p.1 - q.1));
        if let refpath::Seg::Arc { r, .. } = seg {
            let r = r.0.max(r.1);
            rmax = rmax.max(r);
            // the centre turns about with the direction of a short chord
            let chord = refpath::hyp(p.0 - q.0, p.1 - q.1);
            swing = swing.max(2.0 * r * (unit / chord).min(1.0));
        }
    }
    let mut e = n * unit + 3.0 * positional + 2.0 * angular * len;
    if rmax > 0.0 {
        e += (2.0 * rmax * e).sqrt();
    }
    e + swing
}

pub fn outline_gap(from: &[refpath::Poly], to: &[refpath::Poly]) -> (f64, (f64, f64)) {
    let mut worst = (0.0, (0.0, 0.0));
    let size = |p: &[refpath::Poly]| p.iter().map(|p| p.pts.len()).sum::<usize>();
    let stride = 1 + size(from) * size(to) / 1_000_000;
    for poly in from {
        let n = poly.pts.len();
        let edges = if poly.closed { n } else { n.saturating_sub(1) };
        for i in (0..edges.max(1)).step_by(stride) {
            let a = poly.pts[i];
            let b = poly.pts[(i + 1) % n];
            for t in [0.0, 0.5] {
                let p = (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t);
                let d = refpath::dist(to, p, false);
                if d > worst.0 {
                    worst = (d, p);
                }
            }
        }
    }
    worst
}

/// P02
pub fn optimise(ctx: &Ctx) {
    use oxvg_path::geometry::Tolerance;
    use oxvg_path::optimize::Options;
    ctx.rule("a case is non-trivial when the optimised data differs from the data as written back; distinct by input data and options");
    let bits = [
        Options::CloseSegments,
        Options::JoinNodes,
        Options::RemoveEmptySegments,
        Options::RemoveNoopCommands,
        Options::RemoveCloseLine,
        Options::StraightCurves,
        Options::ArcCurves,
        Options::SmartArcRounding,
    ];
    ctx.explore("random", ctx.scale(60_000, 1_500_000), |rng, _, obs| {
        let mut options = Options::empty();
        let mode = rng.below(4);
        for b in bits {
            if mode == 0 && rng.chance(1, 3) || mode == 1 || mode == 2 && rng.chance(3, 4) {
                options |= b;
            }
        }
        let tol = match rng.below(4) {
            0 => Tolerance { positional: 1e-2, angular: 1e-3, precision: 2 },
            1 => Tolerance { positional: 1e-4, angular: 1e-4, precision: 5 },
            _ => Tolerance::default(),
        };
        let cmds = drawing_path(rng, 8);
        let text = cmds_text(&cmds);
        obs.trace(&text);
        let path = Path::parse_string(&text).expect("valid path data");
        let out = path.optimize(options, &tol);
        let out_text = out.to_string();
        let label = || format!("{text} options={:?} precision={}", options, tol.precision);
        if out_text != path.to_string() {
            obs.nontrivial(&(&text, options.bits()));
        }
        let (out_cmds, ok) = refpath::parse(&out_text);
        if !ok || !same(&out_cmds, &to_cmds(&out)) {
            obs.violation("optimised data does not read back", label(), out_text);
            return;
        }
        let g0 = refpath::geometry(&cmds);
        let g1 = refpath::geometry(&out_cmds);
        let eps = bound(&g0, &g1, tol.precision, tol.positional, tol.angular);
        let f0 = refpath::flatten(&g0, 1e-3);
        let f1 = refpath::flatten(&g1, 1e-3);
        let eps = eps + 2e-2;
        if let Some(b) = refpath::bounds(&f0) {
            let (w, h) = (b.2 - b.0, b.3 - b.1);
            for _ in 0..60 {
                let p = (b.0 - 1.0 + rng.unit() * (w + 2.0), b.1 - 1.0 + rng.unit() * (h + 2.0));
                if refpath::dist(&f0, p, true) < eps || refpath::dist(&f1, p, true) < eps {
                    obs.count("points_near_edge");
                    continue;
                }
                obs.count("fill_points");
                let (w0, w1) = (refpath::winding(&f0, p), refpath::winding(&f1, p));
                if (w0 != 0) != (w1 != 0) || (w0 & 1) != (w1 & 1) {
                    obs.violation("optimised path fills a different area", label(), format!("became {out_text:?}: winding at {p:?} was {w0}, is {w1}"));
                    return;
                }
            }
        }
        if !options.intersects(Options::UnsafeStroke) {
            let d0 = f0.clone();
            // a sub-path of no length has no outline, so it may go
            let long = |p: &refpath::Poly| p.pts.iter().any(|q| refpath::hyp(q.0 - p.pts[0].0, q.1 - p.pts[0].1) > eps);
            let keep: Vec<_> = f0.into_iter().filter(long).collect();
            let a = outline_gap(&keep, &f1);
            let b = outline_gap(&f1, &d0);
            obs.count("outlines_compared");
            if a.0 > eps || b.0 > eps {
                obs.violation("optimised path has a different outline", label(), format!("became {out_text:?}: original is {a:?} away from result, result {b:?} from original, allowed {eps}"));
                return;
            }
        }
        obs.sample(|| json!({"path": text, "options": format!("{options:?}"), "result": out_text, "allowed": eps}));
    });
}
