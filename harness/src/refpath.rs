//! An independent reading of SVG path data: the SVG 2 grammar, the geometry its commands
//! denote, flattening, winding numbers and distances. Shares no code with the repository.

#[derive(Clone, Debug, PartialEq)]
pub struct Cmd {
    /// The command letter, made explicit (a pair following `M` is `L`)
    pub c: char,
    pub a: Vec<f64>,
}

pub fn arity(c: char) -> usize {
    match c.to_ascii_lowercase() {
        'm' | 'l' | 't' => 2,
        'h' | 'v' => 1,
        's' | 'q' => 4,
        'c' => 6,
        'a' => 7,
        _ => 0,
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r' | 0x0c) {
            self.i += 1;
        }
    }
    fn comma_ws(&mut self) {
        self.ws();
        if self.i < self.s.len() && self.s[self.i] == b',' {
            self.i += 1;
            self.ws();
        }
    }
    fn digits(&mut self) -> usize {
        let s = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        self.i - s
    }
    fn number(&mut self) -> Option<f64> {
        let s = self.i;
        if self.i < self.s.len() && matches!(self.s[self.i], b'+' | b'-') {
            self.i += 1;
        }
        let a = self.digits();
        let mut b = 0;
        if self.i < self.s.len() && self.s[self.i] == b'.' {
            self.i += 1;
            b = self.digits();
            if b == 0 && a == 0 {
                self.i = s;
                return None;
            }
        }
        if a + b == 0 {
            self.i = s;
            return None;
        }
        if self.i < self.s.len() && matches!(self.s[self.i], b'e' | b'E') {
            let m = self.i;
            self.i += 1;
            if self.i < self.s.len() && matches!(self.s[self.i], b'+' | b'-') {
                self.i += 1;
            }
            if self.digits() == 0 {
                self.i = m;
            }
        }
        std::str::from_utf8(&self.s[s..self.i]).ok()?.parse().ok()
    }
    fn flag(&mut self) -> Option<f64> {
        match self.s.get(self.i) {
            Some(b'0') => {
                self.i += 1;
                Some(0.0)
            }
            Some(b'1') => {
                self.i += 1;
                Some(1.0)
            }
            _ => None,
        }
    }
    fn args(&mut self, c: char) -> Option<Vec<f64>> {
        let n = arity(c);
        let mut v = Vec::with_capacity(n);
        for k in 0..n {
            if k > 0 {
                self.comma_ws();
            }
            v.push(if n == 7 && (k == 3 || k == 4) { self.flag()? } else { self.number()? });
        }
        Some(v)
    }
}

/// Commands of the longest valid prefix, and whether the whole string was valid.
pub fn parse(s: &str) -> (Vec<Cmd>, bool) {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let mut out: Vec<Cmd> = vec![];
    loop {
        p.ws();
        if p.i >= p.s.len() {
            return (out, true);
        }
        let c = p.s[p.i] as char;
        if !"MmLlHhVvCcSsQqTtAaZz".contains(c) || (out.is_empty() && !matches!(c, 'M' | 'm')) {
            return (out, false);
        }
        p.i += 1;
        if matches!(c, 'z' | 'Z') {
            out.push(Cmd { c: 'Z', a: vec![] });
            continue;
        }
        p.ws();
        let mut cur = c;
        let Some(a) = p.args(cur) else { return (out, false) };
        out.push(Cmd { c: cur, a });
        loop {
            cur = match cur {
                'M' => 'L',
                'm' => 'l',
                x => x,
            };
            let save = p.i;
            p.comma_ws();
            match p.s.get(p.i) {
                Some(b) if b.is_ascii_digit() || matches!(b, b'.' | b'-' | b'+') => {
                    let Some(a) = p.args(cur) else { return (out, false) };
                    out.push(Cmd { c: cur, a });
                }
                _ => {
                    // a comma is not allowed before a command letter
                    let mut q = P { s: p.s, i: save };
                    q.ws();
                    if p.s.get(q.i) == Some(&b',') {
                        return (out, false);
                    }
                    p.i = save;
                    break;
                }
            }
        }
    }
}

pub type Pt = (f64, f64);

#[derive(Clone, Debug)]
pub enum Seg {
    Line(Pt, Pt),
    Cubic(Pt, Pt, Pt, Pt),
    /// centre, radii, rotation, start angle, sweep, start, end
    Arc { c: Pt, r: Pt, phi: f64, t0: f64, dt: f64, p0: Pt, p1: Pt },
}

#[derive(Clone, Debug, Default)]
pub struct Sub {
    pub start: Pt,
    pub segs: Vec<Seg>,
    pub closed: bool,
}

impl Seg {
    pub fn end(&self) -> Pt {
        match self {
            Seg::Line(_, e) | Seg::Cubic(_, _, _, e) => *e,
            Seg::Arc { p1, .. } => *p1,
        }
    }
    pub fn at(&self, t: f64) -> Pt {
        match self {
            Seg::Line(a, b) => (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t),
            Seg::Cubic(a, b, c, d) => {
                let u = 1.0 - t;
                let (w0, w1, w2, w3) = (u * u * u, 3.0 * u * u * t, 3.0 * u * t * t, t * t * t);
                (w0 * a.0 + w1 * b.0 + w2 * c.0 + w3 * d.0, w0 * a.1 + w1 * b.1 + w2 * c.1 + w3 * d.1)
            }
            Seg::Arc { c, r, phi, t0, dt, p0, p1 } => {
                if t <= 0.0 {
                    return *p0;
                }
                if t >= 1.0 {
                    return *p1;
                }
                let a = t0 + dt * t;
                let (s, co) = phi.sin_cos();
                let (x, y) = (r.0 * a.cos(), r.1 * a.sin());
                (c.0 + co * x - s * y, c.1 + s * x + co * y)
            }
        }
    }
}

fn arc(p0: Pt, a: &[f64], p1: Pt) -> Option<Seg> {
    let (mut rx, mut ry) = (a[0].abs(), a[1].abs());
    if p0 == p1 {
        return None;
    }
    if rx == 0.0 || ry == 0.0 {
        return Some(Seg::Line(p0, p1));
    }
    let phi = a[2].to_radians();
    let (s, c) = phi.sin_cos();
    let (dx, dy) = ((p0.0 - p1.0) / 2.0, (p0.1 - p1.1) / 2.0);
    let (x1, y1) = (c * dx + s * dy, -s * dx + c * dy);
    let l = (x1 / rx).powi(2) + (y1 / ry).powi(2);
    if l > 1.0 {
        rx *= l.sqrt();
        ry *= l.sqrt();
    }
    let num = (rx * ry).powi(2) - (rx * y1).powi(2) - (ry * x1).powi(2);
    let den = (rx * y1).powi(2) + (ry * x1).powi(2);
    let mut k = (num / den).max(0.0).sqrt();
    if (a[3] != 0.0) == (a[4] != 0.0) {
        k = -k;
    }
    let (cx1, cy1) = (k * rx * y1 / ry, -k * ry * x1 / rx);
    let (cx, cy) = (c * cx1 - s * cy1 + (p0.0 + p1.0) / 2.0, s * cx1 + c * cy1 + (p0.1 + p1.1) / 2.0);
    let t0 = ((y1 - cy1) / ry).atan2((x1 - cx1) / rx);
    let t1 = ((-y1 - cy1) / ry).atan2((-x1 - cx1) / rx);
    let mut dt = t1 - t0;
    let tau = std::f64::consts::TAU;
    if a[4] != 0.0 {
        while dt < 0.0 {
            dt += tau;
        }
    } else {
        while dt > 0.0 {
            dt -= tau;
        }
    }
    Some(Seg::Arc { c: (cx, cy), r: (rx, ry), phi, t0, dt, p0, p1 })
}

/// The geometry denoted by a command list. A subpath opened after a close without a move starts
/// at the closed subpath's start, as the specification says.
pub fn geometry(cmds: &[Cmd]) -> Vec<Sub> {
    let mut out: Vec<Sub> = vec![];
    let mut cur: Pt = (0.0, 0.0);
    let mut start: Pt = (0.0, 0.0);
    let mut prev_cubic: Option<Pt> = None;
    let mut prev_quad: Option<Pt> = None;
    let mut open = false;
    for cmd in cmds {
        let rel = cmd.c.is_ascii_lowercase();
        let o = if rel { cur } else { (0.0, 0.0) };
        let a = &cmd.a;
        let pt = |i: usize| (o.0 + a[i], o.1 + a[i + 1]);
        let (mut nc, mut nq) = (None, None);
        let c = cmd.c.to_ascii_uppercase();
        if c == 'M' {
            cur = pt(0);
            start = cur;
            out.push(Sub { start, segs: vec![], closed: false });
            open = true;
        } else if c == 'Z' {
            if open {
                out.last_mut().unwrap().closed = true;
            } else {
                out.push(Sub { start, segs: vec![], closed: true });
            }
            cur = start;
            open = false;
        } else {
            if !open {
                out.push(Sub { start, segs: vec![], closed: false });
                open = true;
            }
            let seg = match c {
                'L' => Some(Seg::Line(cur, pt(0))),
                'H' => Some(Seg::Line(cur, (o.0 + a[0], cur.1))),
                'V' => Some(Seg::Line(cur, (cur.0, o.1 + a[0]))),
                'C' => {
                    nc = Some(pt(2));
                    Some(Seg::Cubic(cur, pt(0), pt(2), pt(4)))
                }
                'S' => {
                    let c1 = prev_cubic.map_or(cur, |p| (2.0 * cur.0 - p.0, 2.0 * cur.1 - p.1));
                    nc = Some(pt(0));
                    Some(Seg::Cubic(cur, c1, pt(0), pt(2)))
                }
                'Q' | 'T' => {
                    let (q, e) = if c == 'Q' {
                        (pt(0), pt(2))
                    } else {
                        (prev_quad.map_or(cur, |p| (2.0 * cur.0 - p.0, 2.0 * cur.1 - p.1)), pt(0))
                    };
                    nq = Some(q);
                    let c1 = (cur.0 + 2.0 / 3.0 * (q.0 - cur.0), cur.1 + 2.0 / 3.0 * (q.1 - cur.1));
                    let c2 = (e.0 + 2.0 / 3.0 * (q.0 - e.0), e.1 + 2.0 / 3.0 * (q.1 - e.1));
                    Some(Seg::Cubic(cur, c1, c2, e))
                }
                'A' => arc(cur, a, pt(5)),
                _ => None,
            };
            if let Some(seg) = seg {
                cur = seg.end();
                out.last_mut().unwrap().segs.push(seg);
            }
        }
        prev_cubic = nc;
        prev_quad = nq;
    }
    out
}

#[derive(Clone, Debug)]
pub struct Poly {
    pub pts: Vec<Pt>,
    pub closed: bool,
}

/// Flattens with an error well below `tol` for coordinates of ordinary size.
pub fn flatten(subs: &[Sub], tol: f64) -> Vec<Poly> {
    subs.iter()
        .map(|s| {
            let mut pts = vec![s.start];
            for seg in &s.segs {
                match seg {
                    Seg::Line(_, e) => pts.push(*e),
                    Seg::Cubic(a, b, c, d) => {
                        let m = hyp(a.0 - 2.0 * b.0 + c.0, a.1 - 2.0 * b.1 + c.1).max(hyp(b.0 - 2.0 * c.0 + d.0, b.1 - 2.0 * c.1 + d.1));
                        let n = ((0.75 * m / tol).sqrt().ceil() as usize).clamp(1, 4000);
                        for i in 1..=n {
                            pts.push(seg.at(i as f64 / n as f64));
                        }
                    }
                    Seg::Arc { r, dt, .. } => {
                        let rm = r.0.max(r.1);
                        let step = (8.0 * tol / rm).sqrt().min(0.5);
                        let n = ((dt.abs() / step).ceil() as usize).clamp(1, 8000);
                        for i in 1..=n {
                            pts.push(seg.at(i as f64 / n as f64));
                        }
                    }
                }
            }
            Poly { pts, closed: s.closed }
        })
        .collect()
}

pub fn hyp(x: f64, y: f64) -> f64 {
    (x * x + y * y).sqrt()
}

pub fn winding(polys: &[Poly], p: Pt) -> i32 {
    let mut w = 0;
    for poly in polys {
        let n = poly.pts.len();
        if n < 2 {
            continue;
        }
        for i in 0..n {
            let a = poly.pts[i];
            let b = poly.pts[(i + 1) % n];
            if (a.1 <= p.1) != (b.1 <= p.1) {
                let x = a.0 + (p.1 - a.1) / (b.1 - a.1) * (b.0 - a.0);
                if x > p.0 {
                    w += if b.1 > a.1 { 1 } else { -1 };
                }
            }
        }
    }
    w
}

pub fn seg_dist(p: Pt, a: Pt, b: Pt) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l = dx * dx + dy * dy;
    let t = if l == 0.0 { 0.0 } else { (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l).clamp(0.0, 1.0) };
    hyp(p.0 - a.0 - t * dx, p.1 - a.1 - t * dy)
}

/// Distance from a point to the outline. `fill` also counts the implied closing edge.
pub fn dist(polys: &[Poly], p: Pt, fill: bool) -> f64 {
    let mut best = f64::INFINITY;
    for poly in polys {
        let n = poly.pts.len();
        if n == 1 {
            best = best.min(hyp(p.0 - poly.pts[0].0, p.1 - poly.pts[0].1));
        }
        for i in 0..n.saturating_sub(1) {
            best = best.min(seg_dist(p, poly.pts[i], poly.pts[i + 1]));
        }
        if (fill || poly.closed) && n > 1 {
            best = best.min(seg_dist(p, poly.pts[n - 1], poly.pts[0]));
        }
    }
    best
}

pub fn bounds(polys: &[Poly]) -> Option<(f64, f64, f64, f64)> {
    let mut b: Option<(f64, f64, f64, f64)> = None;
    for p in polys.iter().flat_map(|p| &p.pts) {
        b = Some(b.map_or((p.0, p.1, p.0, p.1), |b| (b.0.min(p.0), b.1.min(p.1), b.2.max(p.0), b.3.max(p.1))));
    }
    b
}
