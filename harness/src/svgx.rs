//! Reads an SVG back: a strict little XML parser, and the segments after all transforms.
use crate::turtle::P;

pub struct Element {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Element>,
}

impl Element {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
}

struct Xml<'a> {
    s: &'a str,
    at: usize,
}

type R<T> = Result<T, String>;

impl<'a> Xml<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.at..]
    }
    fn fail<T>(&self, what: &str) -> R<T> {
        let near: String = self.rest().chars().take(40).collect();
        Err(format!("not well-formed: {what} at byte {} ({near:?})", self.at))
    }
    fn skip_ws(&mut self) -> bool {
        let r = self.rest();
        let n = r.len() - r.trim_start_matches([' ', '\t', '\r', '\n']).len();
        self.at += n;
        n > 0
    }
    fn eat(&mut self, t: &str) -> bool {
        let y = self.rest().starts_with(t);
        if y {
            self.at += t.len();
        }
        y
    }
    fn name(&mut self) -> R<String> {
        let r = self.rest();
        let ok = |i: usize, c: char| c.is_alphabetic() || c == '_' || c == ':' || (i > 0 && (c.is_ascii_digit() || c == '-' || c == '.'));
        let n = r.char_indices().find(|(i, c)| !ok(*i, *c)).map_or(r.len(), |(i, _)| i);
        if n == 0 {
            return self.fail("a name is expected");
        }
        self.at += n;
        Ok(r[..n].to_string())
    }
    fn entities(&self, v: &str) -> R<String> {
        let mut o = String::new();
        let mut rest = v;
        while let Some(p) = rest.find('&') {
            o += &rest[..p];
            let Some(e) = rest[p..].find(';') else { return self.fail("an unfinished entity") };
            let name = &rest[p + 1..p + e];
            o.push(match name {
                "lt" => '<',
                "gt" => '>',
                "amp" => '&',
                "quot" => '"',
                "apos" => '\'',
                n if n.starts_with("#x") => match u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32) {
                    Some(c) => c,
                    None => return self.fail("an unknown entity"),
                },
                n if n.starts_with('#') => match n[1..].parse().ok().and_then(char::from_u32) {
                    Some(c) => c,
                    None => return self.fail("an unknown entity"),
                },
                _ => return self.fail("an unknown entity"),
            });
            rest = &rest[p + e + 1..];
        }
        o += rest;
        Ok(o)
    }
    fn element(&mut self, depth: usize) -> R<Element> {
        if depth > 200 {
            return self.fail("too deep");
        }
        if !self.eat("<") {
            return self.fail("an element is expected");
        }
        let mut e = Element { name: self.name()?, attrs: vec![], children: vec![] };
        loop {
            let ws = self.skip_ws();
            if self.eat("/>") {
                return Ok(e);
            }
            if self.eat(">") {
                break;
            }
            if !ws {
                return self.fail("attributes are separated by white space");
            }
            let n = self.name()?;
            self.skip_ws();
            if !self.eat("=") {
                return self.fail("a value is expected");
            }
            self.skip_ws();
            let q = if self.eat("\"") {
                '"'
            } else if self.eat("'") {
                '\''
            } else {
                return self.fail("a quote is expected");
            };
            let Some(end) = self.rest().find(q) else { return self.fail("an unfinished value") };
            let v = &self.rest()[..end];
            if v.contains('<') {
                return self.fail("'<' in a value");
            }
            if v.chars().any(|c| (c as u32) < 0x20 && !"\t\r\n".contains(c)) {
                return self.fail("a control character");
            }
            let v = self.entities(v)?;
            self.at += end + 1;
            if e.attr(&n).is_some() {
                return self.fail("an attribute is given twice");
            }
            e.attrs.push((n, v));
        }
        loop {
            let r = self.rest();
            let Some(p) = r.find('<') else { return self.fail("an element is not closed") };
            self.entities(&r[..p])?;
            if r[..p].contains("]]>") {
                return self.fail("']]>' in text");
            }
            self.at += p;
            if self.eat("<!--") {
                self.comment()?;
                continue;
            }
            if self.eat("</") {
                let n = self.name()?;
                if n != e.name {
                    return self.fail(&format!("</{n}> closes <{}>", e.name));
                }
                self.skip_ws();
                if !self.eat(">") {
                    return self.fail("'>' is expected");
                }
                return Ok(e);
            }
            e.children.push(self.element(depth + 1)?);
        }
    }
    fn comment(&mut self) -> R<()> {
        let Some(p) = self.rest().find("--") else { return self.fail("an unfinished comment") };
        self.at += p;
        if !self.eat("-->") {
            return self.fail("'--' in a comment");
        }
        Ok(())
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.skip_ws();
            if !self.eat("<!--") {
                return Ok(());
            }
            self.comment()?;
        }
    }
}

pub fn xml(text: &str) -> R<Element> {
    let mut x = Xml { s: text, at: 0 };
    if x.eat("<?xml") {
        match x.rest().find("?>") {
            Some(p) => x.at += p + 2,
            None => return x.fail("an unfinished declaration"),
        }
    }
    x.misc()?;
    if x.eat("<!DOCTYPE") {
        match x.rest().find('>') {
            Some(p) => x.at += p + 1,
            None => return x.fail("an unfinished declaration"),
        }
        x.misc()?;
    }
    let e = x.element(0)?;
    x.misc()?;
    if x.at != text.len() {
        return x.fail("text after the end");
    }
    Ok(e)
}

/// [a b c d e f] as in SVG: x' = a x + c y + e, y' = b x + d y + f.
type M = [f64; 6];
const ID: M = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];

fn mul(m: M, n: M) -> M {
    [
        m[0] * n[0] + m[2] * n[1],
        m[1] * n[0] + m[3] * n[1],
        m[0] * n[2] + m[2] * n[3],
        m[1] * n[2] + m[3] * n[3],
        m[0] * n[4] + m[2] * n[5] + m[4],
        m[1] * n[4] + m[3] * n[5] + m[5],
    ]
}

fn apply(m: M, p: P) -> P {
    P { x: m[0] * p.x + m[2] * p.y + m[4], y: m[1] * p.x + m[3] * p.y + m[5] }
}

fn number(t: &str) -> R<f64> {
    // What SVG calls a number: no "inf", no "NaN".
    let ok = !t.is_empty() && t.chars().all(|c| c.is_ascii_digit() || "+-.eE".contains(c));
    match t.parse::<f64>() {
        Ok(v) if ok && v.is_finite() => Ok(v),
        _ => Err(format!("{t:?} is not a finite number")),
    }
}

fn numbers(t: &str) -> R<Vec<f64>> {
    t.split(|c: char| c.is_ascii_whitespace() || c == ',').filter(|t| !t.is_empty()).map(number).collect()
}

fn transform(t: &str) -> R<M> {
    let mut m = ID;
    let mut rest = t.trim_start_matches(|c: char| c.is_ascii_whitespace() || c == ',');
    while !rest.is_empty() {
        let (f, tail) = rest.split_once('(').ok_or(format!("transform {t:?}"))?;
        let (args, tail) = tail.split_once(')').ok_or(format!("transform {t:?}"))?;
        let a = numbers(args)?;
        let n = match (f.trim(), &a[..]) {
            ("translate", [x]) => [1.0, 0.0, 0.0, 1.0, *x, 0.0],
            ("translate", [x, y]) => [1.0, 0.0, 0.0, 1.0, *x, *y],
            ("scale", [x]) => [*x, 0.0, 0.0, *x, 0.0, 0.0],
            ("scale", [x, y]) => [*x, 0.0, 0.0, *y, 0.0, 0.0],
            ("matrix", [a, b, c, d, e, f]) => [*a, *b, *c, *d, *e, *f],
            ("rotate", [r]) => {
                let (s, c) = r.to_radians().sin_cos();
                [c, s, -s, c, 0.0, 0.0]
            }
            _ => return Err(format!("transform {t:?} cannot be read")),
        };
        m = mul(m, n);
        rest = tail.trim_start_matches(|c: char| c.is_ascii_whitespace() || c == ',');
    }
    Ok(m)
}

fn path_data(d: &str) -> R<Vec<(P, P)>> {
    let mut out = vec![];
    let mut tok: Vec<String> = vec![];
    let mut cur = String::new();
    let mut prev = ' ';
    for c in d.chars() {
        let exp = matches!(c, 'e' | 'E') && cur.chars().any(|c| c.is_ascii_digit());
        let sign = matches!(c, '+' | '-') && !matches!(prev, 'e' | 'E');
        if c.is_ascii_whitespace() || c == ',' {
            tok.push(std::mem::take(&mut cur));
        } else if c.is_alphabetic() && !exp && "MmLlHhVvZz".contains(c) {
            tok.push(std::mem::take(&mut cur));
            tok.push(c.to_string());
        } else {
            if sign && !cur.is_empty() {
                tok.push(std::mem::take(&mut cur));
            }
            cur.push(c);
        }
        prev = c;
    }
    tok.push(cur);
    tok.retain(|t| !t.is_empty());
    let mut pen: Option<P> = None;
    let mut start = None;
    let mut cmd = ' ';
    let mut i = 0;
    while i < tok.len() {
        if tok[i].len() == 1 && "MmLlHhVvZz".contains(&tok[i]) {
            cmd = tok[i].chars().next().unwrap();
            i += 1;
            if cmd.to_ascii_uppercase() == 'Z' {
                if let (Some(a), Some(b)) = (pen, start) {
                    if a != b {
                        out.push((a, b));
                    }
                    pen = start;
                }
                continue;
            }
        }
        let k = if "HhVv".contains(cmd) { 1 } else { 2 };
        if cmd == ' ' || i + k > tok.len() {
            return Err(format!("path data {:?} cannot be read", d.chars().take(60).collect::<String>()));
        }
        let a = number(&tok[i])?;
        let b = if k == 2 { number(&tok[i + 1])? } else { 0.0 };
        i += k;
        let o = pen.unwrap_or(P { x: 0.0, y: 0.0 });
        let to = match cmd {
            'M' | 'L' => P { x: a, y: b },
            'm' | 'l' => P { x: o.x + a, y: o.y + b },
            'H' => P { x: a, y: o.y },
            'h' => P { x: o.x + a, y: o.y },
            'V' => P { x: o.x, y: a },
            _ => P { x: o.x, y: o.y + a },
        };
        if cmd.to_ascii_uppercase() == 'M' {
            start = Some(to);
            cmd = if cmd == 'M' { 'L' } else { 'l' };
        } else {
            match pen {
                Some(p) => out.push((p, to)),
                None => return Err("path data starts without a move".into()),
            }
        }
        pen = Some(to);
    }
    Ok(out)
}

pub struct Picture {
    pub width: f64,
    pub height: f64,
    pub segments: Vec<(P, P)>,
    pub paths: usize,
}

fn visit(e: &Element, m: M, pic: &mut Picture) -> R<()> {
    let m = match e.attr("transform") {
        Some(t) => mul(m, transform(t)?),
        None => m,
    };
    if let Some(w) = e.attr("stroke-width") {
        number(w)?;
    }
    let num = |n: &str| e.attr(n).map_or(Ok(0.0), number);
    match e.name.as_str() {
        "path" => {
            pic.paths += 1;
            let d = path_data(e.attr("d").unwrap_or(""))?;
            pic.segments.extend(d.into_iter().map(|(a, b)| (apply(m, a), apply(m, b))));
        }
        "polyline" | "polygon" => {
            let n = numbers(e.attr("points").unwrap_or(""))?;
            let mut ps: Vec<P> = n.chunks_exact(2).map(|c| apply(m, P { x: c[0], y: c[1] })).collect();
            if e.name == "polygon" && ps.len() > 2 {
                ps.push(ps[0]);
            }
            pic.segments.extend(ps.windows(2).map(|w| (w[0], w[1])));
        }
        "line" => {
            let (a, b) = (P { x: num("x1")?, y: num("y1")? }, P { x: num("x2")?, y: num("y2")? });
            pic.segments.push((apply(m, a), apply(m, b)));
        }
        "rect" | "circle" | "ellipse" | "text" | "image" | "use" => return Err(format!("there is a <{}>", e.name)),
        _ => {}
    }
    for c in &e.children {
        visit(c, m, pic)?;
    }
    Ok(())
}

pub fn read(text: &str) -> R<Picture> {
    let root = xml(text)?;
    if root.name != "svg" {
        return Err(format!("the document is a <{}>", root.name));
    }
    if root.attr("xmlns") != Some("http://www.w3.org/2000/svg") {
        return Err(format!("the namespace is {:?}", root.attr("xmlns")));
    }
    let size = |n: &str| -> R<f64> { number(root.attr(n).ok_or(format!("there is no {n}"))?.trim_end_matches("px")) };
    let mut pic = Picture { width: size("width")?, height: size("height")?, segments: vec![], paths: 0 };
    let mut m = ID;
    if let Some(v) = root.attr("viewBox") {
        // Only the plain one that changes nothing.
        let v = numbers(v)?;
        if v != [0.0, 0.0, pic.width, pic.height] {
            m = match v[..] {
                [x, y, w, h] if w > 0.0 && h > 0.0 => {
                    let s = (pic.width / w).min(pic.height / h);
                    mul([s, 0.0, 0.0, s, (pic.width - s * w) / 2.0, (pic.height - s * h) / 2.0], [1.0, 0.0, 0.0, 1.0, -x, -y])
                }
                _ => return Err(format!("viewBox {v:?}")),
            };
        }
    }
    visit(&root, m, &mut pic)?;
    Ok(pic)
}

/// Judges the SVG of a drawing. `extent` are all points of the drawing, whether or not a
/// segment ends there; `slack` is how exactly the drawing itself is known.
pub fn judge(text: &str, width: usize, height: usize, segments: &[(P, P)], extent: &[P], slack: f64) -> Result<(), String> {
    let pic = read(text)?;
    let (w, h) = (width as f64, height as f64);
    if pic.width != w || pic.height != h {
        return Err(format!("its size is {}x{} instead of {w}x{h}", pic.width, pic.height));
    }
    if pic.segments.len() != segments.len() {
        return Err(format!("it has {} segments instead of {}", pic.segments.len(), segments.len()));
    }
    let all = || segments.iter().flat_map(|(a, b)| [*a, *b]).chain(extent.iter().copied());
    let (mut x0, mut x1, mut y0, mut y1) = (f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NEG_INFINITY);
    for p in all() {
        x0 = x0.min(p.x);
        x1 = x1.max(p.x);
        y0 = y0.min(p.y);
        y1 = y1.max(p.y);
    }
    if x0 > x1 {
        return Ok(());
    }
    let (bw, bh) = (x1 - x0, y1 - y0);
    // An extent that is only rounding cannot be told from none.
    let size = |b: f64| b > 8.0 * slack && b > 0.0;
    let mut s = f64::INFINITY;
    if size(bw) {
        s = s.min(w / bw);
    }
    if size(bh) {
        s = s.min(h / bh);
    }
    let free = s.is_infinite();
    if free {
        s = 0.0;
    }
    let (cx, cy) = ((x0 + x1) / 2.0, (y0 + y1) / 2.0);
    let big = x0.abs().max(x1.abs()).max(y0.abs()).max(y1.abs());
    let binding = [(bw, w), (bh, h)].iter().filter(|(b, d)| size(*b) && d / b <= s * 1.0001).map(|(b, _)| *b).fold(f64::INFINITY, f64::min);
    let tol = 1e-9 * (w + h) + s * (4.0 * slack + big * 1e-14) + 4.0 * (w + h) * slack / binding;
    if free {
        // No extent worth speaking of: everything is at the centre, whatever the scale (of
        // rounding-sized extents nothing can be said).
        if slack > 0.0 {
            return Ok(());
        }
        for (i, (a, b)) in pic.segments.iter().enumerate() {
            for p in [a, b] {
                if (p.x - w / 2.0).abs() > 1e-6 * (1.0 + w + big) || (p.y - h / 2.0).abs() > 1e-6 * (1.0 + h + big) {
                    return Err(format!("segment {i} of a drawing without extent is drawn at {p:?} of a {w}x{h} canvas"));
                }
            }
        }
        return Ok(());
    }
    for (i, ((a, b), (ga, gb))) in segments.iter().zip(&pic.segments).enumerate() {
        for (p, g) in [(a, ga), (b, gb)] {
            let want = P { x: w / 2.0 + s * (p.x - cx), y: h / 2.0 - s * (p.y - cy) };
            if (g.x - want.x).abs() > tol || (g.y - want.y).abs() > tol {
                return Err(format!(
                    "segment {i}: the point {p:?} is shown at {g:?} instead of {want:?} of the {w}x{h} canvas (scale {s})"
                ));
            }
        }
    }
    Ok(())
}
