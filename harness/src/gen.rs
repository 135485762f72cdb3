//! Random SVG sources.

use svgdom::*;

use crate::rng::Rng;
use crate::xml::*;

/// A number and its text. Few decimals, small magnitude: within what the value types keep exactly.
pub fn num(r: &mut Rng) -> (f64, String) {
    if r.chance(12) {
        let v = *r.pick(&[0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 90.0, -90.0, 100.0, 180.0, 255.0, 256.0, 360.0, 1024.0, -0.25, 0.1, 65536.0]);
        return (v, format!("{}", v));
    }
    let (n, d): (i64, i64) = match r.below(6) {
        0 => (r.below(10) as i64, 1),
        1 => (r.below(2000) as i64 - 1000, 1),
        2 => (r.below(20_000) as i64 - 10_000, 10),
        3 => (r.below(200_000) as i64 - 100_000, 100),
        4 => (r.below(1000) as i64, 1000),
        _ => (r.below(200_000) as i64 - 100_000, 1),
    };
    let v = n as f64 / d as f64;
    (v, format!("{}", v))
}

pub fn pnum(r: &mut Rng) -> (f64, String) {
    let (v, _) = num(r);
    let v = v.abs();
    (v, format!("{}", v))
}

pub const UNITS: &[(LengthUnit, &str)] = &[
    (LengthUnit::None, ""), (LengthUnit::Em, "em"), (LengthUnit::Ex, "ex"), (LengthUnit::Px, "px"), (LengthUnit::In, "in"),
    (LengthUnit::Cm, "cm"), (LengthUnit::Mm, "mm"), (LengthUnit::Pt, "pt"), (LengthUnit::Pc, "pc"), (LengthUnit::Percent, "%"),
];

pub fn length(r: &mut Rng) -> (Length, String) {
    let (v, t) = num(r);
    let (u, ut) = *r.pick(UNITS);
    (Length::new(v, u), format!("{}{}", t, ut))
}

pub fn color(r: &mut Rng) -> (Color, String) {
    let c = [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8];
    match r.below(5) {
        0 => (Color::new(c[0], c[1], c[2]), format!("#{:02x}{:02x}{:02x}", c[0], c[1], c[2])),
        1 => (Color::new(c[0], c[1], c[2]), format!("#{:02X}{:02X}{:02X}", c[0], c[1], c[2])),
        2 => {
            let h = [c[0] >> 4, c[1] >> 4, c[2] >> 4];
            (Color::new(h[0] * 17, h[1] * 17, h[2] * 17), format!("#{:x}{:x}{:x}", h[0], h[1], h[2]))
        }
        3 => (Color::new(c[0], c[1], c[2]), format!("rgb({}, {}, {})", c[0], c[1], c[2])),
        _ => {
            let n = *r.pick(&[
                ("red", (255, 0, 0)), ("blue", (0, 0, 255)), ("green", (0, 128, 0)), ("black", (0, 0, 0)), ("white", (255, 255, 255)),
                ("gold", (255, 215, 0)), ("navy", (0, 0, 128)), ("orange", (255, 165, 0)), ("tan", (210, 180, 140)),
            ]);
            let v: (u8, u8, u8) = n.1;
            (Color::new(v.0, v.1, v.2), n.0.to_string())
        }
    }
}

pub fn word(r: &mut Rng) -> String {
    const W: &[&str] = &["alpha", "Beta", "x1", "sans-serif", "ünï", "日本", "q", "w-e", "_u", "A", "😀z", "10pt"];
    let n = r.range(1, 3);
    (0..n).map(|_| *r.pick(W)).collect::<Vec<_>>().join(" ")
}

pub fn path(r: &mut Rng) -> (Path, String) {
    let mut segs: Vec<PathSegment> = Vec::new();
    let mut t = String::new();
    let mut seen: Vec<(f64, String)> = Vec::new();
    let echo = *r.pick(&[0, 0, 20, 60]);
    let mut last_text = String::new();
    let count = if r.below(4000) == 0 { r.range(200, 600) } else if r.below(100) == 0 { r.range(20, 90) } else { r.range(1, 6) };
    for i in 0..count {
        let abs = i == 0 || r.chance(50);
        let c = |u: char| if abs { u } else { u.to_ascii_lowercase() };
        let mut nums = Vec::new();
        let mut add = |r: &mut Rng| {
            // The same numbers again and again now and then.
            let (v, s) = if !seen.is_empty() && r.chance(echo) { r.pick(&seen).clone() } else { num(r) };
            seen.push((v, s.clone()));
            nums.push(s);
            v
        };
        // No two closings in a row: the value writer may join them.
        let kind = if i == 0 { 0 } else if matches!(segs.last(), Some(PathSegment::ClosePath { .. })) { r.below(9) } else { r.below(10) };
        let (seg, cmd) = match kind {
            0 => (PathSegment::MoveTo { abs, x: add(r), y: add(r) }, c('M')),
            1 => (PathSegment::LineTo { abs, x: add(r), y: add(r) }, c('L')),
            2 => (PathSegment::HorizontalLineTo { abs, x: add(r) }, c('H')),
            3 => (PathSegment::VerticalLineTo { abs, y: add(r) }, c('V')),
            4 => (PathSegment::CurveTo { abs, x1: add(r), y1: add(r), x2: add(r), y2: add(r), x: add(r), y: add(r) }, c('C')),
            5 => (PathSegment::SmoothCurveTo { abs, x2: add(r), y2: add(r), x: add(r), y: add(r) }, c('S')),
            6 => (PathSegment::Quadratic { abs, x1: add(r), y1: add(r), x: add(r), y: add(r) }, c('Q')),
            7 => (PathSegment::SmoothQuadratic { abs, x: add(r), y: add(r) }, c('T')),
            8 => {
                let (rx, srx) = pnum(r);
                let (ry, sry) = pnum(r);
                let (rot, srot) = num(r);
                let (x, sx) = num(r);
                let (y, sy) = num(r);
                let (la, sw) = (r.chance(50), r.chance(50));
                nums = vec![srx, sry, srot, (la as u8).to_string(), (sw as u8).to_string(), sx, sy];
                (PathSegment::EllipticalArc { abs, rx, ry, x_axis_rotation: rot, large_arc: la, sweep: sw, x, y }, c('A'))
            }
            _ => (PathSegment::ClosePath { abs }, c('Z')),
        };
        segs.push(seg);
        if !t.is_empty() && r.chance(70) {
            t.push(' ');
        }
        last_text = format!("{}{}", cmd, nums.join(if r.chance(70) { " " } else { "," }));
        t.push_str(&last_text);
        if i > 0 && kind != 9 && r.chance(6) {
            // The same segment again.
            segs.push(seg);
            t.push_str(&last_text);
        }
    }
    let _ = last_text;
    (Path(segs), t)
}

/// A transform whose value is exactly known.
pub fn transform(r: &mut Rng) -> (Transform, String) {
    loop {
        let (a, sa) = num(r);
        let (b, sb) = num(r);
        let (ts, t) = match r.below(6) {
            4 => {
                // The parts of a matrix that are left alone by the simple functions.
                let pool = [(0.0, "0"), (1.0, "1"), (-1.0, "-1"), (a, sa.as_str()), (-0.5, "-.5"), (b, sb.as_str())];
                let m: Vec<(f64, &str)> = (0..6).map(|_| *r.pick(&pool)).collect();
                (Transform::new(m[0].0, m[1].0, m[2].0, m[3].0, m[4].0, m[5].0),
                 format!("matrix({})", m.iter().map(|x| x.1.to_string()).collect::<Vec<_>>().join(",")))
            }
            5 => (Transform::new(a, 0.0, 0.0, -a, 0.0, 0.0), format!("scale({} {})", a, -a)),
            0 => (Transform::new(1.0, 0.0, 0.0, 1.0, a, b), format!("translate({} {})", sa, sb)),
            1 => (Transform::new(a, 0.0, 0.0, b, 0.0, 0.0), format!("scale({}, {})", sa, sb)),
            2 => (Transform::new(a, 0.0, 0.0, a, 0.0, 0.0), format!("scale({})", sa)),
            _ => {
                let m: Vec<(f64, String)> = (0..6).map(|_| num(r)).collect();
                (Transform::new(m[0].0, m[1].0, m[2].0, m[3].0, m[4].0, m[5].0),
                 format!("matrix({})", m.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" ")))
            }
        };
        if !ts.is_default() {
            return (ts, t);
        }
    }
}

/// A plain attribute that means the same on every element: name, text, stored value.
pub fn attr(r: &mut Rng) -> (AttributeId, String, AttributeValue) {
    use AttributeId as A;
    match r.below(21) {
        17..=20 => any_attr(r),
        0 => { let (l, t) = length(r); (*r.pick(&[A::Width, A::Height, A::R, A::Cx, A::Cy, A::X1, A::Y2, A::StrokeWidth]), t, l.into()) }
        1 => {
            let (n, t) = num(r);
            (*r.pick(&[A::Opacity, A::FillOpacity, A::StrokeOpacity, A::StopOpacity]), t, AttributeValue::Number(n.max(0.0).min(1.0)))
        }
        2 => { let (c, t) = color(r); (*r.pick(&[A::Stroke, A::Color, A::StopColor, A::FloodColor]), t, c.into()) }
        3 => { let w = word(r); (*r.pick(&[A::FontFamily, A::Name, A::Values, A::Result, A::In, A::Onclick, A::SystemLanguage]), w.clone(), AttributeValue::String(w)) }
        4 => { let (p, t) = path(r); (A::D, t, p.into()) }
        5 => {
            let n = r.range(1, 4);
            let mut v: Vec<((f64, String), (f64, String))> = (0..n).map(|_| (num(r), num(r))).collect();
            if r.chance(25) {
                // Closed, or with a point repeated.
                let p = v[r.below(v.len())].clone();
                v.push(p);
            }
            (A::Points, v.iter().map(|p| format!("{},{}", (p.0).1, (p.1).1)).collect::<Vec<_>>().join(" "),
             AttributeValue::Points(Points(v.iter().map(|p| ((p.0).0, (p.1).0)).collect())))
        }
        6 => { let (ts, t) = transform(r); (*r.pick(&[A::Transform, A::GradientTransform, A::PatternTransform]), t, ts.into()) }
        7 => {
            let (x, sx) = num(r);
            let (y, sy) = num(r);
            let (w, sw) = pnum(r);
            let (h, sh) = pnum(r);
            if w <= 0.0 || h <= 0.0 {
                return (A::ViewBox, "1 2 3 4".into(), AttributeValue::ViewBox(ViewBox::new(1.0, 2.0, 3.0, 4.0)));
            }
            (A::ViewBox, format!("{} {} {} {}", sx, sy, sw, sh), AttributeValue::ViewBox(ViewBox::new(x, y, w, h)))
        }
        8 => {
            let n = r.range(1, 4);
            let v: Vec<(f64, String)> = (0..n).map(|_| num(r)).collect();
            (*r.pick(&[A::StdDeviation, A::BaseFrequency, A::Rotate]), v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" "),
             AttributeValue::NumberList(NumberList(v.iter().map(|x| x.0).collect())))
        }
        9 => {
            let n = r.range(1, 4);
            let v: Vec<(Length, String)> = (0..n).map(|_| length(r)).collect();
            (A::StrokeDasharray, v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "),
             AttributeValue::LengthList(LengthList(v.iter().map(|x| x.0).collect())))
        }
        10 => {
            let (n, t) = num(r);
            let (u, ut) = *r.pick(&[(AngleUnit::Degrees, ""), (AngleUnit::Degrees, "deg"), (AngleUnit::Gradians, "grad"), (AngleUnit::Radians, "rad")]);
            (A::Orient, format!("{}{}", t, ut), AttributeValue::Angle(Angle::new(n, u)))
        }
        11 => {
            let (al, t) = *r.pick(&[(Align::XMinYMin, "xMinYMin"), (Align::XMidYMid, "xMidYMid"), (Align::XMaxYMid, "xMaxYMid"), (Align::XMidYMax, "xMidYMax")]);
            let slice = r.chance(50);
            (A::PreserveAspectRatio, format!("{}{}", t, if slice { " slice" } else { "" }),
             AttributeValue::AspectRatio(AspectRatio { defer: false, align: al, slice }))
        }
        12 => (*r.pick(&[A::Stroke, A::ClipPath, A::Mask, A::Filter, A::MarkerStart, A::Display]), "none".into(), AttributeValue::None),
        13 => (*r.pick(&[A::Stroke, A::FontWeight, A::StrokeWidth, A::Visibility, A::Opacity]), "inherit".into(), AttributeValue::Inherit),
        14 => (*r.pick(&[A::Stroke, A::StopColor, A::FloodColor]), "currentColor".into(), AttributeValue::CurrentColor),
        15 => {
            let w = *r.pick(&["#", "#1", "a&b", "<x>", "\"q\"", "'q'", "a;b", "é", "x > y", "&amp;", "url(#zz)", "a\nb", "x\t y", "p\rq", "x\u{a0}\ny", "a  b", "&&", "&lt;&", "<<&>>"]);
            let w = if r.chance(60) { w.to_string() } else { specials(r) };
            (*r.pick(&[A::Result, A::Onclick, A::FontFamily, A::Values]), w.clone(), AttributeValue::String(w))
        }
        _ => { let w = r.pick(&["middle", "start", "end"]).to_string(); (A::TextAnchor, w.clone(), AttributeValue::String(w)) }
    }
}

/// What CSS does not take as part of a value.
fn specials_in(t: &str) -> bool {
    let b = t.as_bytes();
    t.contains("--") || (0..b.len()).any(|i| b[i] == b'%'
        && (i == 0 || !b[i - 1].is_ascii_digit() || b.get(i + 1).map_or(false, |c| !b" ,\t\n".contains(c))))
}

/// A string of characters that need care in XML.
fn specials(r: &mut Rng) -> String {
    const P: &[&str] = &["&", "<", ">", "\"", "'", "a", ";", "#", "&amp;", "&lt", "&#10;", "amp;", "é", "]]>", "<!--", "-->", "--", "%", "\\", "/", "="];
    let mut parts: Vec<&str> = (0..r.range(1, 7)).map(|_| *r.pick(P)).collect();
    if r.chance(30) {
        // White space, not at the ends.
        for _ in 0..r.range(1, 3) {
            if parts.len() > 1 {
                let at = r.range(1, parts.len() - 1);
                parts.insert(at, *r.pick(&["\n", "\r", "\t", "\r\n", "\n\r", " "]));
            }
        }
    }
    let mut s = parts.concat();
    if r.below(60) == 0 {
        // Far behind, or far ahead of, plain ones.
        let fill = r.pick(&["x", "ab ", "é"]).repeat(r.range(50, 500));
        let at = if r.chance(70) { 0 } else { s.len() };
        s.insert_str(at, fill.trim());
    }
    s
}

/// A valid value for any attribute whose meaning does not depend on the element or on other parts of the document.
pub fn any_attr(r: &mut Rng) -> (AttributeId, String, AttributeValue) {
    use crate::props::values::{kind, value, Kind};
    loop {
        let (name, id) = *r.pick(crate::names::ATTRIBUTES);
        if ["id", "class", "style", "xmlns", "xlink", "space", "lang", "base", "title", "accumulate", "marker"].contains(&name) {
            continue;
        }
        let k = kind(name);
        if [Kind::Href, Kind::Unicode, Kind::TextLen, Kind::Transform, Kind::Path, Kind::Fill].contains(&k) {
            continue;
        }
        let mut o = crate::obs::Obs::default();
        if let (t, Some(v), _) = value(r, k, "g", &mut o) {
            // The value types write whole numbers as 32-bit integers.
            if t.split(|c: char| !c.is_ascii_digit()).any(|d| d.len() > 9) {
                continue;
            }
            return (id, t, v);
        }
    }
}

/// Usually between `lo` and `hi`, now and then much more.
pub fn size(r: &mut Rng, lo: usize, hi: usize) -> usize {
    if r.below(150) == 0 { r.range(hi * 3, hi * 8) } else { r.range(lo, hi) }
}

pub fn source_name(id: AttributeId) -> &'static str {
    match id {
        AttributeId::Href => "xlink:href",
        AttributeId::Space => "xml:space",
        id => id.as_str(),
    }
}

pub const SHAPES: &[&str] = &[
    "g", "rect", "path", "use", "linearGradient", "stop", "circle", "defs", "clipPath", "mask", "filter", "pattern",
    "image", "line", "marker", "symbol", "polygon", "a", "svg",
];

/// Any SVG element, usually one of the common ones. No style element and none with text content.
pub fn tag(r: &mut Rng) -> &'static str {
    if r.chance(60) {
        return *r.pick_pal(SHAPES);
    }
    loop {
        let n = r.pick_pal(crate::names::ELEMENTS).0;
        if !["style", "text", "tspan", "tref", "textPath", "altGlyph"].contains(&n) {
            return n;
        }
        if r.chance(50) {
            return *r.pick(SHAPES);
        }
    }
}

pub const ANIMATIONS: &[&str] = &["set", "animate", "animateColor", "animateMotion", "animateTransform"];

pub const LINK_SRC: &[&str] = &[
    "fill", "stroke", "clip-path", "mask", "filter", "marker-start", "marker-mid", "marker-end", "xlink:href",
];

pub fn link_text(r: &mut Rng, attr: &str, id: &str) -> (String, Option<PaintFallback>) {
    if attr == "xlink:href" {
        return (format!("#{}", id), None);
    }
    if attr == "fill" || attr == "stroke" {
        let (fb, t) = match r.below(5) {
            0 => (Some(PaintFallback::None), " none".to_string()),
            1 => (Some(PaintFallback::CurrentColor), " currentColor".to_string()),
            2 => {
                let (c, t) = color(r);
                (Some(PaintFallback::Color(c)), format!(" {}", t))
            }
            _ => (None, String::new()),
        };
        return (format!("url(#{}){}", id, t), fb);
    }
    (format!("url(#{})", id), None)
}

/// A tree with ids, plain attributes and links (valid, dangling and circular).
pub fn linked_doc(r: &mut Rng, n: usize) -> Vec<X> {
    let mut flat: Vec<E> = Vec::new();
    for i in 0..n {
        let mut e = E::svg(if i == 0 { "svg" } else { tag(r) });
        if r.chance(75) {
            let id = if r.chance(8) { r.below(n) } else { i };
            e.attr("id", &format!("i{}", id));
        }
        for _ in 0..r.below(3) {
            let (a, t, _) = attr(r);
            if !e.has(ANs::None, a.as_str()) {
                e.attr(source_name(a), &t);
            }
        }
        for _ in 0..r.below(3) {
            let a = *r.pick_pal(LINK_SRC);
            if a == "fill" && ANIMATIONS.contains(&e.name.as_str()) {
                continue;
            }
            let local = if a == "xlink:href" { "href" } else { a };
            if e.attrs.iter().all(|x| x.name != local) {
                let id = format!("i{}", r.below(n + 1));
                let (t, _) = link_text(r, a, &id);
                e.attr(a, &t);
            }
        }
        flat.push(e);
    }
    nest(r, flat)
}

/// Hangs the elements under each other; the first one is the document element.
pub fn nest(r: &mut Rng, mut flat: Vec<E>) -> Vec<X> {
    while flat.len() > 1 {
        let e = flat.pop().unwrap();
        let p = if r.chance(60) { flat.len() - 1 } else { r.below(flat.len()) };
        flat[p].kids.insert(0, X::E(e));
    }
    vec![X::E(flat.pop().unwrap())]
}

pub fn options(r: &mut Rng) -> WriteOptions {
    fn indent(r: &mut Rng) -> Indent {
        match r.below(6) {
            0 => Indent::None,
            1 => Indent::Tabs,
            2 => Indent::Spaces(0),
            3 => Indent::Spaces(1),
            4 => Indent::Spaces(4),
            _ => Indent::Spaces(r.below(9) as u8),
        }
    }
    WriteOptions {
        use_single_quote: r.chance(50),
        indent: indent(r),
        attributes_indent: if r.chance(50) { Indent::None } else { indent(r) },
        values: value_options(r),
    }
}

pub fn value_options(r: &mut Rng) -> ValueWriteOptions {
    ValueWriteOptions {
        trim_hex_colors: r.chance(50),
        remove_leading_zero: r.chance(50),
        use_compact_path_notation: r.chance(50),
        join_arc_to_flags: r.chance(50),
        remove_duplicated_path_commands: r.chance(50),
        use_implicit_lineto_commands: r.chance(50),
        simplify_transform_matrices: r.chance(50),
        list_separator: *r.pick(&[ListSeparator::Space, ListSeparator::Comma, ListSeparator::CommaSpace]),
    }
}

/// Words for texts. No ampersand.
pub fn text_word(r: &mut Rng) -> &'static str {
    *r.pick(&["a", "bc", "é", "日本", "x<y", "😀", "0", "d-e", "'", "\"", "\u{a0}", "ж>", "--", "lorem", "]]", "<", "#1", "]]>", "𠀀", "\u{10fffd}", "\u{200b}", "\u{e000}", "\u{feff}"])
}

fn some_space(r: &mut Rng) -> &'static str {
    *r.pick(&[" ", " ", "  ", "\n", "\t", "\n    ", ""])
}

fn text_nest(r: &mut Rng, e: &mut E, depth: usize) {
    if r.chance(25) {
        e.attr("xml:space", *r.pick(&["preserve", "preserve", "default"]));
    }
    let n = r.range(0, 4);
    let mut last = false;
    for _ in 0..n {
        match r.below(8) {
            0..=4 if !last => {
                let mut t = String::from(some_space(r));
                let words = if r.below(400) == 0 { r.range(100, 2500) } else { r.range(0, 3) };
                for _ in 0..words {
                    t.push_str(text_word(r));
                    t.push_str(some_space(r));
                }
                if !t.is_empty() {
                    e.kids.push(X::T(t));
                    last = true;
                }
            }
            5 => {
                e.kids.push(X::C(" c ".into()));
                last = false;
            }
            _ => {
                if depth < 3 || r.chance(12) && depth < 12 {
                    let mut k = E::svg(*r.pick(&["tspan", "tspan", "tspan", "tref", "textPath", "a", "text"]));
                    if r.chance(40) {
                        let (a, t, _) = attr(r);
                        k.attr(source_name(a), &t);
                    }
                    text_nest(r, &mut k, depth + 1);
                    e.kids.push(X::E(k));
                    last = false;
                }
            }
        }
    }
}

pub fn declaration(r: &mut Rng, n: usize) -> (String, String) {
    if r.chance(30) {
        let a = *r.pick(&["fill", "stroke", "clip-path", "mask", "filter", "marker-start"]);
        let id = format!("i{}", r.below(n + 1));
        return (a.to_string(), link_text(r, a, &id).0);
    }
    loop {
        let (a, t, _) = attr(r);
        if t.trim().is_empty() || specials_in(&t) || t.chars().any(|c| "\"'<>&;:/{}()#=\\".contains(c) || !c.is_ascii()) || !crate::props::values::css_number(&t) {
            continue;
        }
        return (a.as_str().to_string(), t);
    }
}

fn sheet(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        let sel = match r.below(7) {
            0 => "*".to_string(),
            1 => format!(".c{}", r.below(4)),
            2 => format!("#i{}", r.below(n)),
            3 => tag(r).to_string(),
            4 => format!("g > {}", tag(r)),
            5 => format!("svg .c{}", r.below(4)),
            _ => format!("{}:first-child", tag(r)),
        };
        let mut d = String::new();
        for _ in 0..r.range(1, 3) {
            let (a, v) = declaration(r, n);
            d.push_str(&format!("{}:{};", a, v));
        }
        s.push_str(&format!("{} {{ {} }}\n", sel, d));
    }
    s
}

/// A document with everything in it: links, style sheets, style attributes, texts, comments, foreign content.
/// No ampersands in texts and no whitespace references in values, so that it can make a round trip.
pub fn rich_doc(r: &mut Rng, n: usize) -> Vec<X> {
    let mut top = linked_doc(r, n);
    fn deco(r: &mut Rng, e: &mut E, n: usize, level: usize) {
        for k in e.kids.iter_mut() {
            if let X::E(c) = k {
                deco(r, c, n, level + 1);
            }
        }
        if r.chance(20) {
            e.attr("class", &format!("c{}", r.below(4)));
        }
        if r.chance(20) {
            let (a, v) = declaration(r, n);
            let (b, w) = declaration(r, n);
            e.attr("style", &format!("{}:{}; {}:{}{}", a, v, b, w, *r.pick(&["", "", ";", " ; ", ";;"])));
        }
        if r.chance(4) && !e.has(ANs::None, "unicode") {
            let w: String = (0..r.range(1, 3)).map(|_| *r.pick(&["a", " ", "é", "&", "\"", "😀", "\n", "<", "&#", "&#x61;", "#", "&lt;", "𠀀", "\u{10fffd}", "\u{e000}", "'"])).collect();
            e.attr("unicode", &w);
        }
        if r.chance(5) {
            e.attrs.push(A { ns: ANs::Foreign(0), name: "fill".into(), value: "x".into() });
        }
        if r.chance(5) {
            e.attr(*r.pick(&["xml:lang", "xml:base"]), "en");
        }
        if e.name == "a" {
            return;
        }
        for _ in 0..r.below(3) {
            if !r.chance(40) {
                continue;
            }
            let x = match r.below(12) {
                0 => X::C(r.pick(&["c", " a - b ", "<g/>", "&lt;", "é", "", " ", "\n", " a\n b ", ">", "- x", "]]>", "<![CDATA[", "&"]).to_string()),
                1 => {
                    let mut f = E::svg("foo");
                    f.ns = *r.pick(&[Ns::Null, Ns::Foreign(0), Ns::Foreign(2)]);
                    f.kids.push(X::E(E::svg("rect")));
                    X::E(f)
                }
                2 => X::Pi("pi".into(), "x='1'".into()),
                3 => {
                    let mut s = E::svg("style");
                    if r.chance(30) {
                        s.attr("type", *r.pick(&["text/css", "text/xsl"]));
                    }
                    s.kids.push(X::T(sheet(r, n)));
                    X::E(s)
                }
                4 | 5 => {
                    let mut t = E::svg(*r.pick(&["title", "desc"]));
                    t.kids.push(X::T(format!("{}{}{}{}x{}", some_space(r), text_word(r), some_space(r), text_word(r), some_space(r))));
                    X::E(t)
                }
                6 => X::T(r.pick(&[" ", "\n\n", "\t "]).to_string()),
                _ => {
                    let mut t = E::svg("text");
                    if r.chance(30) {
                        let (a, v, _) = attr(r);
                        t.attr(source_name(a), &v);
                    }
                    text_nest(r, &mut t, 0);
                    X::E(t)
                }
            };
            let at = r.below(e.kids.len() + 1);
            e.kids.insert(at, x);
        }
        let _ = level;
    }
    if let Some(X::E(e)) = top.first_mut() {
        deco(r, e, n, 0);
    }
    // Two texts may have come together: that would be one text in the source.
    fn split(e: &mut E) {
        let mut out: Vec<X> = Vec::new();
        for mut k in e.kids.drain(..) {
            if let (Some(X::T(_)), X::T(_)) = (out.last(), &k) {
                continue;
            }
            if let X::E(c) = &mut k {
                split(c);
            }
            out.push(k);
        }
        e.kids = out;
    }
    if let Some(X::E(e)) = top.first_mut() {
        split(e);
    }
    if r.chance(15) {
        top.insert(0, X::C(" before ".into()));
    }
    if r.chance(15) {
        top.push(X::C("after".into()));
    }
    top
}
