//! C12: every attribute on every element is parsed to the right type and value, or dropped alone.

use svgdom::*;

use crate::driver::{Ctx, Prop};
use crate::ensure;
use crate::gen;
use crate::names::{ATTRIBUTES, ELEMENTS, PRESENTATION};
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, Rng};
use crate::snap;
use crate::xml::*;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C12", quick: 160_000, thorough: 2_400_000,
        rule: "elements carrying one to six attributes with generated valid, borderline or invalid values (as attribute, style attribute \
               or rule) are parsed; type and value of every stored attribute are compared with the expectation the generator had when it \
               wrote the text; a case is one document with 30 such elements and is non-trivial if it has valid and invalid values",
        required: &[("element-attribute pairs", 100_000), ("dropped values", 20_000), ("from a style attribute", 5000), ("from a rule", 5000),
                    ("lengths", 1000), ("length lists", 500), ("numbers", 1000), ("number lists", 500), ("colors", 1000), ("paths", 300),
                    ("partial paths", 100), ("points", 300), ("transforms", 300), ("identity transforms", 100), ("view boxes", 100),
                    ("aspect ratios", 100), ("angles", 300), ("clamped numbers", 500), ("keywords", 3000), ("strings", 10_000),
                    ("empty lists and paths", 200), ("surrounding whitespace", 5000)],
        assumptions: &["numbers have at most six decimals and magnitudes below 10^12",
                       "references are covered by C11, id and class by C09 and C10"],
        case: c12,
    }]
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Len,
    /// A list on the text elements, a length elsewhere.
    TextLen,
    Offset,
    LenInherit,
    NumInherit,
    Opacity,
    K,
    Dash,
    Fill,
    Stroke,
    FuncIri,
    Color,
    ColorCurrent,
    NumList,
    Points,
    Path,
    Transform,
    FontSize,
    FontSizeAdjust,
    NoneInheritStr,
    InheritStr,
    Spacing,
    BaselineShift,
    Orient,
    AngleInherit,
    AngleInheritAuto,
    ViewBox,
    Aspect,
    Str,
    Href,
    Unicode,
}

pub fn kind(name: &str) -> Kind {
    match name {
        "x" | "y" | "dx" | "dy" => Kind::TextLen,
        "x1" | "y1" | "x2" | "y2" | "r" | "rx" | "ry" | "cx" | "cy" | "fx" | "fy" | "refX" | "refY" | "width" | "height"
        | "markerWidth" | "markerHeight" | "startOffset" => Kind::Len,
        "offset" => Kind::Offset,
        "stroke-dashoffset" | "stroke-width" => Kind::LenInherit,
        "stroke-miterlimit" => Kind::NumInherit,
        "opacity" | "fill-opacity" | "flood-opacity" | "stroke-opacity" | "stop-opacity" => Kind::Opacity,
        "k1" | "k2" | "k3" | "k4" => Kind::K,
        "stroke-dasharray" => Kind::Dash,
        "fill" => Kind::Fill,
        "stroke" => Kind::Stroke,
        "clip-path" | "filter" | "marker" | "marker-end" | "marker-mid" | "marker-start" | "mask" => Kind::FuncIri,
        "color" => Kind::Color,
        "lighting-color" | "flood-color" | "stop-color" => Kind::ColorCurrent,
        "stdDeviation" | "baseFrequency" | "rotate" => Kind::NumList,
        "points" => Kind::Points,
        "d" => Kind::Path,
        "transform" | "gradientTransform" | "patternTransform" => Kind::Transform,
        "font-size" => Kind::FontSize,
        "font-size-adjust" => Kind::FontSizeAdjust,
        "display" | "pointer-events" | "text-decoration" => Kind::NoneInheritStr,
        "clip-rule" | "color-interpolation" | "color-interpolation-filters" | "color-profile" | "color-rendering" | "direction"
        | "dominant-baseline" | "enable-background" | "fill-rule" | "font-family" | "font-stretch" | "font-style" | "font-variant"
        | "font-weight" | "image-rendering" | "kerning" | "overflow" | "shape-rendering" | "stroke-linecap" | "stroke-linejoin"
        | "text-anchor" | "text-rendering" | "unicode-bidi" | "visibility" | "writing-mode" => Kind::InheritStr,
        "letter-spacing" | "word-spacing" => Kind::Spacing,
        "baseline-shift" => Kind::BaselineShift,
        "orient" => Kind::Orient,
        "glyph-orientation-horizontal" => Kind::AngleInherit,
        "glyph-orientation-vertical" => Kind::AngleInheritAuto,
        "viewBox" => Kind::ViewBox,
        "preserveAspectRatio" => Kind::Aspect,
        "href" => Kind::Href,
        "unicode" => Kind::Unicode,
        _ => Kind::Str,
    }
}

/// Text, the value that must be stored (or nothing), and whether the text can be a CSS declaration as it is.
type V = (String, Option<AttributeValue>, bool);

fn yes(t: impl Into<String>, v: impl Into<AttributeValue>) -> V {
    (t.into(), Some(v.into()), true)
}

fn no(t: &str) -> V {
    let word = !t.is_empty() && t.chars().all(|c| c.is_ascii_alphabetic());
    (t.to_string(), None, word)
}

fn text_only(v: V) -> V {
    (v.0, v.1, false)
}

/// A number in one of its notations.
fn number(r: &mut Rng) -> (f64, String) {
    match r.below(9) {
        8 if r.chance(50) => { let k = r.below(100); (k as f64, format!("{}.", k)) }
        0 => { let k = r.below(1000); (k as f64 / 1000.0, format!(".{:03}", k)) }
        1 => { let k = r.below(100); (k as f64, format!("+{}", k)) }
        2 => { let k = r.below(100); (k as f64 * 100.0, format!("{}e2", k)) }
        3 => { let k = r.below(100); (k as f64 * 10.0, format!("{}E1", k)) }
        4 => { let k = r.below(1000); (-(k as f64) / 100.0, format!("-{}e-2", k)) }
        5 => { let k = r.below(1000); (-(k as f64) / 1000.0, format!("-.{:03}", k)) }
        6 if r.chance(30) => {
            // Large and small ones.
            let k = r.range(1, 9999);
            let e = r.below(9);
            let neg = r.chance(40);
            let s = if neg { -1.0 } else { 1.0 };
            let m = if neg { "-" } else { "" };
            if r.chance(70) { (s * k as f64 * 10f64.powi(e as i32), format!("{}{}{}", m, k, "0".repeat(e))) } else { (s * k as f64 / 1e6, format!("{}0.{:06}", m, k)) }
        }
        _ => gen::num(r),
    }
}

fn length(r: &mut Rng) -> (Length, String) {
    let (v, t) = number(r);
    let (u, ut) = *r.pick(gen::UNITS);
    (Length::new(v, u), format!("{}{}", t, ut))
}

fn angle(r: &mut Rng) -> V {
    let (n, t) = number(r);
    let (u, ut) = *r.pick(&[(AngleUnit::Degrees, ""), (AngleUnit::Degrees, "deg"), (AngleUnit::Gradians, "grad"), (AngleUnit::Radians, "rad")]);
    yes(format!("{}{}", t, ut), Angle::new(n, u))
}

/// Now and then an item is there twice: next to itself, or first and last.
fn again<T: Clone>(r: &mut Rng, v: &mut Vec<T>) {
    if !v.is_empty() && r.chance(20) {
        let i = r.below(v.len());
        let x = v[i].clone();
        match r.below(3) {
            0 => v.insert(i, x),
            1 => { let f = v[0].clone(); v.push(f) }
            _ => v.push(x),
        }
    }
}

fn list_len(r: &mut Rng) -> usize {
    if r.below(3000) == 0 { r.range(300, 900) } else if r.below(100) == 0 { r.range(10, 70) } else { r.range(1, 5) }
}

fn bad_length(r: &mut Rng) -> V {
    no(*r.pick(&["", "q", "10xx", "1 2", "--1", "none", "px", "1,2", "auto", "10 px", "#1", "1px;", "é", "1e", "0x10", "inf", "NaN"]))
}

fn bad_number(r: &mut Rng) -> V {
    no(*r.pick(&["", "q", "10px", "1 2", "--1", "none", "50%", "1,2", "auto", "#1", "1;", "é", "NaN", "inf"]))
}

fn bad_color(r: &mut Rng) -> V {
    no(*r.pick(&["", "qwerty", "#12", "#12345", "rgb(1,2", "10", "redd", "#ggg", "url", "é", "rgb", "#1234567"]))
}

fn transform(r: &mut Rng) -> (Transform, String) {
    let mul = |a: Transform, b: Transform| Transform::new(
        a.a * b.a + a.c * b.b, a.b * b.a + a.d * b.b, a.a * b.c + a.c * b.d, a.b * b.c + a.d * b.d,
        a.a * b.e + a.c * b.f + a.e, a.b * b.e + a.d * b.f + a.f);
    let mut ts = Transform::new(1.0, 0.0, 0.0, 1.0, 0.0, 0.0);
    let mut text = Vec::new();
    let long = r.below(40) == 0;
    let k = if long { r.range(4, 40) } else { r.range(1, 3) };
    for _ in 0..k {
        let small = |r: &mut Rng| { let v = r.below(2000) as f64 / 100.0 - 10.0; (v, format!("{}", v)) };
        let (a, sa) = small(r);
        let (b, sb) = small(r);
        let (c, sc) = small(r);
        let sep = *r.pick(&[" ", ",", ", "]);
        // In long lists only those that do not let the numbers grow.
        let (t, s) = match if long { *r.pick(&[0, 1, 4, 5]) } else { r.below(9) } {
            0 => (Transform::new(1.0, 0.0, 0.0, 1.0, a, b), format!("translate({}{}{})", sa, sep, sb)),
            1 => (Transform::new(1.0, 0.0, 0.0, 1.0, a, 0.0), format!("translate({})", sa)),
            2 => (Transform::new(a, 0.0, 0.0, b, 0.0, 0.0), format!("scale({}{}{})", sa, sep, sb)),
            3 => (Transform::new(a, 0.0, 0.0, a, 0.0, 0.0), format!("scale( {} )", sa)),
            4 => {
                let g = (a * 10.0).round();
                let q = g.to_radians();
                (Transform::new(q.cos(), q.sin(), -q.sin(), q.cos(), 0.0, 0.0), format!("rotate({})", g))
            }
            5 => {
                let g = (a * 10.0).round();
                let q = g.to_radians();
                let m = mul(Transform::new(1.0, 0.0, 0.0, 1.0, b, c), Transform::new(q.cos(), q.sin(), -q.sin(), q.cos(), 0.0, 0.0));
                (mul(m, Transform::new(1.0, 0.0, 0.0, 1.0, -b, -c)), format!("rotate({}{}{}{}{})", g, sep, sb, sep, sc))
            }
            6 => { let g = (a * 4.0).round(); (Transform::new(1.0, 0.0, g.to_radians().tan(), 1.0, 0.0, 0.0), format!("skewX({})", g)) }
            7 => { let g = (a * 4.0).round(); (Transform::new(1.0, g.to_radians().tan(), 0.0, 1.0, 0.0, 0.0), format!("skewY({})", g)) }
            _ => {
                let m: Vec<(f64, String)> = (0..6).map(|_| small(r)).collect();
                (Transform::new(m[0].0, m[1].0, m[2].0, m[3].0, m[4].0, m[5].0),
                 format!("matrix({})", m.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(sep)))
            }
        };
        ts = mul(ts, t);
        text.push(s);
    }
    (ts, text.join(" "))
}

fn ident(r: &mut Rng) -> String {
    r.pick(&["abc", "Bold", "x1", "sans-serif", "auto", "visible", "hidden", "q-w", "nonzero", "Normal", "medium", "None", "INHERIT", "inherit", "none", "currentColor", "normal"]).to_string()
}

fn string(r: &mut Rng) -> V {
    if r.below(3000) == 0 {
        let w: String = (0..r.range(200, 2000)).map(|_| *r.pick(&["a", "b c", "é", "😀", "-", "0"])).collect();
        return text_only(yes(w.clone(), w));
    }
    match r.below(4) {
        0 => { let w = r.pick(&["a b", "10 20", "#x", "a<b", "a&b", "\"q\"", "'q'", "a;b", "é", "url(#zz)", "1", "-1.5e3", "x:y", "a/b", "none", "😀", "&#49;", "", "\u{feff}x", "\u{200b}"]).to_string();
               text_only(yes(w.clone(), w)) }
        _ => { let w = ident(r); yes(w.clone(), w) }
    }
}

pub fn value(r: &mut Rng, k: Kind, elem: &str, obs: &mut Obs) -> V {
    let bad = r.chance(22);
    let special = r.chance(20);
    let inherit = || ("inherit".to_string(), Some(AttributeValue::Inherit), true);
    let none = || ("none".to_string(), Some(AttributeValue::None), true);
    let current = || ("currentColor".to_string(), Some(AttributeValue::CurrentColor), true);
    match k {
        Kind::TextLen => {
            if ["altGlyph", "text", "tref", "tspan"].contains(&elem) {
                if bad {
                    return if r.chance(40) { obs.hit("empty lists and paths"); no("") } else { no(*r.pick(&["q", "none", "1 q", "1;2", "10xx"])) };
                }
                let mut v: Vec<(Length, String)> = (0..list_len(r)).map(|_| length(r)).collect();
                again(r, &mut v);
                obs.hit("length lists");
                return yes(v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(*r.pick(&[" ", ", ", ","])),
                           LengthList(v.iter().map(|x| x.0).collect()));
            }
            value(r, Kind::Len, elem, obs)
        }
        Kind::Len => if bad { if r.chance(10) { no("inherit") } else { bad_length(r) } } else { obs.hit("lengths"); let (l, t) = length(r); yes(t, l) },
        Kind::Offset => {
            if bad {
                return if r.chance(50) { no(*r.pick(&["1px", "5mm", "1em", "2cm", "3in", "4pt", "5pc", "6ex"])) } else { bad_length(r) };
            }
            let (n, t) = number(r);
            if r.chance(50) { yes(t, Length::new(n, LengthUnit::None)) } else { yes(format!("{}%", t), Length::new(n, LengthUnit::Percent)) }
        }
        Kind::LenInherit => if bad { bad_length(r) } else if special { inherit() } else { obs.hit("lengths"); let (l, t) = length(r); yes(t, l) },
        Kind::NumInherit => if bad { bad_number(r) } else if special { inherit() } else { obs.hit("numbers"); let (l, t) = number(r); yes(t, l) },
        Kind::Opacity | Kind::K => {
            if bad {
                return bad_number(r);
            }
            if special {
                return if k == Kind::Opacity { inherit() } else { no("inherit") };
            }
            let (n, t) = number(r);
            obs.hit("numbers");
            let c = if n > 1.0 { 1.0 } else if n < 0.0 { 0.0 } else { n };
            if c != n {
                obs.hit("clamped numbers");
            }
            yes(t, c)
        }
        Kind::Dash => {
            if bad {
                return if r.chance(40) { obs.hit("empty lists and paths"); no("") } else { no(*r.pick(&["q", "1 q", "1;2", "10xx", "auto"])) };
            }
            if special {
                return if r.chance(50) { none() } else { inherit() };
            }
            let mut v: Vec<(Length, String)> = (0..list_len(r)).map(|_| length(r)).collect();
            again(r, &mut v);
            obs.hit("length lists");
            yes(v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(*r.pick(&[" ", ", ", ","])), LengthList(v.iter().map(|x| x.0).collect()))
        }
        Kind::Fill if ["set", "animate", "animateColor", "animateMotion", "animateTransform"].contains(&elem) => {
            obs.hit("strings");
            let w = r.pick(&["freeze", "remove", "red", "none", "inherit", "qwerty", "currentColor", "#fff"]).to_string();
            yes(w.clone(), w)
        }
        Kind::Fill | Kind::Stroke => {
            if bad {
                return bad_color(r);
            }
            match r.below(8) {
                0 => none(),
                1 => inherit(),
                2 => current(),
                _ => { obs.hit("colors"); let (c, t) = gen::color(r); yes(t, c) }
            }
        }
        Kind::FuncIri => if bad { no(*r.pick(&["", "q", "#a", "10", "red", "url", "url(", "url(x", "auto"])) } else if special { inherit() } else { none() },
        Kind::Color => if bad { if r.chance(20) { no(*r.pick(&["none", "currentColor"])) } else { bad_color(r) } } else if special { inherit() } else {
            obs.hit("colors"); let (c, t) = gen::color(r); yes(t, c)
        },
        Kind::ColorCurrent => if bad { if r.chance(20) { no("none") } else { bad_color(r) } } else if special {
            if r.chance(50) { inherit() } else { current() }
        } else { obs.hit("colors"); let (c, t) = gen::color(r); yes(t, c) },
        Kind::NumList => {
            if bad {
                return if r.chance(40) { obs.hit("empty lists and paths"); no("") } else { no(*r.pick(&["q", "1 q", "1;2", "none", "auto", "inherit"])) };
            }
            let mut v: Vec<(f64, String)> = (0..list_len(r)).map(|_| number(r)).collect();
            again(r, &mut v);
            obs.hit("number lists");
            yes(v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(*r.pick(&[" ", ", ", ","])), NumberList(v.iter().map(|x| x.0).collect()))
        }
        Kind::Points => {
            let mut v: Vec<((f64, String), (f64, String))> = (0..list_len(r)).map(|_| (number(r), number(r))).collect();
            again(r, &mut v);
            obs.hit("points");
            let (a, b) = *r.pick(&[(",", " "), (" ", " "), (" ", ", "), (",", ",")]);
            yes(v.iter().map(|p| format!("{}{}{}", (p.0).1, a, (p.1).1)).collect::<Vec<_>>().join(b),
                AttributeValue::Points(Points(v.iter().map(|p| ((p.0).0, (p.1).0)).collect())))
        }
        Kind::Path => {
            if bad {
                obs.hit("empty lists and paths");
                return no(*r.pick(&["", "q", "L 10 20", "M", "M 10", "10 20", "none", "Z"]));
            }
            let (mut p, mut t) = gen::path(r);
            if r.below(200) == 0 {
                // Equal segments in a row.
                for _ in 0..r.range(1, 400) {
                    t.push_str("l1 2");
                    p.0.push(PathSegment::LineTo { abs: false, x: 1.0, y: 2.0 });
                }
            }
            match r.below(4) {
                0 => {
                    obs.hit("partial paths");
                    t.push_str(*r.pick(&[" q", " L", " L 1", " C 1 2 3", " M 1", " X 1 2", " A 1 2 3 4", " L 1 q", ";", " L 1 2q", " é"]));
                    if t.ends_with("2q") {
                        p.0.push(PathSegment::LineTo { abs: true, x: 1.0, y: 2.0 });
                    }
                }
                1 => {
                    // Implicit commands.
                    t = "m 1 2 3 4-5-6".to_string();
                    p = Path(vec![PathSegment::MoveTo { abs: false, x: 1.0, y: 2.0 }, PathSegment::LineTo { abs: false, x: 3.0, y: 4.0 },
                                  PathSegment::LineTo { abs: false, x: -5.0, y: -6.0 }]);
                }
                _ => {}
            }
            obs.hit("paths");
            yes(t, p)
        }
        Kind::Transform => {
            if bad {
                return no(*r.pick(&["q", "scale(", "matrix(1 2 3)", "none", "translate", "rotate(q)", "skewX()", "inherit", "scale(2) q"]));
            }
            if special {
                obs.hit("identity transforms");
                return (r.pick(&["translate(0 0)", "translate(0)", "scale(1)", "scale(1 1)", "matrix(1 0 0 1 0 0)", "rotate(0)", "skewX(0)",
                                 "rotate(0 5 6)", "translate(1 0) translate(-1 0)"]).to_string(), None, true);
            }
            if r.chance(10) {
                // Nearly nothing.
                let v = *r.pick(&[0.0005, -0.001, 0.002, 0.0001]);
                obs.hit("transforms");
                return match r.below(5) {
                    0 => yes(format!("translate({})", v), Transform::new(1.0, 0.0, 0.0, 1.0, v, 0.0)),
                    1 => yes(format!("translate(0 {})", v), Transform::new(1.0, 0.0, 0.0, 1.0, 0.0, v)),
                    2 => yes(format!("scale(1 {})", 1.0 + v), Transform::new(1.0, 0.0, 0.0, 1.0 + v, 0.0, 0.0)),
                    3 => yes(format!("matrix(1 {} 0 1 0 0)", v), Transform::new(1.0, v, 0.0, 1.0, 0.0, 0.0)),
                    _ => yes(format!("matrix(1 0 {} 1 0 0)", v), Transform::new(1.0, 0.0, v, 1.0, 0.0, 0.0)),
                };
            }
            let (ts, t) = transform(r);
            if snap::same_plain(&ts.into(), &Transform::new(1.0, 0.0, 0.0, 1.0, 0.0, 0.0).into(), 1e-3) {
                return yes("scale(2)", Transform::new(2.0, 0.0, 0.0, 2.0, 0.0, 0.0));
            }
            obs.hit("transforms");
            yes(t, ts)
        }
        Kind::FontSize => match r.below(4) {
            0 if r.chance(10) => { obs.hit("strings"); text_only(yes("", "")) }
            0 => { let w = *r.pick(&["small", "x-large", "medium", "larger", "q", "none", "10xx", "Inherit", "10 px"]); obs.hit("strings"); yes(w, w) }
            1 => inherit(),
            _ => { obs.hit("lengths"); let (l, t) = length(r); yes(t, l) }
        },
        Kind::FontSizeAdjust => if bad { let v = bad_number(r); if v.0 == "none" { no("q") } else { v } } else if special {
            if r.chance(50) { none() } else { inherit() }
        } else { obs.hit("numbers"); let (l, t) = number(r); yes(t, l) },
        Kind::NoneInheritStr => match r.below(4) { 0 => none(), 1 => inherit(), _ => { obs.hit("strings"); string_not(r, &["none", "inherit"]) } },
        Kind::InheritStr => if special { inherit() } else { obs.hit("strings"); string_not(r, &["inherit"]) },
        Kind::Spacing => if bad { bad_length(r) } else { match r.below(4) {
            0 => inherit(), 1 => yes("normal", "normal"), _ => { obs.hit("lengths"); let (l, t) = length(r); yes(t, l) }
        } },
        Kind::BaselineShift => if bad { if r.chance(20) { no("normal") } else { bad_length(r) } } else { match r.below(4) {
            0 => inherit(), 1 => { let w = *r.pick(&["baseline", "sub", "super"]); yes(w, w) } _ => { obs.hit("lengths"); let (l, t) = length(r); yes(t, l) }
        } },
        Kind::Orient => if bad { no(*r.pick(&["", "q", "10px", "inherit", "none", "10degg", "auto-start-reverse", "Auto", "auto auto", "autoo"])) } else if special { yes("auto", "auto") } else { obs.hit("angles"); angle(r) },
        Kind::AngleInherit => if bad { no(*r.pick(&["", "q", "10px", "auto", "none", "10degg", "Inherit", "10 deg"])) } else if special { inherit() } else { obs.hit("angles"); angle(r) },
        Kind::AngleInheritAuto => if bad { no(*r.pick(&["", "q", "10px", "none", "10degg", "Auto", "inherits"])) } else if special {
            if r.chance(50) { inherit() } else { yes("auto", "auto") }
        } else { obs.hit("angles"); angle(r) },
        Kind::ViewBox => {
            if bad {
                return no(*r.pick(&["", "q", "1 2 3", "1 2 0 4", "1 2 3 0", "1 2 -3 4", "1 2 3 -4", "none", "1 2 3 q"]));
            }
            obs.hit("view boxes");
            let (x, sx) = number(r);
            let (y, sy) = number(r);
            let mut size = || match r.below(8) {
                0 => r.range(1, 1000) as f64 * 10f64.powi(r.below(9) as i32),
                1 => r.range(1, 1000) as f64 / 100_000.0,
                _ => r.range(1, 5000) as f64 / 10.0,
            };
            let (w, h) = (size(), size());
            let sep = *r.pick(&[" ", ",", ", "]);
            yes(format!("{}{}{}{}{}{}{}", sx, sep, sy, sep, w, sep, h), ViewBox::new(x, y, w, h))
        }
        Kind::Aspect => {
            if bad {
                return no(*r.pick(&["", "q", "xMidYMi", "slice", "xminymin", "10"]));
            }
            obs.hit("aspect ratios");
            let (al, t) = *r.pick(&[
                (Align::None, "none"), (Align::XMinYMin, "xMinYMin"), (Align::XMidYMin, "xMidYMin"), (Align::XMaxYMin, "xMaxYMin"),
                (Align::XMinYMid, "xMinYMid"), (Align::XMidYMid, "xMidYMid"), (Align::XMaxYMid, "xMaxYMid"),
                (Align::XMinYMax, "xMinYMax"), (Align::XMidYMax, "xMidYMax"), (Align::XMaxYMax, "xMaxYMax")]);
            let defer = r.chance(30);
            let (slice, st) = *r.pick(&[(false, ""), (false, " meet"), (true, " slice")]);
            yes(format!("{}{}{}", if defer { "defer " } else { "" }, t, st),
                AttributeValue::AspectRatio(AspectRatio { defer, align: al, slice }))
        }
        Kind::Href => {
            obs.hit("strings");
            let w = *r.pick(&["img.png", "http://example.org/a?b=c&d=e", "data:image/png;base64,AAAA", "file.svg#id", "a b"]);
            yes(w, w)
        }
        Kind::Unicode => {
            obs.hit("strings");
            let w: String = if r.chance(30) { " ".repeat(r.below(5)) } else {
                (0..r.range(1, 4)).map(|_| *r.pick(&["a", " ", " ", "b", "é", "ﬁ", "\"", "\u{a0}", "😀", "𠀀", "none", "inherit", "#"])).collect()
            };
            yes(w.clone(), w)
        }
        Kind::Str => { obs.hit("strings"); string(r) }
    }
}

fn string_not(r: &mut Rng, not: &[&str]) -> V {
    loop {
        let v = string(r);
        if !not.contains(&v.0.as_str()) {
            return v;
        }
    }
}

/// CSS numbers have no exponents.
pub fn css_number(text: &str) -> bool {
    !text.as_bytes().windows(2).any(|w| (w[0] | 32) == b'e' && (w[1] == b'-' || w[1].is_ascii_digit()))
}

fn c12(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    let elem = {
        let v: Vec<&str> = ELEMENTS.iter().map(|e| e.0).filter(|e| *e != "style").collect();
        v[ctx.idx as usize % v.len()]
    };
    let mut svg = E::svg("svg");
    let mut css = String::new();
    let mut expected: Vec<Vec<(AttributeId, String, &'static str, Option<AttributeValue>)>> = Vec::new();
    let (mut good, mut bad) = (0, 0);
    for n in 0..30usize {
        let mut e = E::svg(elem);
        e.attr("id", &format!("e{}", n));
        let mut list: Vec<(AttributeId, String, &'static str, Option<AttributeValue>)> = Vec::new();
        let mut style = Vec::new();
        let mut rule = Vec::new();
        let count = match r.below(20) {
            0 => r.range(7, 25),
            1..=10 => r.range(2, 6),
            _ => 1,
        };
        // A value of this element is given to other attributes of its type too.
        let mut texts: Vec<(Kind, String, Option<AttributeValue>, bool)> = Vec::new();
        for _ in 0..count {
            let again = if texts.is_empty() || !r.chance(30) { None } else { Some(r.below(texts.len())) };
            let (name, id) = if let Some(k) = again {
                let fit: Vec<(&str, AttributeId)> = ATTRIBUTES.iter().cloned().filter(|a| kind(a.0) == texts[k].0).collect();
                *r.pick(&fit)
            } else if r.chance(60) {
                *r.pick(ATTRIBUTES)
            } else {
                // Typed attributes are a minority.
                loop {
                    let a = *r.pick(ATTRIBUTES);
                    if !matches!(kind(a.0), Kind::Str | Kind::InheritStr) {
                        break a;
                    }
                }
            };
            if ["id", "class", "style", "xmlns", "space"].contains(&name) || list.iter().any(|x| x.0 == id) {
                continue;
            }
            let (text, want, css_ok) = match again {
                Some(k) => {
                    obs.hit("equal values on an element");
                    (texts[k].1.clone(), texts[k].2.clone(), texts[k].3)
                }
                None => value(r, kind(name), elem, obs),
            };
            texts.push((kind(name), text.clone(), want.clone(), css_ok));
            let css_ok = css_ok && css_number(&text) && name != "marker" && (PRESENTATION.contains(&name) || name == "transform") && !text.is_empty();
            let route = if css_ok { r.below(3) } else { 0 };
            match route {
                1 => {
                    obs.hit("from a style attribute");
                    style.push(format!("{}: {}", name, text));
                }
                2 => {
                    obs.hit("from a rule");
                    rule.push(format!("{}:{}", name, text));
                }
                _ => {
                    let t = if name != "unicode" && r.chance(25) {
                        obs.hit("surrounding whitespace");
                        format!("{}{}{}", *r.pick(&["", " ", "\t", "  ", "\u{a0}", "\u{2003} "]), text, *r.pick(&["", " ", "\n", "\t ", "\u{3000}", "\r"]))
                    } else {
                        text.clone()
                    };
                    e.attr(if name == "href" { "xlink:href" } else { name }, &t);
                }
            }
            if want.is_some() { good += 1 } else { bad += 1; obs.hit("dropped values") }
            if matches!(want, Some(AttributeValue::None) | Some(AttributeValue::Inherit) | Some(AttributeValue::CurrentColor)) {
                obs.hit("keywords");
            }
            list.push((id, text, ["attribute", "style attribute", "rule"][route], want));
            obs.hit("element-attribute pairs");
        }
        if !style.is_empty() {
            e.attr("style", &format!("{}{}", style.join(";"), *r.pick(&["", "", ";", " ; ", ";;"])));
        }
        if r.chance(50) {
            r.shuffle(&mut e.attrs);
        }
        if !rule.is_empty() {
            css.push_str(&format!("#e{} {{ {} }}\n", n, rule.join("; ")));
        }
        svg.kids.push(X::E(e));
        expected.push(list);
    }
    if !css.is_empty() {
        let mut s = E::svg("style");
        s.kids.push(X::T(css));
        svg.kids.insert(0, X::E(s));
    }
    let text = to_xml(&[X::E(svg)]);
    obs.log(text.clone());
    let doc = Document::from_str(&text).map_err(|e| format!("parsing failed: {}", e))?;
    let svg = doc.svg_element().ok_or("no svg element")?;
    let nodes: Vec<Node> = svg.children().filter(|n| n.is_element()).collect();
    ensure!(nodes.len() == expected.len(), "{} elements instead of {}", nodes.len(), expected.len());
    for (node, list) in nodes.iter().zip(expected.iter()) {
        for (id, text, route, want) in list {
            let attrs = node.attributes();
            let got = attrs.get_value(*id);
            let ok = match (got, want) {
                (None, None) => true,
                (Some(g), Some(w)) => snap::same_plain(g, w, 1e-9),
                _ => false,
            };
            ensure!(ok, "<{}> {}={:?} (as {}) is stored as {:?}, expected {:?}", elem, id, text, route, got, want);
        }
        let stored = list.iter().filter(|x| x.3.is_some()).count();
        ensure!(node.attributes().len() == stored, "<{}>: {} attributes stored, expected {}: {:?}", elem, node.attributes().len(), stored, node);
    }
    if good > 0 && bad > 0 {
        obs.nontrivial(hash_str(&text));
    }
    Ok(())
}
