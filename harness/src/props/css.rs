//! C10: the style cascade, against an independent selector matcher and cascade on the abstract document.

use svgdom::*;

use crate::driver::{Ctx, Prop};
use crate::ensure;
use crate::gen;
use crate::names::{ELEMENTS, ATTRIBUTES, PRESENTATION};
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, Rng};
use crate::props::values;
use crate::snap;
use crate::xml::*;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C10", quick: 320_000, thorough: 4_800_000,
        rule: "a random document with plain attributes, style attributes and several style elements is parsed; for every element and \
               property the stored attribute is compared with the winner computed by an independent matcher and cascade; non-trivial if \
               at least two declarations of different origin or specificity compete for one property of one element",
        required: &[("rules that matched", 20_000), ("competing declarations", 20_000), ("won by specificity against order", 2000),
                    ("won by order at equal specificity", 1000), ("won by the style attribute", 2000), ("won by a rule over an attribute", 2000),
                    ("won by the plain attribute", 2000), ("invalid declarations skipped", 2000), ("link declarations won", 500),
                    ("link declarations lost", 500), ("marker shorthand won", 100), ("ignored style sheets", 300),
                    ("child combinator matches", 300), ("descendant combinator matches", 300), ("adjacent combinator matches", 300),
                    ("first-child matches", 300), ("attribute selector matches", 300), ("non-presentation declarations", 500),
                    ("identity transform won", 50), ("several style elements", 1000),
                    ("empty style elements", 500), ("references beside properties", 1000), ("style sheets with comments in between", 1000), ("foreign style, class and id attributes", 1000)],
        assumptions: &["simplecss tokenizes CSS correctly for the plain subset that is generated",
                       "no !important, no foreign elements among the siblings, unique ids"],
        case: c10,
    }]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Comb { None, Desc, Child, Adj }

#[derive(Clone, PartialEq, Debug)]
enum Sub {
    Id(String),
    Class(String),
    Has(String),
    Eq(String, String),
    Word(String, String),
    Dash(String, String),
    First,
    Never(&'static str),
}

#[derive(Clone, Debug)]
struct Compound {
    comb: Comb,
    tag: Option<String>,
    subs: Vec<Sub>,
}

type Sel = Vec<Compound>;

/// The value a declaration stands for.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Val(AttributeValue),
    Link(String, Option<PaintFallback>),
    /// Valid, but nothing is stored.
    Absent,
    Invalid,
}

#[derive(Clone, Debug)]
struct Decl {
    name: &'static str,
    text: String,
    want: Want,
}

#[derive(Clone, Debug)]
struct Rule {
    sels: Vec<Sel>,
    decls: Vec<Decl>,
}

/// A flat view of the elements of the abstract document.
#[derive(Debug)]
struct El {
    tag: String,
    attrs: Vec<(String, String)>,
    parent: Option<usize>,
    prev: Option<usize>,
    href: Option<String>,
}

impl El {
    fn get(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
}

fn sub_matches(els: &[El], i: usize, s: &Sub) -> bool {
    let e = &els[i];
    match s {
        Sub::Id(v) => e.get("id") == Some(v),
        Sub::Class(v) => e.get("class").map_or(false, |c| c.split(' ').any(|x| x == v)),
        Sub::Has(n) => e.get(n).is_some(),
        Sub::Eq(n, v) => e.get(n) == Some(v),
        Sub::Word(n, v) => e.get(n).map_or(false, |c| c.split(' ').any(|x| x == v)),
        Sub::Dash(n, v) => e.get(n).map_or(false, |c| c == v || c.starts_with(&format!("{}-", v))),
        Sub::First => e.prev.is_none(),
        Sub::Never(_) => false,
    }
}

/// Right to left: does the part of the selector that ends at `k` match element `i`?
fn matches(els: &[El], sel: &[Compound], k: usize, i: usize) -> bool {
    let c = &sel[k];
    if c.tag.as_ref().map_or(false, |t| *t != els[i].tag) || !c.subs.iter().all(|s| sub_matches(els, i, s)) {
        return false;
    }
    match c.comb {
        Comb::None => true,
        Comb::Child => els[i].parent.map_or(false, |p| matches(els, sel, k - 1, p)),
        Comb::Adj => els[i].prev.map_or(false, |p| matches(els, sel, k - 1, p)),
        Comb::Desc => {
            let mut p = els[i].parent;
            while let Some(x) = p {
                if matches(els, sel, k - 1, x) {
                    return true;
                }
                p = els[x].parent;
            }
            false
        }
    }
}

fn specificity(sel: &Sel) -> (usize, usize, usize) {
    let mut s = (0, 0, 0);
    for c in sel {
        s.2 += c.tag.is_some() as usize;
        for x in &c.subs {
            match x {
                Sub::Id(_) => s.0 += 1,
                _ => s.1 += 1,
            }
        }
    }
    s
}

const TAGS: &[&str] = &["g", "rect", "path", "circle", "text", "tspan", "use"];
const CLASSES: &[&str] = &["a", "b", "big", "a1", "x-y"];
const PLAIN: &[(&str, &[&str])] = &[
    ("name", &["n1", "n2 n3", "n3", "n1-x", "n10", "N1", " n1", "n3 "]),
    ("lang", &["en", "en-us", "de", "english", "EN", "en-"]),
    ("target", &["t", "t u", "u-t", "tu", " t"]),
];

fn pick_sub(r: &mut Rng, n: usize) -> Sub {
    match r.below(9) {
        0 | 1 => Sub::Id(format!("e{}", r.below(n))),
        2 | 3 | 4 => Sub::Class(r.pick(CLASSES).to_string()),
        5 => Sub::First,
        6 => {
            let (n, _) = *r.pick(PLAIN);
            Sub::Has(n.to_string())
        }
        7 => {
            let (n, v) = *r.pick(PLAIN);
            let v = r.pick(v).trim().to_string();
            let w = v.split(' ').next().unwrap().split('-').next().unwrap().to_string();
            match r.below(3) {
                0 => Sub::Eq(n.to_string(), v),
                1 => Sub::Word(n.to_string(), if r.chance(50) { w } else { v.split(' ').last().unwrap().to_string() }),
                _ => Sub::Dash(n.to_string(), w),
            }
        }
        _ => if r.chance(20) { Sub::Never(*r.pick(&["hover", "link", "visited", "active", "focus"])) } else { Sub::First },
    }
}

fn pick_sel(r: &mut Rng, n: usize, tags: &[&'static str]) -> Sel {
    let parts = match r.below(10) { 0..=5 => 1, 6..=8 => 2, _ => 3 };
    (0..parts).map(|k| {
        let tag = if r.chance(50) { Some(if r.chance(12) { "svg" } else if r.chance(4) { *r.pick(&["G", "Rect", "SVG", "rec", "rectt", "tSpan"]) } else { *r.pick(tags) }.to_string()) } else { None };
        let subs = (0..match r.below(6) { 0 | 1 => 0, 2..=4 => 1, _ => 2 }).map(|_| pick_sub(r, n)).collect();
        let comb = if k == 0 { Comb::None } else { *r.pick(&[Comb::Desc, Comb::Child, Comb::Adj]) };
        Compound { comb, tag, subs }
    }).collect()
}

fn sel_text(r: &mut Rng, s: &Sel) -> String {
    let mut t = String::new();
    for c in s {
        match c.comb {
            Comb::None => {}
            Comb::Desc => t.push_str(*r.pick(&[" ", "  ", "\n", " /* c */ "])),
            Comb::Child => t.push_str(*r.pick(&[" > ", ">", "> "])),
            Comb::Adj => t.push_str(*r.pick(&[" + ", "+", "\t+ "])),
        }
        match c.tag {
            Some(ref n) => t.push_str(n),
            None => if c.subs.is_empty() || r.chance(30) { t.push('*') },
        }
        for x in &c.subs {
            t.push_str(&match x {
                Sub::Id(v) => format!("#{}", v),
                Sub::Class(v) => format!(".{}", v),
                Sub::Has(n) => format!("[{}]", n),
                Sub::Eq(n, v) => if !v.contains(' ') && r.chance(50) { format!("[{}={}]", n, v) } else { format!("[{}='{}']", n, v) },
                Sub::Word(n, v) => format!("[{}~=\"{}\"]", n, v),
                Sub::Dash(n, v) => format!("[{}|={}]", n, v),
                Sub::First => ":first-child".to_string(),
                Sub::Never(v) => format!(":{}", v),
            });
        }
    }
    t
}

pub struct Uniq(pub usize);

const PRESENT: &[&str] = &[
    "fill", "fill", "stroke", "stroke", "stroke-width", "opacity", "font-family", "font-size", "display", "transform", "clip-path",
    "marker-start", "marker-mid", "marker-end", "stop-color", "visibility", "letter-spacing", "stroke-dasharray", "mask", "filter",
    "fill-opacity", "stroke-linecap", "font-weight", "color", "stroke-miterlimit", "baseline-shift", "flood-color", "overflow",
];

/// Set by its declarations; the shorthand is not.
fn is_present(name: &str) -> bool {
    name == "transform" || (name != "marker" && PRESENTATION.contains(&name))
}

fn present(r: &mut Rng) -> &'static str {
    loop {
        let n = if r.chance(60) { *r.pick(PRESENT) } else { *r.pick(PRESENTATION) };
        if n != "marker" {
            return n;
        }
    }
}

/// A declaration that must have no effect.
fn no_effect(r: &mut Rng) -> Decl {
    if r.chance(50) {
        let (a, b) = *r.pick(NON_PRESENTATION);
        return Decl { name: a, text: b.to_string(), want: Want::Invalid };
    }
    loop {
        let (name, _) = *r.pick(ATTRIBUTES);
        if name != "transform" && !PRESENTATION.contains(&name) {
            return Decl { name, text: r.pick(&["10", "red", "none", "inherit", "abc", "scale(2)", "1 2 3 4"]).to_string(), want: Want::Invalid };
        }
    }
}

/// A declaration of a presentation property with a value nobody else has. Links only if `link`.
fn decl(r: &mut Rng, u: &mut Uniq, name: &'static str, link: bool) -> Decl {
    u.0 += 1;
    let n = u.0;
    let inval = r.chance(12);
    let special = r.chance(15);
    let val = |t: &str, v: AttributeValue| (t.to_string(), Want::Val(v));
    let bad = |t: &str| (t.to_string(), Want::Invalid);
    let (text, want) = match name {
        "fill" | "stroke" => {
            if link && r.chance(35) {
                let (fb, ft) = match r.below(4) {
                    0 => (Some(PaintFallback::None), " none"),
                    1 => (Some(PaintFallback::CurrentColor), " currentColor"),
                    2 => (Some(PaintFallback::Color(Color::new(255, 0, 0))), " red"),
                    _ => (None, ""),
                };
                let id = format!("t{}", r.below(5));
                (format!("url(#{}){}", id, ft), Want::Link(id, fb))
            } else if inval {
                bad(*r.pick(&["qwerty", "#12", "rgb", "red blue"]))
            } else if special {
                let v = [("none", AttributeValue::None), ("inherit", AttributeValue::Inherit), ("currentColor", AttributeValue::CurrentColor)][r.below(3)].clone();
                val(v.0, v.1)
            } else {
                let c = Color::new((n >> 8) as u8, n as u8, 7);
                val(&format!("#{:02x}{:02x}07", (n >> 8) as u8, n as u8), c.into())
            }
        }
        "color" | "stop-color" | "flood-color" => {
            if inval {
                bad(*r.pick(&["none", "qwerty", "#1"]))
            } else if special {
                val("inherit", AttributeValue::Inherit)
            } else {
                val(&format!("rgb({},{},9)", n >> 8 & 255, n & 255), Color::new((n >> 8) as u8, n as u8, 9).into())
            }
        }
        "clip-path" | "mask" | "filter" | "marker-start" | "marker-mid" | "marker-end" => {
            if link && r.chance(60) {
                let id = format!("t{}", r.below(5));
                (format!("url(#{})", id), Want::Link(id, None))
            } else if inval {
                bad(*r.pick(&["qwerty", "red", "10"]))
            } else if r.chance(50) {
                val("none", AttributeValue::None)
            } else {
                val("inherit", AttributeValue::Inherit)
            }
        }
        "stroke-width" | "letter-spacing" | "baseline-shift" => {
            if inval {
                bad(*r.pick(&["none", "qwerty", "10q", "1 2"]))
            } else if special {
                val("inherit", AttributeValue::Inherit)
            } else {
                val(&format!("{}.5mm", n), Length::new(n as f64 + 0.5, LengthUnit::Mm).into())
            }
        }
        "font-size" => if special { val("inherit", AttributeValue::Inherit) } else {
            val(&format!("{}px", n), Length::new(n as f64, LengthUnit::Px).into())
        },
        "opacity" | "fill-opacity" => {
            if inval {
                bad(*r.pick(&["none", "q", "0.5px"]))
            } else if special {
                val("inherit", AttributeValue::Inherit)
            } else {
                let v = (n % 997) as f64 / 1000.0;
                val(&format!("{}", v), v.into())
            }
        }
        "stroke-miterlimit" => if inval { bad("x") } else { val(&format!("{}", n), (n as f64).into()) },
        "stroke-dasharray" => {
            if inval {
                bad("qwerty")
            } else if special {
                val("none", AttributeValue::None)
            } else {
                val(&format!("{} 2cm", n), LengthList(vec![Length::new(n as f64, LengthUnit::None), Length::new(2.0, LengthUnit::Cm)]).into())
            }
        }
        "transform" => {
            if inval {
                bad(*r.pick(&["qwerty", "scale", "none"]))
            } else if r.chance(20) {
                (r.pick(&["translate(0 0)", "scale(1)", "matrix(1 0 0 1 0 0)", "rotate(0)"]).to_string(), Want::Absent)
            } else {
                val(&format!("translate({} 1)", n), Transform::new(1.0, 0.0, 0.0, 1.0, n as f64, 1.0).into())
            }
        }
        "display" => if special { val("none", AttributeValue::None) } else { val(&format!("d{}", n), AttributeValue::String(format!("d{}", n))) },
        _ if PRESENT.contains(&name) => if special { val("inherit", AttributeValue::Inherit) } else {
            let t = format!("v{}", n);
            val(&t, AttributeValue::String(t.clone()))
        },
        _ => {
            let mut o = Obs::default();
            loop {
                let (t, v, css) = values::value(r, values::kind(name), "g", &mut o);
                if css && values::css_number(&t) {
                    break (t, v.map_or(Want::Invalid, Want::Val));
                }
            }
        }
    };
    Decl { name, text, want }
}

fn decls_text(r: &mut Rng, d: &[Decl]) -> String {
    let mut t = String::new();
    let tight = r.chance(40);
    for (i, x) in d.iter().enumerate() {
        if !tight {
            t.push_str(*r.pick(&["", " ", "\n  ", " /* x */ ", "/* x */", "/**/ "]));
        }
        t.push_str(x.name);
        t.push_str(if tight { ":" } else { *r.pick(&[":", ": ", " : ", ":\t"]) });
        t.push_str(&x.text);
        if i + 1 < d.len() || r.chance(60) {
            t.push_str(if tight { ";" } else { *r.pick(&[";", "; ", " ;\n", ";;"]) });
        }
    }
    t
}

const NON_PRESENTATION: &[(&str, &str)] = &[
    ("width", "10"), ("x", "5"), ("foo", "bar"), ("class", "a"), ("viewBox", "0 0 1 1"), ("points", "1 2"), ("Fill", "red"), ("-x-fill", "red"),
    ("name", "zz"), ("gradientTransform", "scale(2)"), ("href", "x"), ("offset", "1"), ("id", "zz"), ("style", "q"), ("k1", "1"),
];

fn c10(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let mut u = Uniq(r.below(500));
    let n = gen::size(r, 2, 12);
    // A few properties only, so that declarations compete.
    let props: Vec<&'static str> = (0..r.range(1, 5)).map(|_| present(r)).collect();

    let tags: Vec<&'static str> = if r.chance(50) { TAGS.to_vec() } else {
        (0..r.range(2, 6)).map(|_| loop {
            let t = r.pick(ELEMENTS).0;
            if t != "style" && !gen::ANIMATIONS.contains(&t) {
                break t;
            }
        }).collect()
    };

    // The document.
    let mut flat: Vec<E> = Vec::new();
    let mut attr_decls: Vec<(Vec<Decl>, Vec<Decl>)> = Vec::new();
    for i in 0..n {
        let mut e = E::svg(if i == 0 { "svg" } else { *r.pick(&tags) });
        if r.chance(70) {
            e.attr("id", &format!("e{}", i));
        }
        if r.chance(60) {
            let mut v: Vec<String> = (0..r.range(1, 3)).map(|_| r.pick(CLASSES).to_string()).collect();
            if r.chance(3) {
                // The interesting one may be anywhere in a long list.
                for k in 0..r.range(3, 40) {
                    let at = r.below(v.len() + 1);
                    v.insert(at, format!("z{}", k));
                }
            }
            let v = v.join(if r.chance(10) { "  " } else { " " });
            e.attr("class", &match r.below(20) { 0 => format!(" {}", v), 1 => format!("{} ", v), 2 => v.to_uppercase(), _ => v });
        }
        for (name, vals) in PLAIN {
            if r.chance(15) {
                e.attr(name, *r.pick(vals));
            }
        }
        let mut plain: Vec<Decl> = Vec::new();
        for p in &props {
            if r.chance(45) && !e.has(ANs::None, p) {
                let d = decl(r, &mut u, p, true);
                e.attr(p, &d.text);
                plain.push(d);
            }
        }
        let mut inline: Vec<Decl> = Vec::new();
        if r.chance(25) {
            for _ in 0..if r.chance(4) { r.range(8, 50) } else { r.range(1, 3) } {
                let p = *r.pick(&props);
                inline.push(decl(r, &mut u, p, true));
            }
            if r.chance(20) {
                let d = no_effect(r);
                inline.insert(r.below(inline.len() + 1), d);
                obs.hit("non-presentation declarations");
            }
            let t = decls_text(r, &inline);
            e.attr("style", &t);
        }
        if r.chance(6) {
            // Attributes of another namespace: neither style nor class nor id.
            obs.hit("foreign style, class and id attributes");
            let (n, v) = match r.below(4) {
                0 | 1 => ("style", format!("{}:{}", "fill", "#010203;stroke:none")),
                2 => ("class", r.pick(CLASSES).to_string()),
                _ => ("id", format!("e{}", r.below(n))),
            };
            e.attrs.push(A { ns: ANs::Foreign(r.below(FOREIGN.len())), name: n.into(), value: v });
            if r.chance(50) {
                // Before the other attributes as well.
                let a = e.attrs.pop().unwrap();
                e.attrs.insert(0, a);
            }
        }
        if r.chance(15) {
            // A reference that is no property.
            obs.hit("references beside properties");
            e.attr("xlink:href", &format!("#t{}", r.below(5)));
            let a = e.attrs.pop().unwrap();
            e.attrs.insert(r.below(e.attrs.len() + 1), a);
        }
        // The serial number survives nesting; 'tabindex'-like carrier: an attribute nobody selects by.
        e.attr("accumulate", &i.to_string());
        attr_decls.push((plain, inline));
        flat.push(e);
    }
    let mut top = gen::nest(r, flat);

    // Link targets, and comments and texts between the elements.
    fn sprinkle(r: &mut Rng, e: &mut E) {
        let mut i = 0;
        while i <= e.kids.len() {
            if r.chance(12) {
                let k = if r.chance(60) { X::C("c".into()) } else { X::T(if r.chance(50) { " ".into() } else { "t".into() }) };
                e.kids.insert(i, k);
                i += 1;
                if r.chance(10) {
                    for _ in 0..r.range(1, 4) {
                        e.kids.insert(i, X::C("c".into()));
                        e.kids.insert(i, X::T("\n".into()));
                        i += 2;
                    }
                }
            }
            i += 1;
        }
        for k in &mut e.kids {
            if let X::E(e) = k {
                sprinkle(r, e);
            }
        }
    }
    let style_count = if r.below(40) == 0 { r.range(4, 20) } else { r.range(1, 3) };
    let svg = match top[0] { X::E(ref mut e) => e, _ => unreachable!() };
    sprinkle(r, svg);
    let mut defs = E::svg("defs");
    for k in 0..4 {
        let mut t = E::svg(["linearGradient", "clipPath", "marker", "mask"][k]);
        t.attr("id", &format!("t{}", k));
        defs.kids.push(X::E(t));
    }
    let at = r.below(svg.kids.len() + 1);
    svg.kids.insert(at, X::E(defs));

    // Style elements take their places first: they are siblings as well.
    fn count(e: &E) -> usize {
        1 + e.kids.iter().map(|k| if let X::E(e) = k { count(e) } else { 0 }).sum::<usize>()
    }
    fn nth<'a>(e: &'a mut E, n: &mut usize) -> Option<&'a mut E> {
        if *n == 0 {
            return Some(e);
        }
        *n -= 1;
        for k in e.kids.iter_mut() {
            if let X::E(c) = k {
                if let Some(x) = nth(c, n) {
                    return Some(x);
                }
            }
        }
        None
    }
    for _ in 0..style_count {
        let c = count(svg);
        let mut at = if r.chance(50) { 0 } else { r.below(c) };
        let parent = nth(svg, &mut at).unwrap();
        if parent.name == "style" {
            continue;
        }
        let mut s = E::svg("style");
        match r.below(8) {
            0 | 1 | 2 => {}
            7 => s.attr("type", *r.pick(&["text/less", "text/plain", "application/css", "TEXT/x", "", "text/css2", "css", "text", "text/xsl", "TEXT/CSS", "Text/css", " text/css", "text/css ", "text/css; charset=utf-8"])),
            _ => s.attr("type", "text/css"),
        }
        if r.chance(12) {
            // None of these matters.
            let (n, v) = *r.pick(&[("media", "print"), ("media", "all"), ("media", "screen"), ("title", "a"), ("xml:space", "default"), ("xml:space", "preserve"),
                                   ("xml:lang", "en"), ("disabled", "true"), ("fill", "red"), ("requiredFeatures", ""), ("rel", "alternate")]);
            s.attr(n, v);
        }
        let at = r.below(parent.kids.len() + 1);
        parent.kids.insert(at, X::E(s));
    }

    // Flat view.
    fn flatten(e: &E, parent: Option<usize>, prev: Option<usize>, out: &mut Vec<El>) -> usize {
        let me = out.len();
        out.push(El {
            tag: e.name.clone(),
            attrs: e.attrs.iter().filter(|a| a.ns == ANs::None).map(|a| (a.name.clone(), a.value.clone())).collect(),
            parent, prev,
            href: e.attrs.iter().find(|a| a.ns == ANs::Xlink).map(|a| a.value.clone()),
        });
        let mut last = None;
        for k in &e.kids {
            if let X::E(c) = k {
                last = Some(flatten(c, Some(me), last, out));
            }
        }
        me
    }
    let mut els = Vec::new();
    flatten(svg, None, None, &mut els);
    let targets: Vec<usize> = (0..els.len()).filter(|i| els[*i].get("id").map_or(false, |v| v.starts_with('t'))).collect();

    // The style sheets, in document order.
    let mut rules: Vec<Rule> = Vec::new();
    let mut sheets = 0;
    {
        let mut idx = Vec::new();
        for (i, e) in els.iter().enumerate() {
            if e.tag == "style" {
                idx.push(i);
            }
        }
        for i in idx {
            let ignored = els[i].get("type").map_or(false, |t| t != "text/css");
            let mut text = String::new();
            if r.chance(8) {
                // Nothing in it at all, or nothing but space.
                obs.hit("empty style elements");
                if r.chance(50) {
                    let mut at = i;
                    nth(svg, &mut at).unwrap().kids.push(X::T(r.pick(&[" ", "\n", "/* x */"]).to_string()));
                }
                continue;
            }
            let wrap = r.chance(30);
            if wrap && r.chance(30) {
                text.push_str("/* head */");
            }
            for _ in 0..gen::size(r, 1, 5) {
                if r.chance(6) {
                    text.push_str(*r.pick(&["@import url(x.css);\n", "@media print { rect { fill: red } }\n", "@charset 'utf-8';"]));
                }
                let sels: Vec<Sel> = (0..if r.chance(20) { r.range(2, 3) } else { 1 }).map(|_| pick_sel(r, n, &tags)).collect();
                // Links only where no link target is matched: circular links are another property's matter.
                let hits_target = sels.iter().any(|s| targets.iter().any(|t| matches(&els, s, s.len() - 1, *t)));
                let mut decls = Vec::new();
                for _ in 0..if r.chance(6) { r.range(4, 20) } else { r.range(1, 3) } {
                    if r.chance(8) {
                        // The shorthand.
                        let d = decl(r, &mut u, "marker-start", !hits_target);
                        decls.push(Decl { name: "marker", ..d });
                    } else {
                        let p = *r.pick(&props);
                        decls.push(decl(r, &mut u, p, !hits_target));
                    }
                }
                if r.chance(12) {
                    let d = no_effect(r);
                    decls.insert(r.below(decls.len() + 1), d);
                    obs.hit("non-presentation declarations");
                }
                let st: Vec<String> = sels.iter().map(|s| sel_text(r, s)).collect();
                let body = decls_text(r, &decls);
                text.push_str(&format!("{}{}{{{}}}{}", st.join(*r.pick(&[",", ", ", " , "])), *r.pick(&["", " ", "\n"]), body,
                                       *r.pick(&["", "\n", " ", "/* c */"])));
                if !ignored {
                    rules.push(Rule { sels, decls });
                }
            }
            if ignored {
                obs.hit("ignored style sheets");
            } else {
                sheets += 1;
            }
            let mut at = i;
            let kids = &mut nth(svg, &mut at).unwrap().kids;
            // Comments and processing instructions are no part of the style sheet.
            let mut rest = text.as_str();
            while !rest.is_empty() && r.chance(12) {
                obs.hit("style sheets with comments in between");
                let mut k = if r.chance(20) { 0 } else { r.below(rest.len()) };
                while !rest.is_char_boundary(k) {
                    k -= 1;
                }
                if k > 0 {
                    kids.push(X::T(rest[..k].to_string()));
                }
                kids.push(if r.chance(60) { X::C(r.pick(&[" c ", "* { fill: red }", "}", ""]).to_string()) } else { X::Pi("pi".into(), "* { stroke: red }".into()) });
                rest = &rest[k..];
            }
            if !rest.is_empty() {
                kids.push(X::T(rest.to_string()));
            }
        }
    }
    if sheets > 1 {
        obs.hit("several style elements");
    }

    let text = to_xml(&top);
    obs.log(text.clone());
    let doc = Document::from_str(&text).map_err(|e| format!("parsing failed: {}", e))?;
    let nodes: Vec<Node> = doc.root().descendants().filter(|n| n.is_element()).take(10_000).collect();
    let kept: Vec<usize> = (0..els.len()).filter(|i| els[*i].tag != "style").collect();
    ensure!(nodes.len() == kept.len(), "the document has {} elements, expected {}", nodes.len(), kept.len());

    let mut nontrivial = false;
    let empty = (Vec::new(), Vec::new());
    for (node, i) in nodes.iter().zip(kept.iter()) {
        let el = &els[*i];
        ensure!(node.tag_id().map(|t| t.as_str()) == Some(&el.tag), "element {} is {:?}, expected {}", i, node, el.tag);
        let (plain, inline) = match el.get("accumulate") {
            Some(k) => &attr_decls[k.parse::<usize>().unwrap()],
            None => &empty,
        };
        // All declarations that apply, in ascending priority: (property, origin, specificity, want).
        let mut app: Vec<(&'static str, u8, (usize, usize, usize), usize, bool, Want)> = Vec::new();
        for d in plain {
            app.push((d.name, 0, (0, 0, 0), 0, false, d.want.clone()));
        }
        let mut seq = 0;
        for ru in &rules {
            for s in &ru.sels {
                seq += 1;
                if !matches(&els, s, s.len() - 1, *i) {
                    continue;
                }
                obs.hit("rules that matched");
                for c in s {
                    match c.comb {
                        Comb::Child => obs.hit("child combinator matches"),
                        Comb::Desc => obs.hit("descendant combinator matches"),
                        Comb::Adj => obs.hit("adjacent combinator matches"),
                        Comb::None => {}
                    }
                    for x in &c.subs {
                        match x {
                            Sub::First => obs.hit("first-child matches"),
                            Sub::Has(_) | Sub::Eq(..) | Sub::Word(..) | Sub::Dash(..) => obs.hit("attribute selector matches"),
                            _ => {}
                        }
                    }
                }
                for d in &ru.decls {
                    if d.name == "marker" {
                        for m in ["marker-start", "marker-mid", "marker-end"] {
                            app.push((m, 1, specificity(s), seq, true, d.want.clone()));
                        }
                    } else if is_present(d.name) {
                        app.push((d.name, 1, specificity(s), seq, false, d.want.clone()));
                    }
                }
            }
        }
        for d in inline {
            if is_present(d.name) {
                app.push((d.name, 2, (0, 0, 0), 0, false, d.want.clone()));
            }
        }
        let before = app.len();
        app.retain(|a| a.5 != Want::Invalid);
        obs.add("invalid declarations skipped", (before - app.len()) as u64);
        // Stable: later declarations of the same rule or style attribute stay behind earlier ones.
        app.sort_by_key(|a| (a.1, a.2, a.3));
        let mut names: Vec<&'static str> = app.iter().map(|a| a.0).collect();
        names.sort();
        names.dedup();

        let mut expected_attrs: Vec<AttributeId> = Vec::new();
        for (name, _) in &el.attrs {
            if ["id", "class", "style"].contains(&name.as_str()) || is_present(name) {
                continue;
            }
            expected_attrs.push(AttributeId::from_str(name).unwrap());
        }
        if let Some(ref h) = el.href {
            expected_attrs.push(AttributeId::Href);
            let ok = match node.attributes().get_value(AttributeId::Href) {
                Some(AttributeValue::Link(n)) => h != "#t4" && format!("#{}", n.id().as_str()) == *h,
                Some(AttributeValue::String(s)) => h == "#t4" && s == h,
                _ => false,
            };
            ensure!(ok, "element {} <{}>: xlink:href={:?} changed", i, el.tag, h);
        }
        for name in names {
            let list: Vec<_> = app.iter().filter(|a| a.0 == name).collect();
            let win = list.last().unwrap();
            if list.len() > 1 {
                obs.hit("competing declarations");
                let prev = list[list.len() - 2];
                if (prev.1, prev.2) != (win.1, win.2) {
                    nontrivial = true;
                }
                if prev.1 == 1 && win.1 == 1 {
                    if prev.2 == win.2 {
                        obs.hit("won by order at equal specificity");
                    } else if list.iter().any(|a| a.1 == 1 && a.3 > win.3) {
                        obs.hit("won by specificity against order");
                    }
                }
                if list.iter().any(|a| matches!(a.5, Want::Link(..)) && a.5 != win.5) {
                    obs.hit("link declarations lost");
                }
                if win.1 == 1 && list[0].1 == 0 {
                    obs.hit("won by a rule over an attribute");
                }
            }
            match win.1 {
                0 => obs.hit("won by the plain attribute"),
                2 => obs.hit("won by the style attribute"),
                _ => {}
            }
            if win.4 {
                obs.hit("marker shorthand won");
            }
            let aid = AttributeId::from_str(name).unwrap();
            let attrs = node.attributes();
            let got = attrs.get_value(aid);
            let link_id = |n: &Node| n.id().clone();
            let fail = |w: String| format!("element {} <{}> {:?}: {} is {:?}, expected {} ({} declarations apply)",
                                           i, el.tag, el.get("id"), name, got.map(|v| v.to_string()), w, list.len());
            match win.5 {
                Want::Val(ref v) => {
                    expected_attrs.push(aid);
                    ensure!(got.map_or(false, |g| snap::same_plain(g, v, 1e-9)), "{}", fail(format!("{:?}", v)));
                }
                Want::Absent => {
                    obs.hit("identity transform won");
                    ensure!(got.is_none(), "{}", fail("nothing (identity)".into()));
                }
                Want::Link(ref id, fb) => {
                    obs.hit("link declarations won");
                    expected_attrs.push(aid);
                    let paint = name == "fill" || name == "stroke";
                    let ok = if id == "t4" {
                        // Dangling.
                        match (got, fb) {
                            (Some(AttributeValue::None), Some(PaintFallback::None)) => true,
                            (Some(AttributeValue::CurrentColor), Some(PaintFallback::CurrentColor)) => true,
                            (Some(AttributeValue::Color(c)), Some(PaintFallback::Color(d))) => *c == d,
                            (Some(AttributeValue::None), None) => name == "fill",
                            (Some(AttributeValue::String(s)), None) => name != "fill" && s == "url(#t4)",
                            _ => false,
                        }
                    } else {
                        match got {
                            Some(AttributeValue::Paint(n, f)) => paint && link_id(n) == *id && *f == fb,
                            Some(AttributeValue::FuncLink(n)) => !paint && link_id(n) == *id,
                            _ => false,
                        }
                    };
                    ensure!(ok, "{}", fail(format!("url(#{}) {:?}", id, fb)));
                }
                Want::Invalid => unreachable!(),
            }
        }
        // Nothing else.
        let mut got: Vec<AttributeId> = Vec::new();
        for a in node.attributes().iter() {
            match a.name {
                QName::Id(id) => got.push(id),
                QName::Name(ref n) => return Err(format!("element {}: attribute with a non-SVG name {:?}", i, n)),
            }
        }
        got.sort();
        expected_attrs.sort();
        ensure!(got == expected_attrs, "element {} <{}>: attributes {:?}, expected {:?}", i, el.tag, got, expected_attrs);
        // Values that no declaration may touch.
        for (name, v) in &el.attrs {
            if ["id", "class", "style"].contains(&name.as_str()) || is_present(name) {
                continue;
            }
            let aid = AttributeId::from_str(name).unwrap();
            ensure!(node.attributes().get_value(aid) == Some(&AttributeValue::String(v.trim().to_string())),
                    "element {} <{}>: {} changed from {:?}", i, el.tag, name, v);
        }
        ensure!(*node.id() == el.get("id").unwrap_or(""), "element {}: id {:?}", i, node.id());
    }
    if nontrivial {
        obs.nontrivial(hash_str(&text));
    }
    Ok(())
}
