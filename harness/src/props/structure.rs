//! C09, C11: what parsing keeps and how references are resolved, against the abstract source document.

use svgdom::*;

use crate::driver::{Ctx, Prop};
use crate::ensure;
use crate::gen;
use crate::names::ELEMENTS;
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, Rng};
use crate::snap;
use crate::xml::*;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09", quick: 600_000, thorough: 9_000_000,
            rule: "a random abstract document mixing SVG and foreign elements, attributes, comments, processing instructions and text is \
                   parsed and compared with the projection computed from the abstract document; non-trivial if something had to vanish",
            required: &[("foreign elements", 1000), ("foreign style elements", 500), ("style elements", 500), ("unknown SVG-namespace elements", 1000), ("SVG elements inside foreign ones", 500),
                        ("unknown attributes", 1000), ("foreign attributes", 1000), ("attributes of the SVG namespace", 500), ("processing instructions", 1000), ("comments", 1000),
                        ("texts", 1000), ("elements compared", 20_000), ("top-level comments", 500), ("wide documents", 20), ("deep documents", 100)],
            assumptions: &["roxmltree parses XML correctly"],
            case: c09,
        },
        Prop {
            id: "C11", quick: 600_000, thorough: 9_000_000,
            rule: "a random document with duplicate, missing, circular, forward and removed reference targets is parsed; every reference \
                   is compared with the outcome computed from the abstract document and all back references are counted; non-trivial if \
                   the document has a resolvable reference",
            required: &[("links made", 20_000), ("deep documents", 100), ("forward references", 2000), ("near-miss ids", 2000), ("duplicate ids", 1000), ("dangling with fallback", 500),
                        ("dangling fill", 300), ("dangling references as text", 1000), ("references to itself or its own id dropped", 500),
                        ("mutual references dropped", 500), ("targets that are not in the result", 500), ("references inside removed elements", 300),
                        ("references overridden", 2000), ("other attributes beside references", 2000)],
            assumptions: &["conflicts between rules are covered by C10"],
            case: c11,
        },
    ]
}

#[derive(Clone, Debug, PartialEq)]
pub struct P {
    depth: usize,
    kind: String,
    id: String,
    text: String,
    attrs: Vec<(AttributeId, AttributeValue)>,
}

pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

const UNKNOWN: &[&str] = &["foo", "Rect", "my-elem", "div", "G", "lineargradient", "svg2", "_g", "fe", "textarea"];
const UNKNOWN_ATTRS: &[&str] = &["foo", "data-x", "Fill", "stroke_width", "fil", "viewbox", "y3", "ID", "xmlspace", "opacity2"];

pub fn text_piece(r: &mut Rng) -> String {
    const P: &[&str] = &[" ", "\n  ", "abc", "é", "日本", "x<y", "1 2", "\u{a0}", "\t", ">", "'", "😀", "lorem ipsum", "\u{200b}", "\u{feff}", "\u{2003}", "\u{3000}"];
    (0..r.range(1, 4)).map(|_| *r.pick(P)).collect()
}

struct G<'a> {
    obs: &'a mut Obs,
    budget: usize,
    vanished: bool,
}

impl G<'_> {
    fn text(&mut self, r: &mut Rng, kept: Option<usize>, want: &mut Vec<P>) -> X {
        let t = text_piece(r);
        if let Some(depth) = kept {
            let s = squeeze(&t);
            if !s.is_empty() {
                self.obs.hit("texts");
                match want.last_mut() {
                    Some(p) if p.kind == "text" && p.depth == depth => p.text.push_str(&s),
                    _ => want.push(P { depth, kind: "text".into(), id: String::new(), text: s, attrs: vec![] }),
                }
            }
        }
        X::T(t)
    }

    fn comment(&mut self, r: &mut Rng, kept: Option<usize>, want: &mut Vec<P>) -> X {
        let t = match r.below(40) {
            0 => "comment, ".repeat(if r.below(20) == 0 { r.range(1000, 8000) } else { r.range(10, 300) }),
            1 => crate::dom::rand_str(r).replace(|c| c == '-' || c == '\r', "+"),
            _ => r.pick(&["c", " a comment ", "x - y", "<g/>", "é &amp;", "\n", "", " ", "]]>", "?>", "\u{a0}"]).to_string(),
        };
        if let Some(depth) = kept {
            self.obs.hit("comments");
            want.push(P { depth, kind: "comment".into(), id: String::new(), text: t.clone(), attrs: vec![] });
        }
        X::C(t)
    }

    /// `kept`: depth in the result, or None inside of something that vanishes.
    fn elem(&mut self, r: &mut Rng, kept: Option<usize>, level: usize, want: &mut Vec<P>) -> X {
        self.budget = self.budget.saturating_sub(1);
        let class = r.below(10);
        let mut e;
        let mut here = kept;
        if class < 7 || level == 0 {
            let name = loop {
                let n = r.pick(ELEMENTS).0;
                if n != "style" {
                    break n;
                }
            };
            e = E::svg(if level == 0 { "svg" } else { name });
            if kept.is_none() {
                self.obs.hit("SVG elements inside foreign ones");
            }
        } else if class == 7 {
            e = E::svg(r.pick(UNKNOWN));
            self.obs.hit("unknown SVG-namespace elements");
            self.vanished = true;
            here = None;
        } else {
            let name = if r.chance(50) { *r.pick(UNKNOWN) } else { *r.pick(&["rect", "g", "svg", "text", "path", "style", "style"]) };
            e = E::svg(name);
            e.ns = if r.chance(30) { Ns::Null } else { Ns::Foreign(r.below(FOREIGN.len())) };
            self.obs.hit("foreign elements");
            if name == "style" {
                self.obs.hit("foreign style elements");
                if r.chance(30) {
                    e.attr("type", "text/css");
                }
                e.kids.push(X::T(r.pick(&["*{fill:red}", "svg{display:none}", "rect,g{transform:scale(2)}", "*{stroke:url(#a)}"]).to_string()));
            }
            self.vanished = true;
            here = None;
        }

        let mut p = P { depth: here.unwrap_or(0), kind: format!("<{}>", e.name), id: String::new(), text: String::new(), attrs: vec![] };
        if r.chance(50) {
            let id = r.pick(&["a", "b", "é1", "x y", "_", "1", " a", "b ", " ", "A", "#a", "\u{a0}q", "a\u{200b}", "&", "&amp;", "<", "\"'"]).to_string();
            e.attr("id", &id);
            p.id = id;
        }
        for _ in 0..match r.below(200) { 0 => r.range(20, 60), 1..=15 => r.range(5, 14), _ => r.below(5) } {
            match r.below(6) {
                0 => {
                    let n = *r.pick(UNKNOWN_ATTRS);
                    if !e.has(ANs::None, n) {
                        e.attr(n, "red");
                        self.obs.hit("unknown attributes");
                        self.vanished = true;
                    }
                }
                1 => {
                    let n = *r.pick(&["fill", "id", "width", "foo", "d", "style", "href", "space"]);
                    let ns = ANs::Foreign(r.below(FOREIGN.len()));
                    if !e.has(ns, n) {
                        e.attrs.push(A { ns, name: n.to_string(), value: "10".to_string() });
                        self.obs.hit("foreign attributes");
                        self.vanished = true;
                    }
                }
                2 => {
                    let (n, id) = *r.pick(&[("xml:lang", AttributeId::Lang), ("xml:base", AttributeId::Base)]);
                    let v = r.pick(&["en", "x y", "é"]).to_string();
                    if e.attrs.iter().all(|a| a.name != id.as_str()) {
                        e.attr(n, &v);
                        p.attrs.push((id, AttributeValue::String(v)));
                    }
                }
                3 if r.chance(50) => {
                    // Positions, often equal ones.
                    let (n, id) = *r.pick(&[("x", AttributeId::X), ("y", AttributeId::Y), ("dx", AttributeId::Dx), ("dy", AttributeId::Dy)]);
                    let v = r.below(3);
                    if !["text", "tspan", "tref", "textPath", "altGlyph"].contains(&e.name.as_str()) && e.attrs.iter().all(|a| a.name != n) {
                        self.obs.hit("positions");
                        e.attr(n, &v.to_string());
                        p.attrs.push((id, AttributeValue::Length(Length::new(v as f64, LengthUnit::None))));
                    }
                }
                3 => {
                    if e.attrs.iter().all(|a| a.name != "title") {
                        e.attrs.push(A { ns: ANs::Xlink, name: "title".into(), value: "T".into() });
                        p.attrs.push((AttributeId::Title, AttributeValue::String("T".into())));
                    }
                }
                _ => {
                    let (id, t, v) = gen::attr(r);
                    if e.attrs.iter().all(|a| a.name != id.as_str() || matches!(a.ns, ANs::Foreign(_))) {
                        e.attr(gen::source_name(id), &t);
                        let last = e.attrs.last_mut().unwrap();
                        if last.ns == ANs::None && r.chance(6) {
                            self.obs.hit("attributes of the SVG namespace");
                            last.ns = *r.pick(&[ANs::Svg, ANs::Svg, ANs::Xlink, ANs::Xml]);
                        }
                        p.attrs.push((id, v));
                    }
                }
            }
        }
        if r.chance(50) {
            r.shuffle(&mut e.attrs);
        }
        p.attrs.sort_by_key(|a| a.0);
        if here.is_some() {
            want.push(p);
        }

        let mut inner = here.map(|d| d + 1);
        let mut chain: Vec<E> = Vec::new();
        if level == 0 && r.below(400) == 0 {
            self.obs.hit("deep documents");
            for _ in 0..r.range(20, 150) {
                let name = *r.pick(&["g", "svg", "a", "switch", "defs", "symbol"]);
                want.push(P { depth: inner.unwrap(), kind: format!("<{}>", name), id: String::new(), text: String::new(), attrs: vec![] });
                inner = inner.map(|d| d + 1);
                chain.push(E::svg(name));
            }
        }
        let outer = if chain.is_empty() { None } else { Some(std::mem::replace(&mut e, chain.pop().unwrap())) };
        let n = if level == 0 { if self.budget > 60 { self.budget } else { r.range(0, 6) } } else if level > 6 { 0 } else { r.below(4) };
        let mut last_text = false;
        for _ in 0..n {
            match r.below(10) {
                0 | 1 => {
                    if !last_text {
                        let x = self.text(r, inner, want);
                        e.kids.push(x);
                        last_text = true;
                        continue;
                    }
                }
                2 => { let x = self.comment(r, inner, want); e.kids.push(x) }
                3 => {
                    self.obs.hit("processing instructions");
                    self.vanished = true;
                    e.kids.push(X::Pi(r.pick(&["pi", "php", "xml-stylesheet"]).to_string(), "href='a' <g>".into()));
                }
                4 if r.chance(40) => {
                    // Vanishes; its surroundings stay.
                    let n = if r.below(200) == 0 { r.range(20, 80) } else { r.range(1, 2) };
                    for _ in 0..n {
                        let mut s = E::svg("style");
                        if r.chance(50) {
                            s.kids.push(X::T(r.pick(&[" ", "/* */", "none{fill:red}", ".none{stroke:red}"]).to_string()));
                        }
                        e.kids.push(X::E(s));
                        self.obs.hit("style elements");
                    }
                    self.vanished = true;
                    if r.chance(50) {
                        last_text = false;
                        break;
                    }
                }
                _ => {
                    if self.budget > 0 {
                        let x = self.elem(r, inner, level + 1, want);
                        e.kids.push(x);
                    }
                }
            }
            last_text = false;
        }
        if let Some(mut o) = outer {
            while let Some(mut c) = chain.pop() {
                c.kids.push(X::E(e));
                e = c;
            }
            o.kids.push(X::E(e));
            e = o;
        }
        X::E(e)
    }
}

fn project(doc: &Document) -> Result<Vec<P>, String> {
    let mut v: Vec<P> = Vec::new();
    let mut stack: Vec<(Node, usize, bool)> = Vec::new();
    let push = |stack: &mut Vec<(Node, usize, bool)>, n: &Node, d: usize, t: bool| {
        let mut kids = Vec::new();
        let mut c = n.first_child();
        while let Some(k) = c {
            c = k.next_sibling();
            kids.push((k, d, t));
        }
        kids.reverse();
        stack.extend(kids);
    };
    push(&mut stack, &doc.root(), 0, false);
    while let Some((n, depth, in_text)) = stack.pop() {
        ensure!(v.len() < 100_000, "the tree does not end");
        match n.node_type() {
            NodeType::Root => return Err("a root inside of the tree".into()),
            NodeType::Comment => v.push(P { depth, kind: "comment".into(), id: String::new(), text: n.text().clone(), attrs: vec![] }),
            NodeType::Text => {
                let s = squeeze(&n.text());
                ensure!(!s.is_empty() || in_text, "whitespace {:?} outside of a text element was kept", *n.text());
                if !s.is_empty() {
                    match v.last_mut() {
                        Some(p) if p.kind == "text" && p.depth == depth => p.text.push_str(&s),
                        _ => v.push(P { depth, kind: "text".into(), id: String::new(), text: s, attrs: vec![] }),
                    }
                }
            }
            NodeType::Element => {
                let tag = n.tag_name().clone();
                let name = match tag {
                    QName::Id(id) => id.as_str().to_string(),
                    QName::Name(ref s) => return Err(format!("an element with the non-SVG name {:?}", s)),
                };
                let mut attrs = Vec::new();
                for a in n.attributes().iter() {
                    match a.name {
                        QName::Id(id) => attrs.push((id, a.value.clone())),
                        QName::Name(ref s) => return Err(format!("an attribute with the non-SVG name {:?}", s)),
                    }
                }
                attrs.sort_by_key(|a| a.0);
                let t = in_text || ["text", "tspan", "tref", "textPath", "altGlyph"].contains(&name.as_str());
                v.push(P { depth, kind: format!("<{}>", name), id: n.id().clone(), text: String::new(), attrs });
                push(&mut stack, &n, depth + 1, t);
            }
        }
    }
    Ok(v)
}

fn c09(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let mut want = Vec::new();
    let mut top = Vec::new();
    let budget = if r.below(1500) == 0 { r.range(250, 700) } else { gen::size(r, 1, 25) };
    if budget > 200 {
        obs.hit("wide documents");
    }
    let mut g = G { obs, budget, vanished: false };
    for _ in 0..r.below(3) {
        if r.chance(70) {
            g.obs.hit("top-level comments");
            let x = g.comment(r, Some(0), &mut want);
            top.push(x);
        } else {
            top.push(X::Pi("pi".into(), "x".into()));
        }
    }
    let x = g.elem(r, Some(0), 0, &mut want);
    top.push(x);
    for _ in 0..r.below(3) {
        if r.chance(70) {
            g.obs.hit("top-level comments");
            let x = g.comment(r, Some(0), &mut want);
            top.push(x);
        } else {
            top.push(X::Pi("pi".into(), "x".into()));
        }
    }
    let vanished = g.vanished;
    let text = to_xml(&top);
    obs.log(text.clone());
    let doc = Document::from_str(&text).map_err(|e| format!("parsing failed: {}", e))?;
    let got = project(&doc)?;
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        ensure!(g.depth == w.depth && g.kind == w.kind && g.id == w.id && g.text == w.text,
                "kept node {} is {:?}, expected {:?}", i, g, w);
        let names = |p: &P| p.attrs.iter().map(|a| a.0).collect::<Vec<_>>();
        ensure!(names(g) == names(w), "kept node {} {} has attributes {:?}, expected {:?}", i, g.kind, names(g), names(w));
        for (a, b) in g.attrs.iter().zip(w.attrs.iter()) {
            ensure!(snap::same_plain(&a.1, &b.1, 0.0), "kept node {} {}: {:?} is {:?}, expected {:?}", i, g.kind, a.0, a.1, b.1);
        }
        obs.hit("elements compared");
    }
    ensure!(got.len() == want.len(), "{} nodes are kept, expected {}: {:?}", got.len(), want.len(),
            if got.len() > want.len() { &got[want.len()] } else { &want[got.len()] });
    if vanished {
        obs.nontrivial(hash_str(&text));
    }
    Ok(())
}

// ---- C11 ----------------------------------------------------------------------------------

struct Src {
    id: String,
    /// Part of the result.
    kept: bool,
    refs: Vec<(&'static str, String, Option<PaintFallback>)>,
    /// Attributes that are no references, as they are displayed.
    plain: Vec<(&'static str, String)>,
}

/// Attributes that have nothing to do with references.
const OTHERS: &[(&str, &str)] = &[
    ("color", "#102030"), ("stroke-width", "2"), ("opacity", "0.5"), ("display", "none"), ("visibility", "hidden"), ("cursor", "auto"),
    ("fill-opacity", "0.25"), ("stroke-linecap", "round"), ("clip-rule", "evenodd"), ("xml:space", "preserve"), ("color-profile", "a"), ("flood-color", "#010203"),
];

fn c11(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let n = gen::size(r, 2, 14);
    let few = r.chance(40);
    let ids: Vec<String> = (0..if few { r.range(1, 3) } else { n }).map(|i| match if r.chance(8) { 9 + r.below(4) } else { i % 9 } {
        9 => format!("'q{}'", i),
        10 => format!("__{}", i),
        11 => format!("n:{}", i),
        12 => format!("\"{}", i),
        5 if r.chance(50) => format!("p%20q{}", i),
        6 if r.chance(50) => format!("d{}/e/", i),
        7 if r.chance(50) => format!("v.{}.", i),
        8 if r.chance(50) => format!("xpointer-{}", "long-".repeat(r.range(1, 30))),
        3 => format!("é{}", i),
        4 => format!("a-b_{}", i),
        _ => format!("i{}", i),
    }).collect();
    let mut flat: Vec<E> = Vec::new();
    for i in 0..n {
        // Elements that will not be part of the result.
        let gone = i > 0 && r.chance(12);
        let mut e = if !gone {
            E::svg(if i == 0 { "svg" } else if r.chance(10) { *r.pick(&["tref", "tspan", "textPath", "text", "altGlyph"]) } else { gen::tag(r) })
        } else {
            match r.below(3) {
                0 => E::svg("style"),
                1 => E::svg("unknown"),
                _ => { let mut e = E::svg("g"); e.ns = Ns::Foreign(0); e }
            }
        };
        if r.chance(80) {
            let mut id = if r.chance(20) { r.pick(&ids).clone() } else { ids[i % ids.len()].clone() };
            if r.chance(8) {
                // Nearly the id that others refer to.
                obs.hit("near-miss ids");
                id = match r.below(12) {
                    9 => format!("'{}'", id),
                    10 => format!("_{}", id),
                    5 => format!("{}/", id),
                    6 => format!("{}.", id),
                    7 => format!("%23{}", id),
                    8 => id.replace("%20", " "),
                    0 => id.to_uppercase(),
                    1 => format!(" {}", id),
                    2 => format!("{} ", id),
                    3 => format!("{}1", id),
                    4 => format!("#{}", id),
                    _ => id.chars().take(id.chars().count() - 1).collect(),
                };
            }
            e.attr("id", &id);
        }
        let mut seen: Vec<&str> = Vec::new();
        for _ in 0..r.below(4) {
            let a = *r.pick_pal(gen::LINK_SRC);
            if seen.contains(&a) || (a == "fill" && gen::ANIMATIONS.contains(&e.name.as_str())) {
                continue;
            }
            seen.push(a);
            let id = if r.chance(15) { "missing".to_string() } else { r.pick(&ids).clone() };
            let (t, _) = gen::link_text(r, a, &id);
            if r.chance(25) && a != "xlink:href" && !id.contains(|c| c == '\'' || c == '"' || c == ':') && e.attrs.iter().all(|x| x.name != "style") {
                e.attr("style", &format!("{}:{}", a, t));
            } else {
                e.attr(a, &t);
            }
        }
        let own: Vec<String> = e.attrs.iter().map(|a| a.name.clone()).filter(|a| a != "id" && a != "href").collect();
        if !own.is_empty() && !own.iter().any(|a| a == "style") && r.chance(20) {
            // Something else takes the place of a reference.
            let a = r.pick(&own).clone();
            let t = if r.chance(35) {
                // One that cannot be dropped: what then becomes of the other is not specified.
                gen::link_text(r, &a, "missing").0
            } else if a == "fill" || a == "stroke" {
                r.pick(&["none", "#0a0b0c", "currentColor", "inherit"]).to_string()
            } else {
                r.pick(&["none", "inherit"]).to_string()
            };
            e.attr("style", &format!("{}:{}", a, t));
            obs.hit("references overridden");
        }
        if r.chance(15) {
            for _ in 0..r.range(1, 2) {
                let (a, v) = *r.pick(OTHERS);
                if e.attrs.iter().all(|x| x.name != a && !(a == "xml:space" && x.name == "space")) {
                    e.attr(a, v);
                    obs.hit("other attributes beside references");
                }
            }
        }
        if r.chance(30) {
            r.shuffle(&mut e.attrs);
        }
        flat.push(e);
    }
    let mut top = gen::nest(r, flat);
    if r.below(60) == 0 {
        // Everything far below the document element.
        obs.hit("deep documents");
        if let X::E(ref mut e) = top[0] {
            for _ in 0..r.range(20, 120) {
                let mut g = E::svg("g");
                g.kids = std::mem::take(&mut e.kids);
                e.kids.push(X::E(g));
            }
            if r.chance(50) {
                let mut k = E::svg("use");
                k.attr("xlink:href", &format!("#{}", r.pick(&ids)));
                e.kids.insert(r.below(2), X::E(k));
            }
        }
    }
    let text = to_xml(&top);
    obs.log(text.clone());

    // The model reads the abstract document.
    fn parse_ref(name: &str, v: &str) -> Option<(String, Option<PaintFallback>)> {
        if name == "href" {
            return Some((v.strip_prefix('#')?.to_string(), None));
        }
        let v = v.strip_prefix("url(#")?;
        let (id, rest) = v.split_once(')')?;
        let fb = match rest.trim() {
            "" => None,
            "none" => Some(PaintFallback::None),
            "currentColor" => Some(PaintFallback::CurrentColor),
            c => Some(PaintFallback::Color(c.parse().ok()?)),
        };
        Some((id.to_string(), fb))
    }
    fn walk(x: &E, kept: bool, out: &mut Vec<Src>) {
        let kept = kept && x.ns == Ns::Svg && x.name != "style" && x.name != "unknown";
        let mut s = Src { id: String::new(), kept, refs: vec![], plain: vec![] };
        let mut css = None;
        for a in &x.attrs {
            match a.name.as_str() {
                "id" => s.id = a.value.clone(),
                "style" => css = Some(a.value.clone()),
                n => if let Some((id, fb)) = parse_ref(n, &a.value) {
                    let n = gen::LINK_SRC.iter().find(|l| **l == n || (n == "href" && **l == "xlink:href")).unwrap();
                    s.refs.push((n, id, fb));
                } else {
                    let (o, _) = OTHERS.iter().find(|o| o.0 == n || (o.0 == "xml:space" && n == "space")).unwrap();
                    s.plain.push((o, a.value.clone()));
                },
            }
        }
        if let Some(c) = css {
            let (n, v) = c.split_once(':').unwrap();
            s.refs.retain(|l| l.0 != n);
            let l = gen::LINK_SRC.iter().find(|l| **l == n).unwrap();
            match parse_ref(n, v) {
                Some((id, fb)) => s.refs.push((l, id, fb)),
                None => s.plain.push((l, v.to_string())),
            }
        }
        out.push(s);
        for k in &x.kids {
            if let X::E(e) = k {
                walk(e, kept, out);
            }
        }
    }
    let mut src = Vec::new();
    if let X::E(ref e) = top[0] {
        walk(e, true, &mut src);
    }
    // A reference inside of an element that appears twice under one name cannot happen: see above.
    for s in src.iter().filter(|s| !s.kept) {
        if !s.refs.is_empty() {
            obs.hit("references inside removed elements");
        }
        if !s.id.is_empty() && src.iter().any(|x| x.kept && x.refs.iter().any(|l| l.1 == s.id)) {
            obs.hit("targets that are not in the result");
        }
    }
    let res: Vec<&Src> = src.iter().filter(|s| s.kept).collect();

    let doc = Document::from_str(&text).map_err(|e| format!("parsing failed: {}", e))?;
    let nodes: Vec<Node> = doc.root().descendants().filter(|n| n.is_element()).take(10_000).collect();
    ensure!(nodes.len() == res.len(), "the document has {} elements, expected {}", nodes.len(), res.len());

    let mut links: Vec<(usize, usize)> = Vec::new();
    let mut any = false;
    for (i, s) in res.iter().enumerate() {
        for (name, id, fb) in &s.refs {
            let aid = if *name == "xlink:href" { AttributeId::Href } else { AttributeId::from_str(name).unwrap() };
            let got = nodes[i].attributes().get_value(aid).cloned();
            let target = res.iter().position(|t| t.id == *id && !t.id.is_empty());
            if res.iter().filter(|t| t.id == *id).count() > 1 {
                obs.hit("duplicate ids");
            }
            let at = |n: &Node| nodes.iter().position(|x| x == n);
            match target {
                Some(t) if res[t].id == s.id || t == i => {
                    obs.hit("references to itself or its own id dropped");
                    ensure!(got.is_none(), "element {}: {} refers to its own id, but is {:?}", i, name, got);
                }
                Some(t) if links.contains(&(t, i)) => {
                    obs.hit("mutual references dropped");
                    ensure!(got.is_none(), "element {}: {} refers back to element {}, but is {:?}", i, name, t, got);
                }
                Some(t) => {
                    obs.hit("links made");
                    any = true;
                    if t > i {
                        obs.hit("forward references");
                    }
                    let ok = match (got.as_ref(), *name) {
                        (Some(AttributeValue::Link(n)), "xlink:href") => at(n) == Some(t),
                        (Some(AttributeValue::Paint(n, f)), "fill") | (Some(AttributeValue::Paint(n, f)), "stroke") =>
                            at(n) == Some(t) && f == fb,
                        (Some(AttributeValue::FuncLink(n)), "xlink:href") | (Some(AttributeValue::FuncLink(n)), "fill")
                        | (Some(AttributeValue::FuncLink(n)), "stroke") => { let _ = n; false }
                        (Some(AttributeValue::FuncLink(n)), _) => at(n) == Some(t),
                        _ => false,
                    };
                    ensure!(ok, "element {}: {} must link to element {} ({:?}, fallback {:?}), but is {}", i, name, t, id, fb,
                            match got {
                                Some(AttributeValue::Link(ref n)) | Some(AttributeValue::FuncLink(ref n)) => format!("a link to element {:?}", at(n)),
                                Some(AttributeValue::Paint(ref n, f)) => format!("a paint link to element {:?} with {:?}", at(n), f),
                                ref v => format!("{:?}", v),
                            });
                    links.push((i, t));
                }
                None => {
                    let want = match fb {
                        Some(PaintFallback::None) => AttributeValue::None,
                        Some(PaintFallback::CurrentColor) => AttributeValue::CurrentColor,
                        Some(PaintFallback::Color(c)) => AttributeValue::Color(*c),
                        None => match *name {
                            "fill" => AttributeValue::None,
                            "xlink:href" => AttributeValue::String(format!("#{}", id)),
                            _ => AttributeValue::String(format!("url(#{})", id)),
                        },
                    };
                    obs.hit(if fb.is_some() { "dangling with fallback" } else if *name == "fill" { "dangling fill" }
                            else { "dangling references as text" });
                    ensure!(got.as_ref() == Some(&want), "element {}: dangling {} (#{}, {:?}) is {:?}, expected {:?}", i, name, id, fb, got, want);
                }
            }
        }
        // Nothing else appeared.
        let extra = nodes[i].attributes().len();
        ensure!(extra <= s.refs.len() + s.plain.len(), "element {} has {} attributes, but the source has {}", i, extra, s.refs.len() + s.plain.len());
        for (name, v) in &s.plain {
            let aid = if *name == "xml:space" { AttributeId::Space } else { AttributeId::from_str(name).unwrap() };
            let got = nodes[i].attributes().get_value(aid).map(|v| v.to_string());
            ensure!(got.as_ref() == Some(v), "element {}: {} is {:?}, expected {:?}", i, name, got, v);
        }
    }
    for (t, node) in nodes.iter().enumerate() {
        let mut want: Vec<usize> = links.iter().filter(|l| l.1 == t).map(|l| l.0).collect();
        want.sort();
        let mut got: Vec<usize> = node.linked_nodes().iter().map(|n| nodes.iter().position(|x| x == n).unwrap_or(usize::MAX)).collect();
        got.sort();
        ensure!(got == want, "element {} is linked by {:?}, expected {:?}", t, got, want);
        ensure!(node.uses_count() == want.len(), "element {}: uses_count is {}", t, node.uses_count());
    }
    if any {
        obs.nontrivial(hash_str(&text));
    }
    Ok(())
}
