//! C13: whitespace of text, against the source text.

use svgdom::*;

use crate::driver::{Ctx, Prop};
use crate::ensure;
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, Rng};
use crate::xml::*;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C13", quick: 600_000, thorough: 9_000_000,
        rule: "a random nest of text elements, comments and xml:space values is parsed; the kept characters, their place, the spaces and \
               the xml:space attributes are compared with the source; non-trivial if a text element has at least two text nodes",
        required: &[("all default", 10_000), ("all preserve", 5000), ("mixed", 5000), ("whitespace-only texts", 5000), ("spaces at element borders", 5000),
                    ("comments inside text", 2000), ("inherited xml:space", 2000), ("texts compared", 50_000), ("nested three deep", 1000),
                    ("non-ASCII texts", 2000), ("preserved texts among others", 5000), ("borders compared", 20_000), ("text content outside of a text element", 5000)],
        assumptions: &["texts outside of text elements only in title and desc", "whitespace-only text only in text, tspan and tref"],
        case: c13,
    }]
}

const TEXTS: &[&str] = &["text", "tspan", "tref", "textPath", "altGlyph"];

fn ws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r'
}

const WORDS: &[&str] = &["a", "bc", "é", "日本", "x<y", "😀", "\u{a0}", "0", "d-e", "&", "'", "\u{2003}z", "ﬁ", "]]", "ж", "\u{2028}", "\u{85}", "\u{3000}w", "\u{200b}", "\u{feff}"];
const SPACES: &[&str] = &[" ", " ", "  ", "\n", "\t", "\n   ", " \t ", "    ", "\n\n", "\r", "\r\n"];

/// Valid on every element.
const OTHERS: &[(&str, &str)] = &[
    ("rotate", "10"), ("textLength", "50"), ("lengthAdjust", "spacing"), ("class", "c"), ("x", "1"), ("y", "2"), ("dx", "3"), ("dy", "4"),
    ("fill", "red"), ("font-size", "10"), ("font-family", "Arial"), ("text-anchor", "middle"), ("opacity", "0.5"), ("transform", "rotate(10)"),
    ("writing-mode", "tb"), ("letter-spacing", "2"), ("word-spacing", "3"), ("kerning", "1"), ("display", "none"), ("visibility", "hidden"),
    ("xml:lang", "en"), ("direction", "rtl"), ("baseline-shift", "sub"),
];

struct G<'a> {
    obs: &'a mut Obs,
    mode: usize,
    budget: usize,
}

impl G<'_> {
    fn text(&mut self, r: &mut Rng, blank_ok: bool) -> X {
        let mut t = String::new();
        if blank_ok && r.chance(25) {
            self.obs.hit("whitespace-only texts");
            for _ in 0..r.range(1, 2) {
                t.push_str(*r.pick(SPACES));
            }
            return X::T(t);
        }
        if r.chance(50) {
            self.obs.hit("spaces at element borders");
            t.push_str(*r.pick(SPACES));
        }
        // Now and then a long one.
        for i in 0..match r.below(40) { 0 if r.below(30) == 0 => { self.obs.hit("very long texts"); r.range(1000, 5000) } 0 => r.range(20, 40), 1 => r.range(100, 300), _ => r.range(1, 3) } {
            if i > 0 && r.chance(80) {
                t.push_str(*r.pick(SPACES));
            }
            let mut w = *r.pick(WORDS);
            if !blank_ok && w.trim().is_empty() {
                w = "q";
            }
            if !w.is_ascii() {
                self.obs.hit("non-ASCII texts");
            }
            t.push_str(w);
        }
        if r.chance(50) {
            t.push_str(*r.pick(SPACES));
        }
        X::T(t)
    }

    fn space(&mut self, r: &mut Rng, e: &mut E, top: bool) {
        self.space_only(r, e, top);
        if r.chance(20) {
            // Attributes which have nothing to do with it.
            for _ in 0..r.range(1, 3) {
                let (a, v) = *r.pick(OTHERS);
                if !e.attrs.iter().any(|x| x.name == a.trim_start_matches("xml:")) {
                    self.obs.hit("other attributes");
                    e.attr(a, v);
                }
            }
            r.shuffle(&mut e.attrs);
        }
    }

    fn space_only(&mut self, r: &mut Rng, e: &mut E, top: bool) {
        match self.mode {
            0 => if r.chance(15) {
                e.attr("xml:space", *r.pick(&["default", "default", "qwerty", "", "Preserve", "preserved", "PRESERVE", "x preserve"]));
            },
            1 => if top || r.chance(15) {
                e.attr("xml:space", "preserve");
            },
            _ => if r.chance(40) {
                e.attr("xml:space", *r.pick(&["default", "preserve", "default", "preserve", "default", "preserve", "qwerty", ""]));
            },
        }
    }

    fn fill(&mut self, r: &mut Rng, e: &mut E, depth: usize) {
        if depth == 3 {
            self.obs.hit("nested three deep");
        }
        let blank_ok = ["text", "tspan", "tref"].contains(&e.name.as_str());
        let n = if self.budget > 60 { 40 } else { r.range(1, 4) };
        let mut last_text = false;
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            match r.below(10) {
                0..=4 if !last_text => {
                    e.kids.push(self.text(r, blank_ok));
                    last_text = true;
                }
                5 => {
                    self.obs.hit("comments inside text");
                    e.kids.push(X::C(r.pick(&["c", " c ", "<>"]).to_string()));
                    last_text = false;
                }
                _ => {
                    let mut k = E::svg(*r.pick(&["tspan", "tspan", "tspan", "tref", "textPath", "a", "altGlyph", "text"]));
                    self.space(r, &mut k, false);
                    if depth < 4 || (depth < 12 && r.chance(70)) {
                        self.fill(r, &mut k, depth + 1);
                    }
                    e.kids.push(X::E(k));
                    last_text = false;
                }
            }
        }
    }
}

/// Structure with all whitespace of texts left out; adjacent texts are one.
fn shape(e: &E, out: &mut Vec<String>) {
    let sp = e.attrs.iter().find(|a| a.ns == ANs::Xml && a.name == "space").map(|a| a.value.clone());
    out.push(format!("<{} {:?} {:?}>", e.name, sp, others(e.attrs.iter().map(|a| a.name.as_str()))));
    for k in &e.kids {
        match k {
            X::E(c) => shape(c, out),
            X::C(c) => out.push(format!("<!--{}-->", c)),
            X::T(t) => push_text(t, out),
            X::Pi(..) => {}
        }
    }
    out.push(format!("</{}>", e.name));
}

/// The other stored attributes.
fn others<'a>(names: impl Iterator<Item = &'a str>) -> Vec<String> {
    let mut v: Vec<String> = names.filter(|n| *n != "space" && *n != "class").map(|n| n.trim_start_matches("xml:").to_string()).collect();
    v.sort();
    v
}

fn push_text(t: &str, out: &mut Vec<String>) {
    let s: String = t.chars().filter(|c| !ws(*c)).collect();
    if s.is_empty() {
        return;
    }
    match out.last_mut() {
        Some(l) if l.starts_with('T') => l.push_str(&s),
        _ => out.push(format!("T{}", s)),
    }
}

fn shape_dom(n: &Node, out: &mut Vec<String>) -> Res {
    let name = n.tag_id().map(|t| t.as_str()).unwrap_or("?");
    let sp = match n.attributes().get_value(AttributeId::Space) {
        Some(AttributeValue::String(s)) => Some(s.clone()),
        Some(v) => return Err(format!("xml:space is {:?}", v)),
        None => None,
    };
    out.push(format!("<{} {:?} {:?}>", name, sp, others(n.attributes().iter().map(|a| a.id().map_or("?", |i| i.as_str())))));
    for k in n.children() {
        match k.node_type() {
            NodeType::Element => shape_dom(&k, out)?,
            NodeType::Comment => out.push(format!("<!--{}-->", *k.text())),
            NodeType::Text => {
                ensure!(!k.text().is_empty(), "an empty text node was left");
                ensure!(!k.text().contains(|c| c == '\t' || c == '\n' || c == '\r'), "a tab or line break was left in {:?}", *k.text());
                push_text(&k.text(), out);
            }
            NodeType::Root => return Err("a root inside of the tree".into()),
        }
    }
    out.push(format!("</{}>", name));
    Ok(())
}

fn all_text(e: &E, out: &mut String) {
    for k in &e.kids {
        match k {
            X::E(c) => all_text(c, out),
            X::T(t) => out.push_str(t),
            _ => {}
        }
    }
}

/// The text nodes with their parent's name, in order.
fn nodes_of(e: &E, out: &mut Vec<(String, String)>) {
    for k in &e.kids {
        match k {
            X::E(c) => nodes_of(c, out),
            X::T(t) => out.push((e.name.clone(), t.clone())),
            _ => {}
        }
    }
}

fn own_space(e: &E) -> Option<String> {
    e.attrs.iter().find(|a| a.ns == ANs::Xml && a.name == "space").map(|a| a.value.clone())
}

/// The texts and whether preserve governs them.
fn governed(e: &E, preserve: bool, out: &mut Vec<(String, bool)>) {
    for k in &e.kids {
        match k {
            X::E(c) => governed(c, own_space(c).map_or(preserve, |s| s == "preserve"), out),
            X::T(t) => out.push((t.clone(), preserve)),
            _ => {}
        }
    }
}

/// Every source text with the text node it became, how deep it stands and whether preserve governs it.
struct Pair {
    src: String,
    got: Option<String>,
    depth: usize,
    preserve: bool,
}

/// Elements and comments are known to be the same on both sides, texts stand between them.
fn pair(e: &E, n: &Node, depth: usize, preserve: bool, out: &mut Vec<Pair>) {
    let kids: Vec<Node> = n.children().collect();
    let mut at = 0;
    for k in &e.kids {
        match k {
            X::T(t) => {
                let mut got = None;
                while at < kids.len() && kids[at].is_text() {
                    got.get_or_insert_with(String::new).push_str(&kids[at].text());
                    at += 1;
                }
                out.push(Pair { src: t.clone(), got, depth, preserve });
            }
            X::E(c) => {
                while at < kids.len() && !kids[at].is_element() {
                    at += 1;
                }
                if at < kids.len() {
                    pair(c, &kids[at], depth + 1, own_space(c).map_or(preserve, |s| s == "preserve"), out);
                    at += 1;
                }
            }
            X::C(_) => at += 1,
            _ => {}
        }
    }
}

/// Runs of white space as one space, none trimmed.
fn runs(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if !ws(c) {
            o.push(c);
        } else if !o.ends_with(' ') {
            o.push(' ');
        }
    }
    o
}

/// Spaces stay where they are or go; none moves to another text.
fn check_places(e: &E, n: &Node, preserve: bool, obs: &mut Obs) -> Res {
    let mut v = Vec::new();
    pair(e, n, 0, preserve, &mut v);
    for p in v.iter().filter(|p| !p.preserve) {
        let c = runs(&p.src);
        let got = p.got.as_ref().map_or("", |s| s.as_str());
        let core = c.trim_matches(' ');
        ensure!(got.trim_matches(' ') == core && (!got.starts_with(' ') || c.starts_with(' ')) && (!got.ends_with(' ') || c.ends_with(' ')),
                "the text {:?} became {:?}", p.src, got);
    }
    for w in v.windows(2) {
        if w.iter().any(|p| p.preserve || p.src.trim_matches(ws).is_empty()) {
            continue;
        }
        let (a, b) = (runs(&w[0].src), runs(&w[1].src));
        let (ga, gb) = (w[0].got.as_ref().map_or("", |s| s), w[1].got.as_ref().map_or("", |s| s));
        let got = (ga.ends_with(' '), gb.starts_with(' '));
        let want = match (a.ends_with(' '), b.starts_with(' ')) {
            (true, true) => (w[0].depth < w[1].depth, w[0].depth >= w[1].depth),
            other => other,
        };
        obs.hit("borders compared");
        ensure!(got == want, "between {:?} and {:?} the spaces are kept as {:?}, expected {:?}", w[0].src, w[1].src, got, want);
    }
    Ok(())
}

fn collapse(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if ws(c) {
            if !o.is_empty() && !o.ends_with(' ') {
                o.push(' ');
            }
        } else {
            o.push(c);
        }
    }
    if o.ends_with(' ') {
        o.pop();
    }
    o
}

fn c13(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let mode = [0, 0, 1, 2][r.below(4)];
    obs.hit(["all default", "all preserve", "mixed"][mode]);
    let budget = crate::gen::size(r, 2, 12);
    let inherit = r.chance(40);
    let mut g = G { obs, mode, budget };
    let mut svg = E::svg("svg");
    let mut texts = Vec::new();
    if inherit {
        g.obs.hit("inherited xml:space");
        g.space(r, &mut svg, true);
    }
    for _ in 0..r.range(1, 2) {
        let name = if r.chance(85) { "text" } else { *r.pick(&TEXTS[1..]) };
        if name != "text" {
            g.obs.hit("text content outside of a text element");
        }
        let mut t = E::svg(name);
        g.space(r, &mut t, !inherit);
        g.budget += 3;
        g.fill(r, &mut t, 1);
        texts.push(t);
    }
    // The containers around, from the inside to the outside.
    let mut around: Vec<X> = texts.iter().map(|t| X::E(t.clone())).collect();
    let mut outer: Vec<Option<String>> = Vec::new();
    for _ in 0..if r.chance(60) { 1 } else { r.below(5) } {
        let mut w = E::svg(*r.pick(&["g", "g", "g", "switch", "defs", "symbol", "svg", "clipPath", "mask", "pattern", "marker", "glyph", "missing-glyph", "use", "font", "rect"]));
        if mode != 1 || inherit {
            g.space(r, &mut w, false);
        }
        outer.push(own_space(&w));
        w.kids = around;
        around = vec![X::E(w)];
    }
    outer.push(own_space(&svg));
    if r.chance(30) {
        // In between.
        let at = r.below(around.len() + 1);
        around.insert(at, X::C(" c ".into()));
    }
    svg.kids.extend(around);
    if r.chance(20) {
        let mut d = E::svg(*r.pick(&["title", "desc"]));
        g.space(r, &mut d, !inherit);
        d.kids.push(g.text(r, false));
        for _ in 0..r.below(3) {
            d.kids.push(X::C("c".into()));
            d.kids.push(g.text(r, false));
        }
        texts.push(d.clone());
        svg.kids.push(X::E(d));
    }
    let top = vec![X::E(svg)];
    let mut src = to_xml(&top);
    if r.chance(30) {
        // Only if the XML parser agrees that it is the same document (line breaks in CDATA sections).
        let s = Spell::random(r.next()).write(&top);
        if canon(&s) == canon(&src) {
            src = s;
        }
    }
    obs.log(src.clone());
    let doc = Document::from_str(&src).map_err(|e| format!("parsing failed: {}", e))?;
    let root = doc.svg_element().ok_or("no svg element")?;

    // Characters, places and attributes.
    let mut want = Vec::new();
    if let X::E(ref e) = top[0] {
        shape(e, &mut want);
    }
    let mut got = Vec::new();
    shape_dom(&root, &mut got)?;
    for (i, (a, b)) in got.iter().zip(want.iter()).enumerate() {
        ensure!(a == b, "item {}: {:?}, expected {:?}", i, a, b);
    }
    ensure!(got.len() == want.len(), "{} items, expected {}", got.len(), want.len());

    // Spaces.
    let holds_text = |n: &Node| n.tag_id().map_or(false, |t| TEXTS.contains(&t.as_str()) || t == ElementId::Title || t == ElementId::Desc);
    let elems: Vec<Node> = root.descendants().filter(|n| holds_text(n) && !n.ancestors().skip(1).any(|p| holds_text(&p))).collect();
    ensure!(elems.len() == texts.len(), "{} text elements, expected {}", elems.len(), texts.len());
    let mut nontrivial = false;
    for (n, e) in elems.iter().zip(texts.iter()) {
        let mut src_nodes = Vec::new();
        nodes_of(e, &mut src_nodes);
        nontrivial |= src_nodes.len() > 1;
        obs.add("texts compared", src_nodes.len() as u64);
        let outer: &[Option<String>] = if TEXTS.contains(&e.name.as_str()) { &outer } else { &outer[outer.len() - 1..] };
        let got: String = n.descendants().filter(|n| n.is_text()).map(|n| n.text().clone()).collect();
        let mut all = String::new();
        all_text(e, &mut all);
        if mode != 1 {
            let own = own_space(e);
            let p = std::iter::once(&own).chain(outer.iter()).filter_map(|s| s.as_ref()).next().map_or(false, |s| s == "preserve");
            check_places(e, n, p, obs)?;
        }
        match mode {
            0 => {
                let want = collapse(&all);
                ensure!(got == want, "default: text is {:?}, expected {:?}", got, want);
            }
            1 => {
                let nodes: Vec<String> = n.descendants().filter(|n| n.is_text()).map(|n| n.text().clone()).collect();
                let want: Vec<String> = src_nodes.iter().map(|t| t.1.chars().map(|c| if ws(c) { ' ' } else { c }).collect()).collect();
                ensure!(nodes == want, "preserve: texts are {:?}, expected {:?}", nodes, want);
            }
            _ => {
                // Whatever preserve governs is kept as it is, the rest is collapsed.
                let own = own_space(e);
                let inherited = std::iter::once(&own).chain(outer.iter()).filter_map(|s| s.as_ref()).next().map_or(false, |s| s == "preserve");
                let mut want = Vec::new();
                governed(e, inherited, &mut want);
                let want: Vec<String> = want.into_iter().filter(|t| t.1)
                    .map(|t| t.0.chars().map(|c| if ws(c) { ' ' } else { c }).collect()).collect();
                let mut kept = Vec::new();
                let mut space_before = true;
                let mut last_default = false;
                for t in n.descendants().filter(|n| n.is_text()) {
                    let sp = t.ancestors().filter_map(|a| match a.attributes().get_value(AttributeId::Space) {
                        Some(AttributeValue::String(s)) => Some(s == "preserve"),
                        _ => None,
                    }).next().unwrap_or(false);
                    if sp {
                        kept.push(t.text().clone());
                    } else {
                        ensure!(!t.text().contains("  "), "mixed: {:?} has a run of spaces", *t.text());
                        ensure!(!(space_before && t.text().starts_with(' ')),
                                "mixed: {:?} begins with a space at the start of the content or after another space", *t.text());
                    }
                    space_before = t.text().ends_with(' ');
                    last_default = !sp;
                }
                ensure!(!(last_default && space_before), "mixed: the content ends with a space: {:?}", got);
                // Words stay apart and nothing is torn apart.
                ensure!(collapse(&got) == collapse(&all), "mixed: the text is {:?}, expected {:?} up to more spaces", got, collapse(&all));
                obs.add("preserved texts among others", want.len() as u64);
                ensure!(kept == want, "mixed: the preserved texts are {:?}, expected {:?}", kept, want);
                // Never more spaces than the source has.
                let a = got.chars().filter(|c| *c == ' ').count();
                let b = all.chars().filter(|c| ws(*c)).count();
                ensure!(a <= b, "mixed: {} spaces, but the source has {}", a, b);
            }
        }
    }
    if nontrivial {
        obs.nontrivial(hash_str(&src));
    }
    Ok(())
}
