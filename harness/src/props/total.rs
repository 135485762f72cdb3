//! C08: parsing hostile texts.

use svgdom::*;

use crate::driver::{Ctx, Prop, Tier};
use crate::ensure;
use crate::gen;
use crate::names::{ATTRIBUTES, ELEMENTS};
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, Rng};
use crate::snap;
use crate::xml::{to_xml, ANs, Ns, Spell, A, E, SVG_NS, X};

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C08", quick: 320_000, thorough: 4_800_000,
        rule: "a random text (token soup, mutated documents, hostile values and style sheets, deep and wide documents, link tangles) is parsed; \
               the outcome is compared with an independent XML parser's verdict, parsing is repeated, and a resulting document is \
               examined, written, formatted and dropped; non-trivial if the text is well-formed XML",
        required: &[("documents", 10_000), ("XML errors", 5000), ("missing svg element", 500), ("token soup", 3000), ("mutated documents", 5000),
                    ("hostile values", 5000), ("hostile style sheets", 3000), ("deep documents", 20), ("link tangles", 1000), ("long style sheets", 500), ("wide documents", 10),
                    ("documents written", 5000), ("nodes formatted", 20_000), ("log messages formatted", 5000)],
        assumptions: &["roxmltree decides what is well-formed", "nesting up to 1000 levels", "an 8 MB stack"],
        case: c08,
    }]
}

const TOKENS: &[&str] = &[
    "<", ">", "</", "/>", "<svg", "<svg xmlns='http://www.w3.org/2000/svg'>", "</svg>", "<g>", "</g>", "<style>", "</style>", "<text>", "</text>",
    "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<?xml version='1.0'?>", "<!DOCTYPE svg [", "]>", "<!ENTITY a 'b'>", "&a;", "&amp;", "&#x20;",
    "&#0;", "&#xD800;", "&", ";", "=", "'", "\"", " ", "\n", "\t", "\r", "fill", "='red'", "id='a'", "xlink:href='#a'", "xmlns:xlink='http://www.w3.org/1999/xlink'",
    "\u{feff}", "\0", "\u{1}", "é", "日本", "😀", "\u{fffe}", "svg", "xmlns", ":", "style=\"fill:red\"", "*{fill:red}", "{", "}", "url(#a)", "<rect/>",
    "<svg xmlns=\"http://www.w3.org/2000/svg\"/>", "-", "--", "[", "]", "%", "<rect id='a' fill='url(#a)'/>", "xml:space='preserve'",
];

pub const VALUES: &[&str] = &[
    "", " ", "1e400", "-1e400", "1e-400", "NaN", "inf", "-inf", "1e308", "9999999999999999999999", "-0", "+1", ".", "1.", ".5", "-.5e-5", "1e", "1e+", "--1", "0x10",
    "#", "##", "#1", "#12", "#12345", "#1234567", "#gggggg", "#é", "url(", "url()", "url(#", "url(#)", "url(a)", "url(#a", "url(#a)", "url(#a) ", "url(#a)red",
    "url(#a) bad", "url(#a) none", "url(#a) inherit", "url( #a )", "url('#a')", "URL(#a)", "url(#a) url(#b)", "rgb(", "rgb()", "rgb(1)", "rgb(1,2)", "rgb(1,2,3", "rgb(1,2,3)",
    "rgb(999,-5,1e9)", "rgb(50%,200%,-1%)", "rgb(1%,2,3)", "rgb(é)", "none", "inherit", "currentColor", "CURRENTCOLOR", "None", "red", "rEd", "transparent", "M", "M 1", "M 1 2", "L 1 2",
    "m 0 0 z z z", "M 1 2 L", "M 1 2 Q 1", "M 1 2 A 1 1 0 2 3 4 5", "M 1 2 A 1 1 0 01 4 5", "M 1 2 A 1 1 0 0 1 4", "M 1e999 1", "M1-2-3.4.5.6e5", "M é", "M 1,,2", "M 1 2 X", "z",
    "1,2 3", "1 2 3 4", "1 2 3 4 5", "0 0 0 0", "0 0 -1 5", "1,2,", ",", ",1", "1 2 é", "translate", "translate(", "translate()", "translate(1", "translate(1,2,3)", "rotate(1 2)",
    "rotate(1e308)", "matrix(1 0 0 1 0 0)", "matrix(0 0 0 0 0 0)", "matrix(1 2 3)", "scale(0)", "skewX(90)", "skewX(1e5) skewY(90)", "translate(1)translate(2)", "foo(1)", "translate(é)",
    "xMidYMid", "defer xMidYMid slice", "xMidYMid meet slice", "defer", "none slice", "xBad", "auto", "10deg", "10grad", "10rad", "10foo", "50%", "%", "10%%", "10 px", "10px", "10PX", "1em2",
    "1e", "1ex", "1e1x", "preserve", "default", "a b", "é", "😀", "日本 語", "\u{a0}1", "\u{2028}", "\u{feff}", "1\u{a0}", "1;2", "a:b", "!important", "red !important", "/*", "*/", "\\", "\\41",
    "0 0 1 1", "1 1", "-1", "0.5 0.5", "2", "bold", "normal", "bolder", "italic", "10 20", "objectBoundingBox", "#a", "#i1", "url(#i1)", "#i0", "url(#i0)", "data:image/png;base64,AAAA",
    "\"", "'", "<", ">", "&", "]]>", "&amp;", "&#x41;", "\n", "\t1\t", "  1  ", "1\n2",
];

const CSS: &[&str] = &[
    "*", "rect", "g", "#i1", ".c", "[fill]", "[fill='red']", "[fill~=red]", "[fill|='a']", "[", "]", "[=]", "[a=", ":first-child", ":hover", ":", "::before", ":lang(", ":lang(en)", ":not(a)",
    ">", "+", "~", ",", " ", "{", "}", "{}", ";", ":", "fill", "stroke", "marker", "opacity", "font", "transform", "d", "id", "style", ": red", ":url(#i1)", ":url(", ":1", ": 1 2 3", ":rgb(1,2,3)",
    "{fill:red}", "{fill:}", "{:red}", "{fill red}", "{fill:red;stroke:blue}", "{marker:url(#i1)}", "{fill:red!important}", "@import 'a';", "@media x {", "@media x {rect{fill:red}}", "@font-face{a:b}", "@",
    "@charset \"a\";", "/*", "*/", "/* c */", "<!--", "-->", "<![CDATA[", "\\", "\\41 ", "é", "日", "😀", "'", "\"", "'a'", "\"b", "!", "!important", "(", ")", "%", "#", ".", "..", "##", "*.c#i1", "1", "-1", "--x:1",
    "\n", "\t", "\0", "{{", "}}", "{fill:red", "a b c", "rect + rect", "g > rect", "g>", "+g", "*:first-child", "svg *", "\u{a0}",
];

fn soup(r: &mut Rng, dict: &[&str], n: usize) -> String {
    (0..n).map(|_| *r.pick(dict)).collect()
}

/// A long run of characters of one to four bytes.
fn long(r: &mut Rng) -> String {
    let n = gen::size(r, 1, 300);
    let alphabet: &[char] = *r.pick(&[
        &['a', 'é'][..], &['日', 'a'][..], &['😀', ' ', 'b'][..], &['é', '日', '😀', 'z', ' ', '-'][..], &['\u{a0}', 'x', '\u{2003}'][..], &['a'][..], &['1', '.', ' ', 'é'][..],
    ]);
    (0..n).map(|_| *r.pick(alphabet)).collect()
}

/// Style sheets and style attributes with long strings and comments.
fn long_css(r: &mut Rng, rules: bool) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        if rules {
            s.push_str(*r.pick(&["*", "rect", "g", "svg", ".c", "#i1", "[fill]"]));
            s.push('{');
        }
        for _ in 0..r.range(1, 4) {
            if r.chance(30) {
                s.push_str(&format!("/*{}*/", long(r)));
            }
            let p = *r.pick(&["font-family", "fill", "stroke", "font-size", "marker", "opacity", "foo", "enable-background", "stroke-dasharray", "filter", "cursor"]);
            let v = long(r);
            match r.below(4) {
                0 => s.push_str(&format!("{}:'{}';", p, v)),
                1 => s.push_str(&format!("{}:\"{}\", serif;", p, v)),
                2 => s.push_str(&format!("{}:url(#{});", p, v)),
                _ => s.push_str(&format!("{}:{};", p, v)),
            }
        }
        if rules {
            s.push('}');
        }
    }
    s
}

pub fn hostile(r: &mut Rng) -> String {
    match r.below(8) {
        0 => soup(r, VALUES, 2),
        1 => {
            let a = *r.pick(VALUES);
            let b = *r.pick(VALUES);
            format!("{} {}", a, b)
        }
        2 => {
            let (_, t, _) = gen::attr(r);
            mutate(r, &t)
        }
        3 => {
            let mut s = r.pick(VALUES).to_string();
            if s.len() < 20 {
                s = s.repeat(r.range(2, 60));
            }
            s
        }
        4 => {
            let l = long(r);
            match r.below(8) {
                0 => format!("url(#{})", l),
                1 => format!("#{}", l),
                2 => format!("url(#{}) {}", l, r.pick(VALUES)),
                3 => format!("rgb({})", l),
                4 => format!("{}{}", r.pick(VALUES), l),
                5 => format!("{}{}", l, r.pick(VALUES)),
                _ => l,
            }
        }
        _ => r.pick(VALUES).to_string(),
    }
}

/// Small changes at character level.
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let n = v.len();
        match r.below(7) {
            0 if n > 0 => { v.remove(r.below(n)); }
            1 => {
                let t: Vec<char> = r.pick(TOKENS).chars().collect();
                let i = r.below(n + 1);
                v.splice(i..i, t);
            }
            2 if n > 1 => {
                let (a, b) = (r.below(n), r.below(n));
                v.swap(a, b);
            }
            3 if n > 1 => {
                let a = r.below(n);
                let b = (a + 1 + r.below(30)).min(n);
                v.drain(a..b);
            }
            4 if n > 1 => {
                let a = r.below(n);
                let b = (a + 1 + r.below(30)).min(n);
                let t: Vec<char> = v[a..b].to_vec();
                let i = r.below(n + 1);
                v.splice(i..i, t);
            }
            5 if n > 0 => {
                let i = r.below(n);
                v[i] = *r.pick(&['<', '>', '&', '"', '\'', ' ', '#', '(', ')', '/', '=', 'x', '0', '-', 'é', '\u{0}', ';', ':', '{', '}']);
            }
            6 if n > 0 => v.truncate(r.below(n)),
            _ => {}
        }
    }
    v.into_iter().collect()
}

fn hostile_doc(r: &mut Rng) -> Vec<X> {
    let n = r.range(1, 8);
    let mut flat = Vec::new();
    for i in 0..n {
        let mut e = E::svg(if i == 0 && !r.chance(5) { "svg" } else { r.pick(ELEMENTS).0 });
        if r.chance(3) {
            e.ns = *r.pick(&[Ns::Null, Ns::Foreign(0), Ns::Foreign(2)]);
        }
        if r.chance(50) {
            e.attr("id", &format!("i{}", r.below(n)));
        }
        for _ in 0..r.below(6) {
            let a = if r.chance(70) {
                *r.pick(&["fill", "stroke", "d", "points", "transform", "viewBox", "x", "y", "width", "stroke-dasharray", "preserveAspectRatio", "orient", "rotate",
                          "opacity", "k1", "font-size", "filter", "clip-path", "marker-start", "href", "offset", "stdDeviation", "style", "class", "unicode", "space", "color", "dx", "gradientTransform"])
            } else {
                r.pick(ATTRIBUTES).0
            };
            if a == "id" || e.attrs.iter().any(|x| x.name == a) {
                continue;
            }
            let ns = match a { "href" => ANs::Xlink, "space" => ANs::Xml, _ => if r.chance(2) { ANs::Foreign(0) } else { ANs::None } };
            let v = if a == "style" { if r.chance(50) { soup(r, CSS, 6) } else { long_css(r, false) } } else { hostile(r) };
            e.attrs.push(A { ns, name: a.to_string(), value: v });
        }
        if r.chance(25) {
            let t = if r.chance(40) { soup(r, VALUES, 3) } else if r.chance(20) { long(r) } else { soup(r, &[" ", "\n", "\t", "a", "é", "\r", "\u{a0}", "😀"], 5) };
            e.kids.push(X::T(t));
        }
        flat.push(e);
    }
    gen::nest(r, flat)
}

fn clean(s: &str) -> String {
    // Only characters XML allows; everything else is for the token soup.
    s.chars().filter(|c| *c >= ' ' || "\t\n\r".contains(*c)).filter(|c| *c != '\u{fffe}' && *c != '\u{ffff}').collect()
}

fn make(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> String {
    if ctx.idx % 700 == 3 {
        // Deep.
        obs.hit("deep documents");
        let depth = if ctx.tier == Tier::Thorough { r.range(100, 1000) } else { r.range(100, 1000) };
        let tag = *r.pick(&["g", "g", "a", "svg", "tspan", "text", "foo", "defs", "clipPath"]);
        let attr = *r.pick(&["", " fill='red'", " id='a'", " style='fill:red'", " xml:space='preserve'", " fill='url(#a)'"]);
        let mut s = format!("<svg xmlns='{}'>", SVG_NS);
        if r.chance(30) {
            s.push_str("<style>g{fill:red} g > g {stroke:blue} *{opacity:0.5}</style>");
        }
        for _ in 0..depth - 1 {
            s.push_str(&format!("<{}{}>", tag, attr));
            if r.chance(3) {
                s.push_str(" t ");
            }
        }
        for _ in 0..depth - 1 {
            s.push_str(&format!("</{}>", tag));
        }
        s.push_str("</svg>");
        return s;
    }
    if ctx.idx % 1500 == 4 {
        obs.hit("wide documents");
        let n = r.range(300, 1500);
        let mut s = format!("<svg xmlns='{}' xmlns:xlink='http://www.w3.org/1999/xlink'>", SVG_NS);
        let kind = r.below(6);
        for i in 0..n {
            match kind {
                0 => s.push_str("<rect fill='red' x='1'/>"),
                1 => s.push_str(&format!("<g id='i{}' fill='url(#i{})'/>", i, r.below(n))),
                4 => s.push_str(*r.pick(&["<style/>", "<style>*{fill:red}</style>", "<style>}</style>", "<style>a</style>", "<g/>"])),
                5 => s.push_str(*r.pick(&["<!---->", "<?pi?>", "<foo/>", "<text/>", "&#32;", "t", "<g><!--a--></g>"])),
                2 => s.push_str("<text> a <tspan> b </tspan> c </text>"),
                _ => s.push_str("<use xlink:href='#i0'/><!--c-->"),
            }
        }
        s.push_str("</svg>");
        return s;
    }
    match r.below(12) {
        0 => {
            obs.hit("token soup");
            let n = r.range(0, 25);
            soup(r, TOKENS, n)
        }
        1 => {
            obs.hit("token soup");
            let n = r.range(0, 10);
            format!("<svg xmlns='{}'>{}</svg>", SVG_NS, soup(r, TOKENS, n))
        }
        2 | 3 | 4 => {
            obs.hit("mutated documents");
            let n = gen::size(r, 1, 8);
            let top = gen::rich_doc(r, n);
            let t = if r.chance(50) { to_xml(&top) } else { Spell::random(r.next()).write(&top) };
            mutate(r, &t)
        }
        5 | 6 | 7 => {
            obs.hit("hostile values");
            let top = hostile_doc(r);
            let t = if r.chance(70) { to_xml(&top) } else { Spell::random(r.next()).write(&top) };
            clean(&t)
        }
        8 | 9 => {
            obs.hit("hostile style sheets");
            let mut s = E::svg("style");
            let n = r.range(1, 14);
            s.kids.push(X::T(if r.chance(70) { soup(r, CSS, n) } else { obs.hit("long style sheets"); long_css(r, true) }));
            if r.chance(20) {
                s.kids.push(X::C("c".into()));
                s.kids.push(X::T(soup(r, CSS, 3)));
            }
            if r.chance(10) {
                s.kids.push(X::E(E::svg("rect")));
            }
            let mut top = gen::linked_doc(r, 4);
            if let Some(X::E(e)) = top.first_mut() {
                let at = r.below(e.kids.len() + 1);
                e.kids.insert(at, X::E(s));
                if r.chance(50) {
                    let t = if r.chance(60) { soup(r, CSS, 8) } else { long_css(r, false) };
                    e.attr("style", &t);
                }
            }
            clean(&to_xml(&top))
        }
        10 => {
            obs.hit("link tangles");
            let n = r.range(1, 8);
            // Sometimes one kind of link only, which makes long cycles likely.
            let only: Option<&str> = if r.chance(50) { Some(*r.pick(&["xlink:href", "xlink:href", "xlink:href", "filter", "mask", "clip-path", "fill", "marker-mid"])) } else { None };
            let tags: Vec<&str> = (0..r.range(1, 4)).map(|_| *r.pick(&[
                "g", "use", "filter", "mask", "style", "text", "foo", "pattern", "linearGradient", "radialGradient", "clipPath", "marker", "feImage", "image", "symbol", "tref",
                "textPath", "a", "script", "switch", "svg", "defs", "animate", "tspan",
            ])).collect();
            let ring = r.chance(50);
            let mut open = Vec::new();
            let mut s = format!("<svg xmlns='{}' xmlns:xlink='http://www.w3.org/1999/xlink' id='i0'>", SVG_NS);
            let m = if ring { n } else { r.range(1, 14) };
            for i in 0..m {
                let tag = *r.pick(&tags);
                s.push_str(&format!("<{} id='i{}'", tag, if ring { i + 1 } else { r.below(n) }));
                let mut used: Vec<&str> = Vec::new();
                for k in 0..if ring { r.range(1, 3) } else { r.below(5) } {
                    let a = only.unwrap_or_else(|| *r.pick(gen::LINK_SRC));
                    if !used.contains(&a) {
                        used.push(a);
                        let id = format!("i{}", if ring && k == 0 { (i + 1) % n + 1 } else { r.below(n + 1) });
                        s.push_str(&format!(" {}='{}'", a, gen::link_text(r, a, &id).0));
                    }
                }
                if r.chance(20) {
                    s.push('>');
                    open.push(tag);
                } else {
                    s.push_str("/>");
                }
            }
            while let Some(t) = open.pop() {
                s.push_str(&format!("</{}>", t));
            }
            s.push_str("</svg>");
            s
        }
        _ => {
            // Another root.
            let mut top = hostile_doc(r);
            if let Some(X::E(e)) = top.first_mut() {
                e.name = r.pick(&["g", "rect", "foo", "SVG", "svg", "html"]).to_string();
                e.ns = *r.pick(&[Ns::Svg, Ns::Svg, Ns::Null, Ns::Foreign(0), Ns::Foreign(2)]);
            }
            if r.chance(20) {
                top.insert(0, X::C("svg".into()));
            }
            clean(&to_xml(&top))
        }
    }
}

fn c08(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    let text = make(r, ctx, obs);
    obs.log(format!("{:?}", text));

    let messages = crate::logger::messages();
    // The independent verdict.
    let verdict = match roxmltree::Document::parse(&text) {
        Err(_) => 0,
        Ok(d) => {
            let e = d.root_element();
            if e.tag_name().name() == "svg" && e.tag_name().namespace() == Some(SVG_NS) { 2 } else { 1 }
        }
    };
    if verdict > 0 {
        obs.nontrivial(hash_str(&text));
    }
    let doc = match (Document::from_str(&text), verdict) {
        (Err(ParserError::RoXmlError(_)), 0) => {
            obs.hit("XML errors");
            return Ok(());
        }
        (Err(ParserError::NoSvgElement), 1) => {
            obs.hit("missing svg element");
            return Ok(());
        }
        (Ok(d), 2) => d,
        (res, v) => {
            let want = ["the XML error", "the missing-svg-element error", "a document"][v];
            let got = match res { Ok(_) => "a document".to_string(), Err(e) => format!("the error {:?}", e) };
            return Err(format!("parsing gave {}, expected {}", got, want));
        }
    };
    obs.hit("documents");
    let s = snap::snap(&doc)?;
    let first = s.iter().find(|n| n.kind.starts_with('<'));
    ensure!(first.map(|n| n.kind.as_str()) == Some("<svg>"), "the first element is {:?}", first.map(|n| &n.kind));
    ensure!(doc.svg_element().is_some(), "svg_element() finds nothing");
    for n in &s {
        ensure!(n.kind != "<style>", "a style element is left");
        ensure!(!n.kind.starts_with("<\""), "an element with a custom name: {}", n.kind);
        ensure!(n.kind != "text" || !n.text.is_empty(), "an empty text node");
        for a in &n.attrs {
            ensure!(!a.0.starts_with('"'), "an attribute with a custom name: {}", a.0);
            ensure!(a.0 != "style" && a.0 != "class" && a.0 != "id", "an attribute {} is left", a.0);
        }
    }
    obs.add("log messages formatted", crate::logger::messages() - messages);
    // Again, without a logger.
    match crate::logger::silent(|| Document::from_str(&text)) {
        Ok(d2) => {
            let s2 = snap::snap(&d2)?;
            if let Err(e) = snap::compare("parsed twice", &s, &s2, 0.0) {
                // NaN is not equal to itself.
                ensure!(snap::show(&s) == snap::show(&s2), "{}", e);
            }
        }
        Err(e) => return Err(format!("the second parsing failed: {}", e)),
    }
    // Everything a user does with a document.
    for _ in 0..2 {
        let o = gen::options(r);
        let t = doc.to_string_with_opt(&o);
        ensure!(!t.is_empty(), "nothing written");
        obs.hit("documents written");
    }
    let _ = doc.to_string();
    let mut left = 3000;
    for n in doc.root().descendants() {
        let _ = format!("{:?}{}", n, n);
        obs.hit("nodes formatted");
        left -= 1;
        if left == 0 {
            break;
        }
    }
    drop(doc);
    Ok(())
}
