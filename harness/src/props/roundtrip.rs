//! C14, C15, C21: what is written parses back; options and spelling do not matter.

use svgdom::*;

use crate::driver::{Ctx, Prop};
use crate::ensure;
use crate::gen;
use crate::names::PRESENTATION;
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, Rng};
use crate::snap::{self, SNode};
use crate::xml::{self, canon, to_xml, Spell, E, X};

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14", quick: 240_000, thorough: 3_600_000,
            rule: "a random parsed or API-built document is written; an independent XML parser must accept the text, parsing it must give \
                   the same document and writing that must give the same text; non-trivial if the document has at least 3 nodes",
            required: &[("parsed documents", 5000), ("API-built documents", 5000), ("documents with custom names", 1000), ("links compared", 10_000),
                        ("texts compared", 5000), ("values that need escaping", 1000), ("ids that need escaping", 300), ("nodes compared", 50_000),
                        ("documents with style sheets", 500)],
            assumptions: &["texts have no raw ampersand (see known findings)", "text outside of text elements is the only child of title or desc",
                           "API-built documents have unique ids and whitespace-normalised or preserved text"],
            case: c14,
        },
        Prop {
            id: "C15", quick: 120_000, thorough: 1_800_000,
            rule: "a random document is written with three random sets of options, parsed back and compared with what parsing the default \
                   output gives; the document itself is compared before and after writing; non-trivial if the options differ from the default",
            required: &[("option sets", 10_000), ("single quotes", 3000), ("attribute indentation", 3000), ("no indentation", 1000),
                        ("paths written", 3000), ("transforms written", 3000), ("texts compared", 5000), ("implicit lineto", 500)],
            assumptions: &["numbers have at most 3 decimals and are below one million"],
            case: c15,
        },
        Prop {
            id: "C21", quick: 100_000, thorough: 1_500_000,
            rule: "a random abstract document is spelled in three random ways, parsed and compared with the plain spelling; a presentation \
                   attribute is moved to a style attribute and to a rule and compared; non-trivial if the texts differ",
            required: &[("spellings compared", 10_000), ("attribute order", 1000), ("CDATA", 300), ("entity references", 500), ("character references", 1000),
                        ("svg prefix", 2000), ("local namespace declarations", 2000), ("single quotes", 2000), ("DOCTYPE", 2000), ("XML declaration", 2000),
                        ("start-end tag pairs", 2000), ("whitespace in tags", 2000), ("CRLF", 500), ("declaration places compared", 10_000)],
            assumptions: &["roxmltree tells which spellings denote the same XML document"],
            case: c21,
        },
    ]
}

fn parse(what: &str, t: &str) -> Result<Document, String> {
    Document::from_str(t).map_err(|e| format!("{} does not parse: {}\n{}", what, e, t))
}

fn count(s: &[SNode], obs: &mut Obs) {
    for n in s {
        obs.hit("nodes compared");
        if n.kind == "text" {
            obs.hit("texts compared");
        }
        for (_, v) in &n.attrs {
            match v {
                snap::SVal::Link(..) => obs.hit("links compared"),
                snap::SVal::Plain(AttributeValue::String(s)) if s.contains(|c| "&<\"'".contains(c)) => obs.hit("values that need escaping"),
                snap::SVal::Plain(AttributeValue::Path(_)) => obs.hit("paths written"),
                snap::SVal::Plain(AttributeValue::Transform(_)) => obs.hit("transforms written"),
                _ => {}
            }
        }
        if n.id.contains(|c| "&<\"'".contains(c)) {
            obs.hit("ids that need escaping");
        }
    }
}

pub fn size(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.range(1, 3),
        3 => r.range(8, 16),
        _ => r.range(3, 8),
    }
}

fn c14(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    if ctx.idx == 0 {
        return probe(obs);
    }
    let doc;
    let mut custom_elems = false;
    let mut custom_attrs = false;
    let mut no_xml = false;
    if r.chance(50) {
        let n = size(r);
        let top = gen::rich_doc(r, n);
        let src = to_xml(&top);
        obs.log(format!("parse {}", src));
        if src.contains("<style") {
            obs.hit("documents with style sheets");
        }
        doc = parse("the source", &src)?;
        obs.hit("parsed documents");
    } else {
        doc = api_doc(r, obs, &mut custom_elems, &mut custom_attrs)?;
        obs.hit("API-built documents");
        if doc.svg_element().is_none() {
            no_xml = true;
        }
    }
    let before = snap::snap(&doc)?;
    let text = if r.chance(50) { doc.to_string() } else { doc.to_string_with_opt(&gen::options(r)) };
    obs.log(format!("written: {}", text));
    if no_xml {
        return Ok(());
    }
    let c = match canon(&text) {
        Ok(c) => c,
        Err(e) => return Err(format!("the written text is not well-formed: {}\n{}", e, text)),
    };
    if let Err(e) = xml::strict(&text) {
        return Err(format!("the written text is not well-formed: {}\n{}", e, text));
    }
    if custom_elems || custom_attrs {
        obs.hit("documents with custom names");
    }
    if custom_elems {
        // Such elements are not read back; every element must be in the text, though.
        let want = before.iter().filter(|n| n.kind.starts_with('<')).count();
        let got = c.iter().filter(|l| l.contains(" <Some(") || l.contains(" <None")).count();
        ensure!(want == got, "{} elements, but {} in the written text\n{}", want, got, text);
        obs.nontrivial(hash_str(&text));
        return Ok(());
    }
    // The default notation is the one that keeps values best.
    let text = doc.to_string();
    let doc2 = parse("the written text", &text)?;
    let mut want = before;
    if custom_attrs {
        for n in want.iter_mut() {
            n.attrs.retain(|a| !a.0.starts_with('"'));
        }
    }
    let got = snap::snap(&doc2)?;
    snap::compare("written and parsed back", &want, &got, 1e-9)?;
    count(&want, obs);
    if !custom_attrs {
        let again = doc2.to_string();
        ensure!(again == text, "the second writing differs:\n{}\n{}", text, again);
    }
    if want.len() > 3 {
        obs.nontrivial(hash_str(&text));
    }
    Ok(())
}

/// The known finding.
fn probe(obs: &mut Obs) -> Res {
    const TEXT: &str = "a &lt; & b";
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    let mut t = doc.create_element(ElementId::Text);
    let n = doc.create_node(NodeType::Text, TEXT);
    doc.root().append(svg.clone());
    svg.append(t.clone());
    t.append(n);
    let text = doc.to_string();
    let back = match Document::from_str(&text) {
        Ok(d) => d.root().descendants().any(|n| n.is_text() && *n.text() == TEXT),
        Err(_) => false,
    };
    if !back || xml::strict(&text).is_err() {
        // Exactly this form is listed; anything else is a violation.
        ensure!(text.contains(&format!("<text>{}</text>", TEXT)), "the text {:?} was written as {:?}", TEXT, text);
        obs.known.push("text-ampersand an ampersand in a text node is written raw".to_string());
    }
    Ok(())
}

/// A document built by API calls in random order, from things the parser would accept.
fn api_doc(r: &mut Rng, obs: &mut Obs, custom_elems: &mut bool, custom_attrs: &mut bool) -> Result<Document, String> {
    let mut doc = Document::new();
    let n = gen::size(r, 1, 14);
    let mut elems: Vec<Node> = Vec::new();
    let with_custom_elems = r.chance(12);
    let with_custom_attrs = r.chance(15);
    let mut svg = doc.create_element(ElementId::Svg);
    doc.root().append(svg.clone());
    if r.chance(10) {
        let c = doc.create_node(NodeType::Comment, " x ");
        if r.chance(50) { doc.root().append(c) } else { doc.root().prepend(c) }
    }
    if r.chance(30) {
        svg.set_id("root");
    }
    elems.push(svg.clone());
    for i in 0..n {
        let tag = loop {
            let t = ElementId::from_str(gen::tag(r)).unwrap();
            if t != ElementId::A || r.chance(30) {
                break t;
            }
        };
        let mut e = if with_custom_elems && r.chance(25) {
            *custom_elems = true;
            doc.create_element(*r.pick(&["my-elem", "Gg", "x"]))
        } else {
            doc.create_element(tag)
        };
        if r.chance(75) {
            let s = *r.pick(&["a", "é", "a&b", "q\"q", "<", "'x'", "i", "_", "日", "#", "a\nb", "\t", "x\ry", "__", "-", ":", "x:y", "0", "A", "]]>"]);
            let long = if r.below(200) == 0 { "long-".repeat(r.range(20, 100)) } else { String::new() };
            e.set_id(format!("{}{}{}", long, s, i));
        }
        let p = r.below(elems.len());
        match r.below(3) {
            0 => elems[p].append(e.clone()),
            1 => elems[p].prepend(e.clone()),
            _ => if p > 0 { elems[p].insert_after(e.clone()) } else { elems[p].append(e.clone()) },
        }
        elems.push(e);
    }
    // Values and links.
    let mut log = Vec::new();
    for _ in 0..r.below(3 * n + 2) {
        let k = r.below(elems.len());
        if r.chance(60) {
            let (a, _, v) = gen::attr(r);
            if elems[k].attributes().get_value(a).map(|v| v.is_link_container()) != Some(true) {
                log.push(format!("e{} {} = {:?}", k, a, v));
                elems[k].set_attribute((a, v));
            }
        } else {
            let a = *r.pick(crate::dom::LINK_ATTRS);
            let t = r.below(elems.len());
            let fb = crate::dom::rand_fallback(r);
            let target = elems[t].clone();
            let anim = a == AttributeId::Fill && elems[k].tag_id().map_or(false, |t| gen::ANIMATIONS.contains(&t.as_str()));
            if target.is_svg_element() && elems[k].is_svg_element() && !anim {
                let v = match a {
                    AttributeId::Fill | AttributeId::Stroke => AttributeValue::Paint(target, fb),
                    AttributeId::Href => AttributeValue::Link(target),
                    _ => AttributeValue::FuncLink(target),
                };
                let ok = elems[k].set_attribute_checked((a, v)).is_ok();
                log.push(format!("e{} {} -> e{} {}", k, a, t, ok));
            }
        }
    }
    // Positions and equal values.
    for _ in 0..r.below(4) {
        let k = r.below(elems.len());
        if !elems[k].is_svg_element() {
            continue;
        }
        use AttributeId as A;
        if r.chance(60) {
            let v = Length::new(r.below(3) as f64, *r.pick(&[LengthUnit::None, LengthUnit::None, LengthUnit::Px, LengthUnit::Percent]));
            for a in &[A::X, A::Y, A::Dx, A::Dy, A::Width, A::Height] {
                if r.chance(40) {
                    log.push(format!("e{} {} = {:?}", k, a, v));
                    elems[k].set_attribute((*a, v));
                }
            }
        } else {
            let v = *r.pick(&[0.0, 0.5, 1.0]);
            for a in &[A::Opacity, A::FillOpacity, A::StrokeOpacity, A::StopOpacity, A::FloodOpacity] {
                if r.chance(50) {
                    log.push(format!("e{} {} = {:?}", k, a, v));
                    elems[k].set_attribute((*a, v));
                }
            }
        }
    }
    if with_custom_attrs {
        for _ in 0..r.range(1, 3) {
            let k = r.below(elems.len());
            *custom_attrs = true;
            let v = crate::dom::rand_str(r);
            elems[k].set_attribute((*r.pick(&["data-a", "data-b", "Z"]), v));
        }
    }
    // Texts.
    for _ in 0..r.below(4) {
        let k = r.below(elems.len());
        if !elems[k].is_svg_element() || elems[k].has_tag_name(ElementId::A) {
            continue;
        }
        match r.below(4) {
            0 => {
                let mut t = doc.create_element(*r.pick(&[ElementId::Title, ElementId::Desc]));
                let long = if r.below(150) == 0 { "word ".repeat(r.range(300, 4000)) } else { String::new() };
                let x = doc.create_node(NodeType::Text, format!("{}{}x", long, gen::text_word(r)));
                t.append(x);
                elems[k].append(t);
            }
            1 => {
                let c = doc.create_node(NodeType::Comment, *r.pick(&["c", " - ", "<x>"]));
                elems[k].append(c);
            }
            _ => {
                let mut t = doc.create_element(ElementId::Text);
                let preserve = r.chance(50);
                if preserve {
                    t.set_attribute((AttributeId::Space, "preserve"));
                }
                text_kids(r, &mut doc, &mut t, preserve, 0);
                if r.chance(50) { elems[k].append(t) } else { elems[k].prepend(t) }
            }
        }
    }
    // Moves, copies and removals.
    for _ in 0..r.below(4) {
        let k = r.below(elems.len());
        let j = r.below(elems.len());
        if k == 0 || k == j {
            continue;
        }
        match r.below(3) {
            0 => if !elems[j].ancestors().any(|x| x == elems[k]) {
                log.push(format!("e{} into e{}", k, j));
                let c = elems[k].clone();
                elems[j].append(c);
            },
            1 => {
                log.push(format!("copy of e{} into e{}", k, j));
                let c = doc.copy_node(elems[k].clone());
                elems[j].append(c);
            }
            _ => {
                let c = elems[k].clone();
                if elems.iter().filter(|e| e.ancestors().any(|x| x == c)).count() < elems.len() / 2 {
                    log.push(format!("remove e{}", k));
                    elems.retain(|e| !e.ancestors().any(|x| x == c));
                    doc.remove_node(c);
                }
            }
        }
        if elems.len() < 2 {
            break;
        }
    }
    obs.log(log.join("; "));
    Ok(doc)
}

/// Text in the form the parser leaves it in.
fn text_kids(r: &mut Rng, doc: &mut Document, e: &mut Node, preserve: bool, depth: usize) {
    let mut last_text = false;
    for _ in 0..r.range(1, 4) {
        if r.chance(65) && !last_text {
            let mut t = String::new();
            for i in 0..r.range(1, 3) {
                if i > 0 {
                    t.push(' ');
                }
                t.push_str(gen::text_word(r));
                if preserve && r.chance(30) {
                    t.push_str("   ");
                }
            }
            if preserve && r.chance(30) {
                t.insert(0, ' ');
            }
            let x = doc.create_node(NodeType::Text, t);
            e.append(x);
            last_text = true;
        } else if depth < 3 {
            let mut k = doc.create_element(*r.pick(&[ElementId::Tspan, ElementId::Tspan, ElementId::Tspan, ElementId::Text, ElementId::Tref]));
            if r.chance(70) {
                text_kids(r, doc, &mut k, preserve, depth + 1);
            }
            e.append(k);
            last_text = false;
        }
    }
}

fn show_opt(o: &WriteOptions) -> String {
    format!("{:?}", o)
}

fn c15(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let n = size(r);
    let doc = if r.chance(70) {
        let top = gen::rich_doc(r, n);
        let src = to_xml(&top);
        obs.log(format!("parse {}", src));
        parse("the source", &src)?
    } else {
        let (mut a, mut b) = (false, false);
        let mut d = api_doc(r, obs, &mut a, &mut b)?;
        while a || d.svg_element().is_none() {
            a = false;
            d = api_doc(r, obs, &mut a, &mut b)?;
        }
        d
    };
    let before = snap::snap(&doc)?;
    let def = doc.to_string();
    let want = snap::snap(&parse("the default output", &def)?)?;
    for _ in 0..3 {
        let o = gen::options(r);
        let text = doc.to_string_with_opt(&o);
        obs.log(format!("options {}\n{}", show_opt(&o), text));
        obs.hit("option sets");
        if o.use_single_quote { obs.hit("single quotes"); }
        if o.attributes_indent != Indent::None { obs.hit("attribute indentation"); }
        if o.indent == Indent::None { obs.hit("no indentation"); }
        if o.values.use_implicit_lineto_commands { obs.hit("implicit lineto"); }
        let got = snap::snap(&parse("the output", &text)?)?;
        snap::compare(&format!("default options and {}", show_opt(&o)), &want, &got, 1e-7)?;
        ensure!(doc.to_string_with_opt(&o) == text, "writing twice with the same options gives different texts");
        obs.nontrivial(hash_str(&text));
        count(&want, obs);
    }
    let after = snap::snap(&doc)?;
    snap::compare("before and after writing", &before, &after, 0.0)?;
    ensure!(doc.to_string() == def, "writing with options changed the default output");
    Ok(())
}

fn c21(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let n = size(r);
    let top = gen::rich_doc(r, n);
    let plain = to_xml(&top);
    obs.log(plain.clone());
    let c = canon(&plain).map_err(|e| format!("the generator is wrong: {}", e))?;
    let want = snap::snap(&parse("the plain spelling", &plain)?)?;
    for _ in 0..3 {
        let seed = r.next();
        let mut s = Spell::random(seed);
        let text = s.write(&top);
        match canon(&text) {
            Ok(c2) if c2 == c => {}
            _ => {
                obs.hit("spellings that denote another document (not compared)");
                continue;
            }
        }
        obs.log(text.clone());
        let got = snap::snap(&parse("the other spelling", &text)?)?;
        snap::compare("plain and other spelling", &want, &got, 0.0)?;
        obs.hit("spellings compared");
        for u in &s.used {
            obs.hit(u);
        }
        if text != plain {
            obs.nontrivial(hash_str(&text));
        }
    }
    places(r, obs)
}

/// The same declaration as an attribute, in a style attribute and in a rule.
fn places(r: &mut Rng, obs: &mut Obs) -> Res {
    let (name, value) = loop {
        let (a, v) = if r.chance(60) { gen::declaration(r, 3) } else {
            let p = *r.pick(PRESENTATION);
            if p == "marker" { continue; }
            (p.to_string(), r.pick(&["red", "none", "inherit", "10", "5px", "bad value", "1 2 3", "currentColor", "#12f", "auto", "50%", "bold"]).to_string())
        };
        if PRESENTATION.contains(&a.as_str()) || a == "transform" {
            break (a, v);
        }
    };
    let tag = gen::tag(r);
    let end = *r.pick(&["", "", ";", " ;", ";;"]);
    let mut beside: Vec<(&str, String)> = Vec::new();
    for _ in 0..if r.chance(50) { 0 } else { r.range(1, 6) } {
        let (id, t, _) = gen::attr(r);
        let n = gen::source_name(id);
        if n != name && id != AttributeId::Class && beside.iter().all(|b| b.0 != n) {
            beside.push((n, t));
        }
    }
    let mut snaps: Vec<(String, Vec<SNode>)> = Vec::new();
    for place in 0..3 {
        let mut svg = E::svg("svg");
        let mut g = E::svg("g");
        g.attr("id", "i0");
        let mut other = E::svg("linearGradient");
        other.attr("id", "i1");
        let mut e = E::svg(tag);
        e.attr("id", "t");
        for (a, v) in &beside {
            e.attr(a, v);
        }
        let mut style = E::svg("style");
        match place {
            0 => e.attr(&name, &value),
            1 => e.attr("style", &format!("{}:{}{}", name, value, end)),
            _ => style.kids.push(X::T(format!("#t {{ {} : {}{} }}", name, value, end))),
        }
        svg.kids.push(X::E(style));
        svg.kids.push(X::E(g));
        svg.kids.push(X::E(e));
        svg.kids.push(X::E(other));
        let t = xml::to_xml(&[X::E(svg)]);
        let s = snap::snap(&parse("the source", &t)?)?;
        snaps.push((t, s));
    }
    for k in 1..3 {
        obs.hit("declaration places compared");
        if let Err(e) = snap::compare("attribute and other place", &snaps[0].1, &snaps[k].1, 0.0) {
            return Err(format!("{}\n{}\n{}", e, snaps[0].0, snaps[k].0));
        }
    }
    Ok(())
}
