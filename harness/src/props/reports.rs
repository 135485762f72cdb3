//! C24: the log has exactly what was lost.

use std::str::FromStr;

use svgdom::*;

use super::values::{css_number, kind, value, Kind};
use crate::dom::{AName, AVal, World};
use crate::driver::{Ctx, Prop};
use crate::ensure;
use crate::gen;
use crate::logger;
use crate::names::{ATTRIBUTES, ELEMENTS, PRESENTATION};
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, Rng};
use crate::xml::*;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C24", quick: 400_000, thorough: 6_000_000,
        rule: "documents with valid, borderline and invalid values, cut path data, missing, mutual and self references are parsed while the \
               log is recorded; the recorded warnings are matched one to one with the losses the generator planted, each by the texts it \
               must contain; texts that are no SVG documents must return an error that says what is wrong; a case is one document and is \
               non-trivial if it has a loss",
        required: &[("documents", 10_000), ("documents without losses", 1000), ("invalid attribute values", 10_000), ("invalid style declarations", 2000),
                    ("invalid rule declarations", 2000), ("rules for several elements", 500), ("marker shorthands", 300),
                    ("cut paths", 1000), ("positions behind line breaks", 500), ("missing references", 3000), ("missing references with a fallback", 500), ("overridden references", 300), ("missing references in a style attribute", 500),
                    ("self references", 500), ("mutual references", 500), ("resolved references", 3000), ("silently dropped values", 1000),
                    ("ignored values", 3000), ("errors", 1000), ("edit histories", 1000), ("unicode attributes left out", 300), ("nodes removed twice", 200), ("warnings matched", 30_000)],
        assumptions: &["no property of an element has two references that are both missing or refused"],
        case: c24,
    }]
}

struct Loss {
    /// What the report must contain.
    texts: Vec<String>,
    what: String,
}

/// Assigns each loss a report of its own.
fn matching(losses: &[Loss], reports: &[logger::Report]) -> Option<usize> {
    fn find(i: usize, losses: &[Loss], reports: &[logger::Report], seen: &mut [bool], of: &mut [Option<usize>]) -> bool {
        for k in 0..reports.len() {
            if !seen[k] && losses[i].texts.iter().all(|t| reports[k].text.contains(t.as_str())) {
                seen[k] = true;
                if of[k].map_or(true, |j| find(j, losses, reports, seen, of)) {
                    of[k] = Some(i);
                    return true;
                }
            }
        }
        false
    }
    let mut of = vec![None; reports.len()];
    (0..losses.len()).find(|&i| !find(i, losses, reports, &mut vec![false; reports.len()], &mut of))
}

fn c24(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    if r.chance(8) {
        return errors(r, obs);
    }
    if r.chance(10) {
        return edits(r, obs);
    }
    let n = if r.below(100) == 0 { r.range(20, 60) } else { r.range(1, 8) };
    let clean = r.chance(15);
    let mut losses: Vec<Loss> = Vec::new();
    let mut paths: Vec<usize> = Vec::new();
    let mut svg = E::svg("svg");
    let mut css: Vec<String> = Vec::new();
    let mut elems: Vec<E> = Vec::new();
    if r.chance(40) {
        for name in ["width", "height", "viewBox", "x", "preserveAspectRatio", "opacity", "version"] {
            if !r.chance(30) {
                continue;
            }
            let (text, want, _) = value(r, kind(name), "svg", obs);
            if clean && want.is_none() {
                continue;
            }
            svg.attr(name, &text);
            if want.is_none() {
                obs.hit("invalid attribute values");
                losses.push(Loss { texts: vec![name.to_string(), text.trim().to_string()], what: format!("<svg> {}={:?}", name, text) });
            }
        }
    }
    let tags: Vec<&str> = ELEMENTS.iter().map(|e| e.0).filter(|e| *e != "style").collect();
    // Classes, so that a rule is for several elements.
    let classes: Vec<usize> = (0..n).map(|_| r.below(3)).collect();
    for i in 0..n {
        let mut e = E::svg(if r.chance(40) { gen::tag(r) } else { *r.pick(&tags) });
        e.attr("id", &format!("e{}", i));
        e.attr("class", &format!("c{}", classes[i]));
        let elem = e.name.clone();
        let mut used: Vec<&str> = Vec::new();
        let mut style = Vec::new();
        for _ in 0..r.below(5) {
            let name = loop {
                let a = r.pick(ATTRIBUTES).0;
                if !matches!(kind(a), Kind::Str | Kind::InheritStr) || r.chance(20) {
                    break a;
                }
            };
            if ["id", "class", "style", "xmlns", "space", "marker"].contains(&name) || used.contains(&name) {
                continue;
            }
            if name == "d" {
                let (_, mut t) = gen::path(r);
                let cut = !clean && r.chance(50);
                if cut {
                    t.push_str(*r.pick(&[" q", " L", " L 1", " C 1 2 3", " M 1", " X 1 2", " A 1 2 3 4", ";", " é"]));
                    if r.chance(10) {
                        t = r.pick(&["q", "L 10 20", "M", "10 20", "none"]).to_string();
                    }
                    obs.hit("cut paths");
                    paths.push(i);
                }
                e.attr("d", &t);
                used.push(name);
                continue;
            }
            let k = kind(name);
            let (text, want, css_ok) = value(r, k, &elem, obs);
            let silent = want.is_some()
                || (text.is_empty() && (matches!(k, Kind::NumList | Kind::Dash) || k == Kind::TextLen && ["altGlyph", "text", "tref", "tspan"].contains(&elem.as_str())))
                || (k == Kind::Transform && Transform::from_str(&text).is_ok());
            if clean && !silent {
                continue;
            }
            if want.is_none() && silent {
                obs.hit("silently dropped values");
            }
            let css_ok = css_ok && css_number(&text) && (PRESENTATION.contains(&name) || name == "transform") && !text.is_empty();
            let in_style = css_ok && r.chance(35);
            if in_style {
                style.push(format!("{}: {}", name, text));
            } else {
                e.attr(if name == "href" { "xlink:href" } else { name }, &text);
            }
            if !silent {
                obs.hit(if in_style { "invalid style declarations" } else { "invalid attribute values" });
                losses.push(Loss { texts: vec![name.to_string(), text.trim().to_string()], what: format!("<{} id='e{}'> {}={:?}", elem, i, name, text) });
            }
            used.push(name);
        }
        // References, each attribute once.
        for _ in 0..r.below(3) {
            let a = *r.pick(gen::LINK_SRC);
            let local = if a == "xlink:href" { "href" } else { a };
            if used.contains(&local) || (a == "fill" && gen::ANIMATIONS.contains(&elem.as_str())) {
                continue;
            }
            used.push(local);
            let missing = format!("no-{}-{}", i, used.len());
            match if clean { 3 } else { r.below(5) } {
                0 | 1 => {
                    let (t, fb) = gen::link_text(r, a, &missing);
                    if fb.is_some() {
                        obs.hit("missing references with a fallback");
                    } else if a != "xlink:href" && r.chance(25) {
                        obs.hit("missing references");
                        obs.hit("missing references in a style attribute");
                        losses.push(Loss { texts: vec![missing], what: format!("<{} id='e{}'> style {}:{:?} (missing)", elem, i, local, t) });
                        style.push(format!("{}: {}", a, t));
                        if r.chance(50) {
                            // A value with a lower priority.
                            e.attr(a, *r.pick(&["none", "inherit"]));
                        }
                        continue;
                    } else if a != "xlink:href" && r.chance(20) {
                        // A declaration with a higher priority.
                        obs.hit("overridden references");
                        style.push(format!("{}: none", a));
                    } else {
                        obs.hit("missing references");
                        losses.push(Loss { texts: vec![missing], what: format!("<{} id='e{}'> {}={:?} (missing)", elem, i, local, t) });
                    }
                    e.attr(a, &t);
                }
                2 => {
                    obs.hit("self references");
                    let (t, _) = gen::link_text(r, a, &format!("e{}", i));
                    losses.push(Loss { texts: vec![local.to_string(), format!("#e{}", i)], what: format!("<{} id='e{}'> {}={:?} (itself)", elem, i, local, t) });
                    e.attr(a, &t);
                }
                _ => {
                    obs.hit("resolved references");
                    let to = *r.pick(&["t0", "t1"]);
                    let (t, _) = gen::link_text(r, a, to);
                    e.attr(a, &t);
                }
            }
        }
        // Things that are ignored without a word.
        if r.chance(40) {
            obs.hit("ignored values");
            match r.below(6) {
                0 => e.attr("unknown-attr", *r.pick(&["q", "", "url(#no)"])),
                1 => e.attrs.push(A { ns: ANs::Foreign(0), name: "x".into(), value: "q".into() }),
                2 => style.push(format!("{}: q", *r.pick(&["x", "unknown", "viewBox", "Fill", "-moz-fill", "d"]))),
                3 => css.push(format!("#nobody, .c9 {{ fill: qwerty }}")),
                4 => css.push(format!("#e{} {{ {}: q }}", i, *r.pick(&["x", "width", "unknown", "points", "href"]))),
                _ => { let mut f = E::svg("unknown-elem"); f.attr("x", "q"); e.kids.push(X::E(f)); }
            }
        }
        if !style.is_empty() {
            e.attr("style", &style.join(";"));
        }
        elems.push(e);
    }
    // Two elements that refer to each other: the later one loses.
    if !clean && r.chance(30) {
        obs.hit("mutual references");
        let a = *r.pick(gen::LINK_SRC);
        let b = *r.pick(gen::LINK_SRC);
        let mut m0 = E::svg("g");
        m0.attr("id", "m0");
        m0.attr(a, &gen::link_text(r, a, "m1").0);
        let mut m1 = E::svg("g");
        m1.attr("id", "m1");
        m1.attr(b, &gen::link_text(r, b, "m0").0);
        losses.push(Loss { texts: vec![b.trim_start_matches("xlink:").to_string(), "#m0".into()], what: format!("<g id='m1'> {} (mutual)", b) });
        let at = r.below(elems.len() + 1);
        elems.insert(at, m0);
        let at = r.range(at + 1, elems.len());
        elems.insert(at, m1);
    }
    // Rules.
    if !clean {
        for _ in 0..r.below(3) {
            let name = *r.pick(PRESENTATION);
            let c = r.below(3);
            let hit: Vec<usize> = (0..n).filter(|&i| classes[i] == c).collect();
            let (prop, names): (&str, Vec<&str>) = if name == "marker" || r.chance(10) { ("marker", vec!["marker-start", "marker-mid", "marker-end"]) } else { (name, vec![name]) };
            // A word that is no value of the property anywhere.
            if !names.iter().all(|n| matches!(kind(n), Kind::LenInherit | Kind::NumInherit | Kind::Opacity | Kind::Stroke | Kind::FuncIri | Kind::Color
                                             | Kind::ColorCurrent | Kind::Spacing | Kind::BaselineShift | Kind::AngleInherit | Kind::AngleInheritAuto | Kind::FontSizeAdjust)) {
                continue;
            }
            let word = format!("bad{}", r.below(100));
            css.push(format!(".c{} {{ {}: {} }}", c, prop, word));
            if prop == "marker" {
                obs.hit("marker shorthands");
            }
            if hit.len() > 1 {
                obs.hit("rules for several elements");
            }
            for i in hit {
                for n in &names {
                    obs.hit("invalid rule declarations");
                    losses.push(Loss { texts: vec![n.to_string(), word.clone()], what: format!("rule for e{}: {}: {}", i, n, word) });
                }
            }
        }
    }
    for k in 0..2 {
        let mut t = E::svg(*r.pick(&["linearGradient", "g", "clipPath", "marker", "mask"]));
        t.attr("id", &format!("t{}", k));
        let at = r.below(elems.len() + 1);
        elems.insert(at, t);
    }
    if !css.is_empty() {
        let mut s = E::svg("style");
        s.kids.push(X::T(css.join("\n")));
        svg.kids.push(X::E(s));
    }
    let mut broken = false;
    for e in elems {
        if r.chance(30) {
            let t = *r.pick(&["\n", "\n  ", "\n\n", " "]);
            broken |= t.contains('\n');
            svg.kids.push(X::T(t.into()));
        }
        if r.chance(10) {
            let t = *r.pick(&[" é日 ", "a\nb", "\u{1F600}"]);
            broken |= t.contains('\n');
            svg.kids.push(X::C(t.into()));
        }
        svg.kids.push(X::E(e));
    }
    let text = to_xml(&[X::E(svg)]);
    for i in paths {
        // Where the value begins in the source.
        let at = text.find(&format!("id=\"e{}\"", i)).ok_or("harness: element not found")?;
        let at = at + text[at..].find(" d=\"").ok_or("harness: attribute not found")? + 4;
        let row = text[..at].matches('\n').count() + 1;
        let col = text[..at].chars().rev().take_while(|c| *c != '\n').count() + 1;
        if broken && row > 1 {
            obs.hit("positions behind line breaks");
        }
        losses.push(Loss { texts: vec![format!("{}:{}", row, col)], what: format!("path of e{} at {}:{}", i, row, col) });
    }
    obs.log(text.clone());
    obs.hit("documents");
    let (doc, reports) = logger::recorded(|| Document::from_str(&text));
    doc.map_err(|e| format!("parsing failed: {}", e))?;
    let reports: Vec<_> = reports.into_iter().filter(|x| x.level <= log::Level::Warn).collect();
    let list = || reports.iter().map(|x| format!("{}: {}", x.level, x.text)).collect::<Vec<_>>().join("\n");
    if let Some(i) = matching(&losses, &reports) {
        return Err(format!("not reported (should mention {:?}): {}\nreports:\n{}", losses[i].texts, losses[i].what, list()));
    }
    ensure!(reports.len() == losses.len(), "{} reports for {} losses:\n{}\nlosses:\n{}", reports.len(), losses.len(), list(),
            losses.iter().map(|l| l.what.clone()).collect::<Vec<_>>().join("\n"));
    ensure!(reports.iter().all(|x| x.level == log::Level::Warn), "a report is no warning:\n{}", list());
    obs.add("warnings matched", losses.len() as u64);
    if losses.is_empty() {
        obs.hit("documents without losses");
    } else {
        obs.nontrivial(hash_str(&text));
    }
    Ok(())
}

/// Editing and writing: silent, but for nodes removed twice and values that cannot be written.
fn edits(r: &mut Rng, obs: &mut Obs) -> Res {
    let (w, reports) = logger::recorded(|| super::layout::edit(r, World::new(), obs));
    let mut w = w?;
    obs.hit("edit histories");
    let show = |v: &[logger::Report]| v.iter().map(|x| format!("{}: {}", x.level, x.text)).collect::<Vec<_>>().join("\n");
    let loud = |v: Vec<logger::Report>| v.into_iter().filter(|x| x.level <= log::Level::Warn).collect::<Vec<_>>();
    let reports = loud(reports);
    ensure!(reports.is_empty(), "editing a document is reported:\n{}", show(&reports));

    let u = AName::Svg(AttributeId::Unicode);
    for i in w.alive(|m| m.is_elem()) {
        if r.chance(10) {
            let v = if r.chance(50) { AttributeValue::String("a".into()) } else { crate::dom::rand_value(r) };
            w.set_simple(i, &u, v, false, obs);
        }
    }
    let bad = w.preorder(0).into_iter().filter(|&i| !matches!(w.m[i].get(&u), None | Some(AVal::Simple(AttributeValue::String(_))))).count();
    let o = gen::options(r);
    let (text, reports) = logger::recorded(|| w.doc.to_string_with_opt(&o));
    let reports = loud(reports);
    obs.add("unicode attributes left out", bad as u64);
    ensure!(reports.len() == bad, "{} reports, but {} 'unicode' attributes have a value that is no string:\n{}", reports.len(), bad, show(&reports));
    ensure!(reports.iter().all(|x| x.level == log::Level::Warn && x.text.contains("unicode")), "a report is not about 'unicode':\n{}", show(&reports));

    let gone: Vec<usize> = (0..w.m.len()).filter(|&i| !w.m[i].alive && w.n[i].parent().is_none() && !w.n[i].has_children()).collect();
    if !gone.is_empty() {
        let n = w.n[*r.pick(&gone)].clone();
        let (_, reports) = logger::recorded(|| w.doc.remove_node(n.clone()));
        let reports = loud(reports);
        obs.hit("nodes removed twice");
        ensure!(reports.len() == 1, "a node is removed twice, but there are {} reports:\n{}", reports.len(), show(&reports));
    }
    obs.add("warnings matched", bad as u64);
    if bad > 0 {
        obs.nontrivial(hash_str(&text));
    }
    Ok(())
}

/// A text that is no SVG document: the error says so.
fn errors(r: &mut Rng, obs: &mut Obs) -> Res {
    let n = gen::size(r, 1, 6);
    let mut t = to_xml(&gen::rich_doc(r, n));
    let other = r.chance(20);
    if other {
        let mut e = E::svg(*r.pick(&["g", "rect", "symbol", "SVG", "Svg", "text"]));
        e.kids.push(X::E(E::svg("svg")));
        t = to_xml(&[X::E(e)]);
    } else {
        let at: Vec<usize> = t.char_indices().map(|c| c.0).collect();
        match r.below(4) {
            0 => t.truncate(*r.pick(&at)),
            1 => t.insert_str(*r.pick(&at), *r.pick(&["<", "</", "&", "<!--", "&x;", "]]>", "\u{1}", "'", "\"", ">"])),
            2 => { let a = *r.pick(&at); t.remove(a); }
            _ => t.push_str(*r.pick(&["<", "</svg>", "<g/>", "x", "&amp;"])),
        }
    }
    obs.log(t.clone());
    let (res, reports) = logger::recorded(|| Document::from_str(&t));
    match (res, roxmltree::Document::parse(&t)) {
        (Err(ParserError::RoXmlError(e)), Err(w)) => {
            obs.hit("errors");
            ensure!(e.to_string() == w.to_string(), "the error is {:?}, but the XML parser says {:?}", e.to_string(), w.to_string());
            let shown = ParserError::RoXmlError(e).to_string();
            ensure!(shown.contains(&w.to_string()), "the error is shown as {:?}, but the XML parser says {:?}", shown, w.to_string());
        }
        (Err(e), Err(_)) => return Err(format!("ill-formed text gives {:?}", e)),
        (Err(ParserError::NoSvgElement), Ok(_)) => {
            obs.hit("errors");
            ensure!(!ParserError::NoSvgElement.to_string().is_empty(), "an error without a message");
        }
        (Err(e), Ok(_)) => return Err(format!("well-formed text gives {:?}", e)),
        (Ok(_), Err(w)) => return Err(format!("ill-formed text is accepted: {}", w)),
        (Ok(_), Ok(_)) => {}
    }
    let _ = reports;
    Ok(())
}
