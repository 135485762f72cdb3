//! C18: live heap memory and handles that outlive their document.

use svgdom::*;

use crate::dom::*;
use crate::driver::{Ctx, Prop};
use crate::ensure;
use crate::gen;
use crate::mem;
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, Rng};
use crate::xml::{to_xml, SVG_NS};

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C18", quick: 240_000, thorough: 3_600_000,
        rule: "a random history (or parse) runs under a counting allocator; after the document and all handles are dropped, in random order, the \
               live memory must be what it was; handles that outlive the document are examined; repeated build-and-remove rounds must not \
               grow; non-trivial if links were made",
        required: &[("histories measured", 3000), ("parses measured", 2000), ("failed parses measured", 1000), ("allocator events", 1_000_000),
                    ("handles examined after the drop", 10_000), ("links at the drop", 3000), ("circular links at the drop", 200),
                    ("build-and-remove rounds", 10_000), ("detached nodes at the drop", 500), ("documents dropped after some handles", 1000),
                    ("removals measured", 2000), ("rounds in large documents", 500)],
        assumptions: &["the allocator hook sees every allocation of the thread"],
        case: c18,
    }]
}

fn profile(r: &mut Rng) -> Profile {
    Profile {
        create_elem: 20, create_other: 5, tree: 15, detach: 4, remove: 4, drain: 2, copy: 5, simple: 10, link: 30, if_none: 3, remove_attr: 3, set_id: 4,
        set_text: 2, set_tag: 1, max_nodes: r.range(3, 20), ..Default::default()
    }
}

/// Runs `f` twice, the first time to warm up, and returns what the second run leaves behind.
fn leftover(mut f: impl FnMut() -> Res) -> Result<(i64, i64, u64), String> {
    f()?;
    let a = mem::now();
    f()?;
    let b = mem::now();
    Ok((b.0 - a.0, b.1 - a.1, b.2 - a.2))
}

/// Longest chain of links must not matter; count cycles over several nodes.
fn has_cycle(w: &World) -> bool {
    let n = w.m.len();
    let next = |i: Id| w.m[i].attrs.iter().filter_map(|a| match a.1 { AVal::Link(_, t, _) => Some(t), _ => None }).collect::<Vec<_>>();
    for s in 0..n {
        if !w.m[s].alive {
            continue;
        }
        let mut seen = vec![false; n];
        let mut stack = next(s);
        while let Some(x) = stack.pop() {
            if x == s {
                return true;
            }
            if !seen[x] {
                seen[x] = true;
                stack.extend(next(x));
            }
        }
    }
    false
}

fn history(seed: u64, o: &mut Obs) -> Res {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut w = if r.chance(30) {
        let n = if r.below(100) == 0 { r.range(100, 400) } else { r.range(2, 10) };
        let t = to_xml(&gen::rich_doc(r, n));
        World::adopt(Document::from_str(&t).map_err(|e| e.to_string())?)?
    } else {
        World::new()
    };
    if r.chance(30) {
        // A ring of links, among whatever comes later.
        let ids: Vec<Id> = (0..r.range(3, 6)).map(|k| {
            let e = w.create_elem(Tag::Svg(*r.pick(TAGS)), o);
            w.set_id(e, &format!("ring{}", k), o);
            if r.chance(60) {
                w.append(0, e, o);
            }
            e
        }).collect();
        for k in 0..ids.len() {
            let name = World::rand_name(r, true);
            w.set_link(r, ids[k], &name, ids[(k + 1) % ids.len()], false, o)?;
        }
    }
    if r.below(150) == 0 {
        // Many nodes, and links among the latest.
        let mut last: Vec<Id> = Vec::new();
        for k in 0..r.range(100, 400) {
            let e = w.create_elem(Tag::Svg(*r.pick(TAGS)), o);
            w.set_id(e, &format!("many{}", k), o);
            if r.chance(80) {
                w.append(0, e, o);
            }
            last.push(e);
        }
        let at = last.len() - r.range(2, 10);
        for k in at..last.len() {
            let name = World::rand_name(r, true);
            let t = last[if k + 1 == last.len() { at } else { k + 1 }];
            w.set_link(r, last[k], &name, t, false, o)?;
        }
    }
    let p = profile(r);
    for _ in 0..r.range(3, 60) {
        w.step(r, &p, o)?;
    }
    let links: usize = w.m.iter().filter(|m| m.alive).map(|m| m.attrs.iter().filter(|a| matches!(a.1, AVal::Link(..))).count()).sum();
    o.add("links at the drop", links as u64);
    if links > 0 {
        o.nontrivial(w.fp());
    }
    if has_cycle(&w) {
        o.hit("circular links at the drop");
    }
    if w.m.iter().any(|m| m.alive && m.parent.is_none() && m.kind != Kind::Root) {
        o.hit("detached nodes at the drop");
    }
    // Drop some handles, the document, then the other handles.
    let World { doc, n, m, .. } = w;
    let mut kept: Vec<(Node, bool, Kind)> = n.into_iter().zip(m).filter(|_| r.chance(70)).map(|(n, m)| (n, m.alive, m.kind)).collect();
    r.shuffle(&mut kept);
    o.hit("documents dropped after some handles");
    drop(doc);
    examine(&kept, o)?;
    while let Some(k) = kept.pop() {
        drop(k);
        if kept.len() == 2 {
            examine(&kept, o)?;
        }
    }
    Ok(())
}

/// Handles that outlived their document.
fn examine(kept: &[(Node, bool, Kind)], o: &mut Obs) -> Res {
    for (i, (n, alive, kind)) in kept.iter().enumerate() {
        let t = match kind { Kind::Root => NodeType::Root, Kind::Elem(_) => NodeType::Element, Kind::Text => NodeType::Text, Kind::Comment => NodeType::Comment };
        ensure!(n.node_type() == t, "handle {} changed its type", i);
        if *alive {
            ensure!(n.parent().is_none() && !n.has_parent(), "handle {} has a parent after the document was dropped", i);
            ensure!(n.first_child().is_none() && n.last_child().is_none() && !n.has_children() && n.children().count() == 0,
                    "handle {} has children after the document was dropped", i);
            ensure!(n.previous_sibling().is_none() && n.next_sibling().is_none(), "handle {} has siblings after the document was dropped", i);
            ensure!(n.attributes().is_empty(), "handle {} has attributes after the document was dropped: {}", i, *n.attributes());
        }
        ensure!(n.linked_nodes().is_empty() && n.uses_count() == 0 && !n.is_used(), "handle {} has links after the document was dropped", i);
        ensure!(n.attributes().iter().all(|a| !a.is_link_container()), "handle {} links to something after the document was dropped", i);
        ensure!(n.root() == *n || !*alive, "handle {} has another root after the document was dropped", i);
        let _ = (n.id().len(), n.text().len(), format!("{:?} {}", n, n), n.descendants().count(), n.traverse().count(), n.ancestors().count());
        o.hit("handles examined after the drop");
    }
    // They can still be changed.
    for (n, alive, kind) in kept.iter() {
        if *alive && matches!(kind, Kind::Elem(_)) {
            let mut n = n.clone();
            n.set_id("late");
            n.set_attribute((AttributeId::X, 1.0));
            n.remove_attribute(AttributeId::X);
            n.detach();
        }
    }
    Ok(())
}

/// Rounds of building and removing in a living document.
fn rounds(seed: u64, o: &mut Obs) -> Res {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    svg.set_id("svg");
    doc.root().append(svg.clone());
    let mut stable = Vec::new();
    let standing = if r.chance(25) { o.hit("rounds in large documents"); r.range(30, 150) } else { r.range(1, 4) };
    for i in 0..standing {
        let mut e = doc.create_element(ElementId::LinearGradient);
        e.set_id(format!("s{}", i));
        svg.append(e.clone());
        stable.push(e);
    }
    let script = r.next();
    let variant = r.below(3);
    let mut base = None;
    let count = 24;
    for k in 0..count {
        // Every round does exactly the same.
        let mut q = Rng::new(script);
        let mut made: Vec<Node> = Vec::new();
        let at_start = mem::now();
        let many = if q.chance(8) { q.range(20, 120) } else { q.range(2, 8) };
        if many > 19 {
            o.hit("rounds of many nodes");
        }
        for i in 0..many {
            let mut e = doc.create_element(*q.pick(TAGS));
            e.set_id(format!("e{}", i));
            let p = if made.is_empty() || q.chance(30) { svg.clone() } else { q.pick(&made).clone() };
            let mut p = p;
            p.append(e.clone());
            if q.chance(30) {
                let t = doc.create_node(NodeType::Text, "some text that takes memory");
                e.append(t);
            }
            made.push(e);
        }
        for _ in 0..q.range(1, 10) {
            let mut a = if q.chance(70) { q.pick(&made).clone() } else { q.pick(&stable).clone() };
            let b = if q.chance(60) { q.pick(&made).clone() } else { q.pick(&stable).clone() };
            let name = World::rand_name(&mut q, true);
            let v = AttributeValue::FuncLink(b);
            let _ = a.set_attribute_checked(Attribute::new(name.qref(), v));
        }
        for _ in 0..q.below(8) {
            let mut a = q.pick(&made).clone();
            match q.below(5) {
                0 => {
                    let (id, _, v) = gen::attr(&mut q);
                    a.set_attribute((id, v));
                }
                1 => a.set_attribute(Attribute::new(World::rand_name(&mut q, false).qref(), rand_value(&mut q))),
                2 => a.set_tag_name(*q.pick(&["custom-tag-name", "x"])),
                3 => {
                    let mut c = doc.create_node(NodeType::Comment, "a comment that takes memory");
                    a.append(c.clone());
                    c.set_text("another comment that takes memory");
                }
                _ => {
                    let n = a.attributes().iter().next().map(|a| a.name.clone());
                    if let Some(n) = n {
                        a.remove_attribute(n.as_ref());
                    }
                }
            }
        }
        if q.chance(50) {
            let c = q.pick(&made).clone();
            let d = doc.copy_node_deep(c);
            svg.append(d.clone());
            doc.remove_node(d);
        }
        match variant {
            0 => {
                drop(made);
                doc.drain(svg.clone(), |n| !n.has_id() || n.id().starts_with('e'));
            }
            1 => {
                // Every node alone, in random order; handles go with them.
                q.shuffle(&mut made);
                for n in made.drain(..) {
                    doc.remove_node(n);
                }
                doc.drain(svg.clone(), |n| !n.has_id() || n.id().starts_with('e'));
            }
            _ => {
                // Detached first: they still belong to the document.
                for n in &made {
                    let mut n = n.clone();
                    if q.chance(30) {
                        n.detach();
                    }
                }
                for n in made.drain(..) {
                    doc.remove_node(n);
                }
                doc.drain(svg.clone(), |n| !n.has_id() || n.id().starts_with('e'));
            }
        }
        // Links of the stable elements go too, so that all rounds are alike.
        for s in stable.iter_mut() {
            let names: Vec<AttributeQName> = s.attributes().iter().map(|a| a.name.clone()).collect();
            for n in names {
                s.remove_attribute(n.as_ref());
            }
        }
        o.hit("build-and-remove rounds");
        let now = mem::now();
        if k == 4 {
            base = Some(now);
        }
        if k > 4 {
            o.hit("removals measured");
            // A round leaves nothing but spare room in lists.
            ensure!(now.1 - at_start.1 <= 2, "a build-and-remove round leaves {} blocks behind", now.1 - at_start.1);
        }
    }
    let (b, e) = (base.unwrap(), mem::now());
    ensure!(e.1 - b.1 <= 4 && e.0 - b.0 <= 1024, "{} build-and-remove rounds grew the memory by {} bytes in {} blocks",
            count - 5, e.0 - b.0, e.1 - b.1);
    Ok(())
}

fn c18(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let seed = r.next();
    let (name, f): (&'static str, Box<dyn Fn(&mut Obs) -> Res>) = match r.below(10) {
        0..=4 => ("histories measured", Box::new(move |o| history(seed, o))),
        5 | 6 => {
            let mut q = Rng::new(seed);
            let n = q.range(1, 14);
            let t = to_xml(&gen::rich_doc(&mut q, n));
            obs.log(format!("parse {}", t));
            ("parses measured", Box::new(move |o| {
                let d = Document::from_str(&t).map_err(|e| e.to_string())?;
                let n: Vec<Node> = d.root().descendants().collect();
                let links = n.iter().map(|n| n.uses_count()).sum::<usize>();
                o.add("links at the drop", links as u64);
                if links > 0 {
                    o.nontrivial(hash_str(&t));
                }
                let s = d.to_string();
                drop(n);
                drop(d);
                drop(s);
                Ok(())
            }))
        }
        7 | 8 => {
            // Parses that fail late, after nodes and links were made.
            let mut q = Rng::new(seed);
            let n = q.range(1, 8);
            let t = to_xml(&gen::rich_doc(&mut q, n));
            let t = match q.below(3) {
                0 => t.replacen("<svg ", "<g ", 1).trim_end_matches("</svg>").to_string() + "</g>",
                1 => {
                    let mut e = t.len() - q.below(t.len().min(20)) - 1;
                    while !t.is_char_boundary(e) {
                        e -= 1;
                    }
                    t[..e].to_string()
                }
                _ => t.replace(SVG_NS, "urn:other"),
            };
            obs.log(format!("parse {}", t));
            ("failed parses measured", Box::new(move |o| {
                if Document::from_str(&t).is_ok() {
                    o.hit("parses that did not fail");
                }
                Ok(())
            }))
        }
        _ => ("build-and-remove documents", Box::new(move |o| rounds(seed, o))),
    };
    let mut kept: Option<Obs> = None;
    let left = leftover(|| {
        // The observations of the monitor itself must not count.
        let mut o = Obs::default();
        let res = f(&mut o);
        match res {
            Ok(()) => {
                if kept.is_none() {
                    kept = Some(o);
                } else {
                    drop(o);
                }
                Ok(())
            }
            Err(e) => Err(format!("{}\n{}", e, o.trace.join("\n"))),
        }
    })?;
    let o = kept.unwrap();
    for (k, v) in &o.counters {
        obs.add(k, *v);
    }
    obs.fps.extend(o.fps.iter());
    obs.trace.extend(o.trace.iter().cloned());
    obs.hit(name);
    obs.add("allocator events", left.2);
    ensure!(left.0 == 0 && left.1 == 0, "{}: {} bytes in {} blocks are not released", name, left.0, left.1);
    Ok(())
}
