//! C01 - C07: recorded histories of DOM calls, checked step by step against a reference model.

use svgdom::*;

use crate::dom::*;
use crate::driver::{Ctx, Prop, Tier};
use crate::ensure;
use crate::gen;
use crate::obs::{Obs, Res};
use crate::rng::Rng;
use crate::xml;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01", quick: 480_000, thorough: 7_200_000,
            rule: "a random history of create/append/prepend/insert/detach calls, the whole forest compared with the reference \
                   tree after every call; non-trivial if at least one node was moved, counted by the final forest",
            required: &[("op append", 1000), ("op prepend", 1000), ("op insert_after", 1000), ("op insert_before", 1000),
                        ("op detach", 1000), ("inserted next to an adjacent sibling", 300), ("subtree detached", 300),
                        ("re-inserted under the same parent", 300), ("inserted beside a node without a parent", 100), ("parsed documents edited", 50)],
            assumptions: &["nodes are inserted only outside of their own subtree"],
            case: c01,
        },
        Prop {
            id: "C02", quick: 480_000, thorough: 7_200_000,
            rule: "every iterator of every node of a random tree is run to exhaustion, with random interleavings of both ends, \
                   and compared with the sequence computed from the tree; non-trivial if the tree has at least 3 nodes",
            required: &[("children sequences", 1000), ("traversals", 1000), ("mixed-end runs", 1000), ("calls after exhaustion", 1000), ("nodes detached while iterating", 1000),
                        ("svg-element lookups", 100)],
            assumptions: &["the tree is not changed while it is iterated over, except by detaching the node just yielded"],
            case: c02,
        },
        Prop {
            id: "C03", quick: 400_000, thorough: 6_000_000,
            rule: "a random history of attribute, id, copy and removal calls on a new or parsed document; after every call the \
                   back references of every node are compared, as multisets, with the forward links of the model; non-trivial if \
                   links were made, counted by the final state",
            required: &[("new link", 1000), ("link over link", 50), ("link over link to the same node", 20), ("plain value over link", 50),
                        ("link over plain value", 50), ("link removed", 100), ("op remove_node", 100), ("op copy_node", 50),
                        ("several links between the same nodes", 50), ("links under custom names", 50), ("calls on removed nodes", 300), ("parsed documents edited", 50)],
            assumptions: &["links are only changed through the node API, not through attributes_mut or linked_nodes_mut"],
            case: c03,
        },
        Prop {
            id: "C04", quick: 320_000, thorough: 4_800_000,
            rule: "link calls (a third of them invalid) in random states; the outcome is compared with the model's verdict and the \
                   complete document state with the model after every call; non-trivial if a call was refused",
            required: &[("refused: no id", 300), ("refused: same id", 200), ("refused: mutual link", 200),
                        ("refused while the attribute exists", 200), ("new link", 1000)],
            assumptions: &["link targets are elements of the same document"],
            case: c04,
        },
        Prop {
            id: "C05", quick: 320_000, thorough: 4_800_000,
            rule: "histories with many removals and drains on linked trees; after every call structure, attributes, links and \
                   membership of all nodes, removed ones included, are compared with the model; non-trivial if nodes were removed",
            required: &[("op remove_node", 500), ("op drain", 300), ("drain with several matches", 50), ("op remove_node again", 100),
                        ("nodes removed", 2000), ("removed nodes examined", 5000), ("removals across links", 300), ("calls on removed nodes", 300)],
            assumptions: &["removed nodes are not put back into the document"],
            case: c05,
        },
        Prop {
            id: "C06", quick: 240_000, thorough: 3_600_000,
            rule: "histories of attribute, id, tag name and text writes with values of every type; after every call all accessors of \
                   the written node and the stored data of every node are compared with a map; non-trivial if attributes exist at the end",
            required: &[("op set_attribute", 2000), ("op set_attribute_if_none", 300), ("op remove_attribute", 300),
                        ("plain value over plain value", 300), ("op in-place value change", 200), ("accessor comparisons", 5000),
                        ("op set_id", 200), ("op set_text", 200), ("op set_tag_name", 200), ("conversions compared", 1000)],
            assumptions: &[],
            case: c06,
        },
        Prop {
            id: "C07", quick: 240_000, thorough: 3_600_000,
            rule: "histories with many shallow and deep copies, each followed by changes to copy and original; the complete state is \
                   compared with the model, in which copies are independent, after every call; non-trivial if a copy was made",
            required: &[("op copy_node", 300), ("op copy_node_deep", 500), ("deep copies with children", 200), ("copies with links", 200),
                        ("copies with attributes", 300), ("removed nodes copied", 50)],
            assumptions: &["links of the copied nodes point to elements that still have an id"],
            case: c07,
        },
    ]
}

fn parsed_world(r: &mut Rng, obs: &mut Obs) -> Result<World, String> {
    let n = gen::size(r, 2, 12);
    let top = gen::linked_doc(r, n);
    let text = xml::to_xml(&top);
    obs.log(format!("parse {}", text));
    let doc = Document::from_str(&text).map_err(|e| format!("parsing failed: {}", e))?;
    obs.hit("parsed documents edited");
    World::adopt(doc)
}

fn start(r: &mut Rng, obs: &mut Obs, parsed: usize) -> Result<World, String> {
    if r.chance(parsed) { parsed_world(r, obs) } else { Ok(World::new()) }
}

/// A few elements with ids to start from, so that links come early.
fn populate(r: &mut Rng, w: &mut World, obs: &mut Obs) {
    if r.chance(70) {
        for k in 0..r.range(2, 6) {
            let tag = rand_tag(r, 5);
            let e = w.create_elem(tag, obs);
            w.set_id(e, &format!("p{}", k), obs);
            if r.chance(80) {
                let cand = w.alive(|m| m.kind == Kind::Root || m.is_elem());
                let cand: Vec<Id> = cand.into_iter().filter(|x| *x != e).collect();
                w.append(*r.pick(&cand), e, obs);
            }
        }
    }
}

/// Now and then a document of an unusual size or shape to start from. Returns the size to go on with.
fn unusual(r: &mut Rng, w: &mut World, obs: &mut Obs, links: bool) -> Option<usize> {
    if r.below(120) != 0 {
        return None;
    }
    let base = w.n.len();
    match r.below(if links { 4 } else { 2 }) {
        0 => {
            // Many nodes.
            let n = if r.chance(25) { r.range(130, 320) } else { r.range(30, 120) };
            // Now and then nearly all of them in one element.
            let hub = if r.chance(30) {
                let e = w.create_elem(Tag::Svg(ElementId::G), obs);
                w.append(0, e, obs);
                Some(e)
            } else {
                None
            };
            for k in 0..n {
                let e = if hub.is_some() && r.chance(30) {
                    w.create_other(r.chance(50), "t", obs)
                } else {
                    let tag = rand_tag(r, 5);
                    w.create_elem(tag, obs)
                };
                if r.chance(70) && w.m[e].is_elem() {
                    w.set_id(e, &format!("b{}", k), obs);
                }
                let parent = match hub {
                    Some(h) if r.chance(97) => h,
                    _ => if r.chance(40) { 0 } else { w.pick(r, |m| m.is_elem()).unwrap() },
                };
                if parent != e {
                    w.append(parent, e, obs);
                }
            }
            obs.hit("starts with many nodes");
        }
        1 => {
            // A long chain.
            let n = r.range(40, 250);
            let mut parent = 0;
            for k in 0..n {
                let tag = rand_tag(r, 5);
                let e = w.create_elem(tag, obs);
                if r.chance(30) {
                    w.set_id(e, &format!("b{}", k), obs);
                }
                w.append(parent, e, obs);
                parent = e;
            }
            obs.hit("starts with a long chain");
        }
        2 => {
            // One element with many attributes, links among them.
            for k in 0..r.range(2, 6) {
                let e = w.create_elem(Tag::Svg(ElementId::G), obs);
                w.set_id(e, &format!("b{}", k), obs);
                w.append(0, e, obs);
            }
            let e = w.create_elem(Tag::Svg(ElementId::Path), obs);
            w.append(0, e, obs);
            let end = r.range(15, 60);
            while w.m[e].attrs.len() < end {
                let name = if r.chance(50) {
                    AName::Custom(format!("data-{}", w.m[e].attrs.len()))
                } else {
                    World::rand_name(r, true)
                };
                if r.chance(40) {
                    let t = r.range(base, e - 1);
                    if w.refusal(e, t).is_none() && w.set_link(r, e, &name, t, false, obs).is_err() {
                        break;
                    }
                } else {
                    let v = rand_value(r);
                    w.set_simple(e, &name, v, false, obs);
                }
            }
            obs.hit("starts with many attributes");
        }
        _ => {
            // One element that many others link to.
            let t = w.create_elem(Tag::Svg(ElementId::LinearGradient), obs);
            w.set_id(t, "hub", obs);
            w.append(0, t, obs);
            for k in 0..if r.chance(10) { r.range(100, 350) } else { r.range(12, 40) } {
                let e = w.create_elem(Tag::Svg(ElementId::Rect), obs);
                if r.chance(50) {
                    w.set_id(e, &format!("b{}", k), obs);
                }
                let parent = if r.chance(20) { t } else { 0 };
                w.append(parent, e, obs);
                for _ in 0..r.range(1, 3) {
                    let name = World::rand_name(r, true);
                    if w.set_link(r, e, &name, t, false, obs).is_err() {
                        break;
                    }
                }
            }
            obs.hit("starts with many links to one element");
        }
    }
    Some(w.n.len() + r.range(1, 30))
}

fn ops(r: &mut Rng, ctx: &Ctx, max: usize) -> usize {
    let m = if ctx.tier == Tier::Thorough { max * 2 } else { max };
    match r.below(4) {
        0 => r.range(1, 8),
        1 => r.range(m / 2, m),
        _ => r.range(5, m / 2 + 5),
    }
}

fn c01(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    let mut w = start(r, obs, 15)?;
    w.check_structure(obs)?;
    let mut p = Profile {
        create_elem: 12, create_other: 8, tree: 60, detach: 14, simple: 1, set_id: 2, set_text: 1, set_tag: 1, max_nodes: r.range(3, 25), ..Default::default()
    };
    if let Some(m) = unusual(r, &mut w, obs, false) {
        p.max_nodes = m;
    }
    let n = ops(r, ctx, 50);
    for _ in 0..n {
        w.step(r, &p, obs)?;
        w.check_structure(obs)?;
    }
    if w.n.len() > 2 {
        obs.nontrivial(w.fp());
    }
    Ok(())
}

/// A random forest of every node type, built through the API.
pub fn rand_tree(r: &mut Rng, obs: &mut Obs, max: usize) -> World {
    let mut w = World::new();
    let n = r.range(0, max);
    let chain = r.chance(20);
    let wide = r.chance(8);
    for _ in 0..n {
        let c = if r.chance(75) {
            let t = rand_tag(r, 20);
            w.create_elem(t, obs)
        } else {
            let com = r.chance(50);
            w.create_other(com, "t", obs)
        };
        if r.chance(92) {
            let cand: Vec<Id> = w.alive(|m| m.kind == Kind::Root || m.is_elem()).into_iter().filter(|x| *x != c).collect();
            if r.below(40) == 0 {
                let s: Vec<Id> = w.alive(|m| m.kind != Kind::Root).into_iter().filter(|x| *x != c).collect();
                if !s.is_empty() {
                    let after = r.chance(50);
                    let s = *r.pick(&s);
                    w.insert(s, c, after, obs);
                    continue;
                }
            }
            let p = if wide && r.chance(95) { *cand.first().unwrap() } else if chain { *cand.last().unwrap() } else { *r.pick(&cand) };
            if r.chance(50) { w.append(p, c, obs) } else { w.prepend(p, c, obs) }
        }
    }
    w
}

fn c02(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let max = if r.below(150) == 0 { 250 } else if r.chance(10) { 60 } else { 14 };
    let w = if r.chance(10) { parsed_world(r, obs)? } else { rand_tree(r, obs, max) };
    let idx = |n: &Node| w.find(n);
    let collect = |it: &mut dyn Iterator<Item = Node>, what: &str, i: Id| -> Result<Vec<Id>, String> {
        let mut v = Vec::new();
        for n in it {
            ensure!(v.len() <= 2 * w.n.len() + 2, "n{}.{}() does not end", i, what);
            v.push(idx(&n).ok_or_else(|| format!("n{}.{}() yields an unknown node", i, what))?);
        }
        Ok(v)
    };
    for i in 0..w.n.len() {
        let (node, m) = (&w.n[i], &w.m[i]);
        let (mut before, mut after) = (vec![i], vec![i]);
        if let Some(v) = w.siblings(i) {
            let k = v.iter().position(|x| *x == i).unwrap();
            before.extend(v[..k].iter().rev());
            after.extend(v[k + 1..].iter());
        }
        let mut anc = vec![i];
        while let Some(p) = w.m[*anc.last().unwrap()].parent {
            anc.push(p);
        }
        let cases: Vec<(&str, Vec<Id>, Vec<Id>)> = vec![
            ("ancestors", collect(&mut node.ancestors(), "ancestors", i)?, anc),
            ("preceding_siblings", collect(&mut node.preceding_siblings(), "preceding_siblings", i)?, before),
            ("following_siblings", collect(&mut node.following_siblings(), "following_siblings", i)?, after),
            ("children", collect(&mut node.children(), "children", i)?, m.children.clone()),
            ("children reversed", collect(&mut node.children().rev(), "children().rev", i)?,
             m.children.iter().rev().cloned().collect()),
            ("descendants", collect(&mut node.descendants(), "descendants", i)?, w.preorder(i)),
        ];
        for (name, got, want) in &cases {
            ensure!(got == want, "n{}.{}() yields {:?}, expected {:?}", i, name, got, want);
        }
        obs.hit("children sequences");

        let svg: Vec<(ElementId, Id)> = node.descendants().svg().map(|(id, n)| (id, idx(&n).unwrap_or(usize::MAX))).collect();
        let want: Vec<(ElementId, Id)> = w.preorder(i).into_iter().filter_map(|x| match w.m[x].kind {
            Kind::Elem(Tag::Svg(id)) => Some((id, x)),
            _ => None,
        }).collect();
        ensure!(svg == want, "n{}.descendants().svg() yields {:?}, expected {:?}", i, svg, want);
        let svg: Vec<(ElementId, Id)> = node.children().svg().map(|(id, n)| (id, idx(&n).unwrap_or(usize::MAX))).collect();
        let want: Vec<(ElementId, Id)> = m.children.iter().filter_map(|&x| match w.m[x].kind {
            Kind::Elem(Tag::Svg(id)) => Some((id, x)),
            _ => None,
        }).collect();
        ensure!(svg == want, "n{}.children().svg() yields {:?}, expected {:?}", i, svg, want);

        // Traversal.
        let mut edges: Vec<(bool, Id)> = Vec::new();
        fn walk(w: &World, n: Id, v: &mut Vec<(bool, Id)>) {
            v.push((true, n));
            for c in &w.m[n].children {
                walk(w, *c, v);
            }
            v.push((false, n));
        }
        walk(&w, i, &mut edges);
        let edge = |e: NodeEdge<NodeData>| -> (bool, Id) {
            match e {
                NodeEdge::Start(n) => (true, idx(&n).unwrap_or(usize::MAX)),
                NodeEdge::End(n) => (false, idx(&n).unwrap_or(usize::MAX)),
            }
        };
        let got: Vec<(bool, Id)> = node.traverse().take(edges.len() + 2).map(edge).collect();
        ensure!(got == edges, "n{}.traverse() yields {:?}, expected {:?}", i, got, edges);
        let mut back: Vec<(bool, Id)> = node.traverse().rev().take(edges.len() + 2).map(edge).collect();
        back.reverse();
        ensure!(back == edges, "n{}.traverse().rev() yields {:?} (from the front), expected {:?}", i, back, edges);
        obs.hit("traversals");
        // Edges are equal if they are the same end of the same node.
        let first = match node.traverse().next() { Some(e) => e, None => return Err(format!("n{}.traverse() is empty", i)) };
        let (s, e) = (NodeEdge::Start(node.clone()), NodeEdge::End(node.clone()));
        let other = NodeEdge::Start(w.n[(i + 1) % w.n.len()].clone());
        ensure!(first == s && first != e && s != e && e == NodeEdge::End(node.clone()) && (w.n.len() == 1 || (s != other && other != s)),
                "n{}: comparison of traversal edges is wrong", i);

        // Both ends, interleaved, then a few more calls on the exhausted iterator.
        for round in 0..2 {
            let pct = if round == 0 { 50 } else { r.range(5, 95) };
            let mut it = node.traverse();
            mixed(r, obs, &mut || it.next().map(edge), &edges, pct, &format!("n{}.traverse()", i), None)?;
            let mut it = node.traverse();
            let (mut f, mut b) = (Vec::new(), Vec::new());
            two_ends(r, obs, &mut it, &edges, pct, &edge, &mut f, &mut b, &format!("n{}.traverse()", i))?;
            let mut it = node.children();
            let (mut f, mut b) = (Vec::new(), Vec::new());
            let conv = |n: Node| idx(&n).unwrap_or(usize::MAX);
            two_ends(r, obs, &mut it, &m.children, pct, &conv, &mut f, &mut b, &format!("n{}.children()", i))?;
        }
    }
    let want = w.m[0].children.iter().cloned().find(|&x| w.m[x].kind == Kind::Elem(Tag::Svg(ElementId::Svg)));
    let got = w.doc.svg_element();
    ensure!(match (&got, want) { (Some(g), Some(x)) => *g == w.n[x], (None, None) => true, _ => false },
            "svg_element() is wrong, expected {:?}", want);
    obs.hit("svg-element lookups");
    if w.n.len() > 2 {
        obs.nontrivial(w.fp());
    }

    // Taking away each node as it is yielded leaves the rest of the sequence alone.
    let i = r.below(w.n.len());
    let sib = w.siblings(i).map(|v| (v.iter().position(|x| *x == i).unwrap(), v.to_vec()));
    let (want, what): (Vec<Id>, &str) = match r.below(5) {
        0 => {
            let mut v = vec![i];
            while let Some(p) = w.m[*v.last().unwrap()].parent {
                v.push(p);
            }
            (v, "ancestors")
        }
        1 => (sib.map(|(k, v)| v[..=k].iter().rev().cloned().collect()).unwrap_or_else(|| vec![i]), "preceding_siblings"),
        2 => (sib.map(|(k, v)| v[k..].to_vec()).unwrap_or_else(|| vec![i]), "following_siblings"),
        3 => (w.m[i].children.clone(), "children"),
        _ => (w.m[i].children.iter().rev().cloned().collect(), "children().rev"),
    };
    let n = &w.n[i];
    let mut it: Box<dyn Iterator<Item = Node>> = match what {
        "ancestors" => Box::new(n.ancestors()),
        "preceding_siblings" => Box::new(n.preceding_siblings()),
        "following_siblings" => Box::new(n.following_siblings()),
        "children" => Box::new(n.children()),
        _ => Box::new(n.children().rev()),
    };
    let pct = *r.pick(&[100, 100, 50, 20]);
    let mut got = Vec::new();
    while let Some(mut x) = it.next() {
        ensure!(got.len() <= want.len(), "n{}.{}() does not end when the nodes it yields are detached", i, what);
        got.push(idx(&x).unwrap_or(usize::MAX));
        if r.chance(pct) {
            x.detach();
            obs.hit("nodes detached while iterating");
        }
    }
    ensure!(got == want, "n{}.{}(), with the yielded nodes detached, yields {:?}, expected {:?}", i, what, got, want);
    Ok(())
}

/// Forward iteration with repeated calls behind the end.
fn mixed<T: PartialEq + std::fmt::Debug + Clone>(
    r: &mut Rng, obs: &mut Obs, next: &mut dyn FnMut() -> Option<T>, want: &[T], _: usize, what: &str, _u: Option<()>,
) -> Res {
    for w in want {
        let g = next();
        ensure!(g.as_ref() == Some(w), "{} yields {:?}, expected {:?}", what, g, w);
    }
    for _ in 0..r.range(1, 3) {
        let g = next();
        ensure!(g.is_none(), "exhausted {} yields {:?}", what, g);
        obs.hit("calls after exhaustion");
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn two_ends<I: DoubleEndedIterator, T: PartialEq + std::fmt::Debug + Clone>(
    r: &mut Rng, obs: &mut Obs, it: &mut I, want: &[T], pct: usize, conv: &dyn Fn(I::Item) -> T,
    front: &mut Vec<T>, back: &mut Vec<T>, what: &str,
) -> Res {
    for _ in 0..want.len() {
        let is_front = r.chance(pct);
        let g = if is_front { it.next() } else { it.next_back() };
        let g = match g {
            Some(g) => conv(g),
            None => return Err(format!("{} ended after {} of {} items (front {:?}, back {:?})",
                                       what, front.len() + back.len(), want.len(), front, back)),
        };
        let w = if is_front { &want[front.len()] } else { &want[want.len() - 1 - back.len()] };
        ensure!(g == *w, "{} yields {:?} at the {} after front {:?} and back {:?}, expected {:?}",
                what, g, if is_front { "front" } else { "back" }, front, back, w);
        if is_front { front.push(g) } else { back.push(g) }
    }
    obs.hit("mixed-end runs");
    for _ in 0..r.range(1, 4) {
        let g = if r.chance(50) { it.next() } else { it.next_back() };
        ensure!(g.is_none(), "exhausted {} yields {:?}", what, g.map(conv));
        obs.hit("calls after exhaustion");
    }
    Ok(())
}

fn link_profile(r: &mut Rng) -> Profile {
    Profile {
        create_elem: 10, create_other: 1, tree: 4, detach: 2, remove: 5, remove_again: 1, drain: 2, copy: 5, simple: 10, link: 40,
        if_none: 6, remove_attr: 10, set_id: 4, set_text: 1, set_tag: 2, attr_mut: 1, dead: 6, max_nodes: r.range(3, 12), ..Default::default()
    }
}

fn c03(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    let mut w = start(r, obs, 25)?;
    populate(r, &mut w, obs);
    w.check_links(obs)?;
    let mut p = link_profile(r);
    if let Some(m) = unusual(r, &mut w, obs, true) {
        p.max_nodes = m;
    }
    let n = ops(r, ctx, 60);
    for _ in 0..n {
        w.step(r, &p, obs)?;
        w.check_links(obs)?;
    }
    let mut any = false;
    for m in w.m.iter().filter(|m| m.alive) {
        for a in &m.attrs {
            if let (AName::Custom(_), AVal::Link(..)) = (&a.0, &a.1) {
                obs.hit("links under custom names");
            }
            any |= matches!(a.1, AVal::Link(..));
        }
    }
    w.check_attrs(obs)?;
    if any {
        obs.nontrivial(w.fp());
    }
    Ok(())
}

fn c04(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    let mut w = start(r, obs, 15)?;
    populate(r, &mut w, obs);
    let mut p = Profile {
        create_elem: 8, tree: 2, simple: 8, link: 60, if_none: 4, remove_attr: 6, set_id: 10, set_tag: 2, attr_mut: 1, max_nodes: r.range(2, 8),
        ..Default::default()
    };
    if let Some(m) = unusual(r, &mut w, obs, true) {
        p.max_nodes = m;
    }
    let before: u64 = refused(obs);
    let n = ops(r, ctx, 50);
    for _ in 0..n {
        w.step(r, &p, obs)?;
        w.check_attrs(obs)?;
        w.check_links(obs)?;
        w.check_data(obs)?;
    }
    if refused(obs) > before {
        obs.nontrivial(w.fp());
    }
    Ok(())
}

fn refused(obs: &Obs) -> u64 {
    ["refused: no id", "refused: same id", "refused: mutual link"].iter().map(|k| obs.counters.get(k).copied().unwrap_or(0)).sum()
}

fn c05(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    let mut w = start(r, obs, 30)?;
    populate(r, &mut w, obs);
    let mut p = Profile {
        create_elem: 25, create_other: 5, tree: 12, detach: 2, remove: 7, remove_again: 2, drain: 5, copy: 3, simple: 6, link: 35,
        remove_attr: 2, set_id: 3, set_text: 1, set_tag: 1, attr_mut: 1, dead: 5, max_nodes: r.range(4, 18), ..Default::default()
    };
    if let Some(m) = unusual(r, &mut w, obs, true) {
        p.max_nodes = m;
    }
    let n = ops(r, ctx, 70);
    for _ in 0..n {
        let links: usize = w.m.iter().filter(|m| m.alive).map(|m| m.attrs.iter().filter(|a| matches!(a.1, AVal::Link(..))).count()).sum();
        let dead = w.m.iter().filter(|m| !m.alive).count();
        w.step(r, &p, obs)?;
        if w.m.iter().filter(|m| !m.alive).count() > dead {
            let l2: usize = w.m.iter().filter(|m| m.alive).map(|m| m.attrs.iter().filter(|a| matches!(a.1, AVal::Link(..))).count()).sum();
            if l2 < links {
                obs.hit("removals across links");
            }
        }
        w.check_structure(obs)?;
        w.check_attrs(obs)?;
        w.check_links(obs)?;
        w.check_membership(obs)?;
    }
    w.check_data(obs)?;
    if w.m.iter().any(|m| !m.alive) {
        obs.nontrivial(w.fp());
    }
    Ok(())
}

fn c06(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    let mut w = start(r, obs, 15)?;
    for _ in 0..r.range(1, 4) {
        let tag = rand_tag(r, 5);
        let c = w.create_elem(tag, obs);
        w.append(0, c, obs);
    }
    let mut p = Profile {
        create_elem: 3, create_other: 3, tree: 2, simple: 40, link: 8, if_none: 12, remove_attr: 12, set_id: 6, set_text: 6,
        set_tag: 6, attr_mut: 8, copy: 1, max_nodes: r.range(3, 8), ..Default::default()
    };
    if let Some(m) = unusual(r, &mut w, obs, true) {
        p.max_nodes = m;
    }
    let n = ops(r, ctx, 50);
    for _ in 0..n {
        w.step(r, &p, obs)?;
        w.check_attrs(obs)?;
        w.check_data(obs)?;
        let i = match w.pick(r, |m| m.is_elem()) { Some(i) => i, None => continue };
        accessors(r, &w, i, obs)?;
    }
    conversions(r, obs)?;
    if w.m.iter().any(|m| !m.attrs.is_empty()) {
        obs.nontrivial(w.fp());
    }
    Ok(())
}

/// All accessors of one element against the model.
fn accessors(r: &mut Rng, w: &World, i: Id, obs: &mut Obs) -> Res {
    let mut node = w.n[i].clone();
    let m = &w.m[i];
    let mut names: Vec<AName> = m.attrs.iter().map(|a| a.0.clone()).collect();
    for _ in 0..4 {
        names.push(World::rand_name(r, false));
    }
    for name in &names {
        let want = m.get(name);
        ensure!(node.has_attribute(name.qref()) == want.is_some(), "n{}.has_attribute({}) is wrong", i, name.show());
        {
            let a = node.attributes();
            ensure!(a.contains(name.qref()) == want.is_some(), "n{}: contains({}) is wrong", i, name.show());
            let g = a.get(name.qref());
            let v = a.get_value(name.qref());
            match want {
                None => ensure!(g.is_none() && v.is_none(), "n{}: get({}) finds an attribute that is not there", i, name.show()),
                Some(x) => {
                    let (g, v) = match (g, v) {
                        (Some(g), Some(v)) => (g, v),
                        _ => return Err(format!("n{}: get({}) or get_value finds nothing", i, name.show())),
                    };
                    ensure!(AName::of(&g.name) == *name, "n{}: get({}) returns {:?}", i, name.show(), g.name);
                    ensure!(w.read_value(&g.value)? == *x && w.read_value(v)? == *x,
                            "n{}: get({}) is {:?}, get_value {:?}, expected {:?}", i, name.show(), g.value, v, x);
                    if let AVal::Simple(s) = x {
                        ensure!(format!("{:?}", s) == format!("{:?}", v), "n{}: {} is {:?}, expected {:?}", i, name.show(), v, s);
                    }
                    ensure!(g.is_svg() == matches!(name, AName::Svg(_)), "is_svg of {} is wrong", name.show());
                    ensure!(g.id() == match name { AName::Svg(id) => Some(*id), _ => None }, "id of {} is wrong", name.show());
                    if let AName::Svg(id) = name {
                        ensure!(g.has_id(*id), "has_id of {} is wrong", name.show());
                    }
                }
            }
        }
        let mut a = node.attributes_mut();
        let g = a.get_mut(name.qref()).map(|a| (AName::of(&a.name), a.value.clone()));
        let v = a.get_value_mut(name.qref()).map(|v| v.clone());
        drop(a);
        match want {
            None => ensure!(g.is_none() && v.is_none(), "n{}: get_mut({}) finds an attribute that is not there", i, name.show()),
            Some(x) => {
                ensure!(g.is_some() && v.is_some(), "n{}: get_mut({}) finds nothing", i, name.show());
                let (n2, v2) = g.unwrap();
                ensure!(n2 == *name && w.read_value(&v2)? == *x && w.read_value(&v.unwrap())? == *x,
                        "n{}: get_mut({}) finds another attribute", i, name.show());
            }
        }
    }
    let seq: Vec<AName>;
    {
        let a = node.attributes();
        ensure!(a.len() == m.attrs.len(), "n{}: len() is {}, expected {}", i, a.len(), m.attrs.len());
        ensure!(a.is_empty() == m.attrs.is_empty(), "n{}: is_empty() is wrong", i);
        seq = a.iter().map(|a| AName::of(&a.name)).collect();
        let svg: Vec<AttributeId> = FilterSvgAttrs::svg(a.iter()).map(|(id, _)| id).collect();
        let want: Vec<AttributeId> = seq.iter().filter_map(|n| match n { AName::Svg(id) => Some(*id), _ => None }).collect();
        ensure!(svg == want, "n{}: svg filter yields {:?}, expected {:?}", i, svg, want);
        for (id, at) in FilterSvgAttrs::svg(a.iter()) {
            ensure!(at.has_id(id), "n{}: svg filter yields {:?} for {:?}", i, id, at.name);
        }
    }
    let want: Vec<AName> = m.attrs.iter().map(|a| a.0.clone()).collect();
    ensure!(seq == want, "n{}: iteration yields {:?}, but the attributes were set in the order {:?}", i, seq, want);
    for (k, n) in seq.iter().enumerate() {
        ensure!(!seq[..k].contains(n), "n{}: two attributes named {}", i, n.show());
    }
    let mut a = node.attributes_mut();
    let seq2: Vec<AName> = a.iter_mut().map(|a| AName::of(&a.name)).collect();
    ensure!(seq2 == seq, "n{}: iter_mut() yields {:?}, iter() {:?}", i, seq2, seq);
    let svg2: Vec<AttributeId> = FilterSvgAttrsMut::svg(a.iter_mut()).map(|(id, _)| id).collect();
    let want: Vec<AttributeId> = seq.iter().filter_map(|n| match n { AName::Svg(id) => Some(*id), _ => None }).collect();
    ensure!(svg2 == want, "n{}: mutable svg filter yields {:?}, expected {:?}", i, svg2, want);
    obs.hit("accessor comparisons");
    Ok(())
}

/// Values written in any of the convenient forms.
fn conversions(r: &mut Rng, obs: &mut Obs) -> Res {
    let mut doc = Document::new();
    let mut e = doc.create_element(ElementId::Rect);
    let f = rand_num(r);
    let i = match r.below(4) { 0 => *r.pick(&[i32::MAX, i32::MIN, 0, -1, 16_777_217, -16_777_217]), 1 => r.next() as i32, _ => r.below(2001) as i32 - 1000 };
    let u = rand_unit(r);
    let c = rand_color(r);
    let s = if r.chance(70) { rand_str(r) } else {
        r.pick(&["inherit", "none", "currentColor", "", " ", "#a", "url(#a)", "1", "1px", "red", "#ff0000", "scale(1)", "M 1 1", "true", "None"]).to_string()
    };
    let l = Length::new(f, u);
    let ts = Transform::new(f, 1.0, 2.0, 3.0, f, 5.0);
    let ids: [AttributeId; 12] = [
        AttributeId::X, AttributeId::Y, AttributeId::Width, AttributeId::Height, AttributeId::Fill, AttributeId::Opacity,
        AttributeId::FontFamily, AttributeId::Name, AttributeId::Transform, AttributeId::Stroke, AttributeId::R, AttributeId::Cx,
    ];
    let fb = match rand_fallback(r) { Some(f) => f, None => PaintFallback::None };
    e.set_attribute((ids[0], f));
    e.set_attribute((ids[1], i));
    e.set_attribute((ids[2], (f, u)));
    e.set_attribute((ids[3], (i, u)));
    e.set_attribute((ids[4], c));
    e.set_attribute((ids[5], l));
    e.set_attribute((ids[6], s.as_str()));
    e.set_attribute((ids[7], s.clone()));
    e.set_attribute((ids[8], ts));
    e.set_attribute((ids[9], fb));
    e.set_attribute(("data-f", f));
    e.set_attribute(("data-s", s.as_str()));
    e.set_attribute(Attribute::new("data-n", AttributeValue::None));
    let want: Vec<(AName, AttributeValue)> = vec![
        (AName::Svg(ids[0]), AttributeValue::Number(f)),
        (AName::Svg(ids[1]), AttributeValue::Number(f64::from(i))),
        (AName::Svg(ids[2]), AttributeValue::Length(Length::new(f, u))),
        (AName::Svg(ids[3]), AttributeValue::Length(Length::new(f64::from(i), u))),
        (AName::Svg(ids[4]), AttributeValue::Color(c)),
        (AName::Svg(ids[5]), AttributeValue::Length(l)),
        (AName::Svg(ids[6]), AttributeValue::String(s.clone())),
        (AName::Svg(ids[7]), AttributeValue::String(s.clone())),
        (AName::Svg(ids[8]), AttributeValue::Transform(ts)),
        (AName::Svg(ids[9]), match fb {
            PaintFallback::None => AttributeValue::None,
            PaintFallback::CurrentColor => AttributeValue::CurrentColor,
            PaintFallback::Color(c) => AttributeValue::Color(c),
        }),
        (AName::Custom("data-f".into()), AttributeValue::Number(f)),
        (AName::Custom("data-s".into()), AttributeValue::String(s.clone())),
        (AName::Custom("data-n".into()), AttributeValue::None),
    ];
    let mut want = want;
    {
        // The value types.
        let n = r.below(4);
        let ar = AspectRatio { defer: r.chance(50), align: *r.pick(ALIGNS), slice: r.chance(50) };
        let nl = NumberList(vec![f; n]);
        let ll = LengthList(vec![l; n]);
        let pt = Points(vec![(f, f64::from(i)); n]);
        let path = rand_path(r);
        let an = Angle::new(f, AngleUnit::Gradians);
        let vb = ViewBox::new(f, f, 1.0, 2.0);
        e.set_attribute((AttributeId::PreserveAspectRatio, ar));
        e.set_attribute((AttributeId::TableValues, nl.clone()));
        e.set_attribute((AttributeId::StrokeDasharray, ll.clone()));
        e.set_attribute((AttributeId::Points, pt.clone()));
        e.set_attribute((AttributeId::D, path.clone()));
        e.set_attribute(("data-angle", an));
        e.set_attribute(Attribute::new(AttributeId::ViewBox, vb));
        want.push((AName::Svg(AttributeId::PreserveAspectRatio), AttributeValue::AspectRatio(ar)));
        want.push((AName::Svg(AttributeId::TableValues), AttributeValue::NumberList(nl)));
        want.push((AName::Svg(AttributeId::StrokeDasharray), AttributeValue::LengthList(ll)));
        want.push((AName::Svg(AttributeId::Points), AttributeValue::Points(pt)));
        want.push((AName::Svg(AttributeId::D), AttributeValue::Path(path)));
        want.push((AName::Custom("data-angle".into()), AttributeValue::Angle(an)));
        want.push((AName::Svg(AttributeId::ViewBox), AttributeValue::ViewBox(vb)));
    }
    let attrs = e.attributes();
    for (a, (n, _)) in attrs.iter().zip(want.iter()) {
        let probe = *r.pick(&ids);
        let is = |id: AttributeId| *n == AName::Svg(id);
        ensure!(AName::of(&a.name) == *n, "the attributes are not in the order they were set in: {:?}, expected {}", a.name, n.show());
        ensure!(a.name.has_id(probe) == is(probe) && a.name.as_ref().has_id(probe) == is(probe) && a.has_id(probe) == is(probe),
                "{:?}: has_id({:?}) is wrong", a.name, probe);
        ensure!(a.id() == match n { AName::Svg(id) => Some(*id), _ => None } && a.is_svg() == a.id().is_some(), "{:?}: id() is {:?}", a.name, a.id());
    }
    for (n, v) in &want {
        let g = attrs.get_value(n.qref());
        ensure!(g.map(|g| format!("{:?}", g)) == Some(format!("{:?}", v)), "{} was set to {:?}, but is {:?}", n.show(), v, g);
        obs.hit("conversions compared");
    }
    ensure!(attrs.len() == want.len(), "{} attributes were set, but there are {}", want.len(), attrs.len());
    Ok(())
}

const COMMON: &[AttributeId] = &[
    AttributeId::X, AttributeId::Y, AttributeId::Width, AttributeId::Height, AttributeId::Transform, AttributeId::Opacity,
    AttributeId::Class, AttributeId::Fill, AttributeId::Stroke, AttributeId::StrokeWidth, AttributeId::D, AttributeId::Points,
    AttributeId::ViewBox, AttributeId::Space, AttributeId::Style, AttributeId::FontSize, AttributeId::Display,
];

fn c07(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    let mut w = start(r, obs, 30)?;
    populate(r, &mut w, obs);
    let mut p = Profile {
        create_elem: 25, create_other: 8, tree: 12, detach: 2, remove: 3, copy: 22, simple: 20, link: 25, if_none: 3, remove_attr: 6,
        set_id: 6, set_text: 5, set_tag: 4, attr_mut: 4, dead: 6, max_nodes: r.range(4, 16), ..Default::default()
    };
    if let Some(m) = unusual(r, &mut w, obs, true) {
        p.max_nodes = m;
        // The biggest element of it.
        if let Some(&n) = w.alive(|m| m.is_elem()).iter().max_by_key(|&&n| w.m[n].children.len()) {
            let c = w.copy(n, true, obs)?;
            if w.m[c].children.len() > 40 {
                obs.hit("deep copies of wide elements");
            }
        }
    }
    if r.chance(40) {
        // A copy of an element with several attributes.
        if let Some(e) = w.pick(r, |m| m.is_elem()) {
            for _ in 0..r.range(3, 16) {
                let name = if r.chance(30) { World::rand_name(r, false) } else { AName::Svg(*r.pick(COMMON)) };
                let v = rand_value(r);
                w.set_simple(e, &name, v, false, obs);
            }
            if w.m[e].attrs.len() > 4 {
                obs.hit("copies with many attributes");
            }
            let deep = r.chance(50);
            w.copy(e, deep, obs)?;
            w.check_attrs(obs)?;
        }
    }
    let n = ops(r, ctx, 50);
    for _ in 0..n {
        let before = w.m.len();
        w.step(r, &p, obs)?;
        w.check_structure(obs)?;
        w.check_attrs(obs)?;
        w.check_links(obs)?;
        w.check_data(obs)?;
        w.check_membership(obs)?;
        for m in &w.m[before..] {
            if m.attrs.iter().any(|a| matches!(a.1, AVal::Link(..))) {
                obs.hit("copies with links");
            }
            if !m.attrs.is_empty() {
                obs.hit("copies with attributes");
            }
        }
    }
    obs.nontrivial(w.fp());
    Ok(())
}
