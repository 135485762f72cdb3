//! C22: reading while data is borrowed, and calls that must be refused.

use svgdom::*;

use crate::dom::*;
use crate::driver::{no_panic, Ctx, Prop};
use crate::ensure;
use crate::obs::{Obs, Res};
use crate::rng::Rng;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "C22", quick: 240_000, thorough: 3_600_000,
        rule: "a random document is built by a recorded history; then, while random shared borrows of node data are held, everything is read, \
               written and formatted, nodes that are not concerned are changed, and calls that must be refused are made; the complete state is \
               compared with the model after each of them; non-trivial if a call was refused, counted by the state",
        required: &[("borrows held", 20_000), ("reads under borrows", 20_000), ("changes elsewhere under borrows", 5000), ("drains with a reading predicate", 2000),
                    ("refused: node into itself", 2000), ("refused: empty tag name", 2000), ("refused: node type", 2000), ("refused: borrowed node", 5000)],
        assumptions: &["borrows are held by the thread that makes the call (nodes cannot be shared between threads)"],
        case: c22,
    }]
}

/// A shared borrow of one part of a node's data.
enum Hold<'a> {
    Attrs(std::cell::Ref<'a, Attributes>),
    Str(std::cell::Ref<'a, String>),
    Tag(std::cell::Ref<'a, TagName>),
    Links(std::cell::Ref<'a, Vec<Node>>),
}

impl Hold<'_> {
    fn size(&self) -> usize {
        match self {
            Hold::Attrs(a) => a.len(),
            Hold::Str(s) => s.len(),
            Hold::Tag(t) => if let QName::Name(ref s) = **t { s.len() } else { 1 },
            Hold::Links(l) => l.len(),
        }
    }
}

fn hold<'a>(r: &mut Rng, n: &'a Node) -> Hold<'a> {
    match r.below(5) {
        0 | 1 => Hold::Attrs(n.attributes()),
        2 => Hold::Str(n.id()),
        3 => if r.chance(50) { Hold::Str(n.text()) } else { Hold::Tag(n.tag_name()) },
        _ => Hold::Links(n.linked_nodes()),
    }
}

fn check(w: &World, obs: &mut Obs) -> Res {
    w.check_structure(obs)?;
    w.check_attrs(obs)?;
    w.check_links(obs)?;
    w.check_data(obs)?;
    w.check_membership(obs)
}

/// Everything that only reads.
fn read_all(w: &World) -> String {
    // A text outside of all elements cannot be written.
    let mut s = if w.doc.root().descendants().any(|n| n.is_text() && !n.ancestors().any(|a| a.is_element())) { String::new() } else { w.doc.to_string() };
    for n in &w.n {
        s.push_str(&format!("{}{:?}", n, n));
        for (k, v) in [
            n.ancestors().count(), n.preceding_siblings().count(), n.following_siblings().count(), n.children().count(), n.children().rev().count(),
            n.descendants().count(), n.traverse().count(), n.traverse().rev().count(), n.descendants().svg().count(),
            n.is_referenced() as usize, n.is_shape() as usize, n.is_container() as usize, n.is_text_content() as usize, n.is_graphic() as usize,
            n.is_gradient() as usize, n.is_paint_server() as usize, n.is_filter_primitive() as usize, n.has_attribute(AttributeId::Fill) as usize,
        ].iter().enumerate() {
            s.push_str(&format!("{}:{} ", k, v));
        }
    }
    s.push_str(&format!("{:?}", w.doc.svg_element().map(|n| n.id().clone())));
    s
}

fn refused<T>(what: &str, f: impl FnOnce() -> T) -> Res {
    ensure!(no_panic(f).is_err(), "{} must fail, but did not", what);
    Ok(())
}

fn c22(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let mut w = World::new();
    let p = Profile {
        create_elem: 25, create_other: 8, tree: 35, detach: 2, remove: 2, copy: 3, simple: 15, link: 25, set_id: 12, set_text: 2, set_tag: 2,
        max_nodes: r.range(2, 10), ..Default::default()
    };
    for _ in 0..r.range(8, 40) {
        w.step(r, &p, obs)?;
    }

    // Reading under shared borrows.
    let text = read_all(&w);
    {
        let every = r.chance(20);
        let held: Vec<Hold> = w.n.iter().filter_map(|n| if every || r.chance(40) { Some(hold(r, n)) } else { None }).collect();
        obs.log(format!("{} borrows held", held.len()));
        obs.add("borrows held", held.len() as u64);
        let before: usize = held.iter().map(|h| h.size()).sum();
        let again = read_all(&w);
        ensure!(again == text, "reading while data is borrowed gives another result: {:?}, expected {:?}", again, text);
        check(&w, obs)?;
        obs.hit("reads under borrows");
        let after: usize = held.iter().map(|h| h.size()).sum();
        ensure!(before == after, "borrowed data changed");
    }

    // Changes of other nodes while one node is borrowed.
    for _ in 0..2 {
        let h = r.below(w.n.len());
        let node = w.n[h].clone();
        let guard = hold(r, &node);
        let others: Vec<Id> = w.alive(|m| m.is_elem()).into_iter().filter(|x| *x != h).collect();
        if others.is_empty() {
            break;
        }
        let x = *r.pick(&others);
        obs.log(format!("a borrow of n{} is held", h));
        match r.below(6) {
            0 => {
                let name = World::rand_name(r, false);
                // Replacing a link touches its target.
                if !matches!(w.m[x].get(&name), Some(AVal::Link(..))) {
                    let v = any_value(r);
                    w.set_simple(x, &name, v, false, obs);
                }
            }
            1 => {
                let name = w.some_name(r, x, false);
                if !matches!(w.m[x].get(&name), Some(AVal::Link(..))) {
                    w.remove_attr(x, &name, obs);
                }
            }
            2 => w.set_id(x, "new-id", obs),
            3 => { w.create_elem(Tag::Svg(ElementId::G), obs); }
            4 => {
                // A link whose source and target are not borrowed.
                let t = *r.pick(&others);
                let name = World::rand_name(r, true);
                if w.refusal(x, t).is_none() && !matches!(w.m[x].get(&name), Some(AVal::Link(..))) {
                    w.set_link(r, x, &name, t, false, obs)?;
                }
            }
            _ => {
                // Nodes far from the borrowed one.
                let c = w.create_elem(Tag::Svg(ElementId::Rect), obs);
                if w.m[x].children.last() != Some(&h) {
                    w.append(x, c, obs);
                }
            }
        }
        obs.hit("changes elsewhere under borrows");
        let _ = guard.size();
        drop(guard);
        check(&w, obs)?;
    }

    // A predicate that looks around.
    if r.chance(30) {
        let start = w.pick(r, |m| m.kind == Kind::Root || m.is_elem()).unwrap_or(0);
        let bound = r.below(4);
        let top: Vec<Id> = w.alive(|m| m.is_elem());
        let victims: Vec<Id> = top.into_iter().filter(|_| r.below(4) < bound).collect();
        let handles: Vec<Node> = victims.iter().map(|v| w.n[*v].clone()).collect();
        obs.log(format!("drain(n{}, n in {:?}) with a reading predicate", start, victims));
        obs.hit("drains with a reading predicate");
        let root = w.n[start].clone();
        let mut d = std::mem::replace(&mut w.doc, Document::new());
        let n = no_panic(|| d.drain(root.clone(), |n| {
            let _ = format!("{}{:?}", n, n);
            let _ = n.parent().map(|p| (p.attributes().len(), p.children().count(), p.id().len()));
            let _ = n.next_sibling().map(|p| (p.attributes().len(), p.linked_nodes().len()));
            let _ = n.root().descendants().map(|x| x.attributes().len()).sum::<usize>();
            handles.iter().any(|h| h == n)
        }));
        w.doc = d;
        let got = n.map_err(|e| format!("drain with a predicate that reads the document failed: {}", e))?;
        let want = w.m_drain(start, &victims, obs);
        ensure!(got == want, "drain returned {}, expected {}", got, want);
        check(&w, obs)?;
    }

    // Calls that must be refused.
    for _ in 0..2 {
        let live: Vec<Id> = w.alive(|_| true);
        let x = *r.pick(&live);
        let elem = w.pick(r, |m| m.is_elem());
        match r.below(5) {
            0 => {
                let k = r.below(4);
                let mut n = w.n[x].clone();
                let m = n.clone();
                obs.log(format!("n{} into itself, way {}", x, k));
                refused("inserting a node into or beside itself", || match k {
                    0 => n.append(m),
                    1 => n.prepend(m),
                    2 => n.insert_after(m),
                    _ => n.insert_before(m),
                })?;
                obs.hit("refused: node into itself");
            }
            1 => {
                obs.log("an empty tag name".to_string());
                match elem {
                    Some(e) if r.chance(50) => { let mut n = w.n[e].clone(); refused("an empty tag name", || n.set_tag_name(""))? }
                    _ => { let d = &mut w.doc; refused("an empty tag name", || d.create_element(""))? }
                }
                obs.hit("refused: empty tag name");
            }
            2 => {
                let t = if r.chance(50) { NodeType::Element } else { NodeType::Root };
                obs.log(format!("create_node({:?})", t));
                let d = &mut w.doc;
                refused("create_node of an element or a root", || d.create_node(t, "x"))?;
                obs.hit("refused: node type");
            }
            _ => {
                if let Some(e) = elem {
                    let node = w.n[e].clone();
                    let guard = hold(r, &node);
                    let mut n = node.clone();
                    let k = r.below(4);
                    obs.log(format!("a change of the borrowed n{}, way {}", e, k));
                    match k {
                        0 => refused("set_id of a borrowed node", || n.set_id("zz"))?,
                        1 => refused("set_tag_name of a borrowed node", || n.set_tag_name(ElementId::Rect))?,
                        2 => refused("attributes_mut of a borrowed node", || { n.attributes_mut(); })?,
                        _ => {
                            // What a failed replacement of a link leaves behind is not claimed.
                            let mut name = w.some_name(r, e, false);
                            if matches!(w.m[e].get(&name), Some(AVal::Link(..))) {
                                name = AName::Custom("unused".into());
                            }
                            let v = any_value(r);
                            refused("set_attribute of a borrowed node", || n.set_attribute(Attribute::new(name.qref(), v)))?
                        }
                    }
                    let _ = guard.size();
                    obs.hit("refused: borrowed node");
                }
            }
        }
        check(&w, obs)?;
        obs.nontrivial(w.fp());
    }
    Ok(())
}
