//! C16, C19: written text and formatted nodes, compared byte for byte with reference implementations.

use svgdom::*;

use crate::dom::*;
use crate::driver::{Ctx, Prop};
use crate::ensure;
use crate::gen;
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, Rng};
use crate::xml;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16", quick: 400_000, thorough: 6_000_000,
            rule: "a document built by a random history is written with random options and compared, byte for byte, with the output of a \
                   reference serializer working on the recorded model; non-trivial if the document has at least 3 nodes",
            required: &[("documents written", 10_000), ("default options", 3000), ("custom tags that read like SVG ones", 3000), ("unicode attributes left out", 500), ("elements written", 50_000), ("links written", 5000), ("custom attributes written", 3000),
                        ("xlink declarations", 1000), ("text elements", 3000), ("no indentation", 1000), ("attribute indentation", 3000),
                        ("single quotes", 3000), ("elements with several SVG attributes", 5000), ("xml:space and xlink:href written", 1000),
                        ("nested svg elements", 500), ("parsed documents", 500), ("text elements in text elements", 200)],
            assumptions: &["text nodes have an element as their parent",
                           "plain values are written by svgtypes"],
            case: c16,
        },
        Prop {
            id: "C19", quick: 320_000, thorough: 4_800_000,
            rule: "every node of a document built by a random history is formatted and compared with a reference formatter working on the \
                   recorded model; the document is compared before and after; non-trivial if an element has attributes",
            required: &[("nodes formatted", 50_000), ("elements with links to them", 3000), ("elements with id and attributes", 5000),
                        ("comments and texts", 5000), ("custom names", 3000), ("attributes formatted", 20_000)],
            assumptions: &["plain values are written by svgtypes"],
            case: c19,
        },
    ]
}

/// A document built by a random history in which only elements (and the root) have children.
fn build(r: &mut Rng, obs: &mut Obs) -> Result<World, String> {
    let w = if r.chance(15) {
        let n = gen::size(r, 2, 10);
        let top = gen::rich_doc(r, n);
        let t = xml::to_xml(&top);
        obs.log(format!("parse {}", t));
        obs.hit("parsed documents");
        World::adopt(Document::from_str(&t).map_err(|e| e.to_string())?)?
    } else {
        World::new()
    };
    edit(r, w, obs)
}

/// A random history whose result can be written.
pub fn edit(r: &mut Rng, mut w: World, obs: &mut Obs) -> Result<World, String> {
    let mut max = r.range(2, 16);
    if r.below(80) == 0 {
        // Unusually big in one respect.
        match r.below(4) {
            0 => {
                obs.hit("deep documents");
                let mut p = 0;
                for _ in 0..r.range(15, 80) {
                    let e = w.create_elem(Tag::Svg(*r.pick(&[ElementId::G, ElementId::Svg, ElementId::Defs])), obs);
                    w.append(p, e, obs);
                    p = e;
                }
            }
            1 => {
                obs.hit("elements with very many attributes");
                let e = w.create_elem(Tag::Svg(ElementId::Path), obs);
                w.append(0, e, obs);
                for k in 0..r.range(30, 150) {
                    let name = if r.chance(25) { AName::Custom(format!("data-{}", k)) } else { AName::Svg(r.pick(crate::names::ATTRIBUTES).1) };
                    if name == AName::Svg(AttributeId::Id) {
                        continue;
                    }
                    let v = rand_value(r);
                    w.set_simple(e, &name, v, false, obs);
                }
            }
            2 => {
                obs.hit("very long values and texts");
                let s: String = (0..r.range(500, 6000)).map(|_| *r.pick(&["a", "b c", "é", "<", "'", "\"", "]]>", "\n"])).collect();
                let e = w.create_elem(Tag::Svg(*r.pick(&[ElementId::Text, ElementId::Title])), obs);
                w.append(0, e, obs);
                let t = w.create_other(false, &s, obs);
                w.append(e, t, obs);
                w.set_simple(e, &AName::Custom("data-long".into()), AttributeValue::String(s.clone()), false, obs);
                w.set_simple(e, &AName::Svg(AttributeId::X), AttributeValue::Number(1.0), false, obs);
                w.set_id(e, &s[..s.char_indices().nth(300).unwrap().0], obs);
            }
            _ => {
                obs.hit("wide documents");
                let e = w.create_elem(Tag::Svg(ElementId::Svg), obs);
                w.append(0, e, obs);
                let n = if r.chance(10) { r.range(300, 1500) } else { r.range(50, 300) };
                let mut last = e;
                for k in 0..n {
                    let c = w.create_elem(Tag::Svg(*r.pick(TAGS)), obs);
                    w.set_id(c, &format!("w{}", k), obs);
                    w.append(e, c, obs);
                    last = c;
                }
                if r.chance(50) {
                    w.set_simple(last, &AName::Svg(AttributeId::Href), AttributeValue::String("a.svg".into()), false, obs);
                }
            }
        }
        max = w.n.len() + 10;
    }
    for _ in 0..r.range(2, 40) {
        let holder = |m: &MNode| m.is_elem() || m.kind == Kind::Root;
        match r.below(20) {
            0..=5 => if w.alive(|_| true).len() < max {
                let tag = if r.chance(2) {
                    obs.hit("custom tags that read like SVG ones");
                    Tag::Custom(r.pick(&["text", "svg", "style", "tspan", "g"]).to_string())
                } else if r.chance(12) { Tag::Custom(r.pick(CUSTOM_TAGS).to_string()) } else { Tag::Svg(*r.pick(TAGS)) };
                let p = w.pick(r, holder).unwrap();
                let c = w.create_elem(tag, obs);
                if r.chance(60) {
                    let id = format!("{}{}", r.pick(&["i", "a&", "q\"", "é'", "<"]), c);
                    w.set_id(c, &id, obs);
                }
                match r.below(3) {
                    0 => w.append(p, c, obs),
                    1 => w.prepend(p, c, obs),
                    _ => if w.m[p].parent.is_some() { w.insert(p, c, r.chance(50), obs) } else { w.append(p, c, obs) },
                }
            },
            6 => {
                let t = r.pick(&["c", " a - b ", "<g/>", "&amp;", "é\nb", ""]).to_string();
                let c = w.create_other(true, &t, obs);
                let p = w.pick(r, holder).unwrap();
                w.append(p, c, obs);
            }
            7 | 8 => if let Some(p) = w.pick(r, |m| m.is_elem()) {
                // How an ampersand in a text is written is a known finding of C14.
                let t = rand_str(r).replace('&', "+");
                let c = w.create_other(false, &t, obs);
                w.append(p, c, obs);
            },
            9 | 10 => if let Some(n) = w.pick(r, |m| m.is_elem()) {
                let name = w.some_name(r, n, false);
                let v = rand_value(r);
                w.set_simple(n, &name, v, false, obs);
            },
            11 | 12 => if let Some(n) = w.pick(r, |m| m.is_elem()) {
                let (a, _, v) = gen::attr(r);
                w.set_simple(n, &AName::Svg(a), v, false, obs);
            },
            13 | 14 => if let (Some(n), Some(t)) = (w.pick(r, |m| m.is_elem()), w.pick(r, |m| m.is_elem())) {
                let name = w.some_name(r, n, true);
                w.set_link(r, n, &name, t, false, obs)?;
            },
            15 => if let Some(n) = w.pick(r, |m| m.is_elem()) {
                let name = w.some_name(r, n, true);
                w.remove_attr(n, &name, obs);
            },
            16 => if let Some(n) = w.pick(r, |m| m.is_elem()) {
                let id = if r.chance(30) { String::new() } else { format!("{}{}", r.pick(&["j", "x y", "&"]), r.below(100)) };
                w.set_id(n, &id, obs);
            },
            17 => if let Some(c) = w.pick(r, |m| m.kind != Kind::Root) {
                let cand: Vec<Id> = w.alive(|m| m.is_elem()).into_iter().filter(|&x| !w.in_subtree(x, c)).collect();
                if !cand.is_empty() {
                    let p = *r.pick(&cand);
                    if r.chance(50) { w.append(p, c, obs) } else { w.prepend(p, c, obs) }
                }
            },
            18 => if let Some(c) = w.pick(r, |m| m.kind != Kind::Root) {
                match r.below(6) {
                    0 | 1 => w.remove(c, obs),
                    // It keeps its links.
                    2 => w.detach(c, obs),
                    _ => {}
                }
            },
            _ => if let Some(n) = w.pick(r, |m| m.is_elem()) {
                if r.chance(5) {
                    let v = rand_value(r);
                    w.set_simple(n, &AName::Svg(AttributeId::Unicode), v, false, obs);
                } else if r.chance(50) {
                    let s: String = (0..r.range(1, 3)).map(|_| *r.pick(&["a", " ", "é", "&", "\"", "😀", "<", "&#", "#", "&#49;", "𠀀", "\u{10fffd}", "\u{fffd}", "'"])).collect();
                    w.set_simple(n, &AName::Svg(AttributeId::Unicode), AttributeValue::String(s), false, obs);
                }
            },
        }
    }
    // A removed element can still be given a link.
    let gone: Vec<Id> = (0..w.m.len()).filter(|&i| !w.m[i].alive && w.m[i].is_elem()).collect();
    if !gone.is_empty() && r.chance(50) {
        if let Some(t) = w.pick(r, |m| m.is_elem()) {
            obs.hit("removed elements given a link");
            let n = *r.pick(&gone);
            w.set_link(r, n, &AName::Svg(AttributeId::Href), t, false, obs)?;
        }
    }
    Ok(w)
}

/// Text of a value.
fn value(w: &World, v: &AVal, o: &ValueWriteOptions) -> String {
    let mut b: Vec<u8> = Vec::new();
    match v {
        AVal::Simple(v) => match v {
            AttributeValue::None => b.extend_from_slice(b"none"),
            AttributeValue::Inherit => b.extend_from_slice(b"inherit"),
            AttributeValue::CurrentColor => b.extend_from_slice(b"currentColor"),
            AttributeValue::AspectRatio(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::Color(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::Length(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::LengthList(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::Angle(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::Number(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::NumberList(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::Path(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::Points(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::Transform(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::ViewBox(x) => x.write_buf_opt(o, &mut b),
            AttributeValue::String(s) => b.extend_from_slice(s.as_bytes()),
            _ => {}
        },
        AVal::Link(k, t, fb) => {
            let id = &w.m[*t].id;
            match k {
                LinkKind::Link => return format!("#{}", id),
                LinkKind::Func => return format!("url(#{})", id),
                LinkKind::Paint => {
                    let mut s = format!("url(#{})", id);
                    match fb {
                        None => {}
                        Some(PaintFallback::None) => s.push_str(" none"),
                        Some(PaintFallback::CurrentColor) => s.push_str(" currentColor"),
                        Some(PaintFallback::Color(c)) => {
                            let mut b = Vec::new();
                            c.write_buf_opt(o, &mut b);
                            s.push(' ');
                            s.push_str(&String::from_utf8(b).unwrap());
                        }
                    }
                    return s;
                }
            }
        }
    }
    String::from_utf8(b).unwrap()
}

fn pad(out: &mut String, i: Indent, n: usize) {
    for _ in 0..n {
        match i {
            Indent::None => {}
            Indent::Spaces(k) => for _ in 0..k { out.push(' ') },
            Indent::Tabs => out.push('\t'),
        }
    }
}

fn attr_text(v: &str, single: bool) -> String {
    let v = v.replace('&', "&amp;").replace('<', "&lt;").replace('\n', "&#xA;").replace('\r', "&#xD;").replace('\t', "&#x9;");
    if single { v.replace('\'', "&apos;") } else { v.replace('"', "&quot;") }
}

struct Ref<'a> {
    w: &'a World,
    o: &'a WriteOptions,
    out: String,
}

impl Ref<'_> {
    fn attr(&mut self, name: &str, v: &str, depth: usize, inside: bool) {
        if self.o.attributes_indent == Indent::None {
            self.out.push(' ');
        } else {
            self.out.push('\n');
            if !inside {
                pad(&mut self.out, self.o.indent, depth);
                pad(&mut self.out, self.o.attributes_indent, 1);
            }
        }
        let q = if self.o.use_single_quote { '\'' } else { '"' };
        self.out.push_str(name);
        self.out.push('=');
        self.out.push(q);
        self.out.push_str(v);
        self.out.push(q);
    }

    fn line(&mut self, depth: usize, inside: bool) {
        if inside || self.o.indent == Indent::None {
            return;
        }
        if !self.out.is_empty() {
            self.out.push('\n');
        }
        pad(&mut self.out, self.o.indent, depth);
    }

    fn node(&mut self, n: Id, depth: usize, inside: bool, obs: &mut Obs) {
        let w = self.w;
        let m = &w.m[n];
        match m.kind {
            Kind::Root => {
                for &c in &m.children {
                    self.node(c, 0, false, obs);
                }
            }
            Kind::Comment => {
                self.line(depth, inside);
                self.out.push_str(&format!("<!--{}-->", m.text));
            }
            Kind::Text => {
                self.line(depth, inside);
                self.out.push_str(&m.text.replace('<', "&lt;").replace("]]>", "]]&gt;"));
            }
            Kind::Elem(ref tag) => {
                obs.hit("elements written");
                self.line(depth, inside);
                let name = match tag { Tag::Svg(id) => id.as_str().to_string(), Tag::Custom(s) => s.clone() };
                self.out.push('<');
                self.out.push_str(&name);
                if *tag == Tag::Svg(ElementId::Svg) {
                    if w.m[m.parent.unwrap()].kind == Kind::Root {
                        self.attr("xmlns", "http://www.w3.org/2000/svg", depth, inside);
                        let href = AName::Svg(AttributeId::Href);
                        if w.preorder(n).iter().any(|&x| w.m[x].get(&href).is_some()) {
                            obs.hit("xlink declarations");
                            self.attr("xmlns:xlink", "http://www.w3.org/1999/xlink", depth, inside);
                        }
                    } else {
                        obs.hit("nested svg elements");
                    }
                }
                let single = self.o.use_single_quote;
                if !m.id.is_empty() {
                    let v = attr_text(&m.id, single);
                    self.attr("id", &v, depth, inside);
                }
                let mut svg: Vec<(String, AttributeId, &AVal)> = m.attrs.iter().filter_map(|a| match a.0 {
                    AName::Svg(id) => Some((id.as_str().to_string(), id, &a.1)),
                    _ => None,
                }).collect();
                svg.sort_by_key(|a| a.0.to_lowercase());
                if svg.len() > 1 {
                    obs.hit("elements with several SVG attributes");
                }
                for (aname, id, v) in svg {
                    if id == AttributeId::Unicode && !matches!(v, AVal::Simple(AttributeValue::String(_))) {
                        obs.hit("unicode attributes left out");
                        continue;
                    }
                    let prefix = match id { AttributeId::Href => "xlink:", AttributeId::Space => "xml:", _ => "" };
                    if !prefix.is_empty() {
                        obs.hit("xml:space and xlink:href written");
                    }
                    if matches!(v, AVal::Link(..)) {
                        obs.hit("links written");
                    }
                    let mut t = attr_text(&value(w, v, &self.o.values), single);
                    if id == AttributeId::Unicode {
                        if let AVal::Simple(AttributeValue::String(s)) = v {
                            t = s.chars().map(|c| format!("&#x{:x};", c as u32)).collect();
                        }
                    }
                    self.attr(&format!("{}{}", prefix, aname), &t, depth, inside);
                }
                // Custom attributes, in the order they were set.
                let order: Vec<AName> = m.attrs.iter().map(|a| a.0.clone()).collect();
                for a in order {
                    if let AName::Custom(ref s) = a {
                        obs.hit("custom attributes written");
                        let t = attr_text(&value(w, m.get(&a).unwrap(), &self.o.values), single);
                        self.attr(s, &t, depth, inside);
                    }
                }
                let is_text = *tag == Tag::Svg(ElementId::Text);
                if is_text {
                    obs.hit("text elements");
                }
                if m.children.is_empty() {
                    self.out.push_str("/>");
                } else {
                    self.out.push('>');
                    for &c in &m.children {
                        self.node(c, depth + 1, inside || is_text, obs);
                    }
                    if !inside && !is_text {
                        self.line(depth, false);
                    }
                    self.out.push_str(&format!("</{}>", name));
                }
            }
        }
    }
}

/// What the documentation says of the default options.
fn documented_default() -> WriteOptions {
    WriteOptions {
        use_single_quote: false,
        indent: Indent::Spaces(4),
        attributes_indent: Indent::None,
        values: ValueWriteOptions {
            trim_hex_colors: false,
            remove_leading_zero: false,
            use_compact_path_notation: false,
            join_arc_to_flags: false,
            remove_duplicated_path_commands: false,
            use_implicit_lineto_commands: false,
            simplify_transform_matrices: false,
            list_separator: ListSeparator::Space,
        },
    }
}

fn c16(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let w = build(r, obs)?;
    let text = Kind::Elem(Tag::Svg(ElementId::Text));
    for i in w.preorder(0) {
        let mut p = w.m[i].parent;
        while let Some(x) = p {
            if w.m[i].kind == text && w.m[x].kind == text {
                obs.hit("text elements in text elements");
            }
            p = w.m[x].parent;
        }
    }
    for k in 0..3 {
        let o = if k == 0 { documented_default() } else { gen::options(r) };
        let mut rf = Ref { w: &w, o: &o, out: String::new() };
        rf.node(0, 0, false, obs);
        let mut want = rf.out;
        if o.indent != Indent::None {
            want.push('\n');
        }
        let got = if k == 0 { w.doc.to_string() } else { w.doc.to_string_with_opt(&o) };
        if k == 0 {
            obs.hit("default options");
            let d = w.doc.to_string_with_opt(&WriteOptions::default());
            ensure!(d == got, "to_string() and to_string_with_opt(&WriteOptions::default()) differ:\n{}\n{}", got, d);
        }
        obs.hit("documents written");
        if o.use_single_quote { obs.hit("single quotes"); }
        if o.attributes_indent != Indent::None { obs.hit("attribute indentation"); }
        if o.indent == Indent::None { obs.hit("no indentation"); }
        if got != want {
            let (i, _) = got.bytes().zip(want.bytes()).enumerate().find(|(_, (a, b))| a != b).unwrap_or((got.len().min(want.len()), (0, 0)));
            return Err(format!("written text differs from byte {} on with {:?}:\n{}\nexpected:\n{}", i, o, got, want));
        }
        if w.preorder(0).len() > 3 {
            obs.nontrivial(hash_str(&got));
        }
    }
    Ok(())
}

fn attrs_text(w: &World, i: Id, obs: &mut Obs) -> String {
    let o = ValueWriteOptions::default();
    let order: Vec<AName> = w.n[i].attributes().iter().map(|a| AName::of(&a.name)).collect();
    order.iter().map(|a| {
        obs.hit("attributes formatted");
        let name = match a {
            AName::Svg(AttributeId::Href) => "xlink:href".to_string(),
            AName::Svg(AttributeId::Space) => "xml:space".to_string(),
            AName::Svg(id) => id.as_str().to_string(),
            AName::Custom(s) => { obs.hit("custom names"); s.clone() }
        };
        format!("{}='{}'", name, value(w, w.m[i].get(a).unwrap(), &o))
    }).collect::<Vec<_>>().join(" ")
}

fn c19(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let w = build(r, obs)?;
    let before = w.doc.to_string();
    let mut any = false;
    for i in 0..w.n.len() {
        let m = &w.m[i];
        if !m.alive {
            obs.hit("removed nodes formatted");
        }
        let node = &w.n[i];
        let (debug, display) = match m.kind {
            Kind::Root => ("Root()".to_string(), String::new()),
            Kind::Comment => (format!("Comment({})", m.text), format!("<!--{}-->", m.text)),
            Kind::Text => (format!("Text({})", m.text), m.text.clone()),
            Kind::Elem(ref tag) => {
                let mut s = match tag { Tag::Svg(id) => id.as_str().to_string(), Tag::Custom(s) => s.clone() };
                let attrs = attrs_text(&w, i, obs);
                if !m.id.is_empty() {
                    s.push_str(&format!(" id='{}'", m.id));
                }
                if !attrs.is_empty() {
                    any = true;
                    if !m.id.is_empty() {
                        obs.hit("elements with id and attributes");
                    }
                    s.push(' ');
                    s.push_str(&attrs);
                }
                ensure!(format!("{}", *node.attributes()) == attrs, "n{}: attributes format as {:?}, expected {:?}", i, format!("{}", *node.attributes()), attrs);
                ensure!(format!("{:?}", *node.attributes()) == format!("Attributes({})", attrs), "n{}: debug form of the attributes is {:?}", i,
                        format!("{:?}", *node.attributes()));
                let list: Vec<(String, String)> = node.attributes().iter().map(|a| (format!("{}", a), format!("{}='{}'", a.name, a.value))).collect();
                ensure!(list.iter().map(|a| a.0.clone()).collect::<Vec<_>>().join(" ") == attrs, "n{}: single attributes format as {:?}", i, list);
                ensure!(list.iter().all(|a| a.0 == a.1), "n{}: name and value format differently: {:?}", i, list);
                ensure!(format!("{}", *node.tag_name()) == match tag { Tag::Svg(id) => id.as_str().to_string(), Tag::Custom(s) => s.clone() },
                        "n{}: tag name formats as {}", i, *node.tag_name());
                let mut d = format!("Element({}", s);
                let linked: Vec<String> = node.linked_nodes().iter().map(|n| n.id().clone()).collect();
                let mut want: Vec<String> = w.all_users()[i].iter().map(|&u| w.m[u].id.clone()).collect();
                let mut l2 = linked.clone();
                l2.sort();
                want.sort();
                ensure!(l2 == want, "n{}: linked by {:?}, expected {:?}", i, l2, want);
                if !linked.is_empty() {
                    obs.hit("elements with links to them");
                    d.push_str("; linked-nodes:");
                    for l in linked {
                        d.push_str(&format!(" '{}'", l));
                    }
                }
                d.push(')');
                (d, format!("<{}>", s))
            }
        };
        if !m.is_elem() {
            obs.hit("comments and texts");
        }
        let (gd, gs) = (format!("{:?}", node), format!("{}", node));
        ensure!(gd == debug, "n{}: debug form is {:?}, expected {:?}", i, gd, debug);
        ensure!(gs == display, "n{}: display form is {:?}, expected {:?}", i, gs, display);
        obs.hit("nodes formatted");
    }
    w.check_structure(obs)?;
    w.check_attrs(obs)?;
    w.check_links(obs)?;
    w.check_data(obs)?;
    ensure!(w.doc.to_string() == before, "formatting changed the document");
    if any {
        obs.nontrivial(w.fp());
    }
    Ok(())
}
