//! Drives the DOM API and a reference model of it side by side.
//!
//! The model is a plain ordered tree with attribute maps; it shares no code with the library.
//! Everything is observed through the public API, at the client boundary.

use svgdom::*;

use crate::driver::no_panic;
use crate::ensure;
use crate::obs::{Obs, Res};
use crate::rng::{mix, Rng};

pub type Id = usize;

#[derive(Clone, PartialEq, Debug)]
pub enum AName {
    Svg(AttributeId),
    Custom(String),
}

impl AName {
    pub fn qref(&self) -> AttributeQNameRef<'_> {
        match *self {
            AName::Svg(id) => QNameRef::Id(id),
            AName::Custom(ref s) => QNameRef::Name(s),
        }
    }

    pub fn show(&self) -> String {
        match *self {
            AName::Svg(id) => format!("{:?}", id),
            AName::Custom(ref s) => format!("\"{}\"", s),
        }
    }

    pub fn of(q: &AttributeQName) -> AName {
        match *q {
            QName::Id(id) => AName::Svg(id),
            QName::Name(ref s) => AName::Custom(s.clone()),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LinkKind {
    Link,
    Func,
    Paint,
}

#[derive(Clone, PartialEq, Debug)]
pub enum AVal {
    Simple(AttributeValue),
    Link(LinkKind, Id, Option<PaintFallback>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tag {
    Svg(ElementId),
    Custom(String),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Root,
    Elem(Tag),
    Text,
    Comment,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MNode {
    pub kind: Kind,
    pub id: String,
    pub text: String,
    pub attrs: Vec<(AName, AVal)>,
    pub parent: Option<Id>,
    pub children: Vec<Id>,
    pub alive: bool,
    /// The node itself was passed to a removal call.
    pub removed_directly: bool,
    /// A removed node that had no children, so its structure is known.
    pub leaf: bool,
}

impl MNode {
    fn new(kind: Kind) -> MNode {
        MNode {
            kind,
            id: String::new(),
            text: String::new(),
            attrs: Vec::new(),
            parent: None,
            children: Vec::new(),
            alive: true,
            removed_directly: false,
            leaf: false,
        }
    }

    pub fn is_elem(&self) -> bool {
        matches!(self.kind, Kind::Elem(_))
    }

    pub fn get(&self, name: &AName) -> Option<&AVal> {
        self.attrs.iter().find(|a| a.0 == *name).map(|a| &a.1)
    }

    fn put(&mut self, name: AName, v: AVal) {
        self.attrs.retain(|a| a.0 != name);
        self.attrs.push((name, v));
    }
}

/// Relative frequencies of operations.
#[derive(Clone, Copy, Default)]
pub struct Profile {
    pub create_elem: usize,
    pub create_other: usize,
    pub tree: usize,
    pub detach: usize,
    pub remove: usize,
    pub remove_again: usize,
    pub drain: usize,
    pub copy: usize,
    pub simple: usize,
    pub link: usize,
    pub if_none: usize,
    pub remove_attr: usize,
    pub set_id: usize,
    pub set_text: usize,
    pub set_tag: usize,
    pub attr_mut: usize,
    /// Percentage of attribute, link and copy calls aimed at removed nodes.
    pub dead: usize,
    pub max_nodes: usize,
}

pub struct World {
    pub doc: Document,
    pub n: Vec<Node>,
    pub m: Vec<MNode>,
    /// Siblings without a parent.
    pub groups: Vec<Vec<Id>>,
}

pub const TAGS: &[ElementId] = &[
    ElementId::Svg, ElementId::G, ElementId::Rect, ElementId::Text, ElementId::Tspan, ElementId::LinearGradient,
    ElementId::Use, ElementId::Defs, ElementId::Stop, ElementId::Path, ElementId::Style, ElementId::Title,
];
pub const CUSTOM_TAGS: &[&str] = &["my-elem", "Gg", "x"];
pub const LINK_ATTRS: &[AttributeId] = &[
    AttributeId::Href, AttributeId::Fill, AttributeId::Stroke, AttributeId::ClipPath, AttributeId::Mask,
    AttributeId::Filter, AttributeId::MarkerStart, AttributeId::MarkerMid, AttributeId::MarkerEnd,
];
pub const CUSTOM_ATTRS: &[&str] = &["data-a", "data-b", "my:attr", "Z"];
pub const PLAIN_ATTRS: &[AttributeId] = &[
    AttributeId::X, AttributeId::Width, AttributeId::Opacity, AttributeId::Transform, AttributeId::D,
    AttributeId::Points, AttributeId::FontFamily, AttributeId::ViewBox, AttributeId::Space, AttributeId::Offset,
];

pub fn rand_num(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => r.below(10) as f64,
        1 => -(r.below(1000) as f64),
        2 => (r.below(200_000) as f64 - 100_000.0) / 100.0,
        3 => (r.below(2_000_000) as f64 - 1_000_000.0) / 8192.0,
        _ => r.below(1000) as f64 / 1000.0,
    }
}

pub fn rand_unit(r: &mut Rng) -> LengthUnit {
    *r.pick(&[
        LengthUnit::None, LengthUnit::Em, LengthUnit::Ex, LengthUnit::Px, LengthUnit::In, LengthUnit::Cm,
        LengthUnit::Mm, LengthUnit::Pt, LengthUnit::Pc, LengthUnit::Percent,
    ])
}

pub fn rand_color(r: &mut Rng) -> Color {
    Color::new(r.below(256) as u8, r.below(256) as u8, r.below(256) as u8)
}

pub fn rand_str(r: &mut Rng) -> String {
    const P: &[&str] = &["a", "b", "Z", "0", " ", "-", "é", "日", "'", "\"", ">", "#", "(", ";", ":", "&", "<", "😀", "𠀀", "\u{200b}"];
    let n = match r.below(600) { 0 => r.range(600, 1500), 1..=3 => r.range(60, 300), _ => r.below(8) };
    let mut s: String = (0..n).map(|_| *r.pick(P)).collect();
    if r.chance(8) {
        // White space of all kinds, at the ends too.
        for _ in 0..r.range(1, 3) {
            let at = match r.below(3) { 0 => 0, 1 => s.len(), _ => s.char_indices().map(|c| c.0).nth(r.below(s.chars().count() + 1)).unwrap_or(0) };
            s.insert_str(at, *r.pick(&["\n", "\r\n", "\t", "  ", "\r", "\u{a0}", "\u{feff}", "\u{3000}"]));
        }
    }
    s
}

/// A custom name that resembles a name of the library.
pub fn odd_name(r: &mut Rng) -> String {
    let (e, a) = (r.pick(crate::names::ELEMENTS).0, r.pick(crate::names::ATTRIBUTES).0);
    match r.below(8) {
        0 => e.to_string(),
        1 => a.to_string(),
        2 => r.pick(&["href", "fill", "stroke", "xlink:href", "xml:space", "id", "svg", "text", "rect"]).to_string(),
        3 => a.to_uppercase(),
        4 => format!("{} ", r.pick(&["a", "data-a", "fill"])),
        5 => format!(" {}", r.pick(&["a", "data-a", "fill"])),
        6 => format!("x:{}", a),
        _ => { let s = rand_str(r); if s.is_empty() { "é".to_string() } else { s } }
    }
}

/// Any tag: usually one of a few, so that nodes of the same name meet.
pub fn rand_tag(r: &mut Rng, custom: usize) -> Tag {
    if r.below(60) == 0 {
        Tag::Custom(odd_name(r))
    } else if r.chance(custom) {
        Tag::Custom(r.pick(CUSTOM_TAGS).to_string())
    } else if r.chance(20) {
        Tag::Svg(r.pick_pal(crate::names::ELEMENTS).1)
    } else {
        Tag::Svg(*r.pick_pal(TAGS))
    }
}

pub fn rand_path(r: &mut Rng) -> Path {
    let mut v = vec![PathSegment::MoveTo { abs: true, x: rand_num(r), y: rand_num(r) }];
    for _ in 0..r.below(5) {
        let abs = r.chance(50);
        v.push(match r.below(9) {
            0 => PathSegment::LineTo { abs, x: rand_num(r), y: rand_num(r) },
            1 => PathSegment::HorizontalLineTo { abs, x: rand_num(r) },
            2 => PathSegment::VerticalLineTo { abs, y: rand_num(r) },
            3 => PathSegment::CurveTo {
                abs, x1: rand_num(r), y1: rand_num(r), x2: rand_num(r), y2: rand_num(r), x: rand_num(r), y: rand_num(r),
            },
            4 => PathSegment::SmoothCurveTo { abs, x2: rand_num(r), y2: rand_num(r), x: rand_num(r), y: rand_num(r) },
            5 => PathSegment::Quadratic { abs, x1: rand_num(r), y1: rand_num(r), x: rand_num(r), y: rand_num(r) },
            6 => PathSegment::SmoothQuadratic { abs, x: rand_num(r), y: rand_num(r) },
            7 => PathSegment::EllipticalArc {
                abs, rx: rand_num(r).abs(), ry: rand_num(r).abs(), x_axis_rotation: rand_num(r),
                large_arc: r.chance(50), sweep: r.chance(50), x: rand_num(r), y: rand_num(r),
            },
            _ => PathSegment::ClosePath { abs },
        });
    }
    Path(v)
}

pub const ALIGNS: &[Align] = &[
    Align::None, Align::XMinYMin, Align::XMidYMin, Align::XMaxYMin, Align::XMinYMid, Align::XMidYMid, Align::XMaxYMid,
    Align::XMinYMax, Align::XMidYMax, Align::XMaxYMax,
];

/// A plain (not a link) value of any type.
pub fn rand_value(r: &mut Rng) -> AttributeValue {
    match r.below(15) {
        0 => AttributeValue::None,
        1 => AttributeValue::Inherit,
        2 => AttributeValue::CurrentColor,
        3 => AttributeValue::AspectRatio(AspectRatio { defer: r.chance(50), align: *r.pick(ALIGNS), slice: r.chance(50) }),
        4 => AttributeValue::Color(rand_color(r)),
        5 => AttributeValue::Length(Length::new(rand_num(r), rand_unit(r))),
        6 => AttributeValue::LengthList(LengthList((0..r.below(4)).map(|_| Length::new(rand_num(r), rand_unit(r))).collect())),
        7 => AttributeValue::Angle(Angle::new(rand_num(r), *r.pick(&[AngleUnit::Degrees, AngleUnit::Gradians, AngleUnit::Radians]))),
        8 => AttributeValue::Number(rand_num(r)),
        9 => AttributeValue::NumberList(NumberList((0..r.below(4)).map(|_| rand_num(r)).collect())),
        10 => AttributeValue::Path(rand_path(r)),
        11 => AttributeValue::Points(Points((0..r.below(4)).map(|_| (rand_num(r), rand_num(r))).collect())),
        12 => AttributeValue::Transform(Transform::new(rand_num(r), rand_num(r), rand_num(r), rand_num(r), rand_num(r), rand_num(r))),
        13 => AttributeValue::ViewBox(ViewBox::new(rand_num(r), rand_num(r), rand_num(r).abs() + 1.0, rand_num(r).abs() + 1.0)),
        _ => AttributeValue::String(rand_str(r)),
    }
}

/// Like `rand_value`, but every tenth value is an extreme or a neutral one of its type.
pub fn any_value(r: &mut Rng) -> AttributeValue {
    if !r.chance(10) {
        return rand_value(r);
    }
    let f = *r.pick(&[
        0.0, -0.0, 1.0, -1.0, 0.5, 1e-5, 1e-12, 1e9, 2147483647.0, 2147483648.0, -2147483649.0, 4294967296.0, 1e15, 1e16, -1e18,
        1e300, std::f64::MAX, std::f64::MIN, std::f64::MIN_POSITIVE, 5e-324, 0.1, 100.0, 255.0, 256.0,
    ]);
    match r.below(15) {
        0 => AttributeValue::Transform(Transform::default()),
        1 => AttributeValue::Transform(Transform::new(f, 0.0, 0.0, f, 0.0, 0.0)),
        2 => AttributeValue::Transform(Transform::new(1.0, 0.0, 0.0, 1.0, f, f)),
        3 => AttributeValue::Number(f),
        4 => AttributeValue::Length(Length::new(f, rand_unit(r))),
        5 => AttributeValue::NumberList(NumberList(vec![f; r.range(1, 40)])),
        6 => AttributeValue::LengthList(LengthList(vec![Length::new(f, rand_unit(r)); r.range(1, 40)])),
        7 => AttributeValue::Points(Points(vec![(f, -f); r.range(1, 40)])),
        8 => AttributeValue::Path(Path(Vec::new())),
        9 => AttributeValue::ViewBox(ViewBox::new(f, f, 0.0, 0.0)),
        10 => AttributeValue::AspectRatio(AspectRatio::default()),
        11 => AttributeValue::Color(Color::new(*r.pick(&[0, 255]), *r.pick(&[0, 255]), *r.pick(&[0, 255]))),
        12 => AttributeValue::Angle(Angle::new(f, AngleUnit::Degrees)),
        13 => AttributeValue::from(String::new()),
        _ => AttributeValue::from(*r.pick(&["inherit", "none", "currentColor", "url(#a)", "#a", "#fff", "0", "1", "1px", "red", "none ", "Inherit"])),
    }
}

pub fn rand_fallback(r: &mut Rng) -> Option<PaintFallback> {
    match r.below(4) {
        0 => None,
        1 => Some(PaintFallback::None),
        2 => Some(PaintFallback::CurrentColor),
        _ => Some(PaintFallback::Color(rand_color(r))),
    }
}

/// How the API must store a link under `name`.
pub fn stored_kind(name: &AName) -> LinkKind {
    match *name {
        AName::Svg(AttributeId::Href) => LinkKind::Link,
        AName::Svg(AttributeId::Fill) | AName::Svg(AttributeId::Stroke) => LinkKind::Paint,
        _ => LinkKind::Func,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Refusal {
    NoId,
    Cross,
}

impl World {
    pub fn new() -> World {
        let doc = Document::new();
        let root = doc.root();
        World { doc, n: vec![root], m: vec![MNode::new(Kind::Root)], groups: Vec::new() }
    }

    /// Takes over a parsed document: the forward state is read, the rest is checked against it later.
    pub fn adopt(doc: Document) -> Result<World, String> {
        fn kind_of(n: &Node) -> Kind {
            match n.node_type() {
                NodeType::Root => Kind::Root,
                NodeType::Element => Kind::Elem(match *n.tag_name() {
                    QName::Id(id) => Tag::Svg(id),
                    QName::Name(ref s) => Tag::Custom(s.clone()),
                }),
                NodeType::Comment => Kind::Comment,
                NodeType::Text => Kind::Text,
            }
        }
        let root = doc.root();
        let mut w = World { doc, n: vec![root.clone()], m: vec![MNode::new(Kind::Root)], groups: Vec::new() };
        let mut stack = vec![(0usize, root)];
        while let Some((pid, node)) = stack.pop() {
            let mut c = node.first_child();
            while let Some(ch) = c {
                let id = w.n.len();
                ensure!(id < 100_000, "the parsed tree does not end");
                let mut mn = MNode::new(kind_of(&ch));
                mn.id = ch.id().clone();
                mn.text = ch.text().clone();
                mn.parent = Some(pid);
                w.n.push(ch.clone());
                w.m.push(mn);
                w.m[pid].children.push(id);
                stack.push((id, ch.clone()));
                c = ch.next_sibling();
            }
        }
        for i in 0..w.n.len() {
            let attrs: Vec<Attribute> = w.n[i].attributes().iter().cloned().collect();
            for a in attrs {
                let name = AName::of(&a.name);
                let v = w.read_value(&a.value)?;
                w.m[i].attrs.push((name, v));
            }
        }
        Ok(w)
    }

    pub fn find(&self, node: &Node) -> Option<Id> {
        self.n.iter().position(|x| x == node)
    }

    pub fn read_value(&self, v: &AttributeValue) -> Result<AVal, String> {
        let f = |n: &Node| self.find(n).ok_or_else(|| "an attribute links to a node outside of the document".to_string());
        Ok(match *v {
            AttributeValue::Link(ref n) => AVal::Link(LinkKind::Link, f(n)?, None),
            AttributeValue::FuncLink(ref n) => AVal::Link(LinkKind::Func, f(n)?, None),
            AttributeValue::Paint(ref n, fb) => AVal::Link(LinkKind::Paint, f(n)?, fb),
            ref v => AVal::Simple(v.clone()),
        })
    }

    pub fn alive(&self, f: impl Fn(&MNode) -> bool) -> Vec<Id> {
        (0..self.m.len()).filter(|&i| self.m[i].alive && f(&self.m[i])).collect()
    }

    pub fn pick(&self, r: &mut Rng, f: impl Fn(&MNode) -> bool) -> Option<Id> {
        let v = self.alive(f);
        if v.is_empty() { None } else { Some(*r.pick(&v)) }
    }

    pub fn in_subtree(&self, mut n: Id, top: Id) -> bool {
        loop {
            if n == top {
                return true;
            }
            match self.m[n].parent {
                Some(p) => n = p,
                None => return false,
            }
        }
    }

    pub fn top(&self, mut n: Id) -> Id {
        while let Some(p) = self.m[n].parent {
            n = p;
        }
        n
    }

    pub fn preorder(&self, n: Id) -> Vec<Id> {
        let mut v = Vec::new();
        let mut stack = vec![n];
        while let Some(x) = stack.pop() {
            v.push(x);
            for c in self.m[x].children.iter().rev() {
                stack.push(*c);
            }
        }
        v
    }

    pub fn m_detach(&mut self, n: Id) {
        if let Some(p) = self.m[n].parent.take() {
            self.m[p].children.retain(|c| *c != n);
        } else {
            for g in &mut self.groups {
                g.retain(|c| *c != n);
            }
            self.groups.retain(|g| g.len() > 1);
        }
    }

    /// The node and its siblings, if it has a parent or siblings.
    pub fn siblings(&self, n: Id) -> Option<&Vec<Id>> {
        match self.m[n].parent {
            Some(p) => Some(&self.m[p].children),
            None => self.groups.iter().find(|g| g.contains(&n)),
        }
    }

    // ---- operations -----------------------------------------------------------------------

    pub fn create_elem(&mut self, tag: Tag, obs: &mut Obs) -> Id {
        obs.log(format!("n{} = create_element({:?})", self.n.len(), tag));
        let node = match tag {
            Tag::Svg(id) => self.doc.create_element(id),
            Tag::Custom(ref s) => self.doc.create_element(s.as_str()),
        };
        self.n.push(node);
        self.m.push(MNode::new(Kind::Elem(tag)));
        self.n.len() - 1
    }

    pub fn create_other(&mut self, comment: bool, text: &str, obs: &mut Obs) -> Id {
        obs.log(format!("n{} = create_node({}, {:?})", self.n.len(), if comment { "Comment" } else { "Text" }, text));
        let t = if comment { NodeType::Comment } else { NodeType::Text };
        let node = self.doc.create_node(t, text);
        self.n.push(node);
        let mut m = MNode::new(if comment { Kind::Comment } else { Kind::Text });
        m.text = text.to_string();
        self.m.push(m);
        self.n.len() - 1
    }

    pub fn append(&mut self, p: Id, c: Id, obs: &mut Obs) {
        obs.log(format!("n{}.append(n{})", p, c));
        obs.hit("op append");
        self.n[p].clone().append(self.n[c].clone());
        self.m_detach(c);
        self.m[c].parent = Some(p);
        self.m[p].children.push(c);
    }

    pub fn prepend(&mut self, p: Id, c: Id, obs: &mut Obs) {
        obs.log(format!("n{}.prepend(n{})", p, c));
        obs.hit("op prepend");
        self.n[p].clone().prepend(self.n[c].clone());
        self.m_detach(c);
        self.m[c].parent = Some(p);
        self.m[p].children.insert(0, c);
    }

    pub fn insert(&mut self, s: Id, c: Id, after: bool, obs: &mut Obs) {
        obs.log(format!("n{}.insert_{}(n{})", s, if after { "after" } else { "before" }, c));
        obs.hit(if after { "op insert_after" } else { "op insert_before" });
        if after {
            self.n[s].clone().insert_after(self.n[c].clone());
        } else {
            self.n[s].clone().insert_before(self.n[c].clone());
        }
        self.m_detach(c);
        match self.m[s].parent {
            Some(p) => {
                let pos = self.m[p].children.iter().position(|x| *x == s).expect("target is a child");
                self.m[c].parent = Some(p);
                self.m[p].children.insert(if after { pos + 1 } else { pos }, c);
            }
            None => {
                obs.hit("inserted beside a node without a parent");
                if !self.groups.iter().any(|g| g.contains(&s)) {
                    self.groups.push(vec![s]);
                }
                let g = self.groups.iter_mut().find(|g| g.contains(&s)).unwrap();
                let pos = g.iter().position(|x| *x == s).unwrap();
                g.insert(if after { pos + 1 } else { pos }, c);
            }
        }
    }

    pub fn detach(&mut self, n: Id, obs: &mut Obs) {
        obs.log(format!("n{}.detach()", n));
        obs.hit("op detach");
        self.n[n].clone().detach();
        self.m_detach(n);
    }

    /// Takes `n` and its subtree out of the model.
    fn m_remove(&mut self, n: Id) -> usize {
        let sub = self.preorder(n);
        self.m_detach(n);
        for &x in &sub {
            self.m[x].alive = false;
            self.m[x].attrs.retain(|a| matches!(a.1, AVal::Simple(_)));
        }
        for x in 0..self.m.len() {
            self.m[x].attrs.retain(|a| match a.1 {
                AVal::Link(_, t, _) => !sub.contains(&t),
                _ => true,
            });
        }
        self.m[n].removed_directly = true;
        self.m[n].leaf = sub.len() == 1;
        sub.len()
    }

    pub fn remove(&mut self, n: Id, obs: &mut Obs) {
        obs.log(format!("doc.remove_node(n{})", n));
        obs.hit("op remove_node");
        self.doc.remove_node(self.n[n].clone());
        let c = self.m_remove(n);
        obs.add("nodes removed", c as u64);
    }

    pub fn drain(&mut self, start: Id, victims: &[Id], obs: &mut Obs) -> Res {
        obs.log(format!("doc.drain(n{}, n in {:?})", start, victims));
        obs.hit("op drain");
        let handles: Vec<Node> = victims.iter().map(|v| self.n[*v].clone()).collect();
        let got = self.doc.drain(self.n[start].clone(), |n| handles.iter().any(|h| h == n));
        let want = self.m_drain(start, victims, obs);
        ensure!(got == want, "drain(n{}) returned {}, but {} topmost nodes match", start, got, want);
        Ok(())
    }

    /// The drain in the model: how many nodes it removes.
    pub fn m_drain(&mut self, start: Id, victims: &[Id], obs: &mut Obs) -> usize {
        // Topmost matches below `start`.
        let mut top = Vec::new();
        let mut stack: Vec<Id> = self.m[start].children.iter().rev().cloned().collect();
        while let Some(x) = stack.pop() {
            if victims.contains(&x) {
                top.push(x);
            } else {
                stack.extend(self.m[x].children.iter().rev());
            }
        }
        for &t in &top {
            let c = self.m_remove(t);
            obs.add("nodes removed", c as u64);
        }
        if top.len() > 1 {
            obs.hit("drain with several matches");
        }
        top.len()
    }

    /// Registers the nodes of a fresh copy.
    pub fn copy(&mut self, n: Id, deep: bool, obs: &mut Obs) -> Result<Id, String> {
        obs.log(format!("n{} = copy_node{}(n{})", self.n.len(), if deep { "_deep" } else { "" }, n));
        obs.hit(if deep { "op copy_node_deep" } else { "op copy_node" });
        let c = if deep { self.doc.copy_node_deep(self.n[n].clone()) } else { self.doc.copy_node(self.n[n].clone()) };
        ensure!(self.find(&c).is_none(), "the copy of n{} is an already existing node", n);
        let top = self.n.len();
        let mut work = vec![(n, c, None::<Id>)];
        while let Some((src, node, parent)) = work.pop() {
            let id = self.n.len();
            let mut m = self.m[src].clone();
            let kids = m.children.clone();
            m.id = String::new();
            m.alive = true;
            m.removed_directly = false;
            m.leaf = false;
            if !m.is_elem() {
                m.attrs.clear();
            }
            m.parent = parent;
            m.children = Vec::new();
            self.n.push(node.clone());
            self.m.push(m);
            if let Some(p) = parent {
                self.m[p].children.push(id);
            }
            let mut real = Vec::new();
            let mut ch = node.first_child();
            while let Some(x) = ch {
                ensure!(real.len() <= kids.len() + 1, "the copy of n{} has too many children", src);
                ch = x.next_sibling();
                real.push(x);
            }
            let want = if deep { kids.len() } else { 0 };
            ensure!(real.len() == want, "the copy of n{} has {} children, expected {}", src, real.len(), want);
            if deep {
                // Children are registered in order: the work list is a stack.
                for (k, x) in kids.iter().zip(real.iter()).rev() {
                    ensure!(self.find(x).is_none(), "a child of the copy of n{} is an already existing node", src);
                    work.push((*k, x.clone(), Some(id)));
                }
                if !kids.is_empty() {
                    obs.hit("deep copies with children");
                }
            }
        }
        // The stack order registers children of one node in order, but make sure.
        Ok(top)
    }

    pub fn set_simple(&mut self, n: Id, name: &AName, v: AttributeValue, if_none: bool, obs: &mut Obs) {
        obs.log(format!("n{}.set_attribute{}({}, {:?})", n, if if_none { "_if_none" } else { "" }, name.show(), v));
        obs.hit(if if_none { "op set_attribute_if_none" } else { "op set_attribute" });
        let had = self.m[n].get(name).cloned();
        match had {
            Some(AVal::Link(..)) => obs.hit("plain value over link"),
            Some(_) => obs.hit("plain value over plain value"),
            None => {}
        }
        let attr = Attribute::new(name.qref(), v.clone());
        let mut node = self.n[n].clone();
        if if_none {
            node.set_attribute_if_none(attr);
            if had.is_none() {
                self.m[n].put(name.clone(), AVal::Simple(v));
            }
        } else {
            node.set_attribute(attr);
            self.m[n].put(name.clone(), AVal::Simple(v));
        }
    }

    pub fn refusal(&self, n: Id, t: Id) -> Option<Refusal> {
        if self.m[t].id.is_empty() {
            Some(Refusal::NoId)
        } else if self.m[n].id == self.m[t].id {
            Some(Refusal::Cross)
        } else if self.m[t].attrs.iter().any(|a| matches!(a.1, AVal::Link(_, x, _) if x == n)) {
            Some(Refusal::Cross)
        } else {
            None
        }
    }

    pub fn set_link(&mut self, r: &mut Rng, n: Id, name: &AName, t: Id, if_none: bool, obs: &mut Obs) -> Res {
        let fb = rand_fallback(r);
        let target = self.n[t].clone();
        let form = r.below(5);
        let (attr, given_fb): (Attribute, Option<PaintFallback>) = match (form, name) {
            (0, AName::Svg(id)) => (Attribute::from((*id, target)), None),
            (0, AName::Custom(s)) => (Attribute::from((s.as_str(), target)), None),
            (1, AName::Svg(id)) => (Attribute::from((*id, (target, fb))), fb),
            (2, _) => (Attribute::new(name.qref(), AttributeValue::Link(target)), None),
            (3, _) => (Attribute::new(name.qref(), AttributeValue::FuncLink(target)), None),
            _ => (Attribute::new(name.qref(), AttributeValue::Paint(target, fb)), fb),
        };
        obs.log(format!("n{}.set_attribute{}({}, form {} -> n{}, fallback {:?})",
                        n, if if_none { "_if_none" } else { "" }, name.show(), form, t, given_fb));
        let had = self.m[n].get(name).cloned();
        let refused = self.refusal(n, t);
        let kind = stored_kind(name);
        // What the attribute itself says before it is set.
        let made = self.read_value(&attr.value)?;
        let want = AVal::Link(match form {
            0 => kind,
            2 => LinkKind::Link,
            3 => LinkKind::Func,
            _ => LinkKind::Paint,
        }, t, given_fb);
        ensure!(AName::of(&attr.name) == *name && made == want, "an attribute made from {} and a link to n{} (form {}) is {:?} {:?}, expected {:?}",
                name.show(), t, form, attr.name, made, want);
        let val = AVal::Link(kind, t, if kind == LinkKind::Paint { given_fb } else { None });
        let mut node = self.n[n].clone();

        if if_none {
            if had.is_some() {
                obs.hit("op set_attribute_if_none");
                node.set_attribute_if_none(attr);
            } else if refused.is_none() {
                obs.hit("op set_attribute_if_none");
                node.set_attribute_if_none(attr);
                self.m[n].put(name.clone(), val);
            }
            return Ok(());
        }

        obs.hit("op set link");
        match refused {
            None => {
                match had {
                    Some(AVal::Link(_, x, _)) if x == t => obs.hit("link over link to the same node"),
                    Some(AVal::Link(..)) => obs.hit("link over link"),
                    Some(_) => obs.hit("link over plain value"),
                    None => obs.hit("new link"),
                }
                if r.chance(30) {
                    node.set_attribute(attr);
                } else if let Err(e) = node.set_attribute_checked(attr) {
                    return Err(format!("a valid link from n{} to n{} was refused: {}", n, t, e));
                }
                self.m[n].put(name.clone(), val);
            }
            Some(why) => {
                match why {
                    Refusal::NoId => obs.hit("refused: no id"),
                    Refusal::Cross if self.m[n].id == self.m[t].id => obs.hit("refused: same id"),
                    Refusal::Cross => obs.hit("refused: mutual link"),
                }
                if had.is_some() {
                    obs.hit("refused while the attribute exists");
                }
                if r.chance(15) {
                    // The unchecked version is documented to panic.
                    ensure!(no_panic(|| node.set_attribute(attr)).is_err(),
                            "set_attribute of an invalid link from n{} to n{} did not fail", n, t);
                } else {
                    match (node.set_attribute_checked(attr), why) {
                        (Err(Error::ElementMustHaveAnId), Refusal::NoId) => {}
                        (Err(Error::ElementCrosslink), Refusal::Cross) => {}
                        (res, _) => return Err(format!(
                            "the link from n{} to n{} must be refused ({:?}), but got {:?}", n, t, why, res)),
                    }
                }
            }
        }
        Ok(())
    }

    pub fn remove_attr(&mut self, n: Id, name: &AName, obs: &mut Obs) {
        obs.log(format!("n{}.remove_attribute({})", n, name.show()));
        obs.hit("op remove_attribute");
        match self.m[n].get(name) {
            Some(AVal::Link(..)) => obs.hit("link removed"),
            Some(_) => obs.hit("plain attribute removed"),
            None => obs.hit("absent attribute removed"),
        }
        self.n[n].clone().remove_attribute(name.qref());
        self.m[n].attrs.retain(|a| a.0 != *name);
    }

    pub fn set_id(&mut self, n: Id, id: &str, obs: &mut Obs) {
        obs.log(format!("n{}.set_id({:?})", n, id));
        obs.hit("op set_id");
        self.n[n].clone().set_id(id);
        self.m[n].id = id.to_string();
    }

    pub fn rand_name(r: &mut Rng, link: bool) -> AName {
        if r.chance(12) {
            // The id is not an attribute for the API.
            match r.pick(crate::names::ATTRIBUTES).1 {
                AttributeId::Id => AName::Svg(AttributeId::Class),
                id => AName::Svg(id),
            }
        } else if r.chance(20) {
            match r.below(4) {
                0 if r.chance(25) => AName::Custom(format!("{}{}", "data-of-a-name-that-is-long-".repeat(*r.pick(&[1, 2, 5, 10])), r.below(3))),
                0 => AName::Custom(format!("data-{}", r.below(40))),
                // A custom name that reads like an SVG one is another name all the same.
                1 if r.chance(60) => AName::Custom(r.pick(&["fill", "href", "filter", "stroke", "mask", "id", "x", "clip-path"]).to_string()),
                _ => AName::Custom(r.pick(CUSTOM_ATTRS).to_string()),
            }
        } else if link || r.chance(40) {
            AName::Svg(*r.pick_pal(LINK_ATTRS))
        } else {
            AName::Svg(*r.pick_pal(PLAIN_ATTRS))
        }
    }

    /// An existing attribute name of `n` (preferably) or any name.
    pub fn some_name(&self, r: &mut Rng, n: Id, link: bool) -> AName {
        if !self.m[n].attrs.is_empty() && r.chance(50) {
            return r.pick(&self.m[n].attrs).0.clone();
        }
        Self::rand_name(r, link)
    }

    fn step_name(&self, r: &mut Rng, n: Id, link: bool) -> AName {
        if r.below(40) == 0 { AName::Custom(odd_name(r)) } else { self.some_name(r, n, link) }
    }

    /// An element to write to, now and then a removed one.
    fn pick_elem(&self, r: &mut Rng, p: &Profile, obs: &mut Obs) -> Option<Id> {
        if p.dead > 0 && r.chance(p.dead) {
            let dead: Vec<Id> = (0..self.m.len()).filter(|&i| !self.m[i].alive && self.m[i].is_elem()).collect();
            if !dead.is_empty() {
                obs.hit("calls on removed nodes");
                return Some(*r.pick(&dead));
            }
        }
        self.pick(r, |m| m.is_elem())
    }

    /// One random operation, on the library and on the model.
    pub fn step(&mut self, r: &mut Rng, p: &Profile, obs: &mut Obs) -> Res {
        let alive = self.alive(|_| true).len();
        let full = alive >= p.max_nodes;
        let w = [
            if full { 0 } else { p.create_elem }, if full { 0 } else { p.create_other }, p.tree, p.detach, p.remove,
            p.remove_again, p.drain, if full { 0 } else { p.copy }, p.simple, p.link, p.if_none, p.remove_attr,
            p.set_id, p.set_text, p.set_tag, p.attr_mut,
        ];
        let total: usize = w.iter().sum();
        let mut k = r.below(total.max(1));
        let mut op = 0;
        while op < w.len() {
            if k < w[op] {
                break;
            }
            k -= w[op];
            op += 1;
        }
        let not_root = |m: &MNode| m.kind != Kind::Root;
        match op {
            0 => {
                let tag = rand_tag(r, 12);
                let c = self.create_elem(tag, obs);
                if r.chance(60) {
                    let id = format!("i{}", c);
                    self.set_id(c, &id, obs);
                }
                if r.chance(75) {
                    let parent = self.pick(r, |m| m.is_elem() || m.kind == Kind::Root).unwrap();
                    if parent != c {
                        self.append(parent, c, obs);
                    }
                }
            }
            1 => {
                let t = rand_str(r);
                let c = self.create_other(r.chance(50), &t, obs);
                if r.chance(75) {
                    let parent = self.pick(r, |m| m.is_elem()).unwrap_or(0);
                    self.append(parent, c, obs);
                }
            }
            2 => {
                let c = match self.pick(r, not_root) { Some(c) => c, None => return Ok(()) };
                if r.chance(50) {
                    // As a child. Any node may have children; elements and the root usually do.
                    let mut cand: Vec<Id> = self.alive(|_| true).into_iter().filter(|&x| !self.in_subtree(x, c)).collect();
                    if p.dead > 0 && r.chance(p.dead) {
                        // Under a removed node.
                        let dead: Vec<Id> = (0..self.m.len()).filter(|&i| !self.m[i].alive && self.m[i].leaf).collect();
                        if !dead.is_empty() {
                            cand = dead;
                        }
                    }
                    if cand.is_empty() {
                        return Ok(());
                    }
                    let parent = match self.m[c].parent {
                        Some(pp) if r.chance(35) => pp,
                        _ => *r.pick(&cand),
                    };
                    if self.m[c].parent == Some(parent) {
                        obs.hit("re-inserted under the same parent");
                    }
                    if r.chance(50) { self.append(parent, c, obs) } else { self.prepend(parent, c, obs) }
                } else {
                    let orphans = r.chance(6);
                    let cand: Vec<Id> = self.alive(|m| m.parent.is_some() || (orphans && m.kind != Kind::Root)).into_iter()
                        .filter(|&x| !self.in_subtree(x, c)).collect();
                    let near: Vec<Id> = match self.siblings(c) {
                        Some(v) => {
                            let i = v.iter().position(|x| *x == c).unwrap();
                            let mut o = Vec::new();
                            if i > 0 { o.push(v[i - 1]); }
                            if i + 1 < v.len() { o.push(v[i + 1]); }
                            o
                        }
                        None => Vec::new(),
                    };
                    let s = if !near.is_empty() && r.chance(35) {
                        obs.hit("inserted next to an adjacent sibling");
                        *r.pick(&near)
                    } else if !cand.is_empty() {
                        *r.pick(&cand)
                    } else {
                        return Ok(());
                    };
                    self.insert(s, c, r.chance(50), obs);
                }
            }
            3 => {
                if let Some(c) = self.pick(r, not_root) {
                    if self.m[c].parent.is_some() && !self.m[c].children.is_empty() {
                        obs.hit("subtree detached");
                    }
                    self.detach(c, obs);
                }
            }
            4 => {
                if let Some(c) = self.pick(r, not_root) {
                    self.remove(c, obs);
                }
            }
            5 => {
                let dead: Vec<Id> = (0..self.m.len()).filter(|&i| !self.m[i].alive && (!self.m[i].leaf || self.m[i].children.is_empty())).collect();
                if !dead.is_empty() {
                    let d = *r.pick(&dead);
                    obs.log(format!("doc.remove_node(n{}) again", d));
                    obs.hit("op remove_node again");
                    self.doc.remove_node(self.n[d].clone());
                    // Links that it got since then go again.
                    self.m[d].attrs.retain(|a| matches!(a.1, AVal::Simple(_)));
                    for m in &mut self.m {
                        m.attrs.retain(|a| !matches!(a.1, AVal::Link(_, t, _) if t == d));
                    }
                }
            }
            6 => {
                let start = if r.chance(25) { 0 } else { self.pick(r, |m| !m.children.is_empty()).unwrap_or(0) };
                let mode = r.below(7);
                let pct = r.range(5, 60);
                let tag = Tag::Svg(*r.pick(TAGS));
                let victims: Vec<Id> = self.alive(|_| true).into_iter().filter(|&x| match mode {
                    0 => matches!(self.m[x].kind, Kind::Text),
                    1 => self.m[x].kind == Kind::Elem(tag.clone()),
                    2 => !self.m[x].children.is_empty(),
                    5 => self.m[x].children.is_empty(),
                    6 => self.m[x].parent != Some(start),
                    _ => r.chance(pct),
                }).collect();
                self.drain(start, &victims, obs)?;
            }
            7 => {
                let dead: Vec<Id> = if p.dead > 0 && r.chance(p.dead) {
                    (0..self.m.len()).filter(|&i| !self.m[i].alive && self.m[i].leaf).collect()
                } else {
                    Vec::new()
                };
                let c = if dead.is_empty() { self.pick(r, not_root) } else { obs.hit("removed nodes copied"); Some(*r.pick(&dead)) };
                if let Some(c) = c {
                    let deep = r.chance(60);
                    if deep && self.preorder(c).len() + alive > p.max_nodes * 2 {
                        return Ok(());
                    }
                    // The copied links must still be valid ones: targets keep a non-empty id.
                    let src = if deep { self.preorder(c) } else { vec![c] };
                    let ok = src.iter().all(|&x| self.m[x].attrs.iter().all(|a| match a.1 {
                        AVal::Link(_, t, _) => !self.m[t].id.is_empty(),
                        _ => true,
                    }));
                    if ok {
                        let id = self.copy(c, deep, obs)?;
                        if r.chance(50) {
                            let parent = self.pick(r, |m| m.is_elem()).unwrap_or(0);
                            if !self.in_subtree(parent, id) {
                                self.append(parent, id, obs);
                            }
                        }
                    }
                }
            }
            8 => {
                if let Some(n) = self.pick_elem(r, p, obs) {
                    let name = self.step_name(r, n, false);
                    let v = any_value(r);
                    self.set_simple(n, &name, v, false, obs);
                }
            }
            9 => {
                if let Some(n) = self.pick_elem(r, p, obs) {
                    let t = match r.below(10) {
                        0 => n,
                        // A node that already links here, to provoke mutual links.
                        1 | 2 => {
                            let back = self.alive(|m| m.attrs.iter().any(|a| matches!(a.1, AVal::Link(_, x, _) if x == n)));
                            if back.is_empty() { n } else { *r.pick(&back) }
                        }
                        // A node that is already linked from here.
                        3 | 4 => {
                            let fwd: Vec<Id> = self.m[n].attrs.iter().filter_map(|a| match a.1 {
                                AVal::Link(_, x, _) => Some(x), _ => None,
                            }).collect();
                            if fwd.is_empty() { n } else { *r.pick(&fwd) }
                        }
                        _ => self.pick_elem(r, p, obs).unwrap_or(n),
                    };
                    let name = self.step_name(r, n, true);
                    self.set_link(r, n, &name, t, false, obs)?;
                }
            }
            10 => {
                if let Some(n) = self.pick_elem(r, p, obs) {
                    let name = self.step_name(r, n, true);
                    if r.chance(50) {
                        let v = any_value(r);
                        self.set_simple(n, &name, v, true, obs);
                    } else {
                        let t = self.pick_elem(r, p, obs).unwrap_or(n);
                        self.set_link(r, n, &name, t, true, obs)?;
                    }
                }
            }
            11 => {
                if let Some(n) = self.pick_elem(r, p, obs) {
                    let name = self.step_name(r, n, true);
                    self.remove_attr(n, &name, obs);
                }
            }
            12 => {
                if let Some(n) = self.pick_elem(r, p, obs) {
                    let id = match r.below(8) {
                        0 => String::new(),
                        6 | 7 => {
                            // Nearly the id of another element.
                            let o = self.pick(r, |m| !m.id.is_empty()).map(|o| self.m[o].id.clone()).unwrap_or_default();
                            match r.below(5) {
                                0 => o.to_uppercase(),
                                1 => o.to_lowercase(),
                                2 => format!("{} ", o),
                                3 => format!(" {}", o),
                                _ => " ".to_string(),
                            }
                        }
                        1 => match self.pick(r, |m| m.is_elem()) { Some(o) => self.m[o].id.clone(), None => String::new() },
                        2 => rand_str(r),
                        _ => format!("j{}", r.below(1000)),
                    };
                    self.set_id(n, &id, obs);
                }
            }
            13 => {
                if let Some(n) = self.pick(r, |m| matches!(m.kind, Kind::Text | Kind::Comment)) {
                    let t = rand_str(r);
                    obs.log(format!("n{}.set_text({:?})", n, t));
                    obs.hit("op set_text");
                    if r.chance(50) {
                        self.n[n].clone().set_text(&t);
                    } else {
                        *self.n[n].clone().text_mut() = t.clone();
                    }
                    self.m[n].text = t;
                }
            }
            14 => {
                if let Some(n) = self.pick(r, |m| m.is_elem()) {
                    let tag = rand_tag(r, 25);
                    obs.log(format!("n{}.set_tag_name({:?})", n, tag));
                    obs.hit("op set_tag_name");
                    match tag {
                        Tag::Svg(id) => self.n[n].clone().set_tag_name(id),
                        Tag::Custom(ref s) => self.n[n].clone().set_tag_name(s.as_str()),
                    }
                    self.m[n].kind = Kind::Elem(tag);
                }
            }
            15 => {
                // In-place change of a plain value.
                if let Some(n) = self.pick(r, |m| m.attrs.iter().any(|a| matches!(a.1, AVal::Simple(_)))) {
                    let idx: Vec<usize> = (0..self.m[n].attrs.len())
                        .filter(|&i| matches!(self.m[n].attrs[i].1, AVal::Simple(_))).collect();
                    let i = *r.pick(&idx);
                    let name = self.m[n].attrs[i].0.clone();
                    let v = any_value(r);
                    obs.log(format!("n{}.attributes_mut()[{}] = {:?}", n, name.show(), v));
                    obs.hit("op in-place value change");
                    let mut node = self.n[n].clone();
                    let mut done = false;
                    {
                        let mut attrs = node.attributes_mut();
                        match r.below(3) {
                            0 => if let Some(a) = attrs.get_mut(name.qref()) { a.value = v.clone(); done = true; },
                            1 => if let Some(x) = attrs.get_value_mut(name.qref()) { *x = v.clone(); done = true; },
                            _ => for a in attrs.iter_mut() {
                                if AName::of(&a.name) == name { a.value = v.clone(); done = true; }
                            },
                        }
                    }
                    ensure!(done, "n{}: mutable access to attribute {} found nothing", n, name.show());
                    self.m[n].attrs[i].1 = AVal::Simple(v);
                }
            }
            _ => {}
        }
        Ok(())
    }

    // ---- observations ---------------------------------------------------------------------

    fn same(&self, got: Option<Node>, want: Option<Id>) -> bool {
        match (got, want) {
            (None, None) => true,
            (Some(g), Some(w)) => g == self.n[w],
            _ => false,
        }
    }

    fn show_opt(&self, got: &Option<Node>) -> String {
        match got {
            None => "nothing".into(),
            Some(n) => match self.find(n) { Some(i) => format!("n{}", i), None => "an unknown node".into() },
        }
    }

    /// Structure of every alive node against the model.
    pub fn check_structure(&self, obs: &mut Obs) -> Res {
        for i in 0..self.n.len() {
            if !self.m[i].alive {
                continue;
            }
            let (node, m) = (&self.n[i], &self.m[i]);
            let (prev, next) = match self.siblings(i) {
                Some(v) => {
                    let k = v.iter().position(|x| *x == i).unwrap();
                    (if k > 0 { Some(v[k - 1]) } else { None }, v.get(k + 1).cloned())
                }
                None => (None, None),
            };
            let want = [
                ("parent", node.parent(), m.parent),
                ("first_child", node.first_child(), m.children.first().cloned()),
                ("last_child", node.last_child(), m.children.last().cloned()),
                ("previous_sibling", node.previous_sibling(), prev),
                ("next_sibling", node.next_sibling(), next),
                ("root", Some(node.root()), Some(self.top(i))),
            ];
            for (name, got, want) in want.iter() {
                ensure!(self.same(got.clone(), *want), "n{}.{}() is {}, expected {:?}", i, name, self.show_opt(got),
                        want.map(|w| format!("n{}", w)));
            }
            ensure!(node.has_children() == !m.children.is_empty(), "n{}.has_children() is wrong", i);
            let hp = match m.parent { Some(p) => self.m[p].kind != Kind::Root, None => false };
            ensure!(node.has_parent() == hp, "n{}.has_parent() is {}", i, !hp);
            obs.hit("node structures compared");
        }
        Ok(())
    }

    /// The expected multisets of linking nodes, in order of the linking nodes.
    pub fn all_users(&self) -> Vec<Vec<Id>> {
        let mut v = vec![Vec::new(); self.m.len()];
        for i in 0..self.m.len() {
            for a in &self.m[i].attrs {
                if let AVal::Link(_, t, _) = a.1 {
                    v[t].push(i);
                }
            }
        }
        v
    }

    pub fn check_links(&self, obs: &mut Obs) -> Res {
        let all = self.all_users();
        for i in 0..self.n.len() {
            let want = all[i].clone();
            let linked: Vec<Node> = self.n[i].linked_nodes().iter().cloned().collect();
            let mut got = Vec::new();
            for l in &linked {
                match self.find(l) {
                    Some(x) => got.push(x),
                    None => return Err(format!("n{} is linked by an unknown node", i)),
                }
            }
            got.sort();
            ensure!(got == want, "linked nodes of n{} are {:?}, but these nodes have attributes that link to it: {:?}",
                    i, got, want);
            ensure!(self.n[i].uses_count() == want.len(), "n{}.uses_count() is {}, expected {}",
                    i, self.n[i].uses_count(), want.len());
            ensure!(self.n[i].is_used() == !want.is_empty(), "n{}.is_used() is wrong", i);
            obs.add("back references compared", want.len() as u64);
            if want.len() > 1 && want.windows(2).any(|w| w[0] == w[1]) {
                obs.hit("several links between the same nodes");
            }
        }
        Ok(())
    }

    /// Forward attributes of every node.
    pub fn check_attrs(&self, obs: &mut Obs) -> Res {
        for i in 0..self.n.len() {
            let attrs: Vec<Attribute> = self.n[i].attributes().iter().cloned().collect();
            let m = &self.m[i];
            for a in &attrs {
                let name = AName::of(&a.name);
                let v = match self.read_value(&a.value) {
                    Ok(v) => v,
                    Err(e) => return Err(format!("n{}: {}: {}", i, name.show(), e)),
                };
                match m.get(&name) {
                    None => return Err(format!("n{} has an unexpected attribute {} = {:?}", i, name.show(), v)),
                    Some(w) => ensure!(*w == v, "n{}: attribute {} is {:?}, expected {:?}", i, name.show(), v, w),
                }
            }
            for (name, w) in &m.attrs {
                ensure!(attrs.iter().any(|a| AName::of(&a.name) == *name), "n{} lost its attribute {} = {:?}", i, name.show(), w);
            }
            ensure!(attrs.len() == m.attrs.len(), "n{} has {} attributes, expected {}", i, attrs.len(), m.attrs.len());
            obs.add("attributes compared", attrs.len() as u64);
        }
        Ok(())
    }

    /// Id, tag, text, type of every node.
    pub fn check_data(&self, obs: &mut Obs) -> Res {
        for i in 0..self.n.len() {
            let (node, m) = (&self.n[i], &self.m[i]);
            if !m.alive {
                continue;
            }
            let t = match m.kind {
                Kind::Root => NodeType::Root,
                Kind::Elem(_) => NodeType::Element,
                Kind::Text => NodeType::Text,
                Kind::Comment => NodeType::Comment,
            };
            ensure!(node.node_type() == t, "n{} has type {:?}, expected {:?}", i, node.node_type(), t);
            ensure!(node.is_root() == (t == NodeType::Root) && node.is_element() == (t == NodeType::Element)
                    && node.is_comment() == (t == NodeType::Comment) && node.is_text() == (t == NodeType::Text),
                    "n{}: type predicates disagree with {:?}", i, t);
            ensure!(*node.id() == m.id, "n{} has id {:?}, expected {:?}", i, *node.id(), m.id);
            ensure!(node.has_id() == !m.id.is_empty(), "n{}.has_id() is wrong", i);
            ensure!(*node.text() == m.text, "n{} has text {:?}, expected {:?}", i, *node.text(), m.text);
            if let Kind::Elem(ref tag) = m.kind {
                match tag {
                    Tag::Svg(id) => {
                        ensure!(node.is_svg_element() && node.tag_id() == Some(*id) && node.has_tag_name(*id)
                                && *node.tag_name() == QName::Id(*id) && !node.has_tag_name("nope"),
                                "n{} is not reported as {:?}: {:?}", i, id, *node.tag_name());
                        let other = if *id == ElementId::A { ElementId::G } else { ElementId::A };
                        ensure!(!node.has_tag_name(other), "n{} has two tag names", i);
                    }
                    Tag::Custom(s) => ensure!(
                        !node.is_svg_element() && node.tag_id().is_none() && node.has_tag_name(s.as_str())
                        && *node.tag_name() == QName::Name(s.clone()) && !node.has_tag_name(ElementId::A),
                        "n{} is not reported as {:?}: {:?}", i, s, *node.tag_name()),
                }
            } else {
                ensure!(!node.is_svg_element(), "n{} is not an element, but is_svg_element() holds", i);
            }
            obs.hit("node data compared");
        }
        Ok(())
    }

    pub fn check_membership(&self, obs: &mut Obs) -> Res {
        for i in 0..self.n.len() {
            let (node, m) = (&self.n[i], &self.m[i]);
            ensure!(node.is_detached() == !m.alive, "n{}.is_detached() is {}, but the node is {}", i, node.is_detached(),
                    if m.alive { "in the document" } else { "removed" });
            if !m.alive {
                for a in node.attributes().iter() {
                    ensure!(!a.is_link_container() || m.get(&AName::of(&a.name)).is_some(),
                            "removed node n{} still holds a link in {:?}", i, a.name);
                }
                if m.removed_directly {
                    ensure!(node.parent().is_none() && node.previous_sibling().is_none() && node.next_sibling().is_none(),
                            "removed node n{} still has a parent or a sibling", i);
                }
                obs.hit("removed nodes examined");
            }
        }
        Ok(())
    }

    /// Fingerprint of the current model state.
    pub fn fp(&self) -> u64 {
        let mut h = 7u64;
        for (i, m) in self.m.iter().enumerate() {
            if !m.alive {
                h = mix(h ^ 0xdead ^ i as u64);
                continue;
            }
            h = mix(h ^ m.parent.map(|p| p as u64 + 1).unwrap_or(0));
            for c in &m.children {
                h = mix(h ^ *c as u64);
            }
            h = mix(h ^ crate::rng::hash_str(&format!("{:?}{:?}{:?}", m.kind, m.id, m.attrs)));
        }
        h
    }
}
