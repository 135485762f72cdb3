//! A comparable picture of a document, taken through the public API.

use svgdom::*;

use crate::ensure;
use crate::obs::Res;

#[derive(Clone, PartialEq, Debug)]
pub enum SVal {
    Plain(AttributeValue),
    Link(&'static str, usize, Option<PaintFallback>),
}

#[derive(Clone, Debug)]
pub struct SNode {
    pub depth: usize,
    pub kind: String,
    pub id: String,
    pub text: String,
    pub attrs: Vec<(String, SVal)>,
    pub uses: usize,
}

fn qname(q: &AttributeQName) -> String {
    match *q {
        QName::Id(id) => format!("{:?}", id),
        QName::Name(ref s) => format!("\"{}\"", s),
    }
}

/// Pre-order picture. Refuses trees with more than `limit` nodes.
pub fn snap(doc: &Document) -> Result<Vec<SNode>, String> {
    snap_node(&doc.root())
}

pub fn snap_node(root: &Node) -> Result<Vec<SNode>, String> {
    let mut nodes: Vec<(Node, usize)> = Vec::new();
    let mut stack = vec![(root.clone(), 0usize)];
    while let Some((n, d)) = stack.pop() {
        ensure!(nodes.len() < 200_000, "the tree does not end");
        let mut kids = Vec::new();
        let mut c = n.first_child();
        while let Some(k) = c {
            ensure!(kids.len() < 200_000, "the list of children does not end");
            c = k.next_sibling();
            kids.push((k, d + 1));
        }
        nodes.push((n, d));
        kids.reverse();
        stack.extend(kids);
    }
    let index = |n: &Node| nodes.iter().position(|x| x.0 == *n).unwrap_or(usize::MAX);
    let mut v = Vec::with_capacity(nodes.len());
    for (n, d) in &nodes {
        let kind = match n.node_type() {
            NodeType::Root => "root".to_string(),
            NodeType::Element => match *n.tag_name() {
                QName::Id(id) => format!("<{:?}>", id),
                QName::Name(ref s) => format!("<\"{}\">", s),
            },
            NodeType::Comment => "comment".to_string(),
            NodeType::Text => "text".to_string(),
        };
        let mut attrs: Vec<(String, SVal)> = n.attributes().iter().map(|a| {
            let val = match a.value {
                AttributeValue::Link(ref t) => SVal::Link("link", index(t), None),
                AttributeValue::FuncLink(ref t) => SVal::Link("func", index(t), None),
                AttributeValue::Paint(ref t, fb) => SVal::Link("paint", index(t), fb),
                ref x => SVal::Plain(x.clone()),
            };
            (qname(&a.name), val)
        }).collect();
        attrs.sort_by(|a, b| a.0.cmp(&b.0));
        v.push(SNode {
            depth: *d, kind, id: n.id().clone(), text: n.text().clone(), attrs, uses: n.uses_count(),
        });
    }
    Ok(v)
}

/// Numbers and words of a plain value: two values are the same if the words are equal and the numbers are close.
pub fn parts(v: &AttributeValue) -> (String, Vec<f64>) {
    let unit = |l: &Length| format!("{:?}", l.unit);
    match *v {
        AttributeValue::None => ("none".into(), vec![]),
        AttributeValue::Inherit => ("inherit".into(), vec![]),
        AttributeValue::CurrentColor => ("currentColor".into(), vec![]),
        AttributeValue::AspectRatio(a) => (format!("{:?}", a), vec![]),
        AttributeValue::Color(c) => (format!("{:?}", c), vec![]),
        AttributeValue::Length(l) => (format!("len {}", unit(&l)), vec![l.num]),
        AttributeValue::LengthList(ref l) => (
            format!("lenlist {:?}", l.0.iter().map(unit).collect::<Vec<_>>()), l.0.iter().map(|l| l.num).collect()),
        AttributeValue::Angle(a) => (format!("angle {:?}", a.unit), vec![a.num]),
        AttributeValue::Number(n) => ("num".into(), vec![n]),
        AttributeValue::NumberList(ref l) => ("numlist".into(), l.0.clone()),
        AttributeValue::Path(ref p) => {
            let mut w = String::from("path");
            let mut n = Vec::new();
            for s in &p.0 {
                let abs = |a: bool| if a { "abs" } else { "rel" };
                match *s {
                    PathSegment::MoveTo { abs: a, x, y } => { w += &format!(" M{}", abs(a)); n.extend([x, y]) }
                    PathSegment::LineTo { abs: a, x, y } => { w += &format!(" L{}", abs(a)); n.extend([x, y]) }
                    PathSegment::HorizontalLineTo { abs: a, x } => { w += &format!(" H{}", abs(a)); n.push(x) }
                    PathSegment::VerticalLineTo { abs: a, y } => { w += &format!(" V{}", abs(a)); n.push(y) }
                    PathSegment::CurveTo { abs: a, x1, y1, x2, y2, x, y } => {
                        w += &format!(" C{}", abs(a)); n.extend([x1, y1, x2, y2, x, y])
                    }
                    PathSegment::SmoothCurveTo { abs: a, x2, y2, x, y } => { w += &format!(" S{}", abs(a)); n.extend([x2, y2, x, y]) }
                    PathSegment::Quadratic { abs: a, x1, y1, x, y } => { w += &format!(" Q{}", abs(a)); n.extend([x1, y1, x, y]) }
                    PathSegment::SmoothQuadratic { abs: a, x, y } => { w += &format!(" T{}", abs(a)); n.extend([x, y]) }
                    PathSegment::EllipticalArc { abs: a, rx, ry, x_axis_rotation, large_arc, sweep, x, y } => {
                        w += &format!(" A{} {} {}", abs(a), large_arc, sweep);
                        n.extend([rx, ry, x_axis_rotation, x, y])
                    }
                    PathSegment::ClosePath { abs: a } => w += &format!(" Z{}", abs(a)),
                }
            }
            (w, n)
        }
        AttributeValue::Points(ref p) => ("points".into(), p.0.iter().flat_map(|p| [p.0, p.1]).collect()),
        AttributeValue::Transform(t) => ("ts".into(), vec![t.a, t.b, t.c, t.d, t.e, t.f]),
        AttributeValue::ViewBox(b) => ("viewbox".into(), vec![b.x, b.y, b.w, b.h]),
        AttributeValue::String(ref s) => (format!("str {}", s), vec![]),
        AttributeValue::Link(_) | AttributeValue::FuncLink(_) | AttributeValue::Paint(..) => ("link".into(), vec![]),
    }
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

pub fn same_plain(a: &AttributeValue, b: &AttributeValue, tol: f64) -> bool {
    let (wa, na) = parts(a);
    let (wb, nb) = parts(b);
    wa == wb && na.len() == nb.len() && na.iter().zip(nb.iter()).all(|(x, y)| close(*x, *y, tol))
}

pub fn same_val(a: &SVal, b: &SVal, tol: f64) -> bool {
    match (a, b) {
        (SVal::Plain(x), SVal::Plain(y)) => same_plain(x, y, tol),
        (SVal::Link(k, t, f), SVal::Link(k2, t2, f2)) => k == k2 && t == t2 && f == f2,
        _ => false,
    }
}

/// Compares two pictures. `tol` is the relative tolerance for numbers.
pub fn compare(what: &str, a: &[SNode], b: &[SNode], tol: f64) -> Res {
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        ensure!(x.depth == y.depth && x.kind == y.kind, "{}: node {} is {} at depth {}, but {} at depth {}",
                what, i, x.kind, x.depth, y.kind, y.depth);
        ensure!(x.id == y.id, "{}: node {} {} has id {:?}, but {:?}", what, i, x.kind, x.id, y.id);
        ensure!(x.text == y.text, "{}: node {} {} has text {:?}, but {:?}", what, i, x.kind, x.text, y.text);
        let mut names: Vec<&String> = x.attrs.iter().chain(y.attrs.iter()).map(|a| &a.0).collect();
        names.sort();
        names.dedup();
        for n in names {
            let av: Vec<&SVal> = x.attrs.iter().filter(|a| a.0 == *n).map(|a| &a.1).collect();
            let bv: Vec<&SVal> = y.attrs.iter().filter(|a| a.0 == *n).map(|a| &a.1).collect();
            let ok = av.len() == bv.len() && av.iter().zip(bv.iter()).all(|(p, q)| same_val(p, q, tol));
            ensure!(ok, "{}: node {} {} has {} = {:?}, but {:?}", what, i, x.kind, n, av, bv);
        }
        ensure!(x.uses == y.uses, "{}: node {} {} is used {} times, but {}", what, i, x.kind, x.uses, y.uses);
    }
    ensure!(a.len() == b.len(), "{}: {} nodes, but {}; first extra one is {:?}", what, a.len(), b.len(),
            if a.len() > b.len() { &a[b.len()] } else { &b[a.len()] });
    Ok(())
}

pub fn show(s: &[SNode]) -> String {
    s.iter().map(|n| format!("{}{} id={:?} {:?} {:?}", "  ".repeat(n.depth), n.kind, n.id, n.text, n.attrs))
        .collect::<Vec<_>>().join("\n")
}
