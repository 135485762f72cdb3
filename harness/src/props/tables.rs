//! C17, C20: names, categories and defaults, against tables taken from the documentation and the SVG 1.1 specification.

use svgdom::*;

use crate::driver::{Ctx, Prop};
use crate::ensure;
use crate::names::{ATTRIBUTES, ELEMENTS, PRESENTATION};
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, Rng};

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17", quick: 120_000, thorough: 3_600_000,
            rule: "case 0..350: one known name each, converted both ways, parsed and written; other cases: 60 strings derived from known \
                   names (case, prefix, suffix, edits, joins) or arbitrary, converted and parsed; non-trivial if the case has a near miss",
            required: &[("known elements", 80), ("known attributes", 270), ("near misses", 100_000), ("arbitrary strings", 10_000),
                        ("parsed near misses", 50_000), ("written names", 340)],
            assumptions: &["the name tables of the harness are the SVG 1.1 element and attribute index"],
            case: c17,
        },
        Prop {
            id: "C20", quick: 300_000, thorough: 12_000_000,
            rule: "every element name, attribute name and value type is asked all of its predicates and compared with the documented \
                   lists, on nodes in varied states (with attributes, children, links, detached, copied, renamed); non-trivial if the \
                   node is in at least one category",
            required: &[("element predicates", 100_000), ("attribute predicates", 100_000), ("value predicates", 50_000), ("defaults", 1000),
                        ("non-elements", 1000), ("custom tags", 1000), ("renamed nodes", 1000)],
            assumptions: &[],
            case: c20,
        },
    ]
}

fn mutate(r: &mut Rng, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let i = r.below(c.len());
    let join = |v: Vec<char>| v.into_iter().collect::<String>();
    let mut v = c.clone();
    match r.below(14) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => { v[i] = if v[i].is_uppercase() { v[i].to_ascii_lowercase() } else { v[i].to_ascii_uppercase() }; join(v) }
        3 => { v.remove(i); join(v) }
        4 => { v.insert(i, *r.pick(&['a', '-', 'x', '1', '_', 'é', ' '])); join(v) }
        5 => { v[i] = *r.pick(&['a', '-', 'x', '1', '_', 'é', 'e', 's']); join(v) }
        6 => format!("{}{}", s, *r.pick(&["s", "2", "-", " ", ":", "x", "\u{0}", "\n", "\u{feff}", "\u{200b}", "\u{a0}", "\u{301}", "\t"])),
        7 => format!("{}{}", *r.pick(&["svg:", "xlink:", "xml:", " ", "x", "-", "_", "fe"]), s),
        8 => { if i + 1 < v.len() { v.swap(i, i + 1) } join(v) }
        9 => format!("{}{}", s, *r.pick(&["fill", "g", "x", "rect", "-width", "y"])),
        10 => s.replace('-', "_"),
        11 => s.replace('-', ""),
        12 => { v.truncate(i); join(v) }
        _ => join(v.into_iter().rev().collect()),
    }
}

fn is_xml_name(s: &str) -> bool {
    let ok = |c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_' || c == 'é';
    s.chars().all(ok) && s.chars().next().map_or(false, |c| c.is_ascii_alphabetic() || c == '_') && !s.to_lowercase().starts_with("xml")
}

fn doc_with(elem: &str, attr: &str) -> Result<Document, String> {
    let p = match attr {
        "href" => "xlink:href",
        "space" => "xml:space",
        a => a,
    };
    let value = if attr == "id" { "i" } else { "1" };
    let t = format!("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><{} {}='{}'/></svg>", elem, p, value);
    Document::from_str(&t).map_err(|e| format!("{}: {}", t, e))
}

fn c17(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    let idx = ctx.idx as usize;
    if idx < ELEMENTS.len() {
        let (name, id) = ELEMENTS[idx];
        obs.log(name.to_string());
        obs.hit("known elements");
        ensure!(ElementId::from_str(name) == Some(id), "element name {:?} gives {:?}, expected {:?}", name, ElementId::from_str(name), id);
        ensure!(id.as_str() == name, "{:?} is named {:?}, expected {:?}", name, id.as_str(), name);
        ensure!(format!("{:?}", id) == name && format!("{}", id) == name, "{:?} is shown as {:?} or {}", name, id, id);
        for (j, (n2, id2)) in ELEMENTS.iter().enumerate() {
            ensure!((*id2 == id) == (j == idx), "{} and {} have the same identifier", name, n2);
        }
        // Parsing and writing.
        let doc = doc_with(name, "fill")?;
        let kids: Vec<Node> = doc.svg_element().ok_or("no svg")?.children().collect();
        if name == "style" {
            ensure!(kids.is_empty(), "a style element was kept");
        } else {
            ensure!(kids.len() == 1 && kids[0].tag_id() == Some(id) && kids[0].has_tag_name(id), "parsing <{}> gives {:?}", name, kids);
        }
        let mut d = Document::new();
        let mut svg = d.create_element(ElementId::Svg);
        d.root().append(svg.clone());
        let e = d.create_element(id);
        svg.append(e);
        let t = d.to_string();
        obs.hit("written names");
        ensure!(t.contains(&format!("<{}/>", name)), "<{}> is written as {:?}", name, t);
        return Ok(());
    }
    let k = idx - ELEMENTS.len();
    if k < ATTRIBUTES.len() {
        let (name, id) = ATTRIBUTES[k];
        obs.log(name.to_string());
        obs.hit("known attributes");
        ensure!(AttributeId::from_str(name) == Some(id), "attribute name {:?} gives {:?}", name, AttributeId::from_str(name));
        ensure!(id.as_str() == name, "{:?} is named {:?}", name, id.as_str());
        ensure!(format!("{:?}", id) == name && format!("{}", id) == name, "{:?} is shown as {:?} or {}", name, id, id);
        for (j, (n2, id2)) in ATTRIBUTES.iter().enumerate() {
            ensure!((*id2 == id) == (j == k), "{} and {} have the same identifier", name, n2);
        }
        // Alphabetical order of the names is the order of the identifiers.
        if name != "xmlns" {
            let doc = doc_with("rect", name)?;
            let e = doc.svg_element().and_then(|s| s.first_child()).ok_or("no rect")?;
            match name {
                "id" => ensure!(*e.id() == "i" && e.attributes().len() == 0, "parsing an id gives {:?}", e),
                "class" | "style" => ensure!(e.attributes().len() == 0, "parsing {} gives {:?}", name, e),
                _ => {
                    let n = e.attributes().len();
                    ensure!(n == 0 || (n == 1 && e.has_attribute(id)), "parsing {} gives {:?}", name, e);
                    if n == 1 {
                        obs.hit("parsed attribute names");
                    }
                }
            }
        }
        if name != "id" {
            let mut d = Document::new();
            let mut svg = d.create_element(ElementId::Svg);
            d.root().append(svg.clone());
            let mut e = d.create_element(ElementId::Rect);
            e.set_attribute((id, "v"));
            svg.append(e);
            let t = d.to_string();
            let n = match name { "href" => "xlink:href", "space" => "xml:space", n => n };
            obs.hit("written names");
            ensure!(t.contains(&format!("<rect {}=\"", n)), "{} is written as {:?}", name, t);
        }
        return Ok(());
    }
    let mut near = false;
    let mut strings = Vec::new();
    for _ in 0..60 {
        let s = if r.chance(90) {
            obs.hit("near misses");
            near = true;
            let base = if r.chance(40) { r.pick(ELEMENTS).0 } else { r.pick(ATTRIBUTES).0 };
            let mut s = mutate(r, base);
            if r.chance(20) && !s.is_empty() {
                s = mutate(r, &s);
            }
            s
        } else {
            obs.hit("arbitrary strings");
            (0..r.below(20)).map(|_| match r.below(3) {
                0 => (b'a' + r.below(26) as u8) as char,
                1 => r.below(128) as u8 as char,
                _ => char::from_u32(r.below(0x3000) as u32).unwrap_or('?'),
            }).collect()
        };
        strings.push(s);
    }
    obs.log(format!("{:?}", strings));
    for s in &strings {
        let we = ELEMENTS.iter().find(|e| e.0 == s).map(|e| e.1);
        let wa = ATTRIBUTES.iter().find(|e| e.0 == s).map(|e| e.1);
        ensure!(ElementId::from_str(s) == we, "element name {:?} gives {:?}, expected {:?}", s, ElementId::from_str(s), we);
        ensure!(AttributeId::from_str(s) == wa, "attribute name {:?} gives {:?}, expected {:?}", s, AttributeId::from_str(s), wa);
    }
    // The parser agrees.
    let names: Vec<&String> = strings.iter().filter(|s| is_xml_name(s)).collect();
    let mut t = String::from("<svg xmlns='http://www.w3.org/2000/svg'>");
    for n in &names {
        t.push_str(&format!("<{}/><g {}='none'/>", n, n));
    }
    t.push_str("</svg>");
    let doc = Document::from_str(&t).map_err(|e| format!("{}: {}", t, e))?;
    let mut kid = doc.svg_element().and_then(|s| s.first_child());
    for n in &names {
        obs.hit("parsed near misses");
        if let Some(e) = ELEMENTS.iter().find(|e| e.0 == *n && e.0 != "style") {
            let k = kid.take().ok_or_else(|| format!("<{}> is missing", n))?;
            ensure!(k.tag_id() == Some(e.1), "<{}> is parsed as {:?}", n, k);
            kid = k.next_sibling();
        }
        let k = kid.take().ok_or_else(|| format!("the element behind <{}/> is missing", n))?;
        ensure!(k.has_tag_name(ElementId::G), "<{}/> is parsed as {:?}", n, k);
        let known = ATTRIBUTES.iter().any(|a| a.0 == *n);
        ensure!(known || k.attributes().len() == 0, "the attribute {:?} is parsed as {:?}", n, k);
        kid = k.next_sibling();
    }
    ensure!(kid.is_none(), "there is one more element: {:?}", kid);
    if near {
        obs.nontrivial(hash_str(&format!("{:?}", strings)));
    }
    Ok(())
}

type Cat = (&'static str, fn(&Node) -> bool, &'static [&'static str]);

const CATS: &[Cat] = &[
    ("referenced", |n| n.is_referenced(), &["altGlyphDef", "clipPath", "cursor", "filter", "linearGradient", "marker", "mask", "pattern",
                                            "radialGradient", "symbol"]),
    ("basic shape", |n| n.is_basic_shape(), &["rect", "circle", "ellipse", "line", "polyline", "polygon"]),
    ("shape", |n| n.is_shape(), &["path", "rect", "circle", "ellipse", "line", "polyline", "polygon"]),
    ("container", |n| n.is_container(), &["a", "defs", "glyph", "g", "marker", "mask", "missing-glyph", "pattern", "svg", "switch", "symbol"]),
    ("text content", |n| n.is_text_content(), &["altGlyph", "textPath", "text", "tref", "tspan"]),
    ("text content child", |n| n.is_text_content_child(), &["altGlyph", "textPath", "tref", "tspan"]),
    ("graphic", |n| n.is_graphic(), &["circle", "ellipse", "image", "line", "path", "polygon", "polyline", "rect", "text", "use"]),
    ("gradient", |n| n.is_gradient(), &["linearGradient", "radialGradient"]),
    ("paint server", |n| n.is_paint_server(), &["linearGradient", "radialGradient", "pattern"]),
    ("filter primitive", |n| n.is_filter_primitive(), &["feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix",
        "feDiffuseLighting", "feDisplacementMap", "feFlood", "feGaussianBlur", "feImage", "feMerge", "feMorphology", "feOffset",
        "feSpecularLighting", "feTile", "feTurbulence"]),
];

type ACat = (&'static str, fn(&AttributeId) -> bool, fn(&Attribute) -> bool, &'static [&'static str]);

const NON_INHERITABLE: &[&str] = &[
    "alignment-baseline", "baseline-shift", "clip", "clip-path", "display", "dominant-baseline", "enable-background", "filter", "flood-color",
    "flood-opacity", "lighting-color", "mask", "opacity", "overflow", "stop-color", "stop-opacity", "text-decoration", "unicode-bidi", "visibility",
];

const ACATS: &[ACat] = &[
    ("presentation", |a| a.is_presentation(), |a| a.is_presentation(), PRESENTATION),
    ("animation event", |a| a.is_animation_event(), |a| a.is_animation_event(), &["onbegin", "onend", "onload", "onrepeat"]),
    ("graphical event", |a| a.is_graphical_event(), |a| a.is_graphical_event(), &["onactivate", "onclick", "onfocusin", "onfocusout", "onload",
        "onmousedown", "onmousemove", "onmouseout", "onmouseover", "onmouseup"]),
    ("document event", |a| a.is_document_event(), |a| a.is_document_event(), &["onabort", "onerror", "onresize", "onscroll", "onunload", "onzoom"]),
    ("conditional processing", |a| a.is_conditional_processing(), |a| a.is_conditional_processing(), &["requiredExtensions", "requiredFeatures",
        "systemLanguage"]),
    ("core", |a| a.is_core(), |a| a.is_core(), &["base", "lang", "space"]),
    ("fill", |a| a.is_fill(), |a| a.is_fill(), &["fill", "fill-opacity", "fill-rule"]),
    ("stroke", |a| a.is_stroke(), |a| a.is_stroke(), &["stroke", "stroke-dasharray", "stroke-dashoffset", "stroke-linecap", "stroke-linejoin",
        "stroke-miterlimit", "stroke-opacity", "stroke-width"]),
];

fn default_of(name: &str) -> Option<AttributeValue> {
    let s = |v: &str| Some(AttributeValue::String(v.to_string()));
    match name {
        "alignment-baseline" | "clip" | "color-profile" | "color-rendering" | "cursor" | "dominant-baseline" | "glyph-orientation-vertical"
        | "image-rendering" | "kerning" | "shape-rendering" | "text-rendering" => s("auto"),
        "clip-path" | "filter" | "font-size-adjust" | "marker" | "marker-end" | "marker-mid" | "marker-start" | "mask" | "stroke"
        | "stroke-dasharray" | "text-decoration" => Some(AttributeValue::None),
        "font-stretch" | "font-style" | "font-variant" | "font-weight" | "letter-spacing" | "unicode-bidi" | "word-spacing" => s("normal"),
        "fill" | "flood-color" | "stop-color" => Some(Color::new(0, 0, 0).into()),
        "lighting-color" => Some(Color::new(255, 255, 255).into()),
        "fill-opacity" | "flood-opacity" | "opacity" | "stop-opacity" | "stroke-opacity" => Some(AttributeValue::Number(1.0)),
        "clip-rule" | "fill-rule" => s("nonzero"),
        "baseline-shift" => s("baseline"),
        "color-interpolation" => s("sRGB"),
        "color-interpolation-filters" => s("linearRGB"),
        "direction" => s("ltr"),
        "display" => s("inline"),
        "enable-background" => s("accumulate"),
        "font-size" => s("medium"),
        "glyph-orientation-horizontal" => s("0deg"),
        "stroke-dashoffset" => Some(Length::new(0.0, LengthUnit::None).into()),
        "stroke-linecap" => s("butt"),
        "stroke-linejoin" => s("miter"),
        "stroke-miterlimit" => Some(Length::new(4.0, LengthUnit::None).into()),
        "stroke-width" => Some(Length::new(1.0, LengthUnit::None).into()),
        "text-anchor" => s("start"),
        "visibility" => s("visible"),
        "writing-mode" => s("lr-tb"),
        _ => None,
    }
}

const VPREDS: &[(&str, fn(&AttributeValue) -> bool)] = &[
    ("none", |v| v.is_none()), ("inherit", |v| v.is_inherit()), ("current_color", |v| v.is_current_color()),
    ("aspect_ratio", |v| v.is_aspect_ratio()), ("color", |v| v.is_color()), ("length", |v| v.is_length()),
    ("length_list", |v| v.is_length_list()), ("angle", |v| v.is_angle()), ("link", |v| v.is_link()), ("func_link", |v| v.is_func_link()),
    ("paint", |v| v.is_paint()), ("number", |v| v.is_number()), ("number_list", |v| v.is_number_list()), ("path", |v| v.is_path()),
    ("points", |v| v.is_points()), ("string", |v| v.is_string()), ("transform", |v| v.is_transform()), ("viewbox", |v| v.is_viewbox()),
];

const APREDS: &[(&str, fn(&Attribute) -> bool)] = &[
    ("none", |v| v.is_none()), ("inherit", |v| v.is_inherit()), ("current_color", |v| v.is_current_color()),
    ("aspect_ratio", |v| v.is_aspect_ratio()), ("color", |v| v.is_color()), ("length", |v| v.is_length()),
    ("length_list", |v| v.is_length_list()), ("link", |v| v.is_link()), ("func_link", |v| v.is_func_link()),
    ("paint", |v| v.is_paint()), ("number", |v| v.is_number()), ("number_list", |v| v.is_number_list()), ("path", |v| v.is_path()),
    ("points", |v| v.is_points()), ("string", |v| v.is_string()), ("transform", |v| v.is_transform()), ("viewbox", |v| v.is_viewbox()),
];

fn check_cats(n: &Node, name: Option<&str>, obs: &mut Obs) -> Result<bool, String> {
    let mut any = false;
    for (cat, f, list) in CATS {
        let want = name.map_or(false, |n| list.contains(&n));
        any |= want;
        obs.hit("element predicates");
        ensure!(f(n) == want, "{:?} ({:?}) is {}a {} element", name, n.node_type(), if want { "not " } else { "" }, cat);
    }
    Ok(any)
}

fn c20(r: &mut Rng, ctx: &Ctx, obs: &mut Obs) -> Res {
    let mut doc = Document::new();
    let mut target = doc.create_element(ElementId::LinearGradient);
    target.set_id("t");
    doc.root().append(target.clone());

    // An element in some state.
    let (name, id) = ELEMENTS[ctx.idx as usize % ELEMENTS.len()];
    let mut log = vec![name.to_string()];
    let mut n = doc.create_element(id);
    match r.below(8) {
        0 => { n.set_attribute((AttributeId::Fill, "x")); log.push("attribute".into()); }
        1 => { let _ = n.set_attribute_checked((AttributeId::Fill, target.clone())); log.push("link".into()); }
        2 => { let k = doc.create_element(r.pick(ELEMENTS).1); n.append(k); log.push("child".into()); }
        3 => { doc.root().append(n.clone()); doc.remove_node(n.clone()); n = doc.create_element(id); log.push("after removal".into()); }
        4 => {
            obs.hit("renamed nodes");
            let mut m = if r.chance(50) { doc.create_element(r.pick(ELEMENTS).1) } else { doc.create_element("custom") };
            m.set_tag_name(id);
            n = m;
            log.push("renamed".into());
        }
        5 => { n.set_id("q"); let c = doc.copy_node(n.clone()); n = c; log.push("copy".into()); }
        6 => { let mut p = doc.create_element(r.pick(ELEMENTS).1); p.append(n.clone()); log.push("nested".into()); }
        _ => { n.set_id("rect"); log.push("id".into()); }
    }
    obs.log(log.join(", "));
    let any = check_cats(&n, Some(name), obs)?;
    if any {
        obs.nontrivial(hash_str(&log.join(",")) ^ ctx.idx / 1000);
    }
    // Nodes that are in no category.
    let custom = match r.below(4) { 0 => name.to_uppercase(), 1 => format!("{}x", name), 2 => "foo".to_string(), _ => format!("svg:{}", name) };
    if ELEMENTS.iter().all(|e| e.0 != custom) {
        obs.hit("custom tags");
        let c = doc.create_element(custom.as_str());
        check_cats(&c, None, obs).map_err(|e| format!("custom tag {:?}: {}", custom, e))?;
        let mut m = doc.create_element(id);
        m.set_tag_name(custom.as_str());
        check_cats(&m, None, obs).map_err(|e| format!("renamed to {:?}: {}", custom, e))?;
    }
    obs.hit("non-elements");
    check_cats(&doc.root(), None, obs)?;
    check_cats(&doc.create_node(NodeType::Text, name), None, obs)?;
    check_cats(&doc.create_node(NodeType::Comment, name), None, obs)?;

    // Attributes.
    let (aname, aid) = ATTRIBUTES[ctx.idx as usize % ATTRIBUTES.len()];
    for (cat, f, g, list) in ACATS {
        let want = list.contains(&aname);
        obs.add("attribute predicates", 2);
        ensure!(f(&aid) == want, "{} is {}a {} attribute", aname, if want { "not " } else { "" }, cat);
        ensure!(g(&Attribute::new(aid, "v")) == want, "an attribute {} is {}a {} attribute", aname, if want { "not " } else { "" }, cat);
        ensure!(!g(&Attribute::new("custom", "v")), "a custom attribute is a {} attribute", cat);
    }
    let inh = PRESENTATION.contains(&aname) && !NON_INHERITABLE.contains(&aname);
    ensure!(aid.is_inheritable() == inh, "{}: is_inheritable is {}", aname, !inh);
    ensure!(Attribute::new(aid, 1.0).is_inheritable() == inh, "attribute {}: is_inheritable is {}", aname, !inh);
    ensure!(!Attribute::new("custom", "v").is_inheritable(), "a custom attribute is inheritable");
    obs.hit("defaults");
    let want = default_of(aname);
    let got = AttributeValue::default_value(aid);
    ensure!(got == want, "default of {} is {:?}, expected {:?}", aname, got, want);
    match (Attribute::new_default(aid), want) {
        (None, None) => {}
        (Some(a), Some(w)) => ensure!(a.has_id(aid) && a.id() == Some(aid) && a.is_svg() && a.value == w, "new_default of {} is {:?}", aname, a),
        (a, w) => return Err(format!("new_default of {} is {:?}, expected {:?}", aname, a, w)),
    }

    // Values.
    let vals: Vec<(&str, AttributeValue)> = vec![
        ("none", AttributeValue::None), ("inherit", AttributeValue::Inherit), ("current_color", AttributeValue::CurrentColor),
        ("aspect_ratio", AttributeValue::AspectRatio(AspectRatio { defer: false, align: Align::None, slice: false })),
        ("color", Color::new(r.below(256) as u8, 0, 0).into()), ("length", Length::new(1.0, LengthUnit::Mm).into()),
        ("length", AttributeValue::from((1, LengthUnit::None))), ("length", AttributeValue::from((1.5, LengthUnit::Px))),
        ("length_list", LengthList(vec![Length::new(1.0, LengthUnit::None)]).into()), ("length_list", LengthList(vec![]).into()),
        ("angle", Angle::new(1.0, AngleUnit::Degrees).into()), ("link", AttributeValue::Link(target.clone())),
        ("func_link", AttributeValue::FuncLink(target.clone())), ("paint", AttributeValue::Paint(target.clone(), None)),
        ("paint", AttributeValue::Paint(target.clone(), Some(PaintFallback::None))), ("number", 1.0.into()), ("number", 1.into()),
        ("number_list", NumberList(vec![1.0]).into()), ("number_list", NumberList(vec![]).into()), ("path", Path(vec![]).into()),
        ("path", Path(vec![PathSegment::ClosePath { abs: true }]).into()), ("points", AttributeValue::Points(Points(vec![(1.0, 2.0)]))),
        ("string", "none".into()), ("string", "".into()), ("string", String::from("#a").into()),
        ("transform", Transform::new(1.0, 0.0, 0.0, 1.0, 0.0, 0.0).into()), ("viewbox", ViewBox::new(0.0, 0.0, 1.0, 1.0).into()),
        ("none", PaintFallback::None.into()), ("current_color", PaintFallback::CurrentColor.into()),
        ("color", PaintFallback::Color(Color::new(1, 2, 3)).into()),
    ];
    for (ty, v) in vals {
        for (p, f) in VPREDS {
            obs.hit("value predicates");
            ensure!(f(&v) == (*p == ty), "{:?}: is_{} is {}", v, p, f(&v));
        }
        let container = ["link", "func_link", "paint"].contains(&ty);
        ensure!(v.is_link_container() == container, "{:?}: is_link_container is {}", v, !container);
        let a = Attribute { name: QName::Id(aid), value: v };
        for (p, f) in APREDS {
            ensure!(f(&a) == (*p == ty), "attribute {:?}: is_{} is {}", a, p, f(&a));
        }
        ensure!(a.is_link_container() == container, "attribute {:?}: is_link_container is {}", a, !container);
        // The categories depend on the name alone.
        for (cat, _, g, list) in ACATS {
            ensure!(g(&a) == list.contains(&aname), "the attribute {} is {}a {} attribute", a, if g(&a) { "" } else { "not " }, cat);
        }
        ensure!(a.is_inheritable() == inh, "attribute {}: is_inheritable is {}", a, !inh);
        ensure!(a.is_svg() && a.has_id(aid) && a.id() == Some(aid), "attribute {}: is_svg {}, id {:?}", a, a.is_svg(), a.id());
        let other = ATTRIBUTES[(ctx.idx as usize + 1 + r.below(ATTRIBUTES.len() - 1)) % ATTRIBUTES.len()].1;
        ensure!(!a.has_id(other), "attribute {} has the id {}", a, other);
        let a = Attribute { name: QName::Name(if r.chance(50) { aname.to_uppercase() } else { "data-x".into() }), value: a.value };
        for (p, f) in APREDS {
            ensure!(f(&a) == (*p == ty), "attribute {:?}: is_{} is {}", a, p, f(&a));
        }
        ensure!(a.is_link_container() == container, "attribute {:?}: is_link_container is {}", a, !container);
        for (cat, _, g, _) in ACATS {
            ensure!(!g(&a), "the attribute {} is a {} attribute", a, cat);
        }
        ensure!(!a.is_inheritable() && !a.is_svg() && a.id().is_none() && !a.has_id(aid), "attribute {} with a custom name: {} {} {:?}", a, a.is_inheritable(), a.is_svg(), a.id());
    }
    Ok(())
}
