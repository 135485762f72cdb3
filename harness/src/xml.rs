//! Abstract XML documents and a serializer that can spell the same document in many ways.

use crate::rng::Rng;

pub const SVG_NS: &str = "http://www.w3.org/2000/svg";
pub const XLINK_NS: &str = "http://www.w3.org/1999/xlink";
pub const FOREIGN: &[&str] = &["http://example.org/foreign", "urn:x-meta:1", "http://www.w3.org/2000/svg/",
    "http://www.w3.org/1999/xhtml", "http://www.w3.org/2000/SVG", "https://www.w3.org/2000/svg", "http://www.w3.org/1999/xlink/",
    "http://www.w3.org/1999/Xlink", "http://www.inkscape.org/namespaces/inkscape", "http://www.w3.org/2000/sv", "http://www.w3.org/2000/svg1",
    "http://www.w3.org/1998/Math/MathML", " http://www.w3.org/2000/svg", "svg", "xlink"];

#[derive(Clone, PartialEq, Debug)]
pub enum X {
    E(E),
    T(String),
    C(String),
    Pi(String, String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ns {
    Svg,
    Null,
    Foreign(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ANs {
    None,
    Xlink,
    Xml,
    Svg,
    Foreign(usize),
}

#[derive(Clone, PartialEq, Debug)]
pub struct A {
    pub ns: ANs,
    pub name: String,
    pub value: String,
}

#[derive(Clone, PartialEq, Debug)]
pub struct E {
    pub ns: Ns,
    pub name: String,
    pub attrs: Vec<A>,
    pub kids: Vec<X>,
}

impl E {
    pub fn svg(name: &str) -> E {
        E { ns: Ns::Svg, name: name.to_string(), attrs: Vec::new(), kids: Vec::new() }
    }

    pub fn attr(&mut self, name: &str, value: &str) {
        let (ns, local) = if name == "xlink:href" {
            (ANs::Xlink, "href")
        } else if let Some(l) = name.strip_prefix("xml:") {
            (ANs::Xml, l)
        } else {
            (ANs::None, name)
        };
        self.attrs.push(A { ns, name: local.to_string(), value: value.to_string() });
    }

    pub fn has(&self, ns: ANs, name: &str) -> bool {
        self.attrs.iter().any(|a| a.ns == ns && a.name == name)
    }
}

/// Spelling choices. Without a generator everything is written the plain way.
pub struct Spell {
    r: Option<Rng>,
    svg_prefix: &'static str,
    xlink_prefix: &'static str,
    local_decls: bool,
    crlf: bool,
    entities: Vec<(String, String)>,
    pub used: std::collections::BTreeSet<&'static str>,
    single: bool,
}

fn is_plain(c: char) -> bool {
    c.is_ascii_alphanumeric() || (c as u32) > 0x9f
}

impl Spell {
    pub fn plain() -> Spell {
        Spell {
            r: None, svg_prefix: "", xlink_prefix: "xlink", local_decls: false, crlf: false,
            entities: Vec::new(), used: Default::default(), single: false,
        }
    }

    pub fn random(seed: u64) -> Spell {
        let mut r = Rng::new(seed);
        let mut s = Spell::plain();
        if r.chance(50) {
            s.svg_prefix = *r.pick(&["s", "svg", "my-ns", "scalable-vector", "S", "é", "_", "xsvg", "svg.1", "xlink-svg"]);
            s.used.insert("svg prefix");
        }
        s.xlink_prefix = *r.pick(&["xlink", "xl", "x", "the-xlink-namespace", "XLINK", "l.1", "ж"]);
        s.local_decls = r.chance(40);
        if s.local_decls {
            s.used.insert("local namespace declarations");
        }
        s.crlf = r.chance(25);
        s.single = r.chance(50);
        s.r = Some(r);
        s
    }

    fn yes(&mut self, pct: usize, what: &'static str) -> bool {
        match self.r {
            Some(ref mut r) => {
                let v = r.chance(pct);
                if v {
                    self.used.insert(what);
                }
                v
            }
            None => false,
        }
    }

    fn n(&mut self, n: usize) -> usize {
        match self.r {
            Some(ref mut r) => r.below(n),
            None => 0,
        }
    }

    fn space(&mut self, must: bool) -> &'static str {
        if self.r.is_none() {
            return if must { " " } else { "" };
        }
        if must {
            let v = ["\n", "  ", "\t", " \n  "];
            if self.yes(25, "whitespace in tags") { v[self.n(4)] } else { " " }
        } else {
            let v = [" ", "\n", "\t "];
            if self.yes(12, "whitespace in tags") { v[self.n(3)] } else { "" }
        }
    }

    fn char_ref(&mut self, c: char) -> String {
        match self.n(3) {
            0 => format!("&#{};", c as u32),
            1 => format!("&#x{:x};", c as u32),
            _ => format!("&#x{:X};", c as u32),
        }
    }

    /// Tries to spell a few characters at `i` as an entity. Returns how many.
    fn entity(&mut self, s: &[char], i: usize, out: &mut String) -> usize {
        let len = 1 + self.n(4);
        let mut v = String::new();
        let mut k = 0;
        while k < len && i + k < s.len() && is_plain(s[i + k]) {
            v.push(s[i + k]);
            k += 1;
        }
        if k == 0 {
            return 0;
        }
        let name = match self.entities.iter().find(|e| e.1 == v) {
            Some(e) => e.0.clone(),
            None => {
                let n = format!("e{}", self.entities.len());
                self.entities.push((n.clone(), v));
                n
            }
        };
        out.push_str(&format!("&{};", name));
        k
    }

    fn text(&mut self, t: &str, out: &mut String) {
        let s: Vec<char> = t.chars().collect();
        let mut i = 0;
        let mut cdata = false;
        while i < s.len() {
            let c = s[i];
            if cdata {
                if self.yes(15, "CDATA") || (c == '>' && i >= 2 && s[i - 1] == ']') || c == '\r' {
                    out.push_str("]]>");
                    cdata = false;
                } else {
                    self.raw(c, out);
                    i += 1;
                }
                continue;
            }
            if c != '\r' && self.yes(3, "CDATA") {
                out.push_str("<![CDATA[");
                cdata = true;
                continue;
            }
            if self.yes(2, "entity references") {
                let k = self.entity(&s, i, out);
                if k > 0 {
                    i += k;
                    continue;
                }
            }
            match c {
                '&' => if self.yes(40, "character references") { let x = self.char_ref(c); out.push_str(&x) } else { out.push_str("&amp;") },
                '<' => if self.yes(40, "character references") { let x = self.char_ref(c); out.push_str(&x) } else { out.push_str("&lt;") },
                '>' => out.push_str("&gt;"),
                '\r' => out.push_str("&#xD;"),
                c => {
                    if self.yes(5, "character references") {
                        let x = self.char_ref(c);
                        out.push_str(&x);
                    } else {
                        self.raw(c, out);
                    }
                }
            }
            i += 1;
        }
        if cdata {
            out.push_str("]]>");
        }
    }

    fn raw(&mut self, c: char, out: &mut String) {
        if c == '\n' && self.crlf {
            self.used.insert("CRLF");
            out.push_str("\r\n");
        } else {
            out.push(c);
        }
    }

    fn value(&mut self, v: &str, out: &mut String) {
        let single = if self.r.is_some() {
            if self.yes(20, "mixed quotes") { !self.single } else { self.single }
        } else {
            false
        };
        let q = if single { '\'' } else { '"' };
        if single {
            self.used.insert("single quotes");
        }
        out.push(q);
        let s: Vec<char> = v.chars().collect();
        let mut i = 0;
        while i < s.len() {
            let c = s[i];
            if self.yes(2, "entity references") {
                let k = self.entity(&s, i, out);
                if k > 0 {
                    i += k;
                    continue;
                }
            }
            match c {
                '&' => if self.yes(40, "character references") { let x = self.char_ref(c); out.push_str(&x) } else { out.push_str("&amp;") },
                '<' => if self.yes(40, "character references") { let x = self.char_ref(c); out.push_str(&x) } else { out.push_str("&lt;") },
                '"' if q == '"' => out.push_str("&quot;"),
                '\'' if q == '\'' => out.push_str("&apos;"),
                '\n' | '\t' | '\r' => { let x = format!("&#x{:x};", c as u32); out.push_str(&x) }
                ' ' if self.yes(4, "line break for a space in a value") => out.push(if self.n(2) == 0 { '\n' } else { '\t' }),
                c => {
                    if self.yes(4, "character references") {
                        let x = self.char_ref(c);
                        out.push_str(&x);
                    } else {
                        out.push(c);
                    }
                }
            }
            i += 1;
        }
        out.push(q);
    }

    fn one_attr(&mut self, name: &str, v: &str, out: &mut String) {
        let s = self.space(true);
        out.push_str(s);
        out.push_str(name);
        let s = self.space(false);
        out.push_str(s);
        out.push('=');
        let s = self.space(false);
        out.push_str(s);
        self.value(v, out);
    }

    fn raw_attr(&mut self, name: &str, v: &str, out: &mut String) {
        let q = if self.single { '\'' } else { '"' };
        let s = self.space(true);
        out.push_str(&format!("{}{}={}{}{}", s, name, q, v, q));
    }

    /// `default`: the default namespace in scope. `top`: the document element.
    fn elem(&mut self, e: &E, default: &str, top: bool, out: &mut String) {
        let mut decls: Vec<(String, String)> = Vec::new();
        let mut default = default.to_string();
        let qname = match e.ns {
            Ns::Svg => {
                if self.svg_prefix.is_empty() {
                    if default != SVG_NS {
                        decls.push(("xmlns".into(), SVG_NS.into()));
                        default = SVG_NS.to_string();
                    }
                    e.name.clone()
                } else {
                    if top {
                        decls.push((format!("xmlns:{}", self.svg_prefix), SVG_NS.into()));
                    }
                    format!("{}:{}", self.svg_prefix, e.name)
                }
            }
            Ns::Null => {
                if !default.is_empty() {
                    decls.push(("xmlns".into(), String::new()));
                    default = String::new();
                }
                e.name.clone()
            }
            Ns::Foreign(i) => {
                if self.yes(40, "foreign default namespace") {
                    if default != FOREIGN[i] {
                        decls.push(("xmlns".into(), FOREIGN[i].into()));
                        default = FOREIGN[i].to_string();
                    }
                    e.name.clone()
                } else {
                    if self.local_decls {
                        decls.push((format!("xmlns:f{}", i), FOREIGN[i].into()));
                    }
                    format!("f{}:{}", i, e.name)
                }
            }
        };
        if top {
            if !self.svg_prefix.is_empty() && e.ns != Ns::Svg {
                decls.push((format!("xmlns:{}", self.svg_prefix), SVG_NS.into()));
            }
            if !self.local_decls {
                decls.push((format!("xmlns:{}", self.xlink_prefix), XLINK_NS.into()));
                fn used(e: &E, v: &mut [bool]) {
                    if let Ns::Foreign(i) = e.ns {
                        v[i] = true;
                    }
                    for a in &e.attrs {
                        if let ANs::Foreign(i) = a.ns {
                            v[i] = true;
                        }
                    }
                    for k in &e.kids {
                        if let X::E(c) = k {
                            used(c, v);
                        }
                    }
                }
                let mut v = vec![false; FOREIGN.len()];
                v[0] = true;
                used(e, &mut v);
                for (i, f) in FOREIGN.iter().enumerate() {
                    if v[i] {
                        decls.push((format!("xmlns:f{}", i), f.to_string()));
                    }
                }
            }
        }
        let mut list: Vec<(String, String)> = Vec::new();
        for a in &e.attrs {
            let name = match a.ns {
                ANs::None => a.name.clone(),
                ANs::Xml => format!("xml:{}", a.name),
                ANs::Svg => {
                    let p = if self.svg_prefix.is_empty() { "sv" } else { self.svg_prefix };
                    let d = (format!("xmlns:{}", p), SVG_NS.to_string());
                    if self.svg_prefix.is_empty() && !decls.contains(&d) {
                        decls.push(d);
                    }
                    format!("{}:{}", p, a.name)
                }
                ANs::Xlink => {
                    let p = self.xlink_prefix;
                    let d = (format!("xmlns:{}", p), XLINK_NS.to_string());
                    if self.local_decls && !decls.contains(&d) {
                        decls.push(d);
                    }
                    format!("{}:{}", p, a.name)
                }
                ANs::Foreign(i) => {
                    let d = (format!("xmlns:f{}", i), FOREIGN[i].to_string());
                    if self.local_decls && !decls.contains(&d) {
                        decls.push(d);
                    }
                    format!("f{}:{}", i, a.name)
                }
            };
            list.push((name, a.value.clone()));
        }
        out.push('<');
        out.push_str(&qname);
        let first = self.n(2) == 0;
        if self.r.is_some() && list.len() > 1 && self.yes(60, "attribute order") {
            let mut r = self.r.take().unwrap();
            r.shuffle(&mut list);
            self.r = Some(r);
        }
        if first {
            for (n, v) in &decls {
                self.raw_attr(n, v, out);
            }
        }
        for (n, v) in &list {
            self.one_attr(n, v, out);
        }
        if !first {
            for (n, v) in &decls {
                self.raw_attr(n, v, out);
            }
        }
        let s = self.space(false);
        out.push_str(s);
        if e.kids.is_empty() && !self.yes(40, "start-end tag pairs") {
            out.push_str("/>");
            return;
        }
        out.push('>');
        for k in &e.kids {
            self.node(k, &default, out);
        }
        out.push_str("</");
        out.push_str(&qname);
        let s = self.space(false);
        out.push_str(s);
        out.push('>');
    }

    fn node(&mut self, x: &X, default: &str, out: &mut String) {
        match x {
            X::E(e) => self.elem(e, default, false, out),
            X::T(t) => self.text(t, out),
            X::C(c) => {
                out.push_str("<!--");
                for ch in c.chars() {
                    self.raw(ch, out);
                }
                out.push_str("-->");
            }
            X::Pi(a, b) => out.push_str(&format!("<?{} {}?>", a, b)),
        }
    }

    pub fn write(&mut self, top: &[X]) -> String {
        let mut body = String::new();
        let has_doctype_place = matches!(top.first(), Some(X::E(_)));
        for x in top {
            match x {
                X::E(e) => self.elem(e, "", true, &mut body),
                x => self.node(x, "", &mut body),
            }
            if self.yes(20, "line breaks between top-level nodes") {
                body.push('\n');
            }
        }
        let mut out = String::new();
        if self.yes(4, "BOM") {
            out.push('\u{feff}');
        }
        if self.yes(40, "XML declaration") {
            out.push_str(["<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>\n",
                          "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"no\"?>"][self.n(3)]);
        }
        let _ = has_doctype_place;
        if !self.entities.is_empty() {
            out.push_str("<!DOCTYPE svg [");
            for (n, v) in self.entities.clone() {
                out.push_str(&format!("<!ENTITY {} \"{}\">\n", n, v));
            }
            out.push_str("]>");
            self.used.insert("DOCTYPE");
        } else if self.yes(30, "DOCTYPE") {
            out.push_str(["<!DOCTYPE svg>", "<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \
                          \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">\n"][self.n(2)]);
        }
        out.push_str(&body);
        out
    }
}

pub fn to_xml(top: &[X]) -> String {
    Spell::plain().write(top)
}

/// What an independent XML parser makes of a text.
pub fn canon(text: &str) -> Result<Vec<String>, String> {
    let doc = roxmltree::Document::parse(text).map_err(|e| e.to_string())?;
    let mut v = Vec::new();
    fn walk(n: roxmltree::Node, d: usize, v: &mut Vec<String>) {
        for c in n.children() {
            if c.is_element() {
                let mut a: Vec<String> = c.attributes().iter()
                    .map(|a| format!("{:?}{}={:?}", a.namespace(), a.name(), a.value())).collect();
                a.sort();
                v.push(format!("{} <{:?}{} {:?}>", d, c.tag_name().namespace(), c.tag_name().name(), a));
                walk(c, d + 1, v);
            } else if c.is_text() {
                v.push(format!("{} {:?}", d, c.text()));
            } else if c.is_comment() {
                v.push(format!("{} <!--{:?}", d, c.text()));
            } else if c.is_pi() {
                v.push(format!("{} <?{:?}", d, c.pi()));
            }
        }
    }
    walk(doc.root(), 0, &mut v);
    Ok(v)
}

/// A strict check of well-formedness: the XML parser used by the library forgives some errors.
pub fn strict(text: &str) -> Result<(), String> {
    let s: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut open: Vec<String> = Vec::new();
    let mut roots = 0;
    let at = |i: usize, p: &str| p.chars().enumerate().all(|(k, c)| s.get(i + k) == Some(&c));
    let find = |mut i: usize, p: &str| {
        while i < s.len() {
            if p.chars().enumerate().all(|(k, c)| s.get(i + k) == Some(&c)) {
                return Some(i);
            }
            i += 1;
        }
        None
    };
    fn name_ok(n: &str) -> bool {
        let mut it = n.chars();
        match it.next() {
            Some(c) if c.is_alphabetic() || c == '_' || c == ':' => {}
            _ => return false,
        }
        it.all(|c| c.is_alphanumeric() || "_:-.\u{b7}".contains(c))
    }
    fn reference(s: &[char], i: usize) -> Result<usize, String> {
        let end = (i..s.len().min(i + 16)).find(|&k| s[k] == ';').ok_or_else(|| "a raw ampersand".to_string())?;
        let n: String = s[i + 1..end].iter().collect();
        let ok = match n.as_str() {
            "amp" | "lt" | "gt" | "quot" | "apos" => true,
            _ => {
                let code = if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() }
                    else if let Some(d) = n.strip_prefix('#') { d.parse().ok() } else { None };
                match code.and_then(std::char::from_u32) {
                    Some(c) => c >= ' ' || "\t\n\r".contains(c),
                    None => false,
                }
            }
        };
        if ok { Ok(end + 1) } else { Err(format!("a bad reference &{};", n)) }
    }
    while i < s.len() {
        let c = s[i];
        if at(i, "<!--") {
            let e = find(i + 4, "--").ok_or("an unclosed comment")?;
            if s.get(e + 2) != Some(&'>') {
                return Err("'--' inside a comment".into());
            }
            i = e + 3;
        } else if at(i, "</") {
            let e = find(i, ">").ok_or("an unclosed end tag")?;
            let n: String = s[i + 2..e].iter().collect();
            match open.pop() {
                Some(ref o) if *o == n.trim_end() => {}
                o => return Err(format!("</{}> closes {:?}", n, o)),
            }
            i = e + 1;
        } else if c == '<' {
            i += 1;
            let st = i;
            while i < s.len() && !s[i].is_whitespace() && s[i] != '>' && s[i] != '/' {
                i += 1;
            }
            let n: String = s[st..i].iter().collect();
            if !name_ok(&n) {
                return Err(format!("a bad tag name {:?}", n));
            }
            if open.is_empty() {
                roots += 1;
            }
            let mut names: Vec<String> = Vec::new();
            loop {
                let ws = i;
                while i < s.len() && s[i].is_whitespace() {
                    i += 1;
                }
                if at(i, "/>") {
                    i += 2;
                    break;
                }
                match s.get(i) {
                    None => return Err("an unclosed tag".into()),
                    Some('>') => {
                        i += 1;
                        open.push(n);
                        break;
                    }
                    _ => {}
                }
                if ws == i {
                    return Err(format!("no space before an attribute of {}", n));
                }
                let st = i;
                while i < s.len() && s[i] != '=' && !s[i].is_whitespace() && s[i] != '>' {
                    i += 1;
                }
                let an: String = s[st..i].iter().collect();
                if !name_ok(&an) {
                    return Err(format!("a bad attribute name {:?}", an));
                }
                if names.contains(&an) {
                    return Err(format!("two attributes {}", an));
                }
                if s.get(i) != Some(&'=') {
                    return Err(format!("no value for {}", an));
                }
                i += 1;
                let q = *s.get(i).ok_or("no value")?;
                if q != '"' && q != '\'' {
                    return Err(format!("no quote before the value of {}", an));
                }
                i += 1;
                loop {
                    match s.get(i) {
                        None => return Err(format!("unclosed value of {}", an)),
                        Some('<') => return Err(format!("'<' in the value of {}", an)),
                        Some('&') => i = reference(&s, i).map_err(|e| format!("{} in the value of {}", e, an))?,
                        Some(c) if *c == q => break,
                        Some(c) if *c < ' ' && !"\t\n\r".contains(*c) => return Err("a control character".into()),
                        _ => i += 1,
                    }
                }
                i += 1;
                names.push(an);
            }
        } else {
            if open.is_empty() && !c.is_whitespace() {
                return Err("text outside of the document element".into());
            }
            if at(i, "]]>") {
                return Err("']]>' in a text".into());
            }
            if c == '&' {
                i = reference(&s, i)?;
            } else if c < ' ' && !"\t\n\r".contains(c) {
                return Err("a control character".into());
            } else {
                i += 1;
            }
        }
    }
    if !open.is_empty() {
        return Err(format!("{:?} are not closed", open));
    }
    if roots != 1 {
        return Err(format!("{} document elements", roots));
    }
    Ok(())
}
