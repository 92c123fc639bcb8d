//! Canonical descriptions of parsed trees and of expected trees; comparing a tree with its
//! expectation is comparing two lists of lines.
use crate::model::*;
use crate::render::*;
use ginko::dts::{
    AnyDirective, Cell, DtsFile, HasSpan, Node, NodeItem, NodeName, NodePayload, Primary, Property,
    PropertyValue, Reference, Span,
};

pub struct Dump {
    pub lines: Vec<String>,
    spans: bool,
}

pub fn sp(s: Span) -> Sp {
    (
        (s.start().line(), s.start().character()),
        (s.end().line(), s.end().character()),
    )
}

fn name(base: &str, addr: Option<&str>) -> String {
    match addr {
        Some(a) => format!("{base:?} @ {a:?}"),
        None => format!("{base:?}"),
    }
}

fn node_name(n: &NodeName) -> String {
    name(&n.name, n.unit_address.as_deref())
}

pub fn reference(r: &Reference) -> String {
    match r {
        Reference::Label(l) => format!("label {l:?}"),
        Reference::Path(p) => format!("path [{}]", p.iter().map(node_name).collect::<Vec<_>>().join(", ")),
    }
}

pub fn model_reference(r: &Rf) -> String {
    match r {
        Rf::L(l) => format!("label {l:?}"),
        Rf::P(p) => format!(
            "path [{}]",
            p.split('/')
                .filter(|c| !c.is_empty())
                .map(|c| {
                    let (b, a) = split_name(c);
                    name(b, a)
                })
                .collect::<Vec<_>>()
                .join(", ")
        ),
    }
}

impl Dump {
    fn new(spans: bool) -> Dump {
        Dump { lines: vec![], spans }
    }

    fn line(&mut self, depth: usize, text: String, spans: &[Sp]) {
        let mut l = format!("{}{}", "  ".repeat(depth), text);
        if self.spans {
            for s in spans {
                l.push_str(&format!(" @{}:{}-{}:{}", s.0 .0, s.0 .1, s.1 .0, s.1 .1));
            }
        }
        self.lines.push(l);
    }

    // actual

    fn value(&mut self, d: usize, v: &PropertyValue) {
        match v {
            PropertyValue::String(s) => self.line(d, format!("string {:?}", s.item()), &[sp(v.span()), sp(s.span())]),
            PropertyValue::Reference(r) => {
                self.line(d, format!("ref {}", reference(r.item())), &[sp(v.span()), sp(r.span())])
            }
            PropertyValue::Cells(_, cells, _) => {
                self.line(d, format!("cells {}", cells.len()), &[sp(v.span())]);
                for c in cells {
                    match c {
                        Cell::Number(n) => self.line(d + 1, format!("num {}", n.item()), &[sp(n.span())]),
                        Cell::Reference(r) => {
                            self.line(d + 1, format!("ref {}", reference(r.item())), &[sp(r.span())])
                        }
                        Cell::Expression => self.line(d + 1, "expr".into(), &[]),
                    }
                }
            }
            PropertyValue::ByteStrings(_, groups, _) => {
                self.line(d, format!("bytes {}", groups.len()), &[sp(v.span())]);
                for g in groups {
                    self.line(d + 1, format!("group {:?}", g.item()), &[sp(g.span())]);
                }
            }
        }
    }

    pub fn property(&mut self, d: usize, p: &Property) {
        let mut spans = vec![sp(p.span()), sp(p.name.span())];
        if let Some(l) = &p.label {
            spans.push(sp(l.span()));
        }
        self.line(
            d,
            format!(
                "prop {:?} label {:?} values {}",
                p.name.item(),
                p.label.as_ref().map(|l| l.item().clone()),
                p.values.len()
            ),
            &spans,
        );
        for v in &p.values {
            self.value(d + 1, v);
        }
    }

    fn payload(&mut self, d: usize, p: &NodePayload) {
        for it in &p.items {
            match it {
                NodeItem::Property(p) => self.property(d, p),
                NodeItem::Node(n) => self.node(d, n),
                NodeItem::DeletedNode(t, n) => {
                    self.line(d, format!("delete-node {}", node_name(n.item())), &[sp(t.span()), sp(n.span())])
                }
                NodeItem::DeletedProperty(t, n) => {
                    self.line(d, format!("delete-property {:?}", n.item()), &[sp(t.span()), sp(n.span())])
                }
            }
        }
    }

    pub fn node(&mut self, d: usize, n: &Node) {
        let mut spans = vec![sp(n.span()), sp(n.name.span())];
        if let Some(l) = &n.label {
            spans.push(sp(l.span()));
        }
        if let Some(o) = &n.omit_if_no_ref {
            spans.push(sp(o.span()));
        }
        self.line(
            d,
            format!(
                "node {} label {:?} omit {}",
                node_name(n.name.item()),
                n.label.as_ref().map(|l| l.item().clone()),
                n.omit_if_no_ref.is_some()
            ),
            &spans,
        );
        self.payload(d + 1, &n.payload);
    }

    pub fn primary(&mut self, p: &Primary) {
        match p {
            Primary::Directive(d) => match d {
                AnyDirective::DtsHeader(t) => self.line(0, "header".into(), &[sp(t.span())]),
                AnyDirective::Plugin(t) => self.line(0, "plugin".into(), &[sp(t.span())]),
                AnyDirective::Memreserve(m) => self.line(0, format!("memreserve {}", mem(&format!("{m}"))), &[]),
                AnyDirective::Include(i) => self.line(
                    0,
                    format!("include {:?}", i.file_name.item()),
                    &[sp(i.span()), sp(i.file_name.span())],
                ),
                AnyDirective::DeletedNode(t, r) => {
                    self.line(0, format!("delete {}", reference(r.item())), &[sp(t.span()), sp(r.span())])
                }
                AnyDirective::OmitIfNoRef(t, r) => {
                    self.line(0, format!("omit {}", reference(r.item())), &[sp(t.span()), sp(r.span())])
                }
            },
            Primary::CStyleInclude(s) => self.line(0, format!("#include {s:?}"), &[]),
            Primary::Root(n) => {
                self.line(
                    0,
                    format!("root {} label {:?} omit {}", node_name(n.name.item()), n.label.as_ref().map(|l| l.item().clone()), n.omit_if_no_ref.is_some()),
                    &[sp(n.span()), sp(n.name.span())],
                );
                self.payload(1, &n.payload);
            }
            Primary::ReferencedNode(r) => {
                self.line(
                    0,
                    format!("extend {}", reference(r.reference.item())),
                    &[sp(r.span()), sp(r.reference.span())],
                );
                self.payload(1, &r.payload);
            }
        }
    }

    // expected

    fn e_body(&mut self, d: usize, r: &Rendered, b: &EBody) {
        for it in &b.items {
            match it {
                EItem::Prop(p) => {
                    let mut spans = vec![r.prop_sp(p), r.tsp(p.name)];
                    if let Some(l) = p.label {
                        spans.push(r.tsp(l));
                    }
                    self.line(
                        d,
                        format!(
                            "prop {:?} label {:?} values {}",
                            r.toks[p.name].text,
                            p.label.map(|l| label_text(&r.toks[l])),
                            p.vals.len()
                        ),
                        &spans,
                    );
                    for v in &p.vals {
                        self.e_value(d + 1, r, v);
                    }
                }
                EItem::Node(n) => {
                    let mut spans = vec![r.node_sp(n), r.tsp(n.name)];
                    if let Some(l) = n.label {
                        spans.push(r.tsp(l));
                    }
                    if let Some(o) = n.omit {
                        spans.push(r.tsp(o));
                    }
                    let (b, a) = split_name(&r.toks[n.name].text);
                    self.line(
                        d,
                        format!(
                            "node {} label {:?} omit {}",
                            name(b, a),
                            n.label.map(|l| label_text(&r.toks[l])),
                            n.omit.is_some()
                        ),
                        &spans,
                    );
                    self.e_body(d + 1, r, &n.body);
                }
                EItem::DelNode(t, n, _) => {
                    let (b, a) = split_name(&r.toks[*n].text);
                    self.line(d, format!("delete-node {}", name(b, a)), &[r.tsp(*t), r.tsp(*n)])
                }
                EItem::DelProp(t, n, _) => self.line(
                    d,
                    format!("delete-property {:?}", r.toks[*n].text),
                    &[r.tsp(*t), r.tsp(*n)],
                ),
            }
        }
    }

    fn e_value(&mut self, d: usize, r: &Rendered, v: &EVal) {
        let s = r.sp(v.first, v.last);
        match &v.kind {
            EVK::Str(t) => self.line(d, format!("string {t:?}"), &[s, s]),
            EVK::Rf(t, rf) => self.line(d, format!("ref {}", model_reference(rf)), &[s, r.tsp(*t)]),
            EVK::Cells(cells) => {
                self.line(d, format!("cells {}", cells.len()), &[s]);
                for (t, c) in cells {
                    match c {
                        CellD::Num(n) => self.line(d + 1, format!("num {}", n.val.map_or("?".into(), |v| v.to_string())), &[r.tsp(*t)]),
                        CellD::Rf(rf) => self.line(d + 1, format!("ref {}", model_reference(rf)), &[r.tsp(*t)]),
                        CellD::Expr(_) => self.line(d + 1, "expr".into(), &[]),
                    }
                }
            }
            EVK::Bytes(groups) => {
                self.line(d, format!("bytes {}", groups.len()), &[s]);
                for (t, g) in groups {
                    self.line(d + 1, bytes_of(g).map_or("group ?".into(), |b| format!("group {b:?}")), &[r.tsp(*t)]);
                }
            }
        }
    }

    fn e_top(&mut self, r: &Rendered, t: &ETop) {
        match t {
            ETop::Header(t, _) => self.line(0, "header".into(), &[r.tsp(*t)]),
            ETop::Plugin(t, _) => self.line(0, "plugin".into(), &[r.tsp(*t)]),
            ETop::Mem(_, a, b, _) => self.line(
                0,
                format!("memreserve {} {}", a.1.val.map_or("?".into(), |v| v.to_string()), b.1.val.map_or("?".into(), |v| v.to_string())),
                &[],
            ),
            ETop::Inc { dir, file, name, .. } => {
                self.line(0, format!("include {name:?}"), &[r.sp(*dir, *file), r.tsp(*file)])
            }
            ETop::CInc(_, name) => self.line(0, format!("#include {name:?}"), &[]),
            ETop::Root(t, b) => {
                self.line(
                    0,
                    "root \"/\" label None omit false".into(),
                    &[r.sp(*t, r.body_end(b)), r.tsp(*t)],
                );
                self.e_body(1, r, b);
            }
            ETop::Ext(t, rf, b) => {
                self.line(
                    0,
                    format!("extend {}", model_reference(rf)),
                    &[r.sp(*t, r.body_end(b)), r.tsp(*t)],
                );
                self.e_body(1, r, b);
            }
            ETop::Del(d, t, rf, _) => {
                self.line(0, format!("delete {}", model_reference(rf)), &[r.tsp(*d), r.tsp(*t)])
            }
            ETop::Omit(d, t, rf, _) => {
                self.line(0, format!("omit {}", model_reference(rf)), &[r.tsp(*d), r.tsp(*t)])
            }
        }
    }
}

fn label_text(t: &Tok) -> String {
    t.text.strip_suffix(':').unwrap_or(&t.text).to_string()
}

/// The two values of "/memreserve/ 0x1 0x2;" (the only way to get at them)
fn mem(s: &str) -> String {
    s.trim_start_matches("/memreserve/")
        .trim_end_matches(';')
        .split_whitespace()
        .map(|w| {
            w.strip_prefix("0x")
                .and_then(|h| u64::from_str_radix(h, 16).ok())
                .map(|v| v.to_string())
                .unwrap_or_else(|| format!("?{w}"))
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn bytes_of(g: &str) -> Option<Vec<u8>> {
    if g.len() % 2 != 0 || !g.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    let d = |b: u8| (b as char).to_digit(16).unwrap() as u8;
    Some(g.as_bytes().chunks(2).map(|c| d(c[0]) * 16 + d(c[1])).collect())
}

pub fn actual(file: &DtsFile, spans: bool) -> Vec<String> {
    let mut d = Dump::new(spans);
    for p in &file.elements {
        d.primary(p);
    }
    d.lines
}

pub fn actual_primary(p: &Primary, spans: bool) -> Vec<String> {
    let mut d = Dump::new(spans);
    d.primary(p);
    d.lines
}

pub fn actual_node(n: &Node) -> Vec<String> {
    let mut d = Dump::new(false);
    d.node(0, n);
    d.lines
}

pub fn actual_property(n: &Property) -> Vec<String> {
    let mut d = Dump::new(false);
    d.property(0, n);
    d.lines
}

pub fn expected(r: &Rendered, spans: bool) -> Vec<String> {
    let mut d = Dump::new(spans);
    for t in &r.tops {
        d.e_top(r, t);
    }
    d.lines
}

/// "?" in an expected line stands for any one value
fn wild(a: &str, e: &str) -> bool {
    let strip = |s: &str, k: &str| s.trim_start().strip_prefix(k).map(|r| r.to_string());
    if let (Some(a), Some(e)) = (strip(a, "memreserve "), strip(e, "memreserve ")) {
        return a.split(' ').count() == e.split(' ').count()
            && a.split(' ').zip(e.split(' ')).all(|(x, y)| x == y || y == "?");
    }
    for k in ["num ", "group "] {
        if let (Some(a), Some(e)) = (strip(a, k), strip(e, k)) {
            if let Some(e) = e.strip_prefix('?') {
                return a.split_once(" @").map_or("", |x| x.1) == e.split_once(" @").map_or("", |x| x.1);
            }
        }
    }
    false
}

/// Describes the first difference
pub fn diff(actual: &[String], expected: &[String]) -> Option<String> {
    for i in 0..actual.len().max(expected.len()) {
        let a = actual.get(i);
        let e = expected.get(i);
        let same = match (a, e) {
            (Some(a), Some(e)) => a == e || wild(a, e),
            _ => false,
        };
        if !same {
            return Some(format!(
                "line {i}: expected `{}`, got `{}`",
                e.map(|s| s.as_str()).unwrap_or("(nothing)"),
                a.map(|s| s.as_str()).unwrap_or("(nothing)")
            ));
        }
    }
    None
}

/// All references of a file, in source order
pub fn references(file: &DtsFile) -> Vec<(Sp, &Reference)> {
    fn payload<'a>(p: &'a NodePayload, out: &mut Vec<(Sp, &'a Reference)>) {
        for it in &p.items {
            match it {
                NodeItem::Property(p) => {
                    for v in &p.values {
                        match v {
                            PropertyValue::Reference(r) => out.push((sp(r.span()), r.item())),
                            PropertyValue::Cells(_, cells, _) => {
                                for c in cells {
                                    if let ginko::dts::Cell::Reference(r) = c {
                                        out.push((sp(r.span()), r.item()))
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                NodeItem::Node(n) => payload(&n.payload, out),
                _ => {}
            }
        }
    }
    let mut out = vec![];
    for p in &file.elements {
        match p {
            Primary::Root(n) => payload(&n.payload, &mut out),
            Primary::ReferencedNode(n) => {
                out.push((sp(n.reference.span()), n.reference.item()));
                payload(&n.payload, &mut out)
            }
            Primary::Directive(AnyDirective::DeletedNode(_, r)) | Primary::Directive(AnyDirective::OmitIfNoRef(_, r)) => {
                out.push((sp(r.span()), r.item()))
            }
            _ => {}
        }
    }
    out
}

/// The /include/ directives of a file: range and file name
pub fn includes(file: &DtsFile) -> Vec<(Sp, String)> {
    file.elements
        .iter()
        .filter_map(|p| match p {
            Primary::Directive(AnyDirective::Include(i)) => Some((sp(i.span()), i.file_name.item().clone())),
            _ => None,
        })
        .collect()
}

/// The elements of a tree that an outline lists, with their depth
pub fn shape(f: &DtsFile) -> Vec<(usize, &'static str)> {
    fn payload(p: &NodePayload, depth: usize, out: &mut Vec<(usize, &'static str)>) {
        for i in &p.items {
            match i {
                NodeItem::Property(_) | NodeItem::DeletedProperty(..) => out.push((depth, "property")),
                NodeItem::DeletedNode(..) => out.push((depth, "node")),
                NodeItem::Node(n) => {
                    out.push((depth, "node"));
                    payload(&n.payload, depth + 1, out);
                }
            }
        }
    }
    let mut out = vec![];
    for e in &f.elements {
        match e {
            Primary::Root(n) => {
                out.push((0, "node"));
                payload(&n.payload, 1, &mut out);
            }
            Primary::ReferencedNode(n) => {
                out.push((0, "node"));
                payload(&n.payload, 1, &mut out);
            }
            Primary::Directive(AnyDirective::Include(_)) => out.push((0, "include")),
            Primary::Directive(AnyDirective::DeletedNode(..)) => out.push((0, "node")),
            Primary::Directive(AnyDirective::OmitIfNoRef(..)) => out.push((0, "omit")),
            _ => {}
        }
    }
    out
}
