//! Turns a model document into tokens, lays the tokens out, and knows where everything is.
use crate::engine::Src;
use crate::model::*;

pub type Pos = (u32, u32);
pub type Sp = (Pos, Pos);
pub type T = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Word,
    Num,
    LRef,
    PRef,
    Label,
    Str,
    Punct,
    Slash,
    Dir,
    Expr,
    /// anything else, e.g. stray characters
    Junk,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub kind: K,
    pub start: Pos,
    pub end: Pos,
    /// byte offsets into the rendered text
    pub off: usize,
    pub absent: bool,
}

impl Tok {
    pub fn new(kind: K, text: impl Into<String>) -> Tok {
        Tok { text: text.into(), kind, start: (0, 0), end: (0, 0), off: 0, absent: false }
    }
}

#[derive(Clone, Debug)]
pub enum EVK {
    Str(String),
    Cells(Vec<(T, CellD)>),
    Rf(T, Rf),
    Bytes(Vec<(T, String)>),
}

#[derive(Clone, Debug)]
pub struct EVal {
    pub first: T,
    pub last: T,
    /// first and last token including labels and /bits/
    pub outer: (T, T),
    pub kind: EVK,
    pub bits: Option<T>,
}

#[derive(Clone, Debug)]
pub struct EProp {
    pub omit: Option<T>,
    pub label: Option<T>,
    pub name: T,
    pub eq: Option<T>,
    pub vals: Vec<EVal>,
    pub semi: T,
}

#[derive(Clone, Debug)]
pub struct ENode {
    pub omit: Option<T>,
    pub label: Option<T>,
    pub name: T,
    pub body: EBody,
}

#[derive(Clone, Debug)]
pub enum EItem {
    Prop(EProp),
    Node(ENode),
    DelNode(T, T, T),
    DelProp(T, T, T),
}

#[derive(Clone, Debug)]
pub struct EBody {
    pub items: Vec<EItem>,
    pub open: T,
    pub close: T,
    pub semi: T,
}

#[derive(Clone, Debug)]
pub enum ETop {
    Header(T, T),
    Plugin(T, T),
    Mem(T, (T, Num), (T, Num), T),
    Inc { dir: T, file: T, name: String, semi: Option<T> },
    CInc(T, String),
    Root(T, EBody),
    Ext(T, Rf, EBody),
    Del(T, T, Rf, T),
    Omit(T, T, Rf, T),
}

pub struct Rendered {
    pub toks: Vec<Tok>,
    pub tops: Vec<ETop>,
    pub text: String,
}

pub fn escape(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}

#[derive(Default)]
pub struct Emit {
    pub toks: Vec<Tok>,
}

impl Emit {
    fn t(&mut self, kind: K, text: impl Into<String>) -> T {
        self.toks.push(Tok::new(kind, text));
        self.toks.len() - 1
    }
    fn p(&mut self, text: &str) -> T {
        self.t(K::Punct, text)
    }
    fn label(&mut self, l: &Option<String>) -> Option<T> {
        l.as_ref().map(|l| self.t(K::Label, format!("{l}:")))
    }
    fn rf(&mut self, r: &Rf) -> T {
        let k = if matches!(r, Rf::L(_)) { K::LRef } else { K::PRef };
        self.t(k, r.text())
    }
    fn val(&mut self, v: &Val) -> EVal {
        let begin = self.toks.len();
        self.label(&v.pre);
        let bits = v.bits.as_ref().map(|b| {
            let t = self.t(K::Dir, "/bits/");
            self.t(K::Num, b.clone());
            t
        });
        let first = self.toks.len();
        let kind = match &v.kind {
            VK::Str(s) => {
                self.t(K::Str, escape(s));
                EVK::Str(s.clone())
            }
            VK::Rf(r) => EVK::Rf(self.rf(r), r.clone()),
            VK::Cells(cells, trail) => {
                self.p("<");
                let mut out = vec![];
                for (l, c) in cells {
                    self.label(l);
                    let t = match c {
                        CellD::Num(n) => self.t(K::Num, n.text.clone()),
                        CellD::Rf(r) => self.rf(r),
                        CellD::Expr(toks) => {
                            let t = self.p("(");
                            for e in toks {
                                self.t(K::Expr, e.clone());
                            }
                            self.t(K::Punct, ")");
                            t
                        }
                    };
                    out.push((t, c.clone()));
                }
                self.label(trail);
                self.p(">");
                EVK::Cells(out)
            }
            VK::Bytes(groups, trail) => {
                self.p("[");
                let mut out = vec![];
                for (l, g) in groups {
                    self.label(l);
                    out.push((self.t(K::Word, g.clone()), g.clone()));
                }
                self.label(trail);
                self.p("]");
                EVK::Bytes(out)
            }
        };
        let last = self.toks.len() - 1;
        self.label(&v.post);
        EVal { first, last, outer: (begin, self.toks.len() - 1), kind, bits }
    }
    fn prop(&mut self, p: &Prop) -> EProp {
        let omit = p.omit.then(|| self.t(K::Dir, "/omit-if-no-ref/"));
        let label = self.label(&p.label);
        let name = self.t(K::Word, p.name.clone());
        let mut eq = None;
        let mut vals = vec![];
        if !p.vals.is_empty() {
            eq = Some(self.p("="));
            for (i, v) in p.vals.iter().enumerate() {
                if i > 0 {
                    self.p(",");
                }
                vals.push(self.val(v));
            }
        }
        let semi = self.p(";");
        EProp { omit, label, name, eq, vals, semi }
    }
    pub fn body(&mut self, b: &Body) -> EBody {
        let open = self.p("{");
        let mut items = vec![];
        for it in &b.items {
            items.push(match it {
                Item::Prop(p) => EItem::Prop(self.prop(p)),
                Item::Node(n) => {
                    let omit = n.omit.then(|| self.t(K::Dir, "/omit-if-no-ref/"));
                    let label = self.label(&n.label);
                    let name = self.t(K::Word, n.name.clone());
                    let body = self.body(&n.body);
                    EItem::Node(ENode { omit, label, name, body })
                }
                Item::DelNode(n) => {
                    let d = self.t(K::Dir, "/delete-node/");
                    let n = self.t(K::Word, n.clone());
                    EItem::DelNode(d, n, self.p(";"))
                }
                Item::DelProp(n) => {
                    let d = self.t(K::Dir, "/delete-property/");
                    let n = self.t(K::Word, n.clone());
                    EItem::DelProp(d, n, self.p(";"))
                }
            });
        }
        let close = self.p("}");
        let semi = self.p(";");
        EBody { items, open, close, semi }
    }
    pub fn top(&mut self, t: &Top) -> ETop {
        match t {
            Top::Header => {
                let t = self.t(K::Dir, "/dts-v1/");
                ETop::Header(t, self.p(";"))
            }
            Top::Plugin => {
                let t = self.t(K::Dir, "/plugin/");
                ETop::Plugin(t, self.p(";"))
            }
            Top::Mem(a, b) => {
                let t = self.t(K::Dir, "/memreserve/");
                let x = self.t(K::Num, a.text.clone());
                let y = self.t(K::Num, b.text.clone());
                ETop::Mem(t, (x, a.clone()), (y, b.clone()), self.p(";"))
            }
            Top::Inc(name, semi) => {
                let dir = self.t(K::Dir, "/include/");
                let file = self.t(K::Str, escape(name));
                let semi = semi.then(|| self.p(";"));
                ETop::Inc { dir, file, name: name.clone(), semi }
            }
            Top::CInc(name) => {
                let t = self.t(K::Word, "#include");
                self.t(K::Str, escape(name));
                ETop::CInc(t, name.clone())
            }
            Top::Root(b) => {
                let t = self.t(K::Slash, "/");
                ETop::Root(t, self.body(b))
            }
            Top::Ext(r, b) => {
                let t = self.rf(r);
                ETop::Ext(t, r.clone(), self.body(b))
            }
            Top::Del(r) => {
                let d = self.t(K::Dir, "/delete-node/");
                let t = self.rf(r);
                ETop::Del(d, t, r.clone(), self.p(";"))
            }
            Top::Omit(r) => {
                let d = self.t(K::Dir, "/omit-if-no-ref/");
                let t = self.rf(r);
                ETop::Omit(d, t, r.clone(), self.p(";"))
            }
        }
    }
}

pub fn emit(doc: &Doc) -> (Vec<Tok>, Vec<ETop>) {
    let mut e = Emit::default();
    let tops = doc.tops.iter().map(|t| e.top(t)).collect();
    (e.toks, tops)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// one blank or newline between tokens
    Plain,
    /// any whitespace, comments, or nothing where possible
    Rich,
}

fn wordish(c: char) -> bool {
    c.is_ascii_alphanumeric() || ",._+-?#@:".contains(c)
}

fn must_separate(a: &Tok, b: &Tok) -> bool {
    let first = b.text.chars().next().unwrap_or(' ');
    let last = a.text.chars().last().unwrap_or(' ');
    match a.kind {
        K::Word | K::Num => wordish(first) || a.kind == K::Word && last == '@',
        K::LRef => first.is_ascii_alphanumeric() || first == '_' || a.text == "&",
        K::Slash => first.is_ascii_alphabetic() || first == '/' || first == '*',
        K::Expr if b.kind == K::Expr => {
            wordish(last) && wordish(first)
                || last == '/' && (first.is_ascii_alphabetic() || "/*".contains(first))
                || last == '&' && wordish(first)
        }
        K::Expr => b.text != ")",
        K::Junk => true,
        _ => b.kind == K::Junk || b.kind == K::Expr && a.text != "(",
    }
}

fn blank(src: &mut Src, out: &mut String) {
    match src.u(11) {
        0..=3 => out.push(' '),
        4 => out.push('\n'),
        5 => out.push('\t'),
        6 => out.push_str("\r\n"),
        7 => out.push_str("    "),
        8 => out.push_str("\n\n\t "),
        9 => out.push('\r'),
        _ => out.push('\u{c}'),
    }
}

fn comment_text(src: &mut Src, line: bool) -> String {
    let mut s = String::new();
    let n = match src.u(8) {
        7 => src.u(60),
        _ => src.u(6),
    };
    for _ in 0..n {
        match src.u(9) {
            0..=2 => s.push((b'a' + src.u(26) as u8) as char),
            3 => s.push(' '),
            4 => s.push(*src.pick_of(&[';', '{', '}', '"', '\'', '&', '<', '>', '=', '(', '\\', '#', ':', '@', '/', '*', '[', ']'])),
            5 => s.push_str(src.pick(&["/*", "//", "/dts-v1/;", "};", "a: b {", "\\\"", "**", "* ", "/ "])),
            6 => s.push(*src.pick_of(&['é', '漢', '€', '\u{2028}', '\u{301}'])),
            7 => s.push(*src.pick_of(&['😀', '𝒳'])),
            _ => match src.u(4) {
                3 => s.push(*src.pick_of(&['\r', '\r', '\u{b}', '\u{c}', '\0', '\u{85}', '\u{a0}', '\u{feff}'])),
                _ if !line => s.push('\n'),
                _ => s.push('\t'),
            },
        }
    }
    if line {
        s.replace('\n', " ")
    } else {
        while s.contains("*/") {
            s = s.replace("*/", "* /");
        }
        s
    }
}

fn comment(src: &mut Src, out: &mut String) {
    if src.u(2) == 0 {
        out.push_str("/*");
        let t = comment_text(src, false);
        out.push_str(&t);
        // "/*/" would not be closed by its own start
        out.push_str("*/");
    } else {
        out.push_str("//");
        let t = comment_text(src, true);
        out.push_str(&t);
        if src.u(4) == 3 {
            out.push_str("\r\n");
        } else {
            out.push('\n');
        }
    }
}

fn gap(src: &mut Src, a: Option<&Tok>, b: Option<&Tok>, style: Style, out: &mut String) {
    if style == Style::Plain {
        match (a, b) {
            (None, _) => {}
            (Some(_), None) => out.push('\n'),
            (Some(a), Some(b)) => {
                if matches!(b.text.as_str(), ";" | "," | ">" | "]") && b.kind == K::Punct && !must_separate(a, b) {
                } else if matches!(a.text.as_str(), ";" | "{") && a.kind == K::Punct {
                    out.push('\n')
                } else {
                    out.push(' ')
                }
            }
        }
        return;
    }
    let separate = match (a, b) {
        (Some(a), Some(b)) => must_separate(a, b),
        _ => false,
    };
    let slashy = a.is_some_and(|a| a.kind == K::Slash || a.kind == K::Expr || a.kind == K::Junk);
    match src.weighted(&[6, 6, 3, 2]) {
        0 => {
            if separate {
                out.push(' ')
            } else if src.u(2) == 0 {
                out.push(if matches!(a.map(|a| a.text.as_str()), Some(";") | Some("{")) { '\n' } else { ' ' })
            }
        }
        1 => {
            for _ in 0..src.range(1, 3) {
                blank(src, out)
            }
        }
        k => {
            if slashy || src.u(2) == 0 {
                blank(src, out);
            }
            for _ in 0..k - 1 {
                comment(src, out);
                if src.u(2) == 0 {
                    blank(src, out)
                }
            }
        }
    }
    if b.is_some() && src.chance(1, 4000) {
        // lines and columns that take more than one or two bytes
        let n = if src.u(16) == 15 { src.range(65_530, 66_000) } else { src.range(200, 600) };
        match src.u(4) {
            0 => out.push_str(&" ".repeat(n)),
            1 => out.push_str(&"\n".repeat(n)),
            2 => {
                out.push_str(" /*");
                out.push_str(&"x".repeat(n));
                out.push_str("*/ ");
            }
            _ => out.push_str(&"\t\n".repeat(n)),
        }
    }
    if b.is_none() && src.chance(1, 6) {
        // a comment that ends with the file
        out.push_str(" // ");
        let t = comment_text(src, true);
        out.push_str(&t);
    }
}

pub fn advance(pos: &mut Pos, c: char) {
    if c == '\n' {
        pos.0 += 1;
        pos.1 = 0;
    } else {
        pos.1 += c.len_utf16() as u32;
    }
}

pub fn end_pos(text: &str) -> Pos {
    let mut p = (0, 0);
    for c in text.chars() {
        advance(&mut p, c)
    }
    p
}

/// Lays out the tokens and records their positions
pub fn layout(src: &mut Src, toks: &mut [Tok], style: Style) -> String {
    let mut text = String::new();
    let mut pos: Pos = (0, 0);
    let mut prev: Option<usize> = None;
    for i in 0..=toks.len() {
        if i < toks.len() && toks[i].absent {
            // zero-width, where it would stand
            toks[i].start = pos;
            toks[i].end = pos;
            toks[i].off = text.len();
            continue;
        }
        let mut g = String::new();
        gap(src, prev.map(|p| &toks[p]), toks.get(i), style, &mut g);
        for c in g.chars() {
            advance(&mut pos, c)
        }
        text.push_str(&g);
        if i == toks.len() {
            break;
        }
        toks[i].start = pos;
        toks[i].off = text.len();
        for c in toks[i].text.chars() {
            advance(&mut pos, c)
        }
        toks[i].end = pos;
        text.push_str(&toks[i].text);
        prev = Some(i);
    }
    text
}

pub fn render(src: &mut Src, doc: &Doc, style: Style) -> Rendered {
    let (mut toks, tops) = emit(doc);
    let text = layout(src, &mut toks, style);
    Rendered { toks, tops, text }
}

pub fn random_style(src: &mut Src) -> Style {
    if src.u(4) == 0 {
        Style::Plain
    } else {
        Style::Rich
    }
}

impl Rendered {
    pub fn sp(&self, a: T, b: T) -> Sp {
        (self.toks[a].start, self.toks[b].end)
    }
    pub fn tsp(&self, a: T) -> Sp {
        self.sp(a, a)
    }
    /// The range of a whole property, as written: label or name up to the semicolon
    pub fn prop_sp(&self, p: &EProp) -> Sp {
        let first = p.label.unwrap_or(p.name);
        let last = if self.toks[p.semi].absent { p.eq.unwrap_or(p.name) } else { p.semi };
        self.sp(first, last)
    }
    pub fn body_end(&self, b: &EBody) -> T {
        if self.toks[b.semi].absent {
            b.close
        } else {
            b.semi
        }
    }
    pub fn node_sp(&self, n: &ENode) -> Sp {
        self.sp(n.label.unwrap_or(n.name), self.body_end(&n.body))
    }
}
