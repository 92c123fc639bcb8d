//! Generators of well-formed documents.
use crate::dict::Dict;
use crate::engine::Src;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
pub struct Cfg {
    /// properties before nodes, only strings in "compatible", the header in place:
    /// nothing that a rule forbids
    pub lawful: bool,
    pub bits: bool,
    pub exprs: bool,
    pub value_labels: bool,
    /// the parser keeps only one label of an item; more than one place to draw labels from
    pub labels: bool,
    pub max_depth: usize,
    pub max_items: usize,
    pub unicode: bool,
    pub includes: bool,
    pub c_includes: bool,
    pub header: bool,
    /// values, names etc. of the boundary length
    pub long_names: bool,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            lawful: true,
            bits: true,
            exprs: true,
            value_labels: true,
            labels: true,
            max_depth: 5,
            max_items: 6,
            unicode: true,
            includes: false,
            c_includes: true,
            header: true,
            long_names: true,
        }
    }
}

pub struct Gen<'a> {
    pub src: &'a mut Src,
    pub dict: &'a Dict,
    pub cfg: Cfg,
    pub used_labels: BTreeSet<String>,
    /// what is defined so far: label -> path of the node, or None for a property
    pub labels: BTreeMap<String, Option<Vec<String>>>,
    pub paths: BTreeSet<Vec<String>>,
    budget: usize,
    depth_cap: usize,
    /// what is unusually large in this document, until it has been generated
    big: Option<Big>,
}

/// Sizes that hardly any document has. They are rare because they are expensive.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Big {
    Body,
    Directives,
    Text,
    Bytes,
    Values,
    Cells,
    Depth,
}

const BIGS: &[Big] = &[Big::Body, Big::Directives, Big::Text, Big::Bytes, Big::Values, Big::Cells, Big::Depth];

const LETTERS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const NODE_CHARS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789,._+-";
const PROP_CHARS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789,._+-?#";
const PROP_START: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ,._+-?#";
const LABEL_CHARS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
const LABEL_START: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
const ADDR_CHARS: &[u8] = b"0123456789abcdefABCDEFghijxyzGHIXYZ,._+-";

pub const NODE_NAMES: &[&str] = &[
    "n", "a", "b", "c", "node", "soc", "cpus", "cpu", "memory", "uart", "i2c", "chosen", "aliases",
    "interrupt-controller", "pci", "fsl,mpic", "l2-cache", "e", "F0", "x-1",
];
pub const PROP_NAMES: &[&str] = &[
    "p", "reg", "compatible", "model", "phandle", "status", "#address-cells", "#size-cells", "ranges",
    "interrupts", "device_type", "q", "clock-frequency", "x,y", "dma-coherent", "e", "beef",
    "interrupt-parent", "linux,phandle", "name",
];
/// A small number in one of its spellings
pub fn spelled(src: &mut Src, n: u32) -> String {
    match src.weighted(&[8, 1, 1, 1]) {
        0 => n.to_string(),
        1 => format!("0x{n:x}"),
        2 => format!("0{n:o}"),
        _ => format!("0x{}{n:x}", "0".repeat(src.range(1, 3))),
    }
}

const DIRECTIVE_NAMES: &[&str] = &["include", "bits", "plugin", "dts-v1", "memreserve", "delete-node", "omit-if-no-ref"];

pub fn word(src: &mut Src, start: &[u8], rest: &[u8], len: usize) -> String {
    let mut s = String::new();
    for i in 0..len {
        let set = if i == 0 { start } else { rest };
        s.push(set[src.u(set.len())] as char);
    }
    s
}

fn is_word(s: &str, start: &[u8], rest: &[u8]) -> bool {
    !s.is_empty()
        && s.len() <= 31
        && start.contains(&s.as_bytes()[0])
        && s.bytes().skip(1).all(|b| rest.contains(&b))
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Src, dict: &'a Dict, cfg: Cfg) -> Gen<'a> {
        let budget = match src.weighted(&[60, 30, 9, 1]) {
            0 => 12,
            1 => 40,
            2 => 120,
            _ => 400,
        };
        let depth_cap = match src.u(20) {
            19 => 60,
            18 => 20,
            _ => cfg.max_depth,
        }
        .max(1);
        Gen {
            src,
            dict,
            cfg,
            used_labels: BTreeSet::new(),
            labels: BTreeMap::new(),
            paths: BTreeSet::new(),
            budget,
            depth_cap,
            big: None,
        }
    }

    pub fn set_budget(&mut self, b: usize) {
        self.budget = b;
    }

    /// Now and then, something is very large
    pub fn maybe_big(&mut self, den: usize) {
        if self.src.chance(1, den) {
            let b = *self.src.pick_of(BIGS);
            self.set_big(b);
        }
    }

    pub fn set_big(&mut self, b: Big) {
        self.big = Some(b);
        self.budget = self.budget.max(400);
        if b == Big::Depth {
            self.depth_cap = 60;
        }
    }

    fn take_big(&mut self, b: Big) -> bool {
        if self.big == Some(b) && self.src.u(3) < 2 {
            self.big = None;
            return true;
        }
        false
    }

    fn name_len(&mut self) -> usize {
        if let Some(n) = self.dict.size(self.src, 31) {
            return n.clamp(1, 31);
        }
        match self.src.weighted(&[10, 4, 2, if self.cfg.long_names { 2 } else { 0 }]) {
            0 => self.src.range(1, 4),
            1 => self.src.range(1, 12),
            2 => self.src.range(13, 30),
            _ => 31,
        }
    }

    fn dict_word(&mut self, start: &[u8], rest: &[u8]) -> Option<String> {
        if self.dict.words.is_empty() || !self.src.chance(1, 6) {
            return None;
        }
        let w = self.src.pick_of(&self.dict.words).clone();
        // use pieces of it as well (e.g. of format strings)
        let w = if is_word(&w, start, rest) {
            w
        } else {
            w.split(|c: char| !c.is_ascii() || !rest.contains(&(c as u8)))
                .max_by_key(|p| p.len())
                .unwrap_or("")
                .to_string()
        };
        is_word(&w, start, rest).then_some(w)
    }

    pub fn node_base(&mut self) -> String {
        if let Some(w) = self.dict_word(LETTERS, NODE_CHARS) {
            return w;
        }
        match self.src.weighted(&[10, 5, 1]) {
            0 => self.src.pick(NODE_NAMES).to_string(),
            1 => {
                let n = self.name_len();
                word(self.src, LETTERS, NODE_CHARS, n)
            }
            _ => self.src.pick(DIRECTIVE_NAMES).to_string(),
        }
    }

    pub fn node_name(&mut self) -> String {
        let base = self.node_base();
        if self.src.chance(1, 3) {
            if let Some(w) = self.dict_word(ADDR_CHARS, NODE_CHARS) {
                return format!("{base}@{w}");
            }
            let n = match self.src.u(6) {
                5 => self.name_len(),
                k => 1 + k,
            };
            let a = match self.src.u(4) {
                0 => word(self.src, b"0123456789", b"0123456789abcdef", n),
                1 => word(self.src, b"0123456789abcdef", b"0123456789abcdef", n),
                2 => word(self.src, b"0", b"0", n),
                _ => word(self.src, ADDR_CHARS, ADDR_CHARS, n),
            };
            format!("{base}@{a}")
        } else if self.src.chance(1, 40) {
            "__symbols__".into()
        } else {
            base
        }
    }

    pub fn prop_name(&mut self) -> String {
        if let Some(w) = self.dict_word(PROP_START, PROP_CHARS) {
            return w;
        }
        match self.src.weighted(&[10, 5, 1, 1]) {
            0 => self.src.pick(PROP_NAMES).to_string(),
            1 => {
                let n = self.name_len();
                word(self.src, PROP_START, PROP_CHARS, n)
            }
            // names that differ a little from those that mean something
            2 => {
                let name = *self.src.pick_of(&["compatible", "model", "status", "reg", "phandle", "ranges"]);
                match self.src.u(6) {
                    0 => format!("x,{name}"),
                    1 => format!("{name}s"),
                    2 => format!("{name}-x"),
                    3 => name.to_uppercase(),
                    4 => format!("#{name}"),
                    _ => name[..name.len() - 1].to_string(),
                }
            }
            _ => self.src.pick(DIRECTIVE_NAMES).to_string(),
        }
    }

    /// A label that is not used anywhere else
    pub fn fresh_label(&mut self) -> String {
        let mut l = match self.dict_word(LABEL_START, LABEL_CHARS) {
            Some(w) => w,
            None => match self.src.weighted(&[6, 4, 1]) {
                0 => self.src.pick(&["l", "lbl", "uart0", "node1", "x", "A", "dead", "_l"]).to_string(),
                1 => {
                    let n = self.name_len();
                    word(self.src, LABEL_START, LABEL_CHARS, n)
                }
                _ => word(self.src, b"abcdefABCDEF_", LABEL_CHARS, 2),
            },
        };
        let mut i = 0;
        while self.used_labels.contains(&l) {
            l.truncate(26);
            l = format!("{}{}", l.trim_end_matches(|c: char| c.is_ascii_digit()), i);
            i += 1;
            if !LABEL_START.contains(&l.as_bytes()[0]) {
                l = format!("l{l}");
            }
        }
        self.used_labels.insert(l.clone());
        l
    }

    fn opt_label(&mut self) -> Option<String> {
        if self.cfg.labels && self.src.chance(1, 4) {
            Some(self.fresh_label())
        } else {
            None
        }
    }

    pub fn string(&mut self) -> String {
        if !self.dict.words.is_empty() && self.src.chance(1, 8) {
            return self.src.pick_of(&self.dict.words).clone();
        }
        let n = match self.dict.size(self.src, 300) {
            Some(n) => n,
            None => match self.src.u(12) {
                11 => self.src.u(200),
                10 => self.src.u(40),
                _ => self.src.u(9),
            },
        };
        let long = self.take_big(Big::Text);
        let n = if long { n + 20 } else { n };
        let mut s = String::new();
        for _ in 0..n {
            let unicode = self.cfg.unicode;
            match self.src.weighted(&[20, 6, 3, 2, if unicode { 3 } else { 0 }, if unicode { 2 } else { 0 }, if unicode { 1 } else { 0 }]) {
                0 => s.push(LETTERS[self.src.u(LETTERS.len())] as char),
                1 => s.push(*self.src.pick_of(&['0', ' ', ',', '-', ';', '{', '}', '<', '>', '[', ']', '(', ')', '&', '=', ':', '#', '@', '\'', '%', '!', '~', '|', '^', '$', '?', '*', '/', '_', '.'])),
                2 => s.push(*self.src.pick_of(&['"', '\\', '\t', '\n'])),
                3 => s.push_str(self.src.pick(&["//", "/*", "*/", "\\\"", "\\\\", "/dts-v1/;", "};", "\r\n", "/ {"])),
                4 => s.push(*self.src.pick_of(&['é', 'ß', 'Ω', '漢', '€', '\u{0301}', '\u{a0}', '\u{7f}', '\u{80}', '\u{2028}'])),
                5 => s.push(*self.src.pick_of(&['😀', '𝒳', '\u{10ffff}', '\u{ffff}', '\u{feff}'])),
                _ => s.push(*self.src.pick_of(&['\0', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\r'])),
            }
        }
        if long {
            s = s.repeat(self.src.range(20, 150));
        }
        s
    }

    /// A legal literal for a number of at most `bits` bits
    pub fn num(&mut self, bits: u32) -> Num {
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.src.weighted(&[8, 4, 4, 2, if self.dict.ints.is_empty() { 0 } else { 4 }]) {
            0 => self.src.u(20) as u64,
            1 => *self.src.pick_of(&[0, 1, 7, 8, 9, 10, 15, 16, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, u64::MAX, 0xdeadbeef, 100, 1000]),
            2 => self.src.u64() & max,
            3 => max.wrapping_sub(self.src.u(3) as u64),
            _ => {
                let v = *self.src.pick_of(&self.dict.ints);
                v.wrapping_add(self.src.u(3) as u64).wrapping_sub(1)
            }
        } & max;
        let text = match self.src.weighted(&[5, 5, 2, 1, 1]) {
            0 => format!("{v}"),
            1 => format!("0x{v:x}"),
            2 => format!("0x{v:X}"),
            3 => format!("0x{v:0width$x}", width = self.src.range(1, 20)),
            _ => {
                if v == 0 {
                    "0".repeat(self.src.range(1, 4))
                } else {
                    format!("{}{v:o}", "0".repeat(*self.src.pick_of(&[1, 1, 1, 2, 5])))
                }
            }
        };
        Num { text, val: Some(v) }
    }

    pub fn expr(&mut self, depth: usize, out: &mut Vec<String>) {
        let n = self.src.range(1, 3);
        for i in 0..n {
            if i > 0 {
                out.push(self.src.pick(&["+", "-", "*", "/", "<<", ">>", "|", "&&", "||", "==", "%", "^", "?", ",", "<", ">", "!=", "&"]).to_string());
            }
            if self.src.chance(1, 6) {
                out.push(self.src.pick(&["~", "!", "-"]).to_string());
            }
            if self.src.chance(1, 10) {
                // operators directly between their operands
                out.push(self.src.pick(&["1/A", "A/B", "A/B/C", "0x10/2", "A*B", "A&B", "1<<2", "A>B", "f/bits/A", "A-1", "~A", "SZ_1K/4"]).to_string());
                continue;
            }
            match self.src.u(6) {
                5 if depth < 4 => {
                    out.push("(".into());
                    self.expr(depth + 1, out);
                    out.push(")".into());
                }
                4 => {
                    out.push(self.src.pick(&["A", "MACRO", "f", "IRQ_TYPE"]).to_string());
                    if self.src.chance(1, 3) {
                        out.push("(".into());
                        self.expr(depth + 1, out);
                        out.push(")".into());
                    }
                }
                _ => out.push(self.num(32).text),
            }
        }
    }

    fn list_len(&mut self) -> usize {
        if let Some(n) = self.dict.size(self.src, 300) {
            return n;
        }
        if self.take_big(Big::Cells) {
            return self.src.range(250, 1200);
        }
        match self.src.weighted(&[10, 6, 2, 1]) {
            0 => self.src.range(1, 2),
            1 => self.src.range(0, 5),
            2 => self.src.range(0, 12),
            _ if self.src.chance(1, 6) => self.src.range(60, 300),
            _ => self.src.range(0, 60),
        }
    }

    fn value_label(&mut self) -> Option<String> {
        if self.cfg.value_labels && self.src.chance(1, 12) {
            Some(self.fresh_label())
        } else {
            None
        }
    }

    pub fn any_ref(&mut self) -> Rf {
        if self.src.chance(1, 3) {
            Rf::P(self.any_path_text())
        } else {
            let l = match self.src.u(3) {
                0 if !self.used_labels.is_empty() => {
                    let v: Vec<_> = self.used_labels.iter().cloned().collect();
                    self.src.pick_of(&v).clone()
                }
                1 => {
                    let n = self.name_len();
                    word(self.src, LABEL_START, LABEL_CHARS, n)
                }
                _ => self.src.pick(&["l", "lbl", "uart0", "x", "_l"]).to_string(),
            };
            Rf::L(l)
        }
    }

    pub fn any_path_text(&mut self) -> String {
        let n = self.src.weighted(&[1, 6, 3, 2]);
        if n == 0 {
            return "/".into();
        }
        (0..n)
            .map(|_| match self.src.u(16) {
                // components that are no names of nodes
                15 => format!("/{}", self.src.pick(&[".", "..", "-", "_", "0", "00", "1a", "a.", ".a", "-1", ",", "+", "a@.", ".@0", "-@-", "0@0"])),
                14 => {
                    let n = self.src.range(1, 6);
                    format!("/{}", word(self.src, ADDR_CHARS, ADDR_CHARS, n))
                }
                _ => format!("/{}", self.node_name()),
            })
            .collect()
    }

    pub fn value(&mut self, only_string: bool) -> Val {
        let mut bits = None;
        let mut width = 32;
        if self.cfg.bits && !only_string && self.src.chance(1, 12) {
            // only what fits
            width = *self.src.pick_of(&[8, 16, 32, 64]);
            bits = Some(spelled(self.src, width));
        }
        let kind = if only_string {
            VK::Str(self.string())
        } else {
            let k = if bits.is_some() { 1 } else { self.src.weighted(&[6, 8, 3, 4]) };
            match k {
                0 => VK::Str(self.string()),
                1 => {
                    let n = self.list_len();
                    let mut cells = vec![];
                    for _ in 0..n {
                        let l = self.value_label();
                        let c = match self.src.weighted(&[10, 4, if self.cfg.exprs { 2 } else { 0 }]) {
                            0 => CellD::Num(self.num(width)),
                            1 => CellD::Rf(self.any_ref()),
                            _ => {
                                let mut e = vec![];
                                self.expr(0, &mut e);
                                CellD::Expr(e)
                            }
                        };
                        cells.push((l, c));
                    }
                    let t = self.value_label();
                    VK::Cells(cells, t)
                }
                2 => VK::Rf(self.any_ref()),
                _ => {
                    let n = self.list_len();
                    let mut gs = vec![];
                    for _ in 0..n {
                        let l = self.value_label();
                        let k = match self.src.u(8) {
                            _ if self.take_big(Big::Bytes) => 2 * self.src.range(40, 400),
                            7 => 2 * self.src.range(1, 20),
                            6 => 4,
                            _ => 2,
                        };
                        let g = match self.src.u(3) {
                            0 => word(self.src, b"0123456789", b"0123456789", k),
                            1 => word(self.src, b"0123456789abcdefABCDEF", b"0123456789abcdefABCDEF", k),
                            _ => word(self.src, b"abcdefABCDEF", b"0123456789abcdef", k),
                        };
                        gs.push((l, g));
                    }
                    let t = self.value_label();
                    VK::Bytes(gs, t)
                }
            }
        };
        let pre = self.value_label();
        let post = self.value_label();
        Val { bits, pre, post, kind }
    }

    pub fn prop(&mut self) -> Prop {
        let label = self.opt_label();
        if let Some(l) = &label {
            self.labels.insert(l.clone(), None);
        }
        let name = self.prop_name();
        let n = match self.src.weighted(&[3, 8, 2]) {
            0 => 0,
            1 => 1,
            _ => self.list_len().max(1),
        };
        let n = if self.take_big(Big::Values) { self.src.range(17, 300) } else { n };
        let only_string = self.cfg.lawful && name == "compatible";
        let vals = (0..n).map(|_| self.value(only_string)).collect();
        Prop { omit: false, label, name, vals }
    }

    pub fn node(&mut self, path: &[String], depth: usize, siblings: &[String]) -> NodeD {
        let omit = self.src.chance(1, 12);
        // re-open a sibling now and then
        let reopen = !siblings.is_empty() && self.src.chance(1, 10);
        let name = if reopen {
            self.src.pick_of(siblings).clone()
        } else {
            self.node_name()
        };
        let mut p = path.to_vec();
        p.push(name.clone());
        let label = self.opt_label();
        if let Some(l) = &label {
            self.labels.insert(l.clone(), Some(p.clone()));
        }
        self.paths.insert(p.clone());
        let body = self.body(&p, depth + 1);
        NodeD { omit, label, name, body }
    }

    pub fn body(&mut self, path: &[String], depth: usize) -> Body {
        let mut items = vec![];
        let mut siblings: Vec<String> = vec![];
        let mut n = match self.src.weighted(&[6, 6, 2]) {
            0 => self.src.u(3),
            1 => self.src.u(self.cfg.max_items + 1),
            _ => self.src.u(self.cfg.max_items * 3 + 1),
        };
        if let Some(k) = self.dict.size(self.src, 80) {
            n = k;
        }
        if self.take_big(Big::Body) {
            n = self.src.range(100, 350);
        }
        // one node below the other
        let down = self.big == Some(Big::Depth) && depth < self.depth_cap && self.budget > 0;
        if down {
            n = n.max(1);
        }
        let mut had_node = false;
        for i in 0..n {
            if self.budget == 0 || self.src.exhausted() {
                break;
            }
            self.budget -= 1;
            let can_node = depth < self.depth_cap;
            let w_prop = if self.cfg.lawful && had_node { 0 } else { 8 };
            let deep = if self.depth_cap > 10 { 12 } else { 6 };
            let k = self.src.weighted(&[w_prop, if can_node { deep } else { 0 }, 1, 1]);
            match if down && i == 0 { 1 } else { k } {
                0 => items.push(Item::Prop(self.prop())),
                1 => {
                    had_node = true;
                    let node = self.node(path, depth, &siblings);
                    siblings.push(node.name.clone());
                    items.push(Item::Node(node))
                }
                2 => {
                    let name = if !siblings.is_empty() && self.src.chance(1, 2) {
                        self.src.pick_of(&siblings).clone()
                    } else {
                        self.node_name()
                    };
                    items.push(Item::DelNode(name))
                }
                _ => items.push(Item::DelProp(self.prop_name())),
            }
        }
        Body { items }
    }

    /// A reference to something that is defined so far (a node if `node`)
    pub fn known_ref(&mut self, node: bool) -> Option<Rf> {
        let labels: Vec<String> = self
            .labels
            .iter()
            .filter(|(_, p)| !node || p.is_some())
            .map(|(l, _)| l.clone())
            .collect();
        let use_path = self.src.chance(1, 3);
        if (use_path || labels.is_empty()) && !self.paths.is_empty() {
            let v: Vec<_> = self.paths.iter().cloned().collect();
            let p = self.src.pick_of(&v).clone();
            return Some(Rf::P(path_text(&p)));
        }
        if labels.is_empty() {
            return None;
        }
        Some(Rf::L(self.src.pick_of(&labels).clone()))
    }

    pub fn path_of(&self, r: &Rf) -> Option<Vec<String>> {
        match r {
            Rf::L(l) => self.labels.get(l).cloned().flatten(),
            Rf::P(p) => {
                let p: Vec<String> = p.split('/').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect();
                self.paths.contains(&p).then_some(p)
            }
        }
    }

    /// Points all references in values to something that is defined;
    /// values for which there is nothing become strings or numbers.
    pub fn resolve_value_refs(&mut self, doc: &mut Doc) {
        let labels: Vec<String> = self.labels.keys().cloned().collect();
        let paths: Vec<_> = self.paths.iter().cloned().collect();
        let src = &mut *self.src;
        for t in &mut doc.tops {
            if let Top::Root(b) | Top::Ext(_, b) = t {
                b.visit_refs_mut(&mut |r| {
                    let as_path = matches!(r, Rf::P(_)) || labels.is_empty();
                    if as_path && !paths.is_empty() {
                        *r = Rf::P(path_text(src.pick_of(&paths)));
                    } else if !labels.is_empty() {
                        *r = Rf::L(src.pick_of(&labels).clone());
                    }
                });
            }
        }
    }

    /// A document; with `lawful`, all references resolve as well
    pub fn doc(&mut self) -> Doc {
        let mut tops = vec![];
        if self.cfg.header {
            tops.push(Top::Header);
        }
        let plugin = self.src.chance(1, 12);
        if plugin {
            tops.push(Top::Plugin);
        }
        while self.src.chance(1, 5) {
            tops.push(Top::Mem(self.num(64), self.num(64)));
        }
        let n = match self.src.weighted(&[8, 6, 1]) {
            0 => 1,
            1 => self.src.range(1, 5),
            _ => self.src.range(1, 15),
        };
        let n = if self.take_big(Big::Directives) { self.src.range(65, 200) } else { n };
        for i in 0..n {
            let lawful = self.cfg.lawful;
            let k = self.src.weighted(&[
                10,
                if i > 0 { 6 } else { 0 },
                if i > 0 { 1 } else { 0 },
                if i > 0 { 1 } else { 0 },
                if self.cfg.c_includes { 1 } else { 0 },
                if self.cfg.includes { 2 } else { 0 },
                if lawful { 0 } else { 1 },
            ]);
            match k {
                0 => {
                    self.paths.insert(vec![]);
                    let b = self.body(&[], 1);
                    tops.push(Top::Root(b));
                }
                1 => {
                    let r = if lawful { self.known_ref(true) } else { Some(self.any_ref()) };
                    if let Some(r) = r {
                        let p = self.path_of(&r).unwrap_or_default();
                        let d = p.len() + 1;
                        let b = self.body(&p, d);
                        tops.push(Top::Ext(r, b));
                    }
                }
                2 | 3 => {
                    let r = if lawful { self.known_ref(true) } else { Some(self.any_ref()) };
                    if let Some(r) = r {
                        tops.push(if k == 2 { Top::Del(r) } else { Top::Omit(r) });
                    }
                }
                4 => {
                    let s = self.string();
                    tops.push(Top::CInc(s));
                }
                5 => {
                    let s = self.string();
                    tops.push(Top::Inc(s, false));
                }
                _ => {
                    let t = match self.src.u(3) {
                        0 => Top::Header,
                        1 => Top::Plugin,
                        _ => Top::Mem(self.num(64), self.num(64)),
                    };
                    tops.push(t);
                }
            }
        }
        let mut doc = Doc { tops };
        if self.cfg.lawful {
            self.resolve_value_refs(&mut doc);
        }
        doc
    }
}

pub fn path_text(p: &[String]) -> String {
    if p.is_empty() {
        "/".into()
    } else {
        p.iter().map(|c| format!("/{c}")).collect()
    }
}
