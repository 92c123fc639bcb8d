//! The model of a device-tree source: what the generators build and the oracles know.
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Rf {
    /// &label
    L(String),
    /// &{path}; the text between the braces
    P(String),
}

impl Rf {
    pub fn text(&self) -> String {
        match self {
            Rf::L(l) => format!("&{l}"),
            Rf::P(p) => format!("&{{{p}}}"),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Num {
    pub text: String,
    /// None: not a legal literal, or too large for its place
    pub val: Option<u64>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum CellD {
    Num(Num),
    Rf(Rf),
    /// the tokens between the outer parentheses
    Expr(Vec<String>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum VK {
    Str(String),
    Cells(Vec<(Option<String>, CellD)>, Option<String>),
    Rf(Rf),
    /// groups of hex digits as written
    Bytes(Vec<(Option<String>, String)>, Option<String>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Val {
    pub bits: Option<String>,
    pub pre: Option<String>,
    pub post: Option<String>,
    pub kind: VK,
}

impl Val {
    pub fn of(kind: VK) -> Val {
        Val { bits: None, pre: None, post: None, kind }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Prop {
    /// an (illegal) /omit-if-no-ref/ in front of it
    pub omit: bool,
    pub label: Option<String>,
    pub name: String,
    pub vals: Vec<Val>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct NodeD {
    pub omit: bool,
    pub label: Option<String>,
    /// including the unit address
    pub name: String,
    pub body: Body,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Item {
    Prop(Prop),
    Node(NodeD),
    DelNode(String),
    DelProp(String),
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Body {
    pub items: Vec<Item>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Top {
    Header,
    Plugin,
    Mem(Num, Num),
    /// file name as written, whether an (illegal) semicolon follows
    Inc(String, bool),
    CInc(String),
    Root(Body),
    Ext(Rf, Body),
    Del(Rf),
    Omit(Rf),
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Doc {
    pub tops: Vec<Top>,
}

impl Body {
    pub fn visit_refs<'a>(&'a self, f: &mut dyn FnMut(&'a Rf)) {
        for it in &self.items {
            match it {
                Item::Prop(p) => {
                    for v in &p.vals {
                        match &v.kind {
                            VK::Rf(r) => f(r),
                            VK::Cells(cells, _) => {
                                for (_, c) in cells {
                                    if let CellD::Rf(r) = c {
                                        f(r)
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                Item::Node(n) => n.body.visit_refs(f),
                _ => {}
            }
        }
    }
    pub fn visit_refs_mut(&mut self, f: &mut dyn FnMut(&mut Rf)) {
        for it in &mut self.items {
            match it {
                Item::Prop(p) => {
                    for v in &mut p.vals {
                        match &mut v.kind {
                            VK::Rf(r) => f(r),
                            VK::Cells(cells, _) => {
                                for (_, c) in cells {
                                    if let CellD::Rf(r) = c {
                                        f(r)
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                Item::Node(n) => n.body.visit_refs_mut(f),
                _ => {}
            }
        }
    }
    pub fn count_nodes(&self) -> usize {
        self.items
            .iter()
            .map(|i| match i {
                Item::Node(n) => 1 + n.body.count_nodes(),
                _ => 0,
            })
            .sum()
    }
    pub fn count_items(&self) -> usize {
        self.items
            .iter()
            .map(|i| match i {
                Item::Node(n) => 1 + n.body.count_items(),
                _ => 1,
            })
            .sum()
    }
    pub fn depth(&self) -> usize {
        self.items
            .iter()
            .map(|i| match i {
                Item::Node(n) => 1 + n.body.depth(),
                _ => 0,
            })
            .max()
            .unwrap_or(0)
    }
}

impl Doc {
    pub fn bodies(&self) -> impl Iterator<Item = &Body> {
        self.tops.iter().filter_map(|t| match t {
            Top::Root(b) | Top::Ext(_, b) => Some(b),
            _ => None,
        })
    }
    pub fn count_items(&self) -> usize {
        self.tops.len() + self.bodies().map(|b| b.count_items()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        self.bodies().map(|b| b.depth() + 1).max().unwrap_or(0)
    }
}

/// Splits "name@address" like the language does: at the first '@'
pub fn split_name(s: &str) -> (&str, Option<&str>) {
    match s.find('@') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    }
}
