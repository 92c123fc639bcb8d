//! Sets of files that include each other: generation and the reference evaluation of labels,
//! paths and references.
use crate::engine::{Ctx, Src};
use crate::gen::{path_text, Cfg, Gen};
use crate::model::*;
use crate::render::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub struct WFile {
    /// relative to the directory of the world
    pub name: String,
    pub doc: Doc,
    pub r: Rendered,
    /// the file (index) that each /include/ names, by index into `doc.tops`
    pub incs: Vec<(usize, usize)>,
}

pub struct World {
    pub dir: PathBuf,
    pub files: Vec<WFile>,
    pub include_dirs: Vec<String>,
}

pub struct WOpt {
    pub max_files: usize,
    /// references may be wrong
    pub perturb: bool,
    /// an include may stand anywhere
    pub anywhere: bool,
    /// extra rule violations
    pub corrupt: bool,
    pub max_items: usize,
    pub value_labels: bool,
    /// semicolons may be missing
    pub drop_semis: bool,
}

impl Default for WOpt {
    fn default() -> WOpt {
        WOpt { max_files: 5, perturb: false, anywhere: false, corrupt: false, max_items: 5, value_labels: true, drop_semis: false }
    }
}

/// The directories that files of a world may be in
pub const WORLD_DIRS: &[&str] = &["inc", "sub dir", "a:b,c%41#"];

/// What may stand in the middle of a file name
const NAME_PARTS: &[&str] = &[
    " b", "ü", "#x", "%41", "?q", "+", "'", "\"", "\\", ":", ";", "😀", "~", "(1)", "@2", "[a]", "&", "=", ",", "$", "..", "-", "%", ".dts", "é", "X",
];

/// The text of an /include/ in a file of directory `from` ("" or "inc/") that names `to`
pub fn spell(src: &mut Src, dir: &Path, from: &str, to: &str, include_dirs: &[String]) -> String {
    let from_dir = from.rfind('/').map_or("", |i| &from[..i]);
    let (to_dir, base) = to.rfind('/').map_or(("", to), |i| (&to[..i], &to[i + 1..]));
    let relative = if from_dir == to_dir {
        base.to_string()
    } else if from_dir.is_empty() {
        to.to_string()
    } else {
        let ups = from_dir.split('/').count();
        format!("{}{to}", "../".repeat(ups))
    };
    match src.u(8) {
        7 => dir.join(to).display().to_string(),
        6 => format!("./{relative}"),
        5 if include_dirs.iter().any(|d| d == to_dir) => base.to_string(),
        _ => relative,
    }
}

fn near_miss(src: &mut Src, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    match src.u(3) {
        0 if cs.len() > 1 => {
            cs.pop();
        }
        1 => cs.push('x'),
        _ => {
            let i = src.u(cs.len());
            cs[i] = if cs[i].is_ascii_lowercase() { 'Z' } else { 'z' };
        }
    }
    cs.into_iter().collect()
}

fn perturb(src: &mut Src, r: &mut Rf, labels: &[String], paths: &[Vec<String>]) {
    if !src.chance(1, 4) {
        return;
    }
    let k = src.u(8);
    *r = match k {
        0 | 1 if !labels.is_empty() => Rf::L(src.pick_of(labels).clone()),
        2 | 3 if !paths.is_empty() => Rf::P(path_text(src.pick_of(paths))),
        4 if !labels.is_empty() => {
            let l = src.pick_of(labels).clone();
            Rf::L(near_miss(src, &l))
        }
        5 if !paths.is_empty() => {
            let mut p = src.pick_of(paths).clone();
            match src.u(5) {
                0 if !p.is_empty() => {
                    p.pop();
                }
                1 => p.push("nosuch".into()),
                2 if !p.is_empty() => {
                    // another or no unit address
                    let i = src.u(p.len());
                    let (b, a) = split_name(&p[i]);
                    p[i] = match a {
                        Some(_) => b.to_string(),
                        None => format!("{b}@0"),
                    };
                }
                3 if !p.is_empty() => {
                    p.remove(0);
                }
                _ if !p.is_empty() => {
                    let i = src.u(p.len());
                    let l = p[i].clone();
                    p[i] = near_miss(src, &l);
                }
                _ => p.push("n".into()),
            }
            Rf::P(path_text(&p))
        }
        6 => Rf::P("/".into()),
        _ => Rf::L(src.pick(&["l", "lbl", "uart0", "x", "nolabel", "_l"]).to_string()),
    };
}

impl World {
    pub fn generate(src: &mut Src, ctx: &mut Ctx, opt: &WOpt) -> World {
        let dir = std::fs::canonicalize(ctx.fresh_dir()).expect("scratch");
        let n = match src.weighted(&[3, 4, 3]) {
            0 => 1,
            1 => src.range(1, opt.max_files.min(3)),
            _ => src.range(1, opt.max_files),
        };
        // now and then, many small files or something very large in a file
        let many = src.chance(1, 250);
        let n = if many { src.range(25, 65) } else { n };
        let include_dirs: &[&str] = match src.u(8) {
            0..=3 => &[],
            4 | 5 => &["inc"],
            6 => &["inc", "a:b,c%41#"],
            _ => &["a:b,c%41#"],
        };
        let include_dirs: Vec<String> = include_dirs.iter().map(|d| d.to_string()).collect();
        let mut files: Vec<WFile> = vec![];
        let mut used: BTreeSet<String> = BTreeSet::new();
        let mut unused_files: BTreeSet<usize> = BTreeSet::new();
        let mut all_labels: Vec<String> = vec![];
        let mut all_paths: BTreeSet<Vec<String>> = BTreeSet::new();
        let mut contexts: Vec<Env> = vec![];
        let mut docs: Vec<(String, Doc, Vec<(usize, usize)>)> = vec![];
        // the last file may include all others
        let chain = if many { src.u(2) } else { 1 };
        for i in 0..n {
            let main = i + 1 == n;
            let name = if main {
                "main.dts".to_string()
            } else {
                let ext = src.pick(&["dtsi", "dtsi", "dtsi", "dts", "dtso", "overlay", "h"]);
                let d = src.pick(&["", "", "", "", "inc/", "inc/", "sub dir/", "a:b,c%41#/"]);
                let part = if src.u(6) == 5 { src.pick(NAME_PARTS) } else { "" };
                format!("{d}f{i}{part}.{ext}")
            };
            let mut includes = vec![];
            for j in 0..i {
                let p = if unused_files.contains(&j) { if main { 9 } else { 5 } } else { 2 };
                if src.chance(p, if many { 14 } else { 10 }) || many && main && chain == 0 {
                    includes.push(j);
                    if src.chance(1, 8) {
                        includes.push(j);
                    }
                }
            }
            if includes.len() > 1 && src.u(2) == 0 {
                let k = src.u(includes.len());
                includes.rotate_left(k);
            }
            for j in &includes {
                unused_files.remove(j);
            }
            unused_files.insert(i);
            let cfg = Cfg {
                lawful: true,
                header: name.ends_with(".dts") || src.chance(1, 4),
                max_items: opt.max_items,
                c_includes: src.u(4) == 0,
                long_names: src.u(8) == 7,
                value_labels: opt.value_labels,
                ..Cfg::default()
            };
            let dict = ctx.dict.clone();
            let mut g = Gen::new(src, &dict, cfg);
            g.set_budget(if many { 4 } else { 30 });
            if !many {
                g.maybe_big(300);
            }
            g.used_labels = used.clone();
            for j in &includes {
                for (l, d) in &contexts[*j].labels {
                    g.labels.insert(l.clone(), d.as_ref().map(|d| d.path.clone()));
                }
                g.paths.extend(contexts[*j].nodes.keys().cloned());
            }
            let mut doc = g.doc();
            used = std::mem::take(&mut g.used_labels);
            all_labels.extend(g.labels.keys().cloned());
            all_paths.extend(g.paths.iter().cloned());
            if opt.perturb {
                let paths: Vec<_> = all_paths.iter().cloned().collect();
                for t in &mut doc.tops {
                    match t {
                        Top::Root(b) => b.visit_refs_mut(&mut |r| perturb(src, r, &all_labels, &paths)),
                        Top::Ext(r, b) => {
                            perturb(src, r, &all_labels, &paths);
                            b.visit_refs_mut(&mut |r| perturb(src, r, &all_labels, &paths));
                        }
                        Top::Del(r) | Top::Omit(r) => perturb(src, r, &all_labels, &paths),
                        _ => {}
                    }
                }
            }
            // where the includes go: positions in the list of directives
            let head = doc.tops.iter().take_while(|t| matches!(t, Top::Header | Top::Plugin)).count();
            let mut at = head;
            let mut incs = vec![];
            for j in includes {
                let to = docs[j].0.clone();
                let text = spell(src, &dir, &name, &to, &include_dirs);
                let k = if opt.anywhere && src.u(3) > 0 { src.range(at, doc.tops.len()) } else { at };
                doc.tops.insert(k, Top::Inc(text, false));
                incs.push((k, j));
                at = k + 1;
            }
            docs.push((name, doc, incs));
            // nodes below an unresolved reference have no path
            loop {
                let (_, doc, incs) = &docs[i];
                let e = evaluate(i, doc, incs, &contexts);
                let bad: Vec<usize> = e
                    .bad_exts
                    .iter()
                    .copied()
                    .filter(|t| match &doc.tops[*t] {
                        Top::Ext(_, b) => b.items.iter().any(|i| matches!(i, Item::Node(_))),
                        _ => false,
                    })
                    .collect();
                if bad.is_empty() {
                    contexts.push(e.env);
                    break;
                }
                for t in bad {
                    if let Top::Ext(_, b) = &mut docs[i].1.tops[t] {
                        b.items.retain(|i| !matches!(i, Item::Node(_)));
                    }
                }
            }
        }
        for (name, doc, incs) in docs {
            let style = random_style(src);
            let r = if opt.drop_semis && src.u(2) == 1 {
                let (mut toks, tops) = emit(&doc);
                crate::checks::syntax::drop_semis(src, &mut toks, &tops);
                let text = layout(src, &mut toks, style);
                Rendered { toks, tops, text }
            } else {
                render(src, &doc, style)
            };
            files.push(WFile { name, doc, r, incs });
        }
        World { dir, files, include_dirs }
    }

    pub fn path(&self, i: usize) -> PathBuf {
        self.dir.join(&self.files[i].name)
    }

    pub fn main(&self) -> usize {
        self.files.len() - 1
    }

    pub fn write(&self, ctx: &mut Ctx) {
        for d in WORLD_DIRS {
            std::fs::create_dir_all(self.dir.join(d)).expect("mkdir");
        }
        for f in &self.files {
            std::fs::write(self.dir.join(&f.name), &f.r.text).expect("write");
            ctx.input(&f.name, &f.r.text);
        }
        if !self.include_dirs.is_empty() {
            ctx.input("include directories", self.include_dirs.join(" "));
        }
    }

    pub fn include_paths(&self) -> Vec<String> {
        self.include_dirs.iter().map(|d| self.dir.join(d).display().to_string()).collect()
    }

    /// The files that are loaded together with file `i`
    pub fn reachable(&self, i: usize) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let mut todo = vec![i];
        while let Some(i) = todo.pop() {
            if out.insert(i) {
                todo.extend(self.files[i].incs.iter().map(|(_, j)| *j));
            }
        }
        out
    }

    /// For worlds without cycles where included files come first
    pub fn evaluate(&self) -> Vec<Eval> {
        let mut envs: Vec<Env> = vec![];
        let mut out = vec![];
        for (i, f) in self.files.iter().enumerate() {
            let e = evaluate(i, &f.doc, &f.incs, &envs);
            envs.push(e.env.clone());
            out.push(e);
        }
        out
    }

    pub fn is_plain(&self, i: usize) -> bool {
        self.files[i].name.ends_with(".dts") && !self.files[i].doc.tops.contains(&Top::Plugin)
    }
}

/// The name token of a node in a file
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Occ {
    pub file: usize,
    pub tok: T,
    pub name: String,
}

#[derive(Clone, Debug)]
pub struct NodeDef {
    pub path: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Env {
    /// None: a property
    pub labels: BTreeMap<String, Option<NodeDef>>,
    pub nodes: BTreeMap<Vec<String>, BTreeSet<Occ>>,
}

impl Env {
    pub fn path_of(&self, r: &Rf) -> Option<Vec<String>> {
        match r {
            Rf::L(l) => self.labels.get(l).and_then(|d| d.as_ref()).map(|d| d.path.clone()),
            Rf::P(p) => {
                let p = components(p);
                self.nodes.contains_key(&p).then_some(p)
            }
        }
    }
    pub fn defines(&self, r: &Rf) -> bool {
        match r {
            Rf::L(l) => self.labels.contains_key(l),
            Rf::P(p) => self.nodes.contains_key(&components(p)),
        }
    }
    /// Where the node that is referred to may be said to be defined
    pub fn occurrences(&self, r: &Rf) -> Option<&BTreeSet<Occ>> {
        self.nodes.get(&self.path_of(r)?)
    }
    fn merge(&mut self, other: &Env) {
        for (l, d) in &other.labels {
            self.labels.insert(l.clone(), d.clone());
        }
        for (p, o) in &other.nodes {
            self.nodes.entry(p.clone()).or_default().extend(o.iter().cloned());
        }
    }
}

pub fn components(p: &str) -> Vec<String> {
    p.split('/').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect()
}

pub struct RefUse {
    pub tok: T,
    pub rf: Rf,
    pub resolved: bool,
    /// it did not name anything at its place, but names something in the whole file
    pub late: bool,
}

pub struct Eval {
    pub env: Env,
    pub refs: Vec<RefUse>,
    /// extensions through an unresolved reference (index of the directive)
    pub bad_exts: Vec<usize>,
}

fn eval_body(file: usize, toks: &[Tok], b: &EBody, path: Option<&Vec<String>>, env: &mut Env, values: &mut Vec<(T, Rf)>) {
    for it in &b.items {
        match it {
            EItem::Prop(p) => {
                if let Some(l) = p.label {
                    env.labels.insert(toks[l].text.trim_end_matches(':').to_string(), None);
                }
                for v in &p.vals {
                    match &v.kind {
                        EVK::Rf(t, r) => values.push((*t, r.clone())),
                        EVK::Cells(cells) => {
                            for (t, c) in cells {
                                if let CellD::Rf(r) = c {
                                    values.push((*t, r.clone()))
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            EItem::Node(n) => {
                let name = toks[n.name].text.clone();
                let path = path.map(|p| {
                    let mut p = p.clone();
                    p.push(name.clone());
                    p
                });
                if let Some(p) = &path {
                    if let Some(l) = n.label {
                        env.labels
                            .insert(toks[l].text.trim_end_matches(':').to_string(), Some(NodeDef { path: p.clone() }));
                    }
                    env.nodes.entry(p.clone()).or_default().insert(Occ { file, tok: n.name, name });
                }
                eval_body(file, toks, &n.body, path.as_ref(), env, values);
            }
            _ => {}
        }
    }
}

pub fn evaluate(file: usize, doc: &Doc, incs: &[(usize, usize)], envs: &[Env]) -> Eval {
    let (toks, tops) = emit(doc);
    let mut env = Env::default();
    let mut refs = vec![];
    let mut bad_exts = vec![];
    let mut values = vec![];
    for (i, t) in tops.iter().enumerate() {
        match t {
            ETop::Inc { .. } => {
                if let Some((_, j)) = incs.iter().find(|(k, _)| *k == i) {
                    env.merge(&envs[*j]);
                }
            }
            ETop::Root(t, b) => {
                env.nodes.entry(vec![]).or_default().insert(Occ { file, tok: *t, name: "/".into() });
                eval_body(file, &toks, b, Some(&vec![]), &mut env, &mut values);
            }
            ETop::Ext(t, r, b) => {
                let path = env.path_of(r);
                refs.push(RefUse { tok: *t, rf: r.clone(), resolved: path.is_some(), late: false });
                if path.is_none() {
                    bad_exts.push(i);
                }
                eval_body(file, &toks, b, path.as_ref(), &mut env, &mut values);
            }
            ETop::Del(_, t, r, _) | ETop::Omit(_, t, r, _) => {
                refs.push(RefUse { tok: *t, rf: r.clone(), resolved: env.path_of(r).is_some(), late: false });
            }
            _ => {}
        }
    }
    for r in &mut refs {
        r.late = !r.resolved && env.path_of(&r.rf).is_some();
    }
    for (t, r) in values {
        let resolved = env.defines(&r);
        refs.push(RefUse { tok: t, rf: r, resolved, late: false });
    }
    Eval { env, refs, bad_exts }
}
