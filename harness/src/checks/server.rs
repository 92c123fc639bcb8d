//! Checks of the language server, as a client over its standard streams.
use super::project::{any_text, probe_positions, worsen, written_at, Want};
use super::*;
use crate::lsp::{path_of, uri, Client};
use crate::model::*;
use crate::proj::*;
use crate::render::*;
use crate::{about_to_run, dump, ensure, fail};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn start(src: &mut Src, ctx: &Ctx) -> Client {
    start_with(src, ctx, &[])
}

fn start_with(src: &mut Src, ctx: &Ctx, args: &[String]) -> Client {
    let threads = src.pick_of(&[1usize, 1, 1, 4]);
    Client::spawn(&ctx.bins, &ctx.scratch, *threads, args)
}

fn open_msg(uri: &str, version: i64, text: &str) -> Value {
    // kinds go by the names of files, whatever the editor calls the language
    let language = ["dts", "dts", "dtsi", "devicetree", "plaintext", ""][text.len() % 6];
    json!({"textDocument": {"uri": uri, "languageId": language, "version": version, "text": text}})
}

fn change_msg(uri: &str, version: i64, texts: &[String]) -> Value {
    let changes: Vec<Value> = texts.iter().map(|t| json!({ "text": t })).collect();
    json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes})
}

fn close_msg(uri: &str) -> Value {
    json!({"textDocument": {"uri": uri}})
}

fn range_of(v: &Value) -> Option<Sp> {
    let p = |v: &Value| Some((v["line"].as_u64()? as u32, v["character"].as_u64()? as u32));
    Some((p(&v["start"])?, p(&v["end"])?))
}

fn show_range(s: Sp) -> String {
    format!("{}:{}-{}:{}", s.0 .0, s.0 .1, s.1 .0, s.1 .1)
}

// ---------------------------------------------------------------------------------------------
// C18

/// range, message, code, severity
type LD = (Sp, String, String, u64);

fn lsp_diag(v: &Value) -> Option<LD> {
    let code = match &v["code"] {
        Value::String(s) => s.clone(),
        other => other.to_string(),
    };
    Some((range_of(&v["range"])?, v["message"].as_str()?.to_string(), code, v["severity"].as_u64()?))
}

fn wanted_diag(d: &D) -> LD {
    let sev = match d.sev {
        "error" => 1,
        "warning" => 2,
        _ => 4,
    };
    (d.sp, d.msg.clone(), d.kind.clone(), sev)
}

fn show_ld(l: &LD) -> String {
    format!("{} {:?} {} severity {}", show_range(l.0), l.1, l.2, l.3)
}

/// A project that only knows the final state
fn afresh(open: &BTreeMap<PathBuf, String>, dirs: &[String]) -> Project {
    let mut q = Project::default();
    q.set_include_paths(dirs.to_vec());
    for (path, t) in open {
        q.add_file_with_text(path.clone(), t.clone(), FileType::from(path.as_path()));
    }
    q
}

fn compare_published(c: &Client, q: &Project) -> R<usize> {
    let mut published: BTreeMap<PathBuf, Vec<LD>> = BTreeMap::new();
    for (u, ds) in &c.published {
        let Some(path) = path_of(u) else { fail!("diagnostics are published for {u}") };
        let mut list = vec![];
        for d in ds {
            match lsp_diag(d) {
                Some(d) => list.push(d),
                None => fail!("a published diagnostic lacks its range, message, code or severity: {d}"),
            }
        }
        list.sort();
        if published.insert(path, list).is_some() {
            fail!("diagnostics are published for the same file under several URIs, one is {u}");
        }
    }
    let mut files: BTreeSet<PathBuf> = published.keys().cloned().collect();
    files.extend(q.files().map(|f| f.to_path_buf()));
    let mut total = 0;
    for f in files {
        let mut want: Vec<LD> = diags(q, &f).iter().map(wanted_diag).collect();
        want.sort();
        total += want.len();
        let got = published.get(&f).cloned().unwrap_or_default();
        if got != want {
            let show = |l: &[LD]| {
                if l.is_empty() {
                    "(none)".to_string()
                } else {
                    l.iter().map(show_ld).collect::<Vec<_>>().join("; ")
                }
            };
            fail!(
                "{}{}: last published: {}\nexpected: {}",
                f.display(),
                if q.get_file(&f).is_some() { "" } else { " (not in use anymore)" },
                show(&got),
                show(&want)
            );
        }
    }
    Ok(total)
}

/// The directories of the command line and those of the configuration; which of them are searched
/// first is not judged
fn sync_published(
    c: &mut Client,
    open: &BTreeMap<PathBuf, String>,
    fixed: &[String],
    dirs: &[String],
) -> R<usize> {
    c.settle()?;
    let q = afresh(open, &[fixed, dirs].concat());
    if !fixed.is_empty() && !dirs.is_empty() {
        if let Ok(n) = compare_published(c, &afresh(open, &[dirs, fixed].concat())) {
            return Ok(n);
        }
    }
    // it may only be late
    for ms in [30, 100, 300, 1000] {
        if let Ok(n) = compare_published(c, &q) {
            return Ok(n);
        }
        std::thread::sleep(std::time::Duration::from_millis(ms));
        c.settle()?;
    }
    compare_published(c, &q)
}

fn c18(src: &mut Src, ctx: &mut Ctx) -> R {
    let opt = WOpt { perturb: src.u(2) == 0, anywhere: true, max_files: 4, max_items: 3, ..WOpt::default() };
    let w = World::generate(src, ctx, &opt);
    let subdirs = ["inc", "sub dir", "a:b,c%41#", "other", "ü%41#"];
    for d in subdirs {
        std::fs::create_dir_all(w.dir.join(d)).expect("mkdir");
    }
    let n = w.files.len();
    // the order of the include directories matters
    let clash = src.u(5) == 4;
    let variant = |src: &mut Src, ctx: &mut Ctx, i: usize| -> String {
        match src.weighted(&[3, 4, 3]) {
            0 => w.files[i].r.text.clone(),
            1 => worsen(src, ctx, &w, i),
            _ => {
                let mut d = w.files[i].doc.clone();
                let dirs: Vec<String> = subdirs.iter().map(|s| s.to_string()).collect();
                let j = src.u(n);
                let mut s = spell(src, &w.dir, &w.files[i].name, &w.files[j].name, &dirs);
                if src.u(4) == 3 || clash {
                    s = w.files[j].name.rsplit('/').next().unwrap().to_string();
                }
                let k = src.u(d.tops.len() + 1);
                d.tops.insert(k, Top::Inc(s, false));
                if src.u(2) == 0 {
                    let k = src.u(d.tops.len());
                    d.tops.remove(k);
                }
                render(src, &d, Style::Plain).text
            }
        }
    };
    for i in 0..n {
        let t = variant(src, ctx, i);
        std::fs::write(w.path(i), &t).expect("write");
        ctx.input(&w.files[i].name, &t);
        if clash || src.u(3) == 2 {
            let base = w.files[i].name.rsplit('/').next().unwrap().to_string();
            for _ in 0..if clash { 5 } else { 1 } {
                let d = src.pick(&subdirs);
                let path = w.dir.join(d).join(&base);
                if !path.exists() {
                    let t = variant(src, ctx, i);
                    ctx.input(format!("{d}/{base}"), &t);
                    std::fs::write(&path, &t).expect("write");
                }
            }
        }
    }
    let mut paths: Vec<PathBuf> = (0..n).map(|i| w.path(i)).collect();
    paths.push(w.dir.join("not saved ü%.dts"));
    let random_dirs = |src: &mut Src| -> Vec<String> {
        let mut d: Vec<String> = subdirs.iter().map(|d| w.dir.join(d).display().to_string()).collect();
        d.push(w.dir.join("nosuch").display().to_string());
        let k = src.u(d.len());
        d.rotate_left(k);
        let k = src.u(d.len() + 1);
        d.truncate(k);
        d
    };
    let mut dirs: Vec<String> = if src.u(2) == 0 { w.include_paths() } else { random_dirs(src) };
    about_to_run(src, ctx);
    let mut fixed: Vec<String> = if src.u(3) == 2 { random_dirs(src) } else { vec![] };
    fixed.truncate(2);
    let mut args = vec![];
    for d in &fixed {
        match src.u(3) {
            0 => args.extend(["--include".to_string(), d.clone()]),
            1 => args.extend(["-i".to_string(), d.clone()]),
            _ => args.push(format!("--include={d}")),
        }
    }
    if !fixed.is_empty() {
        ctx.count("include directories on the command line");
        ctx.input("step", format!("start with {args:?}"));
    }
    let mut c = start_with(src, ctx, &args);
    let options = if dirs.is_empty() && src.u(2) == 0 { None } else { Some(json!({"includes": dirs})) };
    ctx.input("step", format!("initialize with {options:?}"));
    let client = client_info(src, &w.dir, false);
    ctx.input("step", format!("the client says {client}"));
    let caps = c.initialize_as(client, options)?;
    // otherwise clients do not send what changes
    let sync = &caps["textDocumentSync"];
    let change = if sync.is_object() { &sync["change"] } else { sync };
    ensure!(
        matches!(change.as_i64(), Some(1 | 2)) && (!sync.is_object() || sync["openClose"] == true),
        "the server does not ask for documents being opened, changed and closed: {caps}"
    );
    let mut open: BTreeMap<PathBuf, String> = BTreeMap::new();
    let steps = src.range(1, 12);
    let mut worst = 0;
    let mut changes = 0;
    // versions start anew whenever a document is opened, and grow by any amount
    let mut versions: BTreeMap<PathBuf, i64> = BTreeMap::new();
    let first_version = src.pick_of(&[0i64, 1, 1, 7]).to_owned();
    for _ in 0..steps {
        let k = if src.u(5) == 0 { src.u(paths.len()) } else { src.u(n) };
        let path = paths[k].clone();
        let u = uri(&path);
        match src.weighted(&[10, 4, if clash { 8 } else { 2 }, 1]) {
            3 => {
                // what is open is saved
                let Some(t) = open.get(&path).filter(|_| path.exists()) else { continue };
                ctx.input("step", format!("save {}", path.display()));
                c.settle()?;
                std::fs::write(&path, t).expect("write");
                let mut m = json!({"textDocument": {"uri": u}});
                if src.u(2) == 0 {
                    m["text"] = json!(t);
                }
                c.notify("textDocument/didSave", m);
                ctx.count("saved");
            }
            0 if !open.contains_key(&path) => {
                let t = if path.exists() && src.u(2) == 0 {
                    std::fs::read_to_string(&path).unwrap()
                } else {
                    variant(src, ctx, k.min(n - 1))
                };
                ctx.input("step", format!("open {} with the text\n{t}", path.display()));
                c.notify("textDocument/didOpen", open_msg(&u, first_version, &t));
                versions.insert(path.clone(), first_version);
                open.insert(path, t);
            }
            0 => {
                let m = src.weighted(&[1, 8, 3, 1]);
                let texts: Vec<String> = (0..m).map(|_| variant(src, ctx, k.min(n - 1))).collect();
                ctx.input("step", format!("change {} to the text\n{}", path.display(), texts.join("\nand then to\n")));
                let version = versions.get_mut(&path).unwrap();
                *version += if src.u(4) == 3 { src.range(2, 100) as i64 } else { 1 };
                c.notify("textDocument/didChange", change_msg(&u, *version, &texts));
                if let Some(t) = texts.last() {
                    open.insert(path, t.clone());
                    changes += 1;
                }
            }
            1 => {
                if open.remove(&path).is_none() {
                    continue;
                }
                ctx.input("step", format!("close {}", path.display()));
                c.notify("textDocument/didClose", close_msg(&u));
                changes += 1;
            }
            _ => {
                let mut d = random_dirs(src);
                if src.u(3) == 2 && dirs.len() > 1 {
                    // the same ones in another order
                    d = dirs.clone();
                    let (a, b) = (src.u(d.len()), src.u(d.len()));
                    d.swap(a, b);
                }
                dirs = d;
                ctx.input("step", format!("include directories {}", dirs.join(" : ")));
                c.notify("workspace/didChangeConfiguration", json!({"settings": {"includes": dirs}}));
                changes += 1;
            }
        }
        if src.u(3) == 0 {
            worst = worst.max(sync_published(&mut c, &open, &fixed, &dirs)?);
            ctx.count("compared after a step");
        } else {
            ctx.count("sent without waiting");
        }
    }
    worst = worst.max(sync_published(&mut c, &open, &fixed, &dirs)?);
    if c.published.len() > open.len() {
        ctx.count("published for files that are not open");
    }
    if clash {
        ctx.count("files of the same name in several include directories");
    }
    if open.is_empty() {
        ctx.count("all documents closed at the end");
    }
    c.finish()?;
    if worst > 0 && changes > 0 {
        let all: String = ctx.inputs.iter().map(|f| f.1.as_str()).collect();
        ctx.nontrivial(&all);
    }
    Ok(())
}

pub const C18: Check = Check {
    id: "C18",
    f: c18,
    quick: 8_000,
    thorough: 150_000,
    slow: true,
    rule: "a distinct session with at least one diagnostic and one change, closing or configuration",
    assumptions: &[
        "the diagnostics that must be published are those of a library project that is given the final texts only",
        "documents are opened under their canonical path; files on disk do not change during a session",
    ],
};

// ---------------------------------------------------------------------------------------------
// C19

struct Sym {
    /// any of these
    names: Vec<String>,
    kind: u64,
    deleted: bool,
    /// any of these
    starts: Vec<Pos>,
    ends: Vec<Pos>,
    sel: Sp,
    children: Vec<Sym>,
}

const NODE: u64 = 2;
const PROPERTY: u64 = 7;
const FILE: u64 = 1;
const FIELD: u64 = 8;

fn body_syms(r: &Rendered, b: &EBody) -> Vec<Sym> {
    let mut out = vec![];
    let text = |t: T| r.toks[t].text.clone();
    let names = |t: T| {
        let full = text(t);
        vec![split_name(&full).0.to_string(), full]
    };
    for it in &b.items {
        out.push(match it {
            EItem::Prop(p) => {
                let s = r.prop_sp(p);
                let mut starts = vec![s.0];
                starts.extend(p.omit.map(|t| r.toks[t].start));
                Sym {
                    names: vec![text(p.name)],
                    kind: PROPERTY,
                    deleted: false,
                    starts,
                    ends: vec![s.1],
                    sel: r.tsp(p.name),
                    children: vec![],
                }
            }
            EItem::Node(n) => {
                let s = r.node_sp(n);
                let mut starts = vec![s.0];
                starts.extend(n.omit.map(|t| r.toks[t].start));
                Sym {
                    names: names(n.name),
                    kind: NODE,
                    deleted: false,
                    starts,
                    ends: vec![s.1],
                    sel: r.tsp(n.name),
                    children: body_syms(r, &n.body),
                }
            }
            EItem::DelNode(d, n, s) | EItem::DelProp(d, n, s) => {
                let node = matches!(it, EItem::DelNode(..));
                Sym {
                    names: vec![text(*n)],
                    kind: if node { NODE } else { PROPERTY },
                    deleted: true,
                    starts: vec![r.toks[*d].start],
                    ends: vec![r.toks[*n].end, r.toks[*s].end],
                    sel: r.tsp(*n),
                    children: vec![],
                }
            }
        })
    }
    out
}

fn syms(r: &Rendered) -> Vec<Sym> {
    let mut out = vec![];
    let rf_names = |rf: &Rf| match rf {
        Rf::L(_) => vec![rf.text()],
        Rf::P(p) => vec![rf.text(), format!("&{{/{}}}", components(p).join("/"))],
    };
    let body = |first: T, names: Vec<String>, b: &EBody| Sym {
        names,
        kind: NODE,
        deleted: false,
        starts: vec![r.toks[first].start],
        ends: vec![r.toks[r.body_end(b)].end],
        sel: r.tsp(first),
        children: body_syms(r, b),
    };
    for t in &r.tops {
        out.push(match t {
            ETop::Root(t, b) => body(*t, vec!["/".into()], b),
            ETop::Ext(t, rf, b) => body(*t, rf_names(rf), b),
            ETop::Inc { dir, file, name, .. } => Sym {
                names: vec![format!("include {name}"), name.clone()],
                kind: FILE,
                deleted: false,
                starts: vec![r.toks[*dir].start],
                ends: vec![r.toks[*file].end],
                sel: r.tsp(*file),
                children: vec![],
            },
            ETop::Del(d, t, rf, s) | ETop::Omit(d, t, rf, s) => {
                let del = matches!(top_kind(r, *d), "/delete-node/");
                Sym {
                    names: rf_names(rf),
                    kind: if del { NODE } else { FIELD },
                    deleted: del,
                    starts: vec![r.toks[*d].start],
                    ends: vec![r.toks[*t].end, r.toks[*s].end],
                    sel: r.tsp(*t),
                    children: vec![],
                }
            }
            _ => continue,
        })
    }
    out
}

fn top_kind(r: &Rendered, t: T) -> &str {
    &r.toks[t].text
}

fn kids(v: &Value) -> &[Value] {
    v["children"].as_array().map_or(&[], |a| a.as_slice())
}

fn check_syms(where_: &str, got: &[Value], want: &[Sym]) -> R {
    for (g, w) in got.iter().zip(want) {
        let name = g["name"].as_str().unwrap_or("(no name)");
        ensure!(
            w.names.iter().any(|n| n == name),
            "in {where_}: expected a symbol named {:?}, got {name:?}",
            w.names[0]
        );
        let here = format!("{where_} > {name}");
        ensure!(g["kind"].as_u64() == Some(w.kind), "{here}: expected kind {}, got {}", w.kind, g["kind"]);
        let deleted = g["tags"].as_array().is_some_and(|t| t.iter().any(|t| t.as_u64() == Some(1)));
        ensure!(deleted == w.deleted, "{here}: marked as deleted: {deleted}, expected: {}", w.deleted);
        let (Some(range), Some(sel)) = (range_of(&g["range"]), range_of(&g["selectionRange"])) else {
            fail!("{here}: no ranges")
        };
        ensure!(
            w.starts.contains(&range.0) && w.ends.contains(&range.1),
            "{here}: expected the range {}, got {}",
            show_range((w.starts[0], w.ends[0])),
            show_range(range)
        );
        ensure!(sel == w.sel, "{here}: expected the selection {}, got {}", show_range(w.sel), show_range(sel));
        check_syms(&here, kids(g), &w.children)?;
    }
    ensure!(
        got.len() == want.len(),
        "in {where_}: expected {} symbols, got {}: {}",
        want.len(),
        got.len(),
        got.iter().map(|g| g["name"].to_string()).collect::<Vec<_>>().join(" ")
    );
    Ok(())
}

/// What holds for every outline: ranges nest, and siblings follow each other
fn check_nesting(where_: &str, got: &[Value], parent: Option<Sp>) -> R<usize> {
    let mut n = 0;
    let mut last: Option<Sp> = None;
    for g in got {
        n += 1;
        let here = format!("{where_} > {}", g["name"].as_str().unwrap_or("?"));
        let (Some(range), Some(sel)) = (range_of(&g["range"]), range_of(&g["selectionRange"])) else {
            fail!("{here}: no ranges")
        };
        ensure!(range.0 <= range.1 && sel.0 <= sel.1, "{here}: a range ends before it starts");
        ensure!(
            range.0 <= sel.0 && sel.1 <= range.1,
            "{here}: the selection {} is not inside of the range {}",
            show_range(sel),
            show_range(range)
        );
        if let Some(p) = parent {
            ensure!(
                p.0 <= range.0 && range.1 <= p.1,
                "{here}: the range {} is not inside of the range {} of the parent",
                show_range(range),
                show_range(p)
            );
        }
        if let Some(l) = last {
            ensure!(
                l.0 < range.0,
                "{here}: the range {} does not come after that of the symbol before, {}",
                show_range(range),
                show_range(l)
            );
        }
        last = Some(range);
        n += check_nesting(&here, kids(g), Some(range))?;
    }
    Ok(n)
}

/// The names in an outline, in order and with their depth
fn outline(got: &[Value], depth: usize, out: &mut Vec<(usize, u64)>) {
    for g in got {
        out.push((depth, g["kind"].as_u64().unwrap_or(0)));
        outline(kids(g), depth + 1, out);
    }
}

/// The same of a tree
fn tree_outline(root: &ginko::dts::DtsFile) -> Vec<(usize, u64)> {
    dump::shape(root)
        .into_iter()
        .map(|(d, k)| {
            (
                d,
                match k {
                    "node" => NODE,
                    "property" => PROPERTY,
                    "include" => FILE,
                    _ => FIELD,
                },
            )
        })
        .collect()
}

/// Whether clients know that they may ask for something
fn announced(caps: &Value, what: &str) -> bool {
    caps[what] == true || caps[what].is_object()
}

fn c19(src: &mut Src, ctx: &mut Ctx) -> R {
    let dir = ctx.fresh_dir();
    let dir = std::fs::canonicalize(dir).expect("scratch");
    let mut c = start(src, ctx);
    let client = client_info(src, Path::new("/gv-no-such-dir"), false);
    ctx.input("the client says", client.to_string());
    let caps = c.initialize_as(client, None)?;
    let linked = src.chance(1, 4);
    ensure!(announced(&caps, "documentSymbolProvider"), "the outline is not announced to clients: {caps}");
    let docs = src.range(1, 12);
    std::os::unix::fs::symlink(".", dir.join("self")).expect("link");
    let mut opened: BTreeSet<String> = BTreeSet::new();
    for k in 0..docs {
        let kind = src.pick(syntax::KINDS);
        let name = format!("d{}{kind}", if src.u(3) == 0 { 0 } else { k });
        let mut path = dir.join(&name);
        // a file that exists and is named through a link
        if name.len() % 2 == 1 && linked {
            std::fs::write(&path, "/ { };").expect("write");
            path = dir.join("self").join(&name);
            ctx.count("named through a link");
        }
        let u = uri(&path);
        let open = !opened.insert(u.clone());
        let send = |c: &mut Client, text: &str| {
            if open {
                c.notify("textDocument/didChange", change_msg(&u, k as i64, &[text.to_string()]));
            } else {
                c.notify("textDocument/didOpen", open_msg(&u, k as i64, text));
            }
        };
        if src.u(3) < 2 {
            let mut doc = syntax::tree_doc(src, ctx);
            if src.u(4) == 0 {
                syntax::corrupt(src, &mut doc);
                ctx.count("with rule violations");
            }
            let style = random_style(src);
            let r = render(src, &doc, style);
            ctx.input(path.display().to_string(), &r.text);
            about_to_run(src, ctx);
            send(&mut c, &r.text);
            let got = c.symbols(&u)?;
            let Some(got) = got.as_array() else { fail!("no outline is given for a well-formed source: {got}") };
            check_syms("the outline", got, &syms(&r))?;
            let n = check_nesting("the outline", got, None)?;
            ctx.count("well-formed");
            if n >= 3 {
                ctx.nontrivial(&r.text);
            }
        } else {
            let text = syntax::broken_text(src, ctx);
            ctx.input(path.display().to_string(), &text);
            about_to_run(src, ctx);
            send(&mut c, &text);
            let got = c.symbols(&u)?;
            let mut p = Project::default();
            p.add_file_with_text(path.clone(), text.clone(), FileType::from(path.as_path()));
            match p.get_root(&path) {
                None => ctx.count("ill-formed, without a tree"),
                Some(root) => {
                    let Some(got) = got.as_array() else { fail!("no outline is given although there is a tree: {got}") };
                    let mut have = vec![];
                    outline(got, 0, &mut have);
                    let want = tree_outline(root);
                    ensure!(have == want, "the outline (depth, kind) {have:?} is not that of the tree {want:?}");
                    let n = check_nesting("the outline", got, None)?;
                    ctx.count("ill-formed, with a tree");
                    if n >= 3 {
                        ctx.nontrivial(&text);
                    }
                }
            }
        }
    }
    c.finish()
}

pub const C19: Check = Check {
    id: "C19",
    f: c19,
    quick: 6_000,
    thorough: 150_000,
    slow: true,
    rule: "a distinct document with at least three symbols",
    assumptions: &[
        "for ill-formed documents the tree is that of the library; only the shape of the outline and the nesting of its ranges are checked",
    ],
};

// ---------------------------------------------------------------------------------------------
// C20

/// All text of a hover answer
fn hover_text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => a.iter().map(hover_text).collect::<Vec<_>>().join("\n"),
        Value::Object(o) => {
            let mut out = vec![];
            for k in ["value", "contents"] {
                if let Some(v) = o.get(k) {
                    out.push(hover_text(v));
                }
            }
            out.join("\n")
        }
        _ => String::new(),
    }
}

fn text_end(text: &str) -> (u32, u32) {
    let line = text.matches('\n').count() as u32;
    let last = text.rsplit('\n').next().unwrap_or("");
    (line, last.encode_utf16().count() as u32)
}

/// The places a definition answer names
fn locations(v: &Value) -> Vec<(Option<PathBuf>, Option<Sp>)> {
    match v {
        Value::Array(a) => a.iter().flat_map(locations).collect(),
        Value::Object(o) => {
            let u = o.get("uri").or(o.get("targetUri")).and_then(|u| u.as_str()).and_then(path_of);
            let r = o.get("range").or(o.get("targetSelectionRange")).and_then(range_of);
            vec![(u, r)]
        }
        _ => vec![],
    }
}

fn c20(src: &mut Src, ctx: &mut Ctx) -> R {
    let opt = WOpt { perturb: src.u(3) == 0, anywhere: true, max_files: 4, drop_semis: src.u(4) == 3, ..WOpt::default() };
    let w = World::generate(src, ctx, &opt);
    w.write(ctx);
    let evals = w.evaluate();
    let mut c = start(src, ctx);
    let client = client_info(src, &w.dir, false);
    ctx.input("the client says", client.to_string());
    let caps = c.initialize_as(client, Some(json!({"includes": w.include_paths()})))?;
    for k in ["hoverProvider", "definitionProvider"] {
        ensure!(announced(&caps, k), "{k} is not announced to clients: {caps}");
    }
    let top = if src.u(6) == 5 { src.u(w.files.len()) } else { w.main() };
    // what the client calls the documents: by a path through a link, now and then
    std::os::unix::fs::symlink(".", w.dir.join("self")).expect("link");
    let linked = src.chance(1, 6);
    if linked {
        ctx.input("documents are named", "through the link self -> .");
        ctx.count("documents named through a link");
    }
    let uri_of = |i: usize| uri(&if linked { w.dir.join("self").join(&w.files[i].name) } else { w.path(i) });
    // the documents may have had other contents before
    for i in 0..w.files.len() {
        let main = i == top;
        if !main && src.u(3) > 0 {
            continue;
        }
        let u = uri_of(i);
        if src.u(2) == 0 {
            let t = worsen(src, ctx, &w, i);
            ctx.input("before", format!("{}:\n{t}", w.files[i].name));
            about_to_run(src, ctx);
            c.notify("textDocument/didOpen", open_msg(&u, 1, &t));
            c.notify("textDocument/didChange", change_msg(&u, 2, &[w.files[i].r.text.clone()]));
        } else {
            about_to_run(src, ctx);
            c.notify("textDocument/didOpen", open_msg(&u, 1, &w.files[i].r.text));
        }
        if !main && src.u(3) == 0 {
            c.notify("textDocument/didClose", close_msg(&u));
        }
    }
    if src.u(4) == 0 {
        c.notify("workspace/didChangeConfiguration", json!({"settings": {"includes": w.include_paths()}}));
    }
    let mut hits = 0;
    for i in w.reachable(top) {
        let f = &w.files[i];
        let path = w.path(i);
        let u = uri_of(i);
        let probes = probe_positions(src, &f.r, 20);
        let pipelined = src.u(2) == 0;
        let mut asked = vec![];
        for pos in probes {
            let params = json!({"textDocument": {"uri": u}, "position": {"line": pos.0, "character": pos.1}});
            let h = c.request("textDocument/hover", params.clone());
            let d = c.request("textDocument/definition", params);
            if !pipelined {
                c.wait(&h)?;
                c.wait(&d)?;
            }
            asked.push((pos, h, d));
        }
        for (pos, h, d) in asked {
            let (h, d) = (c.wait(&h)?, c.wait(&d)?);
            let place = format!("{} at {}:{} (zero-based)", f.name, pos.0, pos.1);
            let (Some(h), Some(d)) = (h.get("result"), d.get("result")) else {
                fail!("{place}: the server answers {h} and {d}")
            };
            let (hover, defs) = (hover_text(h), locations(d));
            let no_hover = h.is_null() || hover.is_empty();
            match written_at(&f.r, pos) {
                Want::Any => continue,
                Want::Nothing => {
                    ctx.count("nothing");
                    ensure!(no_hover && defs.is_empty(), "{place}: nothing is here, but the answers are {h} and {d}");
                }
                Want::Label(l) => {
                    ctx.count("label");
                    ensure!(hover.contains(&l), "{place}: expected hover on the label {l}, got {h}");
                    ensure!(defs.is_empty(), "{place}: a label has no definition, but the answer is {d}");
                }
                Want::Include(t) => {
                    ctx.count("include");
                    let ETop::Inc { name, .. } = &f.r.tops[t] else { unreachable!() };
                    ensure!(hover.contains(name.as_str()), "{place}: expected hover on the include {name}, got {h}");
                    match f.incs.iter().find(|x| x.0 == t) {
                        Some((_, j)) => {
                            let want = w.path(*j);
                            ensure!(
                                defs.len() == 1 && defs[0].0.as_deref() == Some(want.as_path()),
                                "{place}: expected the definition {}, got {d}",
                                want.display()
                            );
                            // the place lies within that file, not within the one that includes it
                            let end = text_end(&w.files[*j].r.text);
                            ensure!(
                                defs[0].1.is_none_or(|r| r.0 <= r.1 && r.1 <= end),
                                "{place}: the definition is a place past the end ({}:{}) of {}: {d}",
                                end.0, end.1, want.display()
                            );
                            hits += 1;
                        }
                        None => continue,
                    }
                }
                Want::Ref(t) => {
                    let r = evals[i].refs.iter().find(|r| r.tok == t).unwrap();
                    if r.late {
                        continue;
                    }
                    match evals[i].env.occurrences(&r.rf) {
                        None => {
                            ctx.count("reference without a node");
                            ensure!(
                                no_hover && defs.is_empty(),
                                "{place}: {} names no node, but the answers are {h} and {d}",
                                r.rf.text()
                            );
                        }
                        Some(occ) => {
                            ctx.count("reference that resolves");
                            if occ.iter().any(|o| o.file != i) {
                                ctx.count("definition in another file");
                            }
                            hits += 1;
                            let ok = defs.len() == 1
                                && occ.iter().any(|o| {
                                    Some(w.path(o.file)) == defs[0].0 && Some(w.files[o.file].r.tsp(o.tok)) == defs[0].1
                                });
                            ensure!(
                                ok,
                                "{place}: the definition of {} is said to be {d}, but it is {:?}",
                                r.rf.text(),
                                occ.iter()
                                    .map(|o| format!("{} {}", w.files[o.file].name, show_range(w.files[o.file].r.tsp(o.tok))))
                                    .collect::<Vec<_>>()
                            );
                            let full = &occ.iter().next().unwrap().name;
                            let base = split_name(full).0;
                            ensure!(
                                hover.split_whitespace().any(|w| w == base || w == full),
                                "{place}: hover does not name the node {full}: {h}"
                            );
                        }
                    }
                }
            }
        }
    }
    // included files that became ill-formed can still be visited
    let f = &w.files[top];
    if !f.incs.is_empty() && src.u(3) == 2 {
        let (_, j) = f.incs[src.u(f.incs.len())];
        let t = src.pick(&["/ {", "/ { a = <", "\"", "/dts-v1/;\n/ { };\n\u{1}", "}", ""]);
        ctx.input("then", format!("{}:\n{t}", w.files[j].name));
        about_to_run(src, ctx);
        c.notify("textDocument/didOpen", open_msg(&uri_of(j), 1, t));
        for (t, j) in &f.incs {
            let ETop::Inc { file, name, .. } = &f.r.tops[*t] else { unreachable!() };
            let pos = f.r.toks[*file].start;
            let params = json!({"textDocument": {"uri": uri_of(top)}, "position": {"line": pos.0, "character": pos.1}});
            let h = c.request("textDocument/hover", params.clone());
            let d = c.request("textDocument/definition", params);
            let (h, d) = (c.wait(&h)?, c.wait(&d)?);
            let (Some(h), Some(d)) = (h.get("result"), d.get("result")) else {
                fail!("include of {name}: the server answers {h} and {d}")
            };
            let defs = locations(d);
            let want = w.path(*j);
            ensure!(hover_text(h).contains(name.as_str()), "expected hover on the include {name}, got {h}");
            ensure!(
                defs.len() == 1 && defs[0].0.as_deref() == Some(want.as_path()),
                "the definition of the include {name} is said to be {d}, but it is {}",
                want.display()
            );
        }
        ctx.count("include of a file that became ill-formed");
    }
    c.finish()?;
    if hits > 0 {
        let all: String = w.files.iter().map(|f| f.r.text.as_str()).collect();
        ctx.nontrivial(&all);
    }
    Ok(())
}

pub const C20: Check = Check {
    id: "C20",
    f: c20,
    quick: 6_000,
    thorough: 150_000,
    slow: true,
    rule: "a distinct project in which at least one reference that resolves or one include was looked up",
    assumptions: &[
        "any place where the node is opened counts as its definition",
        "references to nodes that are only defined later in the file and labels inside values are not judged",
    ],
};

// ---------------------------------------------------------------------------------------------
// C21

fn wild_position(src: &mut Src, text: &str) -> Value {
    let lines = text.lines().count().max(1);
    let (l, ch) = match src.u(6) {
        0 => (0, 0),
        1 => (src.u(lines + 2) as u64, src.u(80) as u64),
        2 => (u32::MAX as u64, u32::MAX as u64),
        3 => (src.u(lines) as u64, u32::MAX as u64),
        4 => (lines as u64, 0),
        _ => (src.u(lines.min(60)) as u64, src.u(30) as u64),
    };
    match src.u(20) {
        18 => json!({"line": -1, "character": ch}),
        19 => json!({"line": l, "character": 5000000000u64}),
        _ => json!({"line": l, "character": ch}),
    }
}

/// What clients tell about themselves when they start
fn client_info(src: &mut Src, dir: &Path, wild: bool) -> Value {
    let mut o = json!({});
    let folder = |src: &mut Src| match src.u(if wild { 8 } else { 3 }) {
        0 => uri(dir),
        1 => uri(&dir.join("inc")),
        2 => uri(&dir.join("nosuch")),
        3 => "untitled:x".to_string(),
        4 => "http://example.com/x".into(),
        5 => "file:///%00".into(),
        6 => "file://host/x".into(),
        _ => "vscode-remote://ssh/x".into(),
    };
    if src.u(2) == 0 {
        return o;
    }
    if src.u(2) == 0 {
        o["rootUri"] = json!(folder(src));
    }
    if src.u(3) == 0 {
        o["rootPath"] = json!(dir.display().to_string());
    }
    if src.u(2) == 0 {
        o["workspaceFolders"] = match src.u(4) {
            0 => Value::Null,
            1 => json!([]),
            2 => json!([{"uri": folder(src), "name": "a"}]),
            _ => json!([{"uri": folder(src), "name": "a"}, {"uri": folder(src), "name": "a"}]),
        };
    }
    if src.u(2) == 0 {
        o["processId"] = json!(std::process::id());
    }
    if src.u(2) == 0 {
        o["clientInfo"] = if src.u(2) == 0 { json!({"name": "gv"}) } else { json!({"name": "gv", "version": "1"}) };
    }
    if src.u(3) == 0 {
        o["trace"] = json!(src.pick(&["off", "messages", "verbose"]));
    }
    if src.u(3) == 0 {
        o["locale"] = json!("de");
    }
    // positions stay those that the protocol has without an agreement, and outlines are nested
    let mut caps = json!({});
    let b = |src: &mut Src| json!(src.u(2) == 0);
    if src.u(2) == 0 {
        caps["workspace"] = json!({
            "configuration": b(src), "workspaceFolders": b(src), "applyEdit": b(src),
            "didChangeConfiguration": {"dynamicRegistration": b(src)},
            "didChangeWatchedFiles": {"dynamicRegistration": b(src)},
        });
    }
    if src.u(2) == 0 {
        let m = if src.u(2) == 0 { json!(["markdown", "plaintext"]) } else { json!(["plaintext"]) };
        caps["textDocument"] = json!({
            "synchronization": {"didSave": b(src), "willSave": b(src), "dynamicRegistration": b(src)},
            "hover": {"contentFormat": m},
            "publishDiagnostics": {"relatedInformation": b(src), "versionSupport": b(src), "codeDescriptionSupport": b(src)},
            "documentSymbol": {"hierarchicalDocumentSymbolSupport": true},
            "definition": {"linkSupport": false, "dynamicRegistration": b(src)},
        });
    }
    if src.u(2) == 0 {
        caps["window"] = json!({"workDoneProgress": b(src)});
    }
    if src.u(3) == 0 {
        caps["general"] = json!({"positionEncodings": ["utf-16"]});
    }
    if src.u(8) == 0 {
        caps["experimental"] = json!({"x": [1]});
    }
    o["capabilities"] = caps;
    o
}

fn wild_settings(src: &mut Src, dir: &Path) -> Value {
    match src.u(10) {
        0 => Value::Null,
        1 => json!({}),
        2 => json!(3),
        3 => json!({"includes": null}),
        4 => json!({"includes": [1, {}]}),
        5 => json!({"includes": "x"}),
        6 => json!(["includes"]),
        7 => json!({"includes": ["", ".", "\u{0}", dir.join("nosuch").display().to_string(), "x".repeat(5000)]}),
        8 => json!({"ginko": {"includes": [dir.display().to_string()]}}),
        _ => json!({"includes": [dir.display().to_string(), dir.join("sub").display().to_string()], "other": true}),
    }
}

fn c21(src: &mut Src, ctx: &mut Ctx) -> R {
    let dir = std::fs::canonicalize(ctx.fresh_dir()).expect("scratch");
    std::fs::create_dir(dir.join("sub")).expect("mkdir");
    std::os::unix::fs::symlink(".", dir.join("self")).expect("link");
    std::os::unix::fs::symlink("loop", dir.join("loop")).expect("link");
    std::fs::write(dir.join("bad.dtsi"), b"/ { a = \"\xff\"; };").expect("write");
    let names = ["a.dts", "b.dtsi", "sub/c.dtsi", "virtual.dts", "gone.dtsi"];
    let on_disk = 3;
    // the server analyses and reports everything again with every step
    let budget = std::cell::Cell::new(120_000usize);
    let text = |src: &mut Src, ctx: &mut Ctx| -> String {
        let mut t = match src.u(5) {
            0 => {
                let d = syntax::tree_doc(src, ctx);
                let style = random_style(src);
                render(src, &d, style).text
            }
            1 => String::new(),
            _ => any_text(src, ctx),
        };
        for _ in 0..src.u(3) {
            let target = src.pick(&["a.dts", "b.dtsi", "sub/c.dtsi", "c.dtsi", "bad.dtsi", "virtual.dts", "nosuch", "loop", "self/a.dts", ".", ""]);
            let inc = format!("/include/ \"{target}\"\n");
            t = if src.u(3) == 0 { t + &inc } else { inc + &t };
        }
        if t.len() > budget.get().max(4000) {
            t = t.chars().take(4000).collect();
        }
        budget.set(budget.get().saturating_sub(t.len()));
        t
    };
    for n in &names[..on_disk] {
        let t = text(src, ctx);
        ctx.input(*n, &t);
        std::fs::write(dir.join(n), t).expect("write");
    }
    let mut uris: Vec<String> = names.iter().map(|n| uri(&dir.join(n))).collect();
    let odd = [
        uri(&dir.join("self/a.dts")),
        uri(&dir),
        uri(&dir.join("bad.dtsi")),
        uri(&dir.join("loop")),
        uri(&dir.join("a.dts/x")),
        format!("{}/../a.dts", uri(&dir.join("sub"))),
        "untitled:Untitled-1".into(),
        "http://example.com/a.dts".into(),
        "file:///".into(),
        "file://host/a.dts".into(),
        "file:///nosuch/%00/a.dts".into(),
        "file:///nosuch/%ff%fe.dts".into(),
        "data:text/plain,x".into(),
        "x:".into(),
        format!("{}#frag", uri(&dir.join("a.dts"))),
        format!("{}?q=1", uri(&dir.join("b.dtsi"))),
        "not a uri".into(),
        "".into(),
    ];
    if src.u(2) == 0 {
        for _ in 0..src.range(1, 3) {
            uris.push(src.pick_of(&odd).clone());
        }
    }
    let mut c = start(src, ctx);
    let mut pending: Vec<(String, String)> = vec![];
    let mut initialized = false;
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    let steps = src.range(1, 25);
    let pipelined = src.u(2) == 0;
    let (mut shut, mut kinds) = (false, BTreeSet::new());
    let early = src.u(8) == 7;
    if !early {
        let options = wild_settings(src, &dir);
        let client = client_info(src, &dir, true);
        ctx.input("step", format!("initialize with {options}, the client says {client}"));
        about_to_run(src, ctx);
        c.initialize_as(client, Some(options))?;
        initialized = true;
    }
    for _ in 0..steps {
        let k = if src.u(3) == 0 { src.u(uris.len()) } else { src.u(names.len().min(uris.len())) };
        let u = uris[k].clone();
        let what = src.weighted(&[8, 8, 4, 3, 6, 6, 6, 5, 2, 1, 1]);
        kinds.insert(what);
        let (method, params, req): (&str, Value, bool) = match what {
            0 => {
                let t = text(src, ctx);
                texts.insert(u.clone(), t.clone());
                ("textDocument/didOpen", open_msg(&u, src.u(3) as i64, &t), false)
            }
            1 => {
                let m = src.weighted(&[1, 6, 2, 1]);
                let ts: Vec<String> = (0..m).map(|_| text(src, ctx)).collect();
                if let Some(t) = ts.last() {
                    texts.insert(u.clone(), t.clone());
                }
                let mut msg = change_msg(&u, src.u(3) as i64, &ts);
                if src.u(10) == 9 {
                    for ch in msg["contentChanges"].as_array_mut().unwrap() {
                        ch["range"] = json!({"start": {"line": 0, "character": 0}, "end": {"line": 9, "character": 9}});
                    }
                }
                ("textDocument/didChange", msg, false)
            }
            2 => ("textDocument/didClose", close_msg(&u), false),
            3 => ("workspace/didChangeConfiguration", json!({"settings": wild_settings(src, &dir)}), false),
            4 | 5 => {
                let t = texts.get(&u).cloned().unwrap_or_default();
                let p = wild_position(src, &t);
                let m = if what == 4 { "textDocument/hover" } else { "textDocument/definition" };
                (m, json!({"textDocument": {"uri": u}, "position": p}), true)
            }
            6 => ("textDocument/documentSymbol", json!({"textDocument": {"uri": u}}), true),
            7 => {
                let m = src.pick(&[
                    "textDocument/didSave",
                    "textDocument/willSave",
                    "workspace/didChangeWatchedFiles",
                    "$/setTrace",
                    "$/unknown",
                    "initialized",
                    "gv/unknown",
                    "workspace/didChangeWorkspaceFolders",
                ]);
                let fitting = match m {
                    "textDocument/didSave" => 0,
                    "textDocument/willSave" => 0,
                    "workspace/didChangeWatchedFiles" => 1,
                    "workspace/didChangeWorkspaceFolders" => 4,
                    "$/setTrace" => 3,
                    _ => 2,
                };
                let p = match if src.u(4) == 3 { src.u(4) } else { fitting } {
                    0 if m == "textDocument/didSave" && src.u(2) == 0 => {
                        let t = texts.get(&u).cloned().unwrap_or_default();
                        json!({"textDocument": {"uri": u}, "text": t})
                    }
                    0 => json!({"textDocument": {"uri": u}, "reason": 1 + src.u(3)}),
                    4 => json!({"event": {"added": [{"uri": u, "name": "x"}], "removed": []}}),
                    1 => json!({"changes": [{"uri": u, "type": 1 + src.u(3)}]}),
                    2 => json!({}),
                    _ => json!({"value": "off"}),
                };
                (m, p, false)
            }
            8 => {
                let m = src.pick(&[
                    "textDocument/completion",
                    "textDocument/references",
                    "workspace/symbol",
                    "gv/unknown",
                    "initialize",
                    "textDocument/hover",
                    "textDocument/documentSymbol",
                    "textDocument/definition",
                ]);
                let p = match src.u(4) {
                    0 => json!({}),
                    1 => json!({"textDocument": {"uri": u}, "position": {"line": 0, "character": 0}}),
                    2 => json!({"textDocument": 3}),
                    _ => json!({"query": "x", "capabilities": {}}),
                };
                (m, p, true)
            }
            9 => {
                let id = pending.last().map_or(json!(1), |p| p.0.parse::<i64>().map_or(json!("x"), |i| json!(i)));
                ("$/cancelRequest", json!({ "id": id }), false)
            }
            _ if !shut && src.u(6) == 5 => {
                shut = true;
                ("shutdown", Value::Null, true)
            }
            _ => ("textDocument/documentSymbol", json!({"textDocument": {"uri": u}}), true),
        };
        ctx.input("step", format!("{method} {params}"));
        about_to_run(src, ctx);
        if req {
            let id = c.request(method, params);
            pending.push((id, method.to_string()));
            if !pipelined || src.u(5) == 0 {
                let (id, _) = pending.last().unwrap().clone();
                c.wait(&id)?;
            }
        } else {
            c.notify(method, params);
        }
        if early && !initialized && src.u(4) == 0 {
            ctx.input("step", "initialize");
            let id = c.request("initialize", json!({"capabilities": {}}));
            pending.push((id, "initialize".into()));
            initialized = true;
        }
    }
    for (id, method) in &pending {
        let v = match c.wait(id) {
            Ok(v) => v,
            Err(f) => return Err(Failure::new(format!("{method}: {}", f.what))),
        };
        match v.get("error") {
            // the code that stands for a failure within the server
            Some(e) if e["code"].as_i64() == Some(-32603) => fail!("{method} fails within the server: {e}"),
            Some(_) => ctx.count(&format!("{method}: answered with an error")),
            None => ctx.count(&format!("{method}: answered")),
        }
    }
    if let Some(o) = c.odd.first() {
        fail!("{o}");
    }
    if early {
        ctx.count("messages before initialize");
    }
    if shut {
        ctx.count("shut down early");
    } else if !early {
        c.finish()?;
    }
    if kinds.len() > 2 {
        let all: String = ctx.inputs.iter().map(|f| f.1.as_str()).collect();
        ctx.nontrivial(&all);
    }
    Ok(())
}

pub const C21: Check = Check {
    id: "C21",
    f: c21,
    quick: 3_000,
    thorough: 80_000,
    slow: true,
    rule: "a distinct session with at least three kinds of messages",
    assumptions: &["messages are valid JSON-RPC; a hang is a session that takes more than 60 s of CPU time or an answer that takes more than 90 s; the texts of a session come to at most about 200 kB"],
};
