//! Checks of projects: includes, references, lookup, histories, the command-line tool.
use super::*;
use crate::dump;
use crate::gen::{Cfg, Gen};
use crate::model::*;
use crate::proj::*;
use crate::render::*;
use crate::{about_to_run, ensure, fail};
use ginko::dts::ItemAtCursor;
use std::collections::{BTreeMap, BTreeSet};

fn fresh(world: &World) -> Project {
    let mut p = Project::default();
    p.set_include_paths(world.include_paths());
    p
}

fn add(p: &mut Project, path: &Path) -> R {
    if let Err(e) = p.add_file(path.display().to_string()) {
        fail!("add_file fails for {}: {e}", path.display());
    }
    Ok(())
}

fn of_kind(ds: &[D], kind: &str) -> Vec<Sp> {
    let mut v: Vec<Sp> = ds.iter().filter(|d| d.kind == kind).map(|d| d.sp).collect();
    v.sort();
    v
}

/// What an include names, by the rules; `dirs` are absolute
pub fn resolve(from: &Path, dirs: &[PathBuf], cwd: &Path, name: &str) -> (Option<PathBuf>, bool) {
    let mut cands = vec![];
    if let Some(p) = from.parent() {
        cands.push(p.join(name));
    }
    cands.extend(dirs.iter().map(|d| d.join(name)));
    cands.push(cwd.join(name));
    let found: Vec<PathBuf> = cands.iter().filter_map(|c| std::fs::canonicalize(c).ok()).collect();
    // a directory in front of a file of the same name: nothing says what happens
    let unclear = found.first().is_some_and(|f| f.is_dir()) && found.iter().any(|f| !f.is_dir());
    (found.into_iter().next(), unclear)
}

// ---------------------------------------------------------------------------------------------
// C05, with includes

/// A project that follows all rules gets no diagnostics
pub fn lawful_world(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = World::generate(src, ctx, &WOpt::default());
    w.write(ctx);
    about_to_run(src, ctx);
    let mut p = fresh(&w);
    add(&mut p, &w.path(w.main()))?;
    for i in w.reachable(w.main()) {
        let got = diags(&p, &w.path(i));
        ensure!(got.is_empty(), "a file of a well-formed project gets diagnostics: {}: {}", w.files[i].name, show_all(&got));
    }
    ctx.count(&format!("projects of {} files", w.reachable(w.main()).len()));
    if w.reachable(w.main()).len() > 1 {
        let all: String = w.files.iter().map(|f| f.r.text.as_str()).collect();
        ctx.nontrivial(&all);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C10

fn c10(src: &mut Src, ctx: &mut Ctx) -> R {
    let opt = WOpt { perturb: true, anywhere: true, max_files: 4, drop_semis: src.u(5) == 4, ..WOpt::default() };
    let w = World::generate(src, ctx, &opt);
    w.write(ctx);
    let evals = w.evaluate();
    about_to_run(src, ctx);
    let mut p = fresh(&w);
    let top = if src.u(6) == 5 { src.u(w.files.len()) } else { w.main() };
    add(&mut p, &w.path(top))?;
    let (mut good, mut bad) = (0, 0);
    for i in w.reachable(top) {
        let got = of_kind(&diags(&p, &w.path(i)), "unresolved_reference");
        let mut want: Vec<Sp> = vec![];
        if w.is_plain(i) {
            for r in &evals[i].refs {
                if r.resolved {
                    good += 1;
                } else {
                    bad += 1;
                    want.push(w.files[i].r.tsp(r.tok));
                    ctx.count(if r.late { "unresolved: defined later" } else { "unresolved" });
                }
            }
        }
        want.sort();
        if got != want {
            let f = &w.files[i];
            let missing: Vec<String> = evals[i]
                .refs
                .iter()
                .filter(|r| !r.resolved && !got.contains(&f.r.tsp(r.tok)))
                .map(|r| format!("{} at {:?}", r.rf.text(), f.r.tsp(r.tok).0))
                .collect();
            let extra: Vec<String> = got
                .iter()
                .filter(|s| !want.contains(s))
                .map(|s| match evals[i].refs.iter().find(|r| f.r.tsp(r.tok) == *s) {
                    Some(r) => format!("{} at {:?}", r.rf.text(), s.0),
                    None => format!("nothing written at {s:?}"),
                })
                .collect();
            fail!(
                "{}: not reported although unresolved: [{}]; reported although defined, or elsewhere, or twice: [{}] (zero-based positions)",
                f.name,
                missing.join(", "),
                extra.join(", ")
            );
        }
    }
    ctx.count_n("resolved references", good);
    ctx.count(&format!("{} files", w.reachable(top).len()));
    if good > 0 && bad > 0 {
        let all: String = w.files.iter().map(|f| f.r.text.as_str()).collect();
        ctx.nontrivial(&all);
    }
    Ok(())
}

pub const C10: Check = Check {
    id: "C10",
    f: c10,
    quick: 120_000,
    thorough: 1_500_000,
    slow: false,
    rule: "a project with at least one resolved and one unresolved reference in a plain source",
    assumptions: &[
        "every label is defined once; a deleted node still counts as defined; includes are evaluated on their own before the including file",
        "no child nodes below an extension whose reference is unresolved (they have no path)",
    ],
};

// ---------------------------------------------------------------------------------------------
// C11

#[derive(Debug, PartialEq)]
pub enum Want {
    Nothing,
    Label(String),
    Ref(usize),
    Include(usize),
    /// labels inside values: not specified
    Any,
}

/// What is written at a position. References are indices into `toks`, includes into `tops`.
pub fn written_at(r: &Rendered, p: Pos) -> Want {
    for (i, t) in r.tops.iter().enumerate() {
        if let ETop::Inc { dir, file, .. } = t {
            let s = r.sp(*dir, *file);
            if s.0 <= p && p < s.1 {
                return Want::Include(i);
            }
        }
    }
    for (i, t) in r.toks.iter().enumerate() {
        if t.absent || !(t.start <= p && p < t.end) {
            continue;
        }
        return match t.kind {
            K::LRef | K::PRef => Want::Ref(i),
            K::Label => {
                fn labels(b: &EBody, out: &mut BTreeSet<T>) {
                    for it in &b.items {
                        match it {
                            EItem::Prop(p) => out.extend(p.label),
                            EItem::Node(n) => {
                                out.extend(n.label);
                                labels(&n.body, out)
                            }
                            _ => {}
                        }
                    }
                }
                let mut ls = BTreeSet::new();
                for t in &r.tops {
                    if let ETop::Root(_, b) | ETop::Ext(_, _, b) = t {
                        labels(b, &mut ls)
                    }
                }
                if ls.contains(&i) {
                    Want::Label(t.text.trim_end_matches(':').to_string())
                } else {
                    Want::Any
                }
            }
            _ => Want::Nothing,
        };
    }
    Want::Nothing
}

pub fn probe_positions(src: &mut Src, r: &Rendered, max: usize) -> Vec<Pos> {
    let mut out = vec![];
    let interesting: Vec<usize> = (0..r.toks.len())
        .filter(|i| matches!(r.toks[*i].kind, K::LRef | K::PRef | K::Label | K::Dir | K::Str))
        .collect();
    for _ in 0..max {
        if r.toks.is_empty() {
            break;
        }
        let i = if !interesting.is_empty() && src.u(4) > 0 { *src.pick_of(&interesting) } else { src.u(r.toks.len()) };
        let t = &r.toks[i];
        let p = match src.u(6) {
            0 => t.start,
            1 | 2 => {
                if t.start.0 == t.end.0 {
                    (t.start.0, t.start.1 + src.u((t.end.1 - t.start.1).max(1) as usize) as u32)
                } else {
                    t.start
                }
            }
            3 => {
                if t.end.1 > 0 {
                    (t.end.0, t.end.1 - 1)
                } else {
                    t.end
                }
            }
            4 => t.end,
            _ => match src.u(4) {
                0 => (t.end.0, t.end.1 + 1),
                1 => (t.start.0, t.start.1.saturating_sub(1)),
                2 => (t.start.0 + 1, 0),
                _ => (src.u(200) as u32, src.u(100) as u32),
            },
        };
        out.push(p);
    }
    out
}

/// A label on several nodes: which of them it denotes is not specified, but it must be the same one
/// for everything that is asked at the end of the file.
fn c11_ambiguous(src: &mut Src, ctx: &mut Ctx) -> R {
    let dir = std::fs::canonicalize(ctx.fresh_dir()).expect("scratch");
    let n = src.range(2, 4);
    let in_include: Vec<bool> = (0..n).map(|_| src.u(2) == 1).collect();
    // some of the nodes may be the same one
    let names: Vec<String> = (0..n).map(|_| format!("n{}", src.u(n))).collect();
    let depth = src.u(3);
    let node = |k: usize| {
        let (a, b) = ("a { ".repeat(depth), " };".repeat(depth));
        format!("/ {{ {a}L: {} {{ }};{b} }};\n", names[k])
    };
    let mut inc = String::new();
    let mut main = String::from("/dts-v1/;\n");
    let at = src.u(n + 1);
    for k in 0..n {
        if k == at {
            main.push_str("/include/ \"i.dtsi\"\n");
        }
        if in_include[k] {
            inc.push_str(&node(k))
        } else {
            main.push_str(&node(k))
        }
    }
    if at == n {
        main.push_str("/include/ \"i.dtsi\"\n");
    }
    let prefix = format!("/{}", "a/".repeat(depth));
    let end = main.lines().count() as u32;
    main.push_str("&L { gv { }; };\n");
    let distinct: BTreeSet<&String> = names.iter().collect();
    let mut refs = vec![("&L".to_string(), Position::new(end, 1))];
    main.push_str("/ {\n");
    for name in &distinct {
        main.push_str(&format!("r-{name} = &{{{prefix}{name}/gv}};\n"));
    }
    main.push_str("r = <&L>;\n};\n");
    refs.push(("&L".into(), Position::new(end + 2 + distinct.len() as u32, 6)));
    std::fs::write(dir.join("i.dtsi"), &inc).expect("write");
    ctx.input("i.dtsi", &inc);
    ctx.input("main.dts", &main);
    about_to_run(src, ctx);
    let mut p = Project::default();
    let path = dir.join("main.dts");
    p.add_file_with_text(path.clone(), main.clone(), FileType::DtSource);
    let bad = of_kind(&diags(&p, &path), "unresolved_reference");
    let good: Vec<&String> = distinct.iter().enumerate().filter(|(i, _)| !bad.iter().any(|s| s.0 .0 == end + 2 + *i as u32)).map(|x| *x.1).collect();
    ensure!(
        good.len() == 1 && bad.len() + 1 == distinct.len(),
        "a label on several nodes: extending it adds a node to {} of them; {}",
        good.len(),
        show_all(&diags(&p, &path))
    );
    for (what, pos) in refs {
        let Some(ItemAtCursor::Reference(r)) = p.find_at_pos(&path, &pos) else { fail!("{what} is not found at {pos:?}") };
        let Some((s, file)) = p.get_node_position(&path, r) else { fail!("no definition for {what} at {pos:?}") };
        let text = if *file == *path { &main } else { &inc };
        let s = dump::sp(s);
        let line: Vec<char> = text.lines().nth(s.0 .0 as usize).unwrap_or("").chars().collect();
        let got: String = line.iter().skip(s.0 .1 as usize).take((s.1 .1 - s.0 .1) as usize).collect();
        ensure!(
            got == *good[0],
            "the label L denotes {prefix}{} where it is extended, but its definition is {got:?} at {s:?} of {}",
            good[0],
            file.display()
        );
    }
    ctx.count("label on several nodes");
    ctx.nontrivial(&format!("{inc}{main}"));
    Ok(())
}

fn c11(src: &mut Src, ctx: &mut Ctx) -> R {
    if src.u(12) == 11 {
        return c11_ambiguous(src, ctx);
    }
    let opt = WOpt { perturb: src.u(3) == 0, anywhere: true, max_files: 4, drop_semis: src.u(4) == 3, ..WOpt::default() };
    let w = World::generate(src, ctx, &opt);
    w.write(ctx);
    let evals = w.evaluate();
    about_to_run(src, ctx);
    let mut p = fresh(&w);
    let top = if src.u(6) == 5 { src.u(w.files.len()) } else { w.main() };
    add(&mut p, &w.path(top))?;
    let mut hits = 0;
    for i in w.reachable(top) {
        let f = &w.files[i];
        let path = w.path(i);
        for pos in probe_positions(src, &f.r, 24) {
            let got = p.find_at_pos(&path, &position(pos));
            let want = written_at(&f.r, pos);
            let shown = match &got {
                None => "nothing".to_string(),
                Some(ItemAtCursor::Label(l)) => format!("label {:?}", l.item()),
                Some(ItemAtCursor::Reference(r)) => format!("reference {}", dump::reference(r)),
                Some(ItemAtCursor::Include(i)) => format!("include {:?}", i.file_name.item()),
                Some(ItemAtCursor::Property(_)) => "a property".into(),
                Some(ItemAtCursor::Node(_)) => "a node".into(),
            };
            let expected = match &want {
                Want::Any => continue,
                Want::Nothing => "nothing".to_string(),
                Want::Label(l) => format!("label {l:?}"),
                Want::Ref(t) => {
                    let u = evals[i].refs.iter().find(|r| r.tok == *t);
                    format!("reference {}", u.map_or("?".into(), |u| dump::model_reference(&u.rf)))
                }
                Want::Include(t) => match &f.r.tops[*t] {
                    ETop::Inc { name, .. } => format!("include {name:?}"),
                    _ => unreachable!(),
                },
            };
            ensure!(
                shown == expected,
                "{} at {}:{} (zero-based): expected {expected}, got {shown}",
                f.name,
                pos.0,
                pos.1
            );
            match &want {
                Want::Nothing => ctx.count("nothing"),
                Want::Label(_) => ctx.count("label"),
                Want::Include(_) => ctx.count("include"),
                _ => {}
            }
            let (Want::Ref(t), Some(ItemAtCursor::Reference(r))) = (want, got) else { continue };
            let u = evals[i].refs.iter().find(|r| r.tok == t).unwrap();
            if u.late {
                continue;
            }
            let def = p.get_node_position(&path, r);
            let doc = p.document_reference(&path, r);
            let occ = evals[i].env.occurrences(&u.rf);
            match occ {
                Some(occ) => {
                    ctx.count("reference that resolves");
                    hits += 1;
                    let Some((s, file)) = def else {
                        fail!("{}: no definition for {} at {}:{}", f.name, u.rf.text(), pos.0, pos.1)
                    };
                    let ok = occ.iter().any(|o| w.files[o.file].r.tsp(o.tok) == dump::sp(s) && w.path(o.file) == *file);
                    ensure!(
                        ok,
                        "{}: the definition of {} is said to be {:?} in {}, but it is {:?}",
                        f.name,
                        u.rf.text(),
                        dump::sp(s),
                        file.display(),
                        occ.iter().map(|o| (&w.files[o.file].name, w.files[o.file].r.tsp(o.tok))).collect::<Vec<_>>()
                    );
                    if occ.iter().any(|o| o.file != i) {
                        ctx.count("definition in another file");
                    }
                    let full = &occ.iter().next().unwrap().name;
                    let base = split_name(full).0;
                    let Some(doc) = doc else { fail!("{}: no documentation for {}", f.name, u.rf.text()) };
                    ensure!(
                        doc.split_whitespace().any(|w| w == base || w == full),
                        "{}: the documentation of {} is {doc:?}, which does not name the node {full}",
                        f.name,
                        u.rf.text()
                    );
                }
                None => {
                    ctx.count("reference without a node");
                    ensure!(
                        def.is_none() && doc.is_none(),
                        "{}: {} does not name a node, but has the definition {:?} and documentation {doc:?}",
                        f.name,
                        u.rf.text(),
                        def.map(|(s, f)| (dump::sp(s), f))
                    );
                }
            }
        }
    }
    if hits > 0 {
        let all: String = w.files.iter().map(|f| f.r.text.as_str()).collect();
        ctx.nontrivial(&all);
    }
    Ok(())
}

pub const C11: Check = Check {
    id: "C11",
    f: c11,
    quick: 60_000,
    thorough: 1_500_000,
    slow: false,
    rule: "a project in which at least one probed position is on a reference that resolves",
    assumptions: &[
        "any occurrence of a re-opened node counts as its definition; labels inside values are not probed",
        "references that are only defined after their place may or may not have a definition",
    ],
};

// ---------------------------------------------------------------------------------------------
// C12

fn c12_name(src: &mut Src, dir: &Path, dirs: &[&str], pool: &[&str]) -> String {
    let d = src.pick(dirs);
    let f = src.pick(pool);
    let rel = if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
    match src.u(16) {
        0..=4 => f.to_string(),
        5 | 6 => rel,
        7 => dir.join(&rel).display().to_string(),
        8 => format!("./{rel}"),
        9 => format!("../{rel}"),
        10 => format!("../../{rel}"),
        11 => format!("{}/../{f}", src.pick(dirs)),
        12 => format!("ld/{f}"),
        13 => src.pick(&["lnk.dtsi", "ld/lnk.dtsi", "a/lnk.dtsi"]).to_string(),
        14 => src.pick(&["bad.dtsi", "broken.dtsi", "loop.dtsi", "dir.dtsi", "nosuch.dtsi", "a/bad.dtsi", "latin1.dtsi"]).to_string(),
        _ => match src.u(8) {
            0 => String::new(),
            1 => ".".into(),
            2 => "..".into(),
            3 => format!("{f}/"),
            4 => format!("{f}/y.dtsi"),
            5 => format!("{f} "),
            6 => "main.dts".into(),
            _ => format!("{}//{f}", d),
        },
    }
}

fn c12(src: &mut Src, ctx: &mut Ctx) -> R {
    std::env::set_current_dir("/").expect("chdir");
    let dir = std::fs::canonicalize(ctx.fresh_dir()).expect("scratch");
    let dirs = ["", "a", "b", "a/c", "ü d"];
    let pool = ["x.dtsi", "y.dtsi", "z.dts", "é 1.h", "q\"\\.dtsi"];
    for d in dirs {
        std::fs::create_dir_all(dir.join(d)).expect("mkdir");
    }
    let mut names: Vec<String> = vec![];
    let den = src.range(2, 4);
    for d in dirs {
        for f in pool {
            if src.u(den) == 0 {
                names.push(if d.is_empty() { f.to_string() } else { format!("{d}/{f}") });
            }
        }
    }
    // now and then, many files: one after the other, or all in one
    let many = if src.chance(1, 120) { src.range(34, 90) } else { 0 };
    let star = many > 0 && src.u(2) == 0;
    let first_extra = names.len();
    for k in 0..many {
        names.push(format!("b/k{k}.dtsi"));
    }
    let main_dir = *src.pick_of(&dirs);
    names.push(if main_dir.is_empty() { "main.dts".into() } else { format!("{main_dir}/main.dts") });
    let mut docs: BTreeMap<PathBuf, (Rendered, usize)> = BTreeMap::new();
    let n_files = names.len();
    for (i, name) in names.iter().enumerate() {
        let main = i + 1 == n_files;
        let mut tops = vec![];
        if name.ends_with(".dts") {
            tops.push(Top::Header);
        }
        let n = if main { src.range(1, 5) } else { src.weighted(&[3, 3, 1, 1]) };
        let n = if i >= first_extra && !main { src.u(2) } else { n };
        let mut markers = 0;
        if i >= first_extra && many > 0 {
            if main {
                for k in 0..if star { many } else { 1 } {
                    tops.push(Top::Inc(dir.join(format!("b/k{k}.dtsi")).display().to_string(), false));
                }
            } else if !star && i + 2 < n_files {
                tops.push(Top::Inc(format!("k{}.dtsi", i - first_extra + 1), false));
            }
        }
        for _ in 0..n {
            let name = c12_name(src, &dir, &dirs, &pool);
            if src.u(12) == 11 {
                tops.push(Top::CInc(name));
            } else {
                tops.push(Top::Inc(name, false));
            }
            if src.u(4) == 3 {
                tops.push(Top::Mem(Num { text: "0".into(), val: Some(0) }, Num { text: "1".into(), val: Some(1) }));
            }
        }
        if src.u(2) == 0 {
            markers = 1;
            let k = src.range(usize::from(name.ends_with(".dts")), tops.len());
            let cell = VK::Cells(vec![(None, CellD::Num(Num { text: "1".into(), val: Some(1) }))], None);
            let p = Prop { omit: false, label: None, name: "compatible".into(), vals: vec![Val::of(cell)] };
            tops.insert(k, Top::Root(Body { items: vec![Item::Prop(p)] }));
        }
        if main {
            tops.push(Top::Ext(Rf::L("nosuchlabel".into()), Body::default()));
        }
        let doc = Doc { tops };
        let style = random_style(src);
        let r = render(src, &doc, style);
        std::fs::write(dir.join(name), &r.text).expect("write");
        ctx.input(name, &r.text);
        docs.insert(dir.join(name), (r, markers));
    }
    // things that are not (readable) files, and links
    use std::os::unix::fs::symlink;
    for d in ["", "a"] {
        let d = dir.join(d);
        if src.u(2) == 0 {
            let _ = std::fs::write(d.join("bad.dtsi"), b"/ { a = \"\xff\"; };");
        }
        if src.u(2) == 0 {
            let k = src.u(n_files);
            let _ = symlink(dir.join(&names[k]), d.join("lnk.dtsi"));
            ctx.input("link", format!("{}/lnk.dtsi -> {}", d.display(), names[k]));
        }
    }
    let _ = std::fs::write(dir.join("latin1.dtsi"), b"// \xe9\n");
    let _ = symlink("nowhere", dir.join("broken.dtsi"));
    let _ = symlink("loop.dtsi", dir.join("loop.dtsi"));
    let _ = std::fs::create_dir(dir.join("b/dir.dtsi"));
    let ld = *src.pick_of(&dirs);
    let _ = symlink(dir.join(ld), dir.join("ld"));
    ctx.input("link", format!("ld -> {ld}"));
    let cwd = dir.join(*src.pick_of(&dirs));
    std::env::set_current_dir(&cwd).expect("chdir");
    ctx.input("working directory", cwd.display().to_string());
    // include directories
    let mut spelled = vec![];
    for _ in 0..src.weighted(&[2, 3, 3, 2]) {
        let d = *src.pick_of(&dirs);
        spelled.push(match src.u(8) {
            0 => format!("../{d}"),
            1 => d.to_string(),
            2 => dir.join("ld").display().to_string(),
            3 => dir.join("nosuchdir").display().to_string(),
            4 => dir.join("latin1.dtsi").display().to_string(),
            5 => format!("{}/../{d}", dir.join(d).display()),
            _ => dir.join(d).display().to_string(),
        });
    }
    spelled.retain(|s| !s.is_empty());
    ctx.input("include directories", spelled.join(" : "));
    let inc: Vec<PathBuf> = spelled.iter().filter_map(|s| std::fs::canonicalize(cwd.join(s)).ok()).collect();
    // what is loaded
    let main = dir.join(names.last().unwrap());
    let mut opened = vec![main.clone()];
    if src.u(5) == 4 {
        opened.push(dir.join(&names[src.u(n_files)]));
    }
    let mut loaded: BTreeSet<PathBuf> = BTreeSet::new();
    let mut bad: BTreeMap<PathBuf, Vec<Sp>> = BTreeMap::new();
    let mut todo = opened.clone();
    let mut n_bad = 0;
    while let Some(f) = todo.pop() {
        if !loaded.insert(f.clone()) {
            continue;
        }
        let (r, _) = &docs[&f];
        for t in &r.tops {
            let ETop::Inc { dir: d, file, name, .. } = t else { continue };
            let (target, unclear) = resolve(&f, &inc, &cwd, name);
            if unclear {
                ctx.count("a directory hides a file, skipped");
                return Ok(());
            }
            match target {
                Some(t) if docs.contains_key(&t) => todo.push(t),
                _ => {
                    n_bad += 1;
                    bad.entry(f.clone()).or_default().push(r.sp(*d, *file));
                }
            }
        }
    }
    about_to_run(src, ctx);
    let mut p = Project::default();
    p.set_include_paths(spelled);
    for o in &opened {
        let rel = o.strip_prefix(&dir).unwrap().to_path_buf();
        let path = match src.u(5) {
            0 if cwd == dir => rel,
            1 => o.parent().unwrap().join(".").join(o.file_name().unwrap()),
            2 => dir.join("a/c/../..").join(rel),
            3 if ld == main_dir && *o == main => dir.join("ld/main.dts"),
            _ => o.clone(),
        };
        if src.u(3) == 0 {
            let ty = FileType::from(path.as_path());
            p.add_file_with_text(path, docs[o].0.text.clone(), ty);
        } else {
            add(&mut p, &path)?;
        }
    }
    let got: BTreeSet<PathBuf> = p.files().map(|f| f.to_path_buf()).collect();
    ensure!(
        got == loaded,
        "files that should be loaded, but are not: {:?}; loaded, but should not be: {:?}",
        loaded.difference(&got).collect::<Vec<_>>(),
        got.difference(&loaded).collect::<Vec<_>>()
    );
    for f in &loaded {
        let ds = diags(&p, f);
        let mut want = bad.remove(f).unwrap_or_default();
        want.sort();
        let io = of_kind(&ds, "io_error");
        ensure!(
            io == want,
            "{}: includes that cannot be read are at {want:?}, reported are {io:?}: {}",
            f.display(),
            show_all(&ds)
        );
        let (r, markers) = &docs[f];
        ensure!(
            of_kind(&ds, "non_string_in_compatible").len() == *markers,
            "{}: the rest of the file is not analysed: {}",
            f.display(),
            show_all(&ds)
        );
        let unresolved = of_kind(&ds, "unresolved_reference");
        let expected: Vec<Sp> =
            r.tops.iter().filter_map(|t| if let ETop::Ext(t, _, _) = t { Some(r.tsp(*t)) } else { None }).collect();
        ensure!(unresolved == expected, "{}: the rest of the file is not analysed: {}", f.display(), show_all(&ds));
        for d in &ds {
            ensure!(
                matches!(
                    d.kind.as_str(),
                    "io_error" | "non_string_in_compatible" | "unresolved_reference" | "cyclic_dependency_error" | "errors_in_include"
                ),
                "{}: unexpected diagnostic {}",
                f.display(),
                d.show()
            );
            ensure!(d.file == *f, "a diagnostic of {} says that it is in {}", f.display(), d.file.display());
        }
        match p.get_root(f) {
            None => fail!("{} has no tree", f.display()),
            Some(root) => {
                if let Some(d) = dump::diff(&dump::actual(root, true), &dump::expected(r, true)) {
                    fail!("{}: not the contents of the file: {d}", f.display())
                }
            }
        }
    }
    ctx.count(&format!("{} files loaded", loaded.len().min(9)));
    ctx.count_n("includes that cannot be read", n_bad);
    if loaded.len() > 1 {
        let all: String = ctx.inputs.iter().map(|f| format!("{}{}", f.0, f.1)).collect();
        ctx.nontrivial(&all);
    }
    std::env::set_current_dir("/").expect("chdir");
    Ok(())
}

pub const C12: Check = Check {
    id: "C12",
    f: c12,
    quick: 40_000,
    thorough: 800_000,
    slow: false,
    rule: "a project in which at least one include is loaded",
    assumptions: &["the directory of an including file is that of the file itself, not of a link to it; a directory that hides a later file of the same name is not judged"],
};

// ---------------------------------------------------------------------------------------------
// C13

fn reach(g: &BTreeMap<PathBuf, Vec<(Sp, PathBuf)>>, from: &Path) -> BTreeSet<PathBuf> {
    let mut out = BTreeSet::new();
    let mut todo: Vec<PathBuf> = g.get(from).map(|e| e.iter().map(|(_, t)| t.clone()).collect()).unwrap_or_default();
    while let Some(f) = todo.pop() {
        if out.insert(f.clone()) {
            todo.extend(g.get(&f).into_iter().flatten().map(|(_, t)| t.clone()));
        }
    }
    out
}

fn check_cycles(p: &Project, g: &BTreeMap<PathBuf, Vec<(Sp, PathBuf)>>) -> R<bool> {
    let mut left: BTreeMap<PathBuf, Vec<(Sp, PathBuf)>> = BTreeMap::new();
    let mut any = false;
    for (f, edges) in g {
        let ds = diags(p, f);
        let cyc: Vec<&D> = ds.iter().filter(|d| d.kind == "cyclic_dependency_error").collect();
        for d in &cyc {
            ensure!(
                edges.iter().any(|(s, _)| *s == d.sp),
                "{}: a cycle is reported where no include is: {}",
                f.display(),
                d.show()
            );
            ensure!(d.sev == "error", "a cycle is reported as {}", d.sev);
        }
        for (s, to) in edges {
            let here: Vec<&&D> = cyc.iter().filter(|d| d.sp == *s).collect();
            ensure!(here.len() <= 1, "{}: the cycle is reported {} times at {s:?}", f.display(), here.len());
            let Some(d) = here.first() else {
                left.entry(f.clone()).or_default().push((*s, to.clone()));
                continue;
            };
            any = true;
            ensure!(
                reach(g, to).contains(to),
                "{}: the include of {} is blamed for a cycle, but that file lies on none: {}",
                f.display(),
                to.display(),
                d.show()
            );
            let Some((_, list)) = d.msg.split_once(": ") else { fail!("no cycle in the message {:?}", d.msg) };
            let list: Vec<PathBuf> = list.split(" -> ").map(PathBuf::from).collect();
            let edge = |a: &PathBuf, b: &PathBuf| g.get(a).is_some_and(|e| e.iter().any(|(_, t)| t == b));
            let forward = list.windows(2).all(|w| edge(&w[0], &w[1]));
            let backward = list.windows(2).all(|w| edge(&w[1], &w[0]));
            ensure!(
                list.len() >= 2 && list.first() == list.last() && (forward || backward),
                "{}: the message does not list a cycle of includes: {:?}",
                f.display(),
                d.msg
            );
        }
    }
    for f in g.keys() {
        ensure!(
            !reach(&left, f).contains(f),
            "{} lies on a cycle of includes of which none has an error",
            f.display()
        );
    }
    Ok(any)
}

/// Something that is no include
fn filler(src: &mut Src) -> Top {
    let node = |items| Item::Node(NodeD { omit: false, label: None, name: "n".into(), body: Body { items } });
    let prop = |name: &str| Item::Prop(Prop { omit: false, label: None, name: name.into(), vals: vec![] });
    match src.u(8) {
        0 => Top::Header,
        1 => Top::Plugin,
        2 => Top::Mem(Num { text: "1".into(), val: Some(1) }, Num { text: "2".into(), val: Some(2) }),
        3 => Top::Ext(Rf::P("/n".into()), Body::default()),
        4 => Top::Ext(Rf::L("l".into()), Body { items: vec![prop("p")] }),
        5 => Top::Root(Body { items: vec![prop("p"), node(vec![prop("q")])] }),
        6 => Top::Del(Rf::L("l".into())),
        _ => Top::Root(Body { items: vec![node(vec![node(vec![])])] }),
    }
}

fn c13(src: &mut Src, ctx: &mut Ctx) -> R {
    let dir = std::fs::canonicalize(ctx.fresh_dir()).expect("scratch");
    std::fs::create_dir(dir.join("d")).expect("mkdir");
    std::os::unix::fs::symlink(".", dir.join("self")).expect("link");
    let n = match src.u(6) {
        5 => src.range(5, 14),
        4 => 1,
        _ => src.range(2, 5),
    };
    // now and then, a file with many includes
    let big = src.chance(1, 200);
    let n = if big { src.range(9, 90) } else { n };
    let hub = (big && src.u(3) > 0).then_some(n - 1);
    let back = if src.u(2) == 0 { src.u(n) } else { n };
    let names: Vec<String> = (0..n)
        .map(|i| format!("{}f{i}.{}", src.pick(&["", "", "d/"]), src.pick(&["dtsi", "dts", "dtsi"])))
        .collect();
    let shape = src.u(4);
    let density = src.range(1, 3);
    let make = |src: &mut Src, i: usize| -> (Doc, Vec<usize>) {
        let mut tops = vec![];
        let filled = src.u(2) == 0;
        if names[i].ends_with(".dts") {
            tops.push(Top::Header);
        }
        let mut to = vec![];
        for j in 0..n {
            let p = match shape {
                // no cycles, much sharing
                0 => j < i,
                // mostly chains
                1 => j == i + 1 || j == 0 && i + 1 == n && src.u(2) == 0,
                // mostly trees with an edge back
                2 => j < i || src.u(n * 2) == 0,
                _ => true,
            };
            if hub.is_some_and(|h| i == h && j != h || i == back && j == h) || p && (shape == 1 || src.u(n) < density) {
                to.push(j);
                if src.u(8) == 7 {
                    to.push(j);
                }
            }
        }
        let k = src.u(to.len().max(1));
        let k = k.min(to.len());
        to.rotate_left(k);
        for j in &to {
            let mut s = spell(src, &dir, &names[i], &names[*j], &[]);
            if src.u(10) == 9 && !s.starts_with('/') && !names[i].starts_with("d/") {
                s = format!("self/{s}");
            }
            if filled && src.u(3) == 0 {
                tops.push(filler(src));
            }
            tops.push(Top::Inc(s, false));
            if src.u(4) == 3 {
                tops.push(Top::Root(Body::default()));
            }
        }
        if filled && src.u(2) == 0 {
            tops.push(filler(src));
        }
        (Doc { tops }, to)
    };
    let mut texts: Vec<(String, Vec<(Sp, PathBuf)>)> = vec![];
    let lay = |src: &mut Src, doc: &Doc, to: &[usize]| -> (String, Vec<(Sp, PathBuf)>) {
        let style = if src.u(3) == 0 { random_style(src) } else { Style::Plain };
        let mut r = render(src, doc, style);
        // errors that have nothing to do with includes
        if to.is_empty() && src.u(6) == 5 {
            r.text.push('\n');
            r.text.push_str(src.pick(&[
                "/ {", "/ { a", "/ { a = ", "/ { a = <1", "/ { a = [1", "/ { n {", "/ { /delete-node/", "/ { x:", "&l", "&{/n} {", "/delete-node/",
                "/memreserve/ 1", "/", "x:", "}", "/ { a = \"", "/ { }; ;", "/ { /bits/", "/ { a = <(1", "/ { a = &", "/omit-if-no-ref/", "/* ",
            ]));
        }
        let spans: Vec<Sp> =
            r.tops.iter().filter_map(|t| if let ETop::Inc { dir, file, .. } = t { Some(r.sp(*dir, *file)) } else { None }).collect();
        (r.text, spans.into_iter().zip(to.iter().map(|j| dir.join(&names[*j]))).collect())
    };
    for i in 0..n {
        let (doc, to) = make(src, i);
        let t = lay(src, &doc, &to);
        std::fs::write(dir.join(&names[i]), &t.0).expect("write");
        ctx.input(&names[i], &t.0);
        texts.push(t);
    }
    let mut p = Project::default();
    let mut open: BTreeSet<usize> = BTreeSet::new();
    let mut cyclic = false;
    let steps = src.range(1, 4);
    for step in 0..steps {
        let i = if step == 0 && src.u(2) == 0 { n - 1 } else { src.u(n) };
        if step > 0 && src.u(2) == 0 {
            let (doc, to) = make(src, i);
            texts[i] = lay(src, &doc, &to);
        } else if !open.contains(&i) && src.u(2) == 0 {
            about_to_run(src, ctx);
            ctx.input("step", format!("add {}", names[i]));
            add(&mut p, &dir.join(&names[i]))?;
            open.insert(i);
        }
        if !open.contains(&i) || step > 0 {
            ctx.input("step", format!("add {} with the text\n{}", names[i], texts[i].0));
            about_to_run(src, ctx);
            let path = dir.join(&names[i]);
            let ty = FileType::from(path.as_path());
            p.add_file_with_text(path, texts[i].0.clone(), ty);
            open.insert(i);
        }
        // the current graph
        let mut g: BTreeMap<PathBuf, Vec<(Sp, PathBuf)>> = BTreeMap::new();
        let mut todo: Vec<usize> = open.iter().copied().collect();
        while let Some(i) = todo.pop() {
            let path = dir.join(&names[i]);
            if g.insert(path, texts[i].1.clone()).is_none() {
                todo.extend(texts[i].1.iter().map(|(_, t)| names.iter().position(|n| dir.join(n) == *t).unwrap()));
            }
        }
        let c = check_cycles(&p, &g)?;
        cyclic |= c;
        ctx.count(if c { "cyclic states" } else { "acyclic states" });
        let edges: usize = g.values().map(|e| e.len()).sum();
        if edges > 1 {
            ctx.nontrivial(&format!("{g:?}"));
        }
    }
    if cyclic {
        ctx.count("cases with a cycle");
    }
    Ok(())
}

pub const C13: Check = Check {
    id: "C13",
    f: c13,
    quick: 60_000,
    thorough: 1_500_000,
    slow: false,
    rule: "a distinct include graph with at least two edges",
    assumptions: &["an include that leads into a cycle without lying on it may be blamed (its target lies on the cycle)"],
};

// ---------------------------------------------------------------------------------------------
// texts with all kinds of problems, for C14, C15, C17

/// Worsens the files of a world; afterwards only the texts are meaningful
pub fn worsen(src: &mut Src, ctx: &mut Ctx, w: &World, i: usize) -> String {
    let f = &w.files[i];
    let mut doc = f.doc.clone();
    let style = random_style(src);
    match src.weighted(&[6, 3, 3, 3, 2, if i > 0 { 1 } else { 0 }]) {
        0 => f.r.text.clone(),
        // the same text as another file
        5 => w.files[src.u(i)].r.text.clone(),
        1 => {
            // warnings only
            let cell = VK::Cells(vec![], None);
            let p = Prop { omit: false, label: None, name: "compatible".into(), vals: vec![Val::of(cell)] };
            let long = Prop { omit: false, label: None, name: "p".repeat(32), vals: vec![] };
            let it = if src.u(2) == 0 { p } else { long };
            // many of them, maybe with an error after or before them
            let n = if src.u(6) == 5 { src.range(2, 70) } else { 1 };
            for _ in 0..n {
                doc.tops.push(Top::Root(Body { items: vec![Item::Prop(it.clone())] }));
            }
            let node = NodeD { omit: false, label: None, name: "n?x".into(), body: Body::default() };
            let bad = Top::Root(Body { items: vec![Item::Node(node)] });
            if n > 1 {
                match src.u(5) {
                    3 => doc.tops.push(bad),
                    4 => {
                        let k = src.range(doc.tops.len() - n, doc.tops.len());
                        doc.tops.insert(k, bad);
                    }
                    _ => {}
                }
            }
            render(src, &doc, style).text
        }
        2 => {
            // an error
            let t = match src.u(4) {
                0 => Top::Ext(Rf::L("nosuchlabel".into()), Body::default()),
                1 => Top::Header,
                2 => Top::Inc("nosuchfile".into(), src.u(2) == 0),
                _ => {
                    let n = NodeD { omit: false, label: None, name: "n?x".into(), body: Body::default() };
                    Top::Root(Body { items: vec![Item::Node(n)] })
                }
            };
            doc.tops.push(t);
            render(src, &doc, style).text
        }
        3 => {
            syntax::corrupt(src, &mut doc);
            for t in &mut doc.tops {
                if let Top::Inc(n, _) = t {
                    if n == "/dev/null" {
                        *n = "nosuchfile".into()
                    }
                }
            }
            render(src, &doc, style).text
        }
        _ => {
            ctx.count("mutated text");
            let (mut toks, _) = emit(&doc);
            syntax::mutate(src, &ctx.dict, &mut toks, true);
            layout(src, &mut toks, style)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C14

fn include_graph(p: &Project, dirs: &[PathBuf]) -> BTreeMap<PathBuf, Vec<(Sp, PathBuf)>> {
    let mut g = BTreeMap::new();
    for f in p.files() {
        let mut edges = vec![];
        if let Some(root) = p.get_root(f) {
            for (s, name) in dump::includes(root) {
                if let (Some(t), _) = resolve(f, dirs, Path::new("/"), &name) {
                    edges.push((s, t));
                }
            }
        }
        g.insert(f.to_path_buf(), edges);
    }
    g
}

fn c14(src: &mut Src, ctx: &mut Ctx) -> R {
    let opt = WOpt { perturb: src.u(2) == 0, anywhere: true, max_files: 6, max_items: 3, ..WOpt::default() };
    let w = World::generate(src, ctx, &opt);
    let dirs: Vec<PathBuf> = w.include_paths().iter().map(PathBuf::from).collect();
    for d in WORLD_DIRS {
        std::fs::create_dir_all(w.dir.join(d)).expect("mkdir");
    }
    let n = w.files.len();
    let mut texts = vec![];
    for i in 0..n {
        let t = worsen(src, ctx, &w, i);
        std::fs::write(w.path(i), &t).expect("write");
        ctx.input(&w.files[i].name, &t);
        texts.push(t);
    }
    let mut p = fresh(&w);
    let steps = src.weighted(&[0, 3, 2, 1, 1]);
    let mut text_of: BTreeMap<usize, String> = BTreeMap::new();
    for step in 0..steps {
        let i = if step == 0 && src.u(3) > 0 { w.main() } else { src.u(n) };
        let path = w.path(i);
        let t = if src.u(3) == 0 { texts[i].clone() } else if step == 0 { texts[i].clone() } else { worsen(src, ctx, &w, i) };
        ctx.input("step", format!("add {} with the text\n{t}", w.files[i].name));
        about_to_run(src, ctx);
        let ty = FileType::from(path.as_path());
        p.add_file_with_text(path, t.clone(), ty);
        text_of.insert(i, t);
        let g = include_graph(&p, &dirs);
        if g.keys().any(|f| reach(&g, f).contains(f)) {
            ctx.count("cyclic, skipped");
            return Ok(());
        }
        all_are_listed(&p)?;
        let mut chain = 0;
        for (f, edges) in &g {
            let ds = diags(&p, f);
            let got = of_kind(&ds, "errors_in_include");
            if p.get_root(f).is_none() {
                continue;
            }
            let mut want = vec![];
            for (s, to) in edges {
                if !g.contains_key(to) {
                    continue;
                }
                let theirs = diags(&p, to);
                if theirs.iter().any(|d| d.sev == "error") {
                    want.push(*s);
                    if theirs.iter().all(|d| d.sev != "error" || d.kind == "errors_in_include") {
                        chain += 1;
                    }
                } else if !theirs.is_empty() {
                    ctx.count("includes of files with warnings only");
                } else {
                    ctx.count("includes of files without diagnostics");
                }
            }
            want.sort();
            ensure!(
                got == want,
                "{}: includes of files with errors are at {want:?}, but the flagged ones are {got:?}; its diagnostics: {}",
                f.display(),
                show_all(&ds)
            );
            for d in &ds {
                ensure!(
                    d.kind != "errors_in_include" || d.sev == "error",
                    "errors in an include are a mere {}",
                    d.sev
                );
            }
            ctx.count_n("includes of files with errors", want.len() as u64);
        }
        ctx.count_n("errors only through further includes", chain);
        if g.values().any(|e| !e.is_empty()) {
            ctx.nontrivial(&format!("{:?}", text_of));
        }
        // included files keep their own diagnostics
        if step == 0 && g.len() > 1 {
            let k = src.u(g.len());
            let f = g.keys().nth(k).unwrap();
            if *f != w.path(i) {
                let mut q = fresh(&w);
                add(&mut q, f)?;
                let (a, b) = (diags(&p, f), diags(&q, f));
                ensure!(
                    a == b,
                    "{}: has the diagnostics {} when included, but {} on its own",
                    f.display(),
                    show_all(&a),
                    show_all(&b)
                );
            }
        }
    }
    Ok(())
}

pub const C14: Check = Check {
    id: "C14",
    f: c14,
    quick: 60_000,
    thorough: 1_500_000,
    slow: false,
    rule: "a distinct state of a project in which at least one include is present",
    assumptions: &["projects with cyclic includes and files without a tree are not judged"],
};

// ---------------------------------------------------------------------------------------------
// C15

/// Everything observable of a project
pub fn snapshot(p: &Project) -> Vec<String> {
    let mut files: Vec<&Path> = p.files().collect();
    files.sort();
    let mut out = vec![];
    for f in files {
        out.push(format!("file {}", f.display()));
        for d in diags(p, f) {
            out.push(format!("  {} in {}", d.show(), d.file.display()));
        }
        if let Some(pf) = p.get_file(f) {
            out.push(format!("  source {:016x}", hash_str(pf.source())));
        }
        match p.get_root(f) {
            None => out.push("  no tree".into()),
            Some(r) => {
                out.extend(dump::actual(r, true).into_iter().map(|l| format!("  {l}")));
                for (s, r) in dump::references(r) {
                    let def = p.get_node_position(f, r).map(|(s, f)| format!("{:?} {}", dump::sp(s), f.display()));
                    out.push(format!("  {:?} {} is {:?}, {:?}", s.0, dump::reference(r), def, p.document_reference(f, r)));
                }
            }
        }
    }
    let mut all = p.all_diagnostics().count() as i64;
    for f in p.files() {
        all -= p.get_diagnostics(f).count() as i64;
    }
    out.push(format!("{all} other diagnostics"));
    out
}

/// The diagnostics of the project are those of its files
fn all_are_listed(p: &Project) -> R {
    let show = |d: &ginko::dts::Diagnostic| format!("{} {:?} {:?}", d.source.display(), dump::sp(d.span()), d.message);
    let mut all: Vec<String> = p.all_diagnostics().map(show).collect();
    let mut each: Vec<String> = p.files().flat_map(|f| p.get_diagnostics(f).map(show).collect::<Vec<_>>()).collect();
    all.sort();
    each.sort();
    ensure!(all == each, "these are the diagnostics of all files:\n{}\nbut these are those of the project:\n{}", each.join("\n"), all.join("\n"));
    Ok(())
}

fn c15(src: &mut Src, ctx: &mut Ctx) -> R {
    let opt = WOpt { perturb: src.u(2) == 0, anywhere: true, max_files: 4, max_items: 3, ..WOpt::default() };
    let w = World::generate(src, ctx, &opt);
    for d in WORLD_DIRS.iter().chain(&["other"]) {
        std::fs::create_dir_all(w.dir.join(d)).expect("mkdir");
    }
    let n = w.files.len();
    // the order of the include directories matters
    let clash = src.u(4) == 3;
    let any_include = |src: &mut Src, i: usize| {
        let j = src.u(n);
        let dirs = ["inc".to_string(), "sub dir".to_string(), "other".to_string()];
        let mut s = spell(src, &w.dir, &w.files[i].name, &w.files[j].name, &dirs);
        match src.u(8) {
            7 => s = "bad.dtsi".into(),
            6 => s = "virtual.dts".into(),
            5 => s = w.files[j].name.rsplit('/').next().unwrap().to_string(),
            0..=4 if clash => s = w.files[j].name.rsplit('/').next().unwrap().to_string(),
            _ => {}
        }
        Top::Inc(s, false)
    };
    let variant = |src: &mut Src, ctx: &mut Ctx, i: usize| -> String {
        match src.weighted(&[3, 4, 3, 1]) {
            0 => w.files[i].r.text.clone(),
            1 => worsen(src, ctx, &w, i),
            2 => {
                let mut d = w.files[i].doc.clone();
                let k = src.u(d.tops.len() + 1);
                let t = any_include(src, i);
                d.tops.insert(k, t);
                if src.u(2) == 0 {
                    let k = src.u(d.tops.len());
                    d.tops.remove(k);
                }
                render(src, &d, Style::Plain).text
            }
            _ => {
                // the contents of another file
                let j = src.u(n);
                w.files[j].r.text.clone()
            }
        }
    };
    for i in 0..n {
        let t = variant(src, ctx, i);
        std::fs::write(w.path(i), &t).expect("write");
        ctx.input(&w.files[i].name, &t);
        // a file of the same name elsewhere
        if clash || src.u(3) == 2 {
            let base = w.files[i].name.rsplit('/').next().unwrap().to_string();
            for _ in 0..if clash { 5 } else { src.range(1, 2) } {
                let d = src.pick(&["inc", "sub dir", "other"]);
                let path = w.dir.join(d).join(&base);
                if !path.exists() {
                    let t = variant(src, ctx, i);
                    ctx.input(format!("{d}/{base}"), &t);
                    std::fs::write(&path, &t).expect("write");
                }
            }
        }
    }
    std::fs::write(w.dir.join("bad.dtsi"), b"/ { a = \"\xff\"; };").expect("write");
    std::os::unix::fs::symlink(".", w.dir.join("self")).expect("link");
    // what can be opened
    let mut paths: Vec<PathBuf> = (0..n).map(|i| w.path(i)).collect();
    paths.push(w.dir.join("bad.dtsi"));
    paths.push(w.dir.join("virtual.dts"));
    let mut p = Project::default();
    let mut open: BTreeMap<PathBuf, (String, FileType)> = BTreeMap::new();
    let mut dirs: Vec<String> = vec![];
    // files need not be of the kind that their names suggest
    let odd_kinds = src.u(5) == 4;
    let kind = |src: &mut Src, path: &Path| match src.u(6) {
        5 if odd_kinds => FileType::DtSource,
        4 if odd_kinds => FileType::DtSourceInclude,
        3 if odd_kinds => [FileType::DtSourceOverlay, FileType::Unknown][src.u(2)],
        _ => FileType::from(path),
    };
    // what could not be added leaves no trace
    if src.u(6) == 5 {
        let k = src.u(n);
        let path = w.path(k);
        let t = std::fs::read(&path).expect("read");
        let gone = src.u(2) == 0;
        if gone {
            std::fs::remove_file(&path).expect("remove");
        } else {
            std::fs::write(&path, b"/ { a = \"\xff\"; };").expect("write");
        }
        ctx.input("step", format!("add {} from disk while it {}", path.display(), if gone { "is missing" } else { "is not UTF-8" }));
        about_to_run(src, ctx);
        ensure!(p.add_file(path.display().to_string()).is_err(), "a file that cannot be read is added");
        std::fs::write(&path, t).expect("write");
        ctx.count("a file could not be added at first");
    }
    // many open files
    if n > 9 {
        for (k, path) in paths.iter().enumerate().take(n) {
            if src.u(8) > 0 {
                let t = variant(src, ctx, k);
                let ty = kind(src, path);
                ctx.input("step", format!("add {} as {ty:?} with the text\n{t}", path.display()));
                about_to_run(src, ctx);
                p.add_file_with_text(path.clone(), t.clone(), ty);
                open.insert(path.clone(), (t, ty));
            }
        }
    }
    let steps = src.range(1, 9);
    let mut n_changes = 0;
    for _ in 0..steps {
        let k = if src.u(4) == 0 { src.u(paths.len()) } else { src.u(n) };
        let path = paths[k].clone();
        // another spelling of the same file
        let spelled = match src.u(8) {
            7 if path.exists() => w.dir.join("self").join(path.strip_prefix(&w.dir).unwrap()),
            6 if path.exists() => w.dir.join("inc/..").join(path.strip_prefix(&w.dir).unwrap()),
            _ => path.clone(),
        };
        match src.weighted(&[8, 3, if clash { 8 } else { 3 }, 2, 1]) {
            0 => {
                let t = variant(src, ctx, k.min(n - 1));
                let ty = kind(src, &path);
                ctx.input("step", format!("add {} as {ty:?} with the text\n{t}", spelled.display()));
                about_to_run(src, ctx);
                p.add_file_with_text(spelled, t.clone(), ty);
                open.insert(path, (t, ty));
            }
            1 => {
                ctx.input("step", format!("remove {}", spelled.display()));
                about_to_run(src, ctx);
                p.remove_file(&spelled);
                open.remove(&path);
            }
            2 => {
                let mut d: Vec<String> = ["inc", "sub dir", "other", "nosuch"].iter().map(|d| w.dir.join(d).display().to_string()).collect();
                let k = src.u(d.len());
                d.rotate_left(k);
                d.truncate(src.u(d.len() + 1));
                match src.u(4) {
                    // the same ones in another order
                    3 => {
                        d = dirs.clone();
                        if d.len() > 1 {
                            let (a, b) = (src.u(d.len()), src.u(d.len()));
                            d.swap(a, b);
                        }
                    }
                    // one is added
                    2 => {
                        let k = src.u(dirs.len() + 1);
                        let one = w.dir.join(src.pick(&["inc", "sub dir", "other"])).display().to_string();
                        d = dirs.clone();
                        d.insert(k, one);
                    }
                    _ => {}
                }
                ctx.input("step", format!("include directories {}", d.join(" : ")));
                about_to_run(src, ctx);
                p.set_include_paths(d.clone());
                dirs = d;
            }
            3 => {
                if let Some((t, ty)) = open.get(&path) {
                    ctx.input("step", format!("add {} again", spelled.display()));
                    about_to_run(src, ctx);
                    p.add_file_with_text(spelled, t.clone(), *ty);
                }
            }
            _ => {
                // from disk
                if let Ok(t) = std::fs::read_to_string(&path) {
                    ctx.input("step", format!("add {} from disk", spelled.display()));
                    about_to_run(src, ctx);
                    add(&mut p, &spelled)?;
                    let ty = FileType::from(path.as_path());
                    open.insert(path, (t, ty));
                }
            }
        }
        n_changes += 1;
        if n_changes < steps && src.u(3) > 0 {
            continue;
        }
        // afresh
        let mut q = Project::default();
        let order_first = src.u(2) == 0;
        if order_first {
            q.set_include_paths(dirs.clone());
        }
        let mut todo: Vec<(PathBuf, (String, FileType))> = open.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        while !todo.is_empty() {
            let k = src.u(todo.len());
            let (path, (t, ty)) = todo.remove(k);
            q.add_file_with_text(path, t, ty);
        }
        if !order_first {
            q.set_include_paths(dirs.clone());
        }
        let (a, b) = (snapshot(&p), snapshot(&q));
        all_are_listed(&p)?;
        if let Some(d) = dump::diff(&a, &b) {
            fail!("after this history the results differ from those of loading the final state afresh: {d}");
        }
        // (only what a user opened and what that includes)
        ctx.count(&format!("{} files", a.iter().filter(|l| l.starts_with("file ")).count().min(9)));
        if a.iter().any(|l| l.contains("cyclic_dependency_error")) {
            ctx.count("with cycles");
        }
        if clash {
            ctx.count("files of the same name in several include directories");
        }
        if n_changes > 1 && open.len() > 1 {
            ctx.nontrivial(&b.join("\n"));
        }
    }
    Ok(())
}

pub const C15: Check = Check {
    id: "C15",
    f: c15,
    quick: 50_000,
    thorough: 1_500_000,
    slow: false,
    rule: "a distinct final state with at least two open files after at least two operations",
    assumptions: &["files on disk do not change during a history; files that are not on disk are always named the same way"],
};

// ---------------------------------------------------------------------------------------------
// C17

pub fn run_limited(cmd: &mut std::process::Command) -> std::io::Result<std::process::Output> {
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    cmd.stdin(std::process::Stdio::null()).output()
}

fn c17(src: &mut Src, ctx: &mut Ctx) -> R {
    let opt = WOpt { perturb: src.u(3) == 0, anywhere: true, max_files: 5, max_items: 3, ..WOpt::default() };
    let w = World::generate(src, ctx, &opt);
    for d in WORLD_DIRS {
        std::fs::create_dir_all(w.dir.join(d)).expect("mkdir");
    }
    let clean = src.u(3) == 0;
    let mut texts: Vec<String> = vec![];
    for i in 0..w.files.len() {
        let mut t = if clean { w.files[i].r.text.clone() } else { worsen(src, ctx, &w, i) };
        if src.chance(1, 40) {
            t = src.pick(&["", "\n", " ", "//", "/**/\n", "\r\n"]).into();
        }
        if i > 0 && src.chance(1, 12) {
            t = src.pick_of(&texts).clone();
        }
        texts.push(t.clone());
        std::fs::write(w.path(i), &t).expect("write");
        ctx.input(&w.files[i].name, &t);
    }
    // another file with the same name and text
    if src.u(8) == 7 {
        let i = src.u(texts.len());
        let base = w.files[i].name.rsplit('/').next().unwrap();
        let name = format!("{}/{base}", src.pick(WORLD_DIRS));
        if i != w.main() && !w.dir.join(&name).exists() {
            ctx.input(&name, &texts[i]);
            std::fs::write(w.dir.join(&name), &texts[i]).expect("write");
            let t = &mut texts[w.main()];
            t.push_str(&format!("\n/include/ \"{name}\"\n"));
            ctx.input(&w.files[w.main()].name, &*t);
            std::fs::write(w.path(w.main()), t).expect("write");
            ctx.count("two files of the same name and text");
        }
    }
    let mut cmd = std::process::Command::new(ctx.bins.join("ginko"));
    // not always where the file is
    let (cwd, up) = match src.u(5) {
        4 => (w.dir.join("run"), "../"),
        3 => (w.dir.join("run/here"), "../../"),
        _ => (w.dir.clone(), ""),
    };
    std::fs::create_dir_all(&cwd).expect("mkdir");
    cmd.current_dir(&cwd);
    let mut arg = match src.u(3) {
        0 => w.path(w.main()).display().to_string(),
        1 => format!("./{up}{}", w.files[w.main()].name),
        _ => format!("{up}{}", w.files[w.main()].name),
    };
    let unreadable = src.chance(1, 12);
    if unreadable {
        arg = match src.u(5) {
            0 => format!("{up}nosuch.dts"),
            1 => format!("{up}inc"),
            2 => {
                std::fs::write(w.dir.join("bad.dts"), b"/dts-v1/; / { a = \"\xff\"; };").expect("write");
                format!("{up}bad.dts")
            }
            3 => format!("{up}main.dts/x"),
            _ => "".into(),
        };
    }
    let mut args = vec![arg.clone()];
    for d in &w.include_dirs {
        let d = if src.u(2) == 0 { format!("{up}{d}") } else { w.dir.join(d).display().to_string() };
        let flag = src.pick(&["-i", "--include"]).to_string();
        if src.u(2) == 0 {
            args.insert(0, d.clone());
            args.insert(0, flag);
        } else {
            args.push(flag);
            args.push(d.clone());
        }
    }
    // in the order of the command line
    let mut dirs: Vec<String> =
        args.windows(2).filter(|a| a[0] == "-i" || a[0] == "--include").map(|a| cwd.join(&a[1]).display().to_string()).collect();
    if src.u(6) == 5 {
        args.push("--include".into());
        args.push("nosuchdir".into());
    }
    cmd.args(&args);
    ctx.input("command", format!("{}ginko {}", if up.is_empty() { String::new() } else { format!("cd {}; ", cwd.display()) }, args.join(" ")));
    if !up.is_empty() {
        ctx.count("started in another directory");
    }
    about_to_run(src, ctx);
    let out = match run_limited(&mut cmd) {
        Ok(o) => o,
        Err(e) => panic!("cannot run ginko: {e}"),
    };
    let stdout = String::from_utf8_lossy(&out.stdout).to_string();
    let shown = format!("exit {:?}, stdout:\n{stdout}", out.status);
    use std::os::unix::process::ExitStatusExt;
    ensure!(out.status.signal().is_none(), "ginko is killed: {shown}");
    if unreadable {
        ctx.count("unreadable file");
        ensure!(!out.status.success(), "the file cannot be read, but ginko succeeds: {shown}");
        ensure!(!stdout.contains("OK") && !stdout.contains("No issues"), "the file cannot be read, but ginko claims success: {shown}");
        return Ok(());
    }
    // what should be said
    let mut p = Project::default();
    // the directory that ginko runs in comes last
    dirs.push(cwd.display().to_string());
    p.set_include_paths(dirs);
    add(&mut p, &w.path(w.main()))?;
    let mut rest = stdout.clone();
    let mut total = 0;
    let mut blocks: Vec<String> = vec![];
    for f in p.files() {
        let lines: Vec<String> = p.get_file(f).unwrap().source().lines().map(|l| l.to_string()).collect();
        for d in diags(&p, f) {
            total += 1;
            ensure!(d.file == f, "a diagnostic of {} says that it is in {}", f.display(), d.file.display());
            blocks.push(syntax::expected_block(&lines, &f.display().to_string(), &d));
        }
    }
    // longest first, so that no block is found inside of another
    blocks.sort_by_key(|b| std::cmp::Reverse(b.len()));
    for b in &blocks {
        match rest.find(b.as_str()) {
            Some(i) => rest.replace_range(i..i + b.len(), "\u{0}"),
            None => fail!("this diagnostic is not reported, or not often enough:\n{b}\n{shown}"),
        }
    }
    let rest = rest.replace('\u{0}', "");
    if total == 0 {
        ctx.count("no diagnostics");
        ensure!(out.status.code() == Some(0), "there is no diagnostic, but ginko fails: {shown}");
        ensure!(rest.to_lowercase().contains("no issues found"), "there is no diagnostic, but ginko does not say so: {shown}");
        ensure!(rest.trim().lines().count() == 1, "more is printed than that there are no issues: {shown}");
    } else {
        ctx.count(&format!("diagnostics in {} files", p.files().filter(|f| p.get_diagnostics(f).count() > 0).count()));
        ensure!(
            out.status.code().is_some_and(|c| c != 0),
            "there are {total} diagnostics, but ginko succeeds: {shown}"
        );
        ensure!(rest.trim().is_empty(), "something else is printed: {:?}\n{shown}", rest.trim());
    }
    let all: String = ctx.inputs.iter().map(|f| f.1.as_str()).collect();
    ctx.nontrivial(&all);
    Ok(())
}

pub const C17: Check = Check {
    id: "C17",
    f: c17,
    quick: 30_000,
    thorough: 200_000,
    slow: true,
    rule: "a distinct project that can be read",
    assumptions: &["the diagnostics that must be printed are those of the library"],
};

// ---------------------------------------------------------------------------------------------
// C23

fn c23(src: &mut Src, ctx: &mut Ctx) -> R {
    let dir = std::fs::canonicalize(ctx.fresh_dir()).expect("scratch");
    std::fs::create_dir(dir.join("d.dts")).expect("mkdir");
    std::fs::create_dir(dir.join("a.b")).expect("mkdir");
    let well_formed = src.u(3) > 0;
    let mut unresolved: Vec<Sp> = vec![];
    let (mut header, mut plugin) = (false, false);
    let text = if well_formed {
        let cfg = Cfg { lawful: src.u(2) == 0, header: src.u(2) == 0, ..Cfg::default() };
        let mut g = Gen::new(src, &ctx.dict, cfg);
        g.maybe_big(300);
        let mut doc = g.doc();
        // only one place for /plugin/, before all references
        let had = doc.tops.contains(&Top::Plugin);
        doc.tops.retain(|t| *t != Top::Plugin);
        if had {
            let k = usize::from(doc.tops.first() == Some(&Top::Header));
            doc.tops.insert(k, Top::Plugin);
        }
        loop {
            let e = evaluate(0, &doc, &[], &[]);
            let bad: Vec<usize> = e
                .bad_exts
                .iter()
                .copied()
                .filter(|t| matches!(&doc.tops[*t], Top::Ext(_, b) if b.items.iter().any(|i| matches!(i, Item::Node(_)))))
                .collect();
            if bad.is_empty() {
                break;
            }
            for t in bad {
                if let Top::Ext(_, b) = &mut doc.tops[t] {
                    b.items.retain(|i| !matches!(i, Item::Node(_)));
                }
            }
        }
        plugin = had;
        header = doc.tops.contains(&Top::Header);
        let style = random_style(src);
        let r = render(src, &doc, style);
        let e = evaluate(0, &doc, &[], &[]);
        unresolved = e.refs.iter().filter(|u| !u.resolved).map(|u| r.tsp(u.tok)).collect();
        unresolved.sort();
        r.text
    } else if src.u(2) == 0 {
        syntax::broken_text(src, ctx)
    } else {
        let cfg = Cfg { lawful: src.u(2) == 0, ..Cfg::default() };
        let mut doc = syntax::random_doc(src, ctx, cfg);
        syntax::corrupt(src, &mut doc);
        let style = random_style(src);
        render(src, &doc, style).text
    };
    ctx.input("text", &text);
    about_to_run(src, ctx);
    let names = [
        "x.dtsi", "y.dts", "x.dtso", "x.overlay", "x.txt", "noext", "x.dts.dtsi", "y.dtsi.dts", "x.dts.bak", "é.dtsi", "y é.dts",
        "d.dts/x.h", "x.dt", "x.dtsx", "dts", "dtsi", "overlay", "dtso", "d.dts/dts", "xdts", "x.dts.", "x.dts ", "x.overlay.dts", "x..dts", "a.b/x.dts",
        "x.dtsi.h", "x.c", "x.overlays", "dts.dtsi", "x.sdts", "x.DTS", "x.Dtsi", "x.OVERLAY", "x.dtsO", "DTS", "..dts", "x. dts", "x.dts~",
    ];
    let mut base: Option<Vec<D>> = None;
    let k = src.u(names.len());
    for (i, name) in names.iter().enumerate() {
        if i > 1 && i != k && src.u(3) > 0 {
            continue;
        }
        let path = dir.join(name);
        let how = src.u(4);
        let mut p = Project::default();
        match how {
            0 => {
                std::fs::write(&path, &text).expect("write");
                add(&mut p, &path)?;
            }
            1 => {
                // included by another file of some kind
                std::fs::write(&path, &text).expect("write");
                let from = dir.join(src.pick(&["top.dts", "top.dtsi", "top.overlay", "top"]));
                std::fs::write(&from, format!("/dts-v1/; /include/ \"{name}\"")).expect("write");
                add(&mut p, &from)?;
            }
            _ => {
                let ty = FileType::from(path.as_path());
                p.add_file_with_text(path.clone(), text.clone(), ty);
            }
        }
        let mut ds = diags(&p, &path);
        for d in &mut ds {
            ensure!(d.file == path, "{name}: a diagnostic says that it is in {}", d.file.display());
            d.file = PathBuf::new();
        }
        let special = |k: &str| k == "unresolved_reference" || k == "non_dts_v1";
        let (only_dts, mut rest): (Vec<D>, Vec<D>) = ds.into_iter().partition(|d| special(&d.kind));
        rest.sort();
        let dts = name.ends_with(".dts");
        if !dts {
            ensure!(
                only_dts.is_empty(),
                "{name} is not a plain source, but is told {}",
                show_all(&only_dts)
            );
        } else if well_formed {
            let n = only_dts.iter().filter(|d| d.kind == "non_dts_v1").count();
            ensure!(
                n == usize::from(!header),
                "{name} has {} /dts-v1/ header, but is told {n} times that it lacks one",
                if header { "a" } else { "no" }
            );
            let got = of_kind(&only_dts, "unresolved_reference");
            let want = if plugin { vec![] } else { unresolved.clone() };
            ensure!(
                got == want,
                "{name}{}: unresolved references are at {want:?}, but reported at {got:?}",
                if plugin { " (a plugin)" } else { "" }
            );
        }
        match &base {
            None => base = Some(rest),
            Some(b) => ensure!(
                *b == rest,
                "{name} (entered in way {how}) gets the diagnostics {}, but {} gets {}",
                show_all(&rest),
                names[0],
                show_all(b)
            ),
        }
    }
    ctx.count(if well_formed { "well-formed" } else { "with violations or errors" });
    if plugin {
        ctx.count("plugin");
    }
    if !unresolved.is_empty() || !well_formed || !header {
        ctx.nontrivial(&text);
    }
    Ok(())
}

pub const C23: Check = Check {
    id: "C23",
    f: c23,
    quick: 60_000,
    thorough: 1_500_000,
    slow: false,
    rule: "a text with an unresolved reference, without a header, or with errors",
    assumptions: &["endings are case-sensitive; /plugin/ stands before all references"],
};

// ---------------------------------------------------------------------------------------------
// C01

fn raw_text(src: &mut Src) -> String {
    let n = match src.u(6) {
        5 => src.u(400),
        4 => src.u(60),
        _ => src.u(12),
    };
    let mut s = String::new();
    for _ in 0..n {
        match src.u(8) {
            0..=2 => s.push_str(src.pick(syntax::SOUP)),
            3 | 4 => s.push_str(src.pick(syntax::ODD)),
            5 => s.push(char::from_u32(src.u(0x110000) as u32).unwrap_or('\u{fffd}')),
            6 => s.push((src.u(128) as u8) as char),
            _ => s.push_str(src.pick(&["\r", "\n", "\r\n", "\n\r", " ", "\t", "\u{2028}", "\u{85}", "\u{c}", "/*", "*/", "//", "\"", "&{", "&", "\\"])),
        }
    }
    s
}

fn deep_text(src: &mut Src) -> String {
    let n = match src.u(5) {
        0 => src.range(80, 130),
        1 => src.range(1, 5000),
        2 => src.range(5000, 60_000),
        _ => src.range(1, 500),
    };
    let (open, close) = *src.pick_of(&[
        ("a {", "};"), ("l: a@1 {", "};"), ("(", ")"), ("<", ">"), ("[", "]"), ("{", "}"), ("/", "/"), ("l:", ""), ("p = ", ";"), ("&{", "}"),
        ("/*", "*/"), ("\"", ""), ("&l {", "};"), ("/ {", "};"), ("/omit-if-no-ref/ ", ""), ("/bits/ 8 ", ""), (",", ","), ("a", ""), ("@", ""),
        ("\\", ""), ("&l ", ""), ("/delete-node/ ", ""), ("#", ""), ("0", ""), ("\n", ""), ("/a", ""),
    ]);
    let head = src.pick(&["/dts-v1/; / {", "/dts-v1/; / { p = <", "/dts-v1/; / { p = <(", "/dts-v1/;", "", "/dts-v1/; / { p = [", "/dts-v1/; / { p = \"", "/dts-v1/; &{"]);
    let mut s = head.to_string();
    s.push_str(&open.repeat(n));
    match src.u(3) {
        0 => s.push_str(&close.repeat(n)),
        1 => s.push_str(&close.repeat(src.u(n + 1))),
        _ => {}
    }
    s.push_str(src.pick(&["", "};", ");", ">;};", "]; };"]));
    s
}

/// Everything that can be asked about a file
fn query_all(src: &mut Src, p: &Project, path: &Path) {
    let ds: Vec<Diagnostic> = p.get_diagnostics(path).cloned().collect();
    if let Some(f) = p.get_file(path) {
        let code: Vec<String> = f.source().lines().map(|l| l.to_string()).collect();
        // A report quotes a line per diagnostic: many of them in one very long line
        // lawfully take much memory, so only render as many as give 10 MB.
        let mut budget = 10_000_000usize;
        let n = ds
            .iter()
            .take_while(|d| {
                let line = code.get(d.span().start().line() as usize).map_or(0, |l| l.len());
                let fits = budget > 3 * line;
                budget = budget.saturating_sub(3 * line);
                fits
            })
            .count();
        let printer = ginko::dts::DiagnosticPrinter { diagnostics: &ds[..n], code, severity_map: SeverityMap::default() };
        let _ = printer.to_string();
        let _ = f.has_errors(&SeverityMap::default());
        let source = f.source();
        // positions: all of small texts, some of large ones
        let mut positions: Vec<Pos> = vec![];
        let total = source.chars().count();
        let (mut pos, mut i) = ((0, 0), 0usize);
        let step = (total / 300).max(1);
        for c in source.chars() {
            if i % step == 0 {
                positions.push(pos);
            }
            i += 1;
            advance(&mut pos, c);
        }
        positions.push(pos);
        positions.push((pos.0 + 1, 0));
        positions.push((u32::MAX, u32::MAX));
        positions.push((src.u(50) as u32, src.u(1000) as u32));
        for q in positions {
            match p.find_at_pos(path, &position(q)) {
                Some(ItemAtCursor::Reference(r)) => {
                    let _ = p.document_reference(path, r);
                    let _ = p.get_node_position(path, r);
                }
                Some(ItemAtCursor::Include(i)) => {
                    let _ = i.path();
                }
                _ => {}
            }
        }
    }
    for d in &ds {
        let _ = format!("{d:?}");
    }
    if let Some(root) = p.get_root(path) {
        let _ = dump::actual(root, true);
        let _ = root.to_string();
        for (_, r) in dump::references(root) {
            let _ = p.document_reference(path, r);
            let _ = p.get_node_position(path, r);
            if let Some(a) = p.get_analysis(path) {
                let _ = a.get_referenced(r);
            }
        }
    }
}

pub fn any_text(src: &mut Src, ctx: &mut Ctx) -> String {
    match src.weighted(&[6, 5, 3, 2, 2]) {
        0 => syntax::broken_text(src, ctx),
        1 => {
            ctx.count("raw text");
            raw_text(src)
        }
        2 => {
            let t = syntax::broken_text(src, ctx);
            ctx.count("characters mutated twice");
            syntax::mutate_chars(src, &t)
        }
        3 => {
            ctx.count("deep or long");
            deep_text(src)
        }
        _ => {
            let mut t = raw_text(src);
            let u = syntax::broken_text(src, ctx);
            if src.u(2) == 0 {
                t.push_str(&u);
                t
            } else {
                let k = src.u(u.chars().count() + 1);
                u.chars().take(k).chain(t.chars()).collect()
            }
        }
    }
}

/// Many files, each including the next one
fn long_chain(src: &mut Src, ctx: &mut Ctx) {
    let dir = std::fs::canonicalize(ctx.fresh_dir()).expect("scratch");
    let n = if src.u(3) == 2 { 20_000 } else { src.range(1, 6000) };
    let closed = src.u(3) == 1;
    for i in 0..n {
        let next = if i + 1 < n { Some(i + 1) } else { closed.then_some(0) };
        let t = next.map_or("/ {};\n".to_string(), |k| format!("/include/ \"f{k}.dtsi\"\n"));
        std::fs::write(dir.join(format!("f{i}.dtsi")), t).expect("write");
    }
    let t = "/dts-v1/;\n/include/ \"f0.dtsi\"\n";
    std::fs::write(dir.join("a.dts"), t).expect("write");
    ctx.input("a.dts", t);
    ctx.input("f0.dtsi ...", format!("{n} files, each including the next one{}", if closed { ", the last one the first" } else { "" }));
    about_to_run(src, ctx);
    let mut p = Project::default();
    let path = dir.join("a.dts");
    let _ = p.add_file(path.display().to_string());
    query_all(src, &p, &path);
    ctx.count("long chain of includes");
    ctx.nontrivial(&format!("chain {n} {closed}"));
    let _ = std::fs::remove_dir_all(&dir);
}

/// Levels of files, each file including all files of the next level: few files, but very many ways
/// through them
fn ladder(src: &mut Src, ctx: &mut Ctx) {
    let dir = std::fs::canonicalize(ctx.fresh_dir()).expect("scratch");
    let levels = src.range(1, 40);
    let width = src.range(1, 3);
    let twice = src.u(2);
    // from the last level back to some other one
    let back = if src.u(2) == 1 { Some(src.u(levels)) } else { None };
    let damaged = src.u(3) == 2;
    for l in 0..levels {
        for k in 0..width {
            let next = if l + 1 < levels { Some(l + 1) } else { back };
            let mut t = String::new();
            if let Some(next) = next {
                for j in 0..width {
                    for _ in 0..=twice {
                        t.push_str(&format!("/include/ \"f{next}-{j}.dtsi\"\n"));
                    }
                }
            }
            if l + 1 == levels {
                t.push_str(if damaged { "/ { a\n" } else { "/ { n: n { }; };\n" });
            }
            std::fs::write(dir.join(format!("f{l}-{k}.dtsi")), t).expect("write");
        }
    }
    let t = "/dts-v1/;\n/include/ \"f0-0.dtsi\"\n&n { p = <&n>; };\n";
    std::fs::write(dir.join("a.dts"), t).expect("write");
    ctx.input("a.dts", t);
    ctx.input(
        "f0-0.dtsi ...",
        format!("{levels} levels of {width} files, each including all of the next level {} times, the last one {back:?}", twice + 1),
    );
    about_to_run(src, ctx);
    let mut p = Project::default();
    let path = dir.join("a.dts");
    let _ = p.add_file(path.display().to_string());
    query_all(src, &p, &path);
    let text = format!("{t}// changed\n");
    p.add_file_with_text(path.clone(), text, FileType::DtSource);
    p.set_include_paths(vec![dir.display().to_string()]);
    p.remove_file(&path);
    ctx.count("levels of includes");
    ctx.nontrivial(&format!("ladder {levels} {width} {twice} {back:?} {damaged}"));
}

fn c01(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.u(4000) {
        3999 => {
            long_chain(src, ctx);
            return Ok(());
        }
        3950..=3998 => {
            ladder(src, ctx);
            return Ok(());
        }
        _ => {}
    }
    if src.u(4) > 0 {
        let t = any_text(src, ctx);
        let name = src.pick(syntax::KINDS);
        ctx.input(name, &t);
        about_to_run(src, ctx);
        let (p, path) = load(name, &t);
        query_all(src, &p, &path);
        if t.len() > 3 {
            ctx.nontrivial(&t);
        }
        return Ok(());
    }
    // several files that include each other and other things, in some order
    let dir = std::fs::canonicalize(ctx.fresh_dir()).expect("scratch");
    std::fs::create_dir(dir.join("d")).expect("mkdir");
    let _ = std::os::unix::fs::symlink("loop", dir.join("loop"));
    let n = src.range(1, 4);
    let names: Vec<String> = (0..n).map(|i| format!("f{i}.{}", src.pick(&["dtsi", "dts", "overlay", "x"]))).collect();
    let make = |src: &mut Src, ctx: &mut Ctx| {
        let mut t = any_text(src, ctx);
        for _ in 0..src.u(4) {
            let target = match src.u(12) {
                0 => "".to_string(),
                1 => ".".into(),
                2 => "loop".into(),
                3 => "d".into(),
                4 => "nosuch".into(),
                5 => "a\\\"b".into(),
                6 => "x".repeat(src.range(200, 300)),
                7 => "a\u{0}b".into(),
                8 => "f0.dtsi/".into(),
                _ => src.pick_of(&names).clone(),
            };
            let inc = format!(" /include/ \"{target}\"{}", src.pick(&["\n", "", ";", " /include/"]));
            if src.u(3) == 0 {
                t.push_str(&inc);
            } else {
                t = inc + "\n" + &t;
            }
        }
        t
    };
    for name in &names {
        let t = make(src, ctx);
        std::fs::write(dir.join(name), &t).expect("write");
        ctx.input(name, &t);
    }
    about_to_run(src, ctx);
    let mut p = Project::default();
    for _ in 0..src.range(1, 4) {
        let k = src.u(n);
        let path = dir.join(&names[k]);
        match src.u(5) {
            0 => {
                let t = make(src, ctx);
                ctx.input("step", format!("add {} with the text\n{t}", names[k]));
                about_to_run(src, ctx);
                p.add_file_with_text(path.clone(), t, FileType::from(path.as_path()));
            }
            1 => {
                ctx.input("step", format!("remove {}", names[k]));
                about_to_run(src, ctx);
                p.remove_file(&path)
            }
            2 => {
                ctx.input("step", "include directories".to_string());
                about_to_run(src, ctx);
                p.set_include_paths(vec![dir.join("d").display().to_string(), "".into(), "\u{0}".into()])
            }
            _ => {
                ctx.input("step", format!("add {}", names[k]));
                about_to_run(src, ctx);
                let _ = p.add_file(path.display().to_string());
            }
        }
        let files: Vec<PathBuf> = p.files().map(|f| f.to_path_buf()).collect();
        for f in &files {
            query_all(src, &p, f);
        }
        let _ = p.all_diagnostics().count();
        query_all(src, &p, &dir.join("nosuch.dts"));
        query_all(src, &p, Path::new(""));
    }
    ctx.count("several files");
    let all: String = ctx.inputs.iter().map(|f| f.1.as_str()).collect();
    ctx.nontrivial(&all);
    Ok(())
}

pub const C01: Check = Check {
    id: "C01",
    f: c01,
    quick: 100_000,
    thorough: 3_000_000,
    slow: false,
    rule: "a distinct text of more than three bytes, or a distinct set of files and operations",
    assumptions: &["a hang is a load or query that needs more than 20 s of CPU time on a text of at most a few hundred kB"],
};

