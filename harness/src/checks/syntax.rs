//! Checks of single texts: lexer, parser, tree, rules, diagnostics.
use super::*;
use crate::dump;
use crate::gen::{spelled, word, Cfg, Gen};
use crate::lang;
use crate::model::*;
use crate::render::*;
use crate::{about_to_run, ensure, fail};
use ginko::dts::{DiagnosticPrinter, ErrorCode};

pub const KINDS: &[&str] = &["x.dts", "x.dtsi", "x.dtso", "x.overlay", "x.txt", "noext"];

pub fn random_doc(src: &mut Src, ctx: &Ctx, cfg: Cfg) -> Doc {
    let mut g = Gen::new(src, &ctx.dict, cfg);
    g.maybe_big(300);
    g.doc()
}

pub fn tree_doc(src: &mut Src, ctx: &Ctx) -> Doc {
    let cfg = Cfg {
        lawful: src.u(3) != 2,
        includes: src.chance(1, 4),
        header: src.u(8) != 7,
        ..Cfg::default()
    };
    random_doc(src, ctx, cfg)
}

fn check_tree(src: &mut Src, ctx: &mut Ctx, spans: bool) -> R {
    let doc = tree_doc(src, ctx);
    let style = random_style(src);
    let r = render(src, &doc, style);
    ctx.input("x.dts", &r.text);
    about_to_run(src, ctx);
    let (f, _) = parse(&r.text);
    let f = match f {
        Ok(f) => f,
        Err(e) => fail!("a well-formed source cannot be parsed: {}", D::of(&e).show()),
    };
    let want = dump::expected(&r, spans);
    if let Some(d) = dump::diff(&dump::actual(&f, spans), &want) {
        fail!("the tree differs from the source: {d}");
    }
    let name = src.pick(KINDS);
    let (p, path) = load(name, &r.text);
    match p.get_root(&path) {
        None => fail!("Project::get_root returns nothing for a well-formed source"),
        Some(root) => {
            if let Some(d) = dump::diff(&dump::actual(root, spans), &want) {
                fail!("the tree of the project differs from the source: {d}");
            }
        }
    }
    ctx.count(&format!("depth {}", doc.depth().min(10)));
    if r.text.contains("//") || r.text.contains("/*") {
        ctx.count("with comments");
    }
    if !r.text.is_ascii() {
        ctx.count("with non-ASCII text");
    }
    if doc.count_items() >= 3 && (!spans || r.text.lines().count() > 1) {
        ctx.nontrivial(&r.text);
    }
    Ok(())
}

pub const C02: Check = Check {
    id: "C02",
    f: |s, c| check_tree(s, c, false),
    quick: 300_000,
    thorough: 6_000_000,
    slow: false,
    rule: "a document with at least 3 items",
    assumptions: &["parsed trees are read through the guarded re-export of the AST types"],
};

pub const C04: Check = Check {
    id: "C04",
    f: |s, c| check_tree(s, c, true),
    quick: 300_000,
    thorough: 6_000_000,
    slow: false,
    rule: "a document with at least 3 items on more than one line",
    assumptions: &["parsed trees are read through the guarded re-export of the AST types"],
};

// ---------------------------------------------------------------------------------------------
// C03

fn bad_literal(src: &mut Src, bits: u32) -> Num {
    let text = match src.u(11) {
        0 => {
            // just too large
            let over = if bits == 64 { u64::MAX as u128 + 1 } else { 1u128 << bits } + src.u(3) as u128;
            match src.u(3) {
                0 => format!("{over}"),
                1 => format!("0x{over:x}"),
                _ => format!("0{over:o}"),
            }
        }
        1 => {
            let over = (src.u64() as u128 + 1) << if bits == 64 { 64 } else { 32 };
            match src.u(3) {
                0 => format!("{over}"),
                1 => format!("0x{over:x}"),
                _ => format!("0{over:o}"),
            }
        }
        2 => match src.u(3) {
            0 => "9".repeat(src.range(21, 60)),
            // whose last digits alone would be small enough
            n => {
                let zeroes = src.range(0, 40);
                let small = src.u(20);
                let zeroes = "0".repeat(zeroes.max(if bits == 64 { 22 } else { 11 }));
                if n == 1 { format!("0x{}{zeroes}{small:x}", src.range(1, 15)) } else { format!("{}{zeroes}{small}", src.range(1, 15)) }
            }
        },
        3 => "0x".into(),
        4 => format!("0{}{}", word(src, b"01234567", b"01234567", 2), src.pick(&["8", "9", "81", "9"])),
        5 => {
            let n = src.range(1, 4);
            let mut s = word(src, b"123456789", b"0123456789", n);
            s.push(*src.pick_of(&['a', 'x', 'g', 'A', 'f', 'z']));
            s.push_str(src.pick(&["", "1", "0"]));
            s
        }
        6 => {
            let n = src.range(0, 4);
            format!("0x{}{}{}", word(src, b"0123456789abcdef", b"0123456789abcdef", n), src.pick(&["g", "z", "x", "G", "h"]), src.pick(&["", "0", "1"]))
        }
        7 => format!("0{}", src.pick(&["b1", "a", "8", "o7", "f", "1x", "78", "09"])),
        8 => {
            // what other languages allow
            let d = src.u(256);
            match src.u(3) {
                0 => format!("{d}{}", src.pick(&["U", "L", "UL", "ULL", "u", "l", "ul", "ull", "LL", "k", "K", "M", "G", "h", "H", "f", "e1", "E1", "b", "d"])),
                1 => format!("0x{d:x}{}", src.pick(&["U", "L", "UL", "ULL", "u", "l", "h", "H", "k", "p1"])),
                _ => format!("0{}{d:o}", src.pick(&["X", "b", "B", "o", "O", "d", "h", "q"])),
            }
        }
        _ => {
            // letters that are no digits, anywhere
            let n = src.range(1, 6);
            let any = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
            let no_hex = b"ghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ";
            let (mut s, from, set): (String, usize, &[u8]) = match src.u(3) {
                0 => (word(src, b"123456789", b"0123456789", n), 1, any),
                1 => (format!("0{}", word(src, b"01234567", b"01234567", n)), 1, any),
                _ => (format!("0x{}", word(src, b"0123456789abcdefABCDEF", b"0123456789abcdefABCDEF", n)), 2, no_hex),
            };
            for _ in 0..src.range(1, 3) {
                let k = src.range(from, s.len());
                s.insert(k, *src.pick_of(set) as char);
            }
            // would be legal
            if from == 1 && s.starts_with("0x") {
                s.replace_range(1..2, "X");
            }
            s
        }
    };
    Num { text, val: None }
}

fn literal(src: &mut Src, ctx: &Ctx, bits: u32, fits: u32) -> Num {
    if src.chance(2, 7) {
        return bad_literal(src, bits);
    }
    Gen::new(src, &ctx.dict, Cfg::default()).num(fits)
}

fn c03(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut tops = vec![Top::Header];
    while src.chance(1, 3) {
        let a = literal(src, ctx, 64, 64);
        let b = literal(src, ctx, 64, 64);
        tops.push(Top::Mem(a, b));
    }
    let mut items = vec![];
    let name = src.pick(&["x.dts", "x.dtsi"]);
    let mut labels = 0;
    // illegal numbers after /bits/
    let mut odd_widths: Vec<String> = vec![];
    for i in 0..src.range(1, 4) {
        let mut vals = vec![];
        for _ in 0..src.range(1, 2) {
            let n = if src.chance(1, 10) { src.range(0, 40) } else { src.range(1, 4) };
            let mut v = if src.u(3) < 2 {
                let bits: Option<u32> = *src.pick_of(&[None, None, None, Some(64), Some(32), Some(16), Some(8)]);
                let (w, fits) = match bits {
                    Some(64) => (64, 64),
                    Some(16) => (32, 16),
                    Some(8) => (32, 8),
                    _ => (32, 32),
                };
                let odd_width = bits.is_some() && src.chance(1, 8);
                let mixed = src.chance(1, 5);
                let cells = (0..n)
                    .map(|_| {
                        let n = if odd_width {
                            // the width is not known
                            Gen::new(src, &ctx.dict, Cfg::default()).num(8)
                        } else {
                            literal(src, ctx, w, fits)
                        };
                        // what stands between numbers does not change how they are read
                        let c = match if mixed { src.u(8) } else { 7 } {
                            0 => {
                                let mut e = vec![];
                                Gen::new(src, &ctx.dict, Cfg::default()).expr(0, &mut e);
                                CellD::Expr(e)
                            }
                            1 if name == "x.dtsi" => CellD::Rf(Gen::new(src, &ctx.dict, Cfg::default()).any_ref()),
                            _ => CellD::Num(n),
                        };
                        let label = (mixed && src.u(8) == 0).then(|| {
                            labels += 1;
                            format!("c{labels}")
                        });
                        (label, c)
                    })
                    .collect();
                let mut v = Val::of(VK::Cells(cells, None));
                v.bits = bits.map(|b| if odd_width { bad_literal(src, 64).text } else { spelled(src, b) });
                odd_widths.extend(v.bits.clone().filter(|_| odd_width));
                v
            } else {
                let mut groups = vec![];
                for _ in 0..n {
                    let g = match src.weighted(&[6, 2, 2, 2]) {
                        0 => {
                            let k = 2 * if src.chance(1, 400) { src.range(17, 300) } else { src.range(1, 4) };
                            match src.u(3) {
                                0 => word(src, b"0123456789", b"0123456789abcdefABCDEF", k),
                                1 => word(src, b"0123456789", b"0123456789", k),
                                _ => word(src, b"abcdefABCDEF", b"0123456789abcdefABCDEF", k),
                            }
                        }
                        1 => {
                            let k = 2 * src.u(4) + 1;
                            word(src, b"0123456789abcdefABCDEF", b"0123456789abcdefABCDEF", k)
                        }
                        2 => {
                            // some illegal digit
                            let k = 2 * src.range(1, 3);
                            let mut g: Vec<u8> = word(src, b"0123456789abcdef", b"0123456789abcdef", k).into_bytes();
                            let i = src.u(k);
                            g[i] = *src.pick_of(b"gGzZxXhHiyY");
                            String::from_utf8(g).unwrap()
                        }
                        _ => {
                            let k = src.range(2, 6);
                            word(src, b"abcdefABCDEFgz_", b"0123456789abcdefgxz_+-.,?#", k)
                        }
                    };
                    groups.push((None, g));
                }
                Val::of(VK::Bytes(groups, None))
            };
            if src.chance(1, 10) {
                v.pre = Some(format!("v{i}"));
            }
            vals.push(v);
        }
        items.push(Item::Prop(Prop { omit: false, label: None, name: format!("p{i}"), vals }));
    }
    tops.push(Top::Root(Body { items }));
    let doc = Doc { tops };
    let style = random_style(src);
    let r = render(src, &doc, style);
    ctx.input(name, &r.text);
    about_to_run(src, ctx);
    let (p, path) = load(name, &r.text);
    let Some(root) = p.get_root(&path) else {
        fail!("no tree: {}", show_all(&diags(&p, &path)));
    };
    if let Some(d) = dump::diff(&dump::actual(root, false), &dump::expected(&r, false)) {
        fail!("wrong value: {d}");
    }
    // expected diagnostics
    let mut want: Vec<(Sp, &[&str])> = vec![];
    let mut good = 0;
    for t in &r.tops {
        match t {
            ETop::Mem(_, a, b, _) => {
                for (t, n) in [a, b] {
                    if n.val.is_none() {
                        want.push((r.tsp(*t), &["int_error"]));
                    } else {
                        good += 1;
                    }
                }
            }
            ETop::Root(_, b) => {
                for it in &b.items {
                    let EItem::Prop(p) = it else { continue };
                    for v in &p.vals {
                        if let Some(b) = v.bits {
                            if odd_widths.contains(&r.toks[b + 1].text) {
                                want.push((r.tsp(b + 1), &["int_error"]));
                            }
                        }
                        match &v.kind {
                            EVK::Cells(cs) => {
                                for (t, c) in cs {
                                    match c {
                                        CellD::Num(n) if n.val.is_none() => want.push((r.tsp(*t), &["int_error"])),
                                        _ => good += 1,
                                    }
                                }
                            }
                            EVK::Bytes(gs) => {
                                for (t, g) in gs {
                                    let odd = g.len() % 2 != 0;
                                    let hex = g.bytes().all(|b| b.is_ascii_hexdigit());
                                    match (odd, hex) {
                                        (false, true) => good += 1,
                                        (true, true) => want.push((r.tsp(*t), &["odd_number_of_bytestring_elements"])),
                                        (false, false) => want.push((r.tsp(*t), &["int_error"])),
                                        (true, false) => {
                                            want.push((r.tsp(*t), &["int_error", "odd_number_of_bytestring_elements"]))
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut got = diags(&p, &path);
    // the names in path references do not matter here
    got.retain(|d| d.kind != "illegal_start");
    got.sort();
    want.sort();
    let ok = got.len() == want.len()
        && got.iter().zip(&want).all(|(g, (s, k))| g.sp == *s && k.contains(&g.kind.as_str()) && g.sev == "error");
    ensure!(
        ok,
        "diagnostics of literals: expected {:?}, got {}",
        want,
        show_all(&got)
    );
    ctx.count_n("legal literals", good);
    ctx.count_n("illegal literals", want.len() as u64);
    if !want.is_empty() || good >= 3 {
        ctx.nontrivial(&r.text);
    }
    Ok(())
}

pub const C03: Check = Check {
    id: "C03",
    f: c03,
    quick: 1_000_000,
    thorough: 6_000_000,
    slow: false,
    rule: "a document with an illegal literal or at least 3 legal ones",
    assumptions: &[
        "not generated: 0X prefix, U/L suffixes, values above the width of /bits/ 8 and 16, '@' in byte strings",
    ],
};

// ---------------------------------------------------------------------------------------------
// C05

fn c05(src: &mut Src, ctx: &mut Ctx) -> R {
    if src.chance(1, 6) {
        return project::lawful_world(src, ctx);
    }
    let name = src.pick(KINDS);
    let cfg = Cfg { header: name == "x.dts" || src.u(2) == 0, ..Cfg::default() };
    let doc = random_doc(src, ctx, cfg);
    let style = random_style(src);
    let r = render(src, &doc, style);
    ctx.input(name, &r.text);
    about_to_run(src, ctx);
    let (p, path) = load(name, &r.text);
    let got = diags(&p, &path);
    ensure!(got.is_empty(), "a well-formed source gets diagnostics: {}", show_all(&got));
    ctx.count(name);
    if doc.count_items() >= 3 {
        ctx.nontrivial(&r.text);
    }
    Ok(())
}

pub const C05: Check = Check {
    id: "C05",
    f: c05,
    quick: 300_000,
    thorough: 6_000_000,
    slow: false,
    rule: "a document with at least 3 items, or a project of at least two files",
    assumptions: &["one label per item; no directives inside nodes other than deletions and /omit-if-no-ref/"],
};

// ---------------------------------------------------------------------------------------------
// mutation of token lists

pub const SOUP: &[&str] = &[
    ";", ";", "{", "}", "};", "=", "<", ">", "[", "]", "(", ")", ",", "/", "/dts-v1/", "/plugin/", "/memreserve/", "/include/",
    "/bits/", "/delete-node/", "/delete-property/", "/omit-if-no-ref/", "a", "b:", "node@1", "#include", "\"s\"", "\"\"", "&l",
    "&{/}", "&{/a/b@1}", "0", "1", "0x10", "64", "8", "12ab", "compatible", "#x", "name,x", "x.y", "a?b", "-x", "_s", "_l:",
];

pub const ODD: &[&str] = &[
    "&", "&{}", "/foo/", "/foo", "/bits", "$", "%", "!", "\\", "'", "|", "*", "~", "^", "`", ":", "@", "é", "😀", "\u{1}", "\u{0}",
    "\u{b}", "\u{7f}", "\u{feff}", "a@", "b:c:", "0x", "09", "\"\\\"", "/*", "\"", "&{/x", "//", "*/", "-", "+", "?", "#", ".", ",,",
];

fn soup_tok(src: &mut Src, dict: &crate::dict::Dict, odd: bool) -> Tok {
    if !dict.words.is_empty() && src.chance(1, 12) {
        return Tok::new(K::Junk, src.pick_of(&dict.words).clone());
    }
    let t = if odd && src.chance(1, 4) { src.pick(ODD) } else { src.pick(SOUP) };
    Tok::new(K::Junk, t)
}

pub fn mutate(src: &mut Src, dict: &crate::dict::Dict, toks: &mut Vec<Tok>, odd: bool) {
    for _ in 0..src.range(1, 3) {
        if toks.is_empty() {
            toks.push(soup_tok(src, dict, odd));
            continue;
        }
        let i = src.u(toks.len());
        match src.u(7) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            2 => {
                let j = (i + 1) % toks.len();
                toks.swap(i, j);
            }
            3 => toks[i] = soup_tok(src, dict, odd),
            4 => {
                let t = soup_tok(src, dict, odd);
                toks.insert(i, t);
            }
            5 => {
                let j = src.u(toks.len());
                toks.swap(i, j);
            }
            _ => {
                let j = (i + src.u(6)).min(toks.len());
                toks.drain(i..j);
            }
        }
    }
}

pub fn mutate_chars(src: &mut Src, text: &str) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..src.range(1, 3) {
        let i = src.u(cs.len() + 1);
        match src.u(4) {
            0 if i < cs.len() => {
                cs.remove(i);
            }
            1 if i < cs.len() => cs[i] = char_any(src),
            2 => {
                let j = src.u(cs.len() + 1);
                if i < cs.len() && j < cs.len() {
                    cs.swap(i, j)
                }
            }
            _ => cs.insert(i, char_any(src)),
        }
    }
    cs.into_iter().collect()
}

fn char_any(src: &mut Src) -> char {
    match src.u(4) {
        0 => *src.pick_of(&[';', '{', '}', '<', '>', '[', ']', '(', ')', '"', '/', '*', '&', '=', ',', ':', '@', '#', '\\', '\'', '.', '-', '+', '?', '_', '$']),
        1 => (b'a' + src.u(26) as u8) as char,
        2 => *src.pick_of(&['0', '1', '9', 'x', ' ', '\n', '\r', '\t', '\u{c}', '\u{b}', '\u{0}']),
        _ => *src.pick_of(&['é', '漢', '😀', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}']),
    }
}

/// Some text, in most cases not well-formed
pub fn broken_text(src: &mut Src, ctx: &mut Ctx) -> String {
    if src.chance(1, 6) {
        let n = src.range(0, 14);
        let mut toks: Vec<Tok> = (0..n).map(|_| soup_tok(src, &ctx.dict, true)).collect();
        if src.u(3) > 0 {
            toks.insert(0, Tok::new(K::Junk, "/ {"));
            toks.insert(0, Tok::new(K::Junk, "/dts-v1/;"));
        }
        ctx.count("token soup");
        return layout(src, &mut toks, Style::Plain);
    }
    let cfg = Cfg { lawful: src.u(2) == 0, ..Cfg::default() };
    let mut doc = random_doc(src, ctx, cfg);
    if src.chance(1, 5) {
        // names that are reported as well
        corrupt(src, &mut doc);
    }
    let (mut toks, _) = emit(&doc);
    let style = random_style(src);
    match src.u(8) {
        0 => {
            ctx.count("characters mutated");
            let t = layout(src, &mut toks, style);
            mutate_chars(src, &t)
        }
        1 | 2 => {
            ctx.count("truncated");
            let t = layout(src, &mut toks, style);
            let n = t.chars().count();
            let k = if src.u(3) == 0 { n - src.u(n.clamp(1, 4)).min(n) } else { src.u(n + 1) };
            t.chars().take(k).collect()
        }
        3 => {
            ctx.count("truncated at a token");
            let k = src.u(toks.len() + 1);
            toks.truncate(k);
            layout(src, &mut toks, style)
        }
        _ => {
            ctx.count("tokens mutated");
            let odd = src.u(2) == 0;
            mutate(src, &ctx.dict, &mut toks, odd);
            layout(src, &mut toks, style)
        }
    }
}

fn c06(src: &mut Src, ctx: &mut Ctx) -> R {
    let text = broken_text(src, ctx);
    let name = src.pick(KINDS);
    ctx.input(name, &text);
    let (toks, eof) = lang::lex(&text);
    if lang::max_depth(&toks) > 95 {
        ctx.count("too deep, skipped");
        return Ok(());
    }
    let v = lang::judge(&toks);
    about_to_run(src, ctx);
    let (p, path) = load(name, &text);
    let got = diags(&p, &path);
    let first = got.iter().find(|d| d.kind == "unexpected_eof" || d.kind == "expected");
    for d in got.iter().filter(|d| d.kind.contains("unbalanced")) {
        ctx.count("unclosed parenthesis");
        let at = toks.iter().position(|t| t.start == d.sp.0 && t.k == lang::L::OpenPar);
        ensure!(
            at.is_some_and(|at| !lang::closed(&toks, at)),
            "unbalanced parentheses are reported where none is left open: {}",
            d.show()
        );
    }
    if let (Some(open), false) = (v.open_par, v.unclear) {
        let n = got.iter().filter(|d| d.kind.contains("unbalanced") && d.sp.0 == toks[open].start).count();
        ensure!(n == 1, "the text ends in an open parenthesis, which is reported {} times; {}", n, show_all(&got));
    }
    if let Some(bad) = v.bad {
        ctx.nontrivial(&text);
        ctx.count("ill-formed");
        ensure!(
            got.iter().any(|d| d.sev == "error"),
            "ill-formed text is accepted silently; it is not well-formed at token {} ({:?})",
            bad,
            toks.get(bad)
        );
        if v.unclear {
            return Ok(());
        }
        let lo = if bad == 0 { (0, 0) } else { toks[bad - 1].end };
        let hi = toks.get(bad).map_or(eof, |t| t.end);
        let Some(first) = first else {
            // reported as something other than a plain syntax error
            ctx.count("reported otherwise");
            ensure!(
                got.iter().any(|d| d.sev == "error" && d.sp.1 >= lo && d.sp.0 <= hi),
                "nothing is reported between {}:{} and {}:{}, where the text stops to be well-formed; {}",
                lo.0, lo.1, hi.0, hi.1,
                show_all(&got)
            );
            return Ok(());
        };
        ensure!(
            first.sp.0 >= lo && first.sp.0 <= hi,
            "the first syntax error is reported at {}:{}, but the text is well-formed up to {}:{} and the next token ends at {}:{}; {}",
            first.sp.0 .0, first.sp.0 .1, lo.0, lo.1, hi.0, hi.1,
            show_all(&got)
        );
        if let Some(names) = first.msg.strip_prefix("Expected one of ").or(first.msg.strip_prefix("Expected ")) {
            let named: Vec<lang::L> = names.split(", ").filter_map(lang::named).collect();
            ctx.count("says what is expected");
            ensure!(
                named.is_empty() || named.into_iter().any(|n| lang::may_follow(&toks, bad, n)),
                "the message {:?} names nothing that could stand at token {} ({:?}); {}",
                first.msg, bad, toks.get(bad), show_all(&got)
            );
        }
    } else if v.ill {
        ctx.nontrivial(&text);
        ctx.count("ill-formed detail");
        ensure!(got.iter().any(|d| d.sev == "error"), "ill-formed text is accepted silently");
    } else if !v.unclear {
        ctx.count("still well-formed");
        if let Some(d) = first {
            fail!("a syntax error is reported in well-formed text: {}", d.show());
        }
    }
    Ok(())
}

pub const C06: Check = Check {
    id: "C06",
    f: c06,
    quick: 600_000,
    thorough: 10_000_000,
    slow: false,
    rule: "a text that the independent recogniser rejects",
    assumptions: &["nesting stays below the limit of 100 levels"],
};

// ---------------------------------------------------------------------------------------------
// C07

struct Semi {
    tok: T,
    after_value: bool,
}

fn semis_body(b: &EBody, out: &mut Vec<Semi>) {
    for it in &b.items {
        match it {
            EItem::Prop(p) => {
                if !p.vals.is_empty() {
                    out.push(Semi { tok: p.semi, after_value: true })
                }
            }
            EItem::Node(n) => semis_body(&n.body, out),
            EItem::DelNode(_, _, s) | EItem::DelProp(_, _, s) => out.push(Semi { tok: *s, after_value: false }),
        }
    }
    out.push(Semi { tok: b.semi, after_value: false });
}

/// Marks some semicolons as absent, such that the others still tell where everything ends
pub fn drop_semis(src: &mut Src, toks: &mut [Tok], tops: &[ETop]) {
    let mut semis = vec![];
    for t in tops {
        match t {
            ETop::Header(_, s) | ETop::Plugin(_, s) | ETop::Mem(_, _, _, s) | ETop::Del(_, _, _, s) | ETop::Omit(_, _, _, s) => {
                semis.push(Semi { tok: *s, after_value: false })
            }
            ETop::Root(_, b) | ETop::Ext(_, _, b) => semis_body(b, &mut semis),
            _ => {}
        }
    }
    let p = *src.pick_of(&[2usize, 3, 6, 20]);
    for s in &semis {
        if src.u(p) == 1 {
            let next = toks.get(s.tok + 1);
            // a label after a value belongs to the value
            if s.after_value && next.is_some_and(|t| t.kind == K::Label) {
                continue;
            }
            toks[s.tok].absent = true;
        }
    }
    // names that start with one of these are only told apart after a semicolon or brace
    let mut names = true;
    let mut last_absent = None;
    for i in 0..toks.len() {
        let text = toks[i].text.clone();
        if toks[i].absent {
            last_absent = Some(i);
            continue;
        }
        match text.as_str() {
            ";" | "{" => names = true,
            "=" => names = false,
            _ => {}
        }
        if matches!(toks[i].kind, K::Word) && text.starts_with(|c: char| ",.+-#?".contains(c)) && !names {
            if let Some(l) = last_absent {
                toks[l].absent = false;
                names = true;
            }
        }
    }
}

fn c07(src: &mut Src, ctx: &mut Ctx) -> R {
    let name = src.pick(KINDS);
    let cfg = Cfg { header: true, ..Cfg::default() };
    let mut doc = random_doc(src, ctx, cfg);
    let junk = src.chance(1, 3);
    // violations of rules that the parser finds: they must not get lost either
    let violations = junk && src.u(2) == 0;
    if violations {
        corrupt(src, &mut doc);
    }
    let (mut toks, tops) = emit(&doc);
    if !violations {
        drop_semis(src, &mut toks, &tops);
    }
    if junk {
        if let Some(t) = toks.last_mut() {
            t.absent = false
        }
        for w in src.pick(&["]", "}", "=", ">", "foo", "foo {", "a = <1>;", "(", "1", "/bits/ 8", "\"s\"", "&l", "/ { a", "/ { a = ;", "/ { b {"]).split(' ') {
            toks.push(Tok::new(K::Junk, w))
        }
    }
    let style = random_style(src);
    let text = layout(src, &mut toks, style);
    let r = Rendered { toks, tops, text };
    ctx.input(name, &r.text);
    about_to_run(src, ctx);
    let (p, path) = load(name, &r.text);
    let got = diags(&p, &path);
    let mut want: Vec<Pos> = vec![];
    let mut prev = (0, 0);
    for t in &r.toks {
        if t.absent {
            want.push(prev)
        } else {
            prev = t.end
        }
    }
    let mut rest: Vec<&D> = got.iter().collect();
    for w in &want {
        let i = rest.iter().position(|d| {
            d.kind == "expected"
                && d.sev == "error"
                && d.msg.contains("';'")
                && d.sp.0 == *w
                && (d.sp.1 == *w || d.sp.1 == (w.0, w.1 + 1))
        });
        match i {
            Some(i) => {
                rest.remove(i);
            }
            None => fail!(
                "the missing semicolon at {}:{} is not reported there; got {}",
                w.0, w.1,
                show_all(&got)
            ),
        }
    }
    if junk {
        ensure!(
            rest.iter().any(|d| d.sev == "error"),
            "the text that does not belong to the document is not reported; got {}",
            show_all(&got)
        );
        if violations {
            let mut rules = Rules { r: &r, out: vec![] };
            rules.file(false);
            for w in rules.out {
                let syntactic = ["illegal_char", "illegal_start", "name_too_long", "expected_name", "property_after_node", "incorrect_directive", "path_cannot_be_empty"];
                if !syntactic.contains(&w.kind) {
                    continue;
                }
                let i = rest.iter().position(|d| d.kind == w.kind && d.sev == w.sev && w.covers(d.sp));
                match i {
                    Some(i) => {
                        rest.remove(i);
                    }
                    None => fail!("an error at the end hides what was found before: {:?}; got {}", w, show_all(&got)),
                }
                ctx.count("violations before an unrecoverable error");
            }
        }
        ctx.count("with an unrecoverable error");
    } else {
        ensure!(
            rest.is_empty(),
            "{} semicolons are missing, but there are other diagnostics: {}",
            want.len(),
            show_all(&rest.into_iter().cloned().collect::<Vec<_>>())
        );
        match p.get_root(&path) {
            None => fail!("no tree although only semicolons are missing; {}", show_all(&got)),
            Some(f) => {
                if let Some(d) = dump::diff(&dump::actual(f, false), &dump::expected(&r, false)) {
                    fail!("the tree differs from the one with all semicolons: {d}");
                }
            }
        }
    }
    ctx.count_n("missing semicolons", want.len() as u64);
    if !want.is_empty() {
        ctx.nontrivial(&r.text);
    }
    Ok(())
}

pub const C07: Check = Check {
    id: "C07",
    f: c07,
    quick: 300_000,
    thorough: 6_000_000,
    slow: false,
    rule: "a document with at least one missing semicolon",
    assumptions: &[
        "semicolons are not removed between a property value and a label, nor where a name would start with one of ,.+-#? while values are expected",
    ],
};

// ---------------------------------------------------------------------------------------------
// C08

#[derive(PartialEq, Clone, Debug)]
enum Anchor {
    In(usize, u32, u32),
    EndOf(usize, u32),
    Eof,
    Sof,
}

fn anchors(toks: &[Tok], p: Pos) -> Vec<Anchor> {
    let mut v = vec![];
    if p == (0, 0) {
        v.push(Anchor::Sof);
    }
    for (i, t) in toks.iter().enumerate() {
        if t.start <= p && p <= t.end {
            let l = p.0 - t.start.0;
            v.push(Anchor::In(i, l, if l == 0 { p.1 - t.start.1 } else { p.1 }));
        }
        for d in 0..2 {
            if t.end.0 == p.0 && t.end.1 + d == p.1 {
                v.push(Anchor::EndOf(i, d));
            }
        }
    }
    if toks.last().is_none_or(|t| p >= t.end) {
        v.push(Anchor::Eof);
    }
    v
}

fn c08(src: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg { lawful: src.u(2) == 0, ..Cfg::default() };
    let mut doc = random_doc(src, ctx, cfg);
    if src.chance(1, 3) {
        corrupt(src, &mut doc);
    }
    let (mut toks, _) = emit(&doc);
    let mut mutated = false;
    if src.u(2) == 1 {
        let odd = src.u(3) == 0;
        mutate(src, &ctx.dict, &mut toks, odd);
        // what is not closed would swallow the rest, including its layout
        toks.retain(|t| !["/*", "\"", "&{/x", "//", "*/", "\"\\\"", "/", "/foo", "/bits", "&"].contains(&t.text.as_str()) || t.kind == K::Slash);
        toks.retain(|t| t.kind != K::Junk || t.text.parse::<f32>().is_ok() || !t.text.contains(['\n', '\r', ' ', '\t']) && !t.text.contains("//") && !t.text.contains("/*") && t.text.matches('"').count() % 2 == 0);
        for t in &mut toks {
            if t.text == "," {
                t.kind = K::Junk
            }
        }
        mutated = true;
    }
    let name = src.pick(KINDS);
    let mut ta = toks.clone();
    let a = layout(src, &mut ta, Style::Plain);
    let mut tb = toks;
    let b = layout(src, &mut tb, Style::Rich);
    ctx.input(format!("{name} (1)"), &a);
    ctx.input(format!("{name} (2)"), &b);
    about_to_run(src, ctx);
    let (pa, path) = load(name, &a);
    let (pb, _) = load(name, &b);
    let (da, db) = (diags(&pa, &path), diags(&pb, &path));
    let k = |ds: &[D]| ds.iter().map(|d| (d.kind.clone(), d.sev, d.msg.clone())).collect::<Vec<_>>();
    ensure!(
        k(&da) == k(&db),
        "the diagnostics depend on the layout: {} versus {}",
        show_all(&da),
        show_all(&db)
    );
    match (pa.get_root(&path), pb.get_root(&path)) {
        (None, None) => ctx.count("no tree"),
        (Some(x), Some(y)) => {
            if let Some(d) = dump::diff(&dump::actual(y, false), &dump::actual(x, false)) {
                fail!("the tree depends on the layout: {d}");
            }
        }
        _ => fail!("one layout has a tree, the other has none"),
    }
    for (x, y) in da.iter().zip(&db) {
        let meet = |p: Pos, q: Pos| {
            let v = anchors(&tb, q);
            anchors(&ta, p).iter().any(|a| v.contains(a))
        };
        let one = |s: Sp| s.1 == (s.0 .0, s.0 .1 + 1);
        ensure!(
            meet(x.sp.0, y.sp.0) && (meet(x.sp.1, y.sp.1) || one(x.sp) && one(y.sp)),
            "a diagnostic is attached to different tokens depending on the layout: {} versus {}",
            x.show(),
            y.show()
        );
    }
    ctx.count(if mutated { "mutated" } else { "well-formed" });
    if a != b && (b.contains("//") || b.contains("/*")) && ta.len() > 3 {
        ctx.nontrivial(&b);
        if !da.is_empty() {
            ctx.count("with comments and diagnostics");
        }
    }
    Ok(())
}

pub const C08: Check = Check {
    id: "C08",
    f: c08,
    quick: 300_000,
    thorough: 6_000_000,
    slow: false,
    rule: "a pair of different layouts of more than 3 tokens, one of them with comments",
    assumptions: &["a blank is kept wherever two tokens would otherwise join"],
};

// ---------------------------------------------------------------------------------------------
// C09

fn insert_char(src: &mut Src, s: &mut String, from: usize, c: char) {
    let n = s.chars().count();
    let i = src.range(from.min(n), n);
    let at = s.char_indices().nth(i).map_or(s.len(), |x| x.0);
    s.insert(at, c);
}

fn too_long(src: &mut Src, s: &mut String) {
    let n = if src.u(3) == 0 { src.range(33, 60) } else { 32 };
    while s.len() < n {
        s.push((b'a' + src.u(26) as u8) as char);
    }
}

fn bad_label(src: &mut Src, l: &mut String) {
    if src.u(2) == 0 {
        too_long(src, l)
    } else {
        l.truncate(30);
        let c = *src.pick_of(&[',', '.', '+', '-', '?', '#']);
        insert_char(src, l, 1, c);
    }
}

fn bad_node(src: &mut Src, n: &mut String, component: bool) {
    let (b, a) = split_name(n);
    let mut b = b.to_string();
    let mut a = a.map(|a| a.to_string());
    let odd: &[char] = if component { &['?', '#', 'é', '😀', ' ', '!', '(', '=', '漢', '"'] } else { &['?', '#'] };
    if src.u(3) > 0 || a.is_none() {
        match src.u(3) {
            0 => too_long(src, &mut b),
            1 => {
                b.truncate(30);
                let c = *src.pick_of(odd);
                insert_char(src, &mut b, 1, c);
            }
            _ => {
                b.truncate(30);
                let c = if component { *src.pick_of(&[',', '.', '_', '+', '-', '0', '9']) } else { *src.pick_of(&[',', '.', '_', '+', '-']) };
                b.insert(0, c);
            }
        }
    }
    if src.u(3) == 0 || a.is_some() && src.u(2) == 0 {
        let mut x = a.unwrap_or("1".into());
        match src.u(3) {
            0 => x.clear(),
            1 => too_long(src, &mut x),
            _ => {
                x.truncate(30);
                let c = if component && src.u(4) == 0 { '@' } else { *src.pick_of(odd) };
                insert_char(src, &mut x, 0, c);
            }
        }
        a = Some(x);
    }
    *n = match a {
        Some(a) => format!("{b}@{a}"),
        None => b,
    };
}

fn bad_prop(src: &mut Src, n: &mut String) {
    if src.u(2) == 0 {
        too_long(src, n)
    } else {
        n.truncate(30);
        insert_char(src, n, 1, '@');
    }
}

fn bad_ref(src: &mut Src, r: &mut Rf) {
    match r {
        Rf::L(l) => {
            if src.u(3) == 0 {
                l.clear()
            } else {
                too_long(src, l)
            }
        }
        Rf::P(p) => {
            if src.u(4) == 0 {
                p.clear();
                return;
            }
            let mut comps: Vec<String> = p.split('/').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect();
            if comps.is_empty() {
                comps.push("n".into());
            }
            let i = src.u(comps.len());
            bad_node(src, &mut comps[i], true);
            *p = comps.iter().map(|c| format!("/{c}")).collect();
        }
    }
}

struct Corrupter {
    den: usize,
}

impl Corrupter {
    fn hit(&self, src: &mut Src) -> bool {
        src.chance(1, self.den)
    }
    fn opt(&self, src: &mut Src, l: &mut Option<String>) {
        if let Some(l) = l {
            if self.hit(src) {
                bad_label(src, l)
            }
        }
    }
    fn rf(&self, src: &mut Src, r: &mut Rf) {
        if self.hit(src) {
            bad_ref(src, r)
        }
    }
    fn body(&self, src: &mut Src, b: &mut Body) {
        for it in &mut b.items {
            match it {
                Item::Prop(p) => {
                    self.opt(src, &mut p.label);
                    if self.hit(src) {
                        bad_prop(src, &mut p.name)
                    }
                    if self.hit(src) && src.u(3) == 0 {
                        p.name = "compatible".into()
                    }
                    if self.hit(src) {
                        p.omit = true
                    }
                    for v in &mut p.vals {
                        self.opt(src, &mut v.pre);
                        self.opt(src, &mut v.post);
                        match &mut v.kind {
                            VK::Str(_) => {}
                            VK::Rf(r) => self.rf(src, r),
                            VK::Cells(cs, t) => {
                                for (l, c) in cs {
                                    self.opt(src, l);
                                    if let CellD::Rf(r) = c {
                                        self.rf(src, r)
                                    }
                                }
                                self.opt(src, t);
                            }
                            VK::Bytes(gs, t) => {
                                for (l, _) in gs {
                                    self.opt(src, l);
                                }
                                self.opt(src, t);
                            }
                        }
                    }
                }
                Item::Node(n) => {
                    self.opt(src, &mut n.label);
                    if self.hit(src) {
                        bad_node(src, &mut n.name, false)
                    }
                    self.body(src, &mut n.body);
                }
                Item::DelNode(n) => {
                    if self.hit(src) {
                        bad_node(src, n, false)
                    }
                }
                Item::DelProp(n) => {
                    if self.hit(src) {
                        bad_prop(src, n)
                    }
                }
            }
        }
    }
}

/// Adds violations of the naming, ordering and directive rules
pub fn corrupt(src: &mut Src, doc: &mut Doc) {
    let c = Corrupter { den: *src.pick_of(&[2usize, 6, 20]) };
    for t in &mut doc.tops {
        match t {
            Top::Root(b) => c.body(src, b),
            Top::Ext(r, b) => {
                c.rf(src, r);
                c.body(src, b)
            }
            Top::Del(r) | Top::Omit(r) => c.rf(src, r),
            _ => {}
        }
    }
    while src.chance(1, 5) {
        let i = src.u(doc.tops.len() + 1);
        let t = match src.u(5) {
            0 | 1 => Top::Header,
            2 => Top::Inc("/dev/null".into(), true),
            3 => Top::Inc("/dev/null".into(), false),
            _ => Top::Plugin,
        };
        doc.tops.insert(i, t);
    }
    if src.chance(1, 6) {
        doc.tops.retain(|t| !matches!(t, Top::Header));
    } else if src.chance(1, 6) {
        if let Some(i) = doc.tops.iter().position(|t| matches!(t, Top::Header)) {
            let h = doc.tops.remove(i);
            let j = src.u(doc.tops.len() + 1);
            doc.tops.insert(j, h);
        }
    }
}

#[derive(Debug)]
struct Exp {
    kind: &'static str,
    sev: &'static str,
    /// any of these ranges; none: anywhere
    at: Vec<Sp>,
    /// or anything inside of this one
    within: Option<Sp>,
}

impl Exp {
    fn covers(&self, sp: Sp) -> bool {
        self.at.contains(&sp)
            || self.within.is_some_and(|o| o.0 <= sp.0 && sp.1 <= (o.1 .0, o.1 .1 + 1))
            || self.at.is_empty() && self.within.is_none()
    }
}

fn shift(p: Pos, text: &str) -> Pos {
    (p.0, p.1 + text.encode_utf16().count() as u32)
}

struct Rules<'a> {
    r: &'a Rendered,
    out: Vec<Exp>,
}

impl Rules<'_> {
    fn exact(&mut self, kind: &'static str, sev: &'static str, sp: Sp) {
        self.out.push(Exp { kind, sev, at: vec![sp], within: None });
    }
    /// `text` starts at `start`; `tok` is the range of the whole token
    fn name(&mut self, text: &str, start: Pos, tok: Sp, legal: &str, legal_start: &str) {
        let ok = |c: char| c.is_ascii_alphanumeric() || legal.contains(c);
        let end = shift(start, text);
        if let Some((i, c)) = text.char_indices().find(|(_, c)| !ok(*c)) {
            let s = shift(start, &text[..i]);
            let e = shift(s, &c.to_string());
            // one column or the whole character
            self.out.push(Exp { kind: "illegal_char", sev: "error", at: vec![(s, e), (s, (s.0, s.1 + 1))], within: None });
        } else if text.len() > 31 {
            self.out.push(Exp { kind: "name_too_long", sev: "warning", at: vec![tok, (start, end)], within: None });
        } else if text.is_empty() {
            self.out.push(Exp { kind: "expected_name", sev: "error", at: vec![], within: Some(tok) });
        } else {
            let c = text.chars().next().unwrap();
            if !(c.is_ascii_alphabetic() || legal_start.contains(c)) {
                self.out.push(Exp { kind: "illegal_start", sev: "error", at: vec![tok, (start, end)], within: None });
            }
        }
    }
    fn label_tok(&mut self, t: T) {
        let text = self.r.toks[t].text.trim_end_matches(':').to_string();
        let sp = self.r.tsp(t);
        self.name(&text, sp.0, sp, "_", "_");
    }
    fn node(&mut self, text: &str, start: Pos, tok: Sp) {
        if text == "__symbols__" {
            return;
        }
        let (b, a) = split_name(text);
        self.name(b, start, tok, ",._+-", "");
        if let Some(a) = a {
            self.name(a, shift(shift(start, b), "@"), tok, ",._+-", "0123456789,._+-");
        }
    }
    fn prop(&mut self, t: T) {
        let text = self.r.toks[t].text.clone();
        let sp = self.r.tsp(t);
        self.name(&text, sp.0, sp, ",._+-?#", ",._+-?#");
    }
    fn rf(&mut self, t: T) {
        let text = self.r.toks[t].text.clone();
        let sp = self.r.tsp(t);
        if let Some(p) = text.strip_prefix("&{") {
            let p = p.trim_end_matches('}');
            if p.is_empty() {
                self.exact("path_cannot_be_empty", "error", sp);
            }
            let mut at = shift(sp.0, "&{");
            for c in p.split('/') {
                if !c.is_empty() {
                    let s = (at, shift(at, c));
                    let n = self.out.len();
                    self.node(c, at, s);
                    for e in &mut self.out[n..] {
                        if e.kind != "illegal_char" {
                            e.at.push(sp);
                        }
                    }
                }
                at = shift(shift(at, c), "/");
            }
        } else {
            let l = text.trim_start_matches('&');
            let start = shift(sp.0, "&");
            self.name(l, start, sp, "_", "_");
        }
    }
    fn body(&mut self, b: &EBody) {
        let mut nodes = false;
        for it in &b.items {
            match it {
                EItem::Prop(p) => {
                    if let Some(l) = p.label {
                        self.label_tok(l)
                    }
                    self.prop(p.name);
                    if let Some(o) = p.omit {
                        let s = self.r.tsp(o);
                        self.exact("incorrect_directive", "error", s)
                    }
                    if nodes {
                        let s = self.r.prop_sp(p);
                        self.exact("property_after_node", "error", s)
                    }
                    let strings = self.r.toks[p.name].text == "compatible";
                    for v in &p.vals {
                        for t in v.outer.0..=v.outer.1 {
                            match self.r.toks[t].kind {
                                K::Label => self.label_tok(t),
                                K::LRef | K::PRef => self.rf(t),
                                _ => {}
                            }
                        }
                        if strings && !matches!(v.kind, EVK::Str(_)) {
                            let s = self.r.sp(v.first, v.last);
                            self.exact("non_string_in_compatible", "warning", s)
                        }
                    }
                }
                EItem::Node(n) => {
                    nodes = true;
                    if let Some(l) = n.label {
                        self.label_tok(l)
                    }
                    let (text, sp) = (self.r.toks[n.name].text.clone(), self.r.tsp(n.name));
                    self.node(&text, sp.0, sp);
                    self.body(&n.body);
                }
                EItem::DelNode(_, n, _) => {
                    let (text, sp) = (self.r.toks[*n].text.clone(), self.r.tsp(*n));
                    self.node(&text, sp.0, sp);
                }
                EItem::DelProp(_, n, _) => self.prop(*n),
            }
        }
    }
    fn file(&mut self, dts: bool) {
        let (mut seen, mut late) = (false, false);
        let r = self.r;
        for t in &r.tops {
            match t {
                ETop::Header(t, _) => {
                    let s = self.r.tsp(*t);
                    if seen {
                        self.exact("duplicate_directive", "warning", s)
                    } else if late {
                        self.exact("misplaced_dts_header", "error", s)
                    }
                    seen = true;
                    continue;
                }
                ETop::Inc { semi, .. } => {
                    if let Some(s) = semi {
                        let s = self.r.tsp(*s);
                        self.exact("parser_error", "error", s)
                    }
                    continue;
                }
                ETop::CInc(..) => continue,
                ETop::Plugin(..) | ETop::Mem(..) => {}
                ETop::Root(_, b) => self.body(b),
                ETop::Ext(t, _, b) => {
                    self.rf(*t);
                    self.body(b)
                }
                ETop::Del(_, t, _, _) | ETop::Omit(_, t, _, _) => self.rf(*t),
            }
            late = true;
        }
        if dts && !seen {
            self.out.push(Exp { kind: "non_dts_v1", sev: "error", at: vec![], within: None })
        }
    }
}

fn c09(src: &mut Src, ctx: &mut Ctx) -> R {
    let name = src.pick(KINDS);
    let cfg = Cfg { lawful: src.u(2) == 0, ..Cfg::default() };
    let mut doc = random_doc(src, ctx, cfg);
    corrupt(src, &mut doc);
    let style = random_style(src);
    let r = render(src, &doc, style);
    ctx.input(name, &r.text);
    let mut rules = Rules { r: &r, out: vec![] };
    rules.file(name == "x.dts");
    let want = rules.out;
    about_to_run(src, ctx);
    let (p, path) = load(name, &r.text);
    let got: Vec<D> = diags(&p, &path).into_iter().filter(|d| d.kind != "unresolved_reference").collect();
    let mut rest: Vec<&D> = got.iter().collect();
    for w in &want {
        let i = rest.iter().position(|d| {
            d.kind == w.kind && d.sev == w.sev && w.covers(d.sp)
        });
        match i {
            Some(i) => {
                rest.remove(i);
            }
            None => fail!("a violation is not reported as expected: {:?}; got {}", w, show_all(&got)),
        }
        ctx.count(w.kind);
    }
    ensure!(
        rest.is_empty(),
        "diagnostics without a cause: {}",
        show_all(&rest.into_iter().cloned().collect::<Vec<_>>())
    );
    if !want.is_empty() {
        ctx.nontrivial(&r.text);
    }
    Ok(())
}

pub const C09: Check = Check {
    id: "C09",
    f: c09,
    quick: 300_000,
    thorough: 6_000_000,
    slow: false,
    rule: "a document with at least one violation of a rule",
    assumptions: &[
        "each name breaks at most one rule per part (base name, unit address)",
        "a second header is a duplicate wherever it stands",
    ],
};

// ---------------------------------------------------------------------------------------------
// C16

fn random_line(src: &mut Src) -> String {
    let n = match src.u(6) {
        5 => src.u(120),
        _ => src.u(12),
    };
    (0..n)
        .map(|_| match src.u(8) {
            0 => '\t',
            1 => ' ',
            2 => *src.pick_of(&['é', '漢', 'ß', '\u{301}', '\u{a0}', '\u{3000}', '\u{85}']),
            3 => *src.pick_of(&['😀', '𝒳', '\u{10ffff}']),
            4 => *src.pick_of(&['^', '|', '-', '>', ';', '"', '\\', '{', '}']),
            _ => (b'a' + src.u(26) as u8) as char,
        })
        .collect()
}

/// The rendering of one diagnostic
pub fn expected_block(lines: &[String], file: &str, d: &D) -> String {
    let n = (d.sp.0 .0 + 1).to_string();
    let pad = " ".repeat(n.len());
    let empty = String::new();
    let line = lines.get(d.sp.0 .0 as usize).unwrap_or(&empty);
    let len: u32 = line.chars().map(|c| c.len_utf16() as u32).sum();
    let (start, end) = (d.sp.0 .1, if d.sp.1 .0 == d.sp.0 .0 { d.sp.1 .1 } else { len });
    let mut col = 0;
    let mut indent = String::new();
    let mut carets = 0usize;
    for c in line.chars() {
        if col < start {
            indent.push(if c.is_ascii_whitespace() { c } else { ' ' });
        } else if col < end {
            carets += 1;
        }
        col += c.len_utf16() as u32;
    }
    if end > col {
        carets += (end - col.max(start)) as usize;
    }
    format!(
        "{} --> {}:{}:{}\n{pad} |\n{n} | {line}\n{pad} | {indent}{} {}\n\n",
        d.sev,
        file,
        d.sp.0 .0 + 1,
        d.sp.0 .1 + 1,
        "^".repeat(carets.max(1)),
        d.msg
    )
}

fn c16(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = match src.u(8) {
        7 => src.range(8, 130),
        _ => src.range(0, 7),
    };
    let mut lines: Vec<String> = (0..n).map(|_| random_line(src)).collect();
    if src.chance(1, 200) {
        // line numbers with more digits
        let mut many = vec![String::new(); *src.pick_of(&[90, 99, 250, 990, 999, 9_990, 70_000])];
        many.append(&mut lines);
        lines = many;
    }
    if n > 0 && src.chance(1, 500) {
        let k = src.u(n);
        let at = lines.len() - n + k;
        let wide = *src.pick_of(&[200, 250, 1000, 65_500]);
        lines[at] = format!("{}{}", src.pick(&[" ", "\t", "a", "é"]).repeat(wide), lines[at]);
    }
    let skip = lines.len() - n;
    let mut ds = vec![];
    let mut want = String::new();
    let boundary = |src: &mut Src, line: &str| -> u32 {
        // a column at which a character starts, or the end of the line
        let mut cols = vec![0u32];
        for c in line.chars() {
            cols.push(cols.last().unwrap() + c.len_utf16() as u32);
        }
        *src.pick_of(&cols)
    };
    let empty = String::new();
    let mut multi = false;
    for _ in 0..src.range(0, 4) {
        let l = skip + src.u(n + 1);
        let line = lines.get(l).unwrap_or(&empty);
        let a = boundary(src, line);
        let len: u32 = line.chars().map(|c| c.len_utf16() as u32).sum();
        let (el, ec) = match src.u(6) {
            0 => {
                let e = src.range(l, skip + n + 1);
                let t = lines.get(e).unwrap_or(&empty);
                let c = boundary(src, t);
                if e == l {
                    (l, c.max(a))
                } else {
                    multi = true;
                    (e, c)
                }
            }
            1 => (l, a),
            2 => (l, len.max(a) + src.u(3) as u32),
            _ => (l, boundary(src, line).max(a)),
        };
        let codes = [
            ErrorCode::Expected, ErrorCode::NameTooLong, ErrorCode::IntError, ErrorCode::NonStringInCompatible,
            ErrorCode::DuplicateDirective, ErrorCode::UnresolvedReference, ErrorCode::IOError, ErrorCode::ErrorsInInclude,
        ];
        let code = *src.pick_of(&codes);
        let msg = src.pick(&["Expected ';'", "m", "", "é 😀", "a\tb"]).to_string();
        let file = src.pick(&["/a/x.dts", "fname", "dir with blank/ü.dtsi", "x"]).to_string();
        let d = Diagnostic::new(
            span(((l as u32, a), (el as u32, ec))),
            std::sync::Arc::from(Path::new(&file)),
            code,
            msg,
        );
        want.push_str(&expected_block(&lines, &file, &D::of(&d)));
        ds.push(d);
    }
    ctx.input(if skip > 0 { "last lines" } else { "lines" }, lines[skip..].join("\n"));
    ctx.input("diagnostics", show_all(&ds.iter().map(D::of).collect::<Vec<_>>()));
    about_to_run(src, ctx);
    let got = DiagnosticPrinter { diagnostics: &ds, code: lines.clone(), severity_map: SeverityMap::default() }.to_string();
    ensure!(got == want, "the report is\n{got}\nbut should be\n{want}");
    ctx.count(if multi { "range over several lines" } else { "ranges within lines" });
    if !ds.is_empty() && lines.iter().any(|l| !l.is_empty()) {
        ctx.nontrivial(&format!("{:?}{want}", &lines[skip..]));
    }
    Ok(())
}

pub const C16: Check = Check {
    id: "C16",
    f: c16,
    quick: 1_500_000,
    thorough: 10_000_000,
    slow: false,
    rule: "at least one diagnostic over text that is not empty",
    assumptions: &["ranges start at a character of the line or at its end"],
};

// ---------------------------------------------------------------------------------------------
// C22

fn c22(src: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = Cfg {
        lawful: src.u(3) != 2,
        exprs: false,
        bits: false,
        value_labels: false,
        includes: src.chance(1, 3),
        ..Cfg::default()
    };
    let doc = random_doc(src, ctx, cfg);
    let style = random_style(src);
    let r = render(src, &doc, style);
    ctx.input("x.dts", &r.text);
    about_to_run(src, ctx);
    let (f, _) = parse(&r.text);
    let f = match f {
        Ok(f) => f,
        Err(e) => fail!("a well-formed source cannot be parsed: {}", D::of(&e).show()),
    };
    let printed = f.to_string();
    ctx.input("printed", &printed);
    let (g, ds) = parse(&printed);
    let g = match g {
        Ok(g) => g,
        Err(e) => fail!("the printed tree cannot be parsed: {}\n{printed}", D::of(&e).show()),
    };
    if let Some(d) = dump::diff(&dump::actual(&g, false), &dump::actual(&f, false)) {
        fail!("the printed tree means something else: {d}\n{printed}");
    }
    if let Some(d) = dump::diff(&dump::actual(&g, false), &dump::expected(&r, false)) {
        fail!("the printed tree is not what was written: {d}\n{printed}");
    }
    let (_, before) = parse(&r.text);
    let kinds = |ds: &[D]| {
        let mut k: Vec<(String, String)> = ds.iter().map(|d| (d.kind.clone(), d.msg.clone())).collect();
        k.sort();
        k
    };
    ensure!(
        kinds(&ds) == kinds(&before),
        "the printed tree gets other diagnostics ({}) than the source ({})",
        show_all(&ds),
        show_all(&before)
    );
    let again = g.to_string();
    ensure!(again == printed, "printing the printed tree gives another text:\n{printed}\n-----\n{again}");
    // single elements
    for p in &f.elements {
        let text = p.to_string();
        let (g, _) = parse(&text);
        let ok = g.as_ref().is_ok_and(|g| {
            g.elements.len() == 1 && dump::diff(&dump::actual_primary(&g.elements[0], false), &dump::actual_primary(p, false)).is_none()
        });
        ensure!(ok, "a single top-level element is printed as `{text}`, which means something else");
    }
    let mut stack: Vec<&ginko::dts::NodePayload> = vec![];
    for p in &f.elements {
        match p {
            ginko::dts::Primary::Root(n) => stack.push(&n.payload),
            ginko::dts::Primary::ReferencedNode(n) => stack.push(&n.payload),
            _ => {}
        }
    }
    let mut budget = 12;
    while let Some(p) = stack.pop() {
        for it in &p.items {
            if budget == 0 {
                break;
            }
            budget -= 1;
            let (text, mine) = match it {
                ginko::dts::NodeItem::Property(p) => (p.to_string(), dump::actual_property(p)),
                ginko::dts::NodeItem::Node(n) => {
                    stack.push(&n.payload);
                    (n.to_string(), dump::actual_node(n))
                }
                _ => continue,
            };
            let wrapped = format!("/ {{ {text} }};");
            let (g, _) = parse(&wrapped);
            let theirs = g.ok().and_then(|g| match g.elements.first() {
                Some(ginko::dts::Primary::Root(n)) if n.payload.items.len() == 1 => Some(match &n.payload.items[0] {
                    ginko::dts::NodeItem::Property(p) => dump::actual_property(p),
                    ginko::dts::NodeItem::Node(n) => dump::actual_node(n),
                    _ => vec![],
                }),
                _ => None,
            });
            ensure!(
                theirs.as_ref().is_some_and(|t| dump::diff(t, &mine).is_none()),
                "a single item is printed as `{text}`, which means something else"
            );
        }
    }
    if doc.count_items() >= 3 {
        ctx.nontrivial(&r.text);
    }
    Ok(())
}

pub const C22: Check = Check {
    id: "C22",
    f: c22,
    quick: 200_000,
    thorough: 4_000_000,
    slow: false,
    rule: "a document with at least 3 items",
    assumptions: &["no parenthesised expressions, /bits/ or labels inside values, which the tree does not keep"],
};
