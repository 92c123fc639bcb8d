//! Literals that occur in the sources of the code under test but not in the committed baseline
//! list. They steer generation only (which names, sizes and values are tried more often), never
//! the verdict: new constants in the code are places where behaviour may have changed.
use std::collections::BTreeSet;

#[derive(Default, Clone)]
pub struct Dict {
    pub words: Vec<String>,
    pub ints: Vec<u64>,
}

pub fn repo() -> String {
    std::env::var("GV_REPO").unwrap_or_else(|_| "/repo".to_string())
}

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut entries: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    entries.sort();
    for p in entries {
        if p.is_dir() {
            files(&p, out)
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p)
        }
    }
}

/// (string literals, integer literals) of all Rust sources
pub fn extract() -> (BTreeSet<String>, BTreeSet<u64>) {
    let mut list = vec![];
    for d in ["ginko/src", "ginko_ls/src"] {
        files(&std::path::Path::new(&repo()).join(d), &mut list);
    }
    let mut words = BTreeSet::new();
    let mut ints = BTreeSet::new();
    for f in list {
        let Ok(text) = std::fs::read_to_string(&f) else { continue };
        // unit tests sit at the end of the files
        let text = text.split("#[cfg(test)]\nmod ").next().unwrap_or("").to_string();
        let b: Vec<char> = text.chars().collect();
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            if c == '/' && b.get(i + 1) == Some(&'/') {
                while i < b.len() && b[i] != '\n' {
                    i += 1
                }
                continue;
            }
            if c == '"' {
                let mut s = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' {
                        i += 1;
                    }
                    if i < b.len() {
                        s.push(b[i]);
                    }
                    i += 1;
                }
                i += 1;
                if !s.is_empty() && s.len() <= 80 {
                    words.insert(s);
                }
                continue;
            }
            if c == '\'' {
                if b.get(i + 2) == Some(&'\'') && b[i + 1] != '\\' {
                    words.insert(b[i + 1].to_string());
                    i += 3;
                    continue;
                }
                if b.get(i + 1) == Some(&'\\') && b.get(i + 3) == Some(&'\'') {
                    i += 4;
                    continue;
                }
            }
            if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
                let mut s = String::new();
                while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                    if b[i] != '_' {
                        s.push(b[i]);
                    }
                    i += 1;
                }
                for suf in ["usize", "u64", "u32", "u16", "u8", "i32", "i64"] {
                    if let Some(p) = s.strip_suffix(suf) {
                        s = p.to_string();
                    }
                }
                let v = if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else {
                    s.parse().ok()
                };
                if let Some(v) = v {
                    ints.insert(v);
                }
                continue;
            }
            i += 1;
        }
    }
    (words, ints)
}

impl Dict {
    pub fn load() -> Dict {
        let baseline = include_str!("../baseline_literals.txt");
        let base: BTreeSet<&str> = baseline.lines().collect();
        let (words, ints) = extract();
        Dict {
            words: words
                .into_iter()
                .filter(|w| !base.contains(format!("s {}", w.replace('\n', "\\n")).as_str()))
                .collect(),
            ints: ints
                .into_iter()
                .filter(|v| !base.contains(format!("i {v}").as_str()))
                .collect(),
        }
    }
    pub fn dump() -> String {
        let (words, ints) = extract();
        let mut out = String::new();
        for w in words {
            out.push_str(&format!("s {}\n", w.replace('\n', "\\n")));
        }
        for i in ints {
            out.push_str(&format!("i {i}\n"));
        }
        out
    }
    /// A size suggested by a new constant in the code
    pub fn size(&self, src: &mut crate::engine::Src, max: usize) -> Option<usize> {
        let c: Vec<usize> = self.ints.iter().map(|v| *v as usize).filter(|v| *v <= max && *v > 1).collect();
        if c.is_empty() || !src.chance(1, 8) {
            return None;
        }
        let v = *src.pick_of(&c);
        Some((v + src.u(3)).saturating_sub(1))
    }
}
