use crate::dump::sp;
use crate::engine::*;
use crate::render::{Pos, Sp};
use ginko::dts::{Diagnostic, FileType, HasSpan, Parser, ParserContext, Position, Project, Severity, SeverityMap};
use std::path::{Path, PathBuf};

pub mod project;
pub mod server;
pub mod syntax;

pub struct Check {
    pub id: &'static str,
    pub f: fn(&mut Src, &mut Ctx) -> R,
    pub quick: usize,
    pub thorough: usize,
    /// cases start processes: shrink less
    pub slow: bool,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const ALL: &[&Check] = &[
    &project::C01,
    &syntax::C02,
    &syntax::C03,
    &syntax::C04,
    &syntax::C05,
    &syntax::C06,
    &syntax::C07,
    &syntax::C08,
    &syntax::C09,
    &project::C10,
    &project::C11,
    &project::C12,
    &project::C13,
    &project::C14,
    &project::C15,
    &syntax::C16,
    &project::C17,
    &server::C18,
    &server::C19,
    &server::C20,
    &server::C21,
    &syntax::C22,
    &project::C23,
];

pub fn find(id: &str) -> Option<&'static Check> {
    ALL.iter().copied().find(|c| c.id == id)
}

/// A diagnostic, reduced to what a user sees
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct D {
    pub sp: Sp,
    pub kind: String,
    pub sev: &'static str,
    pub msg: String,
    pub file: PathBuf,
}

impl D {
    pub fn of(d: &Diagnostic) -> D {
        D {
            sp: sp(d.span()),
            kind: d.kind.as_ref().to_string(),
            sev: match d.severity(&SeverityMap::default()) {
                Severity::Error => "error",
                Severity::Warning => "warning",
                Severity::Hint => "hint",
            },
            msg: d.message.clone(),
            file: d.source.to_path_buf(),
        }
    }
    pub fn show(&self) -> String {
        format!(
            "{} {} at {}:{}-{}:{} \"{}\"",
            self.sev, self.kind, self.sp.0 .0, self.sp.0 .1, self.sp.1 .0, self.sp.1 .1, self.msg
        )
    }
}

pub fn show_all(ds: &[D]) -> String {
    if ds.is_empty() {
        return "(none)".into();
    }
    ds.iter().map(|d| d.show()).collect::<Vec<_>>().join("; ")
}

pub fn span(s: Sp) -> ginko::dts::Span {
    ginko::dts::Span::new(Position::new(s.0 .0, s.0 .1), Position::new(s.1 .0, s.1 .1))
}

pub fn position(p: Pos) -> Position {
    Position::new(p.0, p.1)
}

pub fn parse(text: &str) -> (Result<ginko::dts::DtsFile, Diagnostic>, Vec<D>) {
    let mut p = Parser::from_text(ParserContext::default(), text, Path::new("/gv/x.dts").into());
    let f = p.file();
    let ds = p.diagnostics.iter().map(D::of).collect();
    (f, ds)
}

/// Loads a single file that is not on disk
pub fn load(name: &str, text: &str) -> (Project, PathBuf) {
    let path = PathBuf::from("/gv-no-such-dir").join(name);
    let mut p = Project::default();
    let ty = FileType::from(path.as_path());
    p.add_file_with_text(path.clone(), text.to_string(), ty);
    (p, path)
}

pub fn diags(p: &Project, path: &Path) -> Vec<D> {
    p.get_diagnostics(path).map(D::of).collect()
}

