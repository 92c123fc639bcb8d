//! An independent reference for the supported language: a lexer and a recogniser that says where
//! a text stops being well-formed. Written from the grammar, not from the code under test.
use crate::render::{advance, Pos};

#[derive(Clone, PartialEq, Debug)]
pub enum L {
    Semi,
    Slash,
    Eq,
    OpenBr,
    CloseBr,
    OpenPar,
    ClosePar,
    OpenAng,
    CloseAng,
    Comma,
    Open,
    Close,
    Ident(String),
    Label(String),
    Str,
    Num(String),
    Dir(String),
    /// label or path reference; false if there is nothing after the '&' or between the braces
    Ref(bool),
    Junk,
}

#[derive(Clone, Debug)]
pub struct LTok {
    pub k: L,
    pub start: Pos,
    pub end: Pos,
}

pub fn lex(text: &str) -> (Vec<LTok>, Pos) {
    let cs: Vec<char> = text.chars().collect();
    let mut poss: Vec<Pos> = Vec::with_capacity(cs.len() + 1);
    let mut p: Pos = (0, 0);
    for c in &cs {
        poss.push(p);
        advance(&mut p, *c);
    }
    poss.push(p);
    let at = |i: usize| cs.get(i).copied();
    let mut out: Vec<LTok> = vec![];
    let mut i = 0;
    let mut names = true;
    let body = |c: char| c.is_ascii_alphanumeric() || ",._+?#-".contains(c);
    while i < cs.len() {
        let c = cs[i];
        if matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}') {
            i += 1;
            continue;
        }
        let s = i;
        let mut kind = None;
        if c.is_ascii_alphabetic() || c == '_' || (names && ",.+-#?".contains(c)) {
            while at(i).is_some_and(body) {
                i += 1
            }
            if at(i) == Some(':') {
                kind = Some(L::Label(cs[s..i].iter().collect()));
                i += 1;
            } else {
                if at(i) == Some('@') {
                    i += 1;
                    while at(i).is_some_and(body) {
                        i += 1
                    }
                }
                kind = Some(L::Ident(cs[s..i].iter().collect()));
            }
        } else if c.is_ascii_digit() {
            while at(i).is_some_and(|c| c.is_ascii_alphanumeric()) {
                i += 1
            }
            kind = Some(L::Num(cs[s..i].iter().collect()));
        } else if c == '&' {
            i += 1;
            match at(i) {
                None => kind = Some(L::Junk),
                Some('{') => {
                    while at(i).is_some_and(|c| c != '}') {
                        i += 1
                    }
                    if i < cs.len() {
                        i += 1;
                        kind = Some(L::Ref(i - s > 3));
                    } else {
                        kind = Some(L::Junk);
                    }
                }
                Some(x) if x.is_ascii_alphabetic() || x == '_' => {
                    while at(i).is_some_and(|c| c.is_ascii_alphanumeric() || c == '_') {
                        i += 1
                    }
                    kind = Some(L::Ref(true));
                }
                Some(_) => kind = Some(L::Ref(false)),
            }
        } else if c == '"' {
            i += 1;
            loop {
                match at(i) {
                    None => {
                        kind = Some(L::Junk);
                        break;
                    }
                    Some('\\') => i += 2,
                    Some('"') => {
                        i += 1;
                        kind = Some(L::Str);
                        break;
                    }
                    Some(_) => i += 1,
                }
            }
            i = i.min(cs.len());
        } else if c == '/' {
            i += 1;
            match at(i) {
                Some('/') => {
                    while at(i).is_some_and(|c| c != '\n') {
                        i += 1
                    }
                }
                Some('*') => {
                    i += 1;
                    while i < cs.len() && !(cs[i] == '*' && at(i + 1) == Some('/')) {
                        i += 1
                    }
                    if i < cs.len() {
                        i += 2
                    } else {
                        kind = Some(L::Junk)
                    }
                }
                Some(x) if x.is_ascii_alphabetic() => {
                    while at(i).is_some_and(|c| c.is_ascii_alphanumeric() || c == '-') {
                        i += 1
                    }
                    let name: String = cs[s + 1..i].iter().collect();
                    if at(i) == Some('/') {
                        i += 1;
                        kind = Some(L::Dir(name));
                    } else {
                        kind = Some(L::Junk);
                    }
                }
                _ => kind = Some(L::Slash),
            }
        } else {
            i += 1;
            kind = Some(match c {
                ';' => {
                    names = true;
                    L::Semi
                }
                '=' => {
                    names = false;
                    L::Eq
                }
                '{' => {
                    names = true;
                    L::Open
                }
                '}' => L::Close,
                '[' => L::OpenBr,
                ']' => L::CloseBr,
                '(' => L::OpenPar,
                ')' => L::ClosePar,
                '<' => L::OpenAng,
                '>' => L::CloseAng,
                ',' => L::Comma,
                _ => L::Junk,
            });
        }
        if let Some(k) = kind {
            out.push(LTok { k, start: poss[s], end: poss[i] });
        }
    }
    (out, p)
}

pub struct Verdict {
    /// index of the first token that does not fit (may be the number of tokens: end of file)
    pub bad: Option<usize>,
    /// something else is wrong: empty references, illegal numbers and the like
    pub ill: bool,
    /// contains something that the reference does not decide
    pub unclear: bool,
    /// the outermost opening parenthesis of an expression that the text ends in
    pub open_par: Option<usize>,
}

struct P<'a> {
    open_par: Option<usize>,
    t: &'a [LTok],
    i: usize,
    ill: bool,
    unclear: bool,
}

type E = Result<(), ()>;

impl P<'_> {
    fn k(&self) -> Option<&L> {
        self.t.get(self.i).map(|t| &t.k)
    }
    fn eat(&mut self, k: L) -> E {
        if self.k() == Some(&k) {
            self.i += 1;
            Ok(())
        } else {
            Err(())
        }
    }
    fn is_dir(&self, d: &str) -> bool {
        matches!(self.k(), Some(L::Dir(x)) if x == d)
    }
    fn reference(&mut self) -> E {
        match self.k() {
            Some(L::Ref(ok)) => {
                self.ill |= !ok;
                self.i += 1;
                Ok(())
            }
            _ => Err(()),
        }
    }
    fn num(&mut self) -> E {
        match self.k() {
            Some(L::Num(_)) => {
                self.i += 1;
                Ok(())
            }
            _ => Err(()),
        }
    }
    fn ident(&mut self) -> E {
        match self.k() {
            Some(L::Ident(_)) => {
                self.i += 1;
                Ok(())
            }
            _ => Err(()),
        }
    }
    fn opt_label(&mut self) -> bool {
        if matches!(self.k(), Some(L::Label(_))) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn file(&mut self) -> E {
        while self.k().is_some() {
            self.top()?
        }
        Ok(())
    }
    fn top(&mut self) -> E {
        match self.k().cloned() {
            Some(L::Dir(d)) => match d.as_str() {
                "dts-v1" | "plugin" => {
                    self.i += 1;
                    self.eat(L::Semi)
                }
                "memreserve" => {
                    self.i += 1;
                    self.num()?;
                    self.num()?;
                    self.eat(L::Semi)
                }
                "include" => {
                    self.i += 1;
                    self.eat(L::Str)?;
                    if self.k() == Some(&L::Semi) {
                        self.ill = true;
                        self.i += 1;
                    }
                    Ok(())
                }
                "delete-node" | "omit-if-no-ref" => {
                    self.i += 1;
                    self.reference()?;
                    self.eat(L::Semi)
                }
                _ => Err(()),
            },
            Some(L::Ident(s)) if s == "#include" => {
                self.i += 1;
                self.eat(L::Str)
            }
            Some(L::Slash) => {
                self.i += 1;
                self.body()
            }
            Some(L::Ref(_)) => {
                self.reference()?;
                self.body()
            }
            _ => Err(()),
        }
    }
    fn body(&mut self) -> E {
        self.eat(L::Open)?;
        loop {
            if self.k() == Some(&L::Close) {
                self.i += 1;
                return self.eat(L::Semi);
            }
            if self.is_dir("delete-node") || self.is_dir("delete-property") {
                self.i += 1;
                self.ident()?;
                self.eat(L::Semi)?;
                continue;
            }
            if self.is_dir("omit-if-no-ref") {
                self.i += 1;
            }
            self.opt_label();
            self.ident()?;
            match self.k() {
                Some(L::Semi) => self.i += 1,
                Some(L::Open) => self.body()?,
                Some(L::Eq) => {
                    self.i += 1;
                    self.values()?;
                    self.eat(L::Semi)?
                }
                _ => return Err(()),
            }
        }
    }
    fn values(&mut self) -> E {
        loop {
            self.opt_label();
            if self.is_dir("bits") {
                self.i += 1;
                self.num()?;
            }
            match self.k() {
                Some(L::Str) => self.i += 1,
                Some(L::Ref(_)) => self.reference()?,
                Some(L::OpenAng) => {
                    self.i += 1;
                    loop {
                        self.opt_label();
                        match self.k() {
                            Some(L::CloseAng) => {
                                self.i += 1;
                                break;
                            }
                            Some(L::Num(_)) => self.i += 1,
                            Some(L::Ref(_)) => self.reference()?,
                            Some(L::OpenPar) => {
                                let mut depth = 0;
                                let start = self.i;
                                loop {
                                    match self.k() {
                                        Some(L::OpenPar) => depth += 1,
                                        Some(L::ClosePar) => depth -= 1,
                                        None => {
                                            self.open_par = Some(start);
                                            return Err(());
                                        }
                                        Some(L::Junk) => self.unclear = true,
                                        _ => {}
                                    }
                                    self.i += 1;
                                    if depth == 0 {
                                        break;
                                    }
                                }
                            }
                            _ => return Err(()),
                        }
                    }
                }
                Some(L::OpenBr) => {
                    self.i += 1;
                    loop {
                        self.opt_label();
                        match self.k() {
                            Some(L::CloseBr) => {
                                self.i += 1;
                                break;
                            }
                            Some(L::Num(_)) | Some(L::Ident(_)) => self.i += 1,
                            _ => return Err(()),
                        }
                    }
                }
                _ => return Err(()),
            }
            self.opt_label();
            if self.k() == Some(&L::Comma) {
                self.i += 1;
            } else {
                return Ok(());
            }
        }
    }
}

pub fn judge(toks: &[LTok]) -> Verdict {
    let mut p = P { open_par: None, t: toks, i: 0, ill: false, unclear: false };
    let r = p.file();
    Verdict { bad: r.is_err().then_some(p.i), ill: p.ill, unclear: p.unclear, open_par: p.open_par }
}

/// The token that is called like this in messages
pub fn named(name: &str) -> Option<L> {
    Some(match name {
        "';'" => L::Semi,
        "'/'" => L::Slash,
        "'='" => L::Eq,
        "'['" => L::OpenBr,
        "']'" => L::CloseBr,
        "'('" => L::OpenPar,
        "')'" => L::ClosePar,
        "'<'" => L::OpenAng,
        "'>'" => L::CloseAng,
        "','" => L::Comma,
        "'{'" => L::Open,
        "'}'" => L::Close,
        "identifier" => L::Ident("a".into()),
        "label" => L::Label("a".into()),
        "string" => L::Str,
        "number" => L::Num("1".into()),
        "reference" => L::Ref(true),
        _ => L::Dir(name.strip_prefix('/')?.strip_suffix('/')?.into()),
    })
}

/// Can the text continue with this token after the first k ones?
pub fn may_follow(toks: &[LTok], k: usize, next: L) -> bool {
    let mut t = toks[..k].to_vec();
    let at = t.last().map_or((0, 0), |t| t.end);
    t.push(LTok { k: next, start: at, end: at });
    judge(&t).bad != Some(k)
}

/// Is the parenthesis at this position (the index of a token) closed before the end of the text?
pub fn closed(toks: &[LTok], at: usize) -> bool {
    let mut d = 0i64;
    for t in &toks[at..] {
        match t.k {
            L::OpenPar => d += 1,
            L::ClosePar => d -= 1,
            _ => {}
        }
        if d <= 0 {
            return true;
        }
    }
    false
}

/// Nesting of braces, to keep away from the documented limit
pub fn max_depth(toks: &[LTok]) -> usize {
    let mut d = 0usize;
    let mut m = 0;
    for t in toks {
        match t.k {
            L::Open => {
                d += 1;
                m = m.max(d)
            }
            L::Close => d = d.saturating_sub(1),
            _ => {}
        }
    }
    m
}
