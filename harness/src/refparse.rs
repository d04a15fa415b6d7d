//! Reference implementation of the HTML5 dialect, written from the documentation and the
//! observed behaviour, independent of the library's parser: a character cursor, no shared code.

pub type Attrs = Vec<(String, Option<String>)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Text(String),
    Raw(String),
    Comment(String),
    Doctype(String),
    Open(String, Attrs),
    Close(String),
    SelfClosed(String, Attrs),
    Void(String, Attrs),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IdentErr {
    Empty,
    NotAscii,
    Whitespace(char),
    Forbidden(char),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Loc {
    pub line: usize,
    pub column: usize,
    pub offset: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PErr {
    pub kind: &'static str,
    /// Names carried by the error, in the order of the variant's fields.
    pub names: Vec<String>,
    pub ident: Option<IdentErr>,
    pub locs: Vec<Loc>,
    pub limit: Option<usize>,
}

pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link", "menuitem", "meta",
    "param", "source", "track", "wbr",
];
pub const RAW: &[&str] = &["script", "style", "title", "textarea"];

pub fn same(a: &str, b: &str) -> bool {
    a.len() == b.len()
        && a.bytes().zip(b.bytes()).all(|(x, y)| x.is_ascii() && y.is_ascii() && x.to_ascii_lowercase() == y.to_ascii_lowercase())
}
pub fn is_void(tag: &str) -> bool { VOID.contains(&tag.to_ascii_lowercase().as_str()) }
pub fn is_raw(tag: &str) -> bool { RAW.contains(&tag.to_ascii_lowercase().as_str()) }

pub fn check_ident(s: &str) -> Result<(), IdentErr> {
    if s.is_empty() {
        return Err(IdentErr::Empty);
    }
    if s.bytes().any(|b| b > 127) {
        return Err(IdentErr::NotAscii);
    }
    for c in s.chars() {
        if matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0b' | '\x0c') {
            return Err(IdentErr::Whitespace(c));
        }
    }
    for c in s.chars() {
        if matches!(c, '=' | '"' | '/' | '>' | '<' | '&' | ',' | ';') {
            return Err(IdentErr::Forbidden(c));
        }
    }
    Ok(())
}

pub fn loc_of(src: &str, offset: usize) -> Loc {
    let mut line = 1;
    let mut column = 1;
    for (i, c) in src.char_indices() {
        if i >= offset {
            break;
        }
        if c == '\n' {
            line += 1;
            column = 1;
        } else {
            column += 1;
        }
    }
    Loc { line, column, offset }
}

/// The same for many offsets, in one pass.
fn locs_of(src: &str, offsets: &[usize]) -> Vec<Loc> {
    let mut order: Vec<usize> = (0..offsets.len()).collect();
    order.sort_by_key(|i| offsets[*i]);
    let mut out = vec![Loc { line: 1, column: 1, offset: 0 }; offsets.len()];
    let (mut line, mut column) = (1, 1);
    let mut chars = src.char_indices().peekable();
    for i in order {
        while let Some(&(at, c)) = chars.peek() {
            if at >= offsets[i] {
                break;
            }
            if c == '\n' {
                line += 1;
                column = 1;
            } else {
                column += 1;
            }
            chars.next();
        }
        out[i] = Loc { line, column, offset: offsets[i] };
    }
    out
}

fn err(kind: &'static str, names: &[&str], at: &[usize], src: &str) -> PErr {
    PErr {
        kind,
        names: names.iter().map(|s| (*s).to_string()).collect(),
        ident: None,
        locs: if at.len() < 4 { at.iter().map(|o| loc_of(src, *o)).collect() } else { locs_of(src, at) },
        limit: None,
    }
}

struct Cur<'a> {
    src: &'a str,
    pos: usize,
}

impl<'a> Cur<'a> {
    fn rest(&self) -> &'a str { &self.src[self.pos..] }
    fn peek(&self) -> Option<char> { self.rest().chars().next() }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.pos += c.len_utf8();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) {
        while let Some(c) = self.peek() {
            if c.is_whitespace() {
                self.pos += c.len_utf8();
            } else {
                break;
            }
        }
    }
    fn word(&mut self) -> &'a str {
        let start = self.pos;
        while let Some(c) = self.peek() {
            if matches!(c, ' ' | '\t' | '\r' | '\n' | '>' | '<' | '"' | '/' | '=' | '\'' | '&') {
                break;
            }
            self.pos += c.len_utf8();
        }
        &self.src[start..self.pos]
    }
}

/// `Some(end)` when a closing tag for `name` starts at `pos`.
fn closing_tag_at(src: &str, pos: usize, name: &str) -> bool {
    let mut cur = Cur { src, pos };
    if !cur.eat('<') {
        return false;
    }
    cur.ws();
    if !cur.eat('/') {
        return false;
    }
    cur.ws();
    let word = cur.word();
    if check_ident(word).is_err() {
        return false;
    }
    cur.ws();
    cur.eat('>') && same(word, name)
}

pub fn parse(src: &str, depth_limit: Option<usize>) -> Result<Vec<Ev>, PErr> {
    let mut out = Vec::new();
    let mut stack: Vec<(String, usize)> = Vec::new();
    let mut cur = Cur { src, pos: 0 };
    while cur.pos < src.len() {
        let start = cur.pos;
        if cur.peek() != Some('<') {
            let end = src[start..].find('<').map(|n| start + n).unwrap_or(src.len());
            out.push(Ev::Text(src[start..end].to_string()));
            cur.pos = end;
            continue;
        }
        if cur.rest().starts_with("<!--") {
            match src[start + 4..].find("-->") {
                None => return Err(err("UnclosedComment", &[], &[start], src)),
                Some(n) => {
                    out.push(Ev::Comment(src[start + 4..start + 4 + n].to_string()));
                    cur.pos = start + 4 + n + 3;
                    continue;
                }
            }
        }
        if cur.rest().starts_with("<!") {
            let mut probe = Cur { src, pos: start + 2 };
            probe.ws();
            if same(probe.word(), "doctype") {
                match probe.rest().find('>') {
                    None => return Err(err("UnclosedDoctype", &[], &[start], src)),
                    Some(n) => {
                        let content = probe.rest()[..n].trim();
                        if !same(content, "html") {
                            return Err(err("UnsupportedDoctype", &[content], &[start], src));
                        }
                        out.push(Ev::Doctype(content.to_string()));
                        cur.pos = probe.pos + n + 1;
                        continue;
                    }
                }
            }
        }
        cur.eat('<');
        cur.ws();
        if cur.eat('/') {
            cur.ws();
            let at = cur.pos;
            let word = cur.word();
            if word.is_empty() {
                return Err(err("ExpectedClosingTagIdentifier", &[], &[at], src));
            }
            if let Err(e) = check_ident(word) {
                let mut pe = err("InvalidClosingTagIdentifier", &[], &[at], src);
                pe.ident = Some(e);
                return Err(pe);
            }
            cur.ws();
            if !cur.eat('>') {
                return Err(err("ExpectedClosingTagClose", &[word], &[start], src));
            }
            match stack.pop() {
                None => return Err(err("UnexpectedClosingTag", &[word], &[start], src)),
                Some((open, at)) => {
                    if !same(&open, word) {
                        return Err(err("MismatchedClosingTag", &[&open, word], &[at, start], src));
                    }
                }
            }
            out.push(Ev::Close(word.to_string()));
            continue;
        }
        let at = cur.pos;
        let tag = cur.word().to_string();
        if tag.is_empty() {
            return Err(err("ExpectedOpeningTagIdentifier", &[], &[at], src));
        }
        if let Err(e) = check_ident(&tag) {
            let mut pe = err("InvalidOpeningTagIdentifier", &[], &[at], src);
            pe.ident = Some(e);
            return Err(pe);
        }
        let mut attrs: Attrs = Vec::new();
        loop {
            cur.ws();
            let at = cur.pos;
            let name = cur.word();
            if name.is_empty() {
                break;
            }
            if let Err(e) = check_ident(name) {
                let mut pe = err("InvalidAttributeIdentifier", &[], &[at], src);
                pe.ident = Some(e);
                return Err(pe);
            }
            cur.ws();
            if cur.eat('=') {
                cur.ws();
                let at = cur.pos;
                if !cur.eat('"') {
                    return Err(err("InvalidAttributeValue", &[&tag, name], &[at], src));
                }
                match cur.rest().find('"') {
                    None => return Err(err("UnclosedAttributeValue", &[&tag, name], &[at], src)),
                    Some(n) => {
                        attrs.push((name.to_string(), Some(cur.rest()[..n].to_string())));
                        cur.pos += n + 1;
                    }
                }
            } else {
                attrs.push((name.to_string(), None));
            }
        }
        let slash = cur.eat('/');
        if slash {
            cur.ws();
        }
        if !cur.eat('>') {
            return Err(err("ExpectedOpeningTagClose", &[&tag], &[start], src));
        }
        if is_void(&tag) {
            out.push(Ev::Void(tag, attrs));
        } else if slash {
            out.push(Ev::SelfClosed(tag, attrs));
        } else {
            if let Some(limit) = depth_limit {
                if stack.len() >= limit {
                    let mut pe = err("StackLimitExceeded", &[&tag], &[start], src);
                    pe.limit = Some(limit);
                    return Err(pe);
                }
            }
            stack.push((tag.clone(), start));
            let raw = is_raw(&tag);
            out.push(Ev::Open(tag.clone(), attrs));
            if raw && cur.pos < src.len() {
                let from = cur.pos;
                let mut end = src.len();
                let mut search = from;
                while let Some(n) = src[search..].find('<') {
                    if closing_tag_at(src, search + n, &tag) {
                        end = search + n;
                        break;
                    }
                    search += n + 1;
                }
                out.push(Ev::Raw(src[from..end].to_string()));
                cur.pos = end;
            }
        }
    }
    if let Some((name, at)) = stack.pop() {
        let mut names = vec![name.as_str()];
        let mut at = vec![at];
        for (n, a) in &stack {
            names.push(n);
            at.push(*a);
        }
        return Err(err("MissingClosingTags", &names, &at, src));
    }
    Ok(out)
}

// ---------------------------------------------------------------- rendering

pub fn render_attrs(out: &mut String, attrs: &Attrs) {
    for (name, value) in attrs {
        out.push(' ');
        out.push_str(name);
        if let Some(v) = value {
            out.push_str("=\"");
            out.push_str(v);
            out.push('"');
        }
    }
}

pub fn render_ev(out: &mut String, ev: &Ev) {
    match ev {
        Ev::Text(t) | Ev::Raw(t) => out.push_str(t),
        Ev::Comment(t) => {
            out.push_str("<!--");
            out.push_str(t);
            out.push_str("-->");
        }
        Ev::Doctype(t) => {
            out.push_str("<!doctype ");
            out.push_str(t);
            out.push('>');
        }
        Ev::Open(tag, attrs) | Ev::Void(tag, attrs) => {
            out.push('<');
            out.push_str(tag);
            render_attrs(out, attrs);
            out.push('>');
        }
        Ev::SelfClosed(tag, attrs) => {
            out.push('<');
            out.push_str(tag);
            render_attrs(out, attrs);
            out.push_str(" />");
        }
        Ev::Close(tag) => {
            out.push_str("</");
            out.push_str(tag);
            out.push('>');
        }
    }
}

pub fn render(evs: &[Ev]) -> String {
    let mut out = String::new();
    for ev in evs {
        render_ev(&mut out, ev);
    }
    out
}

pub fn encode(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '"' => out.push_str("&quot;"),
            c => out.push(c),
        }
    }
    out
}

pub fn decode(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&amp;", "&")
}

// ---------------------------------------------------------------- the library's errors

pub fn ident_err(e: &html5_fuser::text::IdentifierError) -> IdentErr {
    use html5_fuser::text::IdentifierError as E;
    match *e {
        E::Empty => IdentErr::Empty,
        E::NotAscii => IdentErr::NotAscii,
        E::Whitespace { whitespace } => IdentErr::Whitespace(whitespace),
        E::Forbidden { forbidden } => IdentErr::Forbidden(forbidden),
    }
}

pub fn loc(l: &html5_fuser::location::Location) -> Loc {
    Loc { line: l.line(), column: l.column(), offset: l.offset() }
}

pub fn perr(e: &html5_fuser::parse::Error) -> PErr {
    use html5_fuser::parse::Error as E;
    let mk = |kind: &'static str, names: Vec<String>, locs: Vec<Loc>| PErr {
        kind,
        names,
        ident: None,
        locs,
        limit: None,
    };
    match e {
        E::UnsupportedDoctype { location, doctype } =>
            mk("UnsupportedDoctype", vec![doctype.clone()], vec![loc(location)]),
        E::UnclosedDoctype { location } => mk("UnclosedDoctype", vec![], vec![loc(location)]),
        E::UnclosedComment { location } => mk("UnclosedComment", vec![], vec![loc(location)]),
        E::ExpectedOpeningTagClose { tag, location } =>
            mk("ExpectedOpeningTagClose", vec![tag.clone()], vec![loc(location)]),
        E::ExpectedClosingTagClose { tag, location } =>
            mk("ExpectedClosingTagClose", vec![tag.clone()], vec![loc(location)]),
        E::ExpectedOpeningTagIdentifier { location } =>
            mk("ExpectedOpeningTagIdentifier", vec![], vec![loc(location)]),
        E::InvalidOpeningTagIdentifier { location, identifier_error } => {
            let mut p = mk("InvalidOpeningTagIdentifier", vec![], vec![loc(location)]);
            p.ident = Some(ident_err(identifier_error));
            p
        }
        E::ExpectedClosingTagIdentifier { location } =>
            mk("ExpectedClosingTagIdentifier", vec![], vec![loc(location)]),
        E::InvalidClosingTagIdentifier { location, identifier_error } => {
            let mut p = mk("InvalidClosingTagIdentifier", vec![], vec![loc(location)]);
            p.ident = Some(ident_err(identifier_error));
            p
        }
        E::InvalidAttributeIdentifier { location, identifier_error } => {
            let mut p = mk("InvalidAttributeIdentifier", vec![], vec![loc(location)]);
            p.ident = Some(ident_err(identifier_error));
            p
        }
        E::InvalidAttributeValue { location, tag, attribute_name } => mk(
            "InvalidAttributeValue",
            vec![tag.clone(), attribute_name.clone()],
            vec![loc(location)],
        ),
        E::UnclosedAttributeValue { location, tag, attribute_name } => mk(
            "UnclosedAttributeValue",
            vec![tag.clone(), attribute_name.clone()],
            vec![loc(location)],
        ),
        E::UnexpectedInput { location } => mk("UnexpectedInput", vec![], vec![loc(location)]),
        E::MissingClosingTags { inner, others } => {
            let mut names = vec![inner.0.clone()];
            let mut locs = vec![loc(&inner.1)];
            for (n, l) in others {
                names.push(n.clone());
                locs.push(loc(l));
            }
            mk("MissingClosingTags", names, locs)
        }
        E::StackLimitExceeded { tag, location, limit } => {
            let mut p = mk("StackLimitExceeded", vec![tag.clone()], vec![loc(location)]);
            p.limit = Some(*limit);
            p
        }
        E::UnexpectedClosingTag { location, tag } =>
            mk("UnexpectedClosingTag", vec![tag.clone()], vec![loc(location)]),
        E::MismatchedClosingTag { opening_tag, opening_location, closing_tag, closing_location } => mk(
            "MismatchedClosingTag",
            vec![opening_tag.clone(), closing_tag.clone()],
            vec![loc(opening_location), loc(closing_location)],
        ),
    }
}

/// F2: names which start a doctype or comment when they follow a `<`.
pub fn bang_name(t: &str) -> bool { same(t, "!doctype") || t.starts_with("!--") }

/// Does this input trigger the recorded finding about element names starting with `!`?
/// (Their rendering reads as a comment or doctype.)
pub fn has_bang_tag(evs: &[Ev]) -> bool {
    evs.iter().any(|e| match e {
        Ev::Open(t, _) | Ev::SelfClosed(t, _) | Ev::Void(t, _) => bang_name(t),
        _ => false,
    })
}
