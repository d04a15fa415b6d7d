//! C29: what the types accept and reject.
//!
//! A case is a file of small client programs. Each is typed by the model below, the file is given
//! to the compiler, and the compiler has to reject exactly the programs the model rejects, at the
//! operation the model rejects.

use crate::engine::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::fs;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

// ---------------------------------------------------------------- the typing model

/// What is known of a stream.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ty {
    /// It is a single element.
    Element,
    /// It can be anything.
    Anything,
}
use Ty::*;

/// What a builder is given.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Given {
    /// What the operation is applied to.
    Same,
    One,
    Many,
}

/// What an operation gives.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Gives {
    Same,
    One,
    Many,
    /// What its first builder returns.
    Built,
    /// An element if both of its builders return one.
    Both,
    /// An element if it is applied to one and its builder returns one.
    BuiltOrSame,
}

struct Op {
    /// `$0`, `$1` are builders, `$c` a content, `$s` a selector, `$n` a name, `$v` a value.
    text: &'static str,
    needs_element: bool,
    builders: &'static [Given],
    gives: Gives,
}

const fn op(text: &'static str, needs_element: bool, builders: &'static [Given], gives: Gives) -> Op {
    Op { text, needs_element, builders, gives }
}

/// From the documentation of `Api`.
static OPS: &[Op] = &[
    // available everywhere
    op("into_boxed()", false, &[], Gives::Many),
    op("apply($0)", false, &[Given::Same], Gives::Built),
    op("apply_if(flag, $0)", false, &[Given::Same], Gives::BuiltOrSame),
    op("apply_if_else(flag, $0, $1)", false, &[Given::Same, Given::Same], Gives::Both),
    op("apply_with_option(option, $v0, $1)", false, &[Given::Same, Given::Same], Gives::Both),
    op("apply_with_result(result.clone(), $v0, $v1)", false, &[Given::Same, Given::Same], Gives::Both),
    op("apply_as_boxed($0)", false, &[Given::Many], Gives::Built),
    op("apply_as_template(|template| Ok(template))", false, &[], Gives::Many),
    op("select($s, $0)", false, &[Given::One], Gives::Many),
    op("select_once($s, $0)", false, &[Given::One], Gives::Many),
    op("select_direct($s, $0)", false, &[Given::One], Gives::Many),
    op("select_direct_once($s, $0)", false, &[Given::One], Gives::Many),
    op("remove()", false, &[], Gives::Many),
    op("prepend($c)", false, &[], Gives::Many),
    op("append($c)", false, &[], Gives::Many),
    op("replace($c)", false, &[], Gives::Many),
    op("repeat(0..3, $v0)", false, &[Given::Same], Gives::Many),
    op("repeat_or_else(vec![1, 2], $v0, $1)", false, &[Given::Same, Given::Same], Gives::Many),
    // available on elements
    op("into_boxed_element()", true, &[], Gives::One),
    op("apply_as_boxed_element($0)", true, &[Given::One], Gives::Built),
    op("subselect_contents($0)", true, &[Given::Many], Gives::One),
    op("subselect($s, $0)", true, &[Given::One], Gives::One),
    op("subselect_once($s, $0)", true, &[Given::One], Gives::One),
    op("subselect_direct($s, $0)", true, &[Given::One], Gives::One),
    op("subselect_direct_once($s, $0)", true, &[Given::One], Gives::One),
    op("remove_contents()", true, &[], Gives::One),
    op("prepend_contents($c)", true, &[], Gives::One),
    op("append_contents($c)", true, &[], Gives::One),
    op("replace_contents($c)", true, &[], Gives::One),
    op("repeat_contents(Some(1), $v0)", true, &[Given::Many], Gives::One),
    op("repeat_contents_or_else(vec![1, 2], $v0, $1)", true, &[Given::Many, Given::Same], Gives::Many),
    op("add_attribute_with_value($n, $t)", true, &[], Gives::One),
    op("add_attribute($n, Some($t))", true, &[], Gives::One),
    op("add_empty_attribute($n)", true, &[], Gives::One),
    op("add_to_attribute($n, $t, \" \")", true, &[], Gives::One),
    op("replace_attribute_value_if_exists($n, $t)", true, &[], Gives::One),
    op("set_attribute_with_value($n, $t)", true, &[], Gives::One),
    op("set_attribute($n, Some($t))", true, &[], Gives::One),
    op("set_empty_attribute($n)", true, &[], Gives::One),
    op("remove_attribute($n)", true, &[], Gives::One),
    op("add_class($n)", true, &[], Gives::One),
    op("remove_class($n)", true, &[], Gives::One),
    op("set_id($n)", true, &[], Gives::One),
    op("remove_id()", true, &[], Gives::One),
];

fn given(g: Given, on: Ty) -> Ty {
    match g {
        Given::Same => on,
        Given::One => Element,
        Given::Many => Anything,
    }
}
fn both(a: Ty, b: Ty) -> Ty {
    if a == Element && b == Element {
        Element
    } else {
        Anything
    }
}
fn gives(op: &Op, on: Ty, built: &[Ty]) -> Ty {
    match op.gives {
        Gives::Same => on,
        Gives::One => Element,
        Gives::Many => Anything,
        Gives::Built => built[0],
        Gives::Both => both(built[0], built[1]),
        Gives::BuiltOrSame => both(built[0], on),
    }
}

// ---------------------------------------------------------------- writing programs

struct Writer<'a, 'b> {
    ctx: &'a mut Ctx<'b>,
    lines: Vec<String>,
    indent: usize,
    /// Put an operation where the model rejects it, if there is a place.
    wrong: bool,
    /// Lines of the rejected operation.
    rejected: Option<(usize, usize)>,
    /// Estimated size of the type of the current stream: the compiler needs time for large ones.
    size: u64,
}

/// Streams of a larger (estimated) size are not given to further builders.
const LARGE: u64 = 250;

const CONTENTS: &[&str] = &[
    "\"text\"",
    "7u8",
    "-7i64",
    "template.clone()",
    "data.clone()",
    "value",
    "template",
    "Rc::new(template.clone())",
    "Template::with_element(\"hr\")",
    "template.transform(|html| html.remove())",
];
const SELECTORS: &[&str] = &["\"a\"", "\".c\"", "\"#i\"", "tag", "Rc::new(tag.clone())", "\"a\".parse::<Tag>()"];
const NAMES: &[&str] = &["\"x\"", "ident", "ident.clone()", "\"x\".parse::<Identifier>()"];
const VALUES: &[&str] = &["\"y\"", "value", "value.clone()", "5i32"];

impl<'a, 'b> Writer<'a, 'b> {
    fn push(&mut self, line: String) {
        let pad = " ".repeat(4 * self.indent);
        self.lines.push(format!("{}{}", pad, line));
    }
    /// One `|html| html` with a chain; what it returns.
    fn builder(&mut self, on: Ty, takes_value: bool, depth: usize) -> Ty {
        self.push(format!("move |html{}| html", if takes_value { ", _value" } else { "" }));
        self.indent += 1;
        let ty = self.chain(on, depth);
        self.indent -= 1;
        ty
    }
    fn chain(&mut self, on: Ty, depth: usize) -> Ty {
        let mut ty = on;
        let most = if depth == 0 { 1 } else { 4 };
        let mut n = 0;
        while n < most && self.rejected.is_none() && self.ctx.src.chance(if n == 0 { 4 } else { 3 }, 5) {
            n += 1;
            if self.wrong && ty == Anything && self.ctx.src.chance(1, 3) {
                let wrong: Vec<&Op> = OPS.iter().filter(|o| o.needs_element).collect();
                let op = *self.ctx.src.pick(&wrong);
                if self.size >= LARGE && !op.builders.is_empty() {
                    continue;
                }
                let from = self.lines.len();
                self.wrong = false;
                self.operation(op, ty, 0);
                self.rejected = Some((from, self.lines.len()));
                break;
            }
            let right: Vec<&Op> = OPS
                .iter()
                .filter(|o| ty == Element || !o.needs_element)
                .filter(|o| o.builders.is_empty() || depth > 0 && self.size < LARGE)
                .collect();
            // keep to elements for a while: operations which give them are otherwise rare
            let keep: Vec<&Op> = right
                .iter()
                .filter(|o| !matches!(o.gives, Gives::Many) && ty == Element)
                .cloned()
                .collect();
            let op = if !keep.is_empty() && self.ctx.src.chance(1, 2) {
                *self.ctx.src.pick(&keep)
            } else {
                *self.ctx.src.pick(&right)
            };
            ty = self.operation(op, ty, depth);
        }
        ty
    }
    fn operation(&mut self, op: &Op, on: Ty, depth: usize) -> Ty {
        let mut built = Vec::new();
        let mut line = String::from(".");
        let mut rest = op.text;
        let on_size = self.size;
        let mut size = if op.text.starts_with("into_boxed") { 1 } else { on_size + 1 };
        while let Some(at) = rest.find('$') {
            line.push_str(&rest[..at]);
            let hole = rest[at + 1..].chars().next().unwrap();
            let next = rest[at + 2..].chars().next().unwrap();
            let mut used = 2;
            match hole {
                's' => line.push_str(*self.ctx.src.pick(SELECTORS)),
                'c' => line.push_str(*self.ctx.src.pick(CONTENTS)),
                'n' => line.push_str(*self.ctx.src.pick(NAMES)),
                't' => line.push_str(*self.ctx.src.pick(VALUES)),
                _ => {
                    let takes_value = hole == 'v';
                    let which = if takes_value { next } else { hole } as usize - '0' as usize;
                    if takes_value {
                        used = 3;
                    }
                    let start = std::mem::take(&mut line);
                    self.push(start);
                    self.indent += 1;
                    let input = given(op.builders[which], on);
                    self.size = on_size + 1;
                    built.push(self.builder(input, takes_value, depth.saturating_sub(1)));
                    self.indent -= 1;
                    // the type of a closure has its input and its output
                    size += 2 * self.size + on_size;
                }
            }
            rest = &rest[at + used..];
        }
        line.push_str(rest);
        self.push(line);
        self.size = size;
        gives(op, on, &built)
    }
}

struct Program {
    lines: Vec<String>,
    /// First and last line, relative to `lines`, of the operation that must be rejected.
    rejected: Option<(usize, usize)>,
}

const ENTRIES: &[(&str, Ty)] = &[
    ("let _ = template.transform({});", Anything),
    ("let _ = Template::with_transformed_element(\"p\", {});", Element),
    ("let _ = template.transform(|html| html.select(\"a\", {}));", Element),
    ("let _ = template.transform(|html| html.repeat(0..2, |html, _| html.apply({})));", Anything),
];

/// The program around a builder whose lines `f` writes.
fn program(
    ctx: &mut Ctx,
    entry: usize,
    wrong: bool,
    f: impl FnOnce(&mut Writer, Ty),
) -> Program {
    let (frame, ty) = ENTRIES[entry];
    let (before, after) = frame.split_once("{}").unwrap();
    let mut w = Writer { ctx, lines: Vec::new(), indent: 1, wrong, rejected: None, size: 2 };
    w.push(before.to_string());
    w.indent += 1;
    f(&mut w, ty);
    w.indent -= 1;
    w.push(after.to_string());
    Program { lines: w.lines, rejected: w.rejected }
}

const PRELUDE: &str = "\
#![allow(warnings)]
extern crate html5_fuser;
use html5_fuser::{Api, BoxedApi, BoxedElementApi, Stream, StreamError, Template};
use html5_fuser::select::Tag;
use html5_fuser::text::{Data, Identifier, Value};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
pub struct Keeper<'k>(Cell<Option<BoxedApi<'k>>>);
impl<'k> Keeper<'k> {
    fn swap(&self, html: BoxedApi<'k>) -> Option<BoxedApi<'k>> { self.0.replace(Some(html)) }
}
";
const SIGNATURE: &str = "template: &'static Template, data: &'static Data, value: &'static Value, \
ident: &'static Identifier, tag: &'static Tag, flag: bool, option: Option<u8>, result: &'static Result<u8, String>";

// ---------------------------------------------------------------- the compiler

struct Message {
    text: String,
    code: String,
    lines: Vec<(usize, usize)>,
}

fn scratch() -> &'static PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| match std::env::var_os("FUSER_PBT_SCRATCH") {
        Some(dir) => PathBuf::from(dir),
        None => std::env::temp_dir(),
    })
}

/// The library, as built from the current tree.
fn library() -> Result<PathBuf, Stop> {
    static LIB: OnceLock<Option<PathBuf>> = OnceLock::new();
    LIB.get_or_init(|| {
        if let Some(path) = std::env::var_os("FUSER_PBT_RLIB") {
            return Some(PathBuf::from(path));
        }
        let root = std::env::var_os("FUSER_PBT_ROOT").map(PathBuf::from)?;
        let mut found: Vec<(std::time::SystemTime, PathBuf)> = fs::read_dir(root.join("target/release/deps"))
            .ok()?
            .flatten()
            .map(|e| e.path())
            .filter(|p| {
                let name = p.file_name().unwrap().to_string_lossy().to_string();
                name.starts_with("libhtml5_fuser-") && name.ends_with(".rlib")
            })
            .filter_map(|p| Some((fs::metadata(&p).ok()?.modified().ok()?, p)))
            .collect();
        found.sort();
        found.pop().map(|f| f.1)
    })
    .clone()
    .ok_or_else(|| Stop::Harness("the compiled library is not there".into()))
}

fn compile(source: &str) -> Result<Vec<Message>, Stop> {
    static COUNT: AtomicU64 = AtomicU64::new(0);
    let harness = |what: String| Stop::Harness(what);
    let lib = library()?;
    let dir = scratch().join(format!(
        "fuser-pbt-types-{}-{}",
        std::process::id(),
        COUNT.fetch_add(1, Ordering::SeqCst)
    ));
    fs::create_dir_all(&dir).map_err(|e| harness(format!("{}: {}", dir.display(), e)))?;
    let file = dir.join("programs.rs");
    let root = std::env::var_os("FUSER_PBT_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("."));
    let out = fs::write(&file, source).and_then(|_| {
        Command::new("bash")
            .args(["-c", "ulimit -v 6000000; exec timeout 60 rustc \"$@\"", "rustc"])
            .current_dir(&root)
            .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "programs", "--emit", "metadata"])
            .args(["--error-format", "json", "--cap-lints", "allow", "-o"])
            .arg(dir.join("programs.rmeta"))
            .arg("--extern")
            .arg(format!("html5_fuser={}", lib.display()))
            .arg("-L")
            .arg(format!("dependency={}", root.join("target/release/deps").display()))
            .arg(&file)
            .stdin(Stdio::null())
            .output()
    });
    let _ = fs::remove_dir_all(&dir);
    let out = out.map_err(|e| harness(format!("rustc: {}", e)))?;
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    if out.status.code() == Some(124) || err.contains("memory allocation of") {
        return Err(Stop::Excluded("the compiler needs too long"));
    }
    let mut messages = Vec::new();
    for line in err.lines() {
        if !line.starts_with('{') {
            return Err(harness(format!("rustc says {}", line)));
        }
        let json = Json::parse(line).ok_or_else(|| harness(format!("not understood: {}", line)))?;
        if json.get("level").text() != "error" {
            continue;
        }
        let text = json.get("message").text().to_string();
        if text.starts_with("aborting due to") {
            continue;
        }
        let lines = json
            .get("spans")
            .items()
            .iter()
            .filter(|s| s.get("is_primary") == &Json::Bool(true))
            .map(|s| (s.get("line_start").number(), s.get("line_end").number()))
            .collect();
        messages.push(Message { text, code: json.get("code").get("code").text().to_string(), lines });
    }
    match (out.status.code(), messages.is_empty()) {
        (Some(0), true) | (Some(1), false) => Ok(messages),
        (code, _) => Err(harness(format!("rustc ends with {:?}: {}", code, short(&err)))),
    }
}

/// Just enough JSON.
#[derive(Debug, PartialEq)]
enum Json {
    Null,
    Bool(bool),
    Number(f64),
    Text(String),
    List(Vec<Json>),
    Map(BTreeMap<String, Json>),
}
impl Json {
    fn get(&self, key: &str) -> &Json {
        match self {
            Json::Map(m) => m.get(key).unwrap_or(&Json::Null),
            _ => &Json::Null,
        }
    }
    fn text(&self) -> &str {
        match self {
            Json::Text(t) => t,
            _ => "",
        }
    }
    fn items(&self) -> &[Json] {
        match self {
            Json::List(l) => l,
            _ => &[],
        }
    }
    fn number(&self) -> usize {
        match self {
            Json::Number(n) => *n as usize,
            _ => 0,
        }
    }
    fn parse(text: &str) -> Option<Json> {
        let mut chars: Vec<char> = text.trim().chars().collect();
        chars.reverse();
        let value = Json::value(&mut chars)?;
        Json::space(&mut chars);
        if chars.is_empty() {
            Some(value)
        } else {
            None
        }
    }
    fn space(c: &mut Vec<char>) {
        while c.last().map_or(false, |c| c.is_whitespace()) {
            c.pop();
        }
    }
    fn eat(c: &mut Vec<char>, want: char) -> Option<()> {
        Json::space(c);
        if c.pop()? == want {
            Some(())
        } else {
            None
        }
    }
    fn string(c: &mut Vec<char>) -> Option<String> {
        Json::eat(c, '"')?;
        let mut units: Vec<u16> = Vec::new();
        let mut out = String::new();
        loop {
            let ch = c.pop()?;
            if ch == '\\' && c.last() == Some(&'u') {
                c.pop();
                let hex: String = (0..4).map(|_| c.pop().unwrap_or(' ')).collect();
                units.push(u16::from_str_radix(&hex, 16).ok()?);
                continue;
            }
            if !units.is_empty() {
                out.push_str(&String::from_utf16_lossy(&units));
                units.clear();
            }
            match ch {
                '"' => return Some(out),
                '\\' => out.push(match c.pop()? {
                    'n' => '\n',
                    't' => '\t',
                    'r' => '\r',
                    'b' => '\u{8}',
                    'f' => '\u{c}',
                    other => other,
                }),
                other => out.push(other),
            }
        }
    }
    fn value(c: &mut Vec<char>) -> Option<Json> {
        Json::space(c);
        match *c.last()? {
            '"' => Json::string(c).map(Json::Text),
            '{' => {
                c.pop();
                let mut map = BTreeMap::new();
                Json::space(c);
                if c.last() == Some(&'}') {
                    c.pop();
                    return Some(Json::Map(map));
                }
                loop {
                    Json::space(c);
                    let key = Json::string(c)?;
                    Json::eat(c, ':')?;
                    map.insert(key, Json::value(c)?);
                    Json::space(c);
                    match c.pop()? {
                        ',' => (),
                        '}' => return Some(Json::Map(map)),
                        _ => return None,
                    }
                }
            }
            '[' => {
                c.pop();
                let mut list = Vec::new();
                Json::space(c);
                if c.last() == Some(&']') {
                    c.pop();
                    return Some(Json::List(list));
                }
                loop {
                    list.push(Json::value(c)?);
                    Json::space(c);
                    match c.pop()? {
                        ',' => (),
                        ']' => return Some(Json::List(list)),
                        _ => return None,
                    }
                }
            }
            _ => {
                let mut word = String::new();
                while c.last().map_or(false, |c| c.is_alphanumeric() || "+-.".contains(*c)) {
                    word.push(c.pop()?);
                }
                match word.as_str() {
                    "true" => Some(Json::Bool(true)),
                    "false" => Some(Json::Bool(false)),
                    "null" => Some(Json::Null),
                    _ => word.parse().ok().map(Json::Number),
                }
            }
        }
    }
}

fn short(s: &str) -> String { s.chars().take(1000).collect() }

// ---------------------------------------------------------------- judging

struct Batch {
    source: String,
    line: usize,
    /// Name, lines, lines of the operation to be rejected.
    programs: Vec<(String, (usize, usize), Option<(usize, usize)>)>,
}

impl Batch {
    fn new() -> Batch {
        Batch { source: PRELUDE.to_string(), line: PRELUDE.lines().count() + 1, programs: Vec::new() }
    }
    fn add(&mut self, p: &Program) {
        let name = format!("program_{}", self.programs.len());
        let first = self.line;
        let _ = writeln!(self.source, "pub fn {}({}) {{", name, SIGNATURE);
        for l in &p.lines {
            let _ = writeln!(self.source, "{}", l);
        }
        self.source.push_str("}\n");
        self.line += p.lines.len() + 2;
        let rejected = p.rejected.map(|(a, b)| (first + 1 + a, first + b));
        self.programs.push((name, (first, self.line - 1), rejected));
    }
    fn text_of(&self, lines: (usize, usize)) -> String {
        self.source.lines().skip(lines.0 - 1).take(lines.1 - lines.0 + 1).collect::<Vec<_>>().join("\n")
    }
    fn judge(&self, lifetimes: bool) -> Res {
        let messages = compile(&self.source)?;
        let inside = |m: &Message, lines: (usize, usize)| m.lines.iter().any(|l| l.0 >= lines.0 && l.1 <= lines.1);
        for m in &messages {
            if !self.programs.iter().any(|p| inside(m, p.1)) {
                return Err(Stop::Harness(format!("an error outside all programs: {} {:?}", m.text, m.lines)));
            }
        }
        for (name, lines, rejected) in &self.programs {
            let mine: Vec<&Message> = messages.iter().filter(|m| inside(m, *lines)).collect();
            let told = || {
                mine.iter()
                    .map(|m| {
                        let at: Vec<String> = m.lines.iter().map(|l| (l.0 - lines.0 + 1).to_string()).collect();
                        format!("{} {} (line {})", m.code, m.text, at.join(", "))
                    })
                    .collect::<Vec<_>>()
                    .join("; ")
            };
            match rejected {
                None => crate::ensure!(
                    mine.is_empty(),
                    "{} has the right types, but the compiler rejects it: {}\n{}",
                    name,
                    told(),
                    self.text_of(*lines)
                ),
                Some(place) => {
                    crate::ensure!(
                        !mine.is_empty(),
                        "{} {}, but the compiler accepts it:\n{}",
                        name,
                        if lifetimes {
                            "lets a stream escape".to_string()
                        } else {
                            format!("uses an element operation (line {}) on what may be no element", place.0 - lines.0 + 1)
                        },
                        self.text_of(*lines)
                    );
                    crate::ensure!(
                        lifetimes || mine.iter().any(|m| inside(m, *place)),
                        "{}: the operation of line {} must be rejected, the compiler says {}\n{}",
                        name,
                        place.0 - lines.0 + 1,
                        told(),
                        self.text_of(*lines)
                    );
                    if lifetimes && !mine.iter().all(|m| about_lifetimes(m)) {
                        return Err(Stop::Harness(format!(
                            "{} should fail for its lifetimes only: {}\n{}",
                            name,
                            told(),
                            self.text_of(*lines)
                        )));
                    }
                }
            }
        }
        Ok(())
    }
}

fn about_lifetimes(m: &Message) -> bool {
    matches!(m.code.as_str(), "E0521" | "E0597" | "E0716" | "E0495" | "E0312" | "E0700" | "E0310" | "E0621")
        || ["lifetime", "outlive", "escape", "live long enough", "borrowed data"].iter().any(|w| m.text.contains(w))
}

// ---------------------------------------------------------------- parts

fn programs(ctx: &mut Ctx) -> Res {
    let mut batch = Batch::new();
    let n = 1 + ctx.src.below(40);
    let mut rejected = 0;
    for _ in 0..n {
        let entry = ctx.src.below(ENTRIES.len());
        let wrong = ctx.src.chance(1, 2);
        let p = program(ctx, entry, wrong, |w, ty| {
            w.builder(ty, false, 3);
        });
        ctx.classify(if p.rejected.is_some() { "programs to reject" } else { "programs to accept" });
        rejected += u64::from(p.rejected.is_some() as u8);
        batch.add(&p);
    }
    ctx.input(&batch.source);
    ctx.nontrivial(rejected > 0 && rejected < n as u64);
    ctx.note(|| batch.text_of(batch.programs[0].1));
    batch.judge(false)
}

/// Every operation after every other, on both kinds of streams, with both kinds of builders.
fn pairs(ctx: &mut Ctx) -> Res {
    let all = pair_list();
    let mut batch = Batch::new();
    for &(entry, first, variant, second) in all.iter().skip(ctx.index as usize * PAIRS).take(PAIRS) {
        let p = program(ctx, entry, false, |w, ty| {
            w.push("|html| html".into());
            let ty = fixed(w, &OPS[first], ty, variant);
            let from = w.lines.len();
            let right = ty == Element || !OPS[second].needs_element;
            fixed(w, &OPS[second], ty, 0);
            if !right {
                w.rejected = Some((from, w.lines.len()));
            }
        });
        ctx.classify(if p.rejected.is_some() { "programs to reject" } else { "programs to accept" });
        batch.add(&p);
    }
    ctx.input(&batch.source);
    ctx.nontrivial(true);
    ctx.note(|| batch.text_of(batch.programs[0].1));
    batch.judge(false)
}

const PAIRS: usize = 60;

/// An operation whose builders return what they are given (bit of `variant` 0) or not an element.
fn fixed(w: &mut Writer, op: &Op, on: Ty, variant: usize) -> Ty {
    let mut text = format!(".{}", op.text);
    let mut built = Vec::new();
    for (i, g) in op.builders.iter().enumerate() {
        let input = given(*g, on);
        let (body, ty) = if variant >> i & 1 == 0 { ("html", input) } else { ("html.remove()", Anything) };
        built.push(ty);
        text = text
            .replace(&format!("$v{}", i), &format!("|html, _value| {}", body))
            .replace(&format!("${}", i), &format!("|html| {}", body));
    }
    for (hole, text_for) in [("$s", SELECTORS[0]), ("$c", CONTENTS[0]), ("$n", NAMES[0]), ("$t", VALUES[0])] {
        text = text.replace(hole, text_for);
    }
    w.push(text);
    gives(op, on, &built)
}

fn pair_list() -> &'static Vec<(usize, usize, usize, usize)> {
    static LIST: OnceLock<Vec<(usize, usize, usize, usize)>> = OnceLock::new();
    LIST.get_or_init(|| {
        let mut out = Vec::new();
        for entry in 0..2 {
            for (i, first) in OPS.iter().enumerate() {
                if first.needs_element && ENTRIES[entry].1 == Anything {
                    continue;
                }
                for variant in 0..1 << first.builders.len() {
                    for second in 0..OPS.len() {
                        out.push((entry, i, variant, second));
                    }
                }
            }
        }
        out
    })
}

/// How a builder could keep its stream or return another one.
struct Leak {
    outside: &'static str,
    /// The same as `outside`, but owned: a builder that is kept takes it along.
    owned: &'static str,
    inside: &'static str,
    /// The same without a leak.
    honest: &'static str,
}
static LEAKS: &[Leak] = &[
    Leak {
        outside: "let kept = &Cell::new(None::<BoxedApi>);",
        owned: "let kept = Rc::new(Cell::new(None::<BoxedApi>));",
        inside: "match kept.take() { Some(old) => { kept.set(Some(html)); old }, None => html }",
        honest: "match kept.take() { Some(_) => html, None => html }",
    },
    Leak {
        outside: "let kept = &RefCell::new(Vec::<BoxedApi>::new());",
        owned: "let kept = Rc::new(RefCell::new(Vec::<BoxedApi>::new()));",
        inside: "{ kept.borrow_mut().push(html); kept.borrow_mut().remove(0) }",
        honest: "{ let mut kept = Vec::<BoxedApi>::new(); kept.push(html); kept.remove(0) }",
    },
    Leak {
        outside: "let kept = &RefCell::new(None::<BoxedApi>);",
        owned: "let kept = Rc::new(RefCell::new(None::<BoxedApi>));",
        inside: "{ let old = kept.borrow_mut().replace(html); old.unwrap() }",
        honest: "{ let old = kept.borrow().is_some(); html }",
    },
    Leak {
        outside: "let (send, receive) = std::sync::mpsc::channel::<BoxedApi>(); let (send, receive) = (&send, &receive);",
        owned: "let (send, receive) = std::sync::mpsc::channel::<BoxedApi>();",
        inside: "{ let _ = send.send(html); receive.recv().unwrap() }",
        honest: "{ let _ = send; let _ = receive; html }",
    },
    Leak {
        outside: "let kept = &Keeper(Cell::new(None));",
        owned: "let kept = Rc::new(Keeper(Cell::new(None)));",
        inside: "{ let mut html = Some(html); let other = kept.swap(html.take().unwrap()); other.unwrap() }",
        honest: "{ let other = kept.0.take(); let kept = Some(html); kept.unwrap() }",
    },
    // only putting it outside
    Leak {
        outside: "let kept = &Cell::new(None::<BoxedApi>);",
        owned: "let kept = Rc::new(Cell::new(None::<BoxedApi>));",
        inside: "{ if kept.take().is_some() { html } else { kept.set(Some(html)); loop {} } }",
        honest: "{ if kept.take().is_some() { html } else { kept.set(None); loop {} } }",
    },
];

/// A call whose builder gets `$` as its body, to be used on an element.
static BUILDERS: &[&str] = &[
    "template.transform(|html| { let html = html.into_boxed(); $ })",
    "Template::with_transformed_element(\"p\", |html| { let html = html.into_boxed(); $ })",
];

/// The calls, with `^` where what the builder could keep its stream in is declared: outside of
/// everything, or in the builder around the call.
fn leak_frames() -> &'static Vec<String> {
    static LIST: OnceLock<Vec<String>> = OnceLock::new();
    LIST.get_or_init(|| {
        let mut out: Vec<String> = BUILDERS.iter().map(|b| b.to_string()).collect();
        out.extend(BUILDERS.iter().map(|b| format!("template.transform(move |html| {{ ^ let _ = {}; html }})", b)));
        for op in OPS {
            let texts: Vec<String> = if op.text.starts_with("apply_as_template") {
                continue;
            } else {
                (0..op.builders.len())
                    .map(|leaking| {
                        let mut text = op.text.to_string();
                        for i in 0..op.builders.len() {
                            let body = if i == leaking { "{ let html = html.into_boxed(); $ }" } else { "html" };
                            text = text
                                .replace(&format!("$v{}", i), &format!("move |html, _value| {}", body))
                                .replace(&format!("${}", i), &format!("move |html| {}", body));
                        }
                        text.replace("$s", SELECTORS[0])
                    })
                    .collect()
            };
            for t in texts {
                out.push(format!("template.transform(move |html| html.select(\"a\", move |html| html.{}))", t));
                out.push(format!("template.transform(move |html| html.select(\"a\", move |html| {{ ^ html.{} }}))", t));
                out.push(format!(
                    "template.transform(move |html| html.select(\"a\", move |html| {{ ^ html.{}.into_boxed() }}))",
                    t
                ));
            }
        }
        out
    })
}

/// Number of cases `leaks` needs.
fn leak_cases() -> u64 { ((leak_frames().len() * LEAKS.len() + LEAK_BATCH - 1) / LEAK_BATCH) as u64 }
const LEAK_BATCH: usize = 30;

fn leaks(ctx: &mut Ctx) -> Res {
    let frames = leak_frames();
    let mut batch = Batch::new();
    let start = ctx.index as usize * LEAK_BATCH;
    for at in start..(start + LEAK_BATCH).min(frames.len() * LEAKS.len()) {
        let (frame, leak) = (&frames[at / LEAKS.len()], &LEAKS[at % LEAKS.len()]);
        for leaking in [true, false] {
            let body = if leaking { leak.inside } else { leak.honest };
            let call = format!("    let _ = {};", frame.replace('$', body).replace('^', leak.owned));
            let lines = if frame.contains('^') { vec![call] } else { vec![format!("    {}", leak.outside), call] };
            let rejected = if leaking { Some((0, lines.len())) } else { None };
            ctx.classify(if leaking { "programs to reject" } else { "programs to accept" });
            batch.add(&Program { lines, rejected });
        }
    }
    ctx.input(&batch.source);
    ctx.nontrivial(true);
    ctx.note(|| batch.text_of(batch.programs[0].1));
    batch.judge(true)
}

pub fn checks() -> Vec<Check> {
    let pair_cases = ((pair_list().len() + PAIRS - 1) / PAIRS) as u64;
    vec![Check {
        id: "C29",
        level: "exploration",
        rule: "a case is a file of client programs given to the compiler; it counts as non-trivial when it has programs to accept and programs to reject (random programs) or is part of an enumeration; distinct by its text",
        parts: vec![
            Part { name: "pairs of operations", quick: pair_cases, thorough: pair_cases, run: pairs },
            Part { name: "streams kept by builders", quick: leak_cases(), thorough: leak_cases(), run: leaks },
            Part { name: "programs", quick: 350, thorough: 6000, run: programs },
        ],
        assumptions: &[
            "the installed rustc decides what compiles; the typing model is written from the documentation of Api, BoxedApi and ElementStream",
        ],
        findings: vec![],
        exhaustive_parts: &["pairs of operations", "streams kept by builders"],
    }]
}
