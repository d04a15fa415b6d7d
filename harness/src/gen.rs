//! Generators: documents (as trees, plus a randomly formatted source text for them), texts,
//! names, selectors and operation programs. Small vocabularies make matches frequent.

use crate::engine::Src;
use crate::model::*;
use crate::refparse::{is_raw, is_void, same, Attrs};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

thread_local! {
    static POOL: RefCell<BTreeSet<&'static str>> = RefCell::new(BTreeSet::new());
    static OTHER: RefCell<BTreeSet<&'static str>> = RefCell::new(BTreeSet::new());
    static TURN: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
/// The API takes `&'static str`; strings are leaked once per distinct text. A text which starts
/// some earlier one is a slice of that, as with parts of a constant.
pub fn intern(s: &str) -> &'static str {
    let turn = TURN.with(|t| {
        t.set(t.get() + 1);
        t.get()
    });
    // now and then the same text at another place
    if turn % 4 == 3 && s.len() < 200 { elsewhere(s) } else { intern_in(&POOL, s) }
}
/// A static text that is equal to, but not at the place of, what `intern` usually gives.
pub fn elsewhere(s: &str) -> &'static str {
    &intern_in(&OTHER, &format!(";{}", s))[1..]
}
fn intern_in(pool: &'static std::thread::LocalKey<RefCell<BTreeSet<&'static str>>>, s: &str) -> &'static str {
    crate::alloc::uncounted(|| pool.with(|p| {
        let mut p = p.borrow_mut();
        let next = p.range::<str, _>((std::ops::Bound::Included(s), std::ops::Bound::Unbounded)).next().cloned();
        match next {
            Some(k) if k.len() == s.len() && k == s => k,
            Some(k) if k.starts_with(s) => {
                let k = &k[..s.len()];
                p.insert(k);
                k
            }
            _ => {
                let k: &'static str = Box::leak(s.to_string().into_boxed_str());
                p.insert(k);
                k
            }
        }
    }))
}

// A single quote in names is left out on purpose (known finding F1), as are tag names that
// start with `!` (known finding F2).
pub const TAGS: &[&str] = &[
    "a", "b", "c", "A", "B", "div", "p", "Div", "ul", "li", "x-y", "h1", "ns:t", "t_2", "brx", "scrip",
    "titles", "linked", "doctype", "html", "body", "span", "a.b", "@a", "e#1", "$", "a!", "--", "(x)",
    "p\u{7f}", "[", "script-x", "col-group", "s",
];
pub const VOIDS: &[&str] = &[
    "br", "img", "input", "hr", "BR", "Img", "area", "base", "col", "embed", "keygen", "link",
    "menuitem", "meta", "param", "source", "track", "wbr", "LINK", "Wbr", "META", "SourcE", "AREA",
    "Base", "cOl", "EMBED", "HR", "INPUT", "Keygen", "MenuItem", "PARAM", "tracK",
];
pub const RAWS: &[&str] =
    &["script", "style", "title", "textarea", "SCRIPT", "Style", "TITLE", "textArea"];
pub const IDS: &[&str] = &["x", "y", "X", "main", "x-1", "Y"];
pub const CLASSES: &[&str] = &["x", "y", "z", "X", "Y", "xy", "x-y", "zz", "xyz", "a"];
pub const ATTRS: &[&str] = &[
    "id", "class", "href", "k", "ID", "Class", "CLASS", "K", "data-x", "title", "a:b", "@on", "x.y",
    "Href", "classes", "idx", "_", "i", "clas", "iD", "!", "x!", "--", "(e)", "[p]",
];
const TEXTS: &[&str] = &[
    "x", " ", "\n", "text", "&amp;", "a & b", "&lt;", "\u{fc}", "\u{65e5}\u{672c}", ">", "\"q\"", "it's",
    "-->", "/>", "{{v}}", "\r\n", "]]>", "\u{1f600}", "0", "  a  ", "\t", "&", ";", "&quot;", "=",
    "e\u{301}", "\u{0}", "\u{7f}",
];
const RAW_BITS: &[&str] = &[
    "x", "if (a<b) {}", "<", "</", "<b>", "</b>", "<!--", "-->", "</style", "&amp;", "\n", "</ ", "<x/>",
    "\"</\"", "</scriptx>", "<br>", "\u{fc}", "< /", "<<", "</>", "<!doctype html>", "'", "//", "</titl>",
    "<script", "<\u{e9}", "</\u{e9}>", "=", "\u{65e5}",
];
const COMMENT_BITS: &[&str] = &[
    "x", " ", "-", "--", ">", "<", "!", "<!--", "<b>", "\n", "\u{fc}", "- ->", "--!>", "&amp;", "\"", "[if]",
    "</a>", "\u{1f600}",
];
const VALUE_BITS: &[&str] = &[
    "x", "y", " ", "x y", "  x", "y\t", "\n", "&amp;", "&quot;", "it's", "<b>", ">", "/", "=", "/>",
    "\u{fc}", "\u{65e5}", "a=b&c=d", "z", "xy", "X", "{{v}}", "-->", "<!--", "\u{1f600}", "<", "&", "http://x/?y",
];
const PLAIN_BITS: &[&str] = &[
    "x", "<", ">", "&", "\"", "'", "&amp;", "<b>", "</b>", "<script>", "</script>", "\u{fc}", "\u{65e5}\u{672c}",
    " ", "\n", "-->", "<!--", "&lt;", "\" onload=\"", "=", "/", "\u{1f600}", "a", "<!doctype html>", "]]>",
    "\t", ";", "#", "&#60;", "\\", "\u{0}", "&&", "<<", "\"\"", "lt;", "amp;", "quot;", "0",
];

// ---------------------------------------------------------------- vocabularies

/// Names of HTML elements which are neither void nor raw text.
const HTML: &[&str] = &[
    "div", "p", "main", "ul", "li", "section", "nav", "table", "tr", "td", "header", "footer", "article", "aside",
    "h1", "h2", "h3", "h4", "h5", "h6", "ol", "dl", "dt", "dd", "tbody", "thead", "tfoot", "th", "caption", "form",
    "label", "button", "select", "option", "optgroup", "fieldset", "legend", "span", "a", "b", "i", "em", "strong",
    "small", "code", "pre", "blockquote", "figure", "figcaption", "html", "head", "body", "noscript", "template",
    "slot", "svg", "math", "path", "g", "svg:rect", "iframe", "object", "video", "audio", "canvas", "map", "picture",
    "details", "summary", "dialog", "menu", "address", "abbr", "cite", "q", "s", "u", "sub", "sup", "time", "var",
    "kbd", "samp", "mark", "ruby", "rt", "rp", "bdi", "bdo", "data", "output", "progress", "meter", "center", "font",
    "frameset", "frame", "applet", "xmp", "plaintext", "listing", "noembed", "image", "isindex", "command", "my-card",
];
const WORDS: &[&str] = &[
    "main", "content", "nav", "header", "app", "item", "item-1", "active", "selected", "page", "btn", "btn-primary",
    "row", "col", "col-2", "hidden", "list", "title", "user", "name", "root", "container", "is-open", "card", "error",
    "a", "b", "entry", "entries", "message", "col-md-6", "w-1/2", "sm:flex", "js-hook", "top", "foo", "bar", "baz",
];
const ATTR_WORDS: &[&str] = &[
    "href", "src", "name", "value", "type", "style", "alt", "title", "lang", "dir", "rel", "disabled", "checked",
    "selected", "hidden", "action", "method", "for", "width", "height", "content", "charset", "onclick", "data-id",
    "data-x", "aria-label", "role", "tabindex", "xmlns", "xml:lang", "xlink:href", "itemprop", "class-name", "idref",
    "data-class", "data-id-2", "v-if", ":class", "@click", "(click)", "[value]", "#ref", "*ngIf", "x-on:click",
];

/// The names of one case: usually those of the tables above, sometimes others in their places.
#[derive(Clone)]
struct Vocab {
    tags: Vec<&'static str>,
    ids: Vec<&'static str>,
    classes: Vec<&'static str>,
    attrs: Vec<&'static str>,
}
thread_local! {
    static VOCAB: RefCell<Option<Rc<Vocab>>> = RefCell::new(None);
    static USUAL: Rc<Vocab> = Rc::new(Vocab {
        tags: TAGS.to_vec(), ids: IDS.to_vec(), classes: CLASSES.to_vec(), attrs: ATTRS.to_vec(),
    });
    static STRANGE: Vec<&'static str> = strange();
}
/// Forget the names of the last case.
pub fn fresh_vocab() {
    VOCAB.with(|v| *v.borrow_mut() = None);
    TURN.with(|t| t.set(0));
    crate::interp::meddle_from(1);
    SEEN.with(|s| *s.borrow_mut() = Seen::default());
}

/// What the documents of this case contain, so that programs have something to work on.
#[derive(Default)]
struct Seen {
    tags: Vec<&'static str>,
    ids: Vec<&'static str>,
    classes: Vec<&'static str>,
    attrs: Vec<&'static str>,
}
thread_local! {
    static SEEN: RefCell<Seen> = RefCell::new(Seen::default());
}
pub fn see(forest: &[Node]) {
    const MAX: usize = 12;
    fn name(l: &mut Vec<&'static str>, n: &str, plain: bool) {
        if l.len() < MAX && crate::refparse::check_ident(n).is_ok() && !(plain && n.contains(|c| ".#".contains(c))) {
            let n = intern(n);
            if !l.contains(&n) {
                l.push(n);
            }
        }
    }
    fn go(s: &mut Seen, nodes: &[Node], budget: &mut usize) {
        for n in nodes {
            if let Node::Elem(e) = n {
                if *budget == 0 {
                    return;
                }
                *budget -= 1;
                name(&mut s.tags, &e.tag, false);
                for (n, v) in e.attrs.iter().take(8) {
                    name(&mut s.attrs, n, false);
                    if let Some(v) = v {
                        if same(n, "id") {
                            name(&mut s.ids, v, true);
                        }
                        if same(n, "class") {
                            for c in v.split_whitespace().take(8) {
                                name(&mut s.classes, c, true);
                            }
                        }
                    }
                }
                go(s, &e.kids, budget);
            }
        }
    }
    SEEN.with(|s| go(&mut s.borrow_mut(), forest, &mut 60));
}
fn seen(src: &mut Src, of: fn(&Seen) -> &Vec<&'static str>) -> Option<&'static str> {
    let n = SEEN.with(|s| of(&s.borrow()).len());
    if n == 0 || !src.chance(1, 3) {
        return None;
    }
    let at = src.below(n);
    Some(SEEN.with(|s| of(&s.borrow())[at]))
}

/// Void and raw text elements; a few are frequent so that selectors meet them.
pub fn void(src: &mut Src) -> &'static str {
    if src.chance(2, 5) { *src.pick(VOIDS) } else { *src.pick(&VOIDS[..3]) }
}
pub fn raw(src: &mut Src) -> &'static str {
    if src.chance(2, 5) { *src.pick(RAWS) } else { *src.pick(&RAWS[..2]) }
}

/// A fixed list of unusual but valid names of many lengths.
fn strange() -> Vec<&'static str> {
    let mut rng = crate::engine::Rng::new(77);
    let mut out: Vec<&'static str> = Vec::new();
    while out.len() < 1500 {
        let len = match rng.next() % 8 {
            0..=3 => 1 + rng.next() % 9,
            4 | 5 => 1 + rng.next() % 24,
            6 => 1 + rng.next() % 70,
            _ => 1 + rng.next() % 300,
        };
        let wild = rng.next() % 3 == 0;
        let name: String = (0..len)
            .map(|_| {
                let c = if wild { (rng.next() % 128) as u8 } else { b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_:."[(rng.next() % 46) as usize] };
                c as char
            })
            .collect();
        if crate::refparse::check_ident(&name).is_err() || is_raw(&name) || is_void(&name)
            || name.contains('\'') || name.starts_with('!')
        {
            continue;
        }
        out.push(intern(&name));
    }
    out
}

fn vocab(src: &mut Src) -> Rc<Vocab> {
    if let Some(v) = VOCAB.with(|v| v.borrow().clone()) {
        return v;
    }
    let mode = src.weighted(&[6, 2, 1]);
    let v = if mode == 0 {
        USUAL.with(|u| u.clone())
    } else {
        let strange: Vec<&'static str> = STRANGE.with(|s| s.clone());
        let table = |own: &'static [&'static str], src: &mut Src| -> Vec<&'static str> {
            let own = if mode == 1 { own } else { &strange[..] };
            let (at, step) = (src.below(own.len()), 1 + src.below(own.len() - 1));
            (0..40).map(|i| own[(at + i * step) % own.len()]).collect()
        };
        let up = |s: &str| {
            let u = s.to_ascii_uppercase();
            intern(&if u == s { s.to_ascii_lowercase() } else { u })
        };
        let mut tags = table(HTML, src);
        tags.truncate(TAGS.len());
        tags[3] = up(tags[0]);
        tags[4] = up(tags[1]);
        let i = table(WORDS, src);
        let ids = vec![i[0], i[1], up(i[0]), i[2], i[3], up(i[1])];
        let c = table(WORDS, src);
        let classes = vec![
            c[0], c[1], c[2], up(c[0]), up(c[1]), intern(&format!("{}{}", c[0], c[1])),
            intern(&format!("{}-{}", c[0], c[1])), intern(&format!("{}{}", c[2], c[2])),
            intern(&format!("{}x", c[0])), c[3],
        ];
        let mut attrs = ATTRS.to_vec();
        let a = table(ATTR_WORDS, src);
        for (n, at) in [2usize, 3, 8, 9, 10, 11, 12, 14, 15, 16, 20, 21].iter().enumerate() {
            attrs[*at] = a[n];
        }
        attrs[7] = up(a[1]);
        attrs[13] = up(a[0]);
        let ok = |l: &mut Vec<&'static str>, plain: bool| {
            for n in l.iter_mut() {
                if crate::refparse::check_ident(n).is_err() || plain && n.contains(|c| "'.#!".contains(c)) {
                    *n = "n";
                }
            }
        };
        let (mut ids, mut classes) = (ids, classes);
        ok(&mut tags, false);
        ok(&mut ids, true);
        ok(&mut classes, true);
        ok(&mut attrs, false);
        Rc::new(Vocab { tags, ids, classes, attrs })
    };
    VOCAB.with(|x| *x.borrow_mut() = Some(v.clone()));
    v
}
pub fn tag(src: &mut Src, n: usize) -> &'static str {
    let v = vocab(src);
    v.tags[src.below(n)]
}
pub fn id(src: &mut Src) -> &'static str {
    let v = vocab(src);
    *src.pick(&v.ids)
}
pub fn class(src: &mut Src) -> &'static str {
    let v = vocab(src);
    *src.pick(&v.classes)
}
fn attr_of(src: &mut Src, n: usize) -> &'static str {
    let v = vocab(src);
    v.attrs[src.below(n)]
}

fn repeat_to(bit: &str, size: usize) -> String {
    let mut out = String::new();
    while out.len() < size {
        out.push_str(bit);
    }
    out
}

fn bits(src: &mut Src, table: &[&str], mean: u64, cap: usize) -> String {
    let mut out = String::new();
    while src.more(mean) {
        let i = src.below(table.len());
        out.push_str(table[i]);
        if out.len() > cap {
            break;
        }
    }
    if src.chance(1, 60) {
        // a long run, around sizes where buffers and inline storage change
        let n = src.size(40, cap);
        let i = src.below(table.len());
        out.push_str(&repeat_to(table[i], n));
    }
    out
}

#[derive(Clone, Debug)]
pub struct DocCfg {
    pub depth: usize,
    pub kids: u64,
    pub attrs: u64,
    /// weights: text, element, void, self-closed, raw, comment, doctype
    pub mix: [u32; 7],
    /// chance (in 1/64) of an unusually large shape
    pub spike: u64,
    pub cap: usize,
    /// restrict element names to the first n of the vocabulary
    pub tags: usize,
    pub class_heavy: bool,
    /// thousands of siblings, or hundreds of levels
    pub vast: bool,
}

impl Default for DocCfg {
    fn default() -> DocCfg {
        DocCfg {
            depth: 5,
            kids: 3,
            attrs: 1,
            mix: [6, 12, 3, 2, 2, 1, 1],
            spike: 3,
            cap: 300,
            tags: TAGS.len(),
            class_heavy: false,
            vast: false,
        }
    }
}

impl DocCfg {
    /// Few names, so that selectors match often.
    pub fn small() -> DocCfg { DocCfg { tags: 5, depth: 4, ..DocCfg::default() } }
    pub fn tiny() -> DocCfg { DocCfg { tags: 4, depth: 3, kids: 2, spike: 0, cap: 60, ..DocCfg::default() } }
}

pub fn text_node(src: &mut Src, cap: usize) -> String {
    let t = bits(src, TEXTS, 1, cap);
    let t = t.replace('<', "(");
    if t.is_empty() { "t".to_string() } else { t }
}

pub fn plain(src: &mut Src, cap: usize) -> String { bits(src, PLAIN_BITS, 2, cap) }

pub fn comment_text(src: &mut Src, cap: usize) -> String {
    let mut t = bits(src, COMMENT_BITS, 2, cap);
    // must not end the comment early, also not together with the final `-->`
    while let Some(i) = format!("{}-->", t).find("-->") {
        if i == t.len() {
            break;
        }
        t.replace_range(i..(i + 1).min(t.len()), "+");
    }
    t
}

pub fn raw_text(src: &mut Src, tag: &str, cap: usize) -> String {
    let mut t = String::new();
    while src.more(2) {
        match src.below(12) {
            0 => t.push_str(&format!("</{}", &tag[..tag.len() - 1])),
            1 => t.push_str(&format!("</{} x>", tag)),
            2 => t.push_str(&format!("</{}x>", tag)),
            3 => t.push_str(&format!("<{}>", tag)),
            _ => {
                let i = src.below(RAW_BITS.len());
                t.push_str(RAW_BITS[i])
            }
        }
        if t.len() > cap {
            break;
        }
    }
    if src.chance(1, 60) {
        let n = src.size(40, cap.min(3000));
        t.push_str(&repeat_to("x<", n));
    }
    // never a complete closing tag of this element, also not together with the real one
    let close = format!("</{}>", tag);
    loop {
        let probe = format!("{}{}", t, close);
        let mut bad = None;
        let mut at = 0;
        while let Some(n) = probe[at..].find('<') {
            if is_close(&probe[at + n..], tag) {
                bad = Some(at + n);
                break;
            }
            at += n + 1;
        }
        match bad {
            Some(i) if i < t.len() => t.replace_range(i..i + 1, "."),
            _ => return t,
        }
    }
}

fn is_close(s: &str, tag: &str) -> bool {
    let rest = match s.strip_prefix('<') {
        Some(r) => r.trim_start(),
        None => return false,
    };
    let rest = match rest.strip_prefix('/') {
        Some(r) => r.trim_start(),
        None => return false,
    };
    if rest.len() < tag.len() || !rest.is_char_boundary(tag.len()) || !same(&rest[..tag.len()], tag) {
        return false;
    }
    rest[tag.len()..].trim_start().starts_with('>')
}

pub fn attr_value(src: &mut Src, cap: usize) -> String {
    let v = bits(src, VALUE_BITS, 1, cap);
    v.replace('"', "'")
}

fn class_value(src: &mut Src) -> String {
    const SEP: &[&str] = &[" ", "  ", "\t", "\n", " \r\n "];
    let mut v = String::new();
    if src.chance(1, 8) {
        v.push(' ');
    }
    let n = if src.chance(1, 40) { src.size(4, 130) } else { src.below(4) };
    for i in 0..n {
        if i > 0 {
            let w = src.weighted(&[8, 1, 1, 1, 1]);
            v.push_str(SEP[w]);
        }
        v.push_str(class(src));
    }
    if src.chance(1, 8) {
        v.push(' ');
    }
    v
}

pub fn attrs(src: &mut Src, cfg: &DocCfg, cap: usize) -> Attrs {
    let mut out: Attrs = Vec::new();
    let count = if src.chance(cfg.spike, 128) {
        src.size(4, cfg.cap.min(260))
    } else {
        let mut n = 0;
        while src.more(cfg.attrs) {
            n += 1;
            if n > 12 {
                break;
            }
        }
        n
    };
    for _ in 0..count {
        out.push(attr(src, cfg, cap));
    }
    out
}

fn attr(src: &mut Src, cfg: &DocCfg, cap: usize) -> (String, Option<String>) {
    let what = src.weighted(if cfg.class_heavy { &[3, 8, 4] } else { &[5, 3, 2] });
    match what {
        0 => {
            let name = attr_of(src, ATTRS.len()).to_string();
            let value = match src.weighted(&[6, 2, 2]) {
                0 => Some(attr_value(src, cap)),
                1 => None,
                _ => Some(String::new()),
            };
            (name, value)
        }
        1 => {
            let name = *src.pick(&["class", "Class", "CLASS"]);
            let value = match src.weighted(&[10, 1]) {
                0 => Some(class_value(src)),
                _ => None,
            };
            (name.to_string(), value)
        }
        _ => {
            let name = *src.pick(&["id", "ID", "Id"]);
            let value = match src.weighted(&[10, 1, 1, 1]) {
                0 => Some(id(src).to_string()),
                1 => None,
                2 => Some(format!(" {}", id(src))),
                _ => Some(format!("{} {}", id(src), id(src))),
            };
            (name.to_string(), value)
        }
    }
}

/// Another spelling of the same name.
fn respell(src: &mut Src, tag: &str) -> String {
    match src.weighted(&[10, 1, 1]) {
        0 => tag.to_string(),
        1 => tag.to_ascii_uppercase(),
        _ => tag.to_ascii_lowercase(),
    }
}

pub fn forest(src: &mut Src, cfg: &DocCfg) -> Forest {
    if src.chance(cfg.spike, 64) {
        match src.below(4) {
            0 => return deep(src, cfg),
            1 => return wide(src, cfg),
            2 => {
                // one huge text
                let n = src.size(100, cfg.cap * 30);
                let bit = *src.pick(TEXTS);
                let mut f = vec![Node::Text(repeat_to(if bit == "<" { "x" } else { bit }, n.max(1)).replace('<', "("))];
                f.extend(nodes(src, cfg, cfg.depth).into_iter().filter(|n| !matches!(n, Node::Text(_))));
                return f;
            }
            _ => {}
        }
    }
    nodes(src, cfg, cfg.depth)
}

fn deep(src: &mut Src, cfg: &DocCfg) -> Forest {
    let n = src.size(40, cfg.cap);
    let mut inner = nodes(src, &DocCfg { spike: 0, ..cfg.clone() }, 2);
    let same_tag = src.chance(1, 2);
    let fixed = tag(src, cfg.tags).to_string();
    for _ in 0..n {
        let tag = if same_tag { fixed.clone() } else { tag(src, cfg.tags).to_string() };
        inner = vec![Node::Elem(Elem {
            close: tag.clone(),
            tag,
            attrs: vec![],
            kind: Kind::Open,
            kids: inner,
        })];
    }
    inner
}

fn wide(src: &mut Src, cfg: &DocCfg) -> Forest {
    let n = src.size(40, cfg.cap);
    let mut out = Vec::new();
    let small = DocCfg { spike: 0, kids: 1, ..cfg.clone() };
    for _ in 0..n {
        out.push(Node::Elem(elem(src, &small, 1)));
    }
    if src.chance(1, 2) {
        let tag = tag(src, cfg.tags).to_string();
        out = vec![Node::Elem(Elem {
            close: tag.clone(),
            tag,
            attrs: vec![],
            kind: Kind::Open,
            kids: out,
        })];
    }
    out
}

fn nodes(src: &mut Src, cfg: &DocCfg, depth: usize) -> Forest {
    let mut out: Forest = Vec::new();
    let mut n = 0;
    while src.more(cfg.kids) && n < 40 {
        n += 1;
        let node = match src.weighted(&cfg.mix) {
            0 => {
                if matches!(out.last(), Some(Node::Text(_))) {
                    continue;
                }
                Node::Text(text_node(src, cfg.cap))
            }
            1 => Node::Elem(elem(src, cfg, depth)),
            2 => {
                let tag = void(src).to_string();
                let attrs = attrs(src, cfg, cfg.cap);
                Node::Elem(Elem { tag, close: String::new(), attrs, kind: Kind::Void, kids: vec![] })
            }
            3 => {
                let tag = if src.chance(1, 8) {
                    raw(src).to_string()
                } else {
                    tag(src, cfg.tags).to_string()
                };
                let attrs = attrs(src, cfg, cfg.cap);
                Node::Elem(Elem { tag, close: String::new(), attrs, kind: Kind::SelfClosed, kids: vec![] })
            }
            4 => {
                let tag = raw(src).to_string();
                let text = raw_text(src, &tag, cfg.cap);
                let attrs = attrs(src, cfg, cfg.cap);
                let close = respell(src, &tag);
                Node::Elem(Elem { tag, close, attrs, kind: Kind::Open, kids: vec![Node::Raw(text)] })
            }
            5 => Node::Comment(comment_text(src, cfg.cap)),
            _ => Node::Doctype((*src.pick(&["html", "HTML", "Html"])).to_string()),
        };
        out.push(node);
    }
    out
}

fn elem(src: &mut Src, cfg: &DocCfg, depth: usize) -> Elem {
    let tag = tag(src, cfg.tags).to_string();
    let attrs = attrs(src, cfg, cfg.cap);
    let kids = if depth == 0 {
        vec![]
    } else {
        nodes(src, &DocCfg { kids: cfg.kids.max(2) - 1, ..cfg.clone() }, depth - 1)
    };
    let close = respell(src, &tag);
    Elem { tag, close, attrs, kind: Kind::Open, kids }
}

// ---------------------------------------------------------------- source text

fn ws(src: &mut Src, out: &mut String, required: bool) {
    const KINDS: &[&str] = &[" ", "\n", "\t", "  ", "\r\n", " \n\t ", "\r"];
    if required {
        let k = src.weighted(&[12, 1, 1, 1, 1, 1, 1]);
        out.push_str(KINDS[k]);
    } else if src.chance(1, 6) {
        let i = src.below(KINDS.len());
        out.push_str(KINDS[i]);
    }
}

/// A source text for the tree, with random but meaningless formatting inside tags.
pub fn source(src: &mut Src, forest: &[Node]) -> String {
    let mut out = String::new();
    write_nodes(src, forest, &mut out);
    out
}

fn write_nodes(src: &mut Src, forest: &[Node], out: &mut String) {
    for node in forest {
        match node {
            Node::Text(t) | Node::Raw(t) => out.push_str(t),
            Node::Comment(t) => {
                out.push_str("<!--");
                out.push_str(t);
                out.push_str("-->");
            }
            Node::Doctype(t) => {
                out.push_str("<!");
                ws(src, out, false);
                out.push_str(*src.pick(&["doctype", "DOCTYPE", "DocType"]));
                ws(src, out, true);
                out.push_str(t);
                ws(src, out, false);
                out.push('>');
            }
            Node::Elem(e) => {
                out.push('<');
                ws(src, out, false);
                out.push_str(&e.tag);
                let mut need = true;
                for (name, value) in &e.attrs {
                    ws(src, out, need);
                    out.push_str(name);
                    need = true;
                    if let Some(v) = value {
                        ws(src, out, false);
                        out.push('=');
                        ws(src, out, false);
                        out.push('"');
                        out.push_str(v);
                        out.push('"');
                        need = !src.chance(1, 6);
                    }
                }
                ws(src, out, false);
                let slash = match e.kind {
                    Kind::SelfClosed => true,
                    Kind::Void => src.chance(1, 3),
                    Kind::Open => false,
                };
                if slash {
                    out.push('/');
                    ws(src, out, false);
                }
                out.push('>');
                if e.kind == Kind::Open {
                    write_nodes(src, &e.kids, out);
                    out.push('<');
                    ws(src, out, false);
                    out.push('/');
                    ws(src, out, false);
                    out.push_str(&e.close);
                    ws(src, out, false);
                    out.push('>');
                }
            }
        }
    }
}

/// A `<`, optional space and name of an element must not read as comment or doctype.
/// (Generated names never start with `!`.)
/// A small document behind, before or inside very many equal pieces.
fn vast_doc(src: &mut Src, cfg: &DocCfg) -> (String, Forest) {
    let small = DocCfg { vast: false, spike: 0, cap: 40, ..cfg.clone() };
    let unit = forest(src, &DocCfg { depth: 1, kids: 2, ..small.clone() });
    let (head, last) = (forest(src, &small), forest(src, &small));
    see(&last);
    see(&unit);
    let edge = if src.chance(1, 30) { 16_384 } else { *src.pick(&[128, 256, 256, 512, 1024, 4096]) };
    let (head, unit, last) = (source(src, &head), source(src, &unit), source(src, &last));
    let one = crate::refparse::parse(&unit, None).map(|e| e.len()).unwrap_or(0).max(1);
    let n = edge / one + src.below(4);
    let d = edge.min(600) + src.below(4);
    let w = *src.pick(&["a", "b", "x-y"]);
    let s = match src.below(6) {
        0 | 1 => format!("{}{}", unit.repeat(n), last),
        2 => format!("{}{}{}", head, unit.repeat(n), last),
        3 => format!("{}<{}>{}</{}>{}", head, w, unit.repeat(n), w, last),
        4 => format!("<{}>{}{}</{}>{}", w, unit.repeat(n), last, w, head),
        _ => format!("{}{}{}{}", format!("<{}>", w).repeat(d), last, format!("</{}>", w).repeat(d), head),
    };
    let f = crate::model::tree(&crate::refparse::parse(&s, None).expect("valid pieces"));
    (s, f)
}

pub fn doc(src: &mut Src, cfg: &DocCfg) -> (String, Forest) {
    if cfg.vast {
        return vast_doc(src, cfg);
    }
    let f = forest(src, cfg);
    see(&f);
    let s = source(src, &f);
    (s, f)
}

// ---------------------------------------------------------------- names and selectors

pub fn name_by(src: &mut Src) -> NameBy {
    *src.pick(&[NameBy::Static, NameBy::Owned, NameBy::Ref, NameBy::Result])
}

pub fn attr_name(src: &mut Src) -> Name {
    if let Some(n) = seen(src, |s| &s.attrs) {
        return Name(n, name_by(src));
    }
    let n = if src.chance(1, 2) { attr_of(src, 8) } else { attr_of(src, ATTRS.len()) };
    Name(n, name_by(src))
}

fn class_of(src: &mut Src) -> &'static str {
    match seen(src, |s| &s.classes) {
        Some(c) => c,
        None => class(src),
    }
}
fn id_of(src: &mut Src) -> &'static str {
    match seen(src, |s| &s.ids) {
        Some(c) => c,
        None => id(src),
    }
}
pub fn class_name(src: &mut Src) -> Name { Name(class_of(src), name_by(src)) }
pub fn id_name(src: &mut Src) -> Name { Name(id_of(src), name_by(src)) }

pub const BAD_NAMES: &[&str] = &[
    "", " ", "a b", "a=b", "\"", "a/", "<a", "a>", "&", "a,b", "x;", "\u{fc}", "a\tb", "\n", "\u{65e5}", "a\u{c}",
];

pub fn bad_name(src: &mut Src) -> Name { Name(*src.pick(BAD_NAMES), name_by(src)) }

fn sel_tag(src: &mut Src, tags: usize) -> &'static str {
    if let Some(t) = seen(src, |s| &s.tags) {
        return t;
    }
    match src.weighted(&[12, 2, 1]) {
        0 => tag(src, tags),
        1 => void(src),
        _ => raw(src),
    }
}

pub fn sel(src: &mut Src, tags: usize) -> Sel {
    let shape = src.weighted(&[8, 2, 3, 2, 2, 1, 1]);
    let tag = match shape {
        0 | 3 | 4 | 6 => Some(sel_tag(src, tags)),
        _ => None,
    };
    let id = match shape {
        1 | 4 | 5 | 6 => Some(id_of(src)),
        _ => None,
    };
    let mut classes = Vec::new();
    if matches!(shape, 2 | 3 | 5 | 6) {
        classes.push(class_of(src));
        while src.chance(1, 3) && classes.len() < 5 {
            classes.push(class_of(src));
        }
    }
    let mut by = [SelBy::Static, SelBy::Typed, SelBy::TypedResult, SelBy::TypedRc, SelBy::TypedRef, SelBy::User(0)]
        [src.weighted(&[8, 1, 1, 1, 1, 1])];
    if let SelBy::User(what) = &mut by {
        *what = src.below(crate::model::USER_WISHES as usize) as u8;
    }
    if let Some(t) = tag {
        if t.contains('.') || t.contains('#') {
            by = SelBy::Typed;
        }
    }
    let text = intern(&sel_text(tag, id, &classes));
    Sel { tag, id, classes, by, text, bad: false }
}

pub fn sel_text(tag: Option<&str>, id: Option<&str>, classes: &[&str]) -> String {
    let mut t = String::new();
    t.push_str(tag.unwrap_or(""));
    if let Some(i) = id {
        t.push('#');
        t.push_str(i);
    }
    for c in classes {
        t.push('.');
        t.push_str(c);
    }
    t
}

pub fn tag_sel(tag: &'static str) -> Sel {
    let by = if tag.contains('.') || tag.contains('#') { SelBy::Typed } else { SelBy::Static };
    Sel { tag: Some(tag), id: None, classes: vec![], by, text: tag, bad: false }
}

pub fn bad_sel(src: &mut Src) -> Sel {
    const TEXTS: &[&str] = &["", "/", "#/", ".x.y./", "a#", "a.", ".", "#", "a b", "a#x#y=", "a..b", "\u{fc}", "a.x y", ".a&"];
    match src.below(3) {
        0 => Sel { tag: None, id: None, classes: vec![], by: SelBy::Static, text: *src.pick(TEXTS), bad: true },
        1 => Sel { tag: Some(*src.pick(BAD_NAMES)), id: None, classes: vec![], by: SelBy::TypedResult, text: "", bad: true },
        _ => Sel { tag: None, id: None, classes: vec!["x", *src.pick(BAD_NAMES)], by: SelBy::Typed, text: "", bad: true },
    }
}

// ---------------------------------------------------------------- content

pub fn int(src: &mut Src) -> TextSrc {
    const RANGES: &[(i128, i128)] = &[
        (0, u8::MAX as i128), (0, u16::MAX as i128), (0, u32::MAX as i128), (0, u64::MAX as i128),
        (0, usize::MAX as i128), (i8::MIN as i128, i8::MAX as i128), (i16::MIN as i128, i16::MAX as i128),
        (i32::MIN as i128, i32::MAX as i128), (i64::MIN as i128, i64::MAX as i128),
        (isize::MIN as i128, isize::MAX as i128),
    ];
    let ty = src.below(10);
    let (lo, hi) = RANGES[ty];
    let v = match src.below(6) {
        0 => 0,
        1 => lo,
        2 => hi,
        3 => if lo < 0 { -1 } else { 1 },
        4 => (src.draw(2001) as i128 - 1000).clamp(lo, hi),
        _ => lo + (src.draw(u64::MAX) as i128).rem_euclid(hi - lo + 1),
    };
    TextSrc::Int(ty as u8, v)
}

pub fn text_src(src: &mut Src, cap: usize) -> TextSrc {
    match src.weighted(&[5, 1, 3, 2, 1, 2, 2, 3, 4]) {
        0 => TextSrc::Static(intern(&plain(src, cap))),
        1 => TextSrc::StaticValue(intern(&plain(src, cap))),
        2 => TextSrc::OwnedValue(plain(src, cap)),
        3 => TextSrc::RefValue(plain(src, cap)),
        4 => TextSrc::StaticData(intern(&plain(src, cap))),
        5 => TextSrc::OwnedData(plain(src, cap)),
        6 => TextSrc::RefData(plain(src, cap)),
        7 => int(src),
        _ => TextSrc::Env(src.below(3) as u8),
    }
}

pub fn fragment(src: &mut Src, cfg: &DocCfg) -> Rc<(String, Forest)> {
    let f = forest(src, cfg);
    see(&f);
    let s = source(src, &f);
    Rc::new((s, f))
}

pub fn failure(src: &mut Src) -> Failure {
    match src.below(4) {
        0 => Failure::Input(*src.pick(&["<a>", "</a>", "<a></b>", "<!--", "<a b=c></a>", "x<", "<a", "<\u{fc}>"])),
        1 => Failure::File,
        2 => Failure::Identifier(*src.pick(BAD_NAMES)),
        _ => Failure::Input("<a>"),
    }
}

pub fn content(src: &mut Src, cfg: &ProgCfg) -> Content {
    match src.weighted(&[6, 4, 1]) {
        0 => Content::Text(text_src(src, 120)),
        1 => {
            let f = fragment(src, &cfg.frag);
            let by = match src.below(5) {
                0 => TmplBy::Ref,
                1 => TmplBy::Owned,
                2 => TmplBy::Rc,
                3 => TmplBy::UserStream,
                _ => TmplBy::RcCell,
            };
            Content::Tmpl(f, by)
        }
        _ => Content::Ok(Box::new(content(src, cfg))),
    }
}

pub fn items(src: &mut Src) -> Items {
    let n = match src.weighted(&[3, 2, 4, 1]) {
        0 => 2,
        1 => 0,
        2 => src.below(6),
        _ => src.size(12, 300),
    };
    let by = match src.below(6) {
        0 => IterBy::Vec,
        1 => IterBy::Range,
        2 | 3 => IterBy::Unfused,
        4 => IterBy::Filter,
        _ => IterBy::Chain,
    };
    let values = if by == IterBy::Range {
        let start = src.below(30) as i64 - 10;
        (0..n as i64).map(|i| start + i).collect()
    } else {
        (0..n).map(|_| src.below(30) as i64 - 5).collect()
    };
    Items { values, by }
}

// ---------------------------------------------------------------- programs

/// Which operations a generated program may use, by weight.
#[derive(Clone, Debug)]
pub struct ProgCfg {
    pub depth: usize,
    pub s_ops: u64,
    pub e_ops: u64,
    pub s: [u32; 15],
    pub e: [u32; 27],
    pub tail: [u32; 8],
    pub tags: usize,
    pub frag: DocCfg,
    /// weight of repeat sizes; keeps products of nested repeats small
    pub max_items: usize,
}

pub mod s {
    pub const REMOVE: usize = 0;
    pub const PREPEND: usize = 1;
    pub const APPEND: usize = 2;
    pub const REPLACE: usize = 3;
    pub const SELECT: usize = 4;
    pub const REPEAT: usize = 5;
    pub const REPEAT_OR: usize = 6;
    pub const APPLY: usize = 7;
    pub const APPLY_IF: usize = 8;
    pub const APPLY_IF_ELSE: usize = 9;
    pub const APPLY_OPT: usize = 10;
    pub const APPLY_RES: usize = 11;
    pub const APPLY_BOXED: usize = 12;
    pub const APPLY_TMPL: usize = 13;
    pub const BOXED: usize = 14;
}
pub mod e {
    pub const ADD_ATTR: usize = 0;
    pub const ADD_ATTR_V: usize = 1;
    pub const ADD_EMPTY: usize = 2;
    pub const ADD_TO: usize = 3;
    pub const REPLACE_IF: usize = 4;
    pub const SET_ATTR: usize = 5;
    pub const SET_ATTR_V: usize = 6;
    pub const SET_EMPTY: usize = 7;
    pub const REMOVE_ATTR: usize = 8;
    pub const ADD_CLASS: usize = 9;
    pub const REMOVE_CLASS: usize = 10;
    pub const SET_ID: usize = 11;
    pub const REMOVE_ID: usize = 12;
    pub const REMOVE_C: usize = 13;
    pub const PREPEND_C: usize = 14;
    pub const APPEND_C: usize = 15;
    pub const REPLACE_C: usize = 16;
    pub const SUB_CONTENTS: usize = 17;
    pub const SUBSELECT: usize = 18;
    pub const REPEAT_C: usize = 19;
    pub const APPLY: usize = 20;
    pub const APPLY_IF: usize = 21;
    pub const APPLY_IF_ELSE: usize = 22;
    pub const APPLY_OPT: usize = 23;
    pub const APPLY_RES: usize = 24;
    pub const APPLY_BOXED: usize = 25;
    pub const BOXED: usize = 26;
}
pub mod t {
    pub const NONE: usize = 0;
    pub const STREAM: usize = 1;
    pub const REPEAT: usize = 2;
    pub const REPEAT_OR: usize = 3;
    pub const REPEAT_C_OR: usize = 4;
    pub const APPLY: usize = 5;
    pub const APPLY_IF: usize = 6;
    pub const APPLY_BOXED: usize = 7;
}

impl Default for ProgCfg {
    fn default() -> ProgCfg {
        ProgCfg {
            depth: 3,
            s_ops: 2,
            e_ops: 2,
            s: [1, 3, 3, 1, 14, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1],
            e: [
                2, 2, 1, 2, 2, 2, 2, 1, 2, 2, 2, 1, 1, 2, 3, 3, 2, 3, 6, 3, 1, 1, 1, 1, 1, 1, 1,
            ],
            tail: [16, 3, 2, 2, 2, 1, 1, 1],
            tags: 5,
            frag: DocCfg { kids: 1, ..DocCfg::tiny() },
            max_items: 5,
        }
    }
}

impl ProgCfg {
    pub fn none() -> ProgCfg {
        ProgCfg { s: [0; 15], e: [0; 27], tail: [1, 0, 0, 0, 0, 0, 0, 0], ..ProgCfg::default() }
    }
    pub fn with_s(mut self, list: &[(usize, u32)]) -> ProgCfg {
        for (i, w) in list {
            self.s[*i] = *w;
        }
        self
    }
    pub fn with_e(mut self, list: &[(usize, u32)]) -> ProgCfg {
        for (i, w) in list {
            self.e[*i] = *w;
        }
        self
    }
    pub fn with_t(mut self, list: &[(usize, u32)]) -> ProgCfg {
        for (i, w) in list {
            self.tail[*i] = *w;
        }
        self
    }
}

fn prog_items(src: &mut Src, cfg: &ProgCfg) -> Items {
    let mut it = items(src);
    it.values.truncate(cfg.max_items);
    it
}

fn inner(cfg: &ProgCfg) -> ProgCfg { ProgCfg { depth: cfg.depth.saturating_sub(1), max_items: cfg.max_items.min(4), ..cfg.clone() } }

pub fn sprog(src: &mut Src, cfg: &ProgCfg) -> SProg {
    let mut out = Vec::new();
    while src.more(cfg.s_ops) && out.len() < 8 {
        match sop(src, cfg) {
            Some(op) => out.push(op),
            None => break,
        }
    }
    out
}

pub fn sop(src: &mut Src, cfg: &ProgCfg) -> Option<SOp> {
    let mut w = cfg.s;
    if cfg.depth == 0 {
        for i in 4..=13 {
            w[i] = 0;
        }
    }
    if w.iter().all(|x| *x == 0) {
        return None;
    }
    let sub = inner(cfg);
    Some(match src.weighted(&w) {
        s::REMOVE => SOp::Remove,
        s::PREPEND => SOp::Prepend(content(src, cfg)),
        s::APPEND => SOp::Append(content(src, cfg)),
        s::REPLACE => SOp::Replace(content(src, cfg)),
        s::SELECT => SOp::Select {
            scope: if src.chance(1, 3) { Scope::Direct } else { Scope::Any },
            once: src.chance(1, 3),
            sel: sel(src, cfg.tags),
            body: Rc::new(eprog(src, &sub)),
        },
        s::REPEAT => SOp::Repeat(prog_items(src, cfg), Rc::new(sprog(src, &sub))),
        s::REPEAT_OR => {
            SOp::RepeatOrElse(prog_items(src, cfg), Rc::new(sprog(src, &sub)), Rc::new(sprog(src, &sub)))
        }
        s::APPLY => SOp::Apply(Rc::new(sprog(src, &sub))),
        s::APPLY_IF => SOp::ApplyIf(src.chance(1, 2), Rc::new(sprog(src, &sub))),
        s::APPLY_IF_ELSE => {
            SOp::ApplyIfElse(src.chance(1, 2), Rc::new(sprog(src, &sub)), Rc::new(sprog(src, &sub)))
        }
        s::APPLY_OPT => SOp::ApplyOption(opt(src), Rc::new(sprog(src, &sub)), Rc::new(sprog(src, &sub))),
        s::APPLY_RES => SOp::ApplyResult(res(src), Rc::new(sprog(src, &sub)), Rc::new(sprog(src, &sub))),
        s::APPLY_BOXED => SOp::ApplyBoxed(Rc::new(sprog(src, &sub))),
        s::APPLY_TMPL => SOp::ApplyTemplate(Rc::new(sprog(src, &sub))),
        _ => SOp::IntoBoxed,
    })
}

fn opt(src: &mut Src) -> Option<i64> {
    if src.chance(1, 2) { Some(src.below(50) as i64) } else { None }
}
fn res(src: &mut Src) -> Result<i64, i64> {
    let v = src.below(50) as i64;
    if src.chance(1, 2) { Ok(v) } else { Err(v) }
}

pub fn eops(src: &mut Src, cfg: &ProgCfg) -> Vec<EOp> {
    let mut out = Vec::new();
    while src.more(cfg.e_ops) && out.len() < 10 {
        match eop(src, cfg) {
            Some(op) => out.push(op),
            None => break,
        }
    }
    out
}

pub fn eop(src: &mut Src, cfg: &ProgCfg) -> Option<EOp> {
    let mut w = cfg.e;
    if cfg.depth == 0 {
        for i in 17..=25 {
            w[i] = 0;
        }
    }
    if w.iter().all(|x| *x == 0) {
        return None;
    }
    let sub = inner(cfg);
    Some(match src.weighted(&w) {
        e::ADD_ATTR => {
            let (n, v) = attr_pair(src);
            EOp::AddAttr(n, if src.chance(2, 3) { Some(v) } else { None })
        }
        e::ADD_ATTR_V => {
            let (n, v) = attr_pair(src);
            EOp::AddAttrValue(n, v)
        }
        e::ADD_EMPTY => EOp::AddEmpty(attr_name(src)),
        e::ADD_TO => {
            let (n, v) = attr_pair(src);
            EOp::AddTo(n, v, if src.chance(1, 4) { TextSrc::Static(" ") } else { text_src(src, 20) })
        }
        e::REPLACE_IF => {
            let (n, v) = attr_pair(src);
            EOp::ReplaceIfExists(n, v)
        }
        e::SET_ATTR => {
            let (n, v) = attr_pair(src);
            EOp::SetAttr(n, if src.chance(2, 3) { Some(v) } else { None })
        }
        e::SET_ATTR_V => {
            let (n, v) = attr_pair(src);
            EOp::SetAttrValue(n, v)
        }
        e::SET_EMPTY => EOp::SetEmpty(attr_name(src)),
        e::REMOVE_ATTR => EOp::RemoveAttr(attr_name(src)),
        e::ADD_CLASS => {
            let n = class_name(src);
            SEEN.with(|s| note_seen(&mut s.borrow_mut().classes, n.0));
            EOp::AddClass(n)
        }
        e::REMOVE_CLASS => EOp::RemoveClass(class_name(src)),
        e::SET_ID => {
            let n = id_name(src);
            SEEN.with(|s| note_seen(&mut s.borrow_mut().ids, n.0));
            EOp::SetId(n)
        }
        e::REMOVE_ID => EOp::RemoveId,
        e::REMOVE_C => EOp::RemoveContents,
        e::PREPEND_C => EOp::PrependContents(content(src, cfg)),
        e::APPEND_C => EOp::AppendContents(content(src, cfg)),
        e::REPLACE_C => EOp::ReplaceContents(content(src, cfg)),
        e::SUB_CONTENTS => EOp::SubSelectContents(Rc::new(sprog(src, &sub))),
        e::SUBSELECT => EOp::SubSelect {
            scope: if src.chance(1, 3) { Scope::Direct } else { Scope::Any },
            once: src.chance(1, 3),
            sel: sel(src, cfg.tags),
            body: Rc::new(eprog(src, &sub)),
        },
        e::REPEAT_C => EOp::RepeatContents(prog_items(src, cfg), Rc::new(sprog(src, &sub))),
        e::APPLY => EOp::Apply(Rc::new(eops(src, &sub))),
        e::APPLY_IF => EOp::ApplyIf(src.chance(1, 2), Rc::new(eops(src, &sub))),
        e::APPLY_IF_ELSE => {
            EOp::ApplyIfElse(src.chance(1, 2), Rc::new(eops(src, &sub)), Rc::new(eops(src, &sub)))
        }
        e::APPLY_OPT => EOp::ApplyOption(opt(src), Rc::new(eops(src, &sub)), Rc::new(eops(src, &sub))),
        e::APPLY_RES => EOp::ApplyResult(res(src), Rc::new(eops(src, &sub)), Rc::new(eops(src, &sub))),
        e::APPLY_BOXED => EOp::ApplyBoxedElement(Rc::new(eops(src, &sub))),
        _ => EOp::IntoBoxedElement,
    })
}

/// An attribute name and value; sometimes a class or id that later operations select by.
fn attr_pair(src: &mut Src) -> (Name, TextSrc) {
    if !src.chance(1, 5) {
        return (attr_name(src), text_src(src, 120));
    }
    let by = name_by(src);
    let (name, value) = if src.chance(2, 3) {
        let name = *src.pick(&["class", "class", "Class", "CLASS"]);
        let value = if src.chance(1, 2) { class_of(src).to_string() } else { class_value(src) };
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            for c in value.split_whitespace().take(3) {
                note_seen(&mut s.classes, c);
            }
        });
        (name, value)
    } else {
        let value = id_of(src).to_string();
        SEEN.with(|s| note_seen(&mut s.borrow_mut().ids, &value));
        (*src.pick(&["id", "id", "Id", "ID"]), value)
    };
    let text = match src.below(4) {
        0 => TextSrc::OwnedValue(value),
        1 => TextSrc::RefValue(value),
        2 => TextSrc::StaticValue(intern(&value)),
        _ => TextSrc::Static(intern(&value)),
    };
    (Name(name, by), text)
}
/// Remember a name that an operation makes, in place of an earlier one when there are many.
fn note_seen(l: &mut Vec<&'static str>, n: &str) {
    if crate::refparse::check_ident(n).is_ok() && !n.contains(|c| ".#".contains(c)) {
        let n = intern(n);
        if !l.contains(&n) {
            if l.len() >= 12 {
                l.remove(0);
            }
            l.push(n);
        }
    }
}

fn opt_text(src: &mut Src) -> Option<TextSrc> {
    if src.chance(2, 3) { Some(text_src(src, 120)) } else { None }
}

pub fn eprog(src: &mut Src, cfg: &ProgCfg) -> EProg {
    let ops = eops(src, cfg);
    let mut w = cfg.tail;
    if cfg.depth == 0 {
        for i in 2..=7 {
            w[i] = 0;
        }
    }
    let sub = inner(cfg);
    let tail = match src.weighted(&w) {
        t::STREAM => match sop(src, cfg) {
            Some(op) => ETail::Stream(op),
            None => ETail::None,
        },
        t::REPEAT => ETail::Repeat(prog_items(src, cfg), Rc::new(eprog(src, &sub))),
        t::REPEAT_OR => {
            ETail::RepeatOrElse(prog_items(src, cfg), Rc::new(eprog(src, &sub)), Rc::new(eprog(src, &sub)))
        }
        t::REPEAT_C_OR => ETail::RepeatContentsOrElse(
            prog_items(src, cfg),
            Rc::new(sprog(src, &sub)),
            Rc::new(eprog(src, &sub)),
        ),
        t::APPLY => ETail::Apply(Rc::new(eprog(src, &sub))),
        t::APPLY_IF => ETail::ApplyIf(src.chance(1, 2), Rc::new(eprog(src, &sub))),
        t::APPLY_BOXED => ETail::ApplyBoxed(Rc::new(sprog(src, &sub))),
        _ => ETail::None,
    };
    let rest = if matches!(tail, ETail::None) && !src.chance(1, 4) {
        vec![]
    } else if cfg.s.iter().any(|w| *w > 0) {
        let mut r = sprog(src, &ProgCfg { s_ops: 1, ..sub });
        r.truncate(3);
        r
    } else {
        vec![]
    };
    EProg { ops, tail, rest }
}

/// Marks an element visibly without touching anything else.
pub fn mark_body() -> EProg {
    EProg {
        ops: vec![EOp::AddAttrValue(Name("m", NameBy::Static), TextSrc::Env(0))],
        tail: ETail::None,
        rest: vec![],
    }
}

/// Is some raw-text element among the elements with contents that were not parsed as raw text?
/// (Element content put into them cannot survive another parse.)
pub fn raw_with_markup(f: &[Node]) -> bool {
    f.iter().any(|n| match n {
        Node::Elem(e) if is_raw(&e.tag) && e.kind == Kind::Open => e
            .kids
            .iter()
            .any(|k| matches!(k, Node::Elem(_) | Node::Comment(_) | Node::Doctype(_))) || e.kids.iter().any(|k| matches!(k, Node::Raw(_))) && e.kids.len() > 1,
        Node::Elem(e) => raw_with_markup(&e.kids),
        _ => false,
    })
}

pub fn void_name(s: &str) -> bool { is_void(s) }

/// Nodes which may follow each other any number of times (two texts in a row would read as one).
pub fn nodes_no_text(src: &mut Src, cfg: &DocCfg) -> Forest {
    let mut f = forest(src, cfg);
    if let (Some(Node::Text(_)), Some(Node::Text(_))) = (f.first(), f.last()) {
        f.pop();
    }
    f
}
