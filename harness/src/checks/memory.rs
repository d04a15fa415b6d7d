//! C33: nothing is left behind.
//!
//! The same work is done again and again in one thread, whose bytes in use are counted by the
//! allocator. Memory that is kept once (a cache of bounded size) is no violation; memory that is
//! kept every time is.

use super::*;
use crate::alloc::live;
use crate::gen::{DocCfg, ProgCfg};
use html5_fuser::event::IntoStream;
use html5_fuser::select;
use html5_fuser::text::{Data, Identifier, IdentifierError, Value};
use html5_fuser::{ParseOptions, Stream};
use std::rc::Rc;

fn ident(s: &str) -> Result<Identifier, IdentifierError> { s.parse() }
fn data(s: &str) -> Data { Data::from_unencoded_str(s) }

const WARM: usize = 3;
const ROUNDS: usize = 6;

/// Repeats the work, which must not leave something behind every time.
fn settles(what: &str, mut work: impl FnMut()) -> Res {
    for _ in 0..WARM {
        work();
    }
    let mut grown = 0;
    for _ in 0..ROUNDS {
        let before = live();
        work();
        let after = live();
        if after <= before {
            return Ok(());
        }
        grown += after - before;
    }
    fail(format!("{}: {} bytes are left after doing it {} times, some each time", what, grown, ROUNDS))
}

/// Random programs, complete or failing.
fn c33_programs(ctx: &mut Ctx) -> Res {
    let cfg = if ctx.src.chance(1, 3) { DocCfg::small() } else { DocCfg::tiny() };
    let (s, f) = doc(ctx, &cfg);
    let mut p = gen::sprog(&mut ctx.src, &ProgCfg { depth: 2, s_ops: 2, max_items: 3, ..ProgCfg::default() });
    let broken = ctx.src.chance(1, 3);
    if broken {
        let c = Content::Broken(gen::fragment(&mut ctx.src, &DocCfg::tiny()), ctx.src.below(8));
        let at = ctx.src.below(p.len() + 1);
        p.insert(at, if ctx.src.chance(1, 2) { SOp::Append(c) } else { SOp::Prepend(c) });
    }
    ctx.input(&s);
    ctx.input(&p);
    let t = must_parse(&s)?;
    let d = diff_parsed(ctx, &t, &s, &f, &p)?;
    let turn = ctx.src.below(40) as u32;
    let gives_up = if ctx.src.chance(1, 4) { ctx.src.range(1, 20) as u64 } else { 0 };
    let about = format!("transforming {:?}{}\n  by {}", short(&s), if gives_up > 0 { " with a panicking builder" } else { "" }, short(&format!("{:?}", p)));
    let mut panicked = false;
    settles(&about, || {
        interp::meddle_from(turn);
        let t = interp::parse(&s).expect("parsed before");
        let out = match gives_up {
            0 => Some(interp::transform(&t, &p)),
            n => interp::transform_giving_up(&t, &p, n),
        };
        panicked |= out.is_none();
        match out {
            Some(Ok(t)) => drop(t.to_string()),
            Some(Err(e)) => drop(format!("{} {:?}", e, e)),
            None => (),
        }
        let _ = model::take_calls();
        let _ = interp::take_watch();
    })?;
    ctx.classify_if(d.out.is_none(), "failing");
    ctx.classify_if(panicked, "a builder panics");
    ctx.nontrivial(d.changed || d.out.is_none() || panicked);
    Ok(())
}

/// The other things one does: texts, names, selectors, files, errors, streams dropped half way.
fn c33_rest(ctx: &mut Ctx) -> Res {
    let what = ctx.src.below(7);
    let text = if ctx.src.chance(1, 2) {
        parsing::soup(&mut ctx.src)
    } else {
        gen::plain(&mut ctx.src, 120)
    };
    let (s, _) = doc(ctx, &DocCfg::tiny());
    let n = ctx.src.range(0, 9);
    ctx.input(&what);
    ctx.input(&text);
    ctx.input(&s);
    ctx.input(&n);
    let path = parsing::scratch_file("left.html");
    let owned = path.to_string_lossy().to_string();
    let good = must_parse(&s)?;
    let mut failed = false;
    let kind = ["parsing", "values", "names", "files", "a stream dropped half way", "created elements", "limits"][what];
    if what == 3 {
        if ctx.src.chance(1, 6) {
            let _ = std::fs::remove_file(&path);
        } else {
            let mut bytes = text.clone().into_bytes();
            if ctx.src.chance(1, 4) {
                bytes.push(0xff);
            }
            std::fs::write(&path, bytes).expect("scratch file");
        }
    }
    let about = format!("{} with {:?} and {:?}", kind, short(&text), short(&s));
    let r = settles(&about, || {
        match what {
            0 => match Template::from_str(&text, ParseOptions::default()) {
                Ok(t) => drop((t.to_string(), t.clone() == t)),
                Err(e) => {
                    failed = true;
                    drop(format!("{} {:?}", e, e))
                }
            },
            1 => {
                let v = Value::from_unencoded_str(&text);
                let w = v.clone();
                let d: Data = Data::from(v.clone());
                let e = Data::from_unencoded_str(&text);
                drop((v.to_string(), d == e, v == w.clone(), w.to_string()));
            }
            2 => {
                match text.parse::<Identifier>() {
                    Ok(n) => drop((n.to_string(), n.clone() == n)),
                    Err(e) => drop(format!("{} {:?}", e, e)),
                }
                let out = good.transform(|h| h.select(text.parse::<select::Class>(), |e| e.add_class(ident(&text)).append_contents(data(&text))).select(text.parse::<select::Tag>(), |e| e.remove_class(ident(&text))));
                failed |= out.is_err();
                match out {
                    Ok(t) => drop(t.to_string()),
                    Err(e) => drop(format!("{} {:?}", e, e)),
                }
            }
            3 => match Template::from_file(&owned, if n % 3 == 0 { ParseOptions::default().max_input_len(n * 5) } else { ParseOptions::default() }) {
                Ok(t) => drop(t.to_string()),
                Err(e) => {
                    failed = true;
                    drop(format!("{} {:?}", e, e))
                }
            },
            4 => {
                let mut stream = (&good).into_stream();
                for _ in 0..n {
                    let _ = stream.next_event();
                }
                drop(stream);
                // a chain which is built, and never read to its end
                let out = good.transform(|h| {
                    h.repeat(0..n, |h, i| h.append(i as i64).prepend(good.clone()).append("<"))
                        .append(Dropper(0))
                });
                drop(out);
            }
            5 => {
                let out = Template::with_transformed_element(ident(&text), |e| e.set_id(ident(&text)));
                failed |= out.is_err();
                drop(out.map(|t| t.to_string()));
                drop(Template::with_element("p").map(|t| t.to_string()));
            }
            _ => {
                let o = ParseOptions::default().max_input_len(n * 7).max_stack_depth(n / 3);
                let out = Template::from_str(&s, o);
                failed |= out.is_err();
                drop(out.map(|t| t.to_string()).map_err(|e| e.to_string()));
            }
        }
    });
    if what == 3 {
        let open = open_handles(&path);
        let _ = std::fs::remove_file(&path);
        if open > 0 {
            return fail(format!("{}: the file is left open {} times", about, open));
        }
    }
    ctx.classify(kind);
    ctx.classify_if(failed, "failing");
    ctx.nontrivial(text.len() + s.len() > 1);
    r
}
/// Content that fails at once.
struct Dropper(u32);
impl Stream for Dropper {
    fn next_event(&mut self) -> html5_fuser::event::StreamResult {
        self.0 += 1;
        Err(html5_fuser::text::IdentifierError::Empty.into())
    }
}
/// How often this process has the file open.
fn open_handles(path: &std::path::Path) -> usize {
    let path = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
    std::fs::read_dir("/proc/self/fd")
        .map(|d| d.filter_map(|e| e.ok()).filter(|e| std::fs::read_link(e.path()).map_or(false, |l| l == path)).count())
        .unwrap_or(0)
}

/// Work on ever different data. A cache of bounded size fills up in time.
fn c33_distinct(ctx: &mut Ctx) -> Res {
    let (s, _) = doc(ctx, &DocCfg::tiny());
    let what = ctx.src.below(9);
    let size = ctx.src.range(30, 60);
    let salt = ctx.src.below(1 << 20);
    ctx.input(&s);
    ctx.input(&what);
    ctx.input(&size);
    let good = must_parse(&s)?;
    let mut serial = salt * 1_000_000;
    let mut batch = || {
        for _ in 0..size {
            serial += 1;
            let name = format!("n{}", serial);
            match what {
                0 => drop(Template::from_str(&format!("<{}>{}{}<!--{}--></{}>", name, name, s, name, name), ParseOptions::default()).map(|t| t.to_string())),
                1 => drop(Template::from_str(&format!("{}<{}", s, name), ParseOptions::default()).map_err(|e| format!("{} {:?}", e, e))),
                6 => drop((
                    good.transform(|h| h.select(name.parse::<select::Class>(), |e| e.remove()).select(name.parse::<select::Id>(), |e| e.remove_class(ident(&name)))).map(|t| t.to_string()),
                    select::Classes::from_str_iterator(vec![&*name, "x"].into_iter()).is_ok(),
                )),
                7 => drop((Value::from_unencoded_str(&name).to_string(), Data::from_unencoded_str(&format!("{}<", name)).to_string(), ident(&name).map(|n| n.clone() == n))),
                8 => drop(good.transform(|h| h.repeat(0..2, |h, i| h.append(data(&format!("{}{}", name, i)))).select("a", |e| {
                    e.repeat_contents(0..2, |c, _: i32| c.prepend(data(&name)))
                        .add_to_attribute("k", Value::from_unencoded_str(&name), " ")
                        .replace_attribute_value_if_exists(ident(&name), "v")
                        .remove_attribute(ident(&name))
                        .remove_class(ident(&name))
                        .set_id(ident(&name))
                })).map(|t| t == t.clone())),
                2 => drop(good.transform(|h| h.select(name.parse::<select::Tag>(), |e| e.remove()).append(data(&name))).map(|t| t.to_string())),
                3 => drop(good.transform(|h| h.select("a", |e| e.add_class(ident(&name)).set_attribute(ident(&name), Some(Value::from_unencoded_str(&name)))))),
                4 => drop(good.transform(|h| h.select(format!("{} {}", name, name).parse::<select::Class>(), |e| e.remove())).map_err(|e| e.to_string())),
                _ => drop(Template::with_transformed_element(ident(&name), |e| e.append_contents(data(&name))).map(|t| t.to_string() == t.clone().to_string())),
            }
        }
    };
    let r = {
        // room for caches to fill
        for _ in 0..1 + 1_500 / size {
            batch();
        }
        let start = live();
        let mut last = start;
        let mut growing = true;
        for _ in 0..ROUNDS {
            batch();
            let now = live();
            growing &= now >= last + size as i64;
            last = now;
        }
        if growing {
            fail(format!(
                "work of kind {} on different data with {:?}: {} bytes are left after {} times",
                what, short(&s), last - start, ROUNDS * size
            ))
        } else {
            Ok(())
        }
    };
    ctx.nontrivial(true);
    r
}

/// Values which hold each other: the last owner frees the memory.
fn c33_shared(ctx: &mut Ctx) -> Res {
    let (s, _) = doc(ctx, &DocCfg::tiny());
    let (s2, _) = gen::doc(&mut ctx.src, &DocCfg::small());
    let order: Vec<usize> = (0..ctx.src.range(2, 10)).map(|_| ctx.src.below(5)).collect();
    ctx.input(&s);
    ctx.input(&s2);
    ctx.input(&order);
    must_parse(&s)?;
    must_parse(&s2)?;
    let about = format!("a history {:?} on {:?} and {:?}", order, short(&s), short(&s2));
    settles(&about, || {
        let mut pool: Vec<Rc<Template>> = vec![
            Rc::new(interp::parse(&s).expect("parsed before")),
            Rc::new(interp::parse(&s2).expect("parsed before")),
        ];
        for (n, how) in order.iter().enumerate() {
            let a = pool[n % pool.len()].clone();
            let b = pool[(n / 2) % pool.len()].clone();
            if a.to_string().len() + b.to_string().len() > 20_000 {
                break;
            }
            match how {
                0 => pool.push(Rc::new((*a).clone())),
                1 => pool.push(Rc::new(a.transform(|h| h.append(b.clone()).prepend(&*b)).expect("no names"))),
                2 => {
                    let at = n % pool.len();
                    if pool.len() > 1 {
                        pool.remove(at);
                    }
                }
                3 => pool.push(Rc::new(a.transform(|h| h.select("a", |e| e.replace_contents(b.clone()).add_class("k"))).expect("valid names"))),
                _ => drop((*a == *b, a.clone())),
            }
        }
    })?;
    ctx.nontrivial(!s.is_empty() || !s2.is_empty());
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C33",
        level: "exploration",
        rule: "The same work (random programs, also failing or with panicking builders; parsing, names, values, files, dropped streams, created elements, limits, accepted or rejected; histories of shared templates) is repeated 9 times in a thread whose bytes in use are counted: they must stop growing; and work on ever different data, in batches; no file stays open. Non-trivial: the program has an effect, fails or panics; the data is not empty.",
        parts: vec![
            part("programs", 60_000, 600_000, c33_programs),
            part("other work", 60_000, 600_000, c33_rest),
            part("different data", 600, 6_000, c33_distinct),
            part("shared templates", 30_000, 300_000, c33_shared),
        ],
        assumptions: &["memory kept once, or up to a bound, is allowed"],
        findings: vec![],
        exhaustive_parts: &[],
    }]
}
