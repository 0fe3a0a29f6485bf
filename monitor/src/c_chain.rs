//! C29: conversion chains. C30: streams are processed sentence by sentence.

use std::cell::{Cell, RefCell};
use std::fs::{self, File};
use std::io::{self, BufRead, Read, Write};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

use conllx::io::{ReadSentence, Reader, Writer};
use lumberjack::io::{Encode, NegraWriter, PTBLineFormat, PTBReader, PTBWriter, TryFromConllx};
use lumberjack::{NegraReader, Projectivize, Tree, UnaryChains, WriteTree};

use crate::alloc;
use crate::c_brk;
use crate::c_cli::{self, In, Scratch, Stdin};
use crate::c_neg;
use crate::flow::Chunky;
use crate::gen::{self, Kind};
use crate::h::*;
use crate::model::*;
use crate::rng::Rng;
use crate::text::{self, Fmt, NegraStyle, FMTS};

// --- C29 ---------------------------------------------------------------------------------------

const PUNCT: &str = "-=:_+~|()#%,";

/// Values every format can express, with the given punctuation here and there.
fn clean(s: &str, legal: &str, rng: &mut Rng) -> String {
    let s: String = s
        .chars()
        .map(|c| if PUNCT.contains(c) || c.is_whitespace() || c.is_control() { 'x' } else { c })
        .collect();
    let mut s = match s.as_str() {
        "" => "e".into(),
        "NONE" | "DUMMY" => format!("{}x", s),
        _ => s,
    };
    if rng.chance(1, 5) {
        gen::punct(&mut s, legal, rng);
    }
    s
}

/// The formats of a chain, and the punctuation that means nothing in any of them.
struct Route {
    formats: Vec<In>,
    legal: String,
}

fn route(rng: &mut Rng) -> Route {
    let all = [In::Brk(FMTS[0]), In::Brk(FMTS[1]), In::Brk(FMTS[2]), In::Negra, In::Negra, In::Abs, In::Rel];
    let mut formats = all.to_vec();
    if rng.chance(1, 2) {
        formats.retain(|_| rng.chance(1, 2));
        if formats.is_empty() {
            formats.push(*rng.pick(&all));
        }
    }
    let legal = PUNCT
        .chars()
        .filter(|c| {
            !formats.iter().any(|f| match f {
                In::Brk(Fmt::Ptb) => "-()".contains(*c),
                In::Brk(Fmt::Simple) => "()".contains(*c),
                In::Brk(Fmt::Tueba) => "=:()".contains(*c),
                In::Negra => "=".contains(*c),
                In::Abs | In::Rel => "_+~|:=,#".contains(*c),
            })
        })
        .collect();
    Route { formats, legal }
}

fn common(rng: &mut Rng, n: usize, disc: u64, legal: &str) -> M {
    let mut o = gen::opt(Kind::Enc, n);
    o.disc = disc;
    o.unary = *rng.pick(&[0, 10, 30]);
    let mut m = gen::gen_m(rng, o);
    for n in m.nodes.values_mut() {
        n.label = clean(&n.label, legal, rng);
        n.form = clean(&n.form, legal, rng);
        n.lemma = n.lemma.as_ref().map(|l| clean(l, legal, rng));
        n.edge = match n.edge.get() {
            Some(e) => Lab::Is(Some(clean(e, legal, rng))),
            None => Lab::Is(None),
        };
        n.feats = n
            .feats
            .iter()
            .map(|(k, v)| {
                // the label ends before the first '-': the annotation can contain more of them
                let legal = match k.as_str() {
                    text::ANNOT => format!("{}-", legal.replace('-', "")),
                    "morph" => legal.to_string(),
                    _ => String::new(),
                };
                let key = if k == text::ANNOT { k.clone() } else { clean(k, "", rng) };
                (key, v.as_ref().map(|v| clean(v, &legal, rng)))
            })
            .collect();
    }
    // what an export file says about the sentence
    let r = m.root;
    if !m.nodes[&r].term {
        let f = &mut m.nodes.get_mut(&r).unwrap().feats;
        if rng.chance(1, 3) {
            f.insert("sentence_id".into(), Some(rng.below(3000).to_string()));
        }
        if rng.chance(1, 4) {
            f.insert("metadata".into(), Some("1 1167 0 %% x.y".into()));
        }
    }
    // one secondary edge per node, none below the root
    let mut seen = std::collections::BTreeSet::new();
    let root = m.root;
    m.sec.retain(|(_, c, _)| *c != root && seen.insert(*c));
    for s in m.sec.iter_mut() {
        s.2 = s.2.as_ref().map(|l| clean(l, legal, rng));
    }
    m
}

/// What is left of a tree after it was written and read.
fn project(m: &M, f: In, counter: &mut usize) -> M {
    match f {
        In::Brk(f) => text::restrict(m, f),
        In::Negra => {
            let rf = &m.nodes[&m.root].feats;
            let id = match rf.get("sentence_id") {
                Some(Some(i)) => i.clone(),
                _ => {
                    *counter += 1;
                    (*counter - 1).to_string()
                }
            };
            let x = rf.get("metadata").and_then(|v| v.clone());
            text::negra_view(m, &id, x.as_ref().map(String::as_str))
        }
        In::Abs | In::Rel => {
            let mut m = m.clone();
            m.sec.clear();
            for n in m.nodes.values_mut() {
                n.lemma = None;
                n.feats.clear();
                n.edge = Lab::Is(None);
            }
            m
        }
    }
}

fn write(trees: &[Tree], f: In) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let r = calm("writing", || -> Result<(), failure::Error> {
        match f {
            In::Brk(f) => {
                let mut w = PTBWriter::new(&mut out, f.lib());
                for t in trees {
                    w.write_tree(t)?;
                }
            }
            In::Negra => {
                let mut w = NegraWriter::new(&mut out);
                for t in trees {
                    w.write_tree(t)?;
                }
            }
            In::Abs | In::Rel => {
                let mut w = Writer::new(&mut out);
                for t in trees {
                    let mut t = t.clone();
                    t.collapse_unary_chains("_")?;
                    if f == In::Abs {
                        t.annotate_absolute()?;
                    } else {
                        t.annotate_relative()?;
                    }
                    w.write_tree(&t)?;
                }
            }
        }
        Ok(())
    })?;
    r.map_err(|e| format!("writing {:?}: {}", f, e))?;
    Ok(out)
}

fn read(txt: &[u8], f: In, multi: bool, rng: &mut Rng) -> Result<Vec<Tree>, String> {
    let src = Chunky::new(txt, rng).buffered(rng);
    let r = calm("reading", || -> Result<Vec<Tree>, failure::Error> {
        Ok(match f {
            In::Brk(f) => {
                let l = if multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
                PTBReader::new(src, f.lib(), l).collect::<Result<Vec<_>, _>>()?
            }
            In::Negra => NegraReader::new(src).collect::<Result<Vec<_>, _>>()?,
            In::Abs | In::Rel => {
                let mut v = Vec::new();
                let mut r = Reader::new(src);
                while let Some(s) = r.read_sentence()? {
                    v.push(if f == In::Abs {
                        Tree::try_from_conllx_with_absolute_encoding(&s)?
                    } else {
                        Tree::try_from_conllx_with_relative_encoding(&s)?
                    });
                }
                v
            }
        })
    })?;
    r.map_err(|e| format!("reading {:?}: {}\n{}", f, e, String::from_utf8_lossy(txt)))
}


fn check(what: &str, trees: &[Tree], exps: &[M]) -> Res {
    if trees.len() != exps.len() {
        return Err(format!("{}: {} of {} sentences come back", what, trees.len(), exps.len()));
    }
    for (i, (t, e)) in trees.iter().zip(exps).enumerate() {
        let g = good(t).map_err(|x| format!("{}, sentence {}: {}", what, i, x))?;
        let (a, b) = (canon(&g, ALL), canon(e, ALL));
        if a != b {
            return Err(format!("{}, sentence {}: read back as\n{}\nexpected\n{}", what, i, a, b));
        }
    }
    Ok(())
}

fn c29(cx: &mut Cx) -> Res {
    let by_program = cx.case % 150 == 7;
    let k = if cx.rng.chance(1, 2) { 1 } else { cx.rng.range(2, 4) };
    let disc = if by_program || cx.rng.chance(1, 2) { 0 } else { 50 };
    let route = route(&mut cx.rng);
    let mut trees = Vec::new();
    let mut exps = Vec::new();
    for _ in 0..k {
        let n = if k > 1 || by_program { cx.rng.range(1, 14) } else { gen::size(&mut cx.rng, cx.thorough) };
        let m = common(&mut cx.rng, n, disc, &route.legal);
        let t = match gen::build(&m, &mut cx.rng) {
            Ok((t, _)) => t,
            Err(e) => return skip(cx, e),
        };
        exps.push(snapshot(&t)?);
        trees.push(t);
    }
    cx.desc = exps.iter().map(|m| canon(m, ALL)).collect::<Vec<_>>().join("\n");
    let steps = cx.rng.range(2, 6);
    if by_program {
        return program_chain(cx, trees, exps, steps, &route);
    }
    let mut path = String::new();
    for _ in 0..steps {
        let mut f = *cx.rng.pick(&route.formats);
        if f != In::Negra && exps.iter().any(|m| !m.projective()) {
            if route.formats.contains(&In::Negra) && cx.rng.chance(1, 2) {
                f = In::Negra;
            } else {
                for (t, m) in trees.iter_mut().zip(exps.iter_mut()) {
                    calm("projectivize", || t.projectivize())?;
                    let g = good(t).map_err(|e| format!("projectivized: {}", e))?;
                    // C10 judges the result; the words and labels are the same in any case
                    if canon(m, ALL) != canon(&g, ALL) {
                        cx.counts.entry("trees projectivized on the way".into()).and_modify(|c| *c += 1).or_insert(1);
                    }
                    *m = g;
                }
            }
        }
        let multi = cx.rng.chance(1, 2);
        path.push_str(&format!(" {:?}", f));
        let txt = write(&trees, f).map_err(|e| format!("{}: {}", path, e))?;
        trees = read(&txt, f, multi, &mut cx.rng).map_err(|e| format!("{}: {}", path, e))?;
        let mut counter = 0;
        exps = exps.iter().map(|m| project(m, f, &mut counter)).collect();
        cx.step(path.clone());
        check(&path, &trees, &exps)?;
        cx.count("conversions");
    }
    // the same trees by another way compare as equal
    for (t, m) in trees.iter().zip(&exps) {
        if let Ok((o, _)) = gen::build(m, &mut cx.rng) {
            match snapshot(&o) {
                Ok(g) if canon(&g, ALL) == canon(m, ALL) => (),
                _ => continue,
            }
            if calm("eq", || o != *t || *t != o)? {
                return Err(format!("{}: differs from the tree built in another way\n{}", path, canon(m, ALL)));
            }
            cx.count("trees compared with one built in another way");
        }
    }
    // a conversion that was made once changes nothing when it is made again
    let last = *cx.rng.pick(&route.formats);
    if last == In::Negra || exps.iter().all(|m| m.projective()) {
        let a = write(&trees, last)?;
        let a = write(&read(&a, last, false, &mut cx.rng)?, last)?;
        let again = read(&a, last, false, &mut cx.rng)?;
        let b = write(&again, last)?;
        // inner nodes may be numbered in another way
        if a != b && last != In::Negra {
            return Err(format!(
                "{}: {:?} written, read and written again:\n{}\nfirst:\n{}",
                path,
                last,
                String::from_utf8_lossy(&b),
                String::from_utf8_lossy(&a)
            ));
        }
        cx.count("texts that were written again");
    }
    cx.desc.push_str(&path);
    cx.nontrivial = true;
    Ok(())
}

/// The converter calls itself: each step is a run of the program on the output of the last one.
fn program_chain(cx: &mut Cx, trees: Vec<Tree>, mut exps: Vec<M>, steps: usize, route: &Route) -> Res {
    if exps.iter().any(|m| !m.projective()) {
        return Ok(());
    }
    let dir = Scratch::new("C29", cx.case);
    let mut from = *cx.rng.pick(&route.formats);
    let mut txt = write(&trees, from)?;
    let mut counter = 0;
    exps = exps.iter().map(|m| project(m, from, &mut counter)).collect();
    let mut path = format!("{:?}", from);
    for i in 0..steps {
        let to = *cx.rng.pick(&route.formats);
        path.push_str(&format!(" {:?}", to));
        let file = dir.0.join(format!("in{}", i));
        fs::write(&file, &txt).map_err(harness)?;
        let mut a: Vec<String> =
            vec!["--input_format".into(), from.arg().into(), "--output_format".into(), to.arg().into()];
        let multi = cx.rng.chance(1, 2);
        if multi {
            a.push("--multiline_brackets".into());
        }
        let e = c_cli::run(&dir.0, &a, Stdin::File(file), None)?;
        if e.code != Some(0) {
            return Err(format!("{}: the program ended with {:?}: {}", path, e.code, e.stderr));
        }
        txt = e.stdout;
        let mut counter = 0;
        exps = exps.iter().map(|m| project(m, to, &mut counter)).collect();
        from = to;
        let back = read(&txt, from, cx.rng.chance(1, 2), &mut cx.rng).map_err(|e| format!("{}: {}", path, e))?;
        check(&path, &back, &exps)?;
        cx.count("conversions by the program");
    }
    cx.desc.push_str(&path);
    cx.nontrivial = true;
    Ok(())
}

fn pick_format(rng: &mut Rng) -> In {
    match rng.below(7) {
        0 | 1 | 2 => In::Brk(*rng.pick(&FMTS)),
        3 | 4 => In::Negra,
        5 => In::Abs,
        _ => In::Rel,
    }
}

// --- C30 ---------------------------------------------------------------------------------------

/// Hands out one line at a time and records how far it was read.
struct Tap {
    data: Vec<u8>,
    pos: usize,
    seen: Rc<Cell<usize>>,
}

impl Tap {
    fn new(data: Vec<u8>) -> (Tap, Rc<Cell<usize>>) {
        let seen = Rc::new(Cell::new(0));
        (Tap { data, pos: 0, seen: seen.clone() }, seen)
    }
    fn end(&self) -> usize {
        let rest = &self.data[self.pos..];
        self.pos + rest.iter().position(|b| *b == b'\n').map(|i| i + 1).unwrap_or(rest.len())
    }
}

impl Read for Tap {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let avail = self.fill_buf()?;
            let n = avail.len().min(buf.len());
            buf[..n].copy_from_slice(&avail[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for Tap {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let e = self.end();
        self.seen.set(self.seen.get().max(e));
        Ok(&self.data[self.pos..e])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

/// Keeps what is written where the monitor sees it; refuses once, after a number of bytes.
struct Shared(Rc<RefCell<Vec<u8>>>, Rc<Cell<Option<usize>>>);

impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = b.len();
        if let Some(left) = self.1.get() {
            if left == 0 {
                self.1.set(None);
                return Err(io::Error::new(io::ErrorKind::Other, "injected write error"));
            }
            n = n.min(left);
            self.1.set(Some(left - n));
        }
        self.0.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Stands for the number of the round.
const MARK: &str = "⁂";

/// A sentence in a format, with what may stand in front of it.
fn piece(f: In, multi: bool, rng: &mut Rng, size: usize, mark: bool) -> (String, String) {
    let marked = |m: &mut M, rng: &mut Rng| {
        if mark {
            let (labels, edges) = (rng.chance(1, 2), rng.chance(1, 2));
            for n in m.nodes.values_mut() {
                if n.term {
                    n.form.push_str(MARK);
                }
                if labels {
                    n.label.push_str(MARK);
                }
                if edges {
                    if let Some(e) = n.edge.get().map(|e| format!("{}{}", e, MARK)) {
                        n.edge = Lab::Is(Some(e));
                    }
                }
            }
        }
    };
    match f {
        In::Brk(f) => {
            let mut m = c_brk::gen_for(f, size, 0, rng, false);
            marked(&mut m, rng);
            let mut s = String::new();
            if rng.chance(1, 6) {
                s.push_str(if mark { "%% comment ⁂\n" } else { "%% comment\n" });
            }
            s.push_str(&c_brk::layout(&text::tokens(&m, f), multi, "\n", rng));
            s.push('\n');
            (s, canon(&text::restrict(&m, f), ALL))
        }
        _ => {
            let mut m = c_neg::gen_neg(rng, size, false);
            marked(&mut m, rng);
            let st = NegraStyle::random(rng);
            let mut s = String::new();
            if rng.chance(1, 4) {
                c_neg::noise(&mut s, "\n", rng);
            }
            let (mut id, mut x) = (c_neg::sent_id(rng), c_neg::meta(rng));
            if mark {
                id = format!("1{}", MARK);
                x = x.map(|x| format!("{} {}", x, MARK.repeat(20)));
            }
            let x = x.as_ref().map(String::as_str);
            s.push_str(&text::negra_lines(&m, &id, x, &st, rng).0.concat());
            (s, canon(&text::negra_view(&m, &id, x), ALL))
        }
    }
}

/// A sentence that can't be read. It ends with the text.
fn broken(f: In, multi: bool, rng: &mut Rng) -> String {
    match f {
        In::Negra => {
            let n = rng.range(1, 6);
            let m = c_neg::gen_neg(rng, n, false);
            let mut lines = text::negra_lines(&m, "17", None, &NegraStyle::random(rng), rng).0;
            match rng.below(4) {
                0 => *lines.last_mut().unwrap() = "#EOS 18\n".into(),
                1 => lines[1] = "a b\n".into(),
                2 => lines[0] = "#BOS x\n".into(),
                _ => {
                    let i = lines.len() - 2;
                    lines[i] = "#500 -- A -- --\n".into();
                }
            }
            lines.concat()
        }
        _ => {
            let mut v = vec!["()\n", "(A ())\n", "(A (B b)))\n", ")\n", "x\n", "(A)\n", "(A (B b))))))\n", "(A (B b) ())\n"];
            if multi {
                v.extend(&["(A\n(B\n)\n)\n", "(A (B b)\n\n ()\n)\n", "(\n)\n", "(A\n\n)\n", "(A (B b)\n))\n", "(A\n  (B b\n  )))\n"]);
            } else {
                v.extend(&["(A (B b)\n", "(\n", "\n", "(A (B b)) x\n", "(A (B b)) (A (B b))\n", "(A\n"]);
            }
            rng.pick(&v).to_string()
        }
    }
}

fn reader<'a>(src: impl BufRead + 'a, f: In, multi: bool) -> Box<dyn Iterator<Item = Result<Tree, failure::Error>> + 'a> {
    match f {
        In::Brk(f) => {
            let l = if multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
            Box::new(PTBReader::new(src, f.lib(), l))
        }
        _ => Box::new(NegraReader::new(src)),
    }
}

fn brk_or_negra(rng: &mut Rng) -> In {
    if rng.chance(1, 2) {
        In::Negra
    } else {
        In::Brk(*rng.pick(&FMTS))
    }
}

/// Sentences of several formats in one stream, read in turn by readers that share it.
fn shared_stream(cx: &mut Cx) -> Res {
    let mut parts = Vec::new();
    for _ in 0..cx.rng.range(1, 4) {
        let f = brk_or_negra(&mut cx.rng);
        let multi = f != In::Negra && cx.rng.chance(1, 2);
        let k = cx.rng.range(1, 5);
        let ps: Vec<(String, Option<String>)> = (0..k)
            .map(|_| {
                if cx.rng.chance(1, 6) {
                    return (broken(f, multi, &mut cx.rng), None);
                }
                let n = cx.rng.range(1, 10);
                let (s, e) = piece(f, multi, &mut cx.rng, n, false);
                (s, Some(e))
            })
            .collect();
        parts.push((f, multi, ps));
    }
    let mut all: String = parts.iter().flat_map(|p| p.2.iter().map(|x| x.0.as_str())).collect();
    // not every file ends with a line break
    let blank = parts.last().and_then(|p| p.2.last()).map(|x| x.0.trim().is_empty());
    if blank == Some(false) && cx.rng.chance(1, 4) {
        while all.ends_with('\n') || all.ends_with('\r') {
            all.pop();
        }
    }
    cx.desc = all.clone();
    let (mut tap, seen) = Tap::new(all.clone().into_bytes());
    let mut end = 0;
    for (p, (f, multi, ps)) in parts.iter().enumerate() {
        let mut r = reader(&mut tap, *f, *multi);
        if seen.get() != end {
            return Err(format!("a new {:?} reader reads before it is asked", f));
        }
        for (i, (s, e)) in ps.iter().enumerate() {
            end = (end + s.len()).min(all.len());
            let e = match e {
                Some(e) => e,
                // the lines of a broken sentence may be reported one by one
                None => {
                    let mut n = 0;
                    while n == 0 || seen.get() < end {
                        match calm("next", || r.next())? {
                            Some(Err(_)) => n += 1,
                            x => {
                                let x = x.map(|_| "a tree").unwrap_or("the end");
                                return Err(format!("part {} ({:?}), broken sentence {}: {} after {} errors", p, f, i, x, n));
                            }
                        }
                    }
                    if seen.get() != end {
                        return Err(format!(
                            "part {} ({:?}, multi: {}), broken sentence {} ends at byte {}, the source was read up to {}",
                            p,
                            f,
                            multi,
                            i,
                            end,
                            seen.get()
                        ));
                    }
                    cx.count("broken sentences with nothing read beyond them");
                    continue;
                }
            };
            let t = match calm("next", || r.next())? {
                Some(Ok(t)) => t,
                Some(Err(x)) => return Err(format!("part {} ({:?}), sentence {}: {}", p, f, i, x)),
                None => return Err(format!("part {} ({:?}): sentence {} is missing", p, f, i)),
            };
            if seen.get() != end {
                return Err(format!(
                    "part {} ({:?}, multi: {}), sentence {} ends at byte {}, the source was read up to {}",
                    p,
                    f,
                    multi,
                    i,
                    end,
                    seen.get()
                ));
            }
            let g = canon(&good(&t)?, ALL);
            if g != *e {
                return Err(format!("part {} ({:?}), sentence {}: read\n{}\nexpected\n{}", p, f, i, g, e));
            }
            cx.count("sentences with nothing read beyond them");
        }
    }
    cx.nontrivial = true;
    Ok(())
}

/// A long stream with the same sentences over and over again.
fn long_stream(cx: &mut Cx) -> Res {
    let f = brk_or_negra(&mut cx.rng);
    let multi = f != In::Negra && cx.rng.chance(1, 2);
    let k = cx.rng.range(1, 4);
    // the same words and ids over and over again, or ever new ones
    let mark = cx.rng.chance(1, 2);
    let bad: Vec<bool> = (0..k).map(|_| cx.rng.chance(1, 8)).collect();
    let ps: Vec<String> = (0..k)
        .map(|i| {
            if bad[i] {
                return loop {
                    let s = broken(f, multi, &mut cx.rng);
                    // as a single error
                    if s.starts_with("#BOS 17") || f != In::Negra {
                        if f != In::Negra || s.ends_with("#EOS 18\n") {
                            break s;
                        }
                    }
                };
            }
            let n = cx.rng.range(1, 15);
            piece(f, multi, &mut cx.rng, n, mark).0
        })
        .collect();
    let rounds = if cx.thorough { 400 } else { 60 };
    let all: String = (0..rounds).map(|r| ps.concat().replace(MARK, &format!("{:05}", r))).collect();
    cx.desc = format!("{} x {}", rounds, ps.concat());
    let longest = ps.iter().map(String::len).max().unwrap() as i64;
    let slack = 1024 + 2 * longest;
    let bytes = all.into_bytes();
    let mut r = reader(&bytes[..], f, multi);
    let mut first = vec![0; k];
    let mut base = 0;
    for round in 0..rounds {
        for i in 0..k {
            let before = alloc::total();
            let t = match calm("next", || r.next())? {
                Some(Ok(t)) if !bad[i] => Some(t),
                Some(Err(_)) if bad[i] => None,
                x => return Err(format!("round {}, sentence {}: {:?}", round, i, x.map(|x| x.map(|_| ()).map_err(|e| e.to_string())))),
            };
            let cost = alloc::total() - before;
            drop(t);
            if round == 2 {
                first[i] = cost;
            }
            if round > 2 && cost > 2 * first[i] + 2048 {
                return Err(format!("{:?}: sentence {} takes {} bytes in round 2, {} in round {}", f, i, first[i], cost, round));
            }
        }
        let live = alloc::live();
        if round == 2 {
            base = live;
        }
        if round > 2 && live - base > slack {
            return Err(format!("{:?}: the reader holds {} bytes more after {} rounds of {} sentences", f, live - base, round + 1, k));
        }
    }
    if calm("next", || r.next())?.is_some() {
        return Err("additional sentence".into());
    }
    cx.add("sentences read in long streams", (rounds * k) as u64);
    cx.nontrivial = true;
    Ok(())
}

/// What a writer was given has arrived when it returns, nothing is kept.
fn writers(cx: &mut Cx) -> Res {
    let k = cx.rng.range(1, 4);
    let mut trees = Vec::new();
    for _ in 0..k {
        let n = cx.rng.range(1, 14);
        let m = common(&mut cx.rng, n, 15, "");
        match gen::build(&m, &mut cx.rng) {
            Ok((t, _)) => trees.push((t, m)),
            Err(e) => return skip(cx, e),
        }
    }
    let f = pick_format(&mut cx.rng);
    cx.desc = format!("{:?} {}", f, trees.iter().map(|(_, m)| canon(m, ALL)).collect::<Vec<_>>().join("\n"));
    let sink = Rc::new(RefCell::new(Vec::new()));
    let hiccup = Rc::new(Cell::new(None));
    let mut w: Box<dyn WriteTree> = match f {
        In::Brk(f) => Box::new(PTBWriter::new(Shared(sink.clone(), hiccup.clone()), f.lib())),
        In::Negra => Box::new(NegraWriter::new(Shared(sink.clone(), hiccup.clone()))),
        _ => Box::new(Writer::new(Shared(sink.clone(), hiccup.clone()))),
    };
    let mut lens: Vec<Vec<u8>> = Vec::new();
    let rounds = if cx.rng.chance(1, 8) { 60 } else { 3 };
    let mut base = 0;
    for round in 0..rounds {
        for (i, (t, m)) in trees.iter().enumerate() {
            let r = calm("write_tree", || w.write_tree(t).map_err(|e| e.to_string()))?;
            let out = std::mem::replace(&mut *sink.borrow_mut(), Vec::new());
            let refused = !m.projective() && if let In::Brk(_) = f { true } else { false };
            if refused {
                if r.is_ok() || !out.is_empty() {
                    return Err(format!("a discontinuous tree: {:?} {:?}", r, String::from_utf8_lossy(&out)));
                }
                if round < 2 {
                    lens.push(out);
                }
                continue;
            }
            r.map_err(|e| format!("write_tree: {}", e))?;
            let txt = String::from_utf8_lossy(&out).to_string();
            let whole = match f {
                In::Brk(_) => txt.ends_with(")\n") && txt.matches('\n').count() == 1,
                In::Negra => {
                    txt.starts_with("#BOS") && txt.ends_with('\n') && txt.trim_end().lines().last().map(|l| l.starts_with("#EOS")) == Some(true)
                }
                // the blank line may be left to the next sentence
                _ => txt.lines().filter(|l| !l.is_empty()).count() == m.n_terms(),
            };
            if !whole {
                return Err(format!("{:?}: after sentence {} was written {:?} has arrived", f, i, txt));
            }
            if round == 0 {
                lens.push(out);
            } else if round > 1 && f != In::Negra && out != lens[k + i] {
                return Err(format!("{:?}: sentence {} is written differently in round {}", f, i, round));
            }
            if round == 1 {
                lens.push(txt.into_bytes());
            }
            cx.count("sentences that arrived at once");
        }
        if round == 1 {
            while lens.len() < 2 * k {
                lens.push(Vec::new());
            }
        }
        let live = alloc::live();
        if round == 2 {
            base = live;
        }
        if round > 2 && live - base > 4096 {
            return Err(format!("{:?}: the writer holds {} bytes more after {} rounds", f, live - base, round + 1));
        }
    }
    // the sink refuses once: this is reported, and the next sentence arrives as always
    let lines = |b: &[u8]| -> Vec<String> {
        String::from_utf8_lossy(b).lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect()
    };
    let i = cx.rng.below(k);
    let before = lens[k + i].clone();
    if !before.is_empty() {
        let at = cx.rng.below(before.len());
        hiccup.set(Some(at));
        let (t, _) = &trees[i];
        let r = calm("write_tree", || w.write_tree(t).map_err(|e| e.to_string()))?;
        if hiccup.replace(None).is_none() {
            cx.count("write errors injected");
            if r.is_ok() {
                return Err(format!("{:?}: an error after {} bytes was not reported", f, at));
            }
            sink.borrow_mut().clear();
            let r = calm("write_tree", || w.write_tree(t).map_err(|e| e.to_string()))?;
            r.map_err(|e| format!("write_tree: {}", e))?;
            let (mut a, mut b) = (lines(&before), lines(&sink.borrow()));
            if f == In::Negra {
                // (numbered by the writer)
                for x in vec![&mut a, &mut b] {
                    if x.len() > 1 {
                        x.pop();
                        x.remove(0);
                    }
                }
            }
            if a != b {
                return Err(format!("{:?}: after a write error {:?} arrives instead of {:?}", f, b, a));
            }
        }
    }
    cx.nontrivial = true;
    Ok(())
}

fn kb(pid: u32, key: &str) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{}/status", pid)).ok()?;
    let l = s.lines().find(|l| l.starts_with(key))?;
    l.split_whitespace().nth(1)?.parse().ok()
}

/// The converter's memory doesn't grow with the number of sentences.
fn program_memory(cx: &mut Cx) -> Res {
    let inputs = [In::Brk(FMTS[0]), In::Brk(FMTS[1]), In::Brk(FMTS[2]), In::Negra, In::Abs, In::Rel];
    let from = *cx.rng.pick(&inputs);
    let to = pick_format(&mut cx.rng);
    let mut trees = Vec::new();
    for _ in 0..4 {
        let n = cx.rng.range(10, 25);
        let mut m = common(&mut cx.rng, n, 0, "");
        for t in m.nodes.values_mut().filter(|n| n.term) {
            t.form.push_str(MARK);
        }
        match gen::build(&m, &mut cx.rng) {
            Ok((t, m2)) => {
                let _ = m2;
                trees.push(t)
            }
            Err(e) => return skip(cx, e),
        }
    }
    let txt = match write(&trees, from) {
        Ok(t) => t,
        Err(e) => return skip(cx, e),
    };
    let mut txt = txt;
    if let In::Abs | In::Rel = from {
        // the writer separates sentences, it doesn't end them
        while !txt.ends_with(b"\n\n") {
            txt.push(b'\n');
        }
    }
    let target = if cx.thorough { 24 << 20 } else { 6 << 20 };
    cx.desc = format!("{:?} to {:?}: {}", from, to, String::from_utf8_lossy(&txt));
    let dir = Scratch::new("C30", cx.case);
    // ever new words, or the same ones
    let fresh = cx.rng.chance(1, 2);
    let rounds = target / txt.len() + 1;
    let mut more: Vec<String> = Vec::new();
    if cx.rng.chance(1, 3) {
        // the tags come from a file as long as the input
        let mut one = String::new();
        for t in &trees {
            let n = t.n_terminals();
            for i in 1..=n {
                one.push_str(&format!("{}\t⁂w\t_\tT{}\tT{}\t_\n", i, i % 5, i % 7));
            }
            one.push('\n');
        }
        let mut w = io::BufWriter::new(File::create(dir.0.join("pos")).map_err(harness)?);
        for r in 0..rounds {
            let s = if fresh { one.replace(MARK, &format!("{:06}", r)) } else { one.replace(MARK, "") };
            w.write_all(s.as_bytes()).map_err(harness)?;
        }
        w.flush().map_err(harness)?;
        more.extend(vec!["--pos".to_string(), dir.0.join("pos").display().to_string()]);
        cx.count("conversions with tags from a long file");
    }
    if cx.rng.chance(1, 2) {
        let labels: Vec<String> = trees
            .iter()
            .flat_map(|t| t.nonterminals().map(|n| t[n].label().to_string()).collect::<Vec<_>>())
            .filter(|_| cx.rng.chance(1, 2))
            .collect();
        fs::write(dir.0.join("set"), labels.join("\n")).map_err(harness)?;
        let set = dir.0.join("set").display().to_string();
        match cx.rng.below(5) {
            0 => more.extend(vec!["--filter".to_string(), set]),
            1 => more.extend(vec!["--id_set".to_string(), set]),
            2 => more.extend(vec!["--insertion_set".to_string(), set]),
            3 => more.extend(vec!["--parent".to_string(), "p".into()]),
            _ => more.extend(vec!["--projectivize".to_string(), "--sec_edges".into()]),
        }
    }
    cx.desc.push_str(&more.join(" "));
    let by_file = cx.rng.chance(1, 3);
    let mut c = Command::new(c_cli::program());
    c.args(&["--input_format", from.arg(), "--output_format", to.arg()]).args(&more).current_dir(&dir.0);
    if by_file {
        c.arg("--output_file").arg(dir.0.join("out"));
        c.stdout(Stdio::null());
    } else {
        c.stdout(Stdio::from(File::create(dir.0.join("stdout")).map_err(harness)?));
    }
    c.stderr(Stdio::null()).stdin(Stdio::piped());
    let mut child = c.spawn().map_err(harness)?;
    let pid = child.id();
    let mut pipe = child.stdin.take().expect("stdin");
    let mut fed = 0;
    let mut early = None;
    let mut failed = false;
    // the pipe holds little: what was written has been read, but for the last pieces
    let text = String::from_utf8_lossy(&txt).to_string();
    for r in 0..rounds {
        let txt = if fresh { text.replace(MARK, &format!("{:06}", r)) } else { text.replace(MARK, "") };
        if pipe.write_all(txt.as_bytes()).is_err() {
            failed = true;
            break;
        }
        fed += txt.len();
        if early.is_none() && fed > target / 4 {
            early = kb(pid, "VmHWM");
        }
    }
    let late = kb(pid, "VmHWM");
    drop(pipe);
    let start = Instant::now();
    let status = loop {
        match child.try_wait().map_err(harness)? {
            Some(s) => break s,
            None if start.elapsed() > Duration::from_secs(300) => {
                let _ = child.kill();
                let _ = child.wait();
                return Err(harness("the program is stuck"));
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    if failed || status.code() != Some(0) {
        return Err(format!("the program ended with {:?} after {} bytes of well-formed input", status.code(), fed));
    }
    match (early, late) {
        (Some(a), Some(b)) => {
            cx.add("kB converted with the memory watched", fed as u64 / 1024);
            // three quarters of the input were read in between
            let limit = (target as u64 / 1024) / 4;
            if b > a + limit {
                return Err(format!("the program's memory grew from {} to {} kB while it read {} kB", a, b, fed * 3 / 4 / 1024));
            }
            cx.count("conversions with bounded memory");
        }
        _ => return skip(cx, "no memory status".into()),
    }
    cx.nontrivial = true;
    Ok(())
}

fn c30(cx: &mut Cx) -> Res {
    if cx.case % 2500 == 5 {
        return program_memory(cx);
    }
    match cx.rng.below(12) {
        0...6 => shared_stream(cx),
        7...8 => long_stream(cx),
        _ => writers(cx),
    }
}

pub static CHECKS: &[&Check] = &[
    &Check {
        id: "C29",
        rule: "a case counts if all trees of a chain of conversions were compared with the model after each step; distinct by trees and chain",
        quick: 30_000,
        thorough: 1_000_000,
        threads: 8,
        min_judged: 60,
        run: c29,
        assumptions: &["values all formats can express: no separators of any format, no placeholders"],
    },
    &Check {
        id: "C30",
        rule: "a case counts if a stream was read or written to its end with the position of the source, the sink or the memory in use judged for each sentence; distinct by stream",
        quick: 24_000,
        thorough: 600_000,
        threads: 8,
        min_judged: 60,
        run: c30,
        assumptions: &["a source that hands out a line at a time", "the memory of the program as the kernel reports it, three quarters of the input may cost a third of their size"],
    },
];
