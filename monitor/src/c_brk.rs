//! C12-C14: bracket formats.

use lumberjack::io::{PTBLineFormat, PTBReader, PTBWriter};
use lumberjack::{Tree, WriteTree};

use crate::c_ops::edit_some;
use crate::flow::{Choking, Chunky};
use crate::gen::{self, Kind, Opt};
use crate::h::*;
use crate::model::*;
use crate::rng::Rng;
use crate::text::{self, Fmt, FMTS};

pub fn kind(f: Fmt) -> Kind {
    match f {
        Fmt::Ptb => Kind::Ptb,
        Fmt::Simple => Kind::Simple,
        Fmt::Tueba => Kind::Tueba,
    }
}

/// Words and tags with parentheses, annotations as the format allows them.
pub fn flavour(m: &mut M, f: Fmt, rng: &mut Rng, parens: bool) {
    for n in m.nodes.values_mut() {
        if n.term {
            if parens && rng.chance(1, 12) {
                n.form = if rng.chance(1, 2) {
                    rng.pick(&["(", ")", "a(b", ":-)", "(x)", "((", ")(", "))", "(((", ":))"]).to_string()
                } else {
                    (0..rng.range(1, 6)).map(|_| *rng.pick(&['(', ')', ')', 'x', ':', 'ä'])).collect()
                };
            }
            if parens && rng.chance(1, 20) {
                n.label = rng.pick(&["(", ")", "$(", "P)"]).to_string();
            }
        } else {
            n.feats.remove(text::ANNOT);
            if rng.chance(1, 5) && !(f == Fmt::Ptb && n.label.starts_with('-')) {
                n.feats.insert(text::ANNOT.into(), Some(gen::annot(rng, kind(f))));
            } else if rng.chance(1, 20) {
                n.feats.insert(text::ANNOT.into(), None);
            }
        }
    }
}

/// Punctuation that means something in other formats only.
pub fn foreign(m: &mut M, f: Fmt, rng: &mut Rng) {
    if !rng.chance(1, 3) {
        return;
    }
    let (label, annot) = match f {
        Fmt::Ptb => ("=:_+~|#%,;", "-=:_+~|#%,;"),
        Fmt::Simple => ("-=:_+~|#%,;", ""),
        Fmt::Tueba => ("-_+~|#%,;", "-_+~|#%,;"),
    };
    for n in m.nodes.values_mut() {
        if rng.chance(1, 6) {
            gen::punct(&mut n.label, label, rng);
        }
        if n.term && rng.chance(1, 6) {
            gen::punct(&mut n.form, "-=:_+~|#%,;", rng);
        }
        if rng.chance(1, 6) {
            if let Some(Some(a)) = n.feats.get_mut(text::ANNOT) {
                gen::punct(a, annot, rng);
            }
        }
        if rng.chance(1, 6) {
            if let Some(mut e) = n.edge.get().map(str::to_string) {
                gen::punct(&mut e, label, rng);
                n.edge = Lab::Is(Some(e));
            }
        }
    }
}

/// Abstract trees a format can express.
pub fn gen_for(f: Fmt, n: usize, disc: u64, rng: &mut Rng, parens: bool) -> M {
    let mut o = gen::opt(kind(f), n);
    o.disc = disc;
    o.unary = *rng.pick(&[0, 10, 30]);
    let mut m = gen::gen_m(rng, o);
    flavour(&mut m, f, rng, parens);
    m
}

/// Real tree; falls back to the plain route.
pub fn real(m: &M, o: Opt, rng: &mut Rng) -> Result<(Tree, M), String> {
    let mut err = String::new();
    for _ in 0..3 {
        match gen::build(m, rng) {
            Ok((t, _)) => {
                let m = snapshot(&t)?;
                return Ok((t, m));
            }
            Err(e) => err = e,
        }
    }
    match gen::tree(rng, o) {
        Ok((t, m, _)) => Ok((t, m)),
        Err(e) => Err(format!("{}; {}", err, e)),
    }
}

fn c12(cx: &mut Cx) -> Res {
    let f = *cx.rng.pick(&FMTS);
    let n = gen::size(&mut cx.rng, cx.thorough);
    let mut m = gen_for(f, n, 15, &mut cx.rng, true);
    foreign(&mut m, f, &mut cx.rng);
    let mut o = gen::opt(kind(f), n);
    o.disc = 0;
    o.nt_feats = false;
    let (mut t, mut m) = match real(&m, o, &mut cx.rng) {
        Ok(x) => x,
        Err(e) => return skip(cx, e),
    };
    if cx.rng.chance(1, 4) {
        if edit_some(&mut t, &mut cx.rng).is_err() || good(&t).is_err() {
            return skip(cx, "edits failed".into());
        }
        m = snapshot(&t)?;
    }
    cx.desc = format!("{:?} {}", f, canon(&m, Show { edges: true, nt_feats: true, ..BARE }));
    cx.count(f.cli());
    let lib = f.lib();
    let r = calm("tree_to_string", || lib.tree_to_string(&t).map_err(|e| e.to_string()))?;
    let mut out = Vec::new();
    let w = calm("write_tree", || {
        PTBWriter::new(&mut out, f.lib()).write_tree(&t).map_err(|e| e.to_string())
    })?;
    if !m.projective() {
        cx.count("discontinuous trees");
        if r.is_ok() || w.is_ok() {
            return Err(format!("a discontinuous tree was written: {:?} {:?}", r, w));
        }
        if !out.is_empty() {
            return Err("a discontinuous tree was refused, but something was written".into());
        }
        cx.nontrivial = true;
        return Ok(());
    }
    let s = r.map_err(|e| format!("tree_to_string: {}", e))?;
    w.map_err(|e| format!("write_tree: {}", e))?;
    let exp = text::bracket(&m, f);
    if s != exp {
        return Err(format!("written:\n{}\nexpected:\n{}", s, exp));
    }
    if out != format!("{}\n", exp).into_bytes() {
        return Err(format!("write_tree wrote {:?}", String::from_utf8_lossy(&out)));
    }
    if exp.contains("LBR") || exp.contains("RBR") {
        cx.count("trees with parentheses");
    }
    // and back
    let back = calm("string_to_tree", || f.lib().string_to_tree(&s).map_err(|e| e.to_string()))?
        .map_err(|e| format!("can't read back {}: {}", s, e))?;
    let g = good(&back).map_err(|e| format!("read back {}: {}", s, e))?;
    let (a, b) = (canon(&g, ALL), canon(&text::restrict(&m, f), ALL));
    if a != b {
        return Err(format!("read back:\n{}\nexpected:\n{}", a, b));
    }
    if let Some(d) = diff(&m, &snapshot(&t)?) {
        return Err(format!("writing changed the tree: {}", d));
    }
    // through the stream types
    if cx.rng.chance(1, 4) {
        let mut r = PTBReader::new(&out[..], f.lib(), PTBLineFormat::SingleLine);
        let x = calm("read", || r.next())?;
        // a tree never starts with '%'
        let x = match x {
            Some(Ok(x)) => x,
            Some(Err(e)) => return Err(format!("stream: {}", e)),
            None => return Err("stream is empty".into()),
        };
        if canon(&snapshot(&x)?, ALL) != b {
            return Err("stream delivers another tree".into());
        }
    }
    if cx.rng.chance(1, 8) {
        cx.count("write errors injected");
        let full = exp.len() + 1;
        let left = cx.rng.below(full);
        let choking = Choking::new(left, &mut cx.rng);
        let mut w = PTBWriter::new(
            choking,
            f.lib(),
        );
        if calm("write_tree", || w.write_tree(&t))?.is_ok() {
            return Err("a write error was swallowed".into());
        }
    }
    cx.count("round trips");
    cx.add("words", m.n_terms() as u64);
    cx.nontrivial = true;
    Ok(())
}

// --- C13 ---------------------------------------------------------------------------------------

/// Lay out the tokens of one tree; `multi` allows line breaks.
pub fn layout(toks: &[String], multi: bool, eol: &str, rng: &mut Rng) -> String {
    let mut s = String::new();
    let style = rng.below(4);
    let brk = |rng: &mut Rng| -> String {
        let mut x = String::from(eol);
        if rng.chance(1, 12) {
            x.push_str(eol);
        }
        if rng.chance(1, 20) {
            x.push_str("  ");
            x.push_str(eol);
        }
        for _ in 0..rng.below(4) {
            x.push(' ');
        }
        x
    };
    if rng.chance(1, 6) {
        s.push(' ');
    }
    for (i, t) in toks.iter().enumerate() {
        s.push_str(t);
        let next = match toks.get(i + 1) {
            Some(n) => n,
            None => break,
        };
        let glue = t != "(" && t != ")" && next != "(" && next != ")";
        let sep = match style {
            // compact
            0 => String::new(),
            // usual
            1 => {
                if next == "(" {
                    if multi {
                        brk(rng)
                    } else {
                        " ".into()
                    }
                } else {
                    String::new()
                }
            }
            // one token per line
            2 if multi => eol.to_string(),
            _ => {
                if multi && rng.chance(1, 3) {
                    brk(rng)
                } else {
                    (0..rng.below(3)).map(|_| ' ').collect()
                }
            }
        };
        if sep.is_empty() && glue {
            s.push(' ');
        } else {
            s.push_str(&sep);
        }
    }
    if rng.chance(1, 6) {
        s.push(' ');
    }
    s
}

fn comment(rng: &mut Rng) -> String {
    rng.pick(&["%% comment", "%", "% (A b)", "%% sent 1)", "%((", "%\u{e4}"]).to_string()
}

struct Stream {
    text: String,
    trees: Vec<M>,
    /// end of each tree (after its line end) in bytes
    ends: Vec<usize>,
}

fn stream(cx: &mut Cx, f: Fmt, multi: bool, n: usize) -> Stream {
    let rng = &mut cx.rng;
    let eol = if rng.chance(1, 4) { "\r\n" } else { "\n" };
    let mut st = Stream {
        text: String::new(),
        trees: Vec::new(),
        ends: Vec::new(),
    };
    let comments = rng.chance(1, 2);
    for i in 0..n {
        if comments && rng.chance(1, 2) {
            for _ in 0..rng.range(1, 2) {
                st.text.push_str(&comment(rng));
                st.text.push_str(eol);
            }
        }
        if multi && rng.chance(1, 3) {
            st.text.push_str(eol);
        }
        let size = match rng.below(8) {
            0 => 1,
            1 => rng.range(10, 30),
            _ => rng.range(2, 8),
        };
        let mut m = gen_for(f, size, 0, rng, true);
        foreign(&mut m, f, rng);
        let toks = text::tokens(&m, f);
        st.text.push_str(&layout(&toks, multi, eol, rng));
        if i + 1 < n || rng.chance(2, 3) {
            st.text.push_str(eol);
        }
        st.trees.push(text::restrict(&m, f));
        st.ends.push(st.text.len());
    }
    if comments && (st.text.is_empty() || st.text.ends_with('\n')) && rng.chance(1, 3) {
        st.text.push_str(&comment(rng));
        if rng.chance(1, 2) {
            st.text.push_str(eol);
        }
    }
    if multi && st.text.ends_with('\n') && rng.chance(1, 3) {
        st.text.push_str(eol);
    }
    st
}

fn line_format(multi: bool) -> PTBLineFormat {
    if multi {
        PTBLineFormat::MultiLine
    } else {
        PTBLineFormat::SingleLine
    }
}

/// Long runs of lines that belong to no tree, more than any stack has room for.
fn c13_gap(cx: &mut Cx) -> Res {
    let f = *cx.rng.pick(&FMTS);
    let multi = cx.rng.chance(1, 2);
    let m = gen_for(f, 5, 0, &mut cx.rng, true);
    let tree = format!("{}\n", text::bracket(&m, f));
    let k = cx.rng.range(1_000_000, 1_200_000);
    let line = if multi { *cx.rng.pick(&["\n", "%\n", "\n%\n"]) } else { "%\n" };
    let txt = format!("{}{}{}{}", tree, line.repeat(k), tree, line.repeat(k));
    cx.desc = format!("{:?} {}: {:?} in front of and behind {} lines {:?}", f, if multi { "multi-line" } else { "single-line" }, tree, k, line);
    let e = canon(&text::restrict(&m, f), ALL);
    let mut r = PTBReader::new(txt.as_bytes(), f.lib(), line_format(multi));
    for i in 0..2 {
        match calm("read", || r.next())? {
            Some(Ok(t)) if canon(&good(&t)?, ALL) == e => (),
            Some(Ok(t)) => return Err(format!("tree {}: {}", i, canon(&snapshot(&t)?, ALL))),
            Some(Err(x)) => return Err(format!("tree {}: {}", i, x)),
            None => return Err(format!("stream ends after {} trees", i)),
        }
    }
    if calm("read", || r.next())?.is_some() {
        return Err("something is delivered after the last tree".into());
    }
    cx.count("streams with a million lines between trees");
    cx.nontrivial = true;
    Ok(())
}

fn c13(cx: &mut Cx) -> Res {
    if cx.case % 3000 == 23 {
        return c13_gap(cx);
    }
    let f = *cx.rng.pick(&FMTS);
    let multi = cx.rng.chance(3, 5);
    let n = cx.rng.below(7);
    let st = stream(cx, f, multi, n);
    cx.desc = format!("{:?} {} {:?}", f, if multi { "multi-line" } else { "single-line" }, st.text);
    cx.count(if multi { "multi-line streams" } else { "single-line streams" });
    let src = Chunky::new(st.text.as_bytes(), &mut cx.rng).buffered(&mut cx.rng);
    let mut r = PTBReader::new(src, f.lib(), line_format(multi));
    for (i, e) in st.trees.iter().enumerate() {
        let t = match calm("read", || r.next())? {
            Some(Ok(t)) => t,
            Some(Err(x)) => return Err(format!("tree {} of {}: {}", i, n, x)),
            None => return Err(format!("stream ends after {} of {} trees", i, n)),
        };
        let g = good(&t).map_err(|x| format!("tree {}: {}", i, x))?;
        let (a, b) = (canon(&g, ALL), canon(e, ALL));
        if a != b {
            return Err(format!("tree {}:\n{}\nexpected:\n{}", i, a, b));
        }
        cx.count("trees delivered");
    }
    for _ in 0..3 {
        match calm("read", || r.next())? {
            None => (),
            Some(Ok(t)) => return Err(format!("additional tree {}", canon(&snapshot(&t)?, BARE))),
            Some(Err(e)) => return Err(format!("error after the last tree: {}", e)),
        }
    }
    cx.nontrivial = n > 0;
    Ok(())
}

// --- C14 ---------------------------------------------------------------------------------------

const ALPHA: &[char] = &['(', ')', ' ', 'a', 'b', 'N', '(', ')', '%', ':', '=', '-', 'ä', '\u{3000}', '1'];

const UNSEEN: &[char] = &[
    '\u{feff}', '\t', '\u{a0}', '\u{b}', '\u{c}', '\0', '\u{200b}', '\u{2028}', '\u{85}', '\u{1b}',
    '\u{1a}', ';', '\u{2009}', '\u{ad}', '\u{7f}',
];

fn mutate(s: &str, rng: &mut Rng, newlines: bool) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 2, 3, 6]) {
        let any = |rng: &mut Rng| {
            if newlines && rng.chance(1, 8) {
                *rng.pick(&['\n', '\r'])
            } else {
                *rng.pick(ALPHA)
            }
        };
        if c.is_empty() {
            c.push(any(rng));
            continue;
        }
        let i = rng.below(c.len());
        match rng.below(9) {
            0 | 1 => {
                c.remove(i);
            }
            2 | 3 => c.insert(i, any(rng)),
            4 => c[i] = any(rng),
            5 => {
                let j = rng.below(c.len());
                c.swap(i, j);
            }
            6 => {
                // duplicate a piece
                let j = (i + rng.range(1, 12)).min(c.len());
                let p: Vec<char> = c[i..j].to_vec();
                let at = rng.below(c.len() + 1);
                for (k, x) in p.into_iter().enumerate() {
                    c.insert(at + k, x);
                }
            }
            7 => {
                // remove a piece
                let j = (i + rng.range(1, 12)).min(c.len());
                c.drain(i..j);
            }
            _ => {
                if rng.chance(1, 2) {
                    c.truncate(i);
                } else {
                    c.push(*rng.pick(&[')', '(', ' ', 'x']));
                }
            }
        }
    }
    c.into_iter().collect()
}

fn raw_string(rng: &mut Rng, f: Fmt, newlines: bool) -> String {
    match rng.below(12) {
        0 => {
            let n = rng.below(14);
            (0..n).map(|_| *rng.pick(ALPHA)).collect()
        }
        1 => {
            // deep nesting
            let d = rng.range(1, 450);
            let mut s: String = (0..d).map(|_| "(X ").collect();
            s.push_str("(a b)");
            let close = if rng.chance(1, 2) { d } else { rng.below(d + 3) };
            s.extend((0..close).map(|_| ')'));
            s
        }
        2 => {
            // two trees
            let n = rng.range(1, 3);
            let a = text::bracket(&gen_for(f, n, 0, rng, false), f);
            let b = text::bracket(&gen_for(f, 1, 0, rng, false), f);
            format!("{}{}{}", a, rng.pick(&["", " ", " x ", ")"]), b)
        }
        _ => {
            let n = rng.range(1, 6);
            let m = gen_for(f, n, 0, rng, false);
            let s = layout(&text::tokens(&m, f), false, "\n", rng);
            let mut s = mutate(&s, rng, newlines);
            if rng.chance(1, 8) {
                // characters that only look like nothing: they are part of a label or a word, or
                // stand where none may stand
                let at = match rng.below(3) {
                    0 => 0,
                    1 => s.len(),
                    _ => {
                        let k = rng.below(s.chars().count() + 1);
                        s.char_indices().nth(k).map(|(i, _)| i).unwrap_or(s.len())
                    }
                };
                s.insert(at, *rng.pick(UNSEEN));
            }
            s
        }
    }
}

/// Are the labels of the bracketing divided as documented?
fn plain_labels(m: &M, f: Fmt) -> bool {
    m.nodes.values().all(|n| match f {
        Fmt::Simple => true,
        Fmt::Ptb => !n.term || !n.label.contains('-') || n.label.starts_with('-'),
        Fmt::Tueba => {
            let mut p = n.label.split(':');
            let tag = p.next().unwrap_or("");
            let edge = p.next();
            let t: Vec<&str> = tag.split('=').collect();
            p.next().is_none() && t.len() <= 2 && t.iter().all(|x| !x.is_empty()) && edge != Some("")
        }
    })
}

/// Compare a verdict of the library with the own parser.
fn verdict(s: &str, f: Fmt, r: Result<Tree, String>, cx: &mut Cx) -> Res {
    match (text::parse_brackets(s), r) {
        (None, Err(_)) => {
            cx.count("rejected strings");
            Ok(())
        }
        (Some(mut m), Ok(t)) => {
            cx.count("accepted strings");
            let g = good(&t).map_err(|e| format!("{:?}: {}", s, e))?;
            let strip = |m: &M| {
                let mut m = m.clone();
                for n in m.nodes.values_mut() {
                    n.label.clear();
                    n.feats.clear();
                    n.edge = Lab::Is(None);
                }
                canon(&m, BARE)
            };
            if strip(&m) != strip(&g) {
                return Err(format!("{:?} read as {}", s, canon(&g, BARE)));
            }
            if plain_labels(&m, f) {
                text::interpret(&mut m, f);
                let (a, b) = (canon(&g, ALL), canon(&m, ALL));
                if a != b {
                    return Err(format!("{:?} read as\n{}\nexpected\n{}", s, a, b));
                }
            }
            Ok(())
        }
        (None, Ok(t)) => Err(format!("malformed {:?} accepted as {}", s, canon(&snapshot(&t)?, BARE))),
        (Some(_), Err(e)) => Err(format!("well-formed {:?} rejected: {}", s, e)),
    }
}

fn c14(cx: &mut Cx) -> Res {
    let f = *cx.rng.pick(&FMTS);
    match cx.rng.below(6) {
        0 | 1 => {
            let s = raw_string(&mut cx.rng, f, true);
            cx.desc = format!("{:?} string {:?}", f, s);
            let r = calm(&format!("string_to_tree({:?})", s), || {
                f.lib().string_to_tree(&s).map_err(|e| e.to_string())
            })?;
            cx.nontrivial = true;
            verdict(&s, f, r, cx)
        }
        2 | 3 => {
            // a verdict per line
            let n = cx.rng.range(1, 6);
            let mut lines = Vec::new();
            while lines.len() < n {
                let l = match cx.rng.below(20) {
                    0 => cx.rng.pick(&["", "", " ", "\t", "  \t"]).to_string(),
                    _ => raw_string(&mut cx.rng, f, false),
                };
                if !l.starts_with('%') {
                    if l.trim().is_empty() {
                        cx.count("blank lines");
                    }
                    lines.push(l);
                }
            }
            let mut bytes = Vec::new();
            let mut bad = Vec::new();
            for l in &lines {
                if cx.rng.chance(1, 8) {
                    bytes.extend_from_slice(b"%% c\n");
                }
                let broken = cx.rng.chance(1, 15);
                bad.push(broken);
                bytes.extend_from_slice(l.as_bytes());
                if broken {
                    bytes.extend_from_slice(&[0xff, 0xc0, b'a']);
                    cx.count("lines with invalid UTF-8");
                }
                bytes.push(b'\n');
            }
            cx.desc = format!("{:?} single-line {:?}", f, lines);
            let src = Chunky::new(bytes, &mut cx.rng).buffered(&mut cx.rng);
            let mut r = PTBReader::new(src, f.lib(), PTBLineFormat::SingleLine);
            for (l, bad) in lines.iter().zip(bad) {
                let x = match calm("read", || r.next())? {
                    Some(x) => x.map_err(|e| e.to_string()),
                    None => return Err(format!("no verdict for line {:?}", l)),
                };
                if bad {
                    if x.is_ok() {
                        return Err("line with invalid UTF-8 accepted".into());
                    }
                } else {
                    verdict(l, f, x, cx)?;
                }
                cx.count("lines judged");
            }
            for _ in 0..2 {
                if let Some(x) = calm("read", || r.next())? {
                    return Err(format!("verdict without line: {:?}", x.is_ok()));
                }
            }
            cx.nontrivial = true;
            Ok(())
        }
        4 => {
            // multi-line: trees, then a malformed one
            let n = cx.rng.below(4);
            let mut st = stream(cx, f, true, n);
            if !st.text.is_empty() && !st.text.ends_with('\n') {
                st.text.push('\n');
            }
            let size = cx.rng.range(1, 5);
            let m = gen_for(f, size, 0, &mut cx.rng, false);
            let toks = text::tokens(&m, f);
            let l = layout(&toks, true, "\n", &mut cx.rng);
            let (bad, what) = match cx.rng.below(6) {
                0 => {
                    let cut = cx.rng.range(1, toks.len() - 1);
                    (layout(&toks[..cut], true, "\n", &mut cx.rng), "incomplete")
                }
                1 => (format!("{})", l), "closing bracket too much"),
                2 => (format!("{} x", l), "word after the tree"),
                3 => {
                    // a bracket pair in one line without content
                    let k = cx.rng.below(3);
                    (["()", "(A)", "( )"][k].to_string(), "empty node")
                }
                4 => (format!(") {}", l), "closing bracket first"),
                _ => {
                    let mut t = toks.clone();
                    // second word in the last node
                    let at = t.iter().rposition(|x| x != ")").unwrap() + 1;
                    t.insert(at, "w2".into());
                    (layout(&t, true, "\n", &mut cx.rng), "two words")
                }
            };
            cx.count(&format!("multi-line: {}", what));
            st.text.push_str(&bad);
            if cx.rng.chance(2, 3) {
                st.text.push('\n');
                if what != "incomplete" && cx.rng.chance(1, 2) {
                    let t = text::tokens(&gen_for(f, 2, 0, &mut cx.rng, false), f);
                    st.text.push_str(&layout(&t, false, "\n", &mut cx.rng));
                }
            }
            cx.desc = format!("{:?} multi-line {:?} ({})", f, st.text, what);
            let lines = st.text.lines().count();
            let src = Chunky::new(st.text.as_bytes(), &mut cx.rng).buffered(&mut cx.rng);
            expect_prefix(cx, PTBReader::new(src, f.lib(), PTBLineFormat::MultiLine), &st.trees, lines)?;
            cx.nontrivial = true;
            Ok(())
        }
        _ => {
            // read errors, invalid UTF-8
            let multi = cx.rng.chance(1, 2);
            let n = cx.rng.range(1, 4);
            let st = stream(cx, f, multi, n);
            let len = st.text.len();
            let at = cx.rng.below(len + 1);
            let mut k = 0;
            let complete = |end: usize| end <= at && st.text[..end].ends_with('\n');
            while k < n && complete(st.ends[k]) {
                k += 1;
            }
            let mut bytes = st.text.clone().into_bytes();
            let io = cx.rng.chance(1, 2);
            if !io {
                if !st.text.is_char_boundary(at) || at == len && st.text.ends_with('\n') {
                    return Ok(());
                }
                for b in [0xf0u8, 0x28, 0xff].iter() {
                    bytes.insert(at, *b);
                }
            }
            cx.desc = format!("{:?} multi {} {:?}, {} at {}", f, multi, st.text, if io { "read error" } else { "bytes" }, at);
            cx.count(if io { "read errors injected" } else { "invalid UTF-8 injected" });
            let mut src = Chunky::new(bytes, &mut cx.rng);
            if io {
                src.fail_at = Some(at);
            }
            let src = src.buffered(&mut cx.rng);
            let lines = st.text.lines().count();
            expect_prefix(cx, PTBReader::new(src, f.lib(), line_format(multi)), &st.trees[..k], lines)?;
            cx.nontrivial = true;
            Ok(())
        }
    }
}

/// The trees before the failure are delivered, there is an error and reading ends.
fn expect_prefix(
    cx: &mut Cx,
    mut r: impl Iterator<Item = Result<Tree, failure::Error>>,
    trees: &[M],
    lines: usize,
) -> Res {
    for (i, e) in trees.iter().enumerate() {
        let t = match calm("read", || r.next())? {
            Some(Ok(t)) => t,
            Some(Err(x)) => return Err(format!("tree {} before the malformed one: {}", i, x)),
            None => return Err(format!("stream ends after {} trees", i)),
        };
        let g = good(&t).map_err(|x| format!("tree {}: {}", i, x))?;
        if canon(&g, ALL) != canon(e, ALL) {
            return Err(format!("tree {}: {}\nexpected: {}", i, canon(&g, ALL), canon(e, ALL)));
        }
        cx.count("trees delivered before the failure");
    }
    let mut errors = 0;
    for k in 0.. {
        match calm("read", || r.next())? {
            None => break,
            Some(Ok(t)) => {
                if errors == 0 {
                    return Err(format!("tree without error: {}", canon(&snapshot(&t)?, BARE)));
                }
                good(&t)?;
            }
            Some(Err(_)) => errors += 1,
        }
        if k > lines + 5 {
            return Err("reading doesn't end".into());
        }
    }
    if errors == 0 {
        return Err("malformed material at the end isn't reported".into());
    }
    cx.count("failures reported");
    Ok(())
}

pub static CHECKS: &[&Check] = &[
    &Check {
        id: "C12",
        rule: "a case counts if a tree was written, compared with the expected bracketing and read back, or refused for being discontinuous; distinct by format and tree",
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c12,
        assumptions: &["the vocabulary of labels avoids the delimiters of the format, tabs and control characters"],
    },
    &Check {
        id: "C13",
        rule: "a case counts if a stream of at least one tree was read to its end and every tree compared; distinct by text",
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c13,
        assumptions: &["blank lines in single-line input and lines of blanks between multi-line trees are left open"],
    },
    &Check {
        id: "C14",
        rule: "a case counts if the verdict on a string or stream was compared with an independent parser; distinct by input",
        quick: 80_000,
        thorough: 3_000_000,
        threads: 8,
        min_judged: 60,
        run: c14,
        assumptions: &["input without tabs and other control characters, nesting up to 500"],
    },
];
