//! C15-C17: NEGRA export format.

use std::collections::{BTreeMap, BTreeSet};

use lumberjack::io::NegraWriter;
use lumberjack::{NegraReader, Tree, WriteTree};

use crate::c_ops::edit_some;
use crate::flow::{Choking, Chunky};
use crate::gen::{self, Kind};
use crate::h::*;
use crate::model::*;
use crate::rng::Rng;
use crate::text::{self, NegraStyle, ANNOT};

const META: &[&str] = &[
    "2 1070544990 0 %% HEADLINE",
    "x",
    "%% comment",
    "1 2 3",
    "a  b   c",
    "ä:ö=ü",
    "#EOS 1",
    "0\t1\t2",
];

pub fn meta(rng: &mut Rng) -> Option<String> {
    if rng.chance(1, 2) {
        Some(rng.pick(META).to_string())
    } else {
        None
    }
}

pub fn sent_id(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => rng.below(10).to_string(),
        1 => rng.below(5_000_000_000).to_string(),
        _ => rng.below(2000).to_string(),
    }
}

/// Abstract tree, the root is VROOT (or a word).
pub fn gen_neg(rng: &mut Rng, n: usize, term_root: bool) -> M {
    let mut o = gen::opt(Kind::Negra, n);
    o.term_root = term_root;
    o.unary = *rng.pick(&[0, 10, 30]);
    let mut m = gen::gen_m(rng, o);
    let root = m.root;
    for (i, n) in m.nodes.iter_mut() {
        if n.term {
            if rng.chance(1, 3) {
                n.feats.insert("morph".into(), Some(rng.pick(&["nsf", "3sis", "asn", "Nom.Sg.Fem", "%", "a=b", "#1", "---", "--x", "x--", "-"]).to_string()));
            }
            if rng.chance(1, 25) {
                let k = rng.range(20, 60);
                n.form = gen::word(rng, k);
            }
        } else if *i == root {
            n.label = "VROOT".into();
            n.feats.remove(ANNOT);
        } else if rng.chance(1, 5) {
            let a = if rng.chance(1, 6) { rng.pick(&["-", "--", "-x", "x-", "a-b", "%", ":"]).to_string() } else { gen::annot(rng, Kind::Negra) };
            n.feats.insert(ANNOT.into(), Some(a));
        }
    }
    m
}

/// Punctuation that means something in other formats or places only.
fn foreign(m: &mut M, rng: &mut Rng) {
    if !rng.chance(1, 3) {
        return;
    }
    let root = m.root;
    for (i, n) in m.nodes.iter_mut() {
        let all = "-:_+~|#%,;()";
        if n.term || *i != root {
            if rng.chance(1, 6) {
                gen::punct(&mut n.label, if n.term { "=-:_+~|#%,;()" } else { all }, rng);
            }
        }
        if n.term && rng.chance(1, 6) {
            gen::punct(&mut n.form, "=-:_+~|#%,;()", rng);
        }
        if let Some(l) = n.lemma.as_mut() {
            if rng.chance(1, 6) {
                gen::punct(l, "=-:_+~|#%,;()", rng);
            }
        }
        for k in &["morph", ANNOT] {
            if rng.chance(1, 6) {
                if let Some(Some(a)) = n.feats.get_mut(*k) {
                    gen::punct(a, all, rng);
                }
            }
        }
        if rng.chance(1, 6) {
            if let Some(mut e) = n.edge.get().map(str::to_string) {
                gen::punct(&mut e, "=-:_+~|#%,;()", rng);
                n.edge = Lab::Is(Some(e));
            }
        }
    }
}

// --- C15 ---------------------------------------------------------------------------------------

fn c15(cx: &mut Cx) -> Res {
    let k = match cx.rng.below(6) {
        0 => cx.rng.range(3, 6),
        1 | 2 => 2,
        _ => 1,
    };
    let mut trees: Vec<(Tree, M)> = Vec::new();
    for _ in 0..k {
        let n = if k > 2 { cx.rng.range(1, 12) } else { gen::size(&mut cx.rng, cx.thorough) };
        let mut m = gen_neg(&mut cx.rng, n, true);
        foreign(&mut m, &mut cx.rng);
        let mut t = match gen::build(&m, &mut cx.rng) {
            Ok((t, _)) => t,
            Err(e) => {
                let mut o = gen::opt(Kind::Negra, n);
                o.sec = false;
                match gen::tree(&mut cx.rng, o) {
                    Ok((t, _, _)) => t,
                    Err(f) => return skip(cx, format!("{}; {}", e, f)),
                }
            }
        };
        if cx.rng.chance(1, 4) {
            if edit_some(&mut t, &mut cx.rng).is_err() || good(&t).is_err() {
                return skip(cx, "edits failed".into());
            }
            for (i, n) in snapshot(&t)?.nodes {
                if n.term && n.label == "NEW" {
                    let f = gen::form(&mut cx.rng, Kind::Negra);
                    t[ix(i)].terminal_mut().unwrap().set_form(f);
                }
            }
            cx.count("edited before writing");
        }
        let root = t.root();
        if !t[root].is_terminal() {
            t[root].set_label("VROOT");
        }
        if cx.rng.chance(2, 3) {
            t[root].features_mut().insert("sentence_id", Some(sent_id(&mut cx.rng)));
        }
        if let Some(x) = meta(&mut cx.rng) {
            t[root].features_mut().insert("metadata", Some(x));
        }
        let m = good(&t).map_err(|e| format!("setup: {}", e))?;
        if m.sec.iter().any(|(_, c, _)| *c == m.root) {
            // the root has no line
            return Ok(());
        }
        trees.push((t, m));
    }
    cx.desc = trees.iter().map(|(_, m)| canon(m, ALL)).collect::<Vec<_>>().join("\n");
    // expected trees
    let mut counter = 0;
    let mut exp = Vec::new();
    for (_, m) in &trees {
        let rf = &m.nodes[&m.root].feats;
        let id = match rf.get("sentence_id") {
            Some(Some(i)) => i.clone(),
            _ => {
                counter += 1;
                (counter - 1).to_string()
            }
        };
        let x = rf.get("metadata").and_then(|v| v.clone());
        if !m.projective() {
            cx.count("discontinuous trees");
        }
        if !m.sec.is_empty() {
            cx.count("trees with secondary edges");
        }
        if m.nodes[&m.root].term {
            cx.count("trees that are a word");
        }
        cx.add("inner nodes", m.nts().len() as u64);
        exp.push(canon(&text::negra_view(m, &id, x.as_ref().map(String::as_str)), ALL));
    }
    let mut out = Vec::new();
    {
        let mut w = NegraWriter::new(&mut out);
        for (t, _) in &trees {
            calm("write_tree", || w.write_tree(t))?.map_err(|e| format!("write_tree: {}", e))?;
        }
    }
    for (t, m) in &trees {
        if let Some(d) = diff(m, &snapshot(t)?) {
            return Err(format!("writing changed the tree: {}", d));
        }
    }
    let txt = String::from_utf8(out).map_err(|_| "output isn't UTF-8".to_string())?;
    cx.step(txt.clone());
    // what the text says
    let sents = text::parse_negra(&txt).map_err(|e| format!("written text: {}\n{}", e, txt))?;
    if sents.len() != exp.len() {
        return Err(format!("{} sentences in the text, {} written", sents.len(), exp.len()));
    }
    for (i, (s, e)) in sents.iter().zip(&exp).enumerate() {
        let c = canon(&s.m, ALL);
        if c != *e {
            return Err(format!("sentence {}: written as\n{}\nexpected\n{}\n{}", i, c, e, txt));
        }
    }
    // and back
    let src = Chunky::new(txt.as_bytes(), &mut cx.rng).buffered(&mut cx.rng);
    let mut r = NegraReader::new(src);
    for (i, e) in exp.iter().enumerate() {
        let t = match calm("read", || r.next())? {
            Some(Ok(t)) => t,
            Some(Err(x)) => return Err(format!("sentence {} can't be read back: {}\n{}", i, x, txt)),
            None => return Err(format!("only {} sentences come back", i)),
        };
        let g = good(&t).map_err(|x| format!("sentence {} read back: {}", i, x))?;
        let c = canon(&g, ALL);
        if c != *e {
            return Err(format!("sentence {}: read back as\n{}\nexpected\n{}", i, c, e));
        }
        cx.count("round trips");
    }
    if calm("read", || r.next())?.is_some() {
        return Err("additional sentence".into());
    }
    if cx.rng.chance(1, 6) {
        cx.count("write errors injected");
        let left = cx.rng.below(txt.len());
        let choking = Choking::new(left, &mut cx.rng);
        let mut w = NegraWriter::new(choking);
        let mut failed = false;
        for (t, _) in &trees {
            if calm("write_tree", || w.write_tree(t))?.is_err() {
                failed = true;
                break;
            }
        }
        if !failed {
            return Err("a write error was swallowed".into());
        }
    }
    cx.nontrivial = true;
    Ok(())
}

// --- C16 ---------------------------------------------------------------------------------------

const NOISE: &[&str] = &[
    "",
    "%% comment",
    "#FORMAT 4",
    "#BOT ORIGIN",
    "0 file.txt",
    "#EOT ORIGIN",
    "text between",
    "#500 -- NP -- HD 0",
    "w w NN -- HD 0",
    "  ",
    "BOS 5",
    "EOS 5",
    "a #BOS 3",
    "(S (NN a))",
];

pub fn noise(s: &mut String, eol: &str, rng: &mut Rng) {
    for _ in 0..rng.below(4) {
        s.push_str(rng.pick(NOISE));
        s.push_str(eol);
    }
}

/// Long runs of lines between sentences, more than any stack has room for.
fn c16_gap(cx: &mut Cx) -> Res {
    let m = gen_neg(&mut cx.rng, 5, false);
    let mut st = NegraStyle::random(&mut cx.rng);
    let (txt, _) = text::negra_with_order(&m, "7", None, &mut st, &mut cx.rng);
    let k = cx.rng.range(1_000_000, 1_200_000);
    let line = *cx.rng.pick(&["\n", "%% x\n", "w\n", "#500\n", " \n\n"]);
    let s = format!("{}{}{}{}", txt, line.repeat(k), txt, line.repeat(k));
    cx.desc = format!("{:?} in front of and behind {} lines {:?}", txt, k, line);
    let e = canon(&text::negra_view(&m, "7", None), ALL);
    let mut r = NegraReader::new(s.as_bytes());
    for i in 0..2 {
        match calm("read", || r.next())? {
            Some(Ok(t)) if canon(&good(&t)?, ALL) == e => (),
            Some(Ok(t)) => return Err(format!("sentence {}: {}", i, canon(&snapshot(&t)?, ALL))),
            Some(Err(x)) => return Err(format!("sentence {}: {}", i, x)),
            None => return Err(format!("stream ends after {} sentences", i)),
        }
    }
    if calm("read", || r.next())?.is_some() {
        return Err("something is delivered after the last sentence".into());
    }
    cx.count("streams with a million lines between sentences");
    cx.nontrivial = true;
    Ok(())
}

fn c16(cx: &mut Cx) -> Res {
    if cx.case % 3000 == 23 {
        return c16_gap(cx);
    }
    let k = cx.rng.range(1, 5);
    let mut s = String::new();
    let mut exp = Vec::new();
    for i in 0..k {
        let mut st = NegraStyle::random(&mut cx.rng);
        if cx.rng.chance(1, 5) {
            st = NegraStyle::random(&mut cx.rng);
        }
        if i == 0 || cx.rng.chance(1, 3) {
            noise(&mut s, st.eol, &mut cx.rng);
        }
        let n = if k > 2 { cx.rng.range(1, 12) } else { gen::size(&mut cx.rng, cx.thorough) };
        let mut m = gen_neg(&mut cx.rng, n, false);
        foreign(&mut m, &mut cx.rng);
        let (id, x) = (sent_id(&mut cx.rng), meta(&mut cx.rng));
        let x = x.as_ref().map(String::as_str);
        let (txt, _) = text::negra_with_order(&m, &id, x, &mut st, &mut cx.rng);
        s.push_str(&txt);
        if !m.projective() {
            cx.count("discontinuous trees");
        }
        if !m.sec.is_empty() {
            cx.count("trees with secondary edges");
        }
        if st.shuffle {
            cx.count("shuffled inner nodes");
        }
        exp.push(canon(&text::negra_view(&m, &id, x), ALL));
    }
    match cx.rng.below(3) {
        0 => {
            while s.ends_with('\n') || s.ends_with('\r') {
                s.pop();
            }
        }
        1 => noise(&mut s, "\n", &mut cx.rng),
        _ => (),
    }
    cx.desc = s.clone();
    let src = Chunky::new(s.as_bytes(), &mut cx.rng).buffered(&mut cx.rng);
    let mut r = NegraReader::new(src);
    for (i, e) in exp.iter().enumerate() {
        let t = match calm("read", || r.next())? {
            Some(Ok(t)) => t,
            Some(Err(x)) => return Err(format!("sentence {}: {}", i, x)),
            None => return Err(format!("only {} of {} sentences", i, k)),
        };
        let g = good(&t).map_err(|x| format!("sentence {}: {}", i, x))?;
        let c = canon(&g, ALL);
        if c != *e {
            return Err(format!("sentence {}: read as\n{}\nexpected\n{}", i, c, e));
        }
        cx.count("sentences delivered");
        cx.add("words", g.n_terms() as u64);
    }
    for _ in 0..2 {
        match calm("read", || r.next())? {
            None => (),
            Some(Ok(_)) => return Err("additional sentence".into()),
            Some(Err(e)) => return Err(format!("error after the last sentence: {}", e)),
        }
    }
    cx.nontrivial = true;
    Ok(())
}

// --- C17 ---------------------------------------------------------------------------------------

/// What the lines of a sentence denote.
enum Den {
    Tree(String),
    Bad(&'static str),
    /// left open by the format
    Open(&'static str),
}

fn number(s: &str) -> Result<usize, bool> {
    // Err(true): open
    if s.is_empty() || !s.chars().all(|c| c.is_ascii_digit()) {
        return Err(s.starts_with('+') && s.len() > 1);
    }
    if s.len() > 1 && s.starts_with('0') {
        return Err(true);
    }
    s.parse().map_err(|_| false)
}

/// Own reading of one sentence: header line, lines, footer line, all trimmed.
fn denote(header: &str, body: &[&str], footer: &str) -> Den {
    let num = |s: &str| number(s);
    macro_rules! num {
        ($s:expr) => {
            match num($s) {
                Ok(n) => n,
                Err(true) => return Den::Open("spelling of a number"),
                Err(false) => return Den::Bad("not a number"),
            }
        };
    }
    let h: Vec<&str> = header.split_whitespace().collect();
    let f: Vec<&str> = footer.split_whitespace().collect();
    if h[0] != "#BOS" || f[0] != "#EOS" {
        return Den::Open("spelling of a marker");
    }
    if header.chars().nth(5).map(char::is_whitespace).unwrap_or(false) {
        return Den::Open("blanks in the header");
    }
    if h.len() < 2 {
        return Den::Bad("header without id");
    }
    if f.len() < 2 {
        return Den::Bad("footer without id");
    }
    num!(h[1]);
    if f.len() > 2 {
        return Den::Open("text after the footer");
    }
    if f[1] != h[1] {
        return Den::Bad("ids differ");
    }
    let after = header[5..].find(char::is_whitespace).map(|i| header[5 + i..].trim().to_string());
    if after.as_ref().map(|x| x.is_empty()) == Some(true) {
        return Den::Open("empty metadata");
    }
    let mut m = M {
        nodes: BTreeMap::new(),
        root: 0,
        sec: Vec::new(),
    };
    m.new_nt(0, "VROOT");
    let mut nums: BTreeMap<usize, Id> = BTreeMap::new();
    nums.insert(0, 0);
    let mut named: BTreeSet<usize> = BTreeSet::new();
    named.insert(0);
    let mut early: Vec<usize> = Vec::new();
    let mut links = Vec::new();
    let mut words = 0;
    let mut nts = false;
    let mut open = None;
    for l in body {
        let t: Vec<&str> = l.split_whitespace().collect();
        if t.is_empty() {
            return Den::Open("blank line in a sentence");
        }
        if t.len() < 6 {
            return Den::Bad("missing field");
        }
        let id = m.nodes.len();
        let mut nd = Nd {
            term: true,
            label: t[2].to_string(),
            form: String::new(),
            lemma: None,
            feats: Feats::new(),
            pos: 0,
            parent: None,
            edge: Lab::Is(if t[4] == "--" { None } else { Some(t[4].to_string()) }),
        };
        if t[0].starts_with('#') {
            if words == 0 {
                return Den::Bad("inner node before words");
            }
            nts = true;
            nd.term = false;
            let n = num!(&t[0][1..]);
            if nums.contains_key(&n) {
                return Den::Bad("duplicate inner node");
            }
            if !named.contains(&n) {
                early.push(n);
            }
            nums.insert(n, id);
            let p: Vec<&str> = t[2].split('=').collect();
            if p.len() > 2 || p.iter().any(|x| x.is_empty()) {
                open = Some("division of a label");
            }
            nd.label = p[0].to_string();
            if p.len() > 1 {
                nd.feats.insert(ANNOT.into(), Some(p[1].to_string()));
            }
        } else {
            if nts {
                return Den::Bad("word after inner node");
            }
            nd.form = t[0].to_string();
            if t[1] != "--" {
                nd.lemma = Some(t[1].to_string());
            }
            if t[3] != "--" {
                nd.feats.insert("morph".into(), Some(t[3].to_string()));
            }
            nd.pos = words;
            words += 1;
        }
        let parent = num!(t[5]);
        named.insert(parent);
        let mut sec = None;
        if t.len() > 6 && !t[6].starts_with('%') {
            if t.len() < 8 {
                return Den::Bad("secondary edge without number");
            }
            sec = Some((t[6].to_string(), num!(t[7])));
            if t.len() > 8 && !t[8].starts_with('%') {
                open = Some("further fields");
            }
        }
        m.nodes.insert(id, nd);
        links.push((id, parent, sec));
    }
    if words == 0 {
        return Den::Bad("no words");
    }
    for e in &early {
        if !links.iter().any(|(_, p, _)| p == e) {
            return Den::Bad("inner node without words");
        }
    }
    for n in nums.keys() {
        if *n != 0 && !named.contains(n) {
            return Den::Bad("inner node without words");
        }
    }
    for (id, p, sec) in links {
        let p = match nums.get(&p) {
            Some(p) => *p,
            None => return Den::Bad("unknown parent"),
        };
        m.nodes.get_mut(&id).unwrap().parent = Some(p);
        if let Some((l, sp)) = sec {
            let sp = match nums.get(&sp) {
                Some(p) => *p,
                None => return Den::Bad("unknown secondary parent"),
            };
            if sp == id {
                open = Some("secondary edge to itself");
            }
            m.sec.push((sp, id, Some(l)));
        }
    }
    for id in m.nodes.keys() {
        if *id != 0 && m.ancestors(*id).last() != Some(&0) {
            return Den::Bad("cycle");
        }
    }
    let cov = m.coverage();
    if cov.values().any(|c| c.is_empty()) {
        return Den::Bad("inner node without words");
    }
    if !early.is_empty() {
        return Den::Open("inner node before its children");
    }
    if let Some(o) = open {
        return Den::Open(o);
    }
    m.sec.sort();
    let id = h[1];
    Den::Tree(canon(
        &text::negra_view(&m, id, after.as_ref().map(String::as_str)),
        ALL,
    ))
}

#[derive(Debug)]
enum Item {
    Must(String),
    Bad(&'static str),
    /// interrupted by, or after an interruption
    May(Option<String>),
}

/// Own framing of a stream of lines (None: not UTF-8). Err: something the format leaves open.
fn frame(lines: &[Option<String>]) -> Result<Vec<Item>, &'static str> {
    let mut items = Vec::new();
    // (start line, damaged)
    let mut cur: Option<(usize, bool)> = None;
    let mut unsure = false;
    for (i, l) in lines.iter().enumerate() {
        let l = match l {
            Some(l) => l.trim(),
            None => {
                // a damaged line ends the sentence it is in
                items.push(Item::Bad("invalid UTF-8"));
                if let Some(c) = &mut cur {
                    c.1 = true;
                } else {
                    // the line could be a marker
                    cur = Some((i, true));
                }
                continue;
            }
        };
        if l.starts_with("#BOS") {
            match cur {
                Some((_, true)) => {
                    unsure = false;
                    cur = Some((i, false));
                }
                Some((_, false)) => {
                    items.push(if unsure { Item::May(None) } else { Item::Bad("interrupted") });
                    unsure = true;
                    cur = Some((i, false));
                }
                None => cur = Some((i, false)),
            }
        } else if l.starts_with("#EOS") {
            match cur.take() {
                None => items.push(Item::Bad("#EOS without #BOS")),
                Some((_, true)) => items.push(Item::May(None)),
                Some((s, false)) => {
                    let body: Vec<&str> = lines[s + 1..i].iter().map(|x| x.as_ref().unwrap().trim()).collect();
                    let d = denote(lines[s].as_ref().unwrap().trim(), &body, l);
                    items.push(match (d, unsure) {
                        (Den::Open(w), _) => return Err(w),
                        (Den::Tree(t), false) => Item::Must(t),
                        (Den::Tree(t), true) => Item::May(Some(t)),
                        (Den::Bad(w), false) => Item::Bad(w),
                        (Den::Bad(_), true) => Item::May(None),
                    });
                    unsure = false;
                }
            }
        }
    }
    match cur {
        Some((_, false)) if !unsure => items.push(Item::Bad("missing #EOS")),
        Some((_, false)) => items.push(Item::May(None)),
        _ => (),
    }
    Ok(items)
}

/// Compare what a reader delivers with the items of the stream.
fn judge(cx: &mut Cx, items: &[Item], results: &[Result<String, String>]) -> Res {
    let mut p = 0;
    let mut errs = 0;
    let check = |errs: usize, from: usize, to: usize, at: usize| -> Res {
        let need: Vec<&str> = items[from..to]
            .iter()
            .filter_map(|i| if let Item::Bad(w) = i { Some(*w) } else { None })
            .collect();
        let may = items[from..to].iter().any(|i| if let Item::May(_) = i { true } else { false });
        // a malformed sentence can lead to several errors, an interruption can swallow one
        if errs < need.len() && !may || need.is_empty() && !may && errs > 0 || !need.is_empty() && errs == 0 {
            return Err(format!("{} errors before result {}, malformed: {:?}", errs, at, need));
        }
        Ok(())
    };
    for (i, r) in results.iter().enumerate() {
        let t = match r {
            Err(_) => {
                errs += 1;
                continue;
            }
            Ok(t) => t,
        };
        let from = p;
        loop {
            match items.get(p) {
                None => return Err(format!("result {}: tree that isn't in the stream: {}", i, t)),
                Some(Item::Must(e)) => {
                    if e != t {
                        return Err(format!("result {}:\n{}\nexpected:\n{}", i, t, e));
                    }
                    break;
                }
                Some(Item::May(Some(e))) if e == t => break,
                Some(_) => p += 1,
            }
        }
        check(errs, from, p, i)?;
        cx.count("sentences delivered");
        errs = 0;
        p += 1;
    }
    for i in &items[p..] {
        if let Item::Must(e) = i {
            return Err(format!("sentence isn't delivered: {}", e));
        }
    }
    check(errs, p, items.len(), results.len())?;
    for i in items {
        if let Item::Bad(w) = i {
            cx.count(&format!("reported: {}", w));
        }
    }
    Ok(())
}

fn collect(src: Chunky, lines: usize, rng: &mut Rng) -> Result<Vec<Result<String, String>>, String> {
    let mut r = NegraReader::new(src.buffered(rng));
    let mut out = Vec::new();
    loop {
        match calm("read", || r.next())? {
            None => break,
            Some(Ok(t)) => out.push(Ok(canon(&good(&t)?, ALL))),
            Some(Err(e)) => out.push(Err(e.to_string())),
        }
        if out.len() > lines + 5 {
            return Err("reading doesn't end".into());
        }
    }
    for _ in 0..2 {
        if calm("read", || r.next())?.is_some() {
            return Err("results after the end of the stream".into());
        }
    }
    Ok(out)
}

fn fields(l: &str) -> Vec<String> {
    l.split_whitespace().map(ToOwned::to_owned).collect()
}

fn join(f: &[String]) -> String {
    f.join(" ")
}

const STRANGE: &[&str] = &["x", "-1", "5a", "1.5", "99999999999999999999999", "#1", "%", "--", "0x5", "٣", "5,"];

/// One malformed sentence: lines without line ends.
fn malform(rng: &mut Rng, lines: &mut Vec<String>) {
    let last = lines.len() - 1;
    let words: Vec<usize> = (1..last).filter(|i| !lines[*i].starts_with('#')).collect();
    let nts: Vec<usize> = (1..last).filter(|i| lines[*i].starts_with('#')).collect();
    let any = *rng.pick(&(1..last).collect::<Vec<_>>());
    match rng.below(21) {
        0 | 1 => {
            let mut f = fields(&lines[any]);
            let k = rng.range(1, 5);
            f.truncate(k);
            lines[any] = join(&f);
        }
        2 => {
            let mut f = fields(&lines[any]);
            f[5] = rng.pick(STRANGE).to_string();
            lines[any] = join(&f);
        }
        3 if !nts.is_empty() => {
            let k = *rng.pick(&nts);
            let mut f = fields(&lines[k]);
            f[0] = format!("#{}", rng.pick(STRANGE));
            lines[k] = join(&f);
        }
        4 => {
            // unknown parent
            let mut f = fields(&lines[any]);
            f[5] = rng.pick(&["7", "3000001", "31"]).to_string();
            lines[any] = join(&f);
        }
        5 | 6 if !nts.is_empty() => {
            let k = *rng.pick(&nts);
            lines.remove(k);
        }
        7 if !nts.is_empty() => {
            let k = *rng.pick(&nts);
            let l = lines[k].clone();
            let at = rng.range(nts[0], last);
            lines.insert(at, l);
        }
        8 | 9 | 10 if !nts.is_empty() => {
            // some other node or itself becomes the parent
            let k = *rng.pick(&nts);
            let o = *rng.pick(&nts);
            let mut f = fields(&lines[k]);
            f[5] = fields(&lines[o])[0][1..].to_string();
            lines[k] = join(&f);
        }
        11 => {
            let keep: Vec<String> = (0..=last).filter(|i| !words.contains(i)).map(|i| lines[i].clone()).collect();
            *lines = keep;
        }
        12 if !nts.is_empty() => {
            let w = *rng.pick(&words);
            let l = lines.remove(w);
            let at = rng.range(nts[0], last - 1);
            lines.insert(at, l);
        }
        13 => {
            let mut f = fields(&lines[any]);
            f.truncate(6);
            f.push("HD".into());
            if rng.chance(3, 4) {
                f.push(rng.pick(&["77777777", "x", "-5", "29", "%%"]).to_string());
            }
            lines[any] = join(&f);
        }
        14 => {
            let mut f = fields(&lines[last]);
            match rng.below(6) {
                0 => f.truncate(1),
                1 => f[1] = format!("{}1", f[1]),
                2 => f[1] = format!("1{}", f[1]),
                3 if f[1].len() > 1 => {
                    f[1].pop();
                }
                4 if f[1].len() > 1 => f[1] = f[1][1..].trim_start_matches('0').to_string() + "0",
                _ => f[1] = rng.below(2000).to_string(),
            }
            lines[last] = join(&f);
        }
        15 => {
            lines[0] = rng.pick(&["#BOS", "#BOS x", "#BOS -1", "#BOS 5x 3", "#BOS 99999999999999999999999"]).to_string();
        }
        16 => {
            lines.remove(0);
        }
        17 => {
            lines.remove(last);
        }
        18 => lines.insert(rng.range(words.len() + 1, last), "#0 -- VROOT -- -- 0".into()),
        19 => {
            // inner node without words
            lines.insert(
                rng.range(words.len() + 1, last),
                format!("#4000000 -- NP -- HD {}", fields(&lines[any])[5]),
            );
        }
        _ => {
            // marker in the middle
            let l = match rng.below(5) {
                0 => format!("#EOS {}", fields(&lines[0])[1]),
                1 => format!("#BOS {}", fields(&lines[0])[1]),
                2 => "#BOS".into(),
                3 => "#EOS".into(),
                _ => rng.pick(&["#BOS 17", "#EOS 17"]).to_string(),
            };
            lines.insert(rng.range(1, last), l);
        }
    }
}

/// Undirected mutations of the lines.
fn scramble(rng: &mut Rng, lines: &mut Vec<String>) {
    for _ in 0..rng.range(1, 3) {
        if lines.len() < 2 {
            return;
        }
        let a = rng.below(lines.len());
        let b = rng.below(lines.len());
        match rng.below(7) {
            0 => {
                lines.remove(a);
            }
            1 => {
                let l = lines[a].clone();
                lines.insert(b, l);
            }
            2 => lines.swap(a, b),
            3 => {
                let mut f = fields(&lines[a]);
                if f.len() > 1 {
                    f.remove(rng.range(1, f.len() - 1));
                }
                lines[a] = join(&f);
            }
            4 => {
                let g = fields(&lines[b]);
                let mut f = fields(&lines[a]);
                if !f.is_empty() && !g.is_empty() {
                    let k = rng.below(f.len());
                    let j = if rng.chance(2, 3) { k.min(g.len() - 1) } else { rng.below(g.len()) };
                    f[k] = g[j].clone();
                }
                lines[a] = join(&f);
            }
            5 => {
                let mut f = fields(&lines[a]);
                if f.len() > 1 {
                    let k = rng.range(1, f.len());
                    f.insert(k, rng.pick(STRANGE).to_string());
                }
                lines[a] = join(&f);
            }
            _ => {
                let mut f = fields(&lines[a]);
                if f.len() > 5 && !lines[a].starts_with("#BOS") {
                    f[5] = rng.pick(&["0", "500", "501", "502", "499"]).to_string();
                }
                lines[a] = join(&f);
            }
        }
    }
}

fn c17(cx: &mut Cx) -> Res {
    let k = cx.rng.range(1, 6);
    let mode = cx.rng.below(10);
    let base = *cx.rng.pick(&[1, 8, 97, 1050, 4_000_000_000u64]);
    let mut lines: Vec<String> = Vec::new();
    let mut ends = Vec::new();
    let mut styles = Vec::new();
    for i in 0..k {
        let n = cx.rng.range(1, 9);
        let mut m = gen_neg(&mut cx.rng, n, false);
        if cx.rng.chance(1, 2) {
            m.sec.clear();
        }
        let mut st = NegraStyle::random(&mut cx.rng);
        st.eol = "";
        st.comments = st.comments && cx.rng.chance(1, 2);
        let x = meta(&mut cx.rng).filter(|x| !x.contains("  "));
        let (mut l, _) = text::negra_lines(&m, &format!("{}", base + i as u64), x.as_ref().map(String::as_str), &st, &mut cx.rng);
        if mode < 5 && cx.rng.chance(2, 5) {
            malform(&mut cx.rng, &mut l);
        }
        lines.extend(l);
        if cx.rng.chance(1, 3) {
            lines.push(cx.rng.pick(NOISE).to_string());
        }
        ends.push(lines.len());
        styles.push(st);
    }
    if mode >= 5 && mode < 8 {
        scramble(&mut cx.rng, &mut lines);
    }
    let mut raw: Vec<Option<String>> = lines.iter().cloned().map(Some).collect();
    let mut bytes = Vec::new();
    let mut damaged = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        let mut b = l.clone().into_bytes();
        if mode == 8 && cx.rng.chance(1, 12) {
            let at = cx.rng.below(b.len() + 1);
            b.insert(at, 0xff);
            if String::from_utf8(b.clone()).is_err() {
                raw[i] = None;
                damaged.push(i);
            }
        }
        bytes.extend_from_slice(&b);
        bytes.push(b'\n');
    }
    let n_lines = lines.len();
    cx.desc = format!("{}{:?}", lines.join("\n"), damaged);
    let mut src_rng = Rng::new(cx.rng.next());
    if mode == 9 {
        // a read error: everything complete before it is delivered, then there is an error
        let at = cx.rng.below(bytes.len() + 1);
        let done = bytes[..at].iter().filter(|b| **b == b'\n').count();
        let mut items = frame(&raw[..done]).unwrap_or_default();
        match items.last() {
            // the sentence is cut off
            Some(Item::Bad(_)) => (),
            _ => items.push(Item::Bad("read error")),
        }
        cx.desc.push_str(&format!(" read error at {}", at));
        cx.step(format!("{:?}", items));
        let mut src = Chunky::new(bytes, &mut src_rng);
        src.fail_at = Some(at);
        let res = collect(src, n_lines, &mut src_rng)?;
        cx.nontrivial = true;
        cx.count("read errors injected");
        return judge(cx, &items, &res);
    }
    let items = match frame(&raw) {
        Ok(i) => i,
        Err(w) => {
            // still no panic and an end
            collect(Chunky::new(bytes, &mut src_rng), n_lines, &mut src_rng)?;
            cx.count(&format!("left open: {}", w));
            return Ok(());
        }
    };
    cx.step(format!("{:?}", items));
    let res = collect(Chunky::new(bytes, &mut src_rng), n_lines, &mut src_rng)?;
    cx.step(format!("{:?}", res));
    if items.iter().any(|i| if let Item::Bad(_) = i { true } else { false }) {
        cx.count("streams with malformed sentences");
    }
    cx.nontrivial = true;
    judge(cx, &items, &res)
}

pub static CHECKS: &[&Check] = &[
    &Check {
        id: "C15",
        rule: "a case counts if the written text was parsed by an independent parser and read back, both compared with the tree; distinct by trees",
        quick: 40_000,
        thorough: 1_500_000,
        threads: 8,
        min_judged: 60,
        run: c15,
        assumptions: &[
            "fields are free of whitespace, words don't start with '#', at most one secondary edge per node, from an inner node",
            "the root's label is VROOT, its other annotations are not part of the format",
        ],
    },
    &Check {
        id: "C16",
        rule: "a case counts if all sentences of an export file in a random layout were delivered and compared; distinct by text",
        quick: 40_000,
        thorough: 1_500_000,
        threads: 8,
        min_judged: 60,
        run: c16,
        assumptions: &["one blank or tab between #BOS, the sentence id and the metadata"],
    },
    &Check {
        id: "C17",
        rule: "a case counts if the results for a stream with malformed sentences or faults were compared with an independent reading of its lines; distinct by stream",
        quick: 80_000,
        thorough: 3_000_000,
        threads: 8,
        min_judged: 60,
        run: c17,
        assumptions: &["blank lines in a sentence, numbers with sign or leading zeros, inner nodes before their children are left open (no panic, reading ends)"],
    },
];
