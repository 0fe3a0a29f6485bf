//! C26, C27: the conversion program, run as a process.

use std::collections::{BTreeMap, BTreeSet};
use std::fs::{self, File};
use std::io::{BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use conllx::io::{ReadSentence, Reader};
use lumberjack::io::{Decode, PTBLineFormat, PTBReader, TryFromConllx};
use lumberjack::{NegraReader, Projectivize, Tree};

use crate::c_brk;
use crate::c_enc::{self, abs_texts, labels, rel_texts, with_chain, without_dummies};
use crate::c_neg;
use crate::c_ops::collapsed;
use crate::gen::{self, Kind};
use crate::h::*;
use crate::model::*;
use crate::rng::Rng;
use crate::text::{self, Fmt, NegraStyle, ANNOT, FMTS};

pub fn program() -> PathBuf {
    match std::env::var("VERIF_CLI") {
        Ok(p) => PathBuf::from(p),
        Err(_) => verif_dir().join("target/cli/debug/lumberjack-conversion"),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum In {
    Brk(Fmt),
    Negra,
    Abs,
    Rel,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    Brk(Fmt),
    Negra,
    Conllx,
    Abs,
    Rel,
}

impl In {
    pub fn arg(self) -> &'static str {
        match self {
            In::Brk(f) => f.cli(),
            In::Negra => "negra",
            In::Abs => "absolute",
            In::Rel => "relative",
        }
    }
}

impl Out {
    pub fn arg(self) -> &'static str {
        match self {
            Out::Brk(f) => f.cli(),
            Out::Negra => "negra",
            Out::Conllx => "conllx",
            Out::Abs => "absolute",
            Out::Rel => "relative",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Conf {
    pub input: In,
    pub output: Out,
    pub multi: bool,
    pub remove_dummies: bool,
    pub projectivize: bool,
    pub sec_edges: bool,
    pub reattach: Option<String>,
    pub ids: Option<BTreeSet<String>>,
    pub id_feature: Option<String>,
    pub filter: Option<BTreeSet<String>>,
    pub insertion: Option<BTreeSet<String>>,
    pub insertion_label: Option<String>,
    pub parent: Option<String>,
    pub pos: bool,
}

#[derive(Clone)]
pub struct Sentence {
    pub text: Vec<u8>,
    /// what the text says
    pub m: M,
    pub tags: Option<Vec<String>>,
    /// made malformed
    pub broken: bool,
}

// --- input -------------------------------------------------------------------------------------

/// Keep characters that mean something in the output format out of the tree.
fn tame(m: &mut M, input: In, output: Out) {
    let same = match (input, output) {
        (In::Brk(a), Out::Brk(b)) => a == b,
        (In::Negra, Out::Negra) => true,
        _ => false,
    };
    for n in m.nodes.values_mut() {
        if !n.term && n.label == "--" {
            n.label = "pp".into();
        }
        if !n.term && !same {
            n.label = n.label.replace(|c| "()+~|:_=".contains(c), "p");
            if let Some(Some(a)) = n.feats.get_mut(ANNOT) {
                *a = a.replace(|c| "()+~|:_=".contains(c), "p");
            }
        }
        if n.term {
            n.form = n.form.replace('\u{a0}', "p");
            if n.form.starts_with('#') {
                n.form = format!("p{}", n.form);
            }
        }
    }
}

pub fn rows(words: &[(String, String)], feats: &[Option<String>], rng: &mut Rng) -> String {
    let mut s = String::new();
    for (i, ((form, pos), f)) in words.iter().zip(feats).enumerate() {
        let lemma = if rng.chance(1, 2) { "_" } else { "l" };
        let dep = if rng.chance(1, 4) { "0\troot" } else { "_\t_" };
        s.push_str(&format!(
            "{}\t{}\t{}\t_\t{}\t{}\t{}\t_\t_\n",
            i + 1,
            form,
            lemma,
            pos,
            f.as_ref().map(String::as_str).unwrap_or("_"),
            dep
        ));
    }
    s.push('\n');
    s
}

/// Read the text of one sentence alone, in this process.
pub fn read_alone(text: &[u8], input: In, multi: bool) -> Result<Tree, String> {
    let r = guard(|| -> Result<Tree, String> {
        match input {
            In::Brk(f) => {
                let l = if multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
                match PTBReader::new(text, f.lib(), l).next() {
                    Some(Ok(t)) => Ok(t),
                    _ => Err("no tree".into()),
                }
            }
            In::Negra => match NegraReader::new(text).next() {
                Some(Ok(t)) => Ok(t),
                _ => Err("no tree".into()),
            },
            In::Abs | In::Rel => {
                let s = match Reader::new(BufReader::new(text)).read_sentence() {
                    Ok(Some(s)) => s,
                    _ => return Err("no sentence".into()),
                };
                let t = if input == In::Abs {
                    Tree::try_from_conllx_with_absolute_encoding(&s)
                } else {
                    Tree::try_from_conllx_with_relative_encoding(&s)
                };
                t.map_err(|e| e.to_string())
            }
        }
    });
    r.and_then(|r| r)
}

pub struct Bad<'a>(pub &'a str);

/// A sentence of the input format. `bad`: make it malformed.
pub fn sentence(conf: &Conf, rng: &mut Rng, size: usize, bad: Option<Bad>) -> Result<Sentence, String> {
    let mut broken = false;
    let (text, m) = match conf.input {
        In::Brk(f) => {
            let mut m = c_brk::gen_for(f, size, 0, rng, true);
            tame(&mut m, conf.input, conf.output);
            dummies(conf, &mut m, rng);
            let mut s = String::new();
            if rng.chance(1, 8) {
                s.push_str("%% comment\n");
            }
            let mut toks = text::tokens(&m, f);
            let mut keep = String::new();
            let mut lines = false;
            if let Some(Bad(kind)) = bad {
                broken = true;
                match kind {
                    // a tree over two lines, read one tree per line
                    "other" if !conf.multi && rng.chance(1, 2) => lines = true,
                    "open" => {
                        toks.pop();
                    }
                    "close" => keep.push(')'),
                    "label" => {
                        toks.insert(0, "(".into());
                        keep.push(')');
                    }
                    _ => {
                        let at = toks.len() - 1;
                        toks.insert(at, ")".into());
                        toks.insert(at, "(".into());
                    }
                }
            }
            let mut l = c_brk::layout(&toks, conf.multi, "\n", rng);
            if !keep.is_empty() {
                l = l.trim_end().to_string();
                l.push_str(&keep);
            }
            if lines {
                l = l.trim().to_string();
                let opens: Vec<usize> = l.match_indices('(').map(|(i, _)| i).skip(1).collect();
                if opens.is_empty() {
                    return Err("a word on its own".into());
                }
                let at = *rng.pick(&opens);
                l.insert(at, '\n');
            }
            s.push_str(&l);
            s.push('\n');
            if broken && !lines && text::parse_brackets(&toks.concat()).is_some() && keep.is_empty() {
                return Err("malformed text is well-formed".into());
            }
            let mut m = text::restrict(&m, f);
            number(&mut m);
            (s, m)
        }
        In::Negra => {
            let mut m = c_neg::gen_neg(rng, size, false);
            tame(&mut m, conf.input, conf.output);
            dummies(conf, &mut m, rng);
            let st = if bad.is_some() { NegraStyle::plain() } else { NegraStyle::random(rng) };
            let (id, x) = (c_neg::sent_id(rng), c_neg::meta(rng));
            let x = x.as_ref().map(String::as_str);
            let (mut lines, _) = text::negra_lines(&m, &id, x, &st, rng);
            if let Some(Bad(kind)) = bad {
                broken = true;
                let at = 1 + rng.below(lines.len() - 2);
                match kind {
                    "open" => {
                        lines.pop();
                    }
                    "close" => lines[at] = "w w NN\n".into(),
                    "label" => {
                        let l = lines[at].split_whitespace().next().unwrap().to_string();
                        lines[at] = format!("{} -- X -- HD 99999999\n", l);
                    }
                    _ => {
                        let l = lines[at].split_whitespace().next().unwrap().to_string();
                        lines[at] = format!("{} -- X -- HD x\n", l);
                    }
                }
            }
            let mut s = String::new();
            if rng.chance(1, 4) {
                c_neg::noise(&mut s, st.eol, rng);
            }
            s.push_str(&lines.concat());
            let mut m = text::negra_view(&m, &id, x);
            number(&mut m);
            (s, m)
        }
        In::Abs | In::Rel => {
            let key = if conf.input == In::Abs { "abs_ancestor" } else { "rel_ancestor" };
            let (words, mut texts, m) = if rng.chance(3, 5) {
                let mut o = gen::opt(Kind::Enc, size);
                o.disc = 0;
                o.sec = false;
                o.edges = false;
                o.lemmas = false;
                o.t_feats = false;
                o.nt_feats = false;
                o.unary = *rng.pick(&[0, 10, 25]);
                let mut m = gen::gen_m(rng, o);
                tame(&mut m, conf.input, conf.output);
                for n in m.nodes.values_mut() {
                    n.label = if n.term { n.label.clone() } else { n.label.replace('_', "p") };
                }
                number(&mut m);
                let c = collapsed(&m, "_");
                let l = labels(&c);
                let t = if conf.input == In::Abs { abs_texts(&l) } else { rel_texts(&l) };
                let words: Vec<(String, String)> = m
                    .sentence()
                    .iter()
                    .map(|w| (m.nodes[w].form.clone(), m.nodes[w].label.clone()))
                    .collect();
                (words, with_chain(&t, &l), Some(m))
            } else {
                let seq = c_enc::random_labels(rng, size, false);
                let mut prev = 0i64;
                let t: Vec<String> = seq
                    .iter()
                    .map(|l| {
                        let a = match &l.lca {
                            None => "NONE".to_string(),
                            Some((s, n)) => {
                                let s = s.replace('=', "p");
                                if conf.input == In::Abs {
                                    format!("{}+{}", s, n)
                                } else {
                                    let d = *n as i64 - prev;
                                    prev = *n as i64;
                                    format!("{}+{}", s, d)
                                }
                            }
                        };
                        match &l.chain {
                            Some(c) => format!("{}~{}", a, c.replace('=', "p")),
                            None => a,
                        }
                    })
                    .collect();
                let words = (0..size)
                    .map(|i| (format!("{}{}", gen::word(rng, 4), i), gen::pos(rng, Kind::Simple)))
                    .collect();
                (words, t, None)
            };
            if let Some(Bad(kind)) = bad {
                broken = true;
                let at = rng.below(texts.len());
                texts[at] = match kind {
                    "open" => "\u{1}".into(),
                    "close" => "\u{2}".into(),
                    _ => rng
                        .pick(if conf.input == In::Abs { c_enc::BAD_ABS } else { c_enc::BAD_REL })
                        .to_string(),
                };
            }
            let feats: Vec<Option<String>> = texts
                .iter()
                .map(|t| {
                    if t == "\u{1}" {
                        None
                    } else if t == "\u{2}" {
                        Some(key.to_string())
                    } else if rng.chance(1, 3) {
                        Some(format!("a:b|{}:{}", key, t))
                    } else {
                        Some(format!("{}:{}", key, t))
                    }
                })
                .collect();
            let s = rows(&words, &feats, rng);
            let m = match m {
                Some(m) => m,
                None if broken => M {
                    nodes: BTreeMap::new(),
                    root: 0,
                    sec: Vec::new(),
                },
                None => snapshot(&read_alone(s.as_bytes(), conf.input, conf.multi)?)?,
            };
            (s, m)
        }
    };
    Ok(Sentence {
        text: text.into_bytes(),
        m,
        tags: None,
        broken,
    })
}

/// No-op marker for models built by the generators: ids are already unique.
fn number(_: &mut M) {}

fn dummies(conf: &Conf, m: &mut M, rng: &mut Rng) {
    if !conf.remove_dummies || !rng.chance(2, 3) {
        return;
    }
    let root = m.root;
    let p = rng.range(1, 6) as u64;
    for id in m.nts() {
        if rng.chance(p, 10) && !(conf.input == In::Negra && id == root) {
            m.nodes.get_mut(&id).unwrap().label = rng.pick(&["DUMMY", "DUMMY", "DUMMY", "DUMMYX", "dummy"]).to_string();
        }
    }
}

// --- expected result ---------------------------------------------------------------------------

const ID: &str = "\u{1}id of ";

pub enum Step {
    Done(M),
    /// the sentence has to be refused
    Refused(&'static str),
    /// the step can't be predicted because the library fails on the sentence alone
    Unknown(String),
}

fn fresh(m: &M) -> Id {
    m.nodes.keys().max().unwrap() + 1
}

pub fn apply(conf: &Conf, s: &Sentence) -> Step {
    if s.broken {
        return Step::Refused("malformed");
    }
    let mut m = s.m.clone();
    if conf.remove_dummies {
        m = without_dummies(&m);
    }
    if conf.projectivize && !m.projective() {
        // the order in which siblings are treated is open: ask the library, sentence by itself
        let t = read_alone(&s.text, conf.input, conf.multi).and_then(|mut t| {
            let d = conf.remove_dummies;
            guard(move || -> Result<(Tree, Vec<_>), String> {
                if d {
                    t.remove_dummy_nodes().map_err(|e| e.to_string())?;
                }
                let before = t.clone();
                let moves = t.projectivize().ok_or("no moves")?;
                let moves = moves
                    .into_iter()
                    .map(|(p, e, c)| (p.index(), c.index(), e.label().map(ToOwned::to_owned)))
                    .collect::<Vec<_>>();
                let _ = before;
                Ok((t, moves))
            })
            .and_then(|r| r)
        });
        let (t, moves) = match t {
            Ok(x) => x,
            Err(e) => return Step::Unknown(e),
        };
        m = match snapshot(&t) {
            Ok(m) => m,
            Err(e) => return Step::Unknown(e),
        };
        if !m.projective() {
            return Step::Unknown("library doesn't projectivize".into());
        }
        if conf.sec_edges {
            for (p, c, l) in moves {
                let l = match l {
                    Some(l) => format!("np_{}", l),
                    None => "np".to_string(),
                };
                m.sec.push((p, c, Some(l)));
            }
            m.sec.sort();
        }
    }
    if let Some(tags) = &s.tags {
        let ws = m.sentence();
        if ws.len() != tags.len() {
            return Step::Refused("number of tags");
        }
        for (w, t) in ws.into_iter().zip(tags) {
            m.nodes.get_mut(&w).unwrap().label = t.clone();
        }
    } else if conf.pos {
        return Step::Refused("no tags");
    }
    if let Some(p) = &conf.reattach {
        let root = m.root;
        if !m.nodes[&root].term {
            let hit: Vec<Id> =
                m.terms().into_iter().filter(|t| m.nodes[t].label.starts_with(p.as_str())).collect();
            let mut keep = BTreeSet::new();
            keep.insert(root);
            for t in m.terms() {
                if !hit.contains(&t) {
                    keep.extend(m.ancestors(t));
                }
            }
            for t in hit {
                let n = m.nodes.get_mut(&t).unwrap();
                if n.parent != Some(root) {
                    n.parent = Some(root);
                    n.edge = Lab::Is(None);
                } else {
                    n.edge = Lab::Any;
                }
            }
            for n in m.nts() {
                if !keep.contains(&n) {
                    m.drop_node(n);
                }
            }
        }
    }
    if let Some(set) = &conf.ids {
        let f = conf.id_feature.clone().unwrap_or_else(|| "id".into());
        for w in m.terms() {
            let a = m
                .ancestors(w)
                .into_iter()
                .find(|a| *a == m.root || set.contains(&m.nodes[a].label));
            if let Some(a) = a {
                m.nodes.get_mut(&w).unwrap().feats.insert(f.clone(), Some(format!("{}{}", ID, a)));
            }
        }
    }
    if let Some(set) = &conf.filter {
        for id in m.nts() {
            if id == m.root || set.contains(&m.nodes[&id].label) {
                continue;
            }
            let p = m.nodes[&id].parent;
            for c in m.kids(id) {
                let c = m.nodes.get_mut(&c).unwrap();
                c.parent = p;
                c.edge = Lab::Is(None);
            }
            m.drop_node(id);
        }
    }
    if let Some(set) = &conf.insertion {
        if m.nodes[&m.root].term {
            return Step::Refused("a word without parent");
        }
        let l = conf.insertion_label.clone().unwrap_or_else(|| "UNK".into());
        for p in m.nts() {
            if set.contains(&m.nodes[&p].label) {
                continue;
            }
            let mut ws: Vec<Id> = m.kids(p).into_iter().filter(|k| m.nodes[k].term).collect();
            ws.sort_by_key(|w| m.nodes[w].pos);
            let mut cur: Option<(Id, usize)> = None;
            for w in ws {
                let at = m.nodes[&w].pos;
                let new = match cur {
                    Some((n, last)) if last + 1 == at => n,
                    _ => {
                        let n = fresh(&m);
                        m.new_nt(n, &l);
                        let x = m.nodes.get_mut(&n).unwrap();
                        x.parent = Some(p);
                        x.edge = Lab::Any;
                        n
                    }
                };
                cur = Some((new, at));
                let x = m.nodes.get_mut(&w).unwrap();
                x.parent = Some(new);
                x.edge = Lab::Any;
            }
        }
    }
    if let Some(f) = &conf.parent {
        if m.nodes[&m.root].term {
            return Step::Refused("a word without parent");
        }
        for w in m.terms() {
            let l = m.nodes[&m.nodes[&w].parent.unwrap()].label.clone();
            m.nodes.get_mut(&w).unwrap().feats.insert(f.clone(), Some(l));
        }
    }
    match conf.output {
        Out::Conllx | Out::Negra => (),
        _ if !m.projective() => return Step::Refused("discontinuous"),
        Out::Brk(_) => (),
        Out::Abs | Out::Rel => {
            m = collapsed(&m, "_");
            let l = labels(&m);
            let (key, t) = if conf.output == Out::Abs {
                ("abs_ancestor", abs_texts(&l))
            } else {
                ("rel_ancestor", rel_texts(&l))
            };
            for (w, t) in m.sentence().into_iter().zip(with_chain(&t, &l)) {
                m.nodes.get_mut(&w).unwrap().feats.insert(key.into(), Some(t));
            }
        }
    }
    Step::Done(m)
}

/// Take what is left open from the observed tree; None if the trees have different shapes.
fn settle(exp: &M, got: &M, edge: impl Fn(&M, Id) -> Option<String>) -> Option<M> {
    let (a, b) = (exp.preorder(), got.preorder());
    if a.len() != b.len() || a.len() != exp.nodes.len() {
        return None;
    }
    let mut e = exp.clone();
    for (x, y) in a.iter().zip(&b) {
        let n = e.nodes.get_mut(x).unwrap();
        if n.edge == Lab::Any {
            n.edge = Lab::Is(edge(got, *y));
        }
    }
    // one secondary edge per node
    let back: BTreeMap<Id, Id> = a.iter().cloned().zip(b.iter().cloned()).collect();
    let mut by: BTreeMap<Id, Vec<(Id, Id, Option<String>)>> = BTreeMap::new();
    for s in &e.sec {
        by.entry(s.1).or_default().push(s.clone());
    }
    e.sec = by
        .into_iter()
        .map(|(_, v)| {
            v.iter()
                .find(|(p, c, l)| {
                    got.sec.iter().any(|(gp, gc, gl)| back.get(p) == Some(gp) && back.get(c) == Some(gc) && l == gl)
                })
                .unwrap_or(&v[0])
                .clone()
        })
        .collect();
    e.sec.sort();
    Some(e)
}

/// Compare the written text with the expected trees.
pub fn judge(out: &[u8], conf: &Conf, exps: &[M]) -> Res {
    let txt = std::str::from_utf8(out).map_err(|_| "output isn't UTF-8".to_string())?;
    let count = |n: usize| -> Res {
        if n != exps.len() {
            return Err(format!("{} sentences written, expected {}\n{}", n, exps.len(), txt));
        }
        Ok(())
    };
    match conf.output {
        Out::Brk(f) => {
            if !txt.is_empty() && !txt.ends_with('\n') {
                return Err(format!("output doesn't end with a line break: {}", txt));
            }
            let lines: Vec<&str> = txt.lines().collect();
            count(lines.len())?;
            for (i, (l, m)) in lines.iter().zip(exps).enumerate() {
                let got = text::parse_brackets(l);
                let e = got.and_then(|g| {
                    settle(m, &g, |g, y| {
                        let l = &g.nodes[&y].label;
                        match l.rfind(':') {
                            Some(i) if &l[i + 1..] != "--" => Some(l[i + 1..].to_string()),
                            _ => None,
                        }
                    })
                });
                let e = e.unwrap_or_else(|| m.clone());
                let want = text::bracket(&e, f);
                if *l != want {
                    return Err(format!("sentence {}: written\n{}\nexpected\n{}", i, l, want));
                }
            }
        }
        Out::Negra => {
            let sents = text::parse_negra(txt).map_err(|e| format!("{}\n{}", e, txt))?;
            count(sents.len())?;
            let mut counter = 0;
            for (i, (s, m)) in sents.iter().zip(exps).enumerate() {
                let rf = &m.nodes[&m.root].feats;
                let id = match rf.get("sentence_id") {
                    Some(Some(i)) => i.clone(),
                    _ => {
                        counter += 1;
                        (counter - 1).to_string()
                    }
                };
                let x = rf.get("metadata").and_then(|v| v.clone());
                let v = text::negra_view(m, &id, x.as_ref().map(String::as_str));
                let e = settle(&v, &s.m, |g, y| g.nodes[&y].edge.get().map(ToOwned::to_owned)).unwrap_or(v);
                let (a, b) = (canon(&s.m, ALL), canon(&e, ALL));
                if a != b {
                    return Err(format!("sentence {}: written\n{}\nexpected\n{}\n{}", i, a, b, txt));
                }
            }
        }
        Out::Conllx | Out::Abs | Out::Rel => {
            let sents = text::parse_conllx(txt).map_err(|e| format!("{}\n{}", e, txt))?;
            count(sents.len())?;
            for (i, (r, m)) in sents.iter().zip(exps).enumerate() {
                let mut e = m.clone();
                let mut ids: BTreeMap<String, String> = BTreeMap::new();
                for (w, row) in m.sentence().iter().zip(r) {
                    let f = text::parse_feats(&row.feats);
                    for (k, v) in e.nodes.get_mut(w).unwrap().feats.iter_mut() {
                        if let Some(x) = v.clone().filter(|v| v.starts_with(ID)) {
                            let g = f.get(k).and_then(|v| v.clone());
                            let g = g.ok_or_else(|| format!("sentence {}: word without id: {:?}", i, row.feats))?;
                            if let Some(o) = ids.insert(x.clone(), g.clone()) {
                                if o != g {
                                    return Err(format!("sentence {}: a node has the ids {} and {}", i, o, g));
                                }
                            }
                            *v = Some(g);
                        }
                    }
                }
                let vals: BTreeSet<&String> = ids.values().collect();
                if vals.len() != ids.len() {
                    return Err(format!("sentence {}: nodes share an id: {:?}", i, ids));
                }
                text::conllx_diff(&e, r).map_err(|x| format!("sentence {}: {}\n{}", i, x, txt))?;
            }
        }
    }
    Ok(())
}

// --- running the program -----------------------------------------------------------------------

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(id: &str, case: u64) -> Scratch {
        let p = out_dir().join(format!("{}-{}-{}", id, std::process::id(), case));
        let _ = fs::create_dir_all(&p);
        Scratch(p)
    }
    pub fn file(&self, name: &str, content: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        if let Err(e) = fs::write(&p, content) {
            panic!("{}", harness(e));
        }
        p
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub enum Stdin {
    None,
    File(PathBuf),
    /// pieces written one by one
    Pipe(Vec<u8>, u64),
}

pub struct Ended {
    pub code: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

/// Run the program; stdout: None captures.
pub fn run(dir: &Path, args: &[String], stdin: Stdin, stdout: Option<Stdio>) -> Result<Ended, String> {
    let so = dir.join("stdout");
    let se = dir.join("stderr");
    let capture = stdout.is_none();
    let mut c = Command::new(program());
    c.args(args).current_dir(dir);
    c.stdout(match stdout {
        Some(s) => s,
        None => Stdio::from(File::create(&so).map_err(harness)?),
    });
    c.stderr(Stdio::from(File::create(&se).map_err(harness)?));
    c.stdin(match &stdin {
        Stdin::None => Stdio::null(),
        Stdin::File(p) => Stdio::from(File::open(p).map_err(harness)?),
        Stdin::Pipe(..) => Stdio::piped(),
    });
    let mut child = c.spawn().map_err(|e| harness(format!("can't start the program: {}", e)))?;
    drop(c);
    let feeder = match stdin {
        Stdin::Pipe(data, seed) => {
            let mut pipe = child.stdin.take().expect("stdin");
            Some(std::thread::spawn(move || {
                let mut rng = Rng::new(seed);
                let mut at = 0;
                let max = *rng.pick(&[1, 7, 50, 5000]);
                let mut pauses = 0;
                while at < data.len() {
                    let n = (1 + rng.below(max)).min(data.len() - at);
                    if pipe.write_all(&data[at..at + n]).is_err() {
                        return;
                    }
                    at += n;
                    if pauses < 5 && rng.chance(1, 4) {
                        pauses += 1;
                        std::thread::sleep(Duration::from_micros(300));
                    }
                }
            }))
        }
        _ => None,
    };
    let start = Instant::now();
    let status = loop {
        match child.try_wait().map_err(harness)? {
            Some(s) => break s,
            None => {
                let wall = start.elapsed();
                if wall > Duration::from_secs(20) {
                    // judged by the work done, not by the clock
                    let cpu = cpu_ms(&format!("/proc/{}/stat", child.id())).unwrap_or(0);
                    if cpu > 40_000 || wall > Duration::from_secs(400) {
                        let _ = child.kill();
                        let _ = child.wait();
                        return Err(if cpu > 40_000 {
                            format!("the program doesn't end: {} ms of CPU time used so far", cpu)
                        } else {
                            harness("the program is stuck")
                        });
                    }
                }
                std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 50 { 200 } else { 2000 }));
            }
        }
    };
    if let Some(f) = feeder {
        let _ = f.join();
    }
    Ok(Ended {
        code: status.code(),
        stdout: if capture { fs::read(&so).map_err(harness)? } else { Vec::new() },
        stderr: String::from_utf8_lossy(&fs::read(&se).unwrap_or_default()).to_string(),
    })
}

fn some_labels(rng: &mut Rng, pool: &[String]) -> BTreeSet<String> {
    let k = *rng.pick(&[0, 1, 1, 2, 3, 5]);
    (0..k).map(|_| rng.pick(pool).clone()).collect()
}

fn set_text(set: &BTreeSet<String>, rng: &mut Rng) -> String {
    let sep = *rng.pick(&[" ", "\n", "  \n", "\t"]);
    let mut s = set.iter().cloned().collect::<Vec<_>>().join(sep);
    if rng.chance(1, 2) {
        s.push('\n');
    }
    s
}

pub fn conf(rng: &mut Rng) -> Conf {
    let input = match rng.below(7) {
        0 | 1 | 2 => In::Brk(*rng.pick(&FMTS)),
        3 | 4 => In::Negra,
        5 => In::Abs,
        _ => In::Rel,
    };
    let output = match rng.below(7) {
        0 | 1 => Out::Brk(*rng.pick(&FMTS)),
        2 | 3 => Out::Negra,
        4 => Out::Conllx,
        5 => Out::Abs,
        _ => Out::Rel,
    };
    let projectivize = rng.chance(1, 3);
    Conf {
        input,
        output,
        multi: rng.chance(1, 2),
        remove_dummies: rng.chance(1, 4),
        projectivize,
        sec_edges: projectivize && rng.chance(1, 2),
        reattach: None,
        ids: None,
        id_feature: None,
        filter: None,
        insertion: None,
        insertion_label: None,
        parent: None,
        pos: rng.chance(1, 5),
    }
}

/// Options that refer to labels of the sentences.
fn more(c: &mut Conf, rng: &mut Rng, sents: &[Sentence]) {
    let mut nts = vec!["S".to_string(), "NP".into(), "VROOT".into()];
    let mut tags = vec!["$".to_string(), "N".into(), "A".into()];
    for s in sents.iter().take(20) {
        for n in s.m.nodes.values() {
            if n.term {
                tags.push(n.label.clone());
            } else {
                nts.push(n.label.clone());
            }
        }
    }
    if rng.chance(1, 4) {
        let t = rng.pick(&tags).clone();
        let k = rng.range(1, t.chars().count());
        let p: String = t.chars().take(k).collect();
        if !p.starts_with('-') {
            c.reattach = Some(p);
        }
    }
    if rng.chance(1, 4) {
        c.filter = Some(some_labels(rng, &nts));
    }
    if rng.chance(1, 4) {
        let mut ids = some_labels(rng, &nts);
        if let Some(f) = &c.filter {
            ids = ids.into_iter().filter(|l| f.contains(l)).collect();
        }
        c.ids = Some(ids);
        if rng.chance(1, 2) {
            c.id_feature = Some(rng.pick(&["id", "s_id", "tag", "morph"]).to_string());
            if c.output == Out::Negra && c.id_feature.as_ref().map(String::as_str) == Some("morph") {
                c.id_feature = None;
            }
        }
    } else if rng.chance(1, 20) {
        c.id_feature = Some("other".into());
    }
    if rng.chance(1, 4) {
        c.insertion = Some(some_labels(rng, &nts));
    }
    if rng.chance(1, 5) {
        c.insertion_label = Some(rng.pick(&["label", "INS", "Ü", "NP", "UNK"]).to_string());
    }
    if rng.chance(1, 4) {
        c.parent = Some(rng.pick(&["tag", "parent", "id", "morph"]).to_string());
    }
}

/// Options as argument groups.
fn args(c: &Conf, dir: &Scratch, rng: &mut Rng) -> Vec<Vec<String>> {
    let mut a: Vec<Vec<String>> = Vec::new();
    let mut opt = |rng: &mut Rng, k: &str, v: &str| {
        if rng.chance(1, 4) && !v.starts_with('=') {
            a.push(vec![format!("--{}={}", k, v)]);
        } else {
            a.push(vec![format!("--{}", k), v.to_string()]);
        }
    };
    // defaults: tueba to simple
    if c.input != In::Brk(Fmt::Tueba) || rng.chance(1, 2) {
        opt(rng, "input_format", c.input.arg());
    }
    if c.output != Out::Brk(Fmt::Simple) || rng.chance(1, 2) {
        opt(rng, "output_format", c.output.arg());
    }
    if let Some(p) = &c.reattach {
        opt(rng, "reattach", p);
    }
    for (k, set) in vec![("id_set", &c.ids), ("filter", &c.filter), ("insertion_set", &c.insertion)] {
        if let Some(s) = set {
            let t = set_text(s, rng);
            let p = dir.file(k, t.as_bytes());
            opt(rng, k, &p.display().to_string());
        }
    }
    if let Some(f) = &c.id_feature {
        opt(rng, "id_feature", f);
    }
    if let Some(f) = &c.insertion_label {
        opt(rng, "insertion_label", f);
    }
    if let Some(f) = &c.parent {
        opt(rng, "parent", f);
    }
    for (k, f) in vec![
        ("--multiline_brackets", c.multi),
        ("--remove_dummies", c.remove_dummies),
        ("--projectivize", c.projectivize),
        ("--sec_edges", c.sec_edges),
    ] {
        if f {
            a.push(vec![k.to_string()]);
        }
    }
    a
}

fn pos_rows(tags: &[String], rng: &mut Rng) -> String {
    let w: Vec<(String, String)> =
        tags.iter().enumerate().map(|(i, t)| (format!("x{}", i), t.clone())).collect();
    let f: Vec<Option<String>> =
        tags.iter().map(|_| if rng.chance(1, 5) { Some("a:b".into()) } else { None }).collect();
    rows(&w, &f, rng)
}

pub fn size(rng: &mut Rng, many: bool) -> usize {
    match rng.below(12) {
        0 => 1,
        1 if !many => rng.range(15, 70),
        2 => rng.range(10, 25),
        _ => rng.range(2, 9),
    }
}

struct Job {
    conf: Conf,
    sents: Vec<Sentence>,
    steps: Vec<Step>,
}

fn show(conf: &Conf, sents: &[Sentence]) -> String {
    let t: Vec<u8> = sents.iter().flat_map(|s| s.text.clone()).collect();
    format!("{:?}\n{}", conf, String::from_utf8_lossy(&t))
}

fn with_tags(c: &Conf, rng: &mut Rng, s: &mut Sentence) {
    if c.pos {
        s.tags = Some((0..s.m.n_terms()).map(|_| gen::pos(rng, Kind::Free)).collect());
    }
}

fn feed(cx: &mut Cx, dir: &Scratch, a: &mut Vec<Vec<String>>, data: &[u8]) -> Stdin {
    match cx.rng.below(3) {
        0 => {
            let p = dir.file("input", data);
            a.push(vec!["--input_file".into(), p.display().to_string()]);
            cx.count("input from a file");
            Stdin::None
        }
        1 => {
            cx.count("input from a redirected file");
            Stdin::File(dir.file("input", data))
        }
        _ => {
            cx.count("input from a pipe");
            Stdin::Pipe(data.to_vec(), cx.rng.next())
        }
    }
}

fn flat(cx: &mut Cx, mut a: Vec<Vec<String>>) -> Vec<String> {
    cx.rng.shuffle(&mut a);
    let v: Vec<String> = a.concat();
    cx.step(format!("lumberjack-conversion {}", v.join(" ")));
    v
}

fn crashed(e: &Ended) -> Res {
    if e.code.is_none() || e.code == Some(101) || e.stderr.contains("panicked at") {
        return Err(format!("the program crashed: status {:?}, message {:?}", e.code, e.stderr));
    }
    Ok(())
}

/// Run the job and judge: everything before the first refused sentence is written, nothing else.
fn convert(cx: &mut Cx, job: &Job, pos_text: Option<String>) -> Res {
    let dir = Scratch::new("cli", cx.case);
    let mut exps = Vec::new();
    let mut refused = None;
    for s in &job.steps {
        match s {
            Step::Done(m) => exps.push(m.clone()),
            Step::Refused(w) => {
                refused = Some(*w);
                break;
            }
            Step::Unknown(w) => return skip(cx, format!("sentence alone: {}", w)),
        }
    }
    let data: Vec<u8> = job.sents.iter().flat_map(|s| s.text.clone()).collect();
    let mut a = args(&job.conf, &dir, &mut cx.rng);
    if let Some(t) = pos_text {
        let p = dir.file("pos", t.as_bytes());
        a.push(vec!["--pos".into(), p.display().to_string()]);
    }
    let stdin = feed(cx, &dir, &mut a, &data);
    let to_file = cx.rng.chance(1, 3);
    let of = dir.0.join("output");
    if to_file {
        if cx.rng.chance(1, 3) {
            dir.file("output", b"(OLD (NN content))\n\n#EOS 5\n");
        }
        a.push(vec!["--output_file".into(), of.display().to_string()]);
        cx.count("output to a file");
    }
    let argv = flat(cx, a);
    let e = run(&dir.0, &argv, stdin, None)?;
    crashed(&e)?;
    let out = if to_file {
        if !e.stdout.is_empty() {
            return Err(format!("output on stdout in spite of --output_file: {:?}", String::from_utf8_lossy(&e.stdout)));
        }
        fs::read(&of).map_err(|x| format!("no output file: {}, status {:?} {:?}", x, e.code, e.stderr))?
    } else {
        e.stdout.clone()
    };
    cx.add("sentences written", exps.len() as u64);
    match refused {
        None => {
            if e.code != Some(0) {
                return Err(format!("status {:?} for valid input, message {:?}", e.code, e.stderr));
            }
        }
        Some(w) => {
            if e.code == Some(0) {
                return Err(format!(
                    "status 0 although sentence {} can't be converted ({})\n{}",
                    exps.len(),
                    w,
                    String::from_utf8_lossy(&out)
                ));
            }
            if e.stderr.trim().is_empty() {
                return Err("refused without a message".into());
            }
        }
    }
    judge(&out, &job.conf, &exps)
        .map_err(|x| format!("{} (status {:?}, message {:?})", x, e.code, e.stderr))
}

fn tally(cx: &mut Cx, c: &Conf) {
    cx.count(&format!("from {}", c.input.arg()));
    cx.count(&format!("to {}", c.output.arg()));
    for (k, v) in vec![
        ("remove_dummies", c.remove_dummies),
        ("projectivize", c.projectivize),
        ("sec_edges", c.sec_edges),
        ("pos", c.pos),
        ("reattach", c.reattach.is_some()),
        ("id_set", c.ids.is_some()),
        ("filter", c.filter.is_some()),
        ("insertion_set", c.insertion.is_some()),
        ("parent", c.parent.is_some()),
        ("multiline", c.multi),
    ] {
        if v {
            cx.count(&format!("option {}", k));
        }
    }
}

fn c26(cx: &mut Cx) -> Res {
    let mut c = conf(&mut cx.rng);
    let n = match cx.rng.below(12) {
        0 => 0,
        1 => 1,
        2 if cx.rng.chance(1, 6) => cx.rng.range(100, 250),
        2 => cx.rng.range(10, 30),
        _ => cx.rng.range(2, 6),
    };
    if c.input == In::Negra && c.output != Out::Negra && c.output != Out::Conllx && cx.rng.chance(2, 3) {
        c.projectivize = true;
        c.sec_edges = cx.rng.chance(1, 2);
    }
    let mut pool = Vec::new();
    for _ in 0..(n + 2) {
        let k = size(&mut cx.rng, n > 50);
        match sentence(&c, &mut cx.rng, k, None) {
            Ok(mut s) => {
                with_tags(&c, &mut cx.rng, &mut s);
                pool.push(s)
            }
            Err(e) => return skip(cx, e),
        }
    }
    more(&mut c, &mut cx.rng, &pool);
    // sentences that can be converted
    let mut job = Job {
        conf: c.clone(),
        sents: Vec::new(),
        steps: Vec::new(),
    };
    for s in pool {
        if job.sents.len() == n {
            break;
        }
        match apply(&c, &s) {
            Step::Done(m) => {
                if !s.m.projective() {
                    cx.count("discontinuous sentences");
                }
                if m.nodes.len() != s.m.nodes.len() {
                    cx.count("sentences changed");
                }
                job.steps.push(Step::Done(m));
                job.sents.push(s);
            }
            Step::Refused(_) => (),
            Step::Unknown(e) => return skip(cx, e),
        }
    }
    tally(cx, &c);
    cx.desc = show(&c, &job.sents);
    let pos_text = if c.pos {
        let mut t = String::new();
        for s in &job.sents {
            t.push_str(&pos_rows(s.tags.as_ref().unwrap(), &mut cx.rng));
        }
        Some(t)
    } else {
        None
    };
    convert(cx, &job, pos_text)?;
    cx.nontrivial = !job.sents.is_empty();
    Ok(())
}

fn c27(cx: &mut Cx) -> Res {
    let mut c = conf(&mut cx.rng);
    let n = cx.rng.range(1, 6);
    let at = cx.rng.below(n);
    let kind = cx.rng.below(13);
    match kind {
        1 | 2 => {
            // discontinuous sentence, format that can't express it
            c.input = In::Negra;
            c.projectivize = false;
            c.sec_edges = false;
            c.output = match cx.rng.below(3) {
                0 => Out::Brk(*cx.rng.pick(&FMTS)),
                1 => Out::Abs,
                _ => Out::Rel,
            };
        }
        3 | 4 | 5 => c.pos = true,
        _ => (),
    }
    let mut pool: Vec<Sentence> = Vec::new();
    let mut tries = 0;
    let simple = Conf { ..c.clone() };
    while pool.len() < n {
        tries += 1;
        if tries > 200 {
            return skip(cx, "no sentence of the kind".into());
        }
        let i = pool.len();
        let k = size(&mut cx.rng, false);
        let bad = if kind == 0 && i == at || kind == 6 && i == at {
            Some(Bad(*cx.rng.pick(&["open", "close", "label", "other"])))
        } else {
            None
        };
        let malformed = bad.is_some();
        let mut s = match sentence(&c, &mut cx.rng, k, bad) {
            Ok(s) => s,
            Err(e) => {
                if malformed {
                    continue;
                }
                return skip(cx, e);
            }
        };
        if malformed {
            pool.push(s);
            continue;
        }
        with_tags(&c, &mut cx.rng, &mut s);
        let want = match kind {
            1 | 2 if i == at => Some("discontinuous"),
            _ => None,
        };
        match (apply(&simple, &s), want) {
            (Step::Done(_), None) => pool.push(s),
            (Step::Refused(w), Some(x)) if w == x => pool.push(s),
            (Step::Unknown(e), _) => return skip(cx, e),
            _ => (),
        }
    }
    // tags of the sentence
    let mut pos_text = None;
    if c.pos {
        let mut t = String::new();
        for (i, s) in pool.iter_mut().enumerate() {
            let mut tags = match s.tags.clone() {
                Some(t) => t,
                None => vec!["T".to_string(); 3],
            };
            if i == at {
                match kind {
                    3 => {
                        // too few or many
                        match cx.rng.below(3) {
                            0 => {
                                tags.push("T".into());
                            }
                            1 => tags.extend(vec!["T".to_string(); 4]),
                            _ => {
                                tags.pop();
                            }
                        }
                        if tags.is_empty() {
                            tags = vec!["T".into(); 2];
                        }
                        s.tags = Some(tags.clone());
                    }
                    4 => {
                        // the file ends
                        s.tags = None;
                        break;
                    }
                    5 => {
                        let w = cx.rng.below(tags.len());
                        tags[w] = "_".into();
                        s.tags = None;
                    }
                    _ => (),
                }
            }
            t.push_str(&pos_rows(&tags, &mut cx.rng));
        }
        if kind == 4 {
            for s in pool.iter_mut().skip(at) {
                s.tags = None;
            }
        }
        pos_text = Some(t);
    }
    if cx.rng.chance(1, 3) || kind == 7 {
        more(&mut c, &mut cx.rng, &pool);
        if kind == 7 {
            // sentences that are a word, and steps that need a parent
            if cx.rng.chance(1, 2) {
                c.parent = Some("tag".into());
            } else {
                c.insertion = Some(BTreeSet::new());
            }
            c.input = match c.input {
                In::Negra => In::Brk(Fmt::Simple),
                i => i,
            };
            c.pos = false;
            pos_text = None;
            c.multi = cx.rng.chance(1, 2);
            pool.clear();
            for i in 0..n {
                let k = if i == at { 1 } else { cx.rng.range(2, 6) };
                let s = sentence(&c, &mut cx.rng, k, None);
                match s {
                    Ok(mut s) => {
                        if i == at {
                            if let In::Brk(f) = c.input {
                                let m = M {
                                    nodes: Some((
                                        0,
                                        Nd {
                                            term: true,
                                            label: "NN".into(),
                                            form: "word".into(),
                                            lemma: None,
                                            feats: Feats::new(),
                                            pos: 0,
                                            parent: None,
                                            edge: Lab::Is(None),
                                        },
                                    ))
                                    .into_iter()
                                    .collect(),
                                    root: 0,
                                    sec: Vec::new(),
                                };
                                s.text = format!("{}\n", text::bracket(&m, f)).into_bytes();
                                s.m = m;
                            } else {
                                let key = if c.input == In::Abs { "abs_ancestor" } else { "rel_ancestor" };
                                let t = rows(
                                    &[("word".into(), "NN".into())],
                                    &[Some(format!("{}:NONE", key))],
                                    &mut cx.rng,
                                );
                                s.m = snapshot(&match read_alone(t.as_bytes(), c.input, false) {
                                    Ok(t) => t,
                                    Err(e) => return skip(cx, e),
                                })?;
                                s.text = t.into_bytes();
                            }
                        }
                        pool.push(s)
                    }
                    Err(e) => return skip(cx, e),
                }
            }
        }
    }
    if kind == 8 {
        // bytes that aren't UTF-8
        let s = &mut pool[at];
        let n = s.text.len();
        let nl: Vec<usize> = (0..n).filter(|i| s.text[*i] == b'\n').collect();
        let _ = nl;
        // in the last word character of the text before the last line end
        let p = (0..n).rev().find(|i| {
            let b = s.text[*i];
            match c.input {
                In::Negra => b == b'#' && s.text[*i..].starts_with(b"#EOS"),
                _ => b.is_ascii_alphanumeric(),
            }
        });
        match p {
            None => return skip(cx, "no place for an invalid byte".into()),
            Some(p) => {
                if c.input == In::Negra {
                    // at the end of the sentence's last node line
                    let mut q = p - 1;
                    while q > 0 && (s.text[q] == b'\n' || s.text[q] == b'\r') {
                        q -= 1;
                    }
                    s.text.insert(q + 1, 0xff);
                } else {
                    s.text[p] = 0xff;
                }
            }
        }
        s.broken = true;
    }
    if kind >= 9 {
        return global(cx, &c, &pool, pos_text, kind);
    }
    tally(cx, &c);
    let steps: Vec<Step> = pool.iter().map(|s| apply(&c, s)).collect();
    cx.desc = show(&c, &pool);
    match steps.iter().find(|s| !match s {
        Step::Done(_) => true,
        _ => false,
    }) {
        Some(Step::Refused(w)) => cx.count(&format!("refused: {}", w)),
        Some(Step::Unknown(w)) => {
            let w = w.clone();
            return skip(cx, w);
        }
        _ => cx.count("nothing to refuse"),
    }
    let refused = steps.iter().any(|s| match s {
        Step::Refused(_) => true,
        _ => false,
    });
    let job = Job {
        conf: c,
        sents: pool,
        steps,
    };
    convert(cx, &job, pos_text)?;
    cx.nontrivial = refused;
    Ok(())
}

/// Failures of the environment and of the command line.
fn global(cx: &mut Cx, c: &Conf, sents: &[Sentence], pos_text: Option<String>, kind: usize) -> Res {
    let dir = Scratch::new("cli", cx.case);
    cx.desc = show(c, sents);
    let steps: Vec<Step> = sents.iter().map(|s| apply(c, s)).collect();
    let first = match &steps[0] {
        Step::Done(_) => true,
        Step::Refused(_) => false,
        Step::Unknown(w) => {
            let w = w.clone();
            return skip(cx, w);
        }
    };
    let data: Vec<u8> = sents.iter().flat_map(|s| s.text.clone()).collect();
    let mut a = args(c, &dir, &mut cx.rng);
    if let Some(t) = pos_text {
        let p = dir.file("pos", t.as_bytes());
        a.push(vec!["--pos".into(), p.display().to_string()]);
    }
    let input = dir.file("input", &data);
    let mut stdin = Stdin::File(input.clone());
    let mut stdout = None;
    // something is written before the program can know
    let mut partial = false;
    let missing = dir.0.join("missing").display().to_string();
    let here = dir.0.display().to_string();
    let what: &str;
    match kind {
        9 => {
            // output can't be written
            if !first {
                return Ok(());
            }
            match cx.rng.below(4) {
                0 => {
                    what = "full device as output file";
                    a.push(vec!["--output_file".into(), "/dev/full".into()]);
                }
                1 => {
                    what = "full device as stdout";
                    stdout = Some(Stdio::from(
                        fs::OpenOptions::new().write(true).open("/dev/full").map_err(harness)?,
                    ));
                }
                2 => {
                    what = "nobody reads the output";
                    let (r, w) = std::io::pipe().map_err(harness)?;
                    drop(r);
                    stdout = Some(Stdio::from(w));
                }
                _ => {
                    what = "output file can't be created";
                    let p = if cx.rng.chance(1, 2) { format!("{}/x", missing) } else { here.clone() };
                    a.push(vec!["--output_file".into(), p]);
                }
            }
        }
        10 => {
            stdin = Stdin::None;
            if cx.rng.chance(1, 2) {
                what = "input file is missing";
                a.push(vec!["--input_file".into(), missing.clone()]);
            } else {
                what = "input is a directory";
                if cx.rng.chance(1, 2) {
                    a.push(vec!["--input_file".into(), here.clone()]);
                } else {
                    stdin = Stdin::File(dir.0.clone());
                }
            }
        }
        11 => {
            what = "option file is missing";
            let k = *cx.rng.pick(&["--id_set", "--filter", "--insertion_set", "--pos"]);
            let name = k.trim_start_matches('-').to_string();
            a.retain(|g| !g[0].starts_with(&format!("--{}", name)) || g[0].starts_with("--id_feature"));
            a.push(vec![k.into(), if cx.rng.chance(1, 4) { here.clone() } else { missing.clone() }]);
            partial = k == "--pos";
        }
        _ => match cx.rng.below(6) {
            0 => {
                what = "unknown input format";
                a.retain(|g| !g[0].starts_with("--input_format"));
                let f = *cx.rng.pick(&["conllx", "xml", "Simpl", "PTB3", "-", "tueba2"]);
                a.push(vec![format!("--input_format={}", f)]);
            }
            1 => {
                what = "unknown output format";
                a.retain(|g| !g[0].starts_with("--output_format"));
                let f = *cx.rng.pick(&["conll", "xml", "abs", "negra4", "tiger"]);
                a.push(vec![format!("--output_format={}", f)]);
            }
            2 => {
                what = "unknown option";
                a.push(vec![cx.rng.pick(&["--colapse", "--dummies", "-x", "--projectivise"]).to_string()]);
            }
            3 => {
                what = "option without value";
                // the others have defaults
                let k = *cx.rng.pick(&[
                    "--parent",
                    "--reattach",
                    "--id_set",
                    "--filter",
                    "--insertion_set",
                    "--pos",
                    "--input_file",
                    "--output_file",
                ]);
                a.retain(|g| !g[0].starts_with(k));
                cx.rng.shuffle(&mut a);
                let mut v: Vec<String> = a.concat();
                v.push(k.into());
                a = vec![v];
            }
            4 => {
                what = "secondary edges without projectivization";
                a.retain(|g| g[0] != "--projectivize" && g[0] != "--sec_edges");
                a.push(vec!["--sec_edges".into()]);
            }
            _ => {
                what = "unexpected argument";
                a.push(vec![input.display().to_string()]);
            }
        },
    }
    cx.count(what);
    let argv = flat(cx, a);
    let e = run(&dir.0, &argv, stdin, stdout)?;
    crashed(&e).map_err(|x| format!("{}: {}", what, x))?;
    if e.code == Some(0) {
        return Err(format!("{}: status 0", what));
    }
    if e.stderr.trim().is_empty() {
        return Err(format!("{}: no message", what));
    }
    if !e.stdout.is_empty() && !partial {
        return Err(format!("{}: wrote {:?}", what, String::from_utf8_lossy(&e.stdout)));
    }
    cx.nontrivial = true;
    Ok(())
}

pub static CHECKS: &[&Check] = &[
    &Check {
        id: "C26",
        rule: "a case counts if the program was run on at least one sentence and its status and every written sentence were compared with the prediction; distinct by options and input",
        quick: 9_000,
        thorough: 300_000,
        threads: 8,
        min_judged: 60,
        run: c26,
        assumptions: &[
            "the result of projectivizing a discontinuous sentence is taken from the library applied to the sentence alone (judged by C10), everything else is predicted by the model",
            "ids together with a filter only if the filter keeps all labels of the id set",
        ],
    },
    &Check {
        id: "C27",
        rule: "a case counts if the program had to refuse: status, message and everything written before were judged; distinct by options and input",
        quick: 9_000,
        thorough: 300_000,
        threads: 8,
        min_judged: 60,
        run: c27,
        assumptions: &["the devices /dev/full and /dev/null exist"],
    },
];
