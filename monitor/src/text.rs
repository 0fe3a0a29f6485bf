//! Own writers and parsers of the text formats, independent of the library.

use std::collections::{BTreeMap, BTreeSet};

use lumberjack::io::PTBFormat;

use crate::model::*;
use crate::rng::Rng;

pub const ANNOT: &str = "node_annotation";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    Ptb,
    Simple,
    Tueba,
}

pub const FMTS: [Fmt; 3] = [Fmt::Ptb, Fmt::Simple, Fmt::Tueba];

impl Fmt {
    pub fn lib(self) -> PTBFormat {
        match self {
            Fmt::Ptb => PTBFormat::PTB,
            Fmt::Simple => PTBFormat::Simple,
            Fmt::Tueba => PTBFormat::TueBa,
        }
    }
    pub fn cli(self) -> &'static str {
        match self {
            Fmt::Ptb => "ptb",
            Fmt::Simple => "simple",
            Fmt::Tueba => "tueba",
        }
    }
}

fn paren(s: &str) -> String {
    s.replace('(', "LBR").replace(')', "RBR")
}

/// Label of a node as it is written in the format.
pub fn decorated(m: &M, id: Id, f: Fmt) -> String {
    let n = &m.nodes[&id];
    if n.term {
        let p = paren(&n.label);
        return match f {
            Fmt::Tueba => format!("{}:{}", p, n.edge.get().unwrap_or("--")),
            _ => p,
        };
    }
    let annot = n.feats.get(ANNOT).and_then(|v| v.clone());
    match f {
        Fmt::Simple => n.label.clone(),
        Fmt::Ptb => match annot {
            Some(a) => format!("{}-{}", n.label, a),
            None => n.label.clone(),
        },
        Fmt::Tueba => {
            let e = n.edge.get().unwrap_or("--");
            match annot {
                Some(a) => format!("{}={}:{}", n.label, a, e),
                None => format!("{}:{}", n.label, e),
            }
        }
    }
}

/// The expected bracketing of a projective tree.
pub fn bracket(m: &M, f: Fmt) -> String {
    let ch = m.ordered();
    fn rec(m: &M, ch: &BTreeMap<Id, Vec<Id>>, id: Id, f: Fmt, out: &mut String) {
        out.push('(');
        out.push_str(&decorated(m, id, f));
        if m.nodes[&id].term {
            out.push(' ');
            out.push_str(&paren(&m.nodes[&id].form));
        } else {
            for &c in &ch[&id] {
                if f != Fmt::Tueba {
                    out.push(' ');
                }
                rec(m, ch, c, f, out);
            }
        }
        out.push(')');
    }
    let mut s = String::new();
    rec(m, &ch, m.root, f, &mut s);
    s
}

/// Tokens of the bracketing: "(", ")", labels and words
pub fn tokens(m: &M, f: Fmt) -> Vec<String> {
    let ch = m.ordered();
    fn rec(m: &M, ch: &BTreeMap<Id, Vec<Id>>, id: Id, f: Fmt, out: &mut Vec<String>) {
        out.push("(".into());
        out.push(decorated(m, id, f));
        if m.nodes[&id].term {
            out.push(paren(&m.nodes[&id].form));
        } else {
            for &c in &ch[&id] {
                rec(m, ch, c, f, out);
            }
        }
        out.push(")".into());
    }
    let mut v = Vec::new();
    rec(m, &ch, m.root, f, &mut v);
    v
}

/// Own parser of bracketed trees; labels stay undivided.
pub fn parse_brackets(s: &str) -> Option<M> {
    let mut toks: Vec<String> = Vec::new();
    let mut cur = String::new();
    for c in s.chars() {
        if c == '(' || c == ')' || c == ' ' || c == '\n' || c == '\r' {
            if !cur.is_empty() {
                toks.push(std::mem::replace(&mut cur, String::new()));
            }
            if c == '(' || c == ')' {
                toks.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut m = M {
        nodes: BTreeMap::new(),
        root: 0,
        sec: Vec::new(),
    };
    // stack of open nodes: (id, label seen, word seen, children)
    let mut st: Vec<(Id, bool, bool, usize)> = Vec::new();
    let mut next = 0;
    let mut n_words = 0;
    let mut done = false;
    for t in &toks {
        if done {
            return None;
        }
        match t.as_str() {
            "(" => {
                let parent = match st.last_mut() {
                    Some((p, label, word, kids)) => {
                        if !*label || *word {
                            return None;
                        }
                        *kids += 1;
                        Some(*p)
                    }
                    None => None,
                };
                m.nodes.insert(
                    next,
                    Nd {
                        term: false,
                        label: String::new(),
                        form: String::new(),
                        lemma: None,
                        feats: Feats::new(),
                        pos: 0,
                        parent,
                        edge: Lab::Is(None),
                    },
                );
                st.push((next, false, false, 0));
                next += 1;
            }
            ")" => {
                let (_, label, word, kids) = st.pop()?;
                if !label || !word && kids == 0 {
                    return None;
                }
                if st.is_empty() {
                    done = true;
                }
            }
            w => {
                let (id, label, word, kids) = st.last_mut()?;
                let n = m.nodes.get_mut(id).unwrap();
                if !*label {
                    n.label = w.to_string();
                    *label = true;
                } else if !*word && *kids == 0 {
                    n.form = w.to_string();
                    n.term = true;
                    n.pos = n_words;
                    n_words += 1;
                    *word = true;
                } else {
                    return None;
                }
            }
        }
    }
    if done {
        Some(m)
    } else {
        None
    }
}

/// Divide the labels of a parsed bracketing as the format says.
pub fn interpret(m: &mut M, f: Fmt) {
    for n in m.nodes.values_mut() {
        let l = n.label.clone();
        match f {
            Fmt::Simple => (),
            Fmt::Ptb => {
                if let Some(i) = l.find('-').filter(|i| *i > 0) {
                    n.label = l[..i].to_string();
                    if !n.term {
                        n.feats.insert(ANNOT.into(), Some(l[i + 1..].to_string()));
                    }
                }
            }
            Fmt::Tueba => {
                let mut p = l.split(':');
                let tag = p.next().unwrap_or("").to_string();
                n.edge = Lab::Is(p.next().filter(|e| *e != "--").map(ToOwned::to_owned));
                let mut q = tag.split('=');
                n.label = q.next().unwrap_or("").to_string();
                if let Some(a) = q.next() {
                    if !n.term {
                        n.feats.insert(ANNOT.into(), Some(a.to_string()));
                    }
                }
            }
        }
    }
    let root = m.root;
    m.nodes.get_mut(&root).unwrap().edge = Lab::Is(None);
}

/// The part of a tree a bracket format expresses.
pub fn restrict(m: &M, f: Fmt) -> M {
    let mut m = m.clone();
    let root = m.root;
    m.sec.clear();
    for (id, n) in m.nodes.iter_mut() {
        n.lemma = None;
        let a = n.feats.get(ANNOT).and_then(|v| v.clone());
        n.feats.clear();
        if n.term {
            n.label = paren(&n.label);
            n.form = paren(&n.form);
        } else if f != Fmt::Simple {
            if let Some(a) = a {
                n.feats.insert(ANNOT.into(), Some(a));
            }
        }
        if f != Fmt::Tueba || *id == root {
            n.edge = Lab::Is(None);
        }
    }
    m
}

// --- NEGRA ------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct NegraStyle {
    /// 0 padded columns, 1 single tabs, 2 random blanks
    pub sep: usize,
    /// 0: 500.., 1: arbitrary
    pub ids: usize,
    pub eol: &'static str,
    pub comments: bool,
    pub shuffle: bool,
    pub trailing: bool,
    pub nt_fields: bool,
    /// 1: tabs or blanks in the first line of a sentence
    pub head: usize,
}

impl NegraStyle {
    pub fn random(rng: &mut Rng) -> Self {
        NegraStyle {
            sep: rng.below(3),
            ids: rng.below(2),
            eol: if rng.chance(1, 4) { "\r\n" } else { "\n" },
            comments: rng.chance(1, 2),
            shuffle: rng.chance(2, 3),
            trailing: rng.chance(1, 4),
            nt_fields: rng.chance(1, 3),
            head: rng.below(2),
        }
    }
    pub fn plain() -> Self {
        NegraStyle {
            sep: 0,
            ids: 0,
            eol: "\n",
            comments: false,
            shuffle: false,
            trailing: false,
            nt_fields: false,
            head: 0,
        }
    }
    fn row(&self, cols: &[String], rng: &mut Rng) -> String {
        let mut s = String::new();
        for (i, c) in cols.iter().enumerate() {
            s.push_str(c);
            if i + 1 < cols.len() {
                match self.sep {
                    0 => {
                        for _ in c.chars().count()..8 {
                            s.push(' ')
                        }
                        s.push(' ');
                    }
                    1 => s.push('\t'),
                    _ => {
                        for _ in 0..rng.range(1, 4) {
                            s.push(*rng.pick(&[' ', '\t']));
                        }
                    }
                }
            }
        }
        if self.comments && rng.chance(1, 3) {
            s.push_str(rng.pick(&["\t%% R=123", " %% comment 5 HD", " %%x", "  % 500 600"]));
        }
        if self.trailing && rng.chance(1, 3) {
            s.push_str(rng.pick(&[" ", "\t", "  "]));
        }
        s.push_str(self.eol);
        s
    }
}

/// The lines of one sentence. The root of the tree is the virtual root.
pub fn negra_lines(m: &M, id: &str, meta: Option<&str>, st: &NegraStyle, rng: &mut Rng) -> (Vec<String>, Vec<Id>) {
    let ch = m.ordered();
    // numbers of inner nodes
    let mut nums: BTreeMap<Id, usize> = BTreeMap::new();
    nums.insert(m.root, 0);
    let mut used = BTreeSet::new();
    let mut c = 500;
    for nt in m.nts() {
        if nt == m.root {
            continue;
        }
        let n = if st.ids == 0 {
            c += 1;
            c - 1
        } else {
            loop {
                let n = match rng.below(3) {
                    0 => rng.range(1, 30),
                    1 => rng.range(500, 999),
                    _ => rng.range(1, 2_000_000),
                };
                if used.insert(n) {
                    break n;
                }
            }
        };
        nums.insert(nt, n);
    }
    let sec: BTreeMap<Id, (Id, Option<String>)> =
        m.sec.iter().map(|(p, c, l)| (*c, (*p, l.clone()))).collect();
    let mut lines = Vec::new();
    let mut order = Vec::new();
    let (a, b) = match st.head {
        0 => (' ', ' '),
        _ => (*rng.pick(&[' ', '\t']), *rng.pick(&[' ', '\t'])),
    };
    lines.push(match meta {
        Some(x) => format!("#BOS{}{}{}{}{}", a, id, b, x, st.eol),
        None => format!("#BOS{}{}{}", a, id, st.eol),
    });
    let tail = |i: Id| -> Vec<String> {
        let n = &m.nodes[&i];
        let mut v = vec![
            n.edge.get().unwrap_or("--").to_string(),
            nums[&n.parent.unwrap_or(m.root)].to_string(),
        ];
        if let Some((p, l)) = sec.get(&i) {
            v.push(l.clone().unwrap_or_else(|| "--".into()));
            v.push(nums[p].to_string());
        }
        v
    };
    let mut ready: Vec<Id> = Vec::new();
    let mut seen = BTreeSet::new();
    for t in m.sentence() {
        let n = &m.nodes[&t];
        let mut cols = vec![
            n.form.clone(),
            n.lemma.clone().unwrap_or_else(|| "--".into()),
            n.label.clone(),
            n.feats.get("morph").and_then(|v| v.clone()).unwrap_or_else(|| "--".into()),
        ];
        cols.extend(tail(t));
        lines.push(st.row(&cols, rng));
        order.push(t);
        if let Some(p) = n.parent {
            if seen.insert(p) && p != m.root {
                ready.push(p);
            }
        }
    }
    let mut written = 0;
    let total = m.nts().iter().filter(|n| **n != m.root).count();
    while written < total {
        let k = if st.shuffle {
            rng.below(ready.len())
        } else {
            // children first
            ready
                .iter()
                .position(|r| ch[r].iter().all(|c| m.nodes[c].term || order.contains(c)))
                .unwrap_or(0)
        };
        let nt = ready.remove(k);
        let n = &m.nodes[&nt];
        let label = match n.feats.get(ANNOT).and_then(|v| v.clone()) {
            Some(a) => format!("{}={}", n.label, a),
            None => n.label.clone(),
        };
        let filler = |rng: &mut Rng| -> String {
            if st.nt_fields && rng.chance(1, 2) {
                rng.pick(&["x", "Nom.Sg", "---", "%%"]).to_string()
            } else {
                "--".into()
            }
        };
        let mut cols = vec![format!("#{}", nums[&nt]), filler(rng), label, filler(rng)];
        cols.extend(tail(nt));
        lines.push(st.row(&cols, rng));
        order.push(nt);
        written += 1;
        let p = n.parent.unwrap();
        if seen.insert(p) && p != m.root {
            ready.push(p);
        }
    }
    lines.push(format!("#EOS {}{}", id, st.eol));
    (lines, order)
}

pub fn negra_with_order(m: &M, id: &str, meta: Option<&str>, st: &mut NegraStyle, rng: &mut Rng) -> (String, Vec<Id>) {
    let (l, o) = negra_lines(m, id, meta, st, rng);
    (l.concat(), o)
}

/// The tree an export sentence denotes for the reader: virtual root, only what the format keeps.
pub fn negra_view(m: &M, id: &str, meta: Option<&str>) -> M {
    let mut m = m.clone();
    let root = m.root;
    if m.nodes[&root].term {
        let v = m.nodes.keys().max().unwrap() + 1;
        m.insert_above(root, v, "VROOT");
    }
    let root = m.root;
    for (i, n) in m.nodes.iter_mut() {
        let keep = if n.term { "morph" } else { ANNOT };
        let v = n.feats.get(keep).and_then(|v| v.clone());
        n.feats.clear();
        if let Some(v) = v {
            if *i != root {
                n.feats.insert(keep.into(), Some(v));
            }
        }
        if *i == root {
            n.label = "VROOT".into();
            n.feats.insert("sentence_id".into(), Some(id.into()));
            if let Some(x) = meta {
                n.feats.insert("metadata".into(), Some(x.into()));
            }
        }
    }
    m
}

pub struct Sent {
    pub id: String,
    pub meta: Option<String>,
    pub m: M,
}

/// Own, strict parser of export files as the writer produces them.
pub fn parse_negra(text: &str) -> Result<Vec<Sent>, String> {
    let mut out = Vec::new();
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        if l.trim().is_empty() {
            continue;
        }
        if !l.starts_with("#BOS ") {
            return Err(format!("expected #BOS, got {:?}", l));
        }
        let rest = &l[5..];
        let (id, meta) = match rest.find(char::is_whitespace) {
            Some(i) => (rest[..i].to_string(), Some(rest[i..].trim().to_string())),
            None => (rest.to_string(), None),
        };
        if id.is_empty() || id.chars().any(|c| !c.is_ascii_digit()) {
            return Err(format!("sentence id {:?}", id));
        }
        let mut m = M {
            nodes: BTreeMap::new(),
            root: 0,
            sec: Vec::new(),
        };
        m.new_nt(0, "VROOT");
        // (node, parent number, secondary)
        let mut links: Vec<(Id, usize, Option<(String, usize)>)> = Vec::new();
        let mut nums: BTreeMap<usize, Id> = BTreeMap::new();
        nums.insert(0, 0);
        let mut n_words = 0;
        let mut nts = false;
        loop {
            let l = lines.next().ok_or_else(|| "missing #EOS".to_string())?;
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.is_empty() {
                return Err("empty line in sentence".into());
            }
            if f[0] == "#EOS" {
                if f.len() != 2 || f[1] != id {
                    return Err(format!("footer {:?} of sentence {}", l, id));
                }
                break;
            }
            if f.len() != 6 && f.len() != 8 {
                return Err(format!("{} fields in {:?}", f.len(), l));
            }
            let nid = m.nodes.len();
            let mut nd = Nd {
                term: true,
                label: f[2].to_string(),
                form: String::new(),
                lemma: None,
                feats: Feats::new(),
                pos: 0,
                parent: None,
                edge: Lab::Is(if f[4] == "--" { None } else { Some(f[4].to_string()) }),
            };
            if f[0].starts_with('#') {
                nts = true;
                nd.term = false;
                let num: usize = f[0][1..].parse().map_err(|_| format!("node number {:?}", f[0]))?;
                if nums.insert(num, nid).is_some() {
                    return Err(format!("node number {} twice", num));
                }
                if f[1] != "--" || f[3] != "--" {
                    return Err(format!("fields of inner node {:?}", l));
                }
                let mut p = f[2].splitn(2, '=');
                nd.label = p.next().unwrap().to_string();
                if let Some(a) = p.next() {
                    nd.feats.insert(ANNOT.into(), Some(a.to_string()));
                }
            } else {
                if nts {
                    return Err(format!("word after inner node: {:?}", l));
                }
                nd.form = f[0].to_string();
                nd.lemma = if f[1] == "--" { None } else { Some(f[1].to_string()) };
                if f[3] != "--" {
                    nd.feats.insert("morph".into(), Some(f[3].to_string()));
                }
                nd.pos = n_words;
                n_words += 1;
            }
            let parent: usize = f[5].parse().map_err(|_| format!("parent {:?}", f[5]))?;
            let sec = if f.len() == 8 {
                Some((f[6].to_string(), f[7].parse().map_err(|_| format!("secondary parent {:?}", f[7]))?))
            } else {
                None
            };
            m.nodes.insert(nid, nd);
            links.push((nid, parent, sec));
        }
        for (n, p, sec) in links {
            let p = *nums.get(&p).ok_or_else(|| format!("unknown parent {}", p))?;
            m.nodes.get_mut(&n).unwrap().parent = Some(p);
            if let Some((l, sp)) = sec {
                let sp = *nums.get(&sp).ok_or_else(|| format!("unknown secondary parent {}", sp))?;
                m.sec.push((sp, n, Some(l)));
            }
        }
        m.sec.sort();
        let r = m.nodes.get_mut(&0).unwrap();
        r.feats.insert("sentence_id".into(), Some(id.clone()));
        if let Some(x) = &meta {
            r.feats.insert("metadata".into(), Some(x.clone()));
        }
        out.push(Sent { id, meta, m });
    }
    Ok(out)
}

// --- CoNLL-X ----------------------------------------------------------------------------------

pub struct Row {
    pub num: String,
    pub form: String,
    pub lemma: String,
    pub pos: String,
    pub feats: String,
}

/// Sentences of a CoNLL-X text: blocks of tab separated lines.
pub fn parse_conllx(text: &str) -> Result<Vec<Vec<Row>>, String> {
    let mut out = Vec::new();
    let mut cur: Vec<Row> = Vec::new();
    for l in text.split('\n') {
        if l.is_empty() {
            if !cur.is_empty() {
                out.push(std::mem::replace(&mut cur, Vec::new()));
            }
            continue;
        }
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() != 10 {
            return Err(format!("{} columns in {:?}", f.len(), l));
        }
        if f.iter().any(|x| x.is_empty()) {
            return Err(format!("empty column in {:?}", l));
        }
        if f[6..].iter().any(|x| *x != "_") {
            return Err(format!("dependency columns filled in {:?}", l));
        }
        cur.push(Row {
            num: f[0].into(),
            form: f[1].into(),
            lemma: f[2].into(),
            pos: f[4].into(),
            feats: f[5].into(),
        });
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    Ok(out)
}

pub fn feats_text(f: &Feats) -> String {
    f.iter()
        .map(|(k, v)| match v {
            Some(v) => format!("{}:{}", k, v),
            None => k.clone(),
        })
        .collect::<Vec<_>>()
        .join("|")
}

/// Feature text back to a map: the first ':' divides key and value.
pub fn parse_feats(s: &str) -> Feats {
    let mut f = Feats::new();
    if s.is_empty() || s == "_" {
        return f;
    }
    for p in s.split('|') {
        let mut kv = p.splitn(2, ':');
        let k = kv.next().unwrap().to_string();
        f.insert(k, kv.next().map(ToOwned::to_owned));
    }
    f
}

/// Lines expected in a CoNLL-X export.
pub fn conllx_diff(m: &M, rows: &[Row]) -> Result<(), String> {
    let s = m.sentence();
    if s.len() != rows.len() {
        return Err(format!("{} lines for {} words", rows.len(), s.len()));
    }
    for (i, (t, r)) in s.iter().zip(rows).enumerate() {
        let n = &m.nodes[t];
        if r.num != (i + 1).to_string() {
            return Err(format!("line {} is numbered {:?}", i + 1, r.num));
        }
        let lemma = n.lemma.clone().unwrap_or_else(|| "_".into());
        if r.form != n.form || r.lemma != lemma || r.pos != n.label {
            return Err(format!(
                "line {}: form/lemma/tag {:?}/{:?}/{:?}, expected {:?}/{:?}/{:?}",
                i + 1,
                r.form,
                r.lemma,
                r.pos,
                n.form,
                lemma,
                n.label
            ));
        }
        let want = if n.feats.is_empty() { "_".to_string() } else { feats_text(&n.feats) };
        if r.feats != want {
            return Err(format!("line {}: features {:?}, expected {:?}", i + 1, r.feats, want));
        }
    }
    Ok(())
}
