//! Generators: abstract trees (as models), and real trees built from them over different routes.

use std::cell::Cell;
use std::collections::BTreeMap;

use lumberjack::io::PTBFormat;
use lumberjack::{NegraReader, Terminal, Tree};
use petgraph::prelude::NodeIndex;

use crate::h::guard;
use crate::model::*;
use crate::rng::Rng;
use crate::text;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Free,
    Simple,
    Ptb,
    Tueba,
    Negra,
    Enc,
}

const LABELS: &[&str] = &["S", "NP", "VP", "PP", "X", "A", "B", "NX", "SIMPX", "VF", "ROOT", "Ü", "句", "S1", "NP*", "DP/NP", "<X>", "N'", "DUMMYX", "NONEX"];
const POS: &[&str] = &["NN", "VB", "ART", "$,", "$.", "ADJA", "NP", "A", "P$", "''", "``", ".", ",", "字", "T", "S"];
const FORMS: &[&str] = &[
    "a", "b", "c", "the", "der", "Haus", "sah", "x", "1990", "%", "a%b", "%%", "Ärzte", "naïve", "日本", "?", "&amp;", "''", "w", "w", "v", "S", "NP", ".", ",", "\u{1F600}", "e\u{301}",
    "0", "007", "1.0", "1,000", "null", "\"", "\\n", "[", "]", "{x}", "ſ", "ﬁ", "İ", "\u{200b}",
];
const EDGES: &[&str] = &["HD", "SB", "OA", "-", "MO", "ON", "NK", "A/B", "edge", "Ö", "---", "--x", "x--", "_", "N--", "re%f", "x%", "a%%b"];
const ANNOTS: &[&str] = &["SBJ", "TMP", "ORG", "x1", "PER", "ä", "LOC", "---", "x--", "p%c"];
const KEYS: &[&str] = &["k", "case", "num", "morph", "f1", "f2", "tag", "id", "zz", "node_annotation"];
const VALS: &[&str] = &["nom", "acc", "1", "sg", "Ä", "x-y", "value", "0", "---", "--x", "1%2"];

const SAFE: &[char] = &[
    'a', 'b', 'c', 'd', 'x', 'y', 'z', 'A', 'B', 'N', 'P', 'S', '1', '2', '7', 'ä', 'ß', 'ж', '漢', '.', '*', '$', '/', '\'', '&', '<', '>', '!', '?', ';', '@', '[', ']', '{', '}', '"', '\\', '^', '`', ',',
    '0', '9', 'İ', 'ſ', 'Σ', 'ς', '\u{212a}', '\u{301}', '\u{fb01}', '\u{1f600}', '½', '—', '…', '\u{ad}', '\u{200b}', '\u{202e}', '\u{feff}', 'ا', '\u{7f}', '\u{10ffff}', '\u{fffd}',
];

/// stand for missing or special values in some format
pub const MARKERS: &[&str] = &["--", "NONE", "-NONE-", "null", "unknown", "<unknown>", "UNK", "None", "VROOT", "DUMMY", "0", "#", "%%", "*", "nil", "-"];

/// almost the markers for missing values, but not one of them
pub const NEAR: &[&str] = &["---", "--x", "x--", "-", "__", "_x", "x_", "----", "-x-", "None", "DUMMY"];

pub fn word(rng: &mut Rng, max: usize) -> String {
    let n = rng.range(1, max);
    (0..n).map(|_| *rng.pick(SAFE)).collect()
}

fn from_pool(rng: &mut Rng, pool: &[&str]) -> String {
    match rng.below(12) {
        0 => word(rng, 4),
        1 if rng.chance(1, 4) => {
            let n = rng.range(7, 45);
            word(rng, n)
        }
        _ => rng.pick(pool).to_string(),
    }
}

/// node label
pub fn label(rng: &mut Rng, kind: Kind) -> String {
    let mut l = from_pool(rng, LABELS);
    match kind {
        Kind::Ptb => {
            if rng.chance(1, 25) {
                l = rng.pick(&["-NONE-", "-LRB-", "-X", "-", "--", "-A-B"]).to_string();
            }
        }
        Kind::Free | Kind::Simple => match rng.below(30) {
            0 => l = format!("{}-{}", l, rng.pick(ANNOTS)),
            1 => l = format!("{}={}", l, rng.pick(ANNOTS)),
            2 => l = format!("{}:{}", l, rng.pick(EDGES)),
            3 => l = format!("{}_{}", l, rng.pick(ANNOTS)),
            _ => (),
        },
        Kind::Tueba => match rng.below(20) {
            0 => l = format!("{}-{}", l, rng.pick(ANNOTS)),
            1 => l = format!("{}_{}", l, rng.pick(ANNOTS)),
            _ => (),
        },
        Kind::Negra => match rng.below(20) {
            0 => l = format!("{}-{}", l, rng.pick(ANNOTS)),
            1 => l = format!("{}:{}", l, rng.pick(ANNOTS)),
            2 => l = rng.pick(&["--", "---", "--x", "VROOT", "VROOT1", "xVROOT"]).to_string(),
            _ => (),
        },
        Kind::Enc => match rng.below(20) {
            0 => l = format!("{}-{}", l, rng.pick(ANNOTS)),
            1 => l = format!("{}={}", l, rng.pick(ANNOTS)),
            2 => l = format!("({})", l),
            _ => (),
        },
    }
    l
}

pub fn pos(rng: &mut Rng, kind: Kind) -> String {
    let mut l = from_pool(rng, POS);
    match kind {
        Kind::Ptb => {
            if rng.chance(1, 15) {
                l = rng.pick(&["-NONE-", "-LRB-", "-RRB-", ":", "-", "--"]).to_string();
            }
        }
        Kind::Simple | Kind::Free => match rng.below(20) {
            0 => l = rng.pick(&[":", "--", "-LRB-", "=", "A:B", "A=B", "A-B"]).to_string(),
            _ => (),
        },
        Kind::Tueba => {
            if rng.chance(1, 20) {
                l = rng.pick(&["-", "--", "A-B", "-LRB-"]).to_string();
            }
        }
        Kind::Negra => {
            if rng.chance(1, 20) {
                l = rng.pick(&["--", "---", "#", "%", "A=B", ":", "$("]).to_string();
            }
        }
        Kind::Enc => {
            if rng.chance(1, 20) {
                l = rng.pick(&["--", "A=B", ":", "+", "A_B", "a~b", "(", "|", "_"]).to_string();
            }
        }
    }
    l
}

pub fn form(rng: &mut Rng, kind: Kind) -> String {
    let mut f = from_pool(rng, FORMS);
    match kind {
        Kind::Negra => {
            if rng.chance(1, 15) {
                f = rng.pick(&["(", ")", "--", "=", ":", "-", "a#", "%%", "EOS", "BOS"]).to_string();
            }
        }
        Kind::Enc => {
            if rng.chance(1, 15) {
                f = rng.pick(&["(", ")", "_", "|", ":", "+", "a_b", "~", "#", "-"]).to_string();
            }
        }
        _ => {
            if rng.chance(1, 12) {
                f = rng
                    .pick(&["=", ":", "-", "--", "a:b", "a=b", "-NONE-", "*T*-1", "#", "_", "a_b", "a+b", "\u{a0}x", "%c", "LBR", "RBR", "xLBRy"])
                    .to_string();
            }
        }
    }
    f
}

pub fn edge(rng: &mut Rng) -> Option<String> {
    if rng.chance(1, 3) {
        None
    } else {
        Some(from_pool(rng, EDGES))
    }
}

pub fn annot(rng: &mut Rng, kind: Kind) -> String {
    let a = from_pool(rng, ANNOTS);
    if kind == Kind::Ptb && rng.chance(1, 3) {
        format!("{}-{}", a, rng.pick(&["1", "x", "TMP", "=2", "A:B"]))
    } else {
        a
    }
}

/// Puts a punctuation character behind the first one of a string.
pub fn punct(s: &mut String, legal: &str, rng: &mut Rng) {
    if s.is_empty() || legal.is_empty() {
        return;
    }
    let c = *rng.pick(&legal.chars().collect::<Vec<_>>());
    let at: Vec<usize> = s.char_indices().skip(1).map(|(i, _)| i).chain(Some(s.len())).collect();
    let at = *rng.pick(&at);
    s.insert(at, c);
    // the marker for what is missing
    if s == "--" {
        s.remove(at);
    }
}

pub fn lemma(rng: &mut Rng) -> Option<String> {
    if rng.chance(1, 3) {
        None
    } else {
        if rng.chance(1, 12) {
            // almost the marker for a missing lemma of some format
            return Some(rng.pick(NEAR).to_string());
        }
        Some(format!("{}L", from_pool(rng, FORMS).replace('%', "p")))
    }
}

pub fn feats(rng: &mut Rng) -> Feats {
    let mut f = Feats::new();
    for _ in 0..rng.below(4) {
        let v = if rng.chance(1, 4) { None } else { Some(from_pool(rng, VALS)) };
        f.insert(rng.pick(KEYS).to_string(), v);
    }
    f
}

/// sentence length: mostly small, sometimes beyond 64, 128 and 256 words
pub fn size(rng: &mut Rng, thorough: bool) -> usize {
    match rng.below(100) {
        0..=4 => 1,
        5..=14 => 2,
        15..=54 => rng.range(3, 7),
        55..=84 => rng.range(5, 14),
        85..=94 => rng.range(12, 35),
        95..=98 => rng.range(30, 75),
        _ => {
            if rng.chance(1, if thorough { 3 } else { 8 }) {
                rng.range(120, 300)
            } else {
                rng.range(60, 140)
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub kind: Kind,
    pub n: usize,
    /// percent of trees with crossing branches
    pub disc: u64,
    /// percent of nodes with a unary chain above
    pub unary: u64,
    pub edges: bool,
    pub lemmas: bool,
    pub t_feats: bool,
    pub nt_feats: bool,
    pub sec: bool,
    /// the root may be a word (single word trees only)
    pub term_root: bool,
}

pub fn opt(kind: Kind, n: usize) -> Opt {
    Opt {
        kind,
        n,
        disc: 50,
        unary: 15,
        edges: true,
        lemmas: true,
        t_feats: true,
        nt_feats: true,
        sec: true,
        term_root: true,
    }
}

thread_local! {
    /// one of how many trees is a giant (0: none), and whether it may be very deep
    static GIANTS: Cell<(u64, bool)> = Cell::new((0, false));
}

/// Let one of `rate` trees generated by this thread be far beyond the usual size.
pub fn giants(rate: u64, deep: bool) {
    GIANTS.with(|g| g.set((rate, deep)));
}

thread_local! {
    /// how many words the next tree of this thread has at least (0: as usual)
    static COLOSSUS: Cell<usize> = Cell::new(0);
}

/// Let the next tree of this thread have at least `n` words.
pub fn colossus(n: usize) {
    COLOSSUS.with(|c| c.set(n));
}

/// trees with more nodes are only built over routes that take linear time
const LARGE: usize = 420;

struct B<'a> {
    rng: &'a mut Rng,
    o: Opt,
    m: M,
    next: Id,
    style: usize,
    /// branching to one side is confined to parts of the sentence
    parts: bool,
    /// depth limits for chains and for branching to one side
    chain: usize,
    side: usize,
}

impl<'a> B<'a> {
    fn fresh(&mut self, term: bool) -> Id {
        let id = self.next;
        self.next += 1;
        let kind = self.o.kind;
        let nd = if term {
            let label = pos(self.rng, kind);
            let form = form(self.rng, kind);
            let mut lemma = if self.o.lemmas { lemma(self.rng) } else { None };
            if lemma.is_some() && self.rng.chance(1, 8) && form != "--" && form != "_" && !form.contains('%') {
                lemma = Some(form.clone());
            }
            Nd {
                term: true,
                label,
                form,
                lemma,
                feats: if self.o.t_feats && self.rng.chance(1, 2) { feats(self.rng) } else { Feats::new() },
                pos: 0,
                parent: None,
                edge: Lab::Is(None),
            }
        } else {
            Nd {
                term: false,
                label: label(self.rng, kind),
                form: String::new(),
                lemma: None,
                feats: if self.o.nt_feats && self.rng.chance(1, 3) { feats(self.rng) } else { Feats::new() },
                pos: 0,
                parent: None,
                edge: Lab::Is(None),
            }
        };
        let mut nd = nd;
        if term {
            // words that equal their tag, escaped brackets among them
            if self.rng.chance(1, 100) {
                nd.label = self.rng.pick(&["LBR", "RBR"]).to_string();
            }
            if nd.label.ends_with("BR") || self.rng.chance(1, 60) {
                if !(kind == Kind::Negra && nd.label.starts_with('#')) {
                    nd.form = nd.label.clone();
                }
            }
        }
        self.m.nodes.insert(id, nd);
        id
    }
    fn link(&mut self, p: Option<Id>, c: Id) {
        if let Some(p) = p {
            let e = if self.o.edges { edge(self.rng) } else { None };
            let n = self.m.nodes.get_mut(&c).unwrap();
            n.parent = Some(p);
            n.edge = Lab::Is(e);
        } else {
            self.m.root = c;
        }
    }
    /// subtree over positions lo..hi
    fn build(&mut self, mut parent: Option<Id>, lo: usize, hi: usize, mut depth: usize) {
        let n = hi - lo;
        let unary = self.o.unary;
        while depth < self.chain
            && (self.rng.chance(unary, 100) || parent.is_none() && n == 1 && !self.o.term_root)
        {
            let id = self.fresh(false);
            self.link(parent, id);
            parent = Some(id);
            depth += 1;
        }
        if n == 1 {
            let id = self.fresh(true);
            self.m.nodes.get_mut(&id).unwrap().pos = lo;
            self.link(parent, id);
            return;
        }
        let id = self.fresh(false);
        self.link(parent, id);
        let mut cuts: Vec<usize> = match self.style {
            // flat
            0 if depth == 0 || self.rng.chance(2, 3) => (lo + 1..hi).collect(),
            // several deep parts next to each other
            1 if self.parts && n > 3 && (depth < 3 && self.rng.chance(1, 2) || self.rng.chance(1, 60)) => {
                let k = self.rng.range(1, 3);
                (0..k).map(|_| self.rng.range(lo + 1, hi - 1)).collect()
            }
            // center embedding
            1 if self.parts && n > 3 && depth < self.side && self.rng.chance(1, 12) => vec![lo + 1, hi - 1],
            // right branching
            1 if depth < self.side => vec![lo + 1],
            // left branching
            2 if depth < self.side => vec![hi - 1],
            // groups of some hundred words
            8 if n > 1000 => (lo + 1..hi).filter(|i| (i - lo) % 257 == 0).collect(),
            8 if self.rng.chance(9, 10) => (lo + 1..hi).collect(),
            // comb of small groups
            3 => (lo + 1..hi).filter(|i| (i - lo) % 3 == 0 || n < 3).collect(),
            // random arity
            _ => {
                let k = 1 + self.rng.below(3.min(n - 1));
                let mut v: Vec<usize> = (0..k).map(|_| self.rng.range(lo + 1, hi - 1)).collect();
                if self.rng.chance(1, 6) {
                    v.extend(lo + 1..(lo + 4).min(hi));
                }
                v
            }
        };
        cuts.sort();
        cuts.dedup();
        if cuts.is_empty() {
            cuts.push(lo + n / 2);
        }
        let mut prev = lo;
        cuts.push(hi);
        for c in cuts {
            self.build(Some(id), prev, c, depth + 1);
            prev = c;
        }
    }
}

/// Random abstract tree.
pub fn gen_m(rng: &mut Rng, mut o: Opt) -> M {
    let mut style = rng.below(8);
    let (mut chain, mut side) = (120, 100);
    let (rate, deep) = GIANTS.with(|g| g.get());
    if rate > 0 && o.n > 1 && rng.chance(1, rate) {
        match rng.below(if deep { 5 } else { 2 }) {
            0 => {
                // more words than usual, most of them in one constituent
                o.n = rng.range(260, 1300);
                o.unary = o.unary.min(10);
                style = 0;
            }
            1 => {
                // many words and constituents
                o.n = rng.range(260, 700);
                o.unary = o.unary.min(30);
                style = rng.range(3, 7);
            }
            2 | 3 => {
                // one level per word
                o.n = rng.range(110, 350);
                o.unary = o.unary.min(10);
                style = *rng.pick(&[1, 1, 2]);
                chain = 400;
                side = 400;
            }
            _ => {
                // long unary chains
                o.n = rng.range(2, 6);
                o.unary = if o.unary == 0 { 0 } else { 98 };
                chain = rng.range(130, 600);
            }
        }
    }
    let colossus = if o.n > 1 { COLOSSUS.with(|c| c.replace(0)) } else { 0 };
    if colossus > 0 {
        o.n = colossus + rng.below(1000);
        o.unary = o.unary.min(5);
        style = 8;
    }
    let parts = rng.chance(1, 2);
    let mut b = B {
        rng,
        o,
        parts,
        chain,
        side,
        m: M {
            nodes: BTreeMap::new(),
            root: 0,
            sec: Vec::new(),
        },
        next: 0,
        style,
    };
    b.build(None, 0, o.n, 0);
    let mut m = b.m;
    if o.n > 1 && rng.chance(o.disc, 100) {
        cross(rng, &mut m);
    }
    if o.sec && rng.chance(1, 3) {
        let nts = m.nts();
        let all: Vec<Id> = m.nodes.keys().cloned().collect();
        if !nts.is_empty() {
            let mut used = Vec::new();
            for _ in 0..rng.range(1, 3) {
                let p = *rng.pick(&nts);
                let c = *rng.pick(&all);
                if p != c && c != m.root && !used.contains(&c) {
                    used.push(c);
                    let l = if rng.chance(1, 6) { None } else { Some(from_pool(rng, EDGES)) };
                    m.sec.push((p, c, l));
                }
            }
            m.sec.sort();
        }
    }
    m
}

/// Make branches cross.
pub fn cross(rng: &mut Rng, m: &mut M) {
    let n = m.n_terms();
    match rng.below(4) {
        // (everything is discontinuous then, long sentences take forever to projectivize)
        0 if m.nodes.len() <= LARGE => {
            // full permutation
            let ts = m.terms();
            let mut p: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut p);
            for (t, p) in ts.into_iter().zip(p) {
                m.nodes.get_mut(&t).unwrap().pos = p;
            }
        }
        0 | 1 => {
            for _ in 0..rng.range(1, 3) {
                let t = *rng.pick(&m.terms());
                let to = rng.below(n);
                m.move_term(t, to);
            }
        }
        _ => {
            // extraposition: reattach constituents elsewhere
            for _ in 0..rng.range(1, 4) {
                let all: Vec<Id> = m.nodes.keys().cloned().filter(|i| *i != m.root).collect();
                let nts = m.nts();
                if nts.is_empty() || all.is_empty() {
                    return;
                }
                let c = *rng.pick(&all);
                let p = *rng.pick(&nts);
                if m.reattach_refused(c, p).is_none() && m.nodes[&c].parent != Some(p) {
                    let e = m.nodes[&c].edge.clone();
                    m.reattach(c, p);
                    m.nodes.get_mut(&c).unwrap().edge = e;
                }
            }
        }
    }
}

// --- building real trees ---------------------------------------------------------------------

/// Set everything that is not structure on the real tree; `map` maps model ids to node indices.
fn decorate(tree: &mut Tree, m: &M, map: &BTreeMap<Id, NodeIndex>) {
    for (id, n) in &m.nodes {
        let i = map[id];
        tree[i].set_label(n.label.clone());
        if let Some(t) = tree[i].terminal_mut() {
            t.set_form(n.form.clone());
            t.set_lemma(n.lemma.clone());
        }
        tree[i].set_features(None);
        for (k, v) in &n.feats {
            tree[i].features_mut().insert(k.clone(), v.clone());
        }
        if n.parent.is_some() {
            if let Some((_, e)) = tree.parent(i) {
                tree[e].set_label(n.edge.get().map(ToOwned::to_owned));
            }
        }
    }
    for (a, b, l) in &m.sec {
        tree.add_secondary_edge(map[a], map[b], l.clone());
    }
}

/// Match the nodes of a model with those of a tree of the same structure: words by position, inner
/// nodes by climbing in parallel.
fn align(m: &M, words: &[Id], tree: &Tree) -> Result<BTreeMap<Id, NodeIndex>, String> {
    let snap = snapshot(tree)?;
    let mut map: BTreeMap<Id, NodeIndex> = BTreeMap::new();
    let ss = snap.sentence();
    if words.len() != ss.len() {
        return Err("wrong number of words".into());
    }
    for (a, b) in words.iter().zip(&ss) {
        let (mut a, mut b) = (*a, *b);
        loop {
            map.insert(a, ix(b));
            match (m.nodes[&a].parent, snap.nodes[&b].parent) {
                (Some(x), Some(y)) => {
                    a = x;
                    b = y;
                }
                (None, None) => break,
                _ => return Err("depths differ".into()),
            }
        }
    }
    if map.len() != snap.nodes.len() {
        return Err("wrong number of nodes".into());
    }
    Ok(map)
}

/// via bracket text in leaf order, words then moved to their positions
fn via_bracket(m: &M, rng: &mut Rng) -> Result<Tree, String> {
    let start: BTreeMap<Id, usize> = if m.nodes.len() > LARGE {
        m.coverage().iter().map(|(i, c)| (*i, *c.iter().min().unwrap())).collect()
    } else {
        BTreeMap::new()
    };
    let ch = {
        let mut c = m.children();
        for v in c.values_mut() {
            if m.nodes.len() > LARGE {
                v.sort_by_key(|i| start[i]);
            } else {
                rng.shuffle(v);
            }
        }
        c
    };
    let mut ids = Vec::new();
    let mut s = String::new();
    fn rec(m: &M, ch: &BTreeMap<Id, Vec<Id>>, id: Id, s: &mut String, ids: &mut Vec<Id>) {
        ids.push(id);
        if m.nodes[&id].term {
            s.push_str("(p w)");
        } else {
            s.push_str("(x");
            for &c in &ch[&id] {
                s.push(' ');
                rec(m, ch, c, s, ids);
            }
            s.push(')');
        }
    }
    rec(m, &ch, m.root, &mut s, &mut ids);
    let mut tree = PTBFormat::Simple.string_to_tree(&s).map_err(|e| e.to_string())?;
    // match by structure, the words are in the order of the text
    let leaves: Vec<Id> = ids.into_iter().filter(|i| m.nodes[i].term).collect();
    let map = align(m, &leaves, &tree).map_err(|e| format!("bracket route: {}", e))?;
    for (i, t) in m.sentence().into_iter().enumerate() {
        tree.move_terminal(map[&t], i);
    }
    decorate(&mut tree, m, &map);
    Ok(tree)
}

/// via NEGRA text
fn via_negra(m: &M, rng: &mut Rng) -> Result<Tree, String> {
    let mut bare = m.clone();
    for n in bare.nodes.values_mut() {
        n.label = "x".into();
        n.form = "w".into();
        n.lemma = None;
        n.feats.clear();
        n.edge = Lab::Is(None);
    }
    bare.sec.clear();
    let (txt, order) = text::negra_with_order(&bare, "1", None, &mut text::NegraStyle::random(rng), rng);
    let mut r = NegraReader::new(txt.as_bytes());
    let mut tree = match r.next() {
        Some(Ok(t)) => t,
        Some(Err(e)) => return Err(format!("negra route: {}", e)),
        None => return Err("negra route: nothing".into()),
    };
    let map = align(m, &m.sentence(), &tree).map_err(|e| format!("negra route: {}", e))?;
    let _ = order;
    decorate(&mut tree, m, &map);
    Ok(tree)
}

/// only through editing operations
fn via_api(m: &M, rng: &mut Rng) -> Result<Tree, String> {
    let mut ch = m.children();
    for v in ch.values_mut() {
        rng.shuffle(v);
    }
    let spine = |from: Id| -> (Id, Vec<Id>) {
        // down to the first leaf
        let mut path = vec![from];
        let mut cur = from;
        while !m.nodes[&cur].term {
            cur = ch[&cur][0];
            path.push(cur);
        }
        (cur, path)
    };
    let mut map: BTreeMap<Id, NodeIndex> = BTreeMap::new();
    let (leaf, path) = spine(m.root);
    let mut tree = Tree::new("w", "p");
    let mut cur = tree.root();
    map.insert(leaf, cur);
    let mut placed = vec![m.nodes[&leaf].pos];
    for id in path.iter().rev().skip(1) {
        cur = tree.insert_unary_above(cur, "x");
        map.insert(*id, cur);
    }
    // remaining children of placed inner nodes
    let mut todo: Vec<(Id, Id)> = Vec::new();
    for id in &path {
        if let Some(c) = ch.get(id) {
            todo.extend(c.iter().skip(1).map(|c| (*id, *c)));
        }
    }
    while !todo.is_empty() {
        let k = rng.below(todo.len());
        let (p, c) = todo.swap_remove(k);
        let (leaf, path) = spine(c);
        let at = m.nodes[&leaf].pos;
        let rank = placed.iter().filter(|x| **x < at).count();
        placed.push(at);
        let mut cur = tree.insert_terminal(map[&p], Terminal::new("w", "p", rank));
        map.insert(leaf, cur);
        for id in path.iter().rev().skip(1) {
            cur = tree.insert_unary_above(cur, "x");
            map.insert(*id, cur);
        }
        for id in &path {
            if let Some(c) = ch.get(id) {
                todo.extend(c.iter().skip(1).map(|c| (*id, *c)));
            }
        }
    }
    decorate(&mut tree, m, &map);
    Ok(tree)
}

/// Edits that are undone again but leave their traces in the node numbering.
fn noise(tree: &mut Tree, most: usize, rng: &mut Rng) -> Result<(), String> {
    for _ in 0..rng.range(1, most) {
        let m = snapshot(tree)?;
        let nts = m.nts();
        if nts.is_empty() {
            return Ok(());
        }
        match rng.below(3) {
            0 => {
                let p = *rng.pick(&nts);
                let at = rng.below(m.n_terms() + 1);
                let t = tree.insert_terminal(ix(p), Terminal::new("n", "n", at));
                tree.remove_node(t).map_err(|e| e.to_string())?;
            }
            1 => {
                // take a word out and put it back
                let t = *rng.pick(&m.terms());
                let (p, at) = (m.nodes[&t].parent, m.nodes[&t].pos);
                let p = match p {
                    Some(p) if m.kids(p).len() > 1 => p,
                    _ => continue,
                };
                if m.sec.iter().any(|(_, c, _)| *c == t) {
                    continue;
                }
                let n = m.nodes[&t].clone();
                tree.remove_node(ix(t)).map_err(|e| e.to_string())?;
                if rng.chance(1, 2) {
                    let q = *rng.pick(&nts);
                    let _hole = tree.insert_unary_above(ix(q), "hole");
                    let t2 = put_back(tree, p, &n, at);
                    tree.remove_node(_hole).map_err(|e| e.to_string())?;
                    let _ = t2;
                    restore_edges(tree, &m)?;
                } else {
                    put_back(tree, p, &n, at);
                }
            }
            _ => {
                let all: Vec<Id> = m.nodes.keys().cloned().collect();
                let q = *rng.pick(&all);
                let n = tree.insert_unary_above(ix(q), "n");
                tree.remove_node(n).map_err(|e| e.to_string())?;
                restore_edges(tree, &m)?;
            }
        }
    }
    Ok(())
}

fn put_back(tree: &mut Tree, p: Id, n: &Nd, at: usize) -> NodeIndex {
    let mut t = Terminal::new(n.form.clone(), n.label.clone(), at);
    t.set_lemma(n.lemma.clone());
    for (k, v) in &n.feats {
        t.features_mut().insert(k.clone(), v.clone());
    }
    let i = tree.insert_terminal(ix(p), t);
    if let Some((_, e)) = tree.parent(i) {
        tree[e].set_label(n.edge.get().map(ToOwned::to_owned));
    }
    i
}

/// edge labels may get lost when the noise is undone
fn restore_edges(tree: &mut Tree, m: &M) -> Result<(), String> {
    for (id, n) in &m.nodes {
        if tree.graph().contains_node(ix(*id)) && n.parent.is_some() {
            if let Some((_, e)) = tree.parent(ix(*id)) {
                tree[e].set_label(n.edge.get().map(ToOwned::to_owned));
            }
        }
    }
    Ok(())
}

/// Build a real tree for the model, unchecked. Err: a route failed.
pub fn build_raw(m: &M, rng: &mut Rng) -> Result<(Tree, &'static str), String> {
    let large = m.nodes.len() > LARGE;
    let straight = m.n_gappy() == 0;
    let route = match rng.below(3) {
        r if !large => r,
        0 if straight => 0,
        _ => 1,
    };
    let noisy = rng.chance(1, if large { 12 } else { 3 });
    let r = guard(|| -> Result<(Tree, &'static str), String> {
        let has_nt_root = !m.nodes[&m.root].term;
        let (mut tree, name) = match route {
            0 => (via_bracket(m, rng)?, "bracket"),
            1 if has_nt_root => (via_negra(m, rng)?, "negra"),
            _ => (via_api(m, rng)?, "api"),
        };
        if noisy {
            noise(&mut tree, if large { 1 } else { 5 }, rng)?;
        }
        Ok((tree, name))
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("setup panic: {}", p)),
    }
}

/// Build a real tree for the model. Err: the tree couldn't be set up as intended (precondition of
/// the check not met; the check for the property of the route reports that).
pub fn build(m: &M, rng: &mut Rng) -> Result<(Tree, &'static str), String> {
    let (tree, name) = build_raw(m, rng)?;
    let got = good(&tree).map_err(|e| format!("setup ({}): {}", name, e))?;
    if canon(&got, ALL) != canon(m, ALL) {
        return Err(format!(
            "setup ({}): tree differs from the intended one:\n{}\n{}",
            name,
            canon(&got, ALL),
            canon(m, ALL)
        ));
    }
    Ok((tree, name))
}

/// The most direct route: plain bracket text, no further edits. Only bracketing, labels, words.
fn plain(rng: &mut Rng, mut o: Opt) -> Result<(Tree, M, &'static str), String> {
    o.disc = 0;
    o.edges = false;
    o.lemmas = false;
    o.t_feats = false;
    o.nt_feats = false;
    o.sec = false;
    let mut m = gen_m(rng, o);
    for n in m.nodes.values_mut() {
        n.label = n.label.replace(|c| c == '(' || c == ')', "p");
        n.form = n.form.replace(|c| c == '(' || c == ')', "p");
    }
    let s = text::bracket(&m, text::Fmt::Simple);
    let tree = match guard(|| PTBFormat::Simple.string_to_tree(&s)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(format!("plain: {}", e)),
        Err(p) => return Err(format!("plain: {}", p)),
    };
    let got = good(&tree).map_err(|e| format!("plain: {}", e))?;
    if canon(&got, ALL) != canon(&m, ALL) {
        return Err("plain: tree differs".into());
    }
    Ok((tree, got, "plain"))
}

/// Random tree of the given kind with its snapshot. Falls back to other routes if one of them is
/// broken, such that the properties of the other operations can still be judged.
pub fn tree(rng: &mut Rng, o: Opt) -> Result<(Tree, M, &'static str), String> {
    let mut err = String::new();
    for _ in 0..3 {
        let m = gen_m(rng, o);
        match build(&m, rng) {
            Ok((t, r)) => {
                let m = snapshot(&t)?;
                return Ok((t, m, r));
            }
            Err(e) => err = e,
        }
    }
    plain(rng, o).map_err(|e| format!("{}; {}", err, e))
}
