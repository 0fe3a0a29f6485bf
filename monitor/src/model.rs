//! Reference model of a tree. A snapshot is taken from the raw graph of the tree (node and edge
//! lists), never from the tree's own navigation methods; the model operations predict snapshots.

use std::collections::{BTreeMap, BTreeSet};

use lumberjack::{Continuity, Node, Span, Tree};
use petgraph::prelude::NodeIndex;

pub type Id = usize;
pub type Feats = BTreeMap<String, Option<String>>;

/// Expected edge label; `Any` where the documentation leaves the label open.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Lab {
    Is(Option<String>),
    Any,
}

impl Lab {
    pub fn get(&self) -> Option<&str> {
        match self {
            Lab::Is(Some(s)) => Some(s.as_str()),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Nd {
    pub term: bool,
    pub label: String,
    pub form: String,
    pub lemma: Option<String>,
    pub feats: Feats,
    /// position in the sentence, terminals only
    pub pos: usize,
    pub parent: Option<Id>,
    /// label of the edge from the parent
    pub edge: Lab,
}

#[derive(Clone, Debug)]
pub struct M {
    pub nodes: BTreeMap<Id, Nd>,
    pub root: Id,
    pub sec: Vec<(Id, Id, Option<String>)>,
}

pub fn ix(id: Id) -> NodeIndex {
    NodeIndex::new(id)
}

pub fn feats_of(n: &Node) -> Feats {
    n.features().map(|f| f.inner().clone()).unwrap_or_default()
}

/// Take a snapshot of the real tree from its raw graph.
pub fn snapshot(tree: &Tree) -> Result<M, String> {
    let g = tree.graph();
    let mut nodes = BTreeMap::new();
    for n in g.node_indices() {
        let nd = match &g[n] {
            Node::Terminal(t) => Nd {
                term: true,
                label: t.label().to_string(),
                form: t.form().to_string(),
                lemma: t.lemma().map(ToOwned::to_owned),
                feats: feats_of(&g[n]),
                pos: t.idx(),
                parent: None,
                edge: Lab::Is(None),
            },
            Node::NonTerminal(nt) => Nd {
                term: false,
                label: nt.label().to_string(),
                form: String::new(),
                lemma: None,
                feats: feats_of(&g[n]),
                pos: 0,
                parent: None,
                edge: Lab::Is(None),
            },
        };
        nodes.insert(n.index(), nd);
    }
    let mut sec = Vec::new();
    for e in g.edge_indices() {
        let (a, b) = g
            .edge_endpoints(e)
            .ok_or_else(|| format!("edge {} has no endpoints", e.index()))?;
        let w = &g[e];
        let label = w.label().map(ToOwned::to_owned);
        if w.is_primary() {
            let nd = nodes
                .get_mut(&b.index())
                .ok_or_else(|| format!("edge to missing node {}", b.index()))?;
            if nd.parent.is_some() {
                return Err(format!("node {} has more than one primary parent", b.index()));
            }
            nd.parent = Some(a.index());
            nd.edge = Lab::Is(label);
        } else {
            sec.push((a.index(), b.index(), label));
        }
    }
    sec.sort();
    Ok(M {
        nodes,
        root: tree.root().index(),
        sec,
    })
}

impl M {
    pub fn children(&self) -> BTreeMap<Id, Vec<Id>> {
        let mut c: BTreeMap<Id, Vec<Id>> = BTreeMap::new();
        for (&id, n) in &self.nodes {
            if let Some(p) = n.parent {
                c.entry(p).or_default().push(id);
            }
        }
        c
    }
    pub fn kids(&self, id: Id) -> Vec<Id> {
        self.nodes
            .iter()
            .filter(|(_, n)| n.parent == Some(id))
            .map(|(&i, _)| i)
            .collect()
    }
    pub fn terms(&self) -> Vec<Id> {
        self.nodes.iter().filter(|(_, n)| n.term).map(|(&i, _)| i).collect()
    }
    pub fn nts(&self) -> Vec<Id> {
        self.nodes.iter().filter(|(_, n)| !n.term).map(|(&i, _)| i).collect()
    }
    /// terminals in sentence order
    pub fn sentence(&self) -> Vec<Id> {
        let mut t = self.terms();
        t.sort_by_key(|i| self.nodes[i].pos);
        t
    }
    pub fn n_terms(&self) -> usize {
        self.nodes.values().filter(|n| n.term).count()
    }
    /// ancestors bottom-up, without the node
    pub fn ancestors(&self, id: Id) -> Vec<Id> {
        let mut v = Vec::new();
        let mut cur = self.nodes[&id].parent;
        while let Some(p) = cur {
            v.push(p);
            if v.len() > self.nodes.len() {
                break;
            }
            cur = self.nodes.get(&p).and_then(|n| n.parent);
        }
        v
    }
    pub fn is_anc(&self, anc: Id, id: Id) -> bool {
        self.ancestors(id).contains(&anc)
    }
    pub fn coverage(&self) -> BTreeMap<Id, BTreeSet<usize>> {
        let mut c: BTreeMap<Id, BTreeSet<usize>> = BTreeMap::new();
        for (&id, n) in &self.nodes {
            c.entry(id).or_default();
            if n.term {
                c.entry(id).or_default().insert(n.pos);
                for a in self.ancestors(id) {
                    c.entry(a).or_default().insert(n.pos);
                }
            }
        }
        c
    }
    pub fn projective(&self) -> bool {
        self.coverage().values().all(|c| contiguous(c))
    }
    pub fn n_gappy(&self) -> usize {
        self.coverage().values().filter(|c| !contiguous(c)).count()
    }
    pub fn max_depth(&self) -> usize {
        self.terms().into_iter().map(|t| self.ancestors(t).len()).max().unwrap_or(0)
    }
    /// child order by leftmost position
    pub fn ordered(&self) -> BTreeMap<Id, Vec<Id>> {
        let cov = self.coverage();
        let mut c = self.children();
        for v in c.values_mut() {
            v.sort_by_key(|i| cov[i].iter().next().cloned().unwrap_or(0));
        }
        c
    }
    /// nodes in canonical pre-order (children by leftmost word)
    pub fn preorder(&self) -> Vec<Id> {
        let ch = self.ordered();
        let mut out = Vec::new();
        let mut st = vec![self.root];
        while let Some(n) = st.pop() {
            out.push(n);
            if out.len() > self.nodes.len() {
                break;
            }
            if let Some(c) = ch.get(&n) {
                st.extend(c.iter().rev());
            }
        }
        out
    }

    // --- model operations -------------------------------------------------------------------

    pub fn new_nt(&mut self, id: Id, label: &str) {
        self.nodes.insert(
            id,
            Nd {
                term: false,
                label: label.into(),
                form: String::new(),
                lemma: None,
                feats: Feats::new(),
                pos: 0,
                parent: None,
                edge: Lab::Is(None),
            },
        );
    }
    pub fn insert_above(&mut self, child: Id, new: Id, label: &str) {
        self.new_nt(new, label);
        let old_parent = self.nodes[&child].parent;
        self.nodes.get_mut(&new).unwrap().parent = old_parent;
        let c = self.nodes.get_mut(&child).unwrap();
        c.parent = Some(new);
        if old_parent.is_none() {
            c.edge = Lab::Is(None);
            self.root = new;
        }
    }
    pub fn insert_below(&mut self, node: Id, new: Id, label: &str) {
        let kids = self.kids(node);
        self.new_nt(new, label);
        self.nodes.get_mut(&new).unwrap().parent = Some(node);
        for k in kids {
            let k = self.nodes.get_mut(&k).unwrap();
            k.parent = Some(new);
            k.edge = Lab::Any;
        }
    }
    /// false if the removal has to be refused
    pub fn remove_nt(&mut self, node: Id) -> bool {
        let kids = self.kids(node);
        let parent = self.nodes[&node].parent;
        if parent.is_none() && kids.len() != 1 {
            return false;
        }
        for k in &kids {
            let n = self.nodes.get_mut(k).unwrap();
            n.parent = parent;
            n.edge = Lab::Is(None);
        }
        if parent.is_none() {
            self.root = kids[0];
        }
        self.drop_node(node);
        true
    }
    pub fn drop_node(&mut self, node: Id) {
        self.nodes.remove(&node);
        self.sec.retain(|(a, b, _)| *a != node && *b != node);
    }
    /// false if the removal has to be refused
    pub fn remove_term(&mut self, node: Id) -> bool {
        let parent = match self.nodes[&node].parent {
            Some(p) => p,
            None => return false,
        };
        if self.kids(parent).len() == 1 {
            return false;
        }
        let pos = self.nodes[&node].pos;
        self.drop_node(node);
        for n in self.nodes.values_mut().filter(|n| n.term && n.pos > pos) {
            n.pos -= 1;
        }
        true
    }
    pub fn insert_term(&mut self, parent: Id, new: Id, form: &str, label: &str, at: usize) {
        for n in self.nodes.values_mut().filter(|n| n.term && n.pos >= at) {
            n.pos += 1;
        }
        self.nodes.insert(
            new,
            Nd {
                term: true,
                label: label.into(),
                form: form.into(),
                lemma: None,
                feats: Feats::new(),
                pos: at,
                parent: Some(parent),
                edge: Lab::Is(None),
            },
        );
    }
    pub fn move_term(&mut self, t: Id, to: usize) {
        let mut s = self.sentence();
        let from = self.nodes[&t].pos;
        let x = s.remove(from);
        s.insert(to, x);
        for (i, id) in s.into_iter().enumerate() {
            self.nodes.get_mut(&id).unwrap().pos = i;
        }
    }
    /// reason of refusal for a primary reattachment
    pub fn reattach_refused(&self, child: Id, new_parent: Id) -> Option<&'static str> {
        let old = self.nodes[&child].parent.expect("primary edge has a parent");
        if child == new_parent {
            Some("below itself")
        } else if self.nodes[&new_parent].term {
            Some("below a word")
        } else if self.is_anc(child, new_parent) {
            Some("below a descendant")
        } else if old != new_parent && self.kids(old).len() == 1 {
            Some("only child")
        } else {
            None
        }
    }
    pub fn reattach(&mut self, child: Id, new_parent: Id) {
        let c = self.nodes.get_mut(&child).unwrap();
        c.parent = Some(new_parent);
        c.edge = Lab::Is(None);
    }
}

pub fn contiguous(c: &BTreeSet<usize>) -> bool {
    match (c.iter().next(), c.iter().next_back()) {
        (Some(a), Some(b)) => b - a + 1 == c.len(),
        _ => true,
    }
}

// --- oracles --------------------------------------------------------------------------------

/// Is the tree a single tree over words 0..n-1?
pub fn well_formed(tree: &Tree, m: &M) -> Result<(), String> {
    if !m.nodes.contains_key(&m.root) {
        return Err(format!("root {} is not in the graph", m.root));
    }
    if m.nodes[&m.root].parent.is_some() {
        return Err(format!("root {} has a parent", m.root));
    }
    let ch = m.children();
    for (&id, n) in &m.nodes {
        if n.parent.is_none() && id != m.root {
            return Err(format!("node {} ({}) has no parent but isn't the root", id, n.label));
        }
        let k = ch.get(&id).map(Vec::len).unwrap_or(0);
        if n.term && k > 0 {
            return Err(format!("word {} has children", id));
        }
        if !n.term && k == 0 {
            return Err(format!("inner node {} ({}) has no children", id, n.label));
        }
    }
    let mut seen = BTreeSet::new();
    let mut st = vec![m.root];
    while let Some(n) = st.pop() {
        if !seen.insert(n) {
            return Err(format!("node {} reached twice", n));
        }
        if let Some(c) = ch.get(&n) {
            st.extend(c);
        }
    }
    if seen.len() != m.nodes.len() {
        return Err(format!(
            "{} of {} nodes are reachable from the root",
            seen.len(),
            m.nodes.len()
        ));
    }
    let mut pos: Vec<usize> = m.nodes.values().filter(|n| n.term).map(|n| n.pos).collect();
    pos.sort();
    if pos != (0..pos.len()).collect::<Vec<_>>() {
        return Err(format!("word positions are {:?}", pos));
    }
    if tree.n_terminals() != pos.len() {
        return Err(format!(
            "n_terminals() is {} but there are {} words",
            tree.n_terminals(),
            pos.len()
        ));
    }
    Ok(())
}

/// Does a span describe exactly this set of positions?
pub fn span_is(span: &Span, cov: &BTreeSet<usize>) -> Result<(), String> {
    let v: Vec<usize> = cov.iter().cloned().collect();
    let (lo, hi) = match (v.first(), v.last()) {
        (Some(a), Some(b)) => (*a, *b + 1),
        _ => return Err("empty coverage".into()),
    };
    if (span.start, span.end) != (lo, hi) || span.bounds() != (lo, hi) {
        return Err(format!(
            "bounds {:?} / start {} end {} but coverage {:?}",
            span.bounds(),
            span.start,
            span.end,
            v
        ));
    }
    let it: Vec<usize> = span.into_iter().collect();
    if it != v {
        return Err(format!("iterates {:?} but coverage {:?}", it, v));
    }
    if span.n_indices() != v.len() {
        return Err(format!("n_indices {} but coverage {:?}", span.n_indices(), v));
    }
    let gaps: BTreeSet<usize> = (lo..hi).filter(|i| !cov.contains(i)).collect();
    match span.skips() {
        None if gaps.is_empty() => (),
        Some(s) if !gaps.is_empty() && s.iter().cloned().collect::<BTreeSet<_>>() == gaps => (),
        s => return Err(format!("skips {:?} but gaps {:?}", s, gaps)),
    }
    for i in lo.saturating_sub(2)..hi + 2 {
        if span.contains(i) != cov.contains(&i) {
            return Err(format!("contains({}) is {}, coverage {:?}", i, span.contains(i), v));
        }
    }
    Ok(())
}

/// Do all spans and the projectivity flag agree with the coverage?
pub fn spans_ok(tree: &Tree, m: &M) -> Result<(), String> {
    let cov = m.coverage();
    let mut gappy = 0;
    for (&id, c) in &cov {
        let n = &tree[ix(id)];
        span_is(n.span(), c).map_err(|e| format!("node {} ({}): {}", id, n.label(), e))?;
        let cont = contiguous(c);
        if !cont {
            gappy += 1;
        }
        let want = if cont { Continuity::Continuous } else { Continuity::Discontinuous };
        if n.continuity() != want {
            return Err(format!("node {}: continuity {:?}, coverage {:?}", id, n.continuity(), c));
        }
        if let Some(nt) = n.nonterminal() {
            if nt.continuity() != want || nt.span() != n.span() {
                return Err(format!("inner node {}: continuity/span accessors disagree", id));
            }
        }
        if let Some(t) = n.terminal() {
            if t.span() != n.span() || t.idx() != *c.iter().next().unwrap() {
                return Err(format!("word {}: span/idx accessors disagree", id));
            }
        }
    }
    if tree.is_projective() != (gappy == 0) {
        return Err(format!(
            "is_projective() is {} but {} nodes have gaps",
            tree.is_projective(),
            gappy
        ));
    }
    Ok(())
}

/// First difference between the expected and the observed snapshot.
pub fn diff(exp: &M, got: &M) -> Option<String> {
    if exp.root != got.root {
        return Some(format!("root: expected node {}, got {}", exp.root, got.root));
    }
    for (id, e) in &exp.nodes {
        let g = match got.nodes.get(id) {
            None => return Some(format!("node {} ({}) is gone", id, e.label)),
            Some(g) => g,
        };
        if e.term != g.term
            || e.label != g.label
            || e.form != g.form
            || e.lemma != g.lemma
            || e.feats != g.feats
        {
            return Some(format!("content of node {}: expected {:?}, got {:?}", id, e, g));
        }
        if e.pos != g.pos {
            return Some(format!(
                "position of word {} ({}): expected {}, got {}",
                id, e.form, e.pos, g.pos
            ));
        }
        if e.parent != g.parent {
            return Some(format!(
                "parent of node {} ({}): expected {:?}, got {:?}",
                id, e.label, e.parent, g.parent
            ));
        }
        if let Lab::Is(_) = e.edge {
            if e.edge != g.edge {
                return Some(format!(
                    "edge label above node {} ({}): expected {:?}, got {:?}",
                    id, e.label, e.edge, g.edge
                ));
            }
        }
    }
    for (id, g) in &got.nodes {
        if !exp.nodes.contains_key(id) {
            return Some(format!("unexpected node {} ({})", id, g.label));
        }
    }
    let mut a = exp.sec.clone();
    a.sort();
    if a != got.sec {
        return Some(format!("secondary edges: expected {:?}, got {:?}", a, got.sec));
    }
    None
}

/// What a canonical form shows.
#[derive(Clone, Copy)]
pub struct Show {
    pub edges: bool,
    pub nt_feats: bool,
    pub t_feats: bool,
    pub lemma: bool,
    pub sec: bool,
}

pub const ALL: Show = Show {
    edges: true,
    nt_feats: true,
    t_feats: true,
    lemma: true,
    sec: true,
};
pub const BARE: Show = Show {
    edges: false,
    nt_feats: false,
    t_feats: false,
    lemma: false,
    sec: false,
};

/// Numbering independent description of a tree.
pub fn canon(m: &M, s: Show) -> String {
    let ch = m.ordered();
    let mut out = String::new();
    fn rec(m: &M, ch: &BTreeMap<Id, Vec<Id>>, id: Id, s: Show, out: &mut String, depth: usize) {
        let n = &m.nodes[&id];
        if depth > m.nodes.len() {
            out.push_str("<cycle>");
            return;
        }
        out.push('(');
        out.push_str(&format!("{:?}", n.label));
        if s.edges && n.parent.is_some() {
            out.push_str(&format!(" edge={:?}", n.edge.get()));
        }
        if n.term {
            out.push_str(&format!(" {:?}@{}", n.form, n.pos));
            if s.lemma {
                out.push_str(&format!(" lemma={:?}", n.lemma));
            }
        }
        if (n.term && s.t_feats || !n.term && s.nt_feats) && !n.feats.is_empty() {
            out.push_str(&format!(" {:?}", n.feats));
        }
        if let Some(c) = ch.get(&id) {
            for &k in c {
                out.push(' ');
                rec(m, ch, k, s, out, depth + 1);
            }
        }
        out.push(')');
    }
    rec(m, &ch, m.root, s, &mut out, 0);
    if s.sec && !m.sec.is_empty() {
        let order: BTreeMap<Id, usize> =
            m.preorder().into_iter().enumerate().map(|(i, id)| (id, i)).collect();
        let mut v: Vec<_> = m
            .sec
            .iter()
            .map(|(a, b, l)| (order.get(a), order.get(b), l.clone().unwrap_or_else(|| "--".into())))
            .collect();
        v.sort();
        out.push_str(&format!(" sec={:?}", v));
    }
    out
}

/// snapshot + well-formed + spans
pub fn good(tree: &Tree) -> Result<M, String> {
    let m = snapshot(tree)?;
    well_formed(tree, &m)?;
    spans_ok(tree, &m)?;
    Ok(m)
}
