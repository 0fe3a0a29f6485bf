//! C05-C11: operations on whole trees.

use std::collections::{BTreeMap, BTreeSet, HashSet};

use lumberjack::util::LabelSet;
use lumberjack::{AnnotatePOS, Projectivize, Terminal, Tree, TreeOps, UnaryChains};

use crate::gen::{self, Kind};
use crate::h::*;
use crate::model::*;
use crate::rng::Rng;

pub fn s(e: impl std::fmt::Display) -> String {
    e.to_string()
}

/// A set of labels of the tree: positive or negative.
pub fn label_set(rng: &mut Rng, m: &M, terms: bool) -> LabelSet {
    let mut pool: Vec<String> = m
        .nodes
        .values()
        .filter(|n| n.term == terms)
        .map(|n| n.label.clone())
        .collect();
    pool.push("zzz".into());
    let k = *rng.pick(&[0, 1, 1, 2, 3, 5, 9]);
    let set: HashSet<String> = (0..k).map(|_| rng.pick(&pool).clone()).collect();
    if rng.chance(1, 2) {
        LabelSet::Positive(set)
    } else {
        LabelSet::Negative(set)
    }
}

/// Predicates on inner nodes, evaluated on the model.
fn pred(rng: &mut Rng, m: &M, terms: bool) -> (BTreeSet<Id>, &'static str) {
    let ids = if terms { m.terms() } else { m.nts() };
    let (set, what): (BTreeSet<Id>, &str) = match rng.below(6) {
        0 => {
            let ls = label_set(rng, m, terms);
            (ids.into_iter().filter(|i| ls.matches(m.nodes[i].label.as_str())).collect(), "labels")
        }
        1 => (
            ids.into_iter().filter(|i| m.nodes[i].feats.contains_key("k")).collect(),
            "annotation",
        ),
        2 => (BTreeSet::new(), "none"),
        3 => (ids.into_iter().collect(), "all"),
        4 => {
            // all but a few
            let mut v: BTreeSet<Id> = ids.iter().cloned().collect();
            if !ids.is_empty() {
                for _ in 0..rng.range(1, 2) {
                    v.remove(rng.pick(&ids));
                }
            }
            (v, "all but few")
        }
        _ => {
            let d = rng.range(1, 5) as u64;
            (ids.into_iter().filter(|_| rng.chance(d, 6)).collect(), "identity")
        }
    };
    (set, what)
}

fn describe(cx: &mut Cx, op: &str, m: &M) {
    cx.desc = format!("{} on {}", op, canon(m, BARE));
}

fn got(tree: &Tree) -> Result<M, String> {
    snapshot(tree)
}

/// Random tree; returns None if the case has to be skipped.
fn tree(cx: &mut Cx, f: impl Fn(&mut gen::Opt, &mut Rng)) -> Option<(Tree, M)> {
    let n = gen::size(&mut cx.rng, cx.thorough);
    let mut o = gen::opt(Kind::Free, n);
    f(&mut o, &mut cx.rng);
    match gen::tree(&mut cx.rng, o) {
        Ok((t, m, r)) => {
            cx.count(&format!("route {}", r));
            cx.add("words", m.n_terms() as u64);
            if m.n_gappy() > 0 {
                cx.count("discontinuous trees");
            }
            if m.n_terms() > 64 {
                cx.count("trees over 64 words");
            }
            let idx_order: Vec<Id> = m.terms();
            if idx_order != m.sentence() {
                cx.count("trees numbered out of sentence order");
            }
            Some((t, m))
        }
        Err(e) => {
            cx.skipped = Some(e);
            None
        }
    }
}

// --- C05 ---------------------------------------------------------------------------------------

fn c05(cx: &mut Cx) -> Res {
    let (mut t, m) = match tree(cx, |o, r| o.unary = *r.pick(&[5, 20, 45])) {
        Some(x) => x,
        None => return Ok(()),
    };
    let (keep, what) = pred(&mut cx.rng, &m, false);
    describe(cx, &format!("filter ({}) keeping {:?}", what, keep), &m);
    let k = keep.clone();
    calm("filter_nonterminals", || t.filter_nonterminals(|_, n| k.contains(&n.index())))?
        .map_err(|e| format!("filter_nonterminals failed: {}", e))?;
    let mut exp = m.clone();
    let mut removed = 0;
    for id in m.nts() {
        if id == m.root || keep.contains(&id) {
            continue;
        }
        removed += 1;
        let p = exp.nodes[&id].parent;
        for c in exp.kids(id) {
            let c = exp.nodes.get_mut(&c).unwrap();
            c.parent = p;
            c.edge = Lab::Is(None);
        }
        exp.drop_node(id);
    }
    cx.add("nodes removed", removed);
    cx.add("nodes kept", (m.nts().len() as u64).saturating_sub(removed));
    if let Some(d) = diff(&exp, &got(&t)?) {
        return Err(d);
    }
    cx.nontrivial = removed > 0;
    Ok(())
}

// --- C06 ---------------------------------------------------------------------------------------

fn c06(cx: &mut Cx) -> Res {
    let (mut t, m) = match tree(cx, |o, r| o.unary = *r.pick(&[5, 20, 45])) {
        Some(x) => x,
        None => return Ok(()),
    };
    let nts = m.nts();
    let (hit, what) = pred(&mut cx.rng, &m, true);
    if nts.is_empty() {
        // a single word
        cx.count("single words");
        describe(cx, "reattach below a single word", &m);
        calm("reattach_terminals", || t.reattach_terminals(ix(m.root), |_, n| hit.contains(&n.index())))?;
        return match diff(&m, &got(&t)?) {
            Some(d) => Err(d),
            None => Ok(()),
        };
    }
    let at = if cx.rng.chance(1, 3) { m.root } else { *cx.rng.pick(&nts) };
    describe(cx, &format!("reattach ({}) {:?} to {}", what, hit, at), &m);
    // inner nodes with at least one word that stays, the attachment point with its ancestors
    let mut keep: BTreeSet<Id> = BTreeSet::new();
    keep.insert(at);
    keep.extend(m.ancestors(at));
    keep.insert(m.root);
    for t in m.terms() {
        if !hit.contains(&t) {
            keep.extend(m.ancestors(t));
        }
    }
    let forms: BTreeSet<Id> = hit.clone();
    calm("reattach_terminals", || {
        t.reattach_terminals(ix(at), |_, n| forms.contains(&n.index()))
    })?;
    let mut exp = m.clone();
    let mut removed = 0;
    for id in m.nts() {
        if !keep.contains(&id) {
            exp.drop_node(id);
            removed += 1;
        }
    }
    for (id, n) in exp.nodes.iter_mut() {
        if hit.contains(id) {
            // a new link carries no label; a word that hung there already may keep its own
            n.edge = if n.parent == Some(at) { Lab::Any } else { Lab::Is(None) };
            n.parent = Some(at);
        }
    }
    // nothing below a kept node hangs below a removed one: words that stay keep all ancestors
    cx.add("words reattached", hit.len() as u64);
    cx.add("nodes removed", removed);
    let g = got(&t)?;
    if let Some(d) = diff(&exp, &g) {
        // an attachment point that lost all its words keeps what it needs: covered by the model
        return Err(d);
    }
    cx.nontrivial = !hit.is_empty();
    Ok(())
}

// --- C07 ---------------------------------------------------------------------------------------

fn c07(cx: &mut Cx) -> Res {
    let (mut t, m) = match tree(cx, |o, r| o.unary = *r.pick(&[5, 15, 30])) {
        Some(x) => x,
        None => return Ok(()),
    };
    let (hit, what) = pred(&mut cx.rng, &m, false);
    let by_node = cx.rng.chance(1, 2);
    // labels that occur in the tree already are as good as others
    let own = cx.rng.chance(1, 3);
    let labels: BTreeMap<Id, String> = m.nodes.iter().map(|(i, n)| (*i, n.label.clone())).collect();
    let lab = move |n: usize| -> String {
        if own {
            labels[&n].clone()
        } else if by_node {
            format!("INS{}", n)
        } else {
            "INS".to_string()
        }
    };
    describe(cx, &format!("insert_intermediate ({}) below {:?}", what, hit), &m);
    let h = hit.clone();
    // the predicate may match the inserted nodes as well
    let again = cx.rng.chance(1, 2);
    let known: BTreeSet<Id> = m.nodes.keys().cloned().collect();
    let r = calm("insert_intermediate", || {
        t.insert_intermediate(|_, n| {
            if h.contains(&n.index()) {
                Some(lab(n.index()))
            } else if again && !known.contains(&n.index()) {
                Some("AGAIN".to_string())
            } else {
                None
            }
        })
    })?;
    let g = got(&t)?;
    if m.nodes[&m.root].term {
        cx.count("single words");
        if r.is_ok() {
            return Err("a word without parent was accepted".into());
        }
        return match diff(&m, &g) {
            Some(d) => Err(format!("refused, but: {}", d)),
            None => Ok(()),
        };
    }
    r.map_err(|e| format!("insert_intermediate failed: {}", e))?;
    // expected runs
    let mut runs: Vec<(Id, Vec<Id>)> = Vec::new();
    for p in m.nts() {
        if !hit.contains(&p) {
            continue;
        }
        let mut ws: Vec<Id> = m.kids(p).into_iter().filter(|k| m.nodes[k].term).collect();
        ws.sort_by_key(|w| m.nodes[w].pos);
        let mut cur: Vec<Id> = Vec::new();
        for w in ws {
            if let Some(l) = cur.last() {
                if m.nodes[l].pos + 1 != m.nodes[&w].pos {
                    runs.push((p, std::mem::replace(&mut cur, Vec::new())));
                }
            }
            cur.push(w);
        }
        if !cur.is_empty() {
            runs.push((p, cur));
        }
    }
    let mut exp = m.clone();
    for (p, ws) in &runs {
        let new = match g.nodes.get(&ws[0]).and_then(|n| n.parent) {
            Some(n) => n,
            None => return Err(format!("word {} lost its parent", ws[0])),
        };
        if exp.nodes.contains_key(&new) {
            return Err(format!("no node was inserted between {} and the run {:?}", p, ws));
        }
        exp.new_nt(new, &lab(*p));
        let x = exp.nodes.get_mut(&new).unwrap();
        x.parent = Some(*p);
        x.edge = Lab::Any;
        for w in ws {
            let w = exp.nodes.get_mut(w).unwrap();
            w.parent = Some(new);
            w.edge = Lab::Any;
        }
    }
    cx.add("runs", runs.len() as u64);
    if runs.iter().any(|r| r.1.len() > 1) {
        cx.count("trees with runs of several words");
    }
    if let Some(d) = diff(&exp, &g) {
        return Err(d);
    }
    if exp.nodes.len() != m.nodes.len() + runs.len() {
        return Err("one node covers several runs".into());
    }
    cx.nontrivial = !runs.is_empty();
    Ok(())
}

// --- C08 ---------------------------------------------------------------------------------------

fn c08(cx: &mut Cx) -> Res {
    let (mut t, m) = match tree(cx, |o, r| o.unary = *r.pick(&[5, 20, 40])) {
        Some(x) => x,
        None => return Ok(()),
    };
    let (hit, what) = pred(&mut cx.rng, &m, false);
    let feat = cx.rng.pick(&["tag", "id", "k", "a b", "ü", "morph"]).to_string();
    let nearest = |w: Id| -> Option<Id> { m.ancestors(w).into_iter().find(|a| hit.contains(a)) };
    let op = cx.rng.below(6);
    describe(
        cx,
        &format!("projection {} ({}) of {:?} to {:?}", op, what, hit, feat),
        &m,
    );
    let h = hit.clone();
    let mut exp = m.clone();
    let mut n_found = 0;
    match op {
        0 => {
            cx.count("op project_tag_set");
            calm("project_tag_set", || t.project_tag_set(&feat, |_, n| h.contains(&n.index())))?;
            for w in m.terms() {
                if let Some(a) = nearest(w) {
                    n_found += 1;
                    let l = m.nodes[&a].label.clone();
                    exp.nodes.get_mut(&w).unwrap().feats.insert(feat.clone(), Some(l));
                }
            }
        }
        1 => {
            cx.count("op project_ids");
            calm("project_ids", || t.project_ids(&feat, |_, n| h.contains(&n.index())))?;
            let g = got(&t)?;
            let mut ids: BTreeMap<Id, String> = BTreeMap::new();
            for w in m.terms() {
                if let Some(a) = nearest(w) {
                    n_found += 1;
                    let v = g.nodes.get(&w).and_then(|n| n.feats.get(&feat).cloned());
                    let v = match v {
                        Some(Some(v)) => v,
                        v => return Err(format!("word {} below {} has id {:?}", w, a, v)),
                    };
                    match ids.get(&a) {
                        Some(o) if *o != v => {
                            return Err(format!("node {} gives the ids {} and {}", a, o, v));
                        }
                        _ => (),
                    }
                    ids.insert(a, v.clone());
                    exp.nodes.get_mut(&w).unwrap().feats.insert(feat.clone(), Some(v));
                }
            }
            let vals: BTreeSet<&String> = ids.values().collect();
            if vals.len() != ids.len() {
                return Err(format!("different nodes got the same id: {:?}", ids));
            }
        }
        2 => {
            cx.count("op project_nt_indices");
            let v = calm("project_nt_indices", || t.project_nt_indices(|_, n| h.contains(&n.index())))?;
            let e: Vec<usize> = m.sentence().into_iter().map(|w| nearest(w).unwrap_or(m.root)).collect();
            let v: Vec<usize> = v.into_iter().map(|n| n.index()).collect();
            if v != e {
                return Err(format!("project_nt_indices gives {:?}, expected {:?}", v, e));
            }
            n_found = e.len();
        }
        3 => {
            cx.count("op annotate_parent_tag");
            let r = calm("annotate_parent_tag", || t.annotate_parent_tag(&feat))?;
            if m.nodes[&m.root].term {
                if r.is_ok() {
                    return Err("annotate_parent_tag accepts a word without parent".into());
                }
            } else {
                r.map_err(|e| format!("annotate_parent_tag: {}", e))?;
                for w in m.terms() {
                    n_found += 1;
                    let l = m.nodes[&m.nodes[&w].parent.unwrap()].label.clone();
                    exp.nodes.get_mut(&w).unwrap().feats.insert(feat.clone(), Some(l));
                }
            }
        }
        4 => {
            // climbing with a stop
            cx.count("op map_climber_path");
            let mut seen: BTreeMap<Id, Vec<Id>> = BTreeMap::new();
            let mut order: Vec<Id> = Vec::new();
            calm("map_climber_path", || {
                t.map_climber_path(|_, n, w| {
                    if order.last() != Some(&w.index()) {
                        order.push(w.index());
                    }
                    seen.entry(w.index()).or_default().push(n.index());
                    h.contains(&n.index())
                })
            })?;
            let o: BTreeSet<Id> = order.iter().cloned().collect();
            if o.len() != order.len() {
                return Err(format!("a word was visited twice: {:?}", order));
            }
            for w in m.terms() {
                let mut e: Vec<Id> = Vec::new();
                for a in m.ancestors(w) {
                    e.push(a);
                    if hit.contains(&a) {
                        break;
                    }
                }
                n_found += e.len();
                let g = seen.remove(&w).unwrap_or_default();
                if g != e {
                    return Err(format!("climbing from word {} shows {:?}, expected {:?}", w, g, e));
                }
            }
            if !seen.is_empty() {
                return Err(format!("climbing from nodes that aren't words: {:?}", seen));
            }
        }
        _ => {
            // removal of the node that is shown, as in the documentation
            cx.count("op map_climber_path with removal");
            let (stop, _) = pred(&mut cx.rng, &m, false);
            let mut alive = m.clone();
            let mut seen: Vec<(Id, Id, bool)> = Vec::new();
            let root = m.root;
            calm("map_climber_path", || {
                t.map_climber_path(|t, n, w| {
                    let rm = h.contains(&n.index()) && n.index() != root;
                    seen.push((w.index(), n.index(), rm));
                    if rm {
                        t.remove_node(n).unwrap();
                        return false;
                    }
                    stop.contains(&n.index())
                })
            })?;
            // replay on the model, in the order of words the library chose
            let mut words: Vec<Id> = Vec::new();
            for (w, _, _) in &seen {
                if words.last() != Some(w) {
                    words.push(*w);
                }
            }
            let ws: BTreeSet<Id> = words.iter().cloned().collect();
            let all: BTreeSet<Id> = m.terms().into_iter().filter(|w| m.nodes[w].parent.is_some()).collect();
            if ws.len() != words.len() || ws != all {
                return Err(format!("words visited: {:?}, words: {:?}", words, all));
            }
            let mut e: Vec<(Id, Id, bool)> = Vec::new();
            for w in words {
                for a in alive.ancestors(w) {
                    let rm = hit.contains(&a) && a != root;
                    e.push((w, a, rm));
                    if rm {
                        alive.remove_nt(a);
                        n_found += 1;
                    } else if stop.contains(&a) {
                        break;
                    }
                }
            }
            if seen != e {
                return Err(format!("callback saw {:?}, expected {:?}", seen, e));
            }
            exp = alive;
        }
    }
    cx.add("annotations or steps judged", n_found as u64);
    if let Some(d) = diff(&exp, &got(&t)?) {
        return Err(d);
    }
    cx.nontrivial = n_found > 0;
    Ok(())
}

// --- C09 ---------------------------------------------------------------------------------------

/// The collapsed tree by the definition.
pub fn collapsed(m: &M, delim: &str) -> M {
    let mut e = m.clone();
    loop {
        let next = e.nts().into_iter().find(|n| {
            let k = e.kids(*n);
            // bottom-most first
            k.len() == 1 && (e.nodes[&k[0]].term || e.kids(k[0]).len() != 1)
        });
        let n = match next {
            Some(n) => n,
            None => return e,
        };
        let k = e.kids(n)[0];
        let l = e.nodes[&n].label.clone();
        let chain = match e.nodes[&k].feats.get("unary_chain") {
            Some(Some(c)) => format!("{}{}{}", c, delim, l),
            _ => l,
        };
        e.nodes.get_mut(&k).unwrap().feats.insert("unary_chain".into(), Some(chain));
        e.remove_nt(n);
    }
}

fn c09(cx: &mut Cx) -> Res {
    let (mut t, mut m) = match tree(cx, |o, r| {
        o.unary = *r.pick(&[10, 30, 50, 70]);
        if o.unary > 40 {
            o.n = o.n.min(12);
        }
    }) {
        Some(x) => x,
        None => return Ok(()),
    };
    if cx.rng.chance(1, 6) {
        // nodes without label
        let nts = m.nts();
        for _ in 0..cx.rng.range(1, 4) {
            if nts.is_empty() {
                break;
            }
            let i = *cx.rng.pick(&nts);
            t[ix(i)].set_label("");
            m.nodes.get_mut(&i).unwrap().label = String::new();
        }
        cx.count("trees with nodes without label");
    }
    let delims = ["_", "|", "::", "\u{1}", "->", " ", "ÿ", "_ _", "%", "."];
    let mut delim = "\u{1}";
    for _ in 0..6 {
        let d = *cx.rng.pick(&delims);
        // the delimiter must not arise across the seam of two labels either
        if !m.nodes.values().any(|n| n.label.contains(d) || d.chars().any(|c| n.label.contains(c))) {
            delim = d;
            break;
        }
    }
    describe(cx, &format!("collapse with {:?}", delim), &m);
    let cycles = cx.rng.range(1, 3);
    let mut cur = m.clone();
    for cycle in 0..cycles {
        calm("collapse_unary_chains", || t.collapse_unary_chains(delim))?
            .map_err(|e| format!("collapse_unary_chains: {}", e))?;
        let g = got(&t)?;
        let exp = collapsed(&cur, delim);
        if let Some(d) = diff(&exp, &g) {
            return Err(format!("collapse (cycle {}): {}", cycle, d));
        }
        let removed = cur.nodes.len() - exp.nodes.len();
        cx.add("nodes collapsed", removed as u64);
        cx.nontrivial |= removed > 0;
        if cur.nodes[&cur.root].parent.is_none() && !g.nodes.contains_key(&cur.root) {
            cx.count("chains at the root");
        }
        // once more: nothing left to collapse
        if cx.rng.chance(1, 4) {
            calm("collapse_unary_chains", || t.collapse_unary_chains(delim))?
                .map_err(|e| format!("collapse_unary_chains: {}", e))?;
            if let Some(d) = diff(&exp, &got(&t)?) {
                return Err(format!("collapsing a collapsed tree: {}", d));
            }
        }
        // edits of the words of the collapsed tree
        if cx.rng.chance(1, 3) {
            let ws = g.terms();
            for _ in 0..cx.rng.range(1, 3) {
                let w = *cx.rng.pick(&ws);
                let f = gen::word(&mut cx.rng, 4);
                t[ix(w)].terminal_mut().unwrap().set_form(f.clone());
                cur.nodes.get_mut(&w).unwrap().form = f;
                let to = cx.rng.below(ws.len());
                if calm("move_terminal", || t.move_terminal(ix(w), to)).is_err() {
                    return Ok(());
                }
                cur.move_term(w, to);
            }
            cx.count("edits of collapsed trees");
        }
        calm("restore_unary_chains", || t.restore_unary_chains(delim))?
            .map_err(|e| format!("restore_unary_chains: {}", e))?;
        let g = got(&t)?;
        if let Some(n) = g.nodes.values().find(|n| n.feats.contains_key("unary_chain")) {
            return Err(format!("restored tree keeps the record {:?}", n));
        }
        let show = Show {
            t_feats: true,
            lemma: true,
            ..BARE
        };
        let (a, b) = (canon(&g, show), canon(&cur, show));
        if a != b {
            return Err(format!("restored (cycle {}):\n{}\nexpected:\n{}", cycle, a, b));
        }
        // nodes that weren't collapsed keep their annotations
        for (id, n) in &exp.nodes {
            let mut f = n.feats.clone();
            f.remove("unary_chain");
            match g.nodes.get(id) {
                Some(x) if x.feats == f && x.label == n.label => (),
                x => return Err(format!("node {} was {:?}, after restoring {:?}", id, n, x)),
            }
        }
        calm("restore_unary_chains", || t.restore_unary_chains(delim))?
            .map_err(|e| format!("restore_unary_chains: {}", e))?;
        if let Some(d) = diff(&g, &got(&t)?) {
            return Err(format!("restoring a restored tree: {}", d));
        }
        cur = g;
    }
    Ok(())
}

// --- C10 ---------------------------------------------------------------------------------------

/// Source of choices that enumerates all sequences of choices.
struct Choices {
    /// (choice, number of alternatives)
    path: Vec<(usize, usize)>,
    at: usize,
}

impl Choices {
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.at == self.path.len() {
            self.path.push((0, n));
        }
        let c = self.path[self.at].0;
        self.at += 1;
        c
    }
    /// next sequence, false if there are no more
    fn advance(&mut self) -> bool {
        self.at = 0;
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

/// Projectivization by the definition: bottom-up, whatever interrupts a constituent is attached to
/// it at the highest node that interrupts. The order of siblings and gaps is left to `ch`.
fn projectivized(m: &M, ch: &mut Choices) -> M {
    let mut e = m.clone();
    let mut stack = vec![m.root];
    let mut discovered = BTreeSet::new();
    let mut finished = BTreeSet::new();
    while let Some(&a) = stack.last() {
        if discovered.insert(a) {
            let mut k: Vec<Id> = e
                .kids(a)
                .into_iter()
                .filter(|c| !e.nodes[c].term && !discovered.contains(c))
                .collect();
            while !k.is_empty() {
                let i = ch.choose(k.len());
                stack.push(k.remove(i));
            }
            continue;
        }
        stack.pop();
        if !finished.insert(a) {
            continue;
        }
        loop {
            let cov = e.coverage();
            let c = &cov[&a];
            let (lo, hi) = (*c.iter().next().unwrap(), *c.iter().next_back().unwrap());
            let sent = e.sentence();
            let mut handles: Vec<Id> = Vec::new();
            for g in (lo..=hi).filter(|i| !c.contains(i)) {
                // highest ancestor-or-self of the word that doesn't dominate a
                let mut handle = sent[g];
                for x in e.ancestors(sent[g]) {
                    if cov[&x].is_superset(c) {
                        break;
                    }
                    handle = x;
                }
                if !handles.contains(&handle) {
                    handles.push(handle);
                }
            }
            if handles.is_empty() {
                break;
            }
            let handle = handles[ch.choose(handles.len())];
            let lab = e.nodes[&handle].edge.clone();
            e.reattach(handle, a);
            e.nodes.get_mut(&handle).unwrap().edge = lab;
        }
    }
    e
}

fn c10(cx: &mut Cx) -> Res {
    let (mut t, m) = match tree(cx, |o, r| {
        o.disc = 92;
        o.n = if r.chance(1, 2) { r.range(3, 8) } else { o.n.max(3).min(60) };
        o.unary = *r.pick(&[5, 15, 30]);
    }) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut m = m;
    // children numbered higher or lower than their parents, edges added in any order
    if cx.rng.chance(1, 3) {
        let r = edit_some(&mut t, &mut cx.rng);
        if r.is_err() || good(&t).is_err() {
            return skip(cx, "edits failed".into());
        }
        m = snapshot(&t)?;
    }
    describe(cx, "projectivize", &m);
    let gappy = m.n_gappy();
    if t.is_projective() != (gappy == 0) {
        return skip(cx, "projectivity flag".into());
    }
    let r = calm("projectivize", || t.projectivize())?;
    let g = got(&t)?;
    if gappy == 0 {
        cx.count("projective trees");
        if r.is_some() {
            return Err(format!("moves reported for a projective tree: {:?}", r));
        }
        return match diff(&m, &g) {
            Some(d) => Err(d),
            None => Ok(()),
        };
    }
    cx.count("discontinuous trees projectivized");
    let moves = r.ok_or("no moves reported for a discontinuous tree")?;
    if !g.projective() || !t.is_projective() {
        return Err(format!(
            "result isn't projective (is_projective() is {}): {}",
            t.is_projective(),
            canon(&g, BARE)
        ));
    }
    // everything but the parents is unchanged
    let mut e = m.clone();
    let mut moved: BTreeSet<Id> = BTreeSet::new();
    for (id, n) in e.nodes.iter_mut() {
        if let Some(x) = g.nodes.get(id) {
            if x.parent != n.parent {
                moved.insert(*id);
                n.parent = x.parent;
            }
        }
    }
    if let Some(d) = diff(&e, &g) {
        return Err(d);
    }
    for id in &moved {
        let old = m.nodes[id].parent.ok_or("the root was moved")?;
        let new = g.nodes[id].parent.ok_or("a node lost its parent")?;
        if !g.is_anc(old, new) {
            return Err(format!("node {} moved from {} to {}, which isn't below it", id, old, new));
        }
    }
    for id in m.nodes.keys() {
        let a: BTreeSet<Id> = g.ancestors(*id).into_iter().collect();
        if let Some(x) = m.ancestors(*id).into_iter().find(|x| !a.contains(x)) {
            return Err(format!("node {} was dominated by {}, but isn't any more", id, x));
        }
    }
    // report
    let mut listed: BTreeMap<Id, (Id, Option<String>)> = BTreeMap::new();
    for (p, e, c) in &moves {
        if !e.is_primary() {
            return Err(format!("reported edge {:?} is secondary", e));
        }
        // the first entry of a node names its original parent
        listed
            .entry(c.index())
            .or_insert((p.index(), e.label().map(ToOwned::to_owned)));
    }
    let l: BTreeSet<Id> = listed.keys().cloned().collect();
    if l != moved {
        return Err(format!("reported nodes {:?}, moved nodes {:?}", l, moved));
    }
    for (c, (p, e)) in &listed {
        if m.nodes[c].parent != Some(*p) || m.nodes[c].edge != Lab::Is(e.clone()) {
            return Err(format!(
                "node {} reported with parent {} and edge {:?}, was {:?} and {:?}",
                c, p, e, m.nodes[c].parent, m.nodes[c].edge
            ));
        }
    }
    cx.add("moves", moved.len() as u64);
    cx.add("reported moves", moves.len() as u64);
    // the tree by the definition, for some order of siblings and gaps
    let budget = if m.nodes.len() > 150 {
        // (the definition is evaluated literally, which takes too long here)
        cx.count("too large to compare with the definition");
        0
    } else if m.nodes.len() <= 16 {
        400
    } else if m.nodes.len() <= 40 {
        60
    } else {
        8
    };
    let mut ch = Choices {
        path: Vec::new(),
        at: 0,
    };
    let mut first = None;
    let mut runs = 0;
    while runs < budget {
        let a = projectivized(&m, &mut ch);
        runs += 1;
        let d = match diff(&a, &g) {
            None => {
                cx.count("result found among those of the definition");
                break;
            }
            Some(d) => d,
        };
        first.get_or_insert(d);
        if runs >= budget {
            cx.count("too many orders to compare with the definition");
            break;
        }
        if !ch.advance() {
            return Err(format!(
                "differs from the definition for all {} orders of siblings and gaps: {}",
                runs,
                first.unwrap()
            ));
        }
    }
    cx.add("orders tried", runs);
    cx.nontrivial = true;
    Ok(())
}

/// A few edits that change numbering and edge order.
pub fn edit_some(t: &mut Tree, rng: &mut Rng) -> Result<(), String> {
    for _ in 0..rng.range(1, 5) {
        let m = snapshot(t)?;
        let nts = m.nts();
        let ws = m.terms();
        if nts.is_empty() {
            return Ok(());
        }
        let k = rng.below(5);
        let r = guard(|| match k {
            0 => t.move_terminal(ix(*rng.pick(&ws)), rng.below(ws.len())),
            1 => {
                let f = gen::form(rng, Kind::Simple).replace(|c| c == '(' || c == ')', "");
                t.insert_terminal(
                    ix(*rng.pick(&nts)),
                    Terminal::new(if f.is_empty() { "e".into() } else { f }, "NEW", rng.below(ws.len() + 1)),
                );
            }
            2 => {
                let _ = t.remove_node(ix(*rng.pick(&ws)));
            }
            3 => {
                let _ = t.remove_node(ix(*rng.pick(&nts)));
            }
            _ => {
                t.insert_unary_above(ix(*rng.pick(&nts)), "MID");
            }
        });
        r?;
    }
    Ok(())
}

// --- C11 ---------------------------------------------------------------------------------------

fn c11(cx: &mut Cx) -> Res {
    let (mut t, m) = match tree(cx, |_, _| ()) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut m = m;
    if cx.rng.chance(1, 2) {
        if edit_some(&mut t, &mut cx.rng).is_err() || good(&t).is_err() {
            return skip(cx, "edits failed".into());
        }
        m = snapshot(&t)?;
    }
    let n = m.n_terms();
    let k = match cx.rng.below(8) {
        0 => n - 1,
        1 => n + 1,
        2 => cx.rng.below(n + 1),
        3 => n + cx.rng.range(1, 5),
        4 => 0,
        _ => n,
    };
    let tags: Vec<String> = (0..k)
        .map(|i| match cx.rng.below(14) {
            0 => cx.rng.pick(&["", " ", "\t", "A B", "-", "--", "_", "\u{a0}"]).to_string(),
            1...6 => gen::pos(&mut cx.rng, Kind::Free),
            _ => format!("T{}", i),
        })
        .collect();
    let blank = tags.iter().any(|t| t.split_whitespace().next() != Some(t.as_str()));
    cx.add("blank tags", blank as u64);
    describe(cx, &format!("annotate_pos with {} of {} tags", k, n), &m);
    let ts = tags.clone();
    // the list comes in many shapes, with and without a known length
    let r = match cx.rng.below(10) {
        0 => calm("annotate_pos", || t.annotate_pos(ts))?,
        1 => calm("annotate_pos", || t.annotate_pos(ts.iter().map(String::as_str)))?,
        2 => calm("annotate_pos", || t.annotate_pos(&ts))?,
        3 => {
            let mut it = ts.into_iter();
            calm("annotate_pos", || t.annotate_pos(std::iter::from_fn(|| it.next())))?
        }
        4 => calm("annotate_pos", || t.annotate_pos(ts.iter().filter(|t| t.len() < 1 << 20).map(String::as_str)))?,
        5 => calm("annotate_pos", || t.annotate_pos(ts.into_iter().collect::<std::collections::VecDeque<_>>()))?,
        6 => {
            // an iterator that may look much longer than it is
            let many: Vec<Option<String>> = ts
                .into_iter()
                .flat_map(|t| {
                    let mut v = vec![Some(t)];
                    v.extend((0..17).map(|_| None));
                    v
                })
                .collect();
            calm("annotate_pos", || t.annotate_pos(many.into_iter().filter_map(|x| x)))?
        }
        7 => {
            // ... or shorter
            let (a, b) = (ts[..k / 2].to_vec(), ts[k / 2..].to_vec());
            calm("annotate_pos", || t.annotate_pos(vec![a, b].into_iter().flat_map(|x| x)))?
        }
        8 => {
            // the tags of a longer list up to a mark
            let mut long: Vec<Option<String>> = ts.into_iter().map(Some).collect();
            long.push(None);
            long.extend((0..2 * n + 3).map(|i| Some(format!("Z{}", i))));
            calm("annotate_pos", || t.annotate_pos(long.into_iter().take_while(Option::is_some).map(|x| x.unwrap())))?
        }
        _ if blank => calm("annotate_pos", || t.annotate_pos(ts.into_boxed_slice().into_vec()))?,
        _ => {
            let text = ts.join(" ");
            calm("annotate_pos", || t.annotate_pos(text.split_whitespace()))?
        }
    };
    if k != n {
        cx.count(if k < n { "lists too short" } else { "lists too long" });
        if r.is_ok() {
            return Err(format!("{} tags for {} words were accepted", k, n));
        }
        return Ok(());
    }
    r.map_err(|e| format!("annotate_pos: {}", e))?;
    let mut e = m.clone();
    for (w, tag) in m.sentence().into_iter().zip(tags) {
        e.nodes.get_mut(&w).unwrap().label = tag;
    }
    cx.add("tags judged", n as u64);
    if let Some(d) = diff(&e, &got(&t)?) {
        return Err(d);
    }
    cx.nontrivial = true;
    Ok(())
}

const RULE: &str = "a case counts if the operation had something to do (nodes removed, words moved, values annotated, ...) and its result was compared completely; distinct by operation, arguments and tree";

pub static CHECKS: &[&Check] = &[
    &Check {
        id: "C05",
        rule: RULE,
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c05,
        assumptions: &[],
    },
    &Check {
        id: "C06",
        rule: RULE,
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c06,
        assumptions: &["a matched word that already hangs at the attachment point may keep its edge label; predicates depend on the word, not on the state of the tree while it is being changed"],
    },
    &Check {
        id: "C07",
        rule: RULE,
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c07,
        assumptions: &["edge labels above and below the inserted nodes are left open by the documentation"],
    },
    &Check {
        id: "C08",
        rule: RULE,
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c08,
        assumptions: &[],
    },
    &Check {
        id: "C09",
        rule: RULE,
        quick: 30_000,
        thorough: 1_000_000,
        threads: 8,
        min_judged: 60,
        run: c09,
        assumptions: &["no character of the delimiter occurs in a label"],
    },
    &Check {
        id: "C10",
        rule: "a case counts if the tree was discontinuous and the moves, the report and the result were judged; distinct by tree",
        quick: 30_000,
        thorough: 1_000_000,
        threads: 8,
        min_judged: 60,
        run: c10,
        assumptions: &["where a node is reported more than once the first entry names its original parent"],
    },
    &Check {
        id: "C11",
        rule: RULE,
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c11,
        assumptions: &[],
    },
];
