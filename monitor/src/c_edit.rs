//! C01-C04, C23: histories of edits.

use std::collections::{BTreeMap, BTreeSet};

use conllx::graph::Sentence;
use conllx::token::{Features as XFeatures, Token};
use lumberjack::io::{Decode, TryFromConllx};
use lumberjack::util::{Climber, LabelSet};
use lumberjack::{Projectivize, Terminal, Tree, TreeOps, UnaryChains};
use petgraph::prelude::{EdgeIndex, NodeIndex};

use crate::gen::{self, Kind};
use crate::h::*;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Judge {
    WellFormed,
    Spans,
    Structure,
    Sentence,
    Navigation,
}

fn small(rng: &mut Rng, thorough: bool) -> usize {
    match rng.below(20) {
        0 => 1,
        1 | 2 => 2,
        3..=12 => rng.range(3, 7),
        13..=17 => rng.range(6, 13),
        18 => rng.range(12, 30),
        _ => {
            if rng.chance(1, if thorough { 2 } else { 6 }) {
                rng.range(64, 140)
            } else {
                rng.range(20, 45)
            }
        }
    }
}

/// A tree from random labels.
fn decoded(rng: &mut Rng) -> Option<Tree> {
    let n = rng.range(1, 9);
    let mut s = Sentence::new();
    for i in 0..n {
        let mut t = Token::new(gen::word(rng, 3));
        t.set_pos(Some(gen::word(rng, 2)));
        let chain = if rng.chance(1, 5) { "~U_V" } else { "" };
        let v = if i + 1 == n || rng.chance(1, 10) {
            format!("NONE{}", chain)
        } else {
            format!("{}+{}{}", rng.pick(&["X", "NP", "VP", "A_B"]), rng.range(1, 5), chain)
        };
        t.set_features(Some(XFeatures::from_string(format!("abs_ancestor:{}", v))));
        s.push(t);
    }
    guard(|| Tree::try_from_conllx_with_absolute_encoding(&s).ok()).ok().and_then(|t| t)
}

fn start(cx: &mut Cx, judge: Judge) -> Result<Option<Tree>, String> {
    let n = small(&mut cx.rng, cx.thorough);
    let raw = judge == Judge::WellFormed || judge == Judge::Spans;
    match cx.rng.below(12) {
        0 => {
            if let Some(t) = decoded(&mut cx.rng) {
                cx.step("start: decoded from labels".into());
                cx.count("start decoded");
                return Ok(Some(t));
            }
        }
        1 if cx.rng.chance(1, 2) => {
            cx.step("start: Tree::new".into());
            cx.count("start new");
            return Ok(Some(Tree::new("w", "P")));
        }
        _ => (),
    }
    let mut o = gen::opt(Kind::Free, n);
    o.disc = 60;
    o.unary = *cx.rng.pick(&[0, 10, 25, 45]);
    if raw {
        for _ in 0..3 {
            let m = gen::gen_m(&mut cx.rng, o);
            if let Ok((t, r)) = gen::build_raw(&m, &mut cx.rng) {
                cx.count(&format!("start {}", r));
                cx.step(format!("start ({}): {}", r, canon(&m, BARE)));
                return Ok(Some(t));
            }
        }
    }
    match gen::tree(&mut cx.rng, o) {
        Ok((t, m, r)) => {
            cx.count(&format!("start {}", r));
            cx.step(format!("start ({}): {}", r, canon(&m, BARE)));
            Ok(Some(t))
        }
        Err(e) => {
            cx.skipped = Some(e);
            Ok(None)
        }
    }
}

fn edge_above(tree: &Tree, m: &M, child: Id) -> Option<EdgeIndex> {
    let p = m.nodes[&child].parent?;
    tree.graph()
        .edge_indices()
        .find(|e| tree.graph().edge_endpoints(*e) == Some((ix(p), ix(child))) && tree[*e].is_primary())
}

fn sec_edges(tree: &Tree) -> Vec<EdgeIndex> {
    tree.graph().edge_indices().filter(|e| !tree[*e].is_primary()).collect()
}

fn labels(rng: &mut Rng, m: &M) -> LabelSet {
    let mut pool: Vec<String> = m.nodes.values().map(|n| n.label.clone()).collect();
    pool.push("zzz".into());
    let k = rng.range(0, 3);
    let set = (0..k).map(|_| rng.pick(&pool).clone()).collect();
    if rng.chance(1, 2) {
        LabelSet::Positive(set)
    } else {
        LabelSet::Negative(set)
    }
}

/// The operations that aren't predicted by the model in this module.
fn bulk_op(cx: &mut Cx, tree: &mut Tree, m: &M) -> Result<(), String> {
    let rng = &mut cx.rng;
    let n_ops = 11;
    let op = rng.below(n_ops);
    let ls = labels(rng, m);
    let nts = m.nts();
    let what;
    let r = match op {
        0 => {
            what = "filter_nonterminals".to_string();
            calm(&what, || tree.filter_nonterminals(|t, n| ls.matches(t[n].label()))).map(|r| r.is_ok())
        }
        1 => {
            let at = if nts.is_empty() { m.root } else { *rng.pick(&nts) };
            let at = if rng.chance(1, 3) { m.root } else { at };
            if m.nodes[&at].term && m.nodes.len() > 1 {
                return Ok(());
            }
            what = format!("reattach_terminals to {}", at);
            calm(&what, || {
                tree.reattach_terminals(ix(at), |t, n| ls.matches(t[n].label()));
                true
            })
        }
        2 => {
            what = "insert_intermediate".to_string();
            calm(&what, || {
                tree.insert_intermediate(|t, n| {
                    if ls.matches(t[n].label()) {
                        Some("INS".to_string())
                    } else {
                        None
                    }
                })
            })
            .map(|r| r.is_ok())
        }
        3 | 4 => {
            what = "projectivize".to_string();
            calm(&what, || tree.projectivize()).map(|r| r.is_some())
        }
        5 => {
            what = "collapse_unary_chains".to_string();
            calm(&what, || tree.collapse_unary_chains("\u{1}")).map(|r| r.is_ok())
        }
        6 => {
            what = "restore_unary_chains".to_string();
            calm(&what, || tree.restore_unary_chains("\u{1}")).map(|r| r.is_ok())
        }
        7 => {
            what = "remove_dummy_nodes".to_string();
            for id in m.nts() {
                if rng.chance(1, 5) {
                    tree[ix(id)].set_label("DUMMY");
                }
            }
            calm(&what, || tree.remove_dummy_nodes()).map(|r| r.is_ok())
        }
        8 => {
            what = "map_climber_path with removals".to_string();
            calm(&what, || {
                let mut k = 0;
                tree.map_climber_path(|t, n, _| {
                    k += 1;
                    if ls.matches(t[n].label()) {
                        let _ = t.remove_node(n);
                    }
                    k > 40
                });
                true
            })
        }
        9 => {
            what = "project_ids, annotate_parent_tag".to_string();
            calm(&what, || {
                tree.project_ids("id", |t, n| ls.matches(t[n].label()));
                tree.annotate_parent_tag("par").is_ok()
            })
        }
        _ => {
            what = "clone".to_string();
            calm(&what, || {
                let c = tree.clone();
                let old = std::mem::replace(tree, c);
                let mut old = old;
                let _ = old.projectivize();
                true
            })
        }
    };
    let ok = r?;
    cx.step(format!("{} -> {}", what, ok));
    let name = what.split(' ').next().unwrap().to_string();
    cx.count(&format!("op {}{}", name, if ok { "" } else { " refused" }));
    Ok(())
}

/// One predicted operation: (expected state, description) or an immediate verdict.
fn structure_op(cx: &mut Cx, tree: &mut Tree, m: &M) -> Result<M, String> {
    let mut exp = m.clone();
    let all: Vec<Id> = m.nodes.keys().cloned().collect();
    let nts = m.nts();
    let rng = &mut cx.rng;
    let any = *rng.pick(&all);
    let lab = gen::word(rng, 3);
    match rng.below(16) {
        0 | 1 => {
            let s = format!("insert_unary_above({}, {})", any, lab);
            let new = calm(&s, || tree.insert_unary_above(ix(any), lab.clone()))?.index();
            cx.step(format!("{} -> {}", s, new));
            cx.count("op insert_unary_above");
            if m.nodes.contains_key(&new) {
                return Err(format!("{} returned the existing node {}", s, new));
            }
            exp.insert_above(any, new, &lab);
        }
        2 | 3 => {
            let s = format!("insert_unary_below({}, {})", any, lab);
            let r = calm(&s, || tree.insert_unary_below(ix(any), lab.clone()).map_err(|e| e.to_string()))?;
            cx.step(format!("{} -> {:?}", s, r));
            match (m.nodes[&any].term, r) {
                (true, Err(_)) => cx.count("op insert_unary_below refused"),
                (false, Ok(n)) => {
                    let new = n.index();
                    if m.nodes.contains_key(&new) {
                        return Err(format!("{} returned the existing node {}", s, new));
                    }
                    cx.count("op insert_unary_below");
                    exp.insert_below(any, new, &lab);
                }
                (t, r) => return Err(format!("{} below a {} gave {:?}", s, if t { "word" } else { "node" }, r)),
            }
        }
        4..=6 => {
            // removal of inner nodes
            if nts.is_empty() {
                return Ok(exp);
            }
            let n = *rng.pick(&nts);
            let s = format!("remove_node({})", n);
            let r = calm(&s, || tree.remove_node(ix(n)).map_err(|e| e.to_string()))?;
            cx.step(format!("{} -> {}", s, r.is_ok()));
            let allowed = exp.remove_nt(n);
            match (allowed, r) {
                (true, Ok(node)) => {
                    cx.count("op remove inner node");
                    let o = &m.nodes[&n];
                    if node.is_terminal() || node.label() != o.label || feats_of(&node) != o.feats {
                        return Err(format!("{} returned {:?}, removed node was {:?}", s, node, o));
                    }
                }
                (false, Err(_)) => cx.count("op remove inner node refused"),
                (a, r) => {
                    return Err(format!(
                        "{}: should be {}, but is_ok() is {}",
                        s,
                        if a { "accepted" } else { "refused" },
                        r.is_ok()
                    ))
                }
            }
        }
        7..=10 => {
            // primary reattachment
            let cands: Vec<Id> = all.iter().cloned().filter(|i| *i != m.root).collect();
            if cands.is_empty() {
                return Ok(exp);
            }
            let c = *rng.pick(&cands);
            let np = match rng.below(8) {
                0 => c,
                1 => m.nodes[&c].parent.unwrap(),
                2 => {
                    let d: Vec<Id> = all.iter().cloned().filter(|d| m.is_anc(c, *d)).collect();
                    if d.is_empty() {
                        any
                    } else {
                        *rng.pick(&d)
                    }
                }
                3 => {
                    let a = m.ancestors(c);
                    *rng.pick(&a)
                }
                4 => any,
                _ => *rng.pick(&nts),
            };
            let e = edge_above(tree, m, c).ok_or("no edge above node")?;
            let old = m.nodes[&c].edge.clone();
            let s = format!("reattach_node({}, edge above {})", np, c);
            let r = calm(&s, || tree.reattach_node(ix(np), e).map_err(|e| e.to_string()))?;
            cx.step(format!("{} -> {:?}", s, r));
            match (m.reattach_refused(c, np), r) {
                (Some(why), Err(_)) => cx.count(&format!("op reattach refused ({})", why)),
                (None, Ok((new, w))) => {
                    cx.count("op reattach");
                    exp.reattach(c, np);
                    if tree.graph().edge_endpoints(new) != Some((ix(np), ix(c))) || !tree[new].is_primary() {
                        return Err(format!(
                            "{} returned edge {:?} connecting {:?}",
                            s,
                            new,
                            tree.graph().edge_endpoints(new)
                        ));
                    }
                    if !w.is_primary() || w.label() != old.get() {
                        return Err(format!("{} returned old edge {:?}, label was {:?}", s, w, old));
                    }
                }
                (Some(why), Ok(_)) => return Err(format!("{} ({}) was accepted", s, why)),
                (None, Err(e)) => return Err(format!("{} was refused: {}", s, e)),
            }
        }
        11 | 12 => {
            if nts.is_empty() {
                return Ok(exp);
            }
            let p = *rng.pick(&nts);
            if p == any || any == m.root {
                return Ok(exp);
            }
            let l = gen::edge(rng);
            let s = format!("add_secondary_edge({}, {}, {:?})", p, any, l);
            let e = calm(&s, || tree.add_secondary_edge(ix(p), ix(any), l.clone()))?;
            cx.step(s.clone());
            cx.count("op add secondary edge");
            if tree.graph().edge_endpoints(e) != Some((ix(p), ix(any)))
                || tree[e].is_primary()
                || tree[e].label() != l.as_ref().map(String::as_str)
            {
                return Err(format!("{} returned another edge", s));
            }
            exp.sec.push((p, any, l));
        }
        13 => {
            // removal of secondary edges; primary and missing ones are left alone
            let secs = sec_edges(tree);
            let kind = rng.below(4);
            let (e, some) = if kind < 2 && !secs.is_empty() {
                (*rng.pick(&secs), true)
            } else if kind == 2 && m.nodes.len() > 1 {
                let c = *rng.pick(&all);
                match edge_above(tree, m, c) {
                    Some(e) => (e, false),
                    None => return Ok(exp),
                }
            } else {
                (EdgeIndex::new(100_000 + rng.below(5)), false)
            };
            let ends = tree.graph().edge_endpoints(e);
            let s = format!("remove_secondary_edge({:?} {:?})", e, ends);
            let r = calm(&s, || tree.remove_secondary_edge(e))?;
            cx.step(format!("{} -> {:?}", s, r));
            cx.count(if some { "op remove secondary edge" } else { "op remove secondary edge refused" });
            match r {
                Some(w) if some => {
                    let (a, b) = ends.unwrap();
                    let l = w.label().map(ToOwned::to_owned);
                    let k = exp
                        .sec
                        .iter()
                        .position(|x| *x == (a.index(), b.index(), l.clone()))
                        .ok_or_else(|| format!("{} returned {:?}", s, w))?;
                    exp.sec.remove(k);
                    if w.is_primary() {
                        return Err(format!("{} returned {:?}", s, w));
                    }
                }
                None if !some => (),
                r => return Err(format!("{} returned {:?}", s, r)),
            }
        }
        14 => {
            // reattachment of secondary edges
            let secs = sec_edges(tree);
            if secs.is_empty() {
                return Ok(exp);
            }
            let e = *rng.pick(&secs);
            let (a, b) = tree.graph().edge_endpoints(e).unwrap();
            let old = tree[e].label().map(ToOwned::to_owned);
            let s = format!("reattach_node({}, secondary edge {:?} -> {:?})", any, a, b);
            let r = calm(&s, || tree.reattach_node(ix(any), e).map_err(|e| e.to_string()))?;
            cx.step(format!("{} -> {:?}", s, r));
            let refused = m.nodes[&any].term || any == b.index();
            match (refused, r) {
                (true, Err(_)) => cx.count("op reattach secondary refused"),
                (false, Ok((new, w))) => {
                    cx.count("op reattach secondary");
                    if tree.graph().edge_endpoints(new) != Some((ix(any), b)) || tree[new].is_primary() {
                        return Err(format!("{} returned another edge", s));
                    }
                    if w.is_primary() || w.label() != old.as_ref().map(String::as_str) {
                        return Err(format!("{} returned old edge {:?}", s, w));
                    }
                    let k = exp
                        .sec
                        .iter()
                        .position(|x| *x == (a.index(), b.index(), old.clone()))
                        .ok_or("model without that edge")?;
                    exp.sec.remove(k);
                    exp.sec.push((any, b.index(), None));
                }
                (f, r) => return Err(format!("{}: refusal expected: {}, got {:?}", s, f, r)),
            }
        }
        _ => {
            // arguments that aren't in the tree
            let ghost = NodeIndex::new(90_000);
            let k = rng.below(3);
            let r = match k {
                0 => guard(|| tree.remove_node(ghost).is_ok()),
                1 => match edge_above(tree, m, any) {
                    Some(e) => guard(|| tree.reattach_node(ghost, e).is_ok()),
                    None => return Ok(exp),
                },
                _ => guard(|| tree.reattach_node(ix(m.root), EdgeIndex::new(90_000)).is_ok()),
            };
            cx.step(format!("missing node or edge as argument ({}) -> {:?}", k, r));
            cx.count("op with missing node or edge");
            if let Ok(true) = r {
                return Err(format!("operation {} on a missing node or edge succeeded", k));
            }
        }
    }
    Ok(exp)
}

fn sentence_op(cx: &mut Cx, tree: &mut Tree, m: &M) -> Result<M, String> {
    let mut exp = m.clone();
    let nts = m.nts();
    let terms = m.sentence();
    let n = terms.len();
    let rng = &mut cx.rng;
    match rng.below(12) {
        0..=2 => {
            if nts.is_empty() {
                // documented panic: parent is a word
                let r = guard(|| tree.insert_terminal(ix(m.root), Terminal::new("f", "p", 0)));
                cx.step(format!("insert_terminal below a word -> {:?}", r));
                cx.count("op insert_terminal below a word");
                if r.is_ok() {
                    return Err("insert_terminal below a word was accepted".into());
                }
                return Ok(exp);
            }
            let p = if rng.chance(1, 12) { *rng.pick(&terms) } else { *rng.pick(&nts) };
            let at = match rng.below(12) {
                0 => 0,
                1 => n,
                2 => n + 1 + rng.below(3),
                _ => rng.below(n + 1),
            };
            let f = gen::form(rng, Kind::Free);
            let l = gen::pos(rng, Kind::Free);
            let mut t = Terminal::new(f.clone(), l.clone(), at);
            let fe = if rng.chance(1, 2) { gen::feats(rng) } else { Feats::new() };
            for (k, v) in &fe {
                t.features_mut().insert(k.clone(), v.clone());
            }
            let le = gen::lemma(rng);
            t.set_lemma(le.clone());
            let bad = at > n || m.nodes[&p].term;
            let s = format!("insert_terminal({}, {} at {})", p, f, at);
            let r = guard(|| tree.insert_terminal(ix(p), t));
            cx.step(format!("{} -> {:?}", s, r));
            match (bad, r) {
                (true, Err(_)) => cx.count("op insert_terminal refused"),
                (false, Ok(new)) => {
                    cx.count("op insert_terminal");
                    let new = new.index();
                    if m.nodes.contains_key(&new) {
                        return Err(format!("{} returned the existing node {}", s, new));
                    }
                    exp.insert_term(p, new, &f, &l, at);
                    let x = exp.nodes.get_mut(&new).unwrap();
                    x.feats = fe;
                    x.lemma = le;
                }
                (false, Err(e)) => return Err(format!("{} panicked: {}", s, e)),
                (true, Ok(_)) => return Err(format!("{} of {} words was accepted", s, n)),
            }
        }
        3 | 4 => {
            let f = gen::form(rng, Kind::Free);
            let l = gen::pos(rng, Kind::Free);
            let s = format!("push_terminal({})", f);
            let r = calm(&s, || tree.push_terminal(f.clone(), l.clone()).map_err(|e| e.to_string()))?;
            cx.step(format!("{} -> {:?}", s, r));
            match (m.nodes[&m.root].term, r) {
                (true, Err(_)) => cx.count("op push_terminal refused"),
                (false, Ok(new)) => {
                    cx.count("op push_terminal");
                    let new = new.index();
                    if m.nodes.contains_key(&new) {
                        return Err(format!("{} returned the existing node {}", s, new));
                    }
                    exp.insert_term(m.root, new, &f, &l, n);
                }
                (t, r) => return Err(format!("{}: root is a word: {}, got {:?}", s, t, r)),
            }
        }
        5..=8 => {
            let bad_node = rng.chance(1, 14) && !nts.is_empty();
            let t = if bad_node { *rng.pick(&nts) } else { *rng.pick(&terms) };
            let to = match rng.below(12) {
                0 => n + rng.below(3),
                1 => m.nodes[&t].pos,
                2 => 0,
                3 => n - 1,
                _ => rng.below(n),
            };
            let s = format!("move_terminal({}, {})", t, to);
            let r = guard(|| tree.move_terminal(ix(t), to));
            cx.step(format!("{} -> {:?}", s, r));
            match (bad_node || to >= n, r) {
                (true, Err(_)) => cx.count("op move_terminal refused"),
                (false, Ok(())) => {
                    cx.count("op move_terminal");
                    exp.move_term(t, to);
                }
                (false, Err(e)) => return Err(format!("{} panicked: {}", s, e)),
                (true, Ok(())) => return Err(format!("{} of {} words was accepted", s, n)),
            }
        }
        _ => {
            let t = *rng.pick(&terms);
            let s = format!("remove_node({}) (word {} at {})", t, m.nodes[&t].form, m.nodes[&t].pos);
            let r = calm(&s, || tree.remove_node(ix(t)).map_err(|e| e.to_string()))?;
            cx.step(format!("{} -> {}", s, r.is_ok()));
            match (exp.remove_term(t), r) {
                (true, Ok(node)) => {
                    cx.count("op remove word");
                    let o = &m.nodes[&t];
                    let x = node.terminal().ok_or_else(|| format!("{} returned an inner node", s))?;
                    if x.form() != o.form || x.label() != o.label || feats_of(&node) != o.feats {
                        return Err(format!("{} returned {:?}, removed word was {:?}", s, node, o));
                    }
                }
                (false, Err(_)) => cx.count("op remove word refused"),
                (a, r) => {
                    return Err(format!(
                        "{}: should be {}, but is_ok() is {}",
                        s,
                        if a { "accepted" } else { "refused" },
                        r.is_ok()
                    ))
                }
            }
        }
    }
    Ok(exp)
}

fn run_history(cx: &mut Cx, judge: Judge) -> Res {
    let mut tree = match start(cx, judge)? {
        Some(t) => t,
        None => return Ok(()),
    };
    let len = if cx.thorough { cx.rng.range(5, 120) } else { cx.rng.range(3, 45) };
    let raw = judge == Judge::WellFormed || judge == Judge::Spans;
    // state of the clone taken on the way, has to stay as it was
    for step in 0..=len {
        // judge the current state
        let m = match snapshot(&tree) {
            Ok(m) => m,
            Err(e) if judge == Judge::WellFormed => return Err(e),
            Err(e) => return end(cx, step, e),
        };
        match well_formed(&tree, &m) {
            Err(e) if judge == Judge::WellFormed => return Err(e),
            Err(e) => return end(cx, step, e),
            Ok(()) => (),
        }
        if judge != Judge::WellFormed && judge != Judge::Navigation {
            match spans_ok(&tree, &m) {
                Err(e) if judge == Judge::Spans => return Err(e),
                Err(e) if !raw => return end(cx, step, e),
                _ => (),
            }
        }
        cx.count("states judged");
        if m.n_gappy() > 0 {
            cx.count("discontinuous states");
        }
        if !m.sec.is_empty() {
            cx.count("states with secondary edges");
        }
        if judge == Judge::Navigation {
            navigation(cx, &tree, &m)?;
        }
        if step == len {
            break;
        }
        let k = cx.rng.below(12);
        let structural = match judge {
            Judge::Structure => k < 9,
            Judge::Sentence => k < 2,
            _ => k < 5,
        };
        let sentential = !structural
            && match judge {
                Judge::Structure => k < 11,
                Judge::Sentence => k < 11,
                _ => k < 9,
            };
        let r = if structural {
            structure_op(cx, &mut tree, &m).map(Some)
        } else if sentential {
            sentence_op(cx, &mut tree, &m).map(Some)
        } else {
            bulk_op(cx, &mut tree, &m).map(|_| None)
        };
        let own = judge == Judge::Structure && structural || judge == Judge::Sentence && sentential;
        match r {
            Err(e) if own || judge == Judge::WellFormed && e.contains("panic") => return Err(e),
            // judged by the properties of these operations
            Err(e) if !raw => return end(cx, step, e),
            Err(_) => (),
            Ok(Some(exp)) if own => {
                let got = snapshot(&tree)?;
                if let Some(d) = diff(&exp, &got) {
                    return Err(format!("after {}: {}", cx.trace.last().cloned().unwrap_or_default(), d));
                }
                if tree.n_terminals() != got.n_terms() {
                    return Err(format!("n_terminals() is {} for {} words", tree.n_terminals(), got.n_terms()));
                }
            }
            Ok(_) => (),
        }
        cx.count("operations");
    }
    cx.nontrivial = true;
    cx.desc = cx.trace.join("; ");
    Ok(())
}

/// The history can't be continued: another property is broken.
fn end(cx: &mut Cx, step: usize, e: String) -> Res {
    if step < 2 {
        cx.skipped = Some(format!("other property: {}", e));
    }
    Ok(())
}

fn once(what: &str, v: &[usize]) -> Result<BTreeSet<usize>, String> {
    let s: BTreeSet<usize> = v.iter().cloned().collect();
    if s.len() != v.len() {
        return Err(format!("{}: {:?} contains a node twice", what, v));
    }
    Ok(s)
}

fn navigation(cx: &mut Cx, tree: &Tree, m: &M) -> Res {
    let set = |v: Vec<Id>| -> BTreeSet<Id> { v.into_iter().collect() };
    let ids = |v: Vec<NodeIndex>| -> Vec<usize> { v.into_iter().map(|n| n.index()).collect() };
    if tree.root().index() != m.root {
        return Err("root".into());
    }
    let t = once("terminals()", &ids(calm("terminals", || tree.terminals().collect())?))?;
    if t != set(m.terms()) {
        return Err(format!("terminals() gives {:?}, words are {:?}", t, m.terms()));
    }
    let t = once("nonterminals()", &ids(calm("nonterminals", || tree.nonterminals().collect())?))?;
    if t != set(m.nts()) {
        return Err(format!("nonterminals() gives {:?}, inner nodes are {:?}", t, m.nts()));
    }
    let all: Vec<Id> = m.nodes.keys().cloned().collect();
    let some: Vec<Id> = if all.len() <= 30 {
        all.clone()
    } else {
        (0..25).map(|_| *cx.rng.pick(&all)).collect()
    };
    let g = tree.graph();
    let edge_ok = |e: EdgeIndex, a: Id, b: Id, primary: bool| {
        g.edge_endpoints(e) == Some((ix(a), ix(b))) && g[e].is_primary() == primary
    };
    let ch = m.children();
    let none = Vec::new();
    for &n in &some {
        cx.count("nodes navigated");
        let p = calm("parent", || tree.parent(ix(n)))?;
        match (p, m.nodes[&n].parent) {
            (None, None) => (),
            (Some((a, e)), Some(b)) if a.index() == b && edge_ok(e, b, n, true) => (),
            (a, b) => return Err(format!("parent({}) is {:?}, expected {:?}", n, a, b)),
        }
        let kids = ch.get(&n).unwrap_or(&none);
        let c = calm("children", || tree.children(ix(n)).collect::<Vec<_>>())?;
        if let Some((k, e)) = c.iter().find(|(k, e)| !edge_ok(*e, n, k.index(), true)) {
            return Err(format!("children({}) gives {:?} with edge {:?}", n, k, e));
        }
        let c = once("children", &ids(c.into_iter().map(|x| x.0).collect()))?;
        if c != set(kids.clone()) {
            return Err(format!("children({}) gives {:?}, expected {:?}", n, c, kids));
        }
        // secondary edges
        let sc = calm("secondary_children", || tree.secondary_children(ix(n)).collect::<Vec<_>>())?;
        if let Some((k, e)) = sc.iter().find(|(k, e)| !edge_ok(*e, n, k.index(), false)) {
            return Err(format!("secondary_children({}) gives {:?} with edge {:?}", n, k, e));
        }
        let mut a: Vec<_> = sc.iter().map(|(k, e)| (k.index(), g[*e].label().map(ToOwned::to_owned))).collect();
        let mut b: Vec<_> = m.sec.iter().filter(|x| x.0 == n).map(|x| (x.1, x.2.clone())).collect();
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("secondary_children({}) gives {:?}, expected {:?}", n, a, b));
        }
        let sp = calm("secondary_parent", || tree.secondary_parent(ix(n)))?;
        let exp: Vec<Id> = m.sec.iter().filter(|x| x.1 == n).map(|x| x.0).collect();
        match sp {
            None if exp.is_empty() => (),
            Some((a, e)) if exp.contains(&a.index()) && edge_ok(e, a.index(), n, false) => (),
            r => return Err(format!("secondary_parent({}) is {:?}, expected one of {:?}", n, r, exp)),
        }
        // siblings
        let si = calm("siblings", || tree.siblings(ix(n)).collect::<Vec<_>>())?;
        let exp: Vec<Id> = match m.nodes[&n].parent {
            Some(p) => ch[&p].iter().cloned().filter(|x| *x != n).collect(),
            None => Vec::new(),
        };
        if let Some((k, e)) = si
            .iter()
            .find(|(k, e)| m.nodes[&n].parent.map(|p| !edge_ok(*e, p, k.index(), true)).unwrap_or(true))
        {
            return Err(format!("siblings({}) gives {:?} with edge {:?}", n, k, e));
        }
        let si = once("siblings", &ids(si.into_iter().map(|x| x.0).collect()))?;
        if si != set(exp.clone()) {
            return Err(format!("siblings({}) gives {:?}, expected {:?}", n, si, exp));
        }
        // words below
        let d = calm("descendent_terminals", || tree.descendent_terminals(ix(n)).collect::<Vec<_>>())?;
        let d = once("descendent_terminals", &ids(d))?;
        if !m.nodes[&n].term {
            let exp: BTreeSet<Id> = m.terms().into_iter().filter(|t| m.is_anc(n, *t)).collect();
            if d != exp {
                return Err(format!("descendent_terminals({}) gives {:?}, expected {:?}", n, d, exp));
            }
        } else if d.iter().any(|x| *x != n) {
            return Err(format!("descendent_terminals of the word {} gives {:?}", n, d));
        }
        // climbing
        let anc = m.ancestors(n);
        let mut a = Climber::new(ix(n), tree);
        let mut b = Climber::new(ix(n), tree);
        let mut cur = n;
        for (i, x) in anc.iter().enumerate() {
            let u = calm("climb", || a.next(tree))?.map(|x| x.index());
            if u != Some(*x) {
                return Err(format!("climbing from {}: step {} gives {:?}, ancestors {:?}", n, i, u, anc));
            }
            match calm("climb", || b.next_with_edge(tree))? {
                Some((y, e)) if y.index() == *x && edge_ok(e, *x, cur, true) => (),
                r => return Err(format!("climbing with edges from {}: step {} gives {:?}", n, i, r)),
            }
            cur = *x;
        }
        for _ in 0..2 {
            if a.next(tree).is_some() || b.next_with_edge(tree).is_some() {
                return Err(format!("climbing from {} continues above the root", n));
            }
        }
        for &k in &some {
            {
                let exp = m.nodes[&n].parent.is_some() && m.nodes[&n].parent == m.nodes[&k].parent;
                let r = calm("are_siblings", || tree.are_siblings(ix(n), ix(k)))?;
                if r != exp {
                    return Err(format!("are_siblings({}, {}) is {}", n, k, r));
                }
                cx.count(if exp { "sibling pairs" } else { "other pairs" });
            }
        }
    }
    if calm("are_siblings", || tree.are_siblings(ix(m.root), ix(m.root)))? {
        return Err("the root has a sibling".into());
    }
    // nodes that don't exist
    let free: Vec<usize> = (0..all.iter().max().unwrap() + 3).filter(|i| !m.nodes.contains_key(i)).collect();
    for n in free.into_iter().chain(vec![7_000_000]) {
        if calm("parent of a missing node", || tree.parent(ix(n)))?.is_some() {
            return Err(format!("parent({}) of a missing node exists", n));
        }
        if calm("secondary parent of a missing node", || tree.secondary_parent(ix(n)))?.is_some() {
            return Err(format!("secondary_parent({}) of a missing node exists", n));
        }
        cx.count("missing nodes asked for");
    }
    let _: BTreeMap<Id, Vec<Id>> = ch;
    Ok(())
}

fn c01(cx: &mut Cx) -> Res {
    run_history(cx, Judge::WellFormed)
}
fn c02(cx: &mut Cx) -> Res {
    run_history(cx, Judge::Spans)
}
fn c03(cx: &mut Cx) -> Res {
    run_history(cx, Judge::Structure)
}
fn c04(cx: &mut Cx) -> Res {
    run_history(cx, Judge::Sentence)
}
fn c23(cx: &mut Cx) -> Res {
    run_history(cx, Judge::Navigation)
}

const RULE: &str = "a case counts if the whole history ran and every state was judged; distinct by the list of executed operations with arguments and results";

pub static CHECKS: &[&Check] = &[
    &Check {
        id: "C01",
        rule: RULE,
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c01,
        assumptions: &["the raw graph of the tree (Tree::graph) lists its nodes and edges truthfully (petgraph)"],
    },
    &Check {
        id: "C02",
        rule: RULE,
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c02,
        assumptions: &["the raw graph of the tree (Tree::graph) lists its nodes and edges truthfully (petgraph)"],
    },
    &Check {
        id: "C03",
        rule: RULE,
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c03,
        assumptions: &["where the documentation leaves the label of a rebuilt edge open (children of a removed or newly inserted node), any label is accepted"],
    },
    &Check {
        id: "C04",
        rule: RULE,
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c04,
        assumptions: &[],
    },
    &Check {
        id: "C23",
        rule: RULE,
        quick: 20_000,
        thorough: 600_000,
        threads: 8,
        min_judged: 60,
        run: c23,
        assumptions: &["whether a node is its own sibling is left open"],
    },
];
