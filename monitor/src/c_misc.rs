//! C22 equality, C24 spans, C25 annotations.

use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashSet};

use lumberjack::util::LabelSet;
use lumberjack::{Edge, Features, Span, Terminal, Tree};

use crate::c_ops::edit_some;
use crate::gen::{self, Kind};
use crate::h::*;
use crate::model::*;
use crate::rng::Rng;

// --- C22 ---------------------------------------------------------------------------------------

/// One difference in the model; the name of the change.
/// a text that is not the given one, but like it
fn alter(s: &str, rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => format!("{}{}", s, rng.pick(&["1", "-SBJ", "=x", ":HD", "*", " ", "_X", "\u{301}", "-", "#"])),
        1 => format!("{}{}", rng.pick(&["x", "-", "1", " ", "X_", "-NONE-", "\u{feff}"]), s),
        2 if s.chars().count() > 1 => {
            // the last or first character is missing or another one
            let c: Vec<char> = s.chars().collect();
            let r = match rng.below(4) {
                0 => c[1..].to_vec(),
                1 => c[..c.len() - 1].to_vec(),
                2 => c[1..].iter().chain(&c[..1]).cloned().collect(),
                _ => {
                    let mut c = c.clone();
                    let i = rng.below(c.len());
                    c[i] = if c[i] == 'q' { 'r' } else { 'q' };
                    c
                }
            };
            r.into_iter().collect()
        }
        _ => format!("{}x", s),
    }
}

fn change(m: &mut M, rng: &mut Rng) -> &'static str {
    let all: Vec<Id> = m.nodes.keys().cloned().collect();
    let i = *rng.pick(&all);
    let n = m.n_terms();
    match rng.below(14) {
        12 | 13 => {
            // letters in another case
            let flip = |s: &str| -> String {
                let u = s.to_uppercase();
                if u != s { u } else { s.to_lowercase() }
            };
            let n = m.nodes.get_mut(&i).unwrap();
            match rng.below(5) {
                0 => n.label = flip(&n.label),
                1 if n.term => n.form = flip(&n.form),
                2 if n.term => n.lemma = n.lemma.as_ref().map(|l| flip(l)),
                3 => n.edge = Lab::Is(n.edge.get().map(|l| flip(l))),
                _ => {
                    let k = n.feats.keys().next().cloned();
                    if let Some(k) = k {
                        let v = n.feats.remove(&k).unwrap();
                        if v.is_some() && rng.chance(1, 2) {
                            n.feats.insert(k, v.map(|v| flip(&v)));
                        } else {
                            n.feats.insert(flip(&k), v);
                        }
                    }
                }
            }
            "case"
        }
        0 => {
            let l = alter(&m.nodes[&i].label, rng);
            m.nodes.get_mut(&i).unwrap().label = l;
            "label"
        }
        1 => {
            let r = m.root;
            let l = alter(&m.nodes[&r].label, rng);
            m.nodes.get_mut(&r).unwrap().label = l;
            "label of the root"
        }
        2 => {
            let w = *rng.pick(&m.terms());
            let n = m.nodes.get_mut(&w).unwrap();
            n.form = alter(&n.form, rng);
            "form"
        }
        3 => {
            let w = *rng.pick(&m.terms());
            let n = m.nodes.get_mut(&w).unwrap();
            n.lemma = match n.lemma.take() {
                Some(_) if rng.chance(1, 2) => None,
                Some(l) => Some(alter(&l, rng)),
                None => Some(rng.pick(&["x", "--", "_", "", "-", &n.form]).to_string()),
            };
            "lemma"
        }
        4 | 5 => {
            let f = &mut m.nodes.get_mut(&i).unwrap().feats;
            let keys: Vec<String> = f.keys().cloned().collect();
            if keys.is_empty() || rng.chance(1, 3) {
                f.insert("added".into(), if rng.chance(1, 2) { None } else { Some("v".into()) });
            } else {
                let k = rng.pick(&keys).clone();
                match rng.below(5) {
                    3 | 4 => {
                        // another list with the same text
                        match f.remove(&k).unwrap() {
                            Some(v) => {
                                f.insert(format!("{}:{}", k, v), None);
                            }
                            None => {
                                let other = keys.iter().find(|o| **o > k).cloned();
                                match other {
                                    Some(o) => {
                                        let v = f.remove(&o).unwrap();
                                        f.insert(format!("{}|{}", k, o), v);
                                    }
                                    None => {
                                        f.insert(format!("{}|", k), None);
                                    }
                                }
                            }
                        }
                    }
                    0 => {
                        f.remove(&k);
                    }
                    1 => {
                        let v = f[&k].clone();
                        let other = rng.pick(&["", "--", "_", "-"]).to_string();
                        f.insert(k, if v.is_some() { None } else { Some(other) });
                    }
                    _ => {
                        let v = match f[&k].as_ref() {
                            Some(v) if rng.chance(2, 3) => alter(v, rng),
                            _ => "changed".into(),
                        };
                        f.insert(k, Some(v));
                    }
                }
            }
            "features"
        }
        6 => {
            if m.nodes[&i].parent.is_some() {
                let n = m.nodes.get_mut(&i).unwrap();
                n.edge = Lab::Is(match n.edge.get() {
                    Some(_) if rng.chance(1, 2) => None,
                    Some(l) => Some(alter(&l, rng)),
                    None => Some(rng.pick(&["x", "--", "_", "", "-"]).to_string()),
                });
            }
            "edge label"
        }
        7 | 8 => {
            let nts = m.nts();
            if !nts.is_empty() && m.nodes[&i].parent.is_some() {
                let p = *rng.pick(&nts);
                if m.reattach_refused(i, p).is_none() {
                    let e = m.nodes[&i].edge.clone();
                    m.reattach(i, p);
                    m.nodes.get_mut(&i).unwrap().edge = e;
                }
            }
            "attachment"
        }
        9 => {
            let w = *rng.pick(&m.terms());
            let to = rng.below(n);
            m.move_term(w, to);
            "word order"
        }
        10 => {
            let new = all.last().unwrap() + 1;
            let l = m.nodes[&i].label.clone();
            m.insert_above(i, new, &l);
            "additional node"
        }
        _ => {
            // two nodes of a chain swapped
            let nts = m.nts();
            if !nts.is_empty() {
                let a = *rng.pick(&nts);
                let b = *rng.pick(&nts);
                let (la, lb) = (m.nodes[&a].label.clone(), m.nodes[&b].label.clone());
                m.nodes.get_mut(&a).unwrap().label = lb;
                m.nodes.get_mut(&b).unwrap().label = la;
            }
            "labels swapped"
        }
    }
}

/// Differences nobody sees: emptied feature lists, edits that are undone.
fn invisible(t: &mut Tree, rng: &mut Rng) {
    for i in t.graph().node_indices().collect::<Vec<_>>() {
        if rng.chance(1, 4) {
            if t[i].features().is_none() {
                t[i].features_mut();
            } else if t[i].features().map(|f| f.inner().is_empty()).unwrap_or(false) {
                t[i].set_features(None);
            }
        }
    }
}

/// Trees that differ in secondary edges only: left open.
fn equality(cx: &mut Cx, a: &Tree, b: &Tree) -> Result<bool, String> {
    let (ma, mb) = (snapshot(a)?, snapshot(b)?);
    let primary = Show { sec: false, ..ALL };
    let exp = canon(&ma, primary) == canon(&mb, primary);
    if exp && canon(&ma, ALL) != canon(&mb, ALL) {
        let e = calm("eq", || a == b)?;
        if e != calm("eq", || b == a)? {
            return Err(format!("a == b is {}, b == a isn't: {}", e, canon(&ma, ALL)));
        }
        cx.count("pairs that differ in secondary edges only, left open");
        return Ok(e);
    }
    if exp && !ma.sec.is_empty() {
        cx.count("equal pairs with secondary edges");
    }
    for (x, y, what) in &[(a, b, "a == b"), (b, a, "b == a")] {
        let e = calm("eq", || **x == **y)?;
        if e != exp {
            return Err(format!("{} is {} for\n{}\n{}", what, e, canon(&ma, ALL), canon(&mb, ALL)));
        }
        if calm("ne", || **x != **y)? == e {
            return Err("== and != agree".into());
        }
    }
    for x in &[a, b] {
        if !calm("eq", || **x == (*x).clone())? {
            return Err(format!("a tree differs from its clone: {}", canon(&ma, ALL)));
        }
    }
    cx.count(if exp { "equal pairs" } else { "different pairs" });
    Ok(exp)
}

/// Single nodes and edges of two trees.
fn equal_parts(cx: &mut Cx, a: &Tree, b: &Tree) -> Res {
    let (ma, mb) = (snapshot(a)?, snapshot(b)?);
    let ids = |m: &M| m.nodes.keys().cloned().collect::<Vec<_>>();
    let (ia, ib) = (ids(&ma), ids(&mb));
    for _ in 0..12 {
        // often the same place in both
        let x = *cx.rng.pick(&ia);
        let near: Vec<Id> = ib.iter().cloned().filter(|y| mb.nodes[y].form == ma.nodes[&x].form && mb.nodes[y].label == ma.nodes[&x].label).collect();
        let y = if !near.is_empty() && cx.rng.chance(3, 4) { *cx.rng.pick(&near) } else { *cx.rng.pick(&ib) };
        let (nx, ny) = (&ma.nodes[&x], &mb.nodes[&y]);
        let (tx, ty) = (&a[ix(x)], &b[ix(y)]);
        let at = |n: &lumberjack::Node| n.span().into_iter().collect::<Vec<_>>();
        let exp = nx.term == ny.term
            && nx.label == ny.label
            && nx.form == ny.form
            && nx.lemma == ny.lemma
            && nx.feats == ny.feats
            && at(tx) == at(ty);
        let got = calm("eq", || (tx == ty, ty == tx, tx != ty))?;
        if got != (exp, exp, !exp) {
            return Err(format!("nodes {:?} and {:?}: ==, reversed and != are {:?}", tx, ty, got));
        }
        let inner = calm("eq", || match (tx, ty) {
            (lumberjack::Node::Terminal(x), lumberjack::Node::Terminal(y)) => x == y,
            (lumberjack::Node::NonTerminal(x), lumberjack::Node::NonTerminal(y)) => x == y,
            _ => false,
        })?;
        if inner != exp {
            return Err(format!("{:?} == {:?} is {}", tx, ty, inner));
        }
        cx.count(if exp { "equal nodes" } else { "different nodes" });
        if let (Some((_, e)), Some((_, f))) = (a.parent(ix(x)), b.parent(ix(y))) {
            let f = if cx.rng.chance(1, 4) { b.secondary_parent(ix(y)).map(|(_, f)| f).unwrap_or(f) } else { f };
            let (e, f) = (&a[e], &b[f]);
            let exp = e.is_primary() == f.is_primary() && e.label() == f.label();
            if calm("eq", || (e == f, f == e, e != f))? != (exp, exp, !exp) {
                return Err(format!("edges {:?} and {:?}: == isn't {}", e, f, exp));
            }
            cx.count(if exp { "equal edges" } else { "different edges" });
        }
    }
    Ok(())
}

fn c22(cx: &mut Cx) -> Res {
    let n = match cx.rng.below(4) {
        0 => cx.rng.range(1, 3),
        _ => gen::size(&mut cx.rng, false).min(40),
    };
    let mut o = gen::opt(Kind::Free, n);
    o.sec = cx.rng.chance(1, 3);
    o.unary = *cx.rng.pick(&[5, 15, 40]);
    if o.unary > 20 {
        o.n = o.n.min(12);
    }
    let m = gen::gen_m(&mut cx.rng, o);
    let mut m2 = m.clone();
    let mut what = "same";
    if cx.rng.chance(3, 4) {
        what = change(&mut m2, &mut cx.rng);
        if cx.rng.chance(1, 6) {
            what = change(&mut m2, &mut cx.rng);
        }
    }
    let mut mk = |m: &M| -> Result<Tree, String> {
        let mut e = String::new();
        for _ in 0..4 {
            match gen::build_raw(m, &mut cx.rng) {
                Ok((t, _)) => match good(&t) {
                    Ok(_) => return Ok(t),
                    Err(x) => e = x,
                },
                Err(x) => e = x,
            }
        }
        Err(e)
    };
    let (mut a, mut b) = match (mk(&m), mk(&m2)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return skip(cx, e),
    };
    invisible(&mut a, &mut cx.rng);
    invisible(&mut b, &mut cx.rng);
    cx.desc = format!("{}\n{}", canon(&m, ALL), canon(&m2, ALL));
    let e = equality(cx, &a, &b)?;
    equal_parts(cx, &a, &b)?;
    cx.count(&format!("{}: {}", what, if e { "equal" } else { "different" }));
    // a third one, edited in place
    let mut c = a.clone();
    if cx.rng.chance(1, 2) {
        if edit_some(&mut c, &mut cx.rng).is_err() || good(&c).is_err() {
            return skip(cx, "edits failed".into());
        }
    } else {
        let ids: Vec<_> = c.graph().node_indices().collect();
        let i = *cx.rng.pick(&ids);
        match cx.rng.below(5) {
            0 => {
                c[i].set_label("changed");
            }
            1 => {
                c[i].features_mut().insert("changed", Some("x"));
            }
            2 => {
                if let Some(t) = c[i].terminal_mut() {
                    t.set_form("changed");
                }
            }
            3 => {
                if let Some(t) = c[i].terminal_mut() {
                    t.set_lemma(Some("changed"));
                }
            }
            _ => {
                if let Some((_, e)) = c.parent(i) {
                    c[e].set_label(Some("changed"));
                }
            }
        }
    }
    equality(cx, &a, &c)?;
    equality(cx, &b, &c)?;
    cx.nontrivial = true;
    Ok(())
}

// --- C24 ---------------------------------------------------------------------------------------

fn as_set(s: &Span) -> BTreeSet<usize> {
    let mut v: BTreeSet<usize> = (s.start..s.end).collect();
    if let Some(k) = s.skips() {
        for i in k {
            v.remove(i);
        }
    }
    v
}

fn span_one(s: &Span, set: &BTreeSet<usize>) -> Res {
    if let Some(k) = s.skips() {
        if k.is_empty() {
            return Err("continuous span with an empty set of skipped positions".into());
        }
        for i in k {
            if *i <= s.start || *i + 1 >= s.end {
                return Err(format!("position {} is skipped in {:?}", i, s.bounds()));
            }
        }
    }
    span_is(s, set)?;
    // iterators are independent and can be continued
    let mut it = s.into_iter();
    let half: Vec<usize> = it.by_ref().take(set.len() / 2).collect();
    let rest: Vec<usize> = it.collect();
    let all: Vec<usize> = half.into_iter().chain(rest).collect();
    if all != set.iter().cloned().collect::<Vec<_>>() {
        return Err(format!("iterates {:?} in two parts", all));
    }
    let far = [set.iter().next_back().unwrap() + 1000, usize::max_value()];
    if far.iter().any(|i| s.contains(*i)) {
        return Err("contains a far position".into());
    }
    Ok(())
}

fn by_rule(a: &BTreeSet<usize>, b: &BTreeSet<usize>) -> Ordering {
    let k = |s: &BTreeSet<usize>| (*s.iter().next().unwrap(), *s.iter().next_back().unwrap(), s.len());
    k(a).cmp(&k(b))
}

fn span_two(a: &(Span, BTreeSet<usize>), b: &(Span, BTreeSet<usize>)) -> Res {
    let ((a, sa), (b, sb)) = (a, b);
    let show = || format!("{:?} and {:?}", sa, sb);
    if a.covers_span(b) != sa.is_superset(sb) {
        return Err(format!("covers_span is {} for {}", a.covers_span(b), show()));
    }
    if (a == b) != (sa == sb) || (a != b) == (sa == sb) {
        return Err(format!("equality is {} for {}", a == b, show()));
    }
    let o = a.cmp(b);
    if o != by_rule(sa, sb) || b.cmp(a) != o.reverse() || a.partial_cmp(b) != Some(o) {
        return Err(format!("order is {:?} / {:?} for {}", o, b.cmp(a), show()));
    }
    if (a < b) != (o == Ordering::Less) || (a >= b) == (o == Ordering::Less) {
        return Err(format!("comparison operators disagree for {}", show()));
    }
    Ok(())
}

fn c24(cx: &mut Cx) -> Res {
    let mut spans: Vec<(Span, BTreeSet<usize>)> = Vec::new();
    let mut desc = Vec::new();
    for _ in 0..2 {
        let n = gen::size(&mut cx.rng, cx.thorough).min(80);
        let mut o = gen::opt(Kind::Free, n);
        o.disc = 90;
        o.sec = false;
        let m = gen::gen_m(&mut cx.rng, o);
        desc.push(canon(&m, BARE));
        let t = match gen::build_raw(&m, &mut cx.rng) {
            Ok((t, _)) => t,
            Err(_) => {
                cx.count("trees that can't be built");
                continue;
            }
        };
        for i in t.graph().node_indices() {
            let s = t[i].span().clone();
            if s.start >= s.end {
                return Err(format!("empty span {:?}", s));
            }
            let set = as_set(&s);
            spans.push((s, set));
        }
    }
    for _ in 0..3 {
        let i = cx.rng.below(60);
        let s = Span::from(i);
        let set: BTreeSet<usize> = vec![i].into_iter().collect();
        spans.push((s, set));
    }
    cx.desc = desc.join("\n");
    for (s, set) in &spans {
        calm("span", || span_one(s, set))??;
        if s.skips().is_some() {
            cx.count("spans with gaps");
        }
        cx.count("spans");
    }
    let k = if cx.thorough { 4000 } else { 400 };
    for _ in 0..k {
        let a = cx.rng.pick(&spans).clone();
        let b = cx.rng.pick(&spans).clone();
        calm("spans", || span_two(&a, &b))??;
        if a.1.is_superset(&b.1) && a.1 != b.1 {
            cx.count("pairs with proper coverage");
        }
        if a.1 != b.1 && by_rule(&a.1, &b.1) == Ordering::Equal {
            cx.count("different sets that compare as equal");
        }
        cx.count("pairs");
    }
    // a copy is another set: hash order of the gaps makes no difference
    for (s, set) in &spans {
        let c = s.clone();
        if c != *s {
            return Err(format!("clone of {:?} differs", set));
        }
    }
    cx.nontrivial = true;
    Ok(())
}

// --- C25 ---------------------------------------------------------------------------------------

const KEYS: &[&str] = &["a", "b", "c", "morph", "ä", "x-y", "node_annotation", "B", "a1", " k", "_", "--", "A"];
const VALS: &[&str] = &["1", "v", "", "ö", "a=b", "x y", "~_+", "0", "_", "--", "-", "---", "None", " ", "*"];

fn same_feats(f: &Features, m: &Feats) -> Res {
    if f.inner() != m {
        return Err(format!("features {:?}, expected {:?}", f.inner(), m));
    }
    for k in KEYS {
        let e = m.get(*k).map(|v| v.as_ref().map(String::as_str));
        if f.get_val(k) != e {
            return Err(format!("get_val({:?}) is {:?}, expected {:?}", k, f.get_val(k), e));
        }
    }
    let text = f.to_string();
    let exp = crate::text::feats_text(m);
    if text != exp {
        return Err(format!("text {:?}, expected {:?}", text, exp));
    }
    let back = Features::from(text.as_str());
    if back.inner() != m || back != *f {
        return Err(format!("{:?} is parsed as {:?}", text, back.inner()));
    }
    if Features::from(text.clone()) != *f {
        return Err("parsing an owned text differs".into());
    }
    Ok(())
}

fn pair(rng: &mut Rng) -> (String, Option<String>) {
    let k = rng.pick(KEYS).to_string();
    let v = if rng.chance(1, 4) { None } else { Some(rng.pick(VALS).to_string()) };
    (k, v)
}

fn feature_ops(cx: &mut Cx) -> Res {
    let rng = &mut cx.rng;
    let mut log = Vec::new();
    let mut m = Feats::new();
    let mut f = match rng.below(4) {
        0 => Features::new(),
        1 => Features::default(),
        2 => {
            let v: Vec<(String, Option<String>)> = (0..rng.below(6)).map(|_| pair(rng)).collect();
            log.push(format!("collect {:?}", v));
            m.extend(v.clone());
            v.into_iter().collect::<Features>()
        }
        _ => {
            let v: Vec<(String, Option<String>)> = (0..rng.below(6)).map(|_| pair(rng)).collect();
            let mut s = Vec::new();
            for (k, x) in &v {
                s.push(match x {
                    Some(x) => format!("{}:{}", k, x),
                    None => k.clone(),
                });
                if rng.chance(1, 6) {
                    s.push(String::new());
                }
            }
            m.extend(v);
            log.push(format!("from {:?}", s));
            Features::from(s.join("|"))
        }
    };
    calm("features", || same_feats(&f, &m))??;
    for _ in 0..rng.range(3, 25) {
        let (k, v) = pair(rng);
        match rng.below(6) {
            0 | 1 => {
                log.push(format!("remove {:?}", k));
                let r = calm("remove", || f.remove(&k))?;
                let e = m.remove(&k);
                if r != e {
                    return Err(format!("{:?}: remove returned {:?}, expected {:?}", log, r, e));
                }
            }
            2 => {
                log.push(format!("inner_mut {:?} {:?}", k, v));
                f.inner_mut().insert(k.clone(), v.clone());
                m.insert(k, v);
            }
            _ => {
                log.push(format!("insert {:?} {:?}", k, v));
                let r = calm("insert", || f.insert(k.clone(), v.clone()))?;
                let e = m.insert(k, v).and_then(|v| v);
                if r != e {
                    return Err(format!("{:?}: insert returned {:?}, expected {:?}", log, r, e));
                }
            }
        }
        calm("features", || same_feats(&f, &m))?.map_err(|e| format!("{:?}: {}", log, e))?;
    }
    cx.desc = format!("{:?}", log);
    cx.count("feature lists");
    cx.nontrivial = true;
    Ok(())
}

fn node_ops(cx: &mut Cx) -> Res {
    let n = gen::size(&mut cx.rng, false).min(30);
    let o = gen::opt(Kind::Free, n);
    let (mut t, mut m, _) = match gen::tree(&mut cx.rng, o) {
        Ok(x) => x,
        Err(e) => return skip(cx, e),
    };
    let mut log = Vec::new();
    for _ in 0..cx.rng.range(2, 20) {
        let rng = &mut cx.rng;
        let all: Vec<Id> = m.nodes.keys().cloned().collect();
        let i = *rng.pick(&all);
        let term = m.nodes[&i].term;
        let direct = rng.chance(1, 2);
        let val = format!("n{}", rng.below(5));
        let opt = if rng.chance(1, 3) { None } else { Some(val.clone()) };
        let nd = m.nodes.get_mut(&i).unwrap();
        let v2 = val.clone();
        let differ = |what: &str, r: String, e: String| -> Res {
            if r != e {
                return Err(format!("{} of node {} returned {}, expected {}", what, i, r, e));
            }
            Ok(())
        };
        match rng.below(7) {
            0 => {
                log.push(format!("label {} {}", i, val));
                let r = calm("set_label", || {
                    if direct && term {
                        t[ix(i)].terminal_mut().unwrap().set_label(v2)
                    } else if direct {
                        t[ix(i)].nonterminal_mut().unwrap().set_label(v2)
                    } else {
                        t[ix(i)].set_label(v2)
                    }
                })?;
                let e = std::mem::replace(&mut nd.label, val);
                differ("set_label", r, e)?;
            }
            1 if term => {
                log.push(format!("form {} {}", i, val));
                let r = calm("set_form", || t[ix(i)].terminal_mut().unwrap().set_form(v2))?;
                let e = std::mem::replace(&mut nd.form, val);
                differ("set_form", r, e)?;
            }
            2 if term => {
                log.push(format!("lemma {} {:?}", i, opt));
                let o2 = opt.clone();
                let r = calm("set_lemma", || t[ix(i)].terminal_mut().unwrap().set_lemma(o2))?;
                let e = std::mem::replace(&mut nd.lemma, opt);
                differ("set_lemma", format!("{:?}", r), format!("{:?}", e))?;
            }
            3 => {
                let f: Option<Feats> = if rng.chance(1, 4) { None } else { Some((0..rng.below(3)).map(|_| pair(rng)).collect()) };
                log.push(format!("features {} {:?}", i, f));
                let lib = f.clone().map(|f| f.into_iter().collect::<Features>());
                let read = |t: &Tree| t[ix(i)].features().map(|f| f.inner().clone());
                let before = read(&t);
                let r = calm("set_features", || {
                    if direct && term {
                        t[ix(i)].terminal_mut().unwrap().set_features(lib)
                    } else if direct {
                        t[ix(i)].nonterminal_mut().unwrap().set_features(lib)
                    } else {
                        t[ix(i)].set_features(lib)
                    }
                })?;
                let e = std::mem::replace(&mut nd.feats, f.clone().unwrap_or_default());
                let r = r.map(|f| f.inner().clone());
                differ("set_features", format!("{:?}", r), format!("{:?}", before))?;
                differ("set_features", format!("{:?}", r.unwrap_or_default()), format!("{:?}", e))?;
                if read(&t) != f {
                    return Err(format!("features of node {} are {:?} after {:?} were set", i, read(&t), f));
                }
            }
            4 => {
                let (k, v) = pair(rng);
                log.push(format!("feature {} {} {:?}", i, k, v));
                let (k2, v2) = (k.clone(), v.clone());
                let r = calm("features_mut", || {
                    if direct && term {
                        t[ix(i)].terminal_mut().unwrap().features_mut().insert(k2, v2)
                    } else if direct {
                        t[ix(i)].nonterminal_mut().unwrap().features_mut().insert(k2, v2)
                    } else {
                        t[ix(i)].features_mut().insert(k2, v2)
                    }
                })?;
                let e = nd.feats.insert(k, v).and_then(|v| v);
                differ("insert", format!("{:?}", r), format!("{:?}", e))?;
            }
            5 => {
                if nd.parent.is_some() {
                    log.push(format!("edge {} {:?}", i, opt));
                    let (_, e) = t.parent(ix(i)).ok_or("no parent")?;
                    let o2 = opt.clone();
                    let r = calm("set_label", || t[e].set_label(o2))?;
                    let old = nd.edge.get().map(ToOwned::to_owned);
                    nd.edge = Lab::Is(opt);
                    differ("edge label", format!("{:?}", r), format!("{:?}", old))?;
                }
            }
            _ => {
                // accessors that don't apply
                let x = &t[ix(i)];
                if x.is_terminal() != term || x.terminal().is_some() != term || x.nonterminal().is_some() == term {
                    return Err(format!("kind of node {}", i));
                }
                if t[ix(i)].terminal_mut().is_some() != term || t[ix(i)].nonterminal_mut().is_some() == term {
                    return Err(format!("kind of node {} (mutable)", i));
                }
            }
        }
        let g = snapshot(&t)?;
        if let Some(d) = diff(&m, &g) {
            return Err(format!("{:?}: {}", log, d));
        }
        spans_ok(&t, &g).map_err(|e| format!("{:?}: {}", log, e))?;
        for (i, n) in &g.nodes {
            let x = &t[ix(*i)];
            let f = match (x.terminal(), x.nonterminal()) {
                (Some(t), None) => t.features(),
                (None, Some(n)) => n.features(),
                _ => return Err(format!("kind of node {}", i)),
            };
            if f.map(|f| f.inner().clone()).unwrap_or_default() != n.feats {
                return Err(format!("features accessors of node {} disagree", i));
            }
            if x.terminal().map(|t| t.label()).or_else(|| x.nonterminal().map(|n| n.label())) != Some(x.label()) {
                return Err(format!("label accessors of node {} disagree", i));
            }
        }
        cx.count("setter calls");
    }
    cx.desc = format!("{} {:?}", canon(&m, BARE), log);
    cx.nontrivial = true;
    Ok(())
}

fn c25(cx: &mut Cx) -> Res {
    match cx.rng.below(8) {
        0..=2 => feature_ops(cx),
        3..=5 => node_ops(cx),
        6 => {
            // edges and words on their own
            let l = if cx.rng.chance(1, 3) { None } else { Some(gen::word(&mut cx.rng, 5)) };
            let l2 = if cx.rng.chance(1, 3) { None } else { Some(gen::word(&mut cx.rng, 5)) };
            let prim = cx.rng.chance(1, 2);
            cx.desc = format!("edge {:?} {:?} {}", l, l2, prim);
            let mut e = if prim { Edge::new_primary(l.clone()) } else { Edge::new_secondary(l.clone()) };
            if e.is_primary() != prim || e.label().map(ToOwned::to_owned) != l {
                return Err(format!("new edge is {:?}", e));
            }
            let old = e.set_label(l2.clone());
            if old != l || e.label().map(ToOwned::to_owned) != l2 || e.is_primary() != prim {
                return Err(format!("edge is {:?} after setting {:?}, returned {:?}", e, l2, old));
            }
            let (f, p, i) = (gen::form(&mut cx.rng, Kind::Free), gen::pos(&mut cx.rng, Kind::Free), cx.rng.below(100));
            let t = Terminal::new(f.as_str(), p.as_str(), i);
            if t.form() != f || t.label() != p || t.idx() != i || t.lemma().is_some() || t.features().is_some() {
                return Err(format!("new word is {:?}", t));
            }
            let tree = Tree::new(f.as_str(), p.as_str());
            let m = good(&tree)?;
            let n = &m.nodes[&m.root];
            if m.nodes.len() != 1 || n.form != f || n.label != p {
                return Err(format!("new tree is {}", canon(&m, ALL)));
            }
            cx.count("edges and words");
            cx.nontrivial = true;
            Ok(())
        }
        _ => {
            let pool = ["S", "NP", "VP", "", "s", "NP-SBJ", "N", "Ä", " S"];
            let mut set = HashSet::new();
            for _ in 0..cx.rng.below(6) {
                set.insert(cx.rng.pick(&pool).to_string());
            }
            let own: BTreeMap<String, ()> = set.iter().cloned().map(|x| (x, ())).collect();
            let (p, n) = (LabelSet::Positive(set.clone()), LabelSet::Negative(set));
            cx.desc = format!("label set {:?}", own);
            for q in pool.iter() {
                let e = own.contains_key(*q);
                for (l, e) in vec![(&p, e), (&n, !e)] {
                    if calm("matches", || l.matches(*q))? != e
                        || l.matches(q.to_string()) != e
                        || l.clone().matches(*q) != e
                    {
                        return Err(format!("{:?} matches {:?}: expected {}", cx.desc, q, e));
                    }
                }
                cx.count("label queries");
            }
            cx.nontrivial = true;
            Ok(())
        }
    }
}

pub static CHECKS: &[&Check] = &[
    &Check {
        id: "C22",
        rule: "a case counts if two trees built over different routes (and an edited third one) were compared in all directions with the comparison of their raw graphs; distinct by pair",
        quick: 60_000,
        thorough: 2_000_000,
        threads: 8,
        min_judged: 60,
        run: c22,
        assumptions: &["trees without secondary edges"],
    },
    &Check {
        id: "C24",
        rule: "a case counts if all spans of two trees and 400 pairs of them were compared with sets; distinct by trees",
        quick: 15_000,
        thorough: 150_000,
        threads: 8,
        min_judged: 60,
        run: c24,
        assumptions: &[],
    },
    &Check {
        id: "C25",
        rule: "a case counts if a sequence of operations on a feature list, the nodes of a tree, an edge or a label set was compared with a map; distinct by sequence",
        quick: 80_000,
        thorough: 3_000_000,
        threads: 8,
        min_judged: 60,
        run: c25,
        assumptions: &["keys and values are free of ':' and '|', keys not empty"],
    },
];
