//! C18-C21: encodings and CoNLL-X.

use std::collections::BTreeSet;
use std::convert::TryInto;

use conllx::graph::Sentence;
use conllx::io::{ReadSentence, Reader, WriteSentence, Writer};
use conllx::token::{Features, TokenBuilder};
use lumberjack::io::{AbsoluteEncoding, Decode, Encode, RelativeEncoding, ToConllx, TryFromConllx};
use lumberjack::{Terminal, Tree, UnaryChains, WriteTree};

use crate::c_ops::edit_some;
use crate::flow::{Choking, Chunky};
use crate::gen::{self, Kind};
use crate::h::*;
use crate::model::*;
use crate::rng::Rng;
use crate::text;

const WITH_T: Show = Show {
    edges: false,
    nt_feats: false,
    t_feats: true,
    lemma: true,
    sec: false,
};

/// Projective (unless disc > 0) tree for the encodings.
fn tree(cx: &mut Cx, disc: u64) -> Option<(Tree, M)> {
    let n = gen::size(&mut cx.rng, cx.thorough);
    let mut o = gen::opt(Kind::Enc, n);
    o.disc = disc;
    o.sec = false;
    o.unary = *cx.rng.pick(&[0, 10, 25, 45]);
    if o.unary > 40 {
        o.n = o.n.min(15);
    }
    let (mut t, mut m) = match gen::tree(&mut cx.rng, o) {
        Ok((t, m, _)) => (t, m),
        Err(e) => {
            cx.skipped = Some(e);
            return None;
        }
    };
    if cx.rng.chance(1, 4) {
        if edit_some(&mut t, &mut cx.rng).is_err() {
            cx.skipped = Some("edits failed".into());
            return None;
        }
        m = match good(&t) {
            Ok(m) => m,
            Err(e) => {
                cx.skipped = Some(e);
                return None;
            }
        };
        if m.nts().iter().any(|n| m.nodes[n].label == "_") {
            return None;
        }
    }
    if m.sentence() != m.terms() {
        cx.count("trees numbered out of sentence order");
    }
    Some((t, m))
}

fn words(t: &Tree) -> Result<Vec<Terminal>, String> {
    let m = snapshot(t)?;
    Ok(m.sentence().into_iter().map(|i| t[ix(i)].terminal().unwrap().clone()).collect())
}

fn strip(m: &M) -> M {
    let mut m = m.clone();
    for n in m.nodes.values_mut() {
        for k in &["unary_chain", "abs_ancestor", "rel_ancestor"] {
            n.feats.remove(*k);
        }
    }
    m
}

fn refused(cx: &mut Cx, t: &mut Tree, m: &M) -> Res {
    cx.count("discontinuous trees refused");
    if calm("encode_absolute", || t.encode_absolute())?.is_ok() {
        return Err("encode_absolute accepts a discontinuous tree".into());
    }
    if calm("encode_relative", || t.encode_relative())?.is_ok() {
        return Err("encode_relative accepts a discontinuous tree".into());
    }
    if calm("annotate_absolute", || t.annotate_absolute())?.is_ok() {
        return Err("annotate_absolute accepts a discontinuous tree".into());
    }
    if calm("annotate_relative", || t.annotate_relative())?.is_ok() {
        return Err("annotate_relative accepts a discontinuous tree".into());
    }
    if let Some(d) = diff(m, &snapshot(t)?) {
        return Err(format!("refused encoding changed the tree: {}", d));
    }
    cx.nontrivial = true;
    Ok(())
}

fn same(what: &str, t: &Tree, m: &M, s: Show) -> Res {
    let g = good(t).map_err(|e| format!("{}: {}", what, e))?;
    let (a, b) = (canon(&strip(&g), s), canon(&strip(m), s));
    if a != b {
        return Err(format!("{} gives\n{}\nexpected\n{}", what, a, b));
    }
    Ok(())
}

fn c18(cx: &mut Cx) -> Res {
    let disc = if cx.rng.chance(1, 10) { 100 } else { 0 };
    let (mut t, mut m) = match tree(cx, disc) {
        Some(x) => x,
        None => return Ok(()),
    };
    if cx.rng.chance(1, 3) {
        // a node over nothing but one word is no common ancestor: its name can't be mistaken for the end
        let ch = m.children();
        let over: Vec<Id> = m.nts().into_iter().filter(|n| *n != m.root && ch[n].len() == 1 && m.nodes[&ch[n][0]].term).collect();
        for n in over {
            if cx.rng.chance(1, 3) {
                t[ix(n)].set_label("NONE");
                m.nodes.get_mut(&n).unwrap().label = "NONE".into();
                cx.count("nodes named NONE over one word");
            }
        }
    }
    cx.desc = canon(&m, BARE);
    calm("collapse", || t.collapse_unary_chains("_"))?.map_err(|e| format!("collapse: {}", e))?;
    if !m.projective() {
        let c = snapshot(&t)?;
        return refused(cx, &mut t, &c);
    }
    let c = snapshot(&t)?;
    // in memory
    let abs = calm("encode_absolute", || t.encode_absolute())?.map_err(|e| format!("encode_absolute: {}", e))?;
    let rel = calm("encode_relative", || t.encode_relative())?.map_err(|e| format!("encode_relative: {}", e))?;
    if let Some(d) = diff(&c, &snapshot(&t)?) {
        return Err(format!("encoding changed the tree: {}", d));
    }
    let conv = calm("try_from_relative", || AbsoluteEncoding::try_from_relative(rel))?;
    let conv = match conv.into_result() {
        Ok(x) => x,
        Err(_) => return Err("relative encoding can't be converted".into()),
    };
    for (what, e) in vec![("absolute encoding", abs), ("relative encoding", conv)] {
        let ws = words(&t)?;
        let mut d = calm("decode", || Tree::decode(e, ws))?;
        same(&format!("{}, decoded", what), &d, &c, WITH_T)?;
        calm("restore", || d.restore_unary_chains("_"))?.map_err(|e| format!("restore: {}", e))?;
        same(&format!("{}, restored", what), &d, &m, WITH_T)?;
        // no placeholders
        calm("remove_dummy_nodes", || d.remove_dummy_nodes())?.map_err(|e| format!("remove_dummy_nodes: {}", e))?;
        same(&format!("{}, placeholders removed", what), &d, &m, WITH_T)?;
    }
    cx.count("round trips in memory");
    // over CoNLL-X text
    let absolute = cx.rng.chance(1, 2);
    if absolute {
        calm("annotate_absolute", || t.annotate_absolute())?.map_err(|e| format!("annotate_absolute: {}", e))?;
    } else {
        calm("annotate_relative", || t.annotate_relative())?.map_err(|e| format!("annotate_relative: {}", e))?;
    }
    let mut out = Vec::new();
    calm("write_tree", || Writer::new(&mut out).write_tree(&t).map_err(|e| e.to_string()))?
        .map_err(|e| format!("write_tree: {}", e))?;
    let src = Chunky::new(out.clone(), &mut cx.rng).buffered(&mut cx.rng);
    let s = match Reader::new(src).read_sentence() {
        Ok(Some(s)) => s,
        r => return Err(format!("CoNLL-X text can't be read: {:?}\n{}", r.err(), String::from_utf8_lossy(&out))),
    };
    let d = calm("try_from_conllx", || {
        if absolute {
            Tree::try_from_conllx_with_absolute_encoding(&s)
        } else {
            Tree::try_from_conllx_with_relative_encoding(&s)
        }
    })?
    .map_err(|e| format!("try_from_conllx: {}\n{}", e, String::from_utf8_lossy(&out)))?;
    same("CoNLL-X", &d, &m, BARE)?;
    cx.count(if absolute { "round trips over absolute features" } else { "round trips over relative features" });
    cx.add("words", m.n_terms() as u64);
    if m.nodes.len() != c.nodes.len() {
        cx.count("trees with unary chains");
    }
    cx.nontrivial = true;
    Ok(())
}

// --- C19 ---------------------------------------------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
pub struct Lbl {
    /// label and number of shared ancestors
    pub lca: Option<(String, usize)>,
    pub chain: Option<String>,
}

/// The labels by their definition.
pub fn labels(m: &M) -> Vec<Lbl> {
    let s = m.sentence();
    let mut out = Vec::new();
    for (i, w) in s.iter().enumerate() {
        let chain = m.nodes[w].feats.get("unary_chain").and_then(|c| c.clone());
        let lca = s.get(i + 1).map(|next| {
            let b: BTreeSet<Id> = m.ancestors(*next).into_iter().collect();
            let common: Vec<Id> = m.ancestors(*w).into_iter().filter(|a| b.contains(a)).collect();
            let n = &m.nodes[&common[0]];
            let l = match n.feats.get("unary_chain") {
                Some(Some(c)) => format!("{}_{}", c, n.label),
                _ => n.label.clone(),
            };
            (l, common.len())
        });
        out.push(Lbl { lca, chain });
    }
    out
}

pub fn abs_texts(l: &[Lbl]) -> Vec<String> {
    l.iter()
        .map(|l| match &l.lca {
            Some((s, n)) => format!("{}+{}", s, n),
            None => "NONE".into(),
        })
        .collect()
}

pub fn rel_texts(l: &[Lbl]) -> Vec<String> {
    let mut prev = 0;
    l.iter()
        .map(|l| match &l.lca {
            Some((s, n)) => {
                let d = *n as i64 - prev;
                prev = *n as i64;
                if *n == 1 {
                    s.clone()
                } else {
                    format!("{}+{}", s, d)
                }
            }
            None => "NONE".into(),
        })
        .collect()
}

pub fn with_chain(texts: &[String], l: &[Lbl]) -> Vec<String> {
    texts
        .iter()
        .zip(l)
        .map(|(t, l)| match &l.chain {
            Some(c) => format!("{}~{}", t, c),
            None => t.clone(),
        })
        .collect()
}

fn c19(cx: &mut Cx) -> Res {
    let (mut t, _) = match tree(cx, 0) {
        Some(x) => x,
        None => return Ok(()),
    };
    if calm("collapse", || t.collapse_unary_chains("_"))?.is_err() {
        return skip(cx, "collapse failed".into());
    }
    if cx.rng.chance(1, 4) {
        // words that were annotated before
        let ws = snapshot(&t)?.terms();
        let most = if cx.rng.chance(1, 2) { 1 } else { 3 };
        for w in ws {
            if cx.rng.below(3) < most {
                for key in &["abs_ancestor", "rel_ancestor"] {
                    if cx.rng.chance(2, 3) {
                        let old = cx.rng.pick(&[None, Some("NONE"), Some("1~S"), Some(""), Some("-1~NP"), Some("2~VP+A_B")]).map(ToOwned::to_owned);
                        t[ix(w)].features_mut().insert(*key, old);
                    }
                }
            }
        }
        cx.count("trees with annotations from before");
    }
    let m = match good(&t) {
        Ok(m) => m,
        Err(e) => return skip(cx, e),
    };
    if !m.projective() {
        return Ok(());
    }
    cx.desc = canon(&m, Show { nt_feats: true, t_feats: true, ..BARE });
    let exp = labels(&m);
    cx.step(format!("{:?}", exp));
    let abs = calm("encode_absolute", || t.encode_absolute())?.map_err(|e| format!("encode_absolute: {}", e))?;
    let got: Vec<Lbl> = abs
        .iter()
        .map(|(a, c)| Lbl {
            lca: a.as_ref().map(|a| (a.label().to_string(), a.n_common())),
            chain: c.clone(),
        })
        .collect();
    if got != exp {
        return Err(format!("absolute labels {:?}\nexpected {:?}", got, exp));
    }
    let show = |e: &AbsoluteEncoding| -> Vec<String> {
        e.iter().map(|(a, _)| a.as_ref().map(|a| a.to_string()).unwrap_or_else(|| "NONE".into())).collect()
    };
    if show(&abs) != abs_texts(&exp) {
        return Err(format!("text of absolute labels {:?}, expected {:?}", show(&abs), abs_texts(&exp)));
    }
    let parts: Vec<Option<(usize, String)>> = abs.iter().map(|(a, _)| a.clone().map(|a| a.into_parts())).collect();
    if parts != exp.iter().map(|l| l.lca.clone().map(|(s, n)| (n, s))).collect::<Vec<_>>() {
        return Err(format!("parts of absolute labels {:?}", parts));
    }
    let rel = calm("encode_relative", || t.encode_relative())?.map_err(|e| format!("encode_relative: {}", e))?;
    let texts: Vec<String> = rel
        .iter()
        .map(|(a, _)| a.as_ref().map(|a| a.to_string()).unwrap_or_else(|| "NONE".into()))
        .collect();
    let chains: Vec<Option<String>> = rel.iter().map(|(_, c)| c.clone()).collect();
    if texts != rel_texts(&exp) || chains != exp.iter().map(|l| l.chain.clone()).collect::<Vec<_>>() {
        return Err(format!("relative labels {:?} {:?}\nexpected {:?}", texts, chains, rel_texts(&exp)));
    }
    // conversions
    let rel2 = calm("from absolute", || RelativeEncoding::from(abs.clone()))?;
    if rel2 != rel {
        return Err(format!("converted to relative {:?}, encoded {:?}", rel2, rel));
    }
    let abs2 = calm("from relative", || AbsoluteEncoding::try_from_relative(rel.clone()).into_result())?;
    match abs2 {
        Ok(a) if a == abs => (),
        Ok(a) => return Err(format!("converted back {:?}, encoded {:?}", a, abs)),
        Err(_) => return Err("conversion of a tree's relative encoding fails".into()),
    }
    if calm("unwrap_or_fix", || AbsoluteEncoding::try_from_relative(rel).unwrap_or_fix())? != abs {
        return Err("unwrap_or_fix differs".into());
    }
    if calm("into_iter", || abs.clone().into_iter().count())? != m.n_terms() {
        return Err("number of labels".into());
    }
    // features
    let mut e = m.clone();
    for (key, texts) in vec![
        ("abs_ancestor", with_chain(&abs_texts(&exp), &exp)),
        ("rel_ancestor", with_chain(&rel_texts(&exp), &exp)),
    ] {
        if key == "abs_ancestor" {
            calm("annotate_absolute", || t.annotate_absolute())?.map_err(|e| format!("annotate_absolute: {}", e))?;
        } else {
            calm("annotate_relative", || t.annotate_relative())?.map_err(|e| format!("annotate_relative: {}", e))?;
        }
        for (w, x) in m.sentence().into_iter().zip(texts) {
            e.nodes.get_mut(&w).unwrap().feats.insert(key.into(), Some(x));
        }
        if let Some(d) = diff(&e, &snapshot(&t)?) {
            return Err(format!("annotating {}: {}", key, d));
        }
    }
    cx.add("labels compared", exp.len() as u64);
    cx.count("trees");
    if exp.iter().any(|l| l.chain.is_some()) {
        cx.count("trees with chains at words");
    }
    if m.nts().iter().any(|n| m.nodes[n].feats.contains_key("unary_chain")) {
        cx.count("trees with chains at inner nodes");
    }
    cx.nontrivial = true;
    Ok(())
}

// --- C20 ---------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Seq {
    /// label with chain, number on the absolute scale
    pub lca: Option<(String, usize)>,
    pub chain: Option<String>,
}

const DL: &[&str] = &["S", "NP", "VP", "A", "X", "DUMMY", "NX-ORG", "B=C", "Ü", "DUMMYX", "xDUMMY", "NONEX", "Dummy"];

pub fn random_labels(rng: &mut Rng, n: usize, deep: bool) -> Vec<Seq> {
    let max = if deep && n < 40 && rng.chance(1, 40) { rng.range(250, 700) } else { *rng.pick(&[2, 3, 4, 6, 10, 60]) };
    let gaps = *rng.pick(&[0, 0, 5, 20, 50]);
    let dummies = rng.chance(1, 3);
    let lab = |rng: &mut Rng| loop {
        let l = *rng.pick(DL);
        if l != "DUMMY" || dummies {
            return l.to_string();
        }
    };
    let mut cur = 1 + rng.below(max);
    (0..n)
        .map(|i| {
            let none = if i + 1 == n { rng.chance(9, 10) } else { rng.chance(gaps, 100) };
            if rng.chance(1, 3) {
                cur = 1 + rng.below(max);
            } else {
                cur = (cur + rng.below(3)).saturating_sub(1).max(1).min(max);
            }
            let mut l = lab(rng);
            while rng.chance(1, 6) {
                l = format!("{}_{}", l, lab(rng));
            }
            Seq {
                lca: if none { None } else { Some((l, cur)) },
                chain: if rng.chance(1, 6) {
                    Some(if rng.chance(1, 3) { format!("{}_{}", lab(rng), lab(rng)) } else { lab(rng) })
                } else {
                    None
                },
            }
        })
        .collect()
}

/// All pieces labels may come from.
fn pieces(s: &[Seq]) -> BTreeSet<String> {
    let mut p: BTreeSet<String> = BTreeSet::new();
    p.insert("DUMMY".into());
    for l in s {
        if let Some((l, _)) = &l.lca {
            p.extend(l.split('_').map(ToOwned::to_owned));
        }
        if let Some(l) = &l.chain {
            p.extend(l.split('_').map(ToOwned::to_owned));
        }
    }
    p
}

/// Verdict on a decoded tree.
fn decoded(t: &Tree, seq: &[Seq], forms: &[(String, String)], restored: bool) -> Result<M, String> {
    let m = good(t)?;
    if !m.projective() {
        return Err("discontinuous tree".into());
    }
    let got: Vec<(String, String)> =
        m.sentence().iter().map(|w| (m.nodes[w].form.clone(), m.nodes[w].label.clone())).collect();
    if got != forms {
        return Err(format!("words {:?}, expected {:?}", got, forms));
    }
    let p = pieces(seq);
    for n in m.nts() {
        if !p.contains(&m.nodes[&n].label) {
            return Err(format!("label {:?} isn't in the sequence", m.nodes[&n].label));
        }
    }
    // neighbours share as many ancestors as their label states, the lowest carries the label
    let s = m.sentence();
    if !restored && seq[..seq.len() - 1].iter().all(|l| l.lca.is_some()) && s.len() > 1 {
        let mut last: std::collections::BTreeMap<Id, String> = Default::default();
        for i in 0..s.len() - 1 {
            let (l, n) = seq[i].lca.as_ref().unwrap();
            let b = m.ancestors(s[i + 1]);
            let common: Vec<Id> = m.ancestors(s[i]).into_iter().filter(|a| b.contains(a)).collect();
            if common.len() != *n {
                return Err(format!("words {} and {} share {} ancestors, label says {}", i, i + 1, common.len(), n));
            }
            last.insert(common[0], l.rsplit('_').next().unwrap().to_string());
        }
        if seq[seq.len() - 1].lca.is_none() {
            for n in m.nts() {
                let exp = last.get(&n).map(String::as_str).unwrap_or("DUMMY");
                if m.nodes[&n].label != exp {
                    return Err(format!("inner node {} is labelled {:?}, expected {:?}", n, m.nodes[&n].label, exp));
                }
            }
        }
    }
    Ok(m)
}

/// Placeholder removal by definition.
pub fn without_dummies(m: &M) -> M {
    let mut e = m.clone();
    for n in m.nts() {
        if n != m.root && m.nodes[&n].label == "DUMMY" {
            e.remove_nt(n);
        }
    }
    if !e.nodes[&e.root].term && e.nodes[&e.root].label == "DUMMY" {
        let root = e.root;
        e.remove_nt(root);
    }
    e
}

fn check_dummies(cx: &mut Cx, t: &mut Tree, m: &M) -> Res {
    let e = without_dummies(m);
    calm("remove_dummy_nodes", || t.remove_dummy_nodes())?.map_err(|e| format!("remove_dummy_nodes: {}", e))?;
    let g = good(t).map_err(|e| format!("placeholders removed: {}", e))?;
    if let Some(d) = diff(&e, &g) {
        return Err(format!("remove_dummy_nodes: {}", d));
    }
    cx.add("placeholders removed", (m.nodes.len() - e.nodes.len()) as u64);
    for n in g.nts() {
        if g.nodes[&n].label == "DUMMY" && !(n == g.root && g.kids(n).len() > 1) {
            return Err("a placeholder is left".into());
        }
    }
    Ok(())
}

pub const BAD_ABS: &[&str] = &[
    "NP", "NP+", "NP+x", "NP+-1", "NP+0", "NP+1.5", "NP+ 2", "NP++2", "NP+99999999999999999999999", "", "NP+2x", "none", "NP_2", "NP+0~A", "~A", "NP+x~A", "NP+~2",
];
pub const BAD_REL: &[&str] = &[
    "NP+", "NP+x", "NP+1.5", "NP+ 2", "NP++2", "NP+99999999999999999999999", "", "+2", "NP+2x", "+", "~A", "NP+--1", "NP+x~A", "+~A", "NP+~2",
];

fn c20(cx: &mut Cx) -> Res {
    let mode = cx.rng.below(10);
    if mode == 9 {
        // placeholders in any tree
        let n = gen::size(&mut cx.rng, cx.thorough);
        let mut o = gen::opt(Kind::Free, n);
        o.unary = *cx.rng.pick(&[0, 20, 50]);
        if o.unary > 40 {
            o.n = o.n.min(15);
        }
        let (mut t, m, _) = match gen::tree(&mut cx.rng, o) {
            Ok(x) => x,
            Err(e) => return skip(cx, e),
        };
        let p = cx.rng.range(1, 10) as u64;
        for n in m.nts() {
            if cx.rng.chance(p, 10) {
                t[ix(n)].set_label("DUMMY");
            } else if cx.rng.chance(1, 6) {
                t[ix(n)].set_label(*cx.rng.pick(&["DUMMYX", "xDUMMY", "dummy", "DUMM", "DUMMY-X", ""]));
            }
        }
        let m = snapshot(&t)?;
        cx.desc = format!("placeholders in {}", canon(&m, BARE));
        cx.nontrivial = m.nts().iter().any(|n| m.nodes[n].label == "DUMMY");
        return check_dummies(cx, &mut t, &m);
    }
    let n = match cx.rng.below(10) {
        0 => 1,
        1 => 2,
        2 => cx.rng.range(20, 100),
        _ => cx.rng.range(3, 12),
    };
    let mut seq = random_labels(&mut cx.rng, n, true);
    let forms: Vec<(String, String)> = (0..n)
        .map(|i| {
            let f = gen::form(&mut cx.rng, Kind::Enc);
            (format!("{}{}", f, i), gen::pos(&mut cx.rng, Kind::Enc))
        })
        .collect();
    cx.nontrivial = true;
    if mode < 4 {
        // in memory
        let mut inner = Vec::new();
        for l in &seq {
            let a = match &l.lca {
                None => None,
                Some((s, n)) => {
                    let x = format!("{}+{}", s, n);
                    match x.as_str().try_into() {
                        Ok(a) => Some(a),
                        Err(e) => {
                            let e: failure::Error = e;
                            return Err(format!("{:?} isn't accepted: {}", x, e));
                        }
                    }
                }
            };
            inner.push((a, l.chain.clone()));
        }
        let ws: Vec<Terminal> =
            forms.iter().enumerate().map(|(i, (f, p))| Terminal::new(f.as_str(), p.as_str(), i)).collect();
        cx.desc = format!("{:?}", seq);
        let enc = AbsoluteEncoding::new(inner);
        let mut t = calm("decode", || Tree::decode(enc, ws))?;
        let m = decoded(&t, &seq, &forms, false)?;
        // chains of the words
        for (w, l) in m.sentence().iter().zip(&seq) {
            let c = m.nodes[w].feats.get("unary_chain").and_then(|c| c.clone());
            if c != l.chain {
                return Err(format!("chain of word {} is {:?}, expected {:?}", m.nodes[w].pos, c, l.chain));
            }
        }
        cx.count("sequences decoded");
        if seq[..n - 1].iter().any(|l| l.lca.is_none()) {
            cx.count("sequences with empty labels");
        }
        check_dummies(cx, &mut t, &m)?;
        calm("restore", || t.restore_unary_chains("_"))?.map_err(|e| format!("restore: {}", e))?;
        decoded(&t, &seq, &forms, true)?;
        return Ok(());
    }
    // as features
    let relative = cx.rng.chance(2, 3);
    let mut texts = Vec::new();
    if relative {
        let mut prev = 0i64;
        let wild = cx.rng.chance(1, 2);
        let free = cx.rng.range(0, 4) as i64;
        for l in seq.iter_mut() {
            let mut s = match &mut l.lca {
                None => "NONE".to_string(),
                Some((s, n)) => {
                    if wild && cx.rng.chance(1, 2) {
                        // own number: sometimes leads below one
                        let d = cx.rng.range(0, 8) as i64 - free - 2;
                        let sum = prev + d;
                        let x = if sum < 1 {
                            cx.count("labels leading below one ancestor");
                            2
                        } else {
                            sum
                        };
                        *n = x as usize;
                        prev = x;
                        format!("{}+{}", s, d)
                    } else if *n == 1 && cx.rng.chance(4, 5) {
                        prev = 1;
                        s.clone()
                    } else {
                        let d = *n as i64 - prev;
                        prev = *n as i64;
                        format!("{}+{}", s, d)
                    }
                }
            };
            if let Some(c) = &l.chain {
                s = format!("{}~{}", s, c);
            } else if cx.rng.chance(1, 20) {
                // no chain either
                s.push('~');
            }
            texts.push(s);
        }
    } else {
        for l in &seq {
            let mut s = match &l.lca {
                None => "NONE".to_string(),
                Some((s, n)) => format!("{}+{}", s, n),
            };
            if let Some(c) = &l.chain {
                s = format!("{}~{}", s, c);
            } else if cx.rng.chance(1, 20) {
                // no chain either
                s.push('~');
            }
            texts.push(s);
        }
    }
    let key = if relative { "rel_ancestor" } else { "abs_ancestor" };
    let other = if relative { "abs_ancestor" } else { "rel_ancestor" };
    // malformed feature
    let mut broken = None;
    if cx.rng.chance(1, 4) {
        let at = cx.rng.below(n);
        let f = match cx.rng.below(6) {
            0 => None,
            1 => Some(format!("{}|a:b", key)),
            2 => Some(format!("{}:NP+2", other)),
            3 => Some("x".to_string()),
            _ => Some(format!("{}:{}|z:1", key, cx.rng.pick(if relative { BAD_REL } else { BAD_ABS }))),
        };
        broken = Some((at, f));
    }
    let mut s = Sentence::new();
    for i in 0..n {
        let mut b = TokenBuilder::new(forms[i].0.as_str()).pos(forms[i].1.as_str());
        let f = match &broken {
            Some((at, f)) if *at == i => f.clone(),
            _ => Some(format!("a:b|{}:{}|zz", key, texts[i])),
        };
        if let Some(f) = f {
            b = b.features(Features::from_string(f));
        }
        s.push(b.into());
    }
    if n == 1 && cx.rng.chance(1, 8) {
        s = Sentence::new();
        broken = Some((0, None));
    }
    cx.desc = format!("{:?} {:?}", texts, broken);
    let r = calm(&format!("{} {:?}", key, texts), || {
        if relative {
            Tree::try_from_conllx_with_relative_encoding(&s)
        } else {
            Tree::try_from_conllx_with_absolute_encoding(&s)
        }
    })?;
    if let Some(b) = broken {
        cx.count("malformed features");
        return match r {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("malformed feature {:?} accepted", b)),
        };
    }
    let mut t = r.map_err(|e| format!("{:?}: {}", texts, e))?;
    let m = decoded(&t, &seq, &forms, true)?;
    cx.count(if relative { "relative sequences decoded" } else { "absolute sequences decoded" });
    // the same over the other way: decoding the absolute numbers in memory
    let inner = seq
        .iter()
        .map(|l| {
            (
                l.lca.as_ref().map(|(s, n)| {
                    let x: Result<_, failure::Error> = format!("{}+{}", s, n).as_str().try_into();
                    x.expect("label")
                }),
                l.chain.clone(),
            )
        })
        .collect();
    let ws: Vec<Terminal> =
        forms.iter().enumerate().map(|(i, (f, p))| Terminal::new(f.as_str(), p.as_str(), i)).collect();
    let mut t2 = calm("decode", || Tree::decode(AbsoluteEncoding::new(inner), ws))?;
    decoded(&t2, &seq, &forms, false)?;
    calm("restore", || t2.restore_unary_chains("_"))?.map_err(|e| format!("restore: {}", e))?;
    let (a, b) = (canon(&m, ALL), canon(&snapshot(&t2)?, ALL));
    if a != b {
        return Err(format!("{:?} {:?} decoded as\n{}\nexpected\n{}", key, texts, a, b));
    }
    check_dummies(cx, &mut t, &m)
}

// --- C21 ---------------------------------------------------------------------------------------

fn c21(cx: &mut Cx) -> Res {
    let k = cx.rng.range(1, 3);
    let mut ts = Vec::new();
    for _ in 0..k {
        let (mut t, mut m) = match tree(cx, 40) {
            Some(x) => x,
            None => return Ok(()),
        };
        for w in m.terms() {
            if cx.rng.chance(1, 6) {
                // emptied feature list
                t[ix(w)].features_mut().insert("k", Some("v"));
                for k in m.nodes[&w].feats.keys().cloned().chain(vec!["k".to_string()]) {
                    t[ix(w)].features_mut().remove(&k);
                }
                cx.count("emptied feature lists");
            } else if cx.rng.chance(1, 8) {
                t[ix(w)].features_mut().insert("only", None::<String>);
            }
            if cx.rng.chance(1, 12) {
                t[ix(w)].features_mut().insert("empty", Some(""));
            }
            if cx.rng.chance(1, 8) {
                // markers of other formats for missing values, mean nothing here
                let v = *cx.rng.pick(gen::MARKERS);
                cx.count("markers of other formats");
                let t = t[ix(w)].terminal_mut().unwrap();
                match cx.rng.below(4) {
                    0 | 1 => drop(t.set_lemma(Some(v))),
                    2 => drop(t.set_form(v)),
                    _ => drop(t.set_label(v)),
                }
            }
        }
        m = snapshot(&t)?;
        ts.push((t, m));
    }
    cx.desc = ts.iter().map(|(_, m)| canon(m, ALL)).collect::<Vec<_>>().join("\n");
    let mut out = Vec::new();
    {
        let mut w = Writer::new(&mut out);
        for (t, _) in &ts {
            calm("write_tree", || w.write_tree(t).map_err(|e| e.to_string()))?.map_err(|e| format!("write_tree: {}", e))?;
        }
    }
    let txt = String::from_utf8(out).map_err(|_| "output isn't UTF-8".to_string())?;
    let sents = text::parse_conllx(&txt).map_err(|e| format!("{}\n{}", e, txt))?;
    if sents.len() != k {
        return Err(format!("{} sentences in the text of {}", sents.len(), k));
    }
    for (i, (rows, (_, m))) in sents.iter().zip(&ts).enumerate() {
        text::conllx_diff(m, rows).map_err(|e| format!("sentence {}: {}", i, e))?;
        cx.add("lines compared", rows.len() as u64);
    }
    for (i, (t, m)) in ts.iter().enumerate() {
        let a: Sentence = calm("to_conllx", || t.to_conllx())?;
        let b: Sentence = calm("from &Tree", || Sentence::from(t))?;
        let c: Sentence = calm("from Tree", || Sentence::from(t.clone()))?;
        if a != b || b != c {
            return Err(format!("sentence {}: the conversions differ: {:?} {:?} {:?}", i, a, b, c));
        }
        if let Some(d) = diff(m, &snapshot(t)?) {
            return Err(format!("sentence {}: converting changed the tree: {}", i, d));
        }
        for s in &[a, b, c] {
            let mut o = Vec::new();
            Writer::new(&mut o).write_sentence(s).map_err(|e| e.to_string())?;
            let rows = text::parse_conllx(&String::from_utf8_lossy(&o)).map_err(|e| format!("conversion: {}", e))?;
            if rows.len() != 1 {
                return Err("conversion has no words".into());
            }
            text::conllx_diff(m, &rows[0]).map_err(|e| format!("conversion of sentence {}: {}", i, e))?;
        }
        cx.count("conversions compared");
    }
    if cx.rng.chance(1, 6) {
        cx.count("write errors injected");
        let left = cx.rng.below(txt.len());
        let choking = Choking::new(left, &mut cx.rng);
        let mut w = Writer::new(choking);
        let mut failed = false;
        for (t, _) in &ts {
            failed |= calm("write_tree", || w.write_tree(t).is_err())?;
        }
        if !failed {
            return Err("a write error was swallowed".into());
        }
    }
    cx.nontrivial = true;
    Ok(())
}

pub static CHECKS: &[&Check] = &[
    &Check {
        id: "C18",
        rule: "a case counts if a tree was encoded, decoded and restored on both scales in memory and on one over CoNLL-X text, or refused for being discontinuous; distinct by tree",
        quick: 40_000,
        thorough: 1_500_000,
        threads: 8,
        min_judged: 60,
        run: c18,
        assumptions: &["labels of inner nodes avoid '_', '+', '~', '|', ':' and are not DUMMY or, unless a single word is their only child, NONE"],
    },
    &Check {
        id: "C19",
        rule: "a case counts if all labels of a tree were compared with the ones computed from the ancestor lists of its words; distinct by tree",
        quick: 40_000,
        thorough: 1_500_000,
        threads: 8,
        min_judged: 60,
        run: c19,
        assumptions: &["trees without unary chains, labels as in C18"],
    },
    &Check {
        id: "C20",
        rule: "a case counts if a label sequence was decoded and the tree judged, or a malformed one refused; distinct by sequence",
        quick: 80_000,
        thorough: 3_000_000,
        threads: 8,
        min_judged: 60,
        run: c20,
        assumptions: &["counts up to 60; an empty label before a number on the absolute scale is left open"],
    },
    &Check {
        id: "C21",
        rule: "a case counts if all lines of an export were compared with the words and the conversions with each other; distinct by trees",
        quick: 40_000,
        thorough: 1_500_000,
        threads: 8,
        min_judged: 60,
        run: c21,
        assumptions: &["values are free of tabs, line breaks, '|', feature keys and values free of ':'"],
    },
];
