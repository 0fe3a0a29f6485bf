//! C28: results depend on the input sentence alone.

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::process::Command;
use std::sync::{Arc, Barrier};

use conllx::io::{ReadSentence, Reader, Writer};
use lumberjack::io::{
    AbsoluteEncoding, Decode, Encode, NegraWriter, PTBLineFormat, PTBReader, PTBWriter, TryFromConllx,
};
use lumberjack::{
    AnnotatePOS, NegraReader, Projectivize, Terminal, Tree, TreeOps, UnaryChains, WriteTree,
};

use crate::c_cli::{self, In, Scratch};
use crate::c_ops::edit_some;
use crate::flow::Chunky;
use crate::h::*;
use crate::model::*;
use crate::rng::{hash, mix, Rng};
use crate::text::FMTS;

fn e(x: impl std::fmt::Display) -> String {
    x.to_string()
}

/// Everything that can be observed of a tree.
fn observe(t: &Tree, out: &mut String) {
    match snapshot(t) {
        Ok(m) => out.push_str(&canon(&m, ALL)),
        Err(x) => out.push_str(&x),
    }
    out.push('\n');
    for f in &FMTS {
        out.push_str(&format!("{:?}\n", f.lib().tree_to_string(t).map_err(e)));
        let mut o = Vec::new();
        let r = PTBWriter::new(&mut o, f.lib()).write_tree(t).map_err(e);
        out.push_str(&format!("{:?} {}\n", r, String::from_utf8_lossy(&o)));
    }
    let mut o = Vec::new();
    let r = NegraWriter::new(&mut o).write_tree(t).map_err(e);
    out.push_str(&format!("{:?} {}\n", r, String::from_utf8_lossy(&o)));
    let mut o = Vec::new();
    let r = Writer::new(&mut o).write_tree(t).map_err(e);
    out.push_str(&format!("{:?} {}\n", r, String::from_utf8_lossy(&o)));
    out.push_str(&format!("{:?}\n", t.encode_absolute().map_err(e)));
    out.push_str(&format!("{:?}\n", t.encode_relative().map_err(e)));
    out.push_str(&format!("{} {} {}\n", t.is_projective(), t.n_terminals(), t.nonterminals().count()));
}

/// A pipeline of operations, chosen by the seed alone.
fn pipeline(mut t: Tree, seed: u64, out: &mut String) {
    let mut rng = Rng::new(seed);
    observe(&t, out);
    for _ in 0..rng.range(1, 4) {
        let k = rng.below(13);
        let p = rng.next();
        let hit = |s: &str| mix(p, hash(s)) % 3 == 0;
        let r: Result<(), String> = match k {
            0 => t.filter_nonterminals(|t, n| hit(t[n].label())).map_err(e),
            1 => {
                let root = t.root();
                if !t[root].is_terminal() {
                    t.reattach_terminals(root, |t, n| hit(t[n].label()));
                }
                Ok(())
            }
            2 => t
                .insert_intermediate(|t, n| if hit(t[n].label()) { Some("INS".to_string()) } else { None })
                .map_err(e),
            3 => {
                t.project_ids("ids", |t, n| hit(t[n].label()));
                Ok(())
            }
            4 => {
                t.project_tag_set("tags", |t, n| hit(t[n].label()));
                Ok(())
            }
            5 => t.annotate_parent_tag("parent").map_err(e),
            6 => {
                let r = t.collapse_unary_chains("_").map_err(e);
                observe(&t, out);
                r
            }
            7 => t.restore_unary_chains("_").map_err(e),
            8 | 9 => {
                if let Some(m) = t.projectivize() {
                    let mut v: Vec<String> = m
                        .iter()
                        .map(|(p, x, c)| format!("{} {:?} {}", p.index(), x.label(), c.index()))
                        .collect();
                    v.sort();
                    v.dedup();
                    out.push_str(&format!("{} moved\n", v.len()));
                }
                Ok(())
            }
            10 => {
                let n = t.n_terminals();
                t.annotate_pos((0..n).map(|i| format!("P{}", i))).map_err(e)
            }
            11 => {
                let a = t.annotate_absolute().map_err(e);
                a.and_then(|_| t.annotate_relative().map_err(e))
            }
            _ => {
                let mut c = t.clone();
                let r = match c.collapse_unary_chains("_") {
                    Err(x) => Err(e(x)),
                    Ok(()) => match c.encode_relative() {
                        Err(x) => Err(e(x)),
                        Ok(r) => {
                            let enc = AbsoluteEncoding::try_from_relative(r).unwrap_or_fix();
                            let m = snapshot(&c);
                            match m {
                                Err(x) => Err(x),
                                Ok(m) => {
                                    let ws: Vec<Terminal> = m
                                        .sentence()
                                        .into_iter()
                                        .map(|w| c[ix(w)].terminal().unwrap().clone())
                                        .collect();
                                    let mut d = Tree::decode(enc, ws);
                                    let r = d.remove_dummy_nodes().map_err(e);
                                    observe(&d, out);
                                    r
                                }
                            }
                        }
                    },
                };
                r
            }
        };
        out.push_str(&format!("op {}: {:?}\n", k, r));
        observe(&t, out);
    }
}

/// Result for a sentence as it was read, panics included.
fn outcome(r: Result<Tree, String>, seed: u64) -> String {
    let mut out = String::new();
    match r {
        Ok(t) => {
            let mut o = String::new();
            match guard(|| pipeline(t, seed, &mut o)) {
                Ok(()) => (),
                Err(p) => {
                    // with the location of the panic
                    o.push_str("panic: ");
                    o.push_str(&p);
                }
            }
            out.push_str(&o);
        }
        Err(x) => out.push_str(&format!("error: {}", x)),
    }
    out
}

/// Read a stream.
fn read_all(src: Vec<u8>, input: In, multi: bool, rng: Option<&mut Rng>) -> Vec<Result<Tree, String>> {
    let mut whole = Rng::new(1);
    let chunked = rng.is_some();
    let rng = match rng {
        Some(r) => r,
        None => &mut whole,
    };
    let b: Box<dyn std::io::BufRead> = if chunked {
        Box::new(Chunky::new(src, rng).buffered(rng))
    } else {
        Box::new(std::io::Cursor::new(src))
    };
    let mut v = Vec::new();
    match input {
        In::Brk(f) => {
            let l = if multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
            for t in PTBReader::new(b, f.lib(), l) {
                v.push(t.map_err(e));
            }
        }
        In::Negra => {
            for t in NegraReader::new(b) {
                v.push(t.map_err(e));
            }
        }
        In::Abs | In::Rel => {
            for s in Reader::new(b).sentences() {
                v.push(match s {
                    Ok(s) => {
                        if input == In::Abs {
                            Tree::try_from_conllx_with_absolute_encoding(&s).map_err(e)
                        } else {
                            Tree::try_from_conllx_with_relative_encoding(&s).map_err(e)
                        }
                    }
                    Err(x) => Err(format!("conllx: {}", x)),
                });
                if v.len() > 5000 {
                    break;
                }
            }
        }
    }
    v
}

fn seed_of(text: &[u8], salt: u64) -> u64 {
    mix(hash(&String::from_utf8_lossy(text)), salt)
}

/// Own process: sentences from a file, separated by a marker; prints a digest per sentence.
pub fn child(path: &str) -> i32 {
    let data = match fs::read_to_string(path) {
        Ok(d) => d,
        Err(_) => return 2,
    };
    let mut parts = data.split('\u{1}');
    let head: Vec<String> = parts.next().unwrap_or("").split(' ').map(ToOwned::to_owned).collect();
    let input = match head[0].as_str() {
        "ptb" => In::Brk(FMTS[0]),
        "simple" => In::Brk(FMTS[1]),
        "tueba" => In::Brk(FMTS[2]),
        "negra" => In::Negra,
        "absolute" => In::Abs,
        _ => In::Rel,
    };
    let multi = head[1] == "true";
    let salt: u64 = head[2].parse().unwrap_or(0);
    for p in parts {
        let r = c_cli::read_alone(p.as_bytes(), input, multi);
        println!("{}", hash(&outcome(r, seed_of(p.as_bytes(), salt))));
    }
    0
}

fn same(what: &str, i: usize, a: &str, b: &str) -> Res {
    if a == b {
        return Ok(());
    }
    let (mut la, mut lb) = (a.lines(), b.lines());
    loop {
        let (x, y) = (la.next(), lb.next());
        if x != y {
            return Err(format!("sentence {}: {} gives\n{:?}\nalone it gives\n{:?}", i, what, y, x));
        }
        if x.is_none() {
            return Ok(());
        }
    }
}

fn c28(cx: &mut Cx) -> Res {
    match cx.rng.below(4) {
        0 => clones(cx),
        _ => streams(cx),
    }
}

fn streams(cx: &mut Cx) -> Res {
    let mut conf = c_cli::conf(&mut cx.rng);
    conf.output = c_cli::Out::Conllx;
    let n = cx.rng.range(2, 7);
    let mut texts: Vec<Vec<u8>> = Vec::new();
    let mut broken = 0;
    for _ in 0..n {
        let k = c_cli::size(&mut cx.rng, true);
        // malformed sentences leave no traces either; only where the end of a sentence is certain
        let bad = match conf.input {
            In::Brk(_) if conf.multi => None,
            In::Brk(_) | In::Abs | In::Rel if cx.rng.chance(1, 8) => Some(c_cli::Bad("open")),
            // a malformed line of an export sentence may be reported more than once
            _ => None,
        };
        broken += bad.is_some() as usize;
        match c_cli::sentence(&conf, &mut cx.rng, k, bad) {
            Ok(s) => texts.push(s.text),
            Err(x) => return skip(cx, x),
        }
    }
    let salt = cx.rng.next();
    let (input, multi) = (conf.input, conf.multi);
    let all: Vec<u8> = texts.concat();
    cx.desc = format!("{:?} multi={} salt={}\n{}", input, multi, salt, String::from_utf8_lossy(&all));
    // alone
    let alone: Vec<String> = texts
        .iter()
        .map(|t| {
            let r = c_cli::read_alone(t, input, multi);
            outcome(r.map_err(|_| "refused".to_string()), seed_of(t, salt))
        })
        .collect();
    cx.add("sentences", n as u64);
    cx.add("malformed sentences", broken as u64);
    // repeatedly
    for (i, t) in texts.iter().enumerate() {
        let r = c_cli::read_alone(t, input, multi);
        let again = outcome(r.map_err(|_| "refused".to_string()), seed_of(t, salt));
        same("repeating", i, &alone[i], &again)?;
        cx.count("repetitions");
    }
    // in a stream, in pieces
    for chunked in &[false, true, true] {
        let mut r = cx.rng.clone();
        let trees = calm("reading", || {
            read_all(all.clone(), input, multi, if *chunked { Some(&mut r) } else { None })
        })?;
        cx.rng.next();
        if trees.len() != n {
            return Err(format!(
                "{} results for {} sentences in one stream (in pieces: {})",
                trees.len(),
                n,
                chunked
            ));
        }
        for (i, t) in trees.into_iter().enumerate() {
            let o = outcome(t.map_err(|_| "refused".to_string()), seed_of(&texts[i], salt));
            same(
                if *chunked { "reading in pieces" } else { "reading as part of a stream" },
                i,
                &alone[i],
                &o,
            )?;
            cx.count(if *chunked { "from chunked streams" } else { "from streams" });
        }
    }
    // readers of different formats, and several of them at once
    if let In::Brk(_) = input {
        formats(cx, &texts, multi, salt)?;
    }
    alternating(cx, &all, input, multi, &alone, &texts, salt)?;
    // another order
    let mut order: Vec<usize> = (0..n).collect();
    cx.rng.shuffle(&mut order);
    let mut s: Vec<u8> = Vec::new();
    for i in &order {
        s.extend(&texts[*i]);
        if !s.ends_with(b"\n") {
            s.push(b'\n');
        }
    }
    let trees = calm("reading", || read_all(s, input, multi, None))?;
    if trees.len() != n {
        return Err(format!("{} results for {} sentences in another order", trees.len(), n));
    }
    for (i, t) in order.iter().zip(trees) {
        let o = outcome(t.map_err(|_| "refused".to_string()), seed_of(&texts[*i], salt));
        same("another order", *i, &alone[*i], &o)?;
        cx.count("in another order");
    }
    // several threads at once
    if cx.rng.chance(1, 3) {
        let k = cx.rng.range(2, 6);
        let texts = Arc::new(texts.clone());
        let barrier = Arc::new(Barrier::new(k));
        let mut hs = Vec::new();
        for _ in 0..k {
            let (texts, barrier) = (texts.clone(), barrier.clone());
            let mut rng = Rng::new(cx.rng.next());
            hs.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        let mut order: Vec<usize> = (0..texts.len()).collect();
                        rng.shuffle(&mut order);
                        barrier.wait();
                        let mut v = Vec::new();
                        for i in order {
                            if rng.chance(1, 3) {
                                std::thread::yield_now();
                            }
                            let r = c_cli::read_alone(&texts[i], input, multi);
                            v.push((i, outcome(r.map_err(|_| "refused".to_string()), seed_of(&texts[i], salt))));
                        }
                        v
                    })
                    .map_err(harness)?,
            );
        }
        for h in hs {
            for (i, o) in h.join().map_err(|_| "a thread panicked".to_string())? {
                same("another thread", i, &alone[i], &o)?;
                cx.count("in concurrent threads");
            }
        }
    }
    // another process
    if cx.rng.chance(1, 30) {
        let dir = Scratch::new("ind", cx.case);
        let mut data = format!("{} {} {}", conf.input.arg(), multi, salt).into_bytes();
        for t in &texts {
            data.push(1);
            data.extend(t);
        }
        let f = dir.file("in", &data);
        let o = Command::new(std::env::current_exe().map_err(harness)?)
            .arg("C28")
            .arg("--child")
            .arg(&f)
            .output()
            .map_err(harness)?;
        let o = String::from_utf8_lossy(&o.stdout).to_string();
        let got: Vec<&str> = o.lines().collect();
        for (i, a) in texts.iter().enumerate() {
            let _ = a;
            let t = &texts[i];
            let r = c_cli::read_alone(t, input, multi);
            let want = hash(&outcome(r, seed_of(t, salt))).to_string();
            if got.get(i).map(|g| *g != want).unwrap_or(true) {
                return Err(format!("sentence {}: another process gives another result: {:?} {}", i, got.get(i), want));
            }
            cx.count("in another process");
        }
    }
    cx.nontrivial = true;
    Ok(())
}

/// The same texts in several formats: what is read before makes no difference.
fn formats(cx: &mut Cx, texts: &[Vec<u8>], multi: bool, salt: u64) -> Res {
    let one = move |t: &[u8], f: usize, via: bool| {
        let r = if via {
            c_cli::read_alone(t, In::Brk(FMTS[f]), multi)
        } else {
            // the string itself
            let s = String::from_utf8_lossy(t).replace(|c| c == '\n' || c == '\r', " ");
            guard(|| FMTS[f].lib().string_to_tree(&s).map_err(e)).and_then(|r| r)
        };
        outcome(r.map_err(|_| "refused".to_string()), seed_of(t, salt))
    };
    let mut fresh = BTreeMap::new();
    for via in &[false, true] {
        for f in 0..FMTS.len() {
            // a thread of its own
            let ts = texts.to_vec();
            let via = *via;
            let v = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || ts.iter().map(|t| hash(&one(t, f, via))).collect::<Vec<_>>())
                .map_err(harness)?
                .join()
                .map_err(|_| "a thread panicked".to_string())?;
            for (i, h) in v.into_iter().enumerate() {
                fresh.insert((i, f, via), h);
            }
        }
    }
    for _ in 0..2 * texts.len() {
        let i = cx.rng.below(texts.len());
        for _ in 0..cx.rng.range(1, 4) {
            let (f, via) = (cx.rng.below(FMTS.len()), cx.rng.chance(1, 3));
            if hash(&one(&texts[i], f, via)) != fresh[&(i, f, via)] {
                return Err(format!(
                    "sentence {} read as {:?} (reader: {}) depends on what was read before",
                    i, FMTS[f], via
                ));
            }
            cx.count("readings in alternating formats");
        }
    }
    Ok(())
}

/// Several readers of the same stream take turns.
fn alternating(
    cx: &mut Cx,
    all: &[u8],
    input: In,
    multi: bool,
    alone: &[String],
    texts: &[Vec<u8>],
    salt: u64,
) -> Res {
    let k = cx.rng.range(2, 4);
    let mut readers: Vec<Box<dyn Iterator<Item = Result<Tree, String>>>> = Vec::new();
    for _ in 0..k {
        let src = Chunky::new(all.to_vec(), &mut cx.rng).buffered(&mut cx.rng);
        readers.push(match input {
            In::Brk(f) => {
                let l = if multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
                Box::new(PTBReader::new(src, f.lib(), l).map(|t| t.map_err(e)))
            }
            In::Negra => Box::new(NegraReader::new(src).map(|t| t.map_err(e))),
            _ => return Ok(()),
        });
    }
    let mut at = vec![0; k];
    while at.iter().any(|a| *a < texts.len()) {
        let r = cx.rng.below(k);
        if at[r] == texts.len() {
            continue;
        }
        let i = at[r];
        at[r] += 1;
        let t = match calm("reading", || readers[r].next())? {
            Some(t) => t.map_err(|_| "refused".to_string()),
            None => return Err(format!("no result for sentence {} while several readers take turns", i)),
        };
        same("reading with several readers in turn", i, &alone[i], &outcome(t, seed_of(&texts[i], salt)))?;
        cx.count("from readers taking turns");
    }
    Ok(())
}

/// Clones evolve independently.
fn clones(cx: &mut Cx) -> Res {
    let n = crate::gen::size(&mut cx.rng, cx.thorough).min(60);
    let mut o = crate::gen::opt(crate::gen::Kind::Free, n);
    o.unary = *cx.rng.pick(&[5, 20, 40]);
    let (t, m, _) = match crate::gen::tree(&mut cx.rng, o) {
        Ok(x) => x,
        Err(x) => return skip(cx, x),
    };
    cx.desc = format!("clones of {}", canon(&m, ALL));
    let mut ts: Vec<(Tree, M)> = vec![(t, m)];
    let mut log = BTreeSet::new();
    for _ in 0..cx.rng.range(3, 12) {
        let i = cx.rng.below(ts.len());
        if ts.len() < 5 && cx.rng.chance(1, 2) {
            let c = calm("clone", || ts[i].0.clone())?;
            let m = snapshot(&c)?;
            if let Some(d) = diff(&ts[i].1, &m) {
                return Err(format!("a clone differs: {}", d));
            }
            good(&c).map_err(|x| format!("clone: {}", x))?;
            if calm("eq", || c == ts[i].0)? != true {
                return Err("a clone isn't equal to its origin".into());
            }
            ts.push((c, m));
            cx.count("clones");
        } else {
            let k = cx.rng.below(4);
            let seed = cx.rng.next();
            let t = &mut ts[i].0;
            let r = match k {
                0 => guard(|| {
                    let mut s = String::new();
                    let mut r = Rng::new(seed);
                    let hit = r.next();
                    let _ = t.filter_nonterminals(|t, n| mix(hit, hash(t[n].label())) % 2 == 0);
                    t.project_ids("i", |_, _| true);
                    s.push('x');
                }),
                1 => guard(|| {
                    t.projectivize();
                    let _ = t.collapse_unary_chains("_");
                }),
                2 => {
                    let l = snapshot(t)?.nodes.keys().cloned().collect::<Vec<_>>();
                    let x = *cx.rng.pick(&l);
                    guard(|| {
                        t[ix(x)].set_label("CHANGED");
                        t[ix(x)].features_mut().insert("new", Some("v"));
                    })
                }
                _ => edit_some(t, &mut cx.rng),
            };
            if r.is_err() {
                return skip(cx, "edits failed".into());
            }
            ts[i].1 = snapshot(&ts[i].0)?;
            log.insert(k);
            cx.count("edits of one copy");
            for (j, (t, m)) in ts.iter().enumerate() {
                if j != i {
                    if let Some(d) = diff(m, &snapshot(t)?) {
                        return Err(format!("editing copy {} changed copy {}: {}", i, j, d));
                    }
                    if let Err(x) = spans_ok(t, m) {
                        return Err(format!("editing copy {} changed copy {}: {}", i, j, x));
                    }
                    cx.count("other copies compared");
                }
            }
        }
    }
    cx.nontrivial = ts.len() > 1 && !log.is_empty();
    Ok(())
}

pub static CHECKS: &[&Check] = &[&Check {
    id: "C28",
    rule: "a case counts if the results of a pipeline on a sentence alone were compared with those of repetitions, streams in one piece and in pieces, other orders, threads and processes, or copies of a tree were compared while another one was edited; distinct by input",
    quick: 12_000,
    thorough: 500_000,
    threads: 6,
    min_judged: 60,
    run: c28,
    assumptions: &["the order in which projectivization reports moves is left open"],
}];
