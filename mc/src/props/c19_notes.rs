//! C19: notes are numbered, listed and linked consistently.
use super::c18_footnotes::{Model, Piece, Piece::*};
use super::c16_lists::norm;
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

const NA: (&str, &str) = ("", "");
/// One block of a history.
#[derive(Clone, Copy)]
enum B {
    Para(&'static [Piece]),
    /// label, link mark, attributes (source, html, restricted), text
    Def(&'static str, &'static str, (&'static str, &'static str, &'static str), &'static [Piece]),
    /// attributes, symbol (source, char), links, unreferenced
    List((&'static str, &'static str, &'static str), (&'static str, char), &'static str, bool),
    Fn(&'static str, &'static [Piece]),
}
const N3: (&str, &str, &str) = ("", "", "");
fn run(v: &[B], c: &Cfg, ctx: &mut Ctx) {
    let mut m = Model::default();
    let mut doc = vec![];
    let mut parts: Vec<Result<String, B>> = vec![];
    for b in v {
        match b {
            B::Para(p) => { doc.push(Model::source(p)); parts.push(Ok(format!("<p>{}</p>", m.text(p)))); }
            B::Def(l, k, a, p) => { doc.push(format!("note#{l}{k}{}. {}", a.0, Model::source(p))); m.define(l, k, if c.restricted { a.2 } else { a.1 }, p); }
            B::List(a, s, k, u) => { doc.push(format!("notelist{}{}{k}{}.", a.0, s.0, if *u { "+" } else { "" })); parts.push(Err(*b)); }
            B::Fn(n, p) => { doc.push(format!("fn{n}^. {}", Model::source(p))); parts.push(Ok(m.footnote(n, true, "", "", "", p))); }
        }
    }
    let want: String = parts.into_iter().map(|x| match x { Ok(s) => s, Err(B::List(a, s, k, u)) => m.list(if c.restricted { a.2 } else { a.1 }, s.1, k, u), _ => unreachable!() }).collect();
    let want = if c.xhtml { want.replace("<br>", "<br />") } else { want };
    let doc = doc.join("\n\n");
    ctx.mark_nontrivial(&doc);
    if let Some(got) = ctx.must(c, &doc) {
        ctx.validated += 1;
        if norm(&got) != norm(&want) { ctx.fail(c, &doc, format!("output {got:?}, the model requires the structure of {want:?}")); }
    }
}

const L: (&str, char) = ("", 'a');
const CORE: &[B] = &[
    B::Para(&[T("x", "x"), N("a", NA, true)]), B::Para(&[T("x", "x"), N("b", NA, true)]), B::Para(&[T("x", "x"), N("c", NA, false), T(" y", " y"), N("a", NA, true), T(" z", " z"), N("c", NA, true)]),
    B::Def("a", "", N3, &[T("A", "A")]), B::Def("b", "", N3, &[T("B *s*", "B <strong>s</strong>")]), B::Def("c", "", N3, &[T("C", "C")]), B::Def("a", "!", ("(k)", " class=\"k\"", ""), &[T("again", "again")]),
    B::List(N3, L, "", false), B::List(N3, L, "", true), B::List(N3, L, "^", false),
];
const MORE: &[B] = &[
    B::Para(&[T("x", "x"), N("a", NA, true), N("b", ("(k)", " class=\"k\""), true)]), B::Para(&[T("x", "x"), F("1", true), T(" y", " y"), N("b", NA, true), F("2", true)]), B::Para(&[N("a", NA, true), T(" x ", " x "), N("d e", NA, true)]),
    B::Def("a", "^", N3, &[T("A", "A")]), B::Def("a", "!", ("(k)", " class=\"k\"", ""), &[T("A", "A")]), B::Def("b", "*", ("(#i)[fr]{color:red}", " id=\"i\" lang=\"fr\" style=\"color:red;\"", " lang=\"fr\""), &[T("\"l\":/u", "<a href=\"/u\">l</a>")]), B::Def("b", "", N3, &[T("B", "B"), F("1", true), T(" C", " C"), N("a", NA, true)]), B::Def("é", "", N3, &[T("@c@", "<code>c</code>")]),
    B::List(("(k)", " class=\"k\"", ""), L, "", false), B::List(N3, (":1", '1'), "", true), B::List(("[fr]", " lang=\"fr\"", " lang=\"fr\""), (":§", '§'), "^", true), B::List(N3, L, "!", false), B::Fn("1", &[T("F", "F"), N("b", NA, true)]),
];

/// As many labels as needed.
fn label(k: usize) -> &'static str {
    static L: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    &L.get_or_init(|| (0..1100).map(|k| format!("n{k}")).collect())[k]
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let s = Seqs::new(CORE.len(), 1, if q { 4 } else { 6 });
    f.push(Family::new("histories", format!("all sequences of 1..={} of {} blocks (references, definitions, repeated definitions, lists)", s.hi, CORE.len()), s.size(), move |i, ctx| {
        let v: Vec<B> = s.decode(i).iter().map(|x| CORE[*x]).collect();
        run(&v, &D, ctx);
    }));
    // the same with a list at the end
    let s = Seqs::new(7, if q { 4 } else { 5 }, if q { 5 } else { 6 });
    f.push(Family::new("histories before a list", format!("all sequences of {}..={} references and definitions over three labels, then both kinds of list", s.lo, s.hi), s.size(), move |i, ctx| {
        let mut v: Vec<B> = s.decode(i).iter().map(|x| CORE[*x]).collect();
        v.push(CORE[7]);
        v.push(CORE[8]);
        run(&v, &D, ctx);
    }));
    let s = Seqs::new(MORE.len(), 1, if q { 3 } else { 4 });
    f.push(Family::new("all forms", format!("all sequences of 1..={} of {} blocks with every form of reference, definition and list, with footnotes between, 3 configs", s.hi, MORE.len()), s.size() * 3, move |i, ctx| {
        let c = [D, R, Cfg::of("x")][(i % 3) as usize].clone();
        let v: Vec<B> = s.decode(i / 3).iter().map(|x| MORE[*x]).collect();
        // attributes of references are left out in restricted mode
        if c.restricted && v.iter().any(|b| matches!(b, B::Para(p) if p.iter().any(|x| matches!(x, N(_, a, _) if !a.0.is_empty())))) { return; }
        run(&v, &c, ctx);
    }));
    let all: Vec<B> = CORE.iter().chain(MORE.iter()).copied().collect();
    let k = all.len();
    let s = Seqs::new(k, 2, if q { 3 } else { 4 });
    f.push(Family::new("forms with histories", format!("all sequences of 2..={} of all {k} blocks", s.hi), s.size(), move |i, ctx| {
        let v: Vec<B> = s.decode(i).iter().map(|x| all[*x]).collect();
        run(&v, &D, ctx);
    }));
    // many references: numbers and back links go on
    let p = Prod(vec![28, 4, 4, 2]);
    f.push(Family::new("many references and notes", "0..=27 references to one note or to as many notes x 4 kinds of list x 4 definition marks", p.size(), move |i, ctx| {
        let v = p.decode(i);
        const LAB: &[&str] = &["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18", "n19", "n20", "n21", "n22", "n23", "n24", "n25", "n26"];
        let mark = ["", "^", "!", "*"][v[2]];
        let mut m = Model::default();
        let mut ps = vec![T("x", "x")];
        // in descending order, so that the order of labels is not that of use
        for k in 0..v[0] { ps.push(N(if v[3] == 0 { "a" } else { LAB[26 - k] }, NA, true)); ps.push(T(" y", " y")); }
        let mut doc = Model::source(&ps);
        let mut want = format!("<p>{}</p>", m.text(&ps));
        for l in if v[3] == 0 { &["a"][..] } else { &LAB[..] } { doc += &format!("\n\nnote#{l}{mark}. t {l}"); m.define(l, mark, "", &[T("t ", "t ")]); }
        let (ls, sym, k, u) = [("notelist.", 'a', "", false), ("notelist:A+.", 'A', "", true), ("notelist:∗^.", '∗', "^", false), ("notelist:†.", '†', "", false)][v[1]];
        doc += &format!("\n\n{ls}");
        // the texts name their labels
        for (l, n) in m.notes.iter_mut() { if let Some(d) = &mut n.def { d.2 = format!("t {l}"); } }
        want += &m.list("", sym, k, u);
        ctx.mark_nontrivial(&doc);
        if let Some(got) = ctx.must(&D, &doc) {
            ctx.validated += 1;
            if norm(&got) != norm(&want) { ctx.fail(&D, &doc, format!("output {got:?}, the model requires the structure of {want:?}")); }
        }
    }));
    // every mark a list can start with
    const SYMS: &str = "abcdefghijklmnopqrstuvwxABCDEFGHIJKLMNOPQRSTUVWX01234567éαж¤§µ¶†‡•∗∴◊♠♣♥♦";
    let syms: Vec<char> = SYMS.chars().collect();
    let p = Prod(vec![syms.len(), 4, 3, 2, 2]);
    f.push(Family::new("every mark of a list", format!("{} marks x 0..=3 references x 3 kinds of list, with and without unused notes and attributes", syms.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let mut m = Model::default();
        let mut ps = vec![T("x", "x")];
        for _ in 0..v[1] { ps.push(N("a", NA, true)); ps.push(T(" y", " y")); }
        let mut doc = Model::source(&ps);
        let mut want = format!("<p>{}</p>", m.text(&ps));
        for l in ["a", "b"] { doc += &format!("\n\nnote#{l}. t"); m.define(l, "", "", &[T("t", "t")]); }
        let k = ["", "^", "!"][v[2]];
        let (a, ha) = [("", ""), ("(k#i)", " class=\"k\" id=\"i\"")][v[4]];
        doc += &format!("\n\nnotelist{a}:{}{k}{}.", syms[v[0]], if v[3] == 1 { "+" } else { "" });
        want += &m.list(ha, syms[v[0]], k, v[3] == 1);
        ctx.mark_nontrivial(&doc);
        super::c18_footnotes::expect(ctx, &D, &doc, &want);
    }));
    // and beyond the alphabet
    let ns = counts(q);
    let p = Prod(vec![ns.len(), 2, 2, 3]);
    f.push(Family::new("very many references and notes", format!("{:?} references to one note or to as many notes, defined before or after, x 3 kinds of list", ns), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let n = ns[v[0]];
        let mut m = Model::default();
        let (mut doc, mut want) = (String::new(), String::new());
        let labels: Vec<&'static str> = if v[1] == 0 { vec!["a"] } else { (0..n).map(label).collect() };
        let defs = |doc: &mut String, m: &mut Model| for l in &labels { *doc += &format!("note#{l}. t {l}\n\n"); m.define(l, "", "", &[T("t ", "t ")]); };
        if v[2] == 0 { defs(&mut doc, &mut m); }
        for k in (0..n).rev() {
            let ps = [T("x", "x"), N(if v[1] == 0 { "a" } else { label(k) }, NA, true)];
            doc += &format!("{}\n\n", Model::source(&ps));
            want += &format!("<p>{}</p>", m.text(&ps));
        }
        if v[2] == 1 { defs(&mut doc, &mut m); }
        let (ls, sym, k) = [("notelist^.", 'a', "^"), ("notelist:†.", '†', ""), ("notelist!.", 'a', "!")][v[3]];
        doc += ls;
        for (l, n) in m.notes.iter_mut() { if let Some(d) = &mut n.def { d.2 = format!("t {l}"); } }
        want += &m.list("", sym, k, false);
        super::c18_footnotes::expect(ctx, &D, &doc, &want);
    }));
    // where references stand
    let p = Prod(vec![HOSTS.len(), HOSTS.len(), 3, 3]);
    f.push(Family::new("places of references", format!("{0}^2 elements with references x 3 orders of definition, 3 configs", HOSTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = [D, R, Cfg::of("x")][v[3]].clone();
        let ok = |h: (&str, &str)| !(h.0.contains("fn1") || h.0.contains("[#") || h.0.contains("bq..") || (c.restricted && h.0.starts_with("(k)")));
        if !ok(HOSTS[v[0]]) || !ok(HOSTS[v[1]]) { return; }
        let mut m = Model::default();
        let (mut doc, mut want) = (vec![], String::new());
        let def = |k: usize, doc: &mut Vec<String>, m: &mut Model| { let l = ["a", "b"][k]; doc.push(format!("note#{l}. t*s*")); m.define(l, "", "", &[T("t*s*", "t*s*")]); };
        if v[2] == 0 { def(0, &mut doc, &mut m); def(1, &mut doc, &mut m); }
        for k in 0..2 {
            let ps: &[Piece] = [&[T("x", "x"), N("b", NA, true), T(" y", " y")][..], &[T("x ", "x "), N("a", NA, true), N("b", NA, true)][..]][k];
            let (d, h) = fill(HOSTS[v[k]], &Model::source(ps), &m.text(ps));
            doc.push(d);
            want += &h;
            if v[2] == 1 { def(k, &mut doc, &mut m); }
        }
        if v[2] == 2 { def(1, &mut doc, &mut m); def(0, &mut doc, &mut m); }
        doc.push("notelist.".into());
        want += &m.list("", 'a', "", false);
        if c.xhtml { want = want.replace("<br>", "<br />"); }
        let doc = doc.join("\n\n");
        ctx.mark_nontrivial(&doc);
        if let Some(got) = ctx.must(&c, &doc) {
            ctx.validated += 1;
            if norm(&got) != norm(&want) { ctx.fail(&c, &doc, format!("output {got:?}, the model requires the structure of {want:?}")); }
        }
    }));
    Property { id: "C19", level: "model_checking", rule: "the document holds notes", assumptions: vec!["a definition is one line", "only the first reference to a note carries its link", "blanks between tags do not matter"], families: f }
}
