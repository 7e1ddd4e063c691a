//! C18: footnote references and footnotes point at each other.
use super::c16_lists::norm;
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};
use std::collections::{BTreeMap, HashMap, HashSet};

/// A piece of running text.
#[derive(Clone, Copy)]
pub enum Piece {
    T(&'static str, &'static str),
    /// footnote reference: number, linked
    F(&'static str, bool),
    /// note reference: label, attributes (source, html), linked
    N(&'static str, (&'static str, &'static str), bool),
}
#[derive(Clone, Default)]
pub struct Note { pub id: String, pub seq: Option<u32>, pub refs: Vec<String>, pub def: Option<(&'static str, String, String)> }
/// What the converter has to remember from block to block.
#[derive(Default)]
pub struct Model { idx: u32, fns: HashMap<String, String>, anchored: HashSet<String>, pub notes: BTreeMap<&'static str, Note>, seq: u32 }
impl Model {
    fn next(&mut self) -> String { self.idx += 1; format!("U-{}", self.idx) }
    pub fn source(p: &[Piece]) -> String {
        p.iter().map(|x| match x {
            Piece::T(s, _) => s.to_string(),
            Piece::F(n, l) => format!("[{n}{}]", if *l { "" } else { "!" }),
            Piece::N(n, a, l) => format!("[{}#{n}{}]", a.0, if *l { "" } else { "!" }),
        }).collect()
    }
    /// The text of one block.
    pub fn text(&mut self, p: &[Piece]) -> String {
        let mut out: Vec<String> = vec![String::new(); p.len()];
        for (k, x) in p.iter().enumerate() {
            match x {
                Piece::T(_, h) => out[k] = h.to_string(),
                Piece::F(n, l) => {
                    let mut id = String::new();
                    if !self.fns.contains_key(*n) { let i = self.next(); id = format!(" id=\"fnrev{i}\""); self.fns.insert(n.to_string(), i); }
                    let i = &self.fns[*n];
                    out[k] = format!("<sup class=\"footnote\"{id}>{}</sup>", if *l { format!("<a href=\"#fn{i}\">{n}</a>") } else { n.to_string() });
                }
                _ => {}
            }
        }
        for (k, x) in p.iter().enumerate() {
            if let Piece::N(n, a, l) = x {
                let r = self.next();
                let has_id = self.notes.get(n).map(|x| !x.id.is_empty()).unwrap_or(false);
                let fresh = if has_id { String::new() } else { self.next() };
                let seq = &mut self.seq;
                let note = self.notes.entry(n).or_default();
                if note.seq.is_none() { *seq += 1; note.seq = Some(*seq); }
                if !has_id { note.id = fresh; }
                let href = if note.refs.is_empty() { note.id.clone() } else { String::new() };
                note.refs.push(r.clone());
                let s = format!("<span id=\"noteref{r}\">{}</span>", note.seq.unwrap());
                out[k] = format!("<sup{}>{}</sup>", a.1, if *l { format!("<a href=\"#note{href}\">{s}</a>") } else { s });
            }
        }
        out.concat()
    }
    /// A footnote with its attributes: class, id (both may be empty), rest.
    pub fn footnote(&mut self, n: &str, back: bool, class: &str, id: &str, rest: &str, p: &[Piece]) -> String {
        let i = match self.fns.get(n) { Some(i) => i.clone(), None => self.next() };
        let class = if class.is_empty() { "footnote" } else { class };
        let first = self.anchored.insert(i.clone());
        let own = if !first { if id.is_empty() { String::new() } else { format!(" id=\"{id}\"") } } else if id.is_empty() { format!(" id=\"fn{i}\"") } else { format!(" id=\"{id}\"") };
        let sup = if first && !id.is_empty() { format!(" id=\"fn{i}\"") } else { String::new() };
        let num = if back { format!("<a href=\"#fnrev{i}\">{n}</a>") } else { n.to_string() };
        let t = self.text(p);
        format!("<p class=\"{class}\"{own}{rest}><sup{sup}>{num}</sup> {t}</p>")
    }
    /// A note definition.
    pub fn define(&mut self, label: &'static str, link: &'static str, atts: &str, p: &[Piece]) {
        if !self.notes.contains_key(label) {
            let id = self.next();
            self.notes.insert(label, Note { id, ..Default::default() });
        }
        let t = self.text(p);
        let n = self.notes.get_mut(label).unwrap();
        if n.def.is_none() { n.def = Some((link, atts.to_string(), t)); }
    }
    /// A note list, rendered from the final state.
    pub fn list(&self, atts: &str, sym: char, links: &str, unref: bool) -> String {
        let mut items: Vec<(u32, String)> = vec![];
        let mut rest = String::new();
        for (label, n) in &self.notes {
            let Some(seq) = n.seq else {
                if unref { if let Some(d) = &n.def { rest += &format!("<li{}>{}</li>", d.1, d.2); } }
                continue;
            };
            let kind = match &n.def { Some((l, _, _)) if !l.is_empty() => *l, _ => links };
            let shown = match kind { "!" => 0, "^" => 1, _ => n.refs.len() };
            let fixed = "¤§µ¶†‡•∗∴◊♠♣♥♦".contains(sym);
            let back: Vec<String> = n.refs.iter().take(shown).enumerate().map(|(k, r)| format!("<sup><a href=\"#noteref{r}\">{}</a></sup>", if fixed { sym } else { char::from_u32(sym as u32 + k as u32).unwrap() })).collect();
            let back = back.join(" ");
            items.push((seq, match &n.def {
                Some((_, a, t)) => format!("<li{a}>{back}<span id=\"note{}\"> </span>{t}</li>", n.id),
                None => format!("<li>{back} Undefined Note [#{label}].</li>"),
            }));
        }
        items.sort();
        let l: String = items.into_iter().map(|x| x.1).collect::<String>() + &rest;
        if l.is_empty() { l } else { format!("<ol{atts}>{l}</ol>") }
    }
}
pub fn expect(ctx: &mut Ctx, c: &Cfg, doc: &str, want: &str) {
    ctx.mark_nontrivial(doc);
    if let Some(got) = ctx.must(c, doc) {
        ctx.validated += 1;
        if norm(&got) != norm(want) { ctx.fail(c, doc, format!("output {got:?}, the model requires the structure of {want:?}")); }
        if let Some(m) = anchors(&got) { ctx.fail(c, doc, format!("{m}; output {got:?}")); }
    }
}
/// The link graph: generated ids are unique.
pub fn anchors(html: &str) -> Option<String> {
    let mut seen = HashSet::new();
    for t in tokenize(html) {
        if let Tok::Open { attrs, .. } = t {
            for (k, v) in attrs {
                if k == "id" && (v.starts_with("fn") || v.starts_with("note")) && !seen.insert(v.clone()) { return Some(format!("the id {v:?} occurs twice")); }
            }
        }
    }
    None
}

use Piece::*;
const NUMS: &[&str] = &["1", "2", "10", "٣"];
/// Footnote forms: (source between number and blank, back link, class, id, rest, restricted rest)
const FORM: &[(&str, bool, &str, &str, &str, &str)] = &[
    (".", false, "", "", "", ""), ("^.", true, "", "", "", ""), ("(k).", false, "k", "", "", ""), ("(#c).", false, "", "c", "", ""), ("^(k#c).", true, "k", "c", "", ""), ("{color:red}.", false, "", "", " style=\"color:red;\"", ""), ("^[fr].", true, "", "", " lang=\"fr\"", " lang=\"fr\""), ("=.", false, "", "", " style=\"text-align:center;\"", " style=\"text-align:center;\""),
    ("(k l)[fr]{color:red}.", false, "k l", "", " lang=\"fr\" style=\"color:red;\"", " lang=\"fr\""), ("^=(k).", true, "k", "", " style=\"text-align:center;\"", " style=\"text-align:center;\""), ("(a^b).", false, "", "", "", ""), ("{a:^}.", false, "", "", " style=\"a:^;\"", ""), ("(k)^.", true, "k", "", "", ""),
];

/// As many numbers as needed.
fn number(k: usize) -> &'static str {
    static L: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    &L.get_or_init(|| (0..20010).map(|k| k.to_string()).collect())[k]
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    // histories of references and footnotes
    const PARA: &[&[Piece]] = &[
        &[T("x", "x"), F("1", true)], &[T("x", "x"), F("2", true)], &[T("x", "x"), F("10", true)], &[T("x", "x"), F("1", false)], &[T("x", "x"), F("2", true), T(" y", " y"), F("1", true)], &[T("x", "x"), F("1", true), F("2", false), T(" y", " y"), F("1", true)],
    ];
    const DEFS: &[(&str, usize)] = &[("1", 0), ("1", 1), ("2", 1), ("2", 4), ("10", 0), ("10", 3)];
    let n = PARA.len() + DEFS.len() + 1;
    let s = Seqs::new(n, 1, if q { 4 } else { 6 });
    f.push(Family::new("histories", format!("all sequences of 1..={} blocks over {} paragraphs with references, {} footnotes and a plain paragraph", s.hi, PARA.len(), DEFS.len()), s.size(), move |i, ctx| {
        let mut m = Model::default();
        let (mut doc, mut want) = (vec![], String::new());
        for x in s.decode(i) {
            if x < PARA.len() { doc.push(Model::source(PARA[x])); want += &format!("<p>{}</p>", m.text(PARA[x])); }
            else if x < n - 1 {
                let (num, k) = DEFS[x - PARA.len()];
                let fo = FORM[k];
                let p = [T("t *s*", "t <strong>s</strong>")];
                doc.push(format!("fn{num}{} {}", fo.0, Model::source(&p)));
                want += &m.footnote(num, fo.1, fo.2, fo.3, fo.4, &p);
            } else { doc.push("z".into()); want += "<p>z</p>"; }
        }
        expect(ctx, &D, &doc.join("\n\n"), &want);
    }));
    // forms of references and footnotes
    const AROUND: &[(&str, &str, &str, &str)] = &[("x", "x", "", ""), ("x", "x", " y", " y"), ("x.", "x.", "", ""), ("x", "x", ".", "."), ("*s*", "<strong>s</strong>", ", y", ", y"), ("é", "é", "\ny", "<br>\ny"), ("(x)", "(x)", ")", ")"), ("x\ny", "x<br>\ny", "z", "z"), ("\"q\"", "&#8220;q&#8221;", " -- y", " &#8212; y"), ("\"l\":/u x", "<a href=\"/u\">l</a> x", "", "")];
    let p = Prod(vec![NUMS.len(), AROUND.len(), FORM.len(), 2, HOSTS.len(), 3]);
    f.push(Family::new("forms", format!("{} numbers x {} surroundings x {} footnote forms x linked or not x {} places of the reference, 3 configs", NUMS.len(), AROUND.len(), FORM.len(), HOSTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = [D, R, Cfg::of("xe")][v[5]].clone();
        let (host, a, fo) = (HOSTS[v[4]], AROUND[v[1]], FORM[v[2]]);
        // hosts that have anchors of their own, or classes
        if host.0.contains("fn1") || host.0.contains("[#") || (c.restricted && host.0.starts_with("(k)")) { return; }
        let mut m = Model::default();
        let ps = [T(a.0, a.1), F(NUMS[v[0]], v[3] == 0), T(a.2, a.3)];
        let (d, h) = fill(host, &Model::source(&ps), &m.text(&ps));
        let note = if c.restricted { m.footnote(NUMS[v[0]], fo.1, "", "", fo.5, &[T("t", "t")]) } else { m.footnote(NUMS[v[0]], fo.1, fo.2, fo.3, fo.4, &[T("t", "t")]) };
        // extended blocks would take the rest
        let d = format!("{d}\n\nfn{}{} t", NUMS[v[0]], fo.0);
        let mut want = format!("{h}{note}");
        if c.xhtml { want = want.replace("<br>", "<br />"); }
        if c.rel { want = want.replace("<a href=\"/u\"", "<a rel=\"nofollow\" href=\"/u\""); }
        expect(ctx, &c, &d, &want);
    }));
    // texts of footnotes
    const TEXT: &[&[Piece]] = &[&[T("t", "t")], &[T("*s* t", "<strong>s</strong> t")], &[T("a\nb", "a<br>\nb")], &[T("\"l\":/u", "<a href=\"/u\">l</a>")], &[T("a", "a"), F("2", true)], &[T("a", "a"), F("1", true)], &[T("@c@", "<code>c</code>")], &[T("fn2. b", "fn2. b")], &[T("a & b", "a &amp; b")], &[T("it's", "it&#8217;s")], &[T("!i.png!", "<img alt=\"\" src=\"i.png\" />")]];
    let p = Prod(vec![TEXT.len(), TEXT.len(), FORM.len(), FORM.len(), 4]);
    f.push(Family::new("texts of footnotes", format!("{0}^2 texts x {1}^2 forms of two footnotes x 4 orders of references", TEXT.len(), FORM.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let mut m = Model::default();
        let r: &[Piece] = [&[T("x", "x"), F("1", true), T(" y", " y"), F("2", true)][..], &[T("x", "x"), F("2", true), F("1", true)][..], &[T("x", "x"), F("2", true)][..], &[T("x", "x"), F("1", false), F("1", true)][..]][v[4]];
        let mut doc = Model::source(r);
        let mut want = format!("<p>{}</p>", m.text(r));
        for (k, num) in ["1", "2"].iter().enumerate() {
            let (fo, t) = (FORM[v[2 + k]], TEXT[v[k]]);
            doc += &format!("\n\nfn{num}{} {}", fo.0, Model::source(t));
            want += &m.footnote(num, fo.1, fo.2, fo.3, fo.4, t);
        }
        expect(ctx, &D, &doc, &want);
    }));
    // footnotes of several blocks
    let p = Prod(vec![FORM.len(), 3, 3, 3]);
    f.push(Family::new("extended footnotes", format!("{} forms x 1..=3 paragraphs x 3 preceding x 3 following blocks", FORM.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let fo = FORM[v[0]];
        let mut m = Model::default();
        let (mut doc, mut want) = (String::new(), String::new());
        if v[2] > 0 { let r = [T("x", "x"), F("1", v[2] == 1)]; doc = Model::source(&r) + "\n\n"; want = format!("<p>{}</p>", m.text(&r)); }
        doc += &format!("fn1{}. t", fo.0);
        want += &m.footnote("1", fo.1, fo.2, fo.3, fo.4, &[T("t", "t")]);
        for k in 0..v[1] { let t = [T("u", "u"), T("v", "v")][k]; doc += &format!("\n\n{}", Model::source(&[t])); want += &m.footnote("1", fo.1, fo.2, fo.3, fo.4, &[t]); }
        if v[3] > 0 { doc += ["", "\n\np. z", "\n\nfn2. z"][v[3]]; want += &if v[3] == 1 { "<p>z</p>".into() } else { m.footnote("2", false, "", "", "", &[T("z", "z")]) }; }
        // the ids a writer chooses are repeated with the other attributes
        expect(ctx, &D, &doc, &want);
    }));
    // many footnotes
    let ns = counts(q);
    let p = Prod(vec![ns.len(), 3, 2]);
    f.push(Family::new("many footnotes", format!("{:?} footnotes referred to once or twice, in paragraphs, one paragraph or a list, x 2 forms", ns), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let n = ns[v[0]];
        let fo = FORM[v[2]];
        let mut m = Model::default();
        let (mut doc, mut want) = (String::new(), String::new());
        let mut refs = |k: usize, m: &mut Model| -> (String, String) { let r = [T("x", "x"), F(number(k), true)]; (Model::source(&r), m.text(&r)) };
        let ks: Vec<usize> = (1..=n).chain((1..=n).filter(|k| k % 3 == 0)).collect();
        let parts: Vec<(String, String)> = ks.iter().map(|k| refs(*k, &mut m)).collect();
        let (pre, sep, post) = [("", "\n\n", "\n\n"), ("", " ", "\n\n"), ("* ", "\n* ", "\n\n")][v[1]];
        let (hp, hs, ho) = [("<p>", "</p><p>", "</p>"), ("<p>", " ", "</p>"), ("<ul><li>", "</li><li>", "</li></ul>")][v[1]];
        doc += &format!("{pre}{}{post}", parts.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(sep));
        want += &format!("{hp}{}{ho}", parts.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(hs));
        for k in (1..=n).rev() {
            doc += &format!("fn{k}{} t\n\n", fo.0);
            want += &m.footnote(number(k), fo.1, fo.2, fo.3, fo.4, &[T("t", "t")]);
        }
        expect(ctx, &D, &doc, &want);
    }));
    // more references than a counter of two bytes can number
    f.push(Family::new("very many footnotes", "66000 references to one footnote; 20000 references to as many footnotes in one paragraph", 2, move |i, ctx| {
        let n = [66000usize, 20000][i as usize];
        let mut m = Model::default();
        let rs: Vec<_> = (1..=n).flat_map(|k| [T("x", "x"), F(number(if i == 0 { 1 } else { k }), true), T(" ", " ")]).collect();
        let (d, w) = (Model::source(&rs), m.text(&rs));
        expect(ctx, &D, d.trim_end(), &format!("<p>{}</p>", w.trim_end()));
    }));
    // ids of whole documents
    f.push(tuple_family("ids in any document", if q { 2 } else { 3 }, &["\n\n", "\n"], vec![D, R], |c, d, ctx| {
        let Some(o) = ctx.must(c, d) else { return };
        ctx.validated += 1;
        if d.contains("fn") || d.contains('[') { ctx.mark_nontrivial(d); }
        if let Some(m) = anchors(&o) { if d.matches("notelist").count() < 2 { ctx.fail(c, d, format!("{m}; output {o:?}")); } }
    }));
    f.push(crate::space::long_family(&[("§[1] ¤\n\nfn1. ¤", "<p>§<sup class=\"footnote\" id=\"fnrevU-1\"><a href=\"#fnU-1\">1</a></sup> ¤</p>\n\n<p class=\"footnote\" id=\"fnU-1\"><sup>1</sup> ¤</p>")], vec![D, R]));
    Property { id: "C18", level: "model_checking", rule: "the document holds a footnote or a reference", assumptions: vec!["a note list that is repeated repeats its anchors", "blanks between tags do not matter"], families: f }
}
