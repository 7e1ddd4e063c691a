//! C29: link relations, image alignment and raw blocks change only what they name.
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};
use rustextile::Textile;

type Attrs = Vec<(String, String)>;

/// The tokens without the relation of links, and the relations found.
fn split_rel(out: &str) -> (Vec<(String, Attrs)>, Vec<(String, Option<String>)>) {
    let mut toks = vec![];
    let mut rels = vec![];
    for t in tokenize(out) {
        match t {
            Tok::Open { name, attrs, .. } => {
                let mut at: Attrs = attrs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                if name == "a" {
                    let href = at.iter().find(|x| x.0 == "href").map_or(String::new(), |x| x.1.clone());
                    rels.push((href, at.iter().find(|x| x.0 == "rel").map(|x| x.1.clone())));
                    at.retain(|x| x.0 != "rel");
                }
                toks.push((format!("<{name}"), at));
            }
            t => toks.push((format!("{t:?}"), vec![])),
        }
    }
    (toks, rels)
}

fn rel_value(ctx: &mut Ctx, label: &str, doc: &str, plain: &str, out: &str, rel: &str) {
    ctx.validated += 1;
    let (a, _) = split_rel(plain);
    let (b, rels) = split_rel(out);
    // markup of a link within an attribute is text of that attribute
    if a.iter().any(|(_, at)| at.iter().any(|x| x.1.contains("<a ") || x.1.contains("%3Ca%20") || x.1.contains("&lt;a "))) { return; }
    if a != b { ctx.fail_l(label, doc, format!("output {out:?}, without a relation {plain:?}")); return; }
    for (href, r) in rels {
        // the converter's own anchors stay in the document
        if href.starts_with("#U-") || href.starts_with("#fn") || href.starts_with("#note") || href.is_empty() { continue; }
        if r.as_deref() != Some(rel) { ctx.fail_l(label, doc, format!("the link to {href:?} has the relation {r:?}, {rel:?} is required; output {out:?}")); return; }
    }
}

fn rel(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    if !c.restricted && doc.contains('<') { return; }
    let (Some(p), Some(o)) = (ctx.must(c, doc), ctx.must(&Cfg { rel: true, ..c.clone() }, doc)) else { return };
    if p.contains("<a ") { ctx.mark_nontrivial(doc); }
    rel_value(ctx, &format!("{}e", c.label()), doc, &p, &o, "nofollow");
}

/// Images without their alignment, and the alignments by attribute and by class.
fn split_align(out: &str) -> (Vec<(String, Attrs)>, Vec<(Option<String>, Option<String>)>) {
    let (mut toks, _) = split_rel(out);
    let mut al = vec![];
    for (n, at) in toks.iter_mut() {
        if n != "<img" { continue; }
        let by_attr = at.iter().find(|x| x.0 == "align").map(|x| x.1.clone());
        let mut by_class = None;
        for x in at.iter_mut().filter(|x| x.0 == "class") {
            let mut v: Vec<&str> = x.1.split(' ').collect();
            if let Some(l) = v.last().copied().filter(|l| l.starts_with("align-")) {
                by_class = Some(l[6..].to_string());
                v.pop();
            }
            x.1 = v.join(" ");
        }
        at.retain(|x| x.0 != "align" && !(x.0 == "class" && x.1.is_empty()));
        al.push((by_attr, by_class));
    }
    (toks, al)
}

fn align(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    if doc.contains("align") || doc.contains("<im") { return; }
    let (Some(d), Some(k), Some(a)) = (ctx.must(c, doc), ctx.must(&Cfg { align: 1, ..c.clone() }, doc), ctx.must(&Cfg { align: 2, ..c.clone() }, doc)) else { return };
    ctx.validated += 1;
    if &d != (if c.xhtml { &a } else { &k }) { ctx.fail(c, doc, format!("output {d:?} is neither by class nor by attribute as the kind of HTML requires")); return; }
    let ((x, l), (y, m)) = (split_align(&k), split_align(&a));
    if l.iter().any(|v| v.1.is_some()) { ctx.mark_nontrivial(doc); }
    if x.iter().any(|(_, at)| at.iter().any(|v| v.1.contains("<img") || v.1.contains("%3Cimg") || v.1.contains("&lt;img"))) { return; }
    if x != y { ctx.fail(c, doc, format!("by class {k:?}, by attribute {a:?}")); return; }
    if l.iter().any(|v| v.0.is_some()) || m.iter().any(|v| v.1.is_some()) || l.iter().zip(&m).any(|(v, w)| v.1 != w.0) {
        ctx.fail(c, doc, format!("alignment by class {k:?}, by attribute {a:?}"));
    }
}

/// Without a block that begins with a tag, raw blocks change nothing.
fn raw(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    if !c.restricted && doc.split('\n').any(|l| l.trim_start().starts_with('<')) { return; }
    let (Some(p), Some(o)) = (ctx.must(c, doc), ctx.must(&Cfg { raw: true, ..c.clone() }, doc)) else { return };
    ctx.validated += 1;
    if doc.contains('<') { ctx.mark_nontrivial(doc); }
    if p != o { ctx.fail(&Cfg { raw: true, ..c.clone() }, doc, format!("output {o:?}, without raw blocks {p:?}")); }
}

const RELS: &[&str] = &[
    "nofollow", "noopener noreferrer", "", " ", "a\"b", "a'b", "a<b>", "a&b", "&amp;", "$1", "$0", "\\1", "*x*", "_x_", "@x@", "==x==", "\"t\":/u", "!i.png!", "it's", "a--b", "(c)", "ABC", "ABC(t)", "1 x 2", "|x|", "[1]", "[#n]",
    "é", "x/>", "\" onclick=\"x", "%x%",
];
const LINKS: &[&str] = &[
    "\"t\":/u", "\"t\":http://h.com/", "\"(c#i)t(x)\":/u", "[\"t\":/u]", "\"$\":http://h.com/", "\"t\":al\n\n[al]http://h.com/", "!i.png!:/u", "!>i.png(x)!:http://h.com/", "\"!i.png!\":/u", "*\"t\":/u*", "\"*t*\":/u", "* \"t\":/u\n* \"v\":/w", "|\"t\":/u|!i.png!:/v|",
    "\"a\":/b \"c\":/d \"e\":/f", "a[1] \"t\":/u\n\nfn1. \"t\":/u", "a[#n]\n\nnote#n. \"t\":/u\n\nnotelist.", "note#n:http://h.com/. x\n\na[#n]\n\nnotelist.", "bq.:/u x", "- \"t\":/u := \"t\":/v", "h1. \"t\":mailto:a@b.c", "bq.. \"t\":/u\n\n\"v\":/w", "\"a (b) c\":/d(e)", "\"t\":#x", "p. @\"t\":/u@ ==\"t\":/u== \"t\":/u",
];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    {
        let p = Prod(vec![RELS.len(), LINKS.len(), 4]);
        f.push(Family::new("relations", format!("{} relations x {} documents x 4 configs, with a new parser", RELS.len(), LINKS.len()), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let c = [D, R, Cfg { xhtml: true, ..D }, Cfg { lite: true, ..D }][v[2]].clone();
            let (rel, doc) = (RELS[v[0]], LINKS[v[1]]);
            let label = format!("{} rel {rel:?}", c.label());
            let Some(p) = ctx.must(&c, doc) else { return };
            let t: Textile = c.build().set_rel(Some(rel));
            let Ok(o) = ctx.parse_with(&t, &label, doc) else { ctx.fail_l(&label, doc, "no output: the parser panicked"); return };
            if p.contains("<a ") { ctx.mark_nontrivial(doc); }
            rel_value(ctx, &label, doc, &p, &o, rel);
            // and without one again
            if let Ok(n) = ctx.parse_with(&t.set_rel(None::<&str>), &label, doc) {
                if n != p { ctx.fail_l(&label, doc, format!("after the relation was unset: {n:?}, never set: {p:?}")); }
            }
        }));
    }
    let dr = vec![D, R];
    let four = vec![D, R, Cfg { xhtml: true, ..D }];
    let n = if q { 2 } else { 3 };
    f.push(seq_family("relation: tokens", WIDE, 1, n, "", "", dr.clone(), rel));
    f.push(ctx_family("relation: tokens in every construct", WIDE, 1, if q { 1 } else { 2 }, dr.clone(), rel));
    f.push(tuple_family("relation: pairs of constructs", 2, JOIN, dr.clone(), rel));
    f.push(nest_family("relation: nested constructs", 2, &["w", "\"w\":/w", "!w.png!:/v"], dr.clone(), rel));
    f.push(seq_family("relation: quotes, addresses and images", &["\"", "a", "(", ")", "!", "i.png", ":", "/u", "[", "]", " ", "*"], 1, if q { 5 } else { 6 }, "", "", vec![D], rel));
    f.push(seq_family("alignment: images", &["!", "<", ">", "=", "(k)", "{color:red}", "i.png", "(t)", ":/u", " ", "a", "\"", "\n"], 1, if q { 5 } else { 6 }, "", "", vec![D, Cfg { xhtml: true, ..D }], align));
    f.push(ctx_family("alignment: tokens in every construct", WIDE, 1, 1, four.clone(), align));
    f.push(ctx_family("alignment: images in every construct", &["!>i.png!", "!<(k)i.png!:/u", "!=i.png(t)!", "!i.png!", " ", "a"], 1, 2, four.clone(), align));
    f.push(tuple_family("alignment: pairs of constructs", 2, JOIN, four, align));
    f.push(seq_family("raw blocks: tokens", WIDE, 1, n, "", "", dr.clone(), raw));
    f.push(ctx_family("raw blocks: tokens in every construct", WIDE, 1, 1, dr.clone(), raw));
    f.push(tuple_family("raw blocks: pairs of constructs", 2, JOIN, dr.clone(), raw));
    f.push(nest_family("raw blocks: nested constructs", 2, &["w", "<foo>w</foo>"], dr, raw));
    Property { id: "C29", level: "model_checking", rule: "the document has a link, an aligned image or a tag", assumptions: vec![], families: f }
}
