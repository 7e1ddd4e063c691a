//! C08: internal placeholders neither leak nor can be forged.
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

const UIDS: &[&str] = &["Zq", "7f3e9", "a$1b", "x.*y", "(Z", "é", "[z]", "z:", "\\1"];

/// Renaming the identifier renames the anchors and nothing else; nothing internal shows.
fn renaming(c: &Cfg, uids: &[&'static str], doc: &str, ctx: &mut Ctx) {
    let base = Cfg { uid: "Qx", ..c.clone() };
    let Some(a) = ctx.must(&base, doc) else { return };
    ctx.validated += 1;
    if a.contains("Qx") { ctx.mark_nontrivial(doc); }
    if a.contains("textileRef") && !doc.contains("textileRef") {
        ctx.fail(&base, doc, format!("an internal placeholder shows in the output: {a:?}"));
        return;
    }
    for u in uids {
        let cf = Cfg { uid: u, ..c.clone() };
        let Some(b) = ctx.must(&cf, doc) else { continue };
        ctx.validated += 1;
        let want = a.replace("Qx", u);
        if b != want {
            ctx.fail(&cf, doc, format!("output {b:?} with the identifier {u:?}; with another one, renamed, {want:?}"));
        }
    }
}

/// Placeholder-like text with the parser's own identifier summons nothing: it is
/// dropped, and the document is converted as if it had never been there.
fn strip(doc: &str, uid: &str) -> String {
    let t = format!("textileRef:{uid}:");
    let mut d = doc.to_string();
    while d.contains(&t) { d = d.replace(&t, ""); }
    d
}

const FRAG: &[&str] = &[
    "textileRef:U:", "textileRef:", "U:", "1:shelve", "textileRef:U:1:shelve", "textileRef:U:1:url", "textileRef:U:1:ospan ", " textileRef:U:1:cspan", "textileRef:U::glyph:",
    "textileRef:U:1", ":shelve", ":url", "textile", "Ref:U:", "@SEC@", "*SEC*", "\"SEC\":/SEC", "<!-- SEC -->", " ", "a", "[z]http://h/", "textileRef:U:linkStartMarker:\"", "\":/x", "textileRef:U:2:shelve",
];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    fn one(c: &Cfg, d: &str, x: &mut Ctx) { renaming(c, &["a$1b"], d, x) }
    fn all(c: &Cfg, d: &str, x: &mut Ctx) { renaming(c, UIDS, d, x) }
    let cf: Vec<Cfg> = ["", "r", "x", "n", "l"].iter().map(|c| Cfg::of(c)).collect();
    f.push(tuple_family("renaming, single constructs", 1, &[""], cf.clone(), all));
    f.push(tuple_family("renaming, pairs of constructs", 2, JOIN, if q { vec![D] } else { cf.clone() }, one));
    if q { f.push(tuple_family("renaming, pairs of constructs, restricted", 2, &["\n\n", " "], vec![R], one)); }
    f.push(ctx_family("renaming, tokens in every construct", WIDE, 1, if q { 1 } else { 2 }, vec![D, R], one));
    f.push(ctx_family("renaming, constructs in every construct", CONSTRUCTS, 1, 1, vec![D], one));
    f.push(seq_family("renaming, tokens", WIDE, 1, if q { 2 } else { 3 }, "", "", vec![D, R], one));
    f.push(tuple_family("renaming, constructs, all combinations of options", 1, &[""], Cfg::with("", "rxlinweb"), one));
    f.push(ctx_family("renaming, all combinations of options", &["w", "@w@", "*w*"], 1, 1, Cfg::with("", "rxlinwe"), one));
    f.extend(deep_families(3, if q { 5 } else { 7 }, vec![D], one));
    f.push(nest_family("renaming, nested constructs", 2, &["w", "@w@", "\"w\":/w", "*w*", "==w==", "!w.png!"], cf.clone(), one));
    f.push(nest_family("renaming, deeply nested constructs", 3, if q { &["w"] } else { &["w", "@w@", "\"w\":/w", "*w*"] }, if q { vec![D] } else { vec![D, R] }, one));
    // forged placeholders
    let s = Seqs::new(FRAG.len(), 1, if q { 3 } else { 4 });
    f.push(Family::new("forged placeholders", format!("all sequences of 1..={} of {} fragments of placeholders and constructs, 3 configs", s.hi, FRAG.len()), s.size(), move |i, ctx| {
        let doc: String = s.decode(i).iter().map(|x| FRAG[*x]).collect();
        forged(&[D, R, Cfg::of("n")], &doc, ctx);
    }));
    const F2: &[&str] = &["textileRef:U:1:shelve", "textileRef:U:2:shelve", "textileRef:U:1:url", "textileRef:U:1:ospan x textileRef:U:1:cspan", "textitextileRef:U:leRef:U:1:shelve", "textileRef:V:1:shelve", "textileRef:U::glyph:", "1:shelve"];
    let p = Prod(vec![CTX.len(), F2.len(), 3]);
    f.push(Family::new("forged placeholders in every construct", format!("{} contexts x {} forged placeholders x 3 secret constructs, 2 configs", CTX.len(), F2.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let doc = format!("{}\n\n{}", CTX[v[0]].replace('§', F2[v[1]]), ["@SEC@ x", "\"SEC\":/SEC", "*SEC* ==SEC=="][v[2]]);
        forged(&[D, R], &doc, ctx);
    }));
    // with a foreign identifier it is plain text
    let p = Prod(vec![HOSTS.len(), 6]);
    f.push(Family::new("foreign placeholders are text", format!("{} elements x 6 placeholders with another identifier, exact output", HOSTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let t = ["textileRef:V:1:shelve", "textileRef:V:1:url", "textileRef:V:12", "textileRef:", "textileRef:u:1:shelve", "1:shelve"][v[1]];
        let (d, w) = fill(HOSTS[v[0]], t, t);
        ctx.mark_nontrivial(&d);
        ctx.expect(&D, &d, &w);
    }));
    Property { id: "C08", level: "model_checking", rule: "the identifier shows in an anchor, or the document holds placeholder-like text", assumptions: vec!["identifiers without angle brackets and double quotes"], families: f }
}

fn forged(cfgs: &[Cfg], doc: &str, ctx: &mut Ctx) {
    let clean = strip(doc, "U");
    if clean != doc { ctx.mark_nontrivial(doc); }
    for c in cfgs {
        let (Some(a), Some(b)) = (ctx.must(c, doc), ctx.must(c, &clean)) else { continue };
        ctx.validated += 1;
        // a document of nothing but blanks is returned as it is
        if !clean.trim().is_empty() && a != b {
            ctx.fail(c, doc, format!("output {a:?}; without the imitated placeholder {b:?}"));
        }
        let (n, m) = (a.matches("SEC").count(), doc.matches("SEC").count());
        if n > m { ctx.fail(c, doc, format!("text of the document is repeated {n} instead of {m} times: {a:?}")); }
    }
}
