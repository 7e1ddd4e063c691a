//! C02: restricted mode lets no HTML typed by the author become markup.
use crate::engine::*;
use crate::htmltok::text_of;
use crate::observe::*;
use crate::space::*;
use crate::{Property, Tier};

fn check(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    let Some(out) = ctx.must(c, doc) else { return };
    ctx.validated += 1;
    if out.contains('<') && doc.contains(['<', '"', '\'', '&', '>']) { ctx.mark_nontrivial(doc); }
    if let Some(m) = foreign_markup(&out, doc) {
        ctx.fail(c, doc, format!("{m}; output {out:?}"));
    }
}

/// The same, and the typed text is what a reader sees.
fn shown(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    if doc.trim().is_empty() { return; }
    let Some(out) = ctx.must(c, doc) else { return };
    ctx.validated += 1;
    ctx.mark_nontrivial(doc);
    if let Some(m) = foreign_markup(&out, doc) {
        ctx.fail(c, doc, format!("{m}; output {out:?}"));
        return;
    }
    let (seen, want) = (fold(&text_of(&out)), fold(doc));
    if seen.trim() != want.trim() {
        ctx.fail(c, doc, format!("the reader sees {seen:?}, typed was {want:?}; output {out:?}"));
    }
}

const PAY: &[&str] = &["\"", "'", "a", " ", "onx=1", "<u>", "<", ">", "@", "==", "&", "javascript:x", ")", "!", "(", "http://h/", "]", "|", "}", "*"];
const PAYQ: &[&str] = &["\"", "a", " ", "<u>", ">", "@", "==", "&", "javascript:x", ")", "!", "[1]"];
const HTML: &[&str] = &[
    "<b>", "</b>", "<script>", "</script>", "<!--", "-->", "<a href=\"x\">", "<img src=x onerror=y>", "&amp;", "&lt;", "&#60;", "&quot;",
    "&", "<", ">", "a", " ", "</p>", "<br>", "<hr />", "<?php", "<![CDATA[", "]]>", "<notextile>", "</notextile>", "<code>", "</code>",
    "<pre>", "</pre>", "<div style='x'>", "\"", "é",
];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let cf: Vec<Cfg> = if q { &["r", "rn", "rl", "rxew"][..] } else { &["r", "rx", "rn", "rl", "ri", "re", "rw"][..] }.iter().map(|c| Cfg::of(c)).collect();
    let f = vec![
        ctx_family("hostile text in every construct, every option", PAY, 1, 2, cf.clone(), check),
        ctx_family("hostile text in every construct", if q { PAYQ } else { PAY }, 3, if q { 3 } else { 4 }, vec![R], check),
        seq_family("HTML is shown as typed", HTML, 1, if q { 3 } else { 4 }, "", "", vec![R], shown),
        seq_family("HTML is shown as typed, no blocks", HTML, 1, if q { 2 } else { 3 }, "", "", vec![Cfg::of("rn"), Cfg::of("rl"), Cfg::of("rx")], shown),
        seq_family("tokens", WIDE, 1, if q { 2 } else { 4 }, "", "", cf.clone(), check),
        ctx_family("tokens in every construct", WIDE, 1, if q { 1 } else { 2 }, cf.clone(), check),
        tuple_family("pairs of constructs", 2, JOIN, cf.clone(), check),
        nest_family("hostile text in nested constructs", 2, &["<i>", "\" y='z", "' y=\"z", "\"'><i>", "&lt;i&gt;", "&#60;i>", "*w*", "\"w\":/w", "@\"'@", "!w.png(\"')!", "ABCD"], cf, check),
        ctx_family("all combinations of options", &["<i>", "\"'><i>", "*w* \"<i>\":/u"], 1, 1, Cfg::with("r", "xlinweb"), check),
        seq_family("HTML is shown as typed, all combinations of options", HTML, 1, if q { 1 } else { 2 }, "", "", Cfg::with("r", "xliweb"), shown),
        nest_family("hostile text in deeply nested constructs", 3, if q { &["\"'><i>"] } else { &["<i>", "\"'><i>", "\"w\":/w"] }, vec![R], check),
    ];
    Property {
        id: "C02", level: "model_checking",
        rule: "the document holds HTML-significant characters and the output holds at least one tag",
        assumptions: vec!["html5ever's tokenizer stands for the browsers'"],
        families: f,
    }
}
