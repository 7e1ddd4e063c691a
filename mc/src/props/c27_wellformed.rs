//! C27: every element that is opened is closed, and structure nests.
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};

const VOID: &[&str] = &["br", "img", "hr", "col"];
const PHRASE: &[&str] = &["strong", "b", "em", "i", "cite", "del", "ins", "sub", "sup", "span", "a", "abbr", "acronym", "code"];

/// What is wrong with the nesting of the elements.
pub fn ill_formed(out: &str) -> Option<String> {
    let mut count: std::collections::BTreeMap<String, i64> = Default::default();
    let mut stack: Vec<String> = vec![];
    for t in tokenize(out) {
        match t {
            Tok::Open { name, .. } => {
                if VOID.contains(&name.as_str()) { continue; }
                *count.entry(name.clone()).or_default() += 1;
                if !PHRASE.contains(&name.as_str()) { stack.push(name); }
            }
            Tok::Close(name) => {
                let c = count.entry(name.clone()).or_default();
                *c -= 1;
                if *c < 0 { return Some(format!("</{name}> closes nothing")); }
                if !PHRASE.contains(&name.as_str()) {
                    match stack.pop() {
                        Some(s) if s == name => {}
                        s => return Some(format!("</{name}> closes {s:?}")),
                    }
                }
            }
            _ => {}
        }
    }
    count.iter().find(|(_, c)| **c != 0).map(|(n, _)| format!("<{n}> is not closed"))
}

fn check(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    if !c.restricted && doc.contains('<') { return; }
    let Some(o) = ctx.must(c, doc) else { return };
    ctx.validated += 1;
    if o.contains('<') { ctx.mark_nontrivial(doc); }
    if let Some(m) = ill_formed(&o) { ctx.fail(c, doc, format!("{m}; output {o:?}")); }
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let two = vec![D, R];
    f.push(seq_family("tokens", WIDE, 1, if q { 3 } else { 4 }, "", "", vec![R], check));
    f.push(ctx_family("tokens in every construct", WIDE, 1, 2, vec![R], check));
    f.push(tuple_family("pairs of constructs", 2, JOIN, two.clone(), check));
    f.push(tuple_family("triples of constructs", 3, if q { &["\n"] } else { JOIN }, vec![D], check));
    f.push(nest_family("nested constructs", 2, &["w", "@w@", "\"w\":/w", "*w*", "!w.png!", "|", "\n"], two.clone(), check));
    f.push(nest_family("deeply nested constructs", 3, &["w"], two, check));
    f.push(seq_family("phrases and attributes", &["a", " ", "*", "_", "%", "{x:", "}", "[", "(", ")", "#n]", "]", ":/u "], 1, if q { 5 } else { 6 }, "", "", vec![R], check));
    f.push(ctx_family("all combinations of options", &["w", "*w*", "@w@", "w\nw", "\"w\":/w", "!w.png!", "<i>"], 1, 1, Cfg::with("", "rxliweb"), check));
    f.push(tuple_family("constructs, all combinations of options", 1, &[""], Cfg::with("", "rxliweb"), check));
    f.extend(deep_families(1, if q { 5 } else { 6 }, vec![R], check));
    Property { id: "C27", level: "model_checking", rule: "the output has elements", assumptions: vec![], families: f }
}
