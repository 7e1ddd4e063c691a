//! C24: HTML5 and XHTML output differ only where they should.
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};

/// What the HTML5 tokens are in XHTML.
fn map(toks: Vec<Tok>, class: bool) -> Vec<Tok> {
    toks.into_iter().map(|t| match t {
        Tok::Open { name, mut attrs, self_closing } => {
            let n = match name.as_str() { "abbr" => "acronym".to_string(), _ => name };
            let sc = self_closing || (n == "br" && attrs.is_empty());
            if n == "img" && !class {
                if let Some(k) = attrs.iter().position(|a| a.0 == "class") {
                    let v = attrs[k].1.clone();
                    let (rest, last) = match v.rsplit_once(' ') { Some((r, l)) => (r.to_string(), l.to_string()), None => (String::new(), v) };
                    if let Some(al) = last.strip_prefix("align-") {
                        if rest.is_empty() { attrs.remove(k); } else { attrs[k].1 = rest; }
                        attrs.push(("align".into(), al.into()));
                    }
                }
            }
            attrs.sort();
            Tok::Open { name: n, attrs, self_closing: sc }
        }
        Tok::Close(n) => Tok::Close(if n == "abbr" { "acronym".into() } else { n }),
        Tok::Comment(c) => Tok::Comment(c.replace("<br />", "<br>")),
        t => t,
    }).collect()
}
/// A typed break in the middle of a line of text; the others (at the end of a
/// line, a block of their own, in a comment or in an unfinished tag) may keep
/// the form in which they are typed.
fn typed_elsewhere(doc: &str) -> bool {
    let l = doc.to_lowercase();
    if l.contains("<!--") && l.contains("<br") { return true; }
    l.match_indices("<br").any(|(k, _)| {
        let Some(e) = l[k..].find('>') else { return true };
        let after = &l[k + e + 1..];
        let before = &l[..k];
        let open = match (before.rfind('<'), before.rfind('>')) { (Some(x), Some(y)) => x > y, (Some(_), None) => true, _ => false };
        let line_start = before.rsplit('\n').next().unwrap_or("");
        open || after.trim_start_matches([' ', '\t']).starts_with('\n') || line_start.trim().is_empty() || line_start.contains("<hr")
    })
}
fn breaks(out: &str, form: &str, any_case: bool) -> Option<String> {
    let mut i = 0;
    let low = if any_case { out.to_ascii_lowercase() } else { out.to_string() };
    while let Some(k) = low[i..].find("<br") {
        let at = i + k;
        let end = at + out[at..].find('>')? + 1;
        let tag = &out[at..end];
        i = end;
        if tag[3..].trim_end_matches('>').trim_matches(['/', ' ']).is_empty() {
            if tag != form { return Some(format!("a break is {tag:?}, not {form:?}")); }
            if !out[end..].is_empty() && !out[end..].starts_with('\n') { return Some("a break is not followed by a line end".into()); }
        }
    }
    None
}
fn check(c: &Cfg, doc: &str, ctx: &mut Ctx) { check_case(c, doc, ctx, false) }
/// In running text breaks are written in capitals, too.
fn check_text(c: &Cfg, doc: &str, ctx: &mut Ctx) { check_case(c, doc, ctx, true) }
fn check_case(c: &Cfg, doc: &str, ctx: &mut Ctx, any: bool) {
    let x = Cfg { xhtml: true, ..c.clone() };
    let (Some(a), Some(b)) = (ctx.must(c, doc), ctx.must(&x, doc)) else { return };
    ctx.validated += 1;
    if a != b { ctx.mark_nontrivial(doc); }
    if doc.contains("align-") { return; }
    let skip = typed_elsewhere(doc);
    if doc.contains("<!<") || doc.contains("<b title=\"") { return; }
    // a tag inside a tag (an unfinished one, or an image in a cite address)
    if tokenize(&a).iter().any(|t| matches!(t, Tok::Open { name, attrs, .. } if name.contains('<') || attrs.iter().any(|x| x.0.contains('<') || x.1.contains("<img") || x.1.contains("<br")))) { return; }
    if map(tokenize(&a), c.align > 0) != map(tokenize(&b), true) || a.contains("acronym") { ctx.fail(&x, doc, format!("output {b:?}; as HTML5 it is {a:?}")); }
    for t in tokenize(&b) { if let Tok::Open { name, attrs, .. } = t { if name == "abbr" || (c.align == 0 && name == "img" && attrs.iter().any(|a| a.0 == "class" && a.1.contains("align-"))) { ctx.fail(&x, doc, format!("{name} in XHTML; output {b:?}")); } } }
    if skip { return; }
    if let Some(m) = breaks(&a, "<br>", any) { ctx.fail(c, doc, format!("{m}; output {a:?}")); }
    if let Some(m) = breaks(&b, "<br />", any) { ctx.fail(&x, doc, format!("{m}; output {b:?}")); }
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    const PAY: &[&str] = &["a", " ", "\n", "\n\n", "<br>", "<br />", "ABC(t)", "!<i.png!", "!>(k)i.png(t)!", "!=i.png!:/u", "A1B(c)", "b", "*", "_", "|", "\"", "<b>", "@", "==", "<hr>", "ABC", "&"];
    let cfgs: Vec<Cfg> = ["", "a", "b", "r", "re", "n", "l", "i", "w"].iter().map(|c| Cfg::of(c)).collect();
    let few: Vec<Cfg> = ["", "r"].iter().map(|c| Cfg::of(c)).collect();
    f.push(ctx_family("in every construct", PAY, 1, if q { 2 } else { 3 }, few.clone(), check));
    f.push(ctx_family("in every construct, all options", PAY, 1, 1, cfgs.clone(), check));
    f.push(ctx_family("in every construct, all combinations of options", &["w\nw", "ABC(t) !>i.png!", "<br>"], 1, 1, { let mut v = Cfg::with("", "rlinwe"); v.extend(Cfg::with("a", "rlinwe")); v.extend(Cfg::with("b", "rlinwe")); v }, check));
    f.push(seq_family("sequences", PAY, 1, if q { 3 } else { 4 }, "", "", cfgs.clone(), check));
    f.push(tuple_family("pairs of constructs", 2, JOIN, few.clone(), check));
    f.push(seq_family("breaks", &["a", "\n", "<br>", "<br />", "<br/>", "<BR>", "<Br />", " ", "\n\n", "* ", "<b>x</b>"], 1, if q { 4 } else { 6 }, "z", "z", few.clone(), check_text));
    for (pre, post) in [("* z", "z"), ("|z", "z|"), ("h2. z", "z"), ("bq.. z\n\nz", "z")] {
        f.push(seq_family("breaks in elements", &["a", "\n", "<br>", "<br />", "<BR>", "<bR/>", " "], 1, if q { 3 } else { 5 }, pre, post, few.clone(), check_text));
    }
    if !q {
        f.push(tuple_family("triples of constructs", 3, &["\n\n", "\n"], vec![D], check));
        f.extend(deep_families(1, 5, vec![D], check));
    }
    Property { id: "C24", level: "model_checking", rule: "the two outputs differ", assumptions: vec!["authors write no class that starts with align- on an image"], families: f }
}
