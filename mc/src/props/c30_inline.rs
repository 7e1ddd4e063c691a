//! C30: with block tags off only phrases and typography are converted.
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};

const N: Cfg = Cfg { noblock: true, ..D };
const NR: Cfg = Cfg { noblock: true, restricted: true, ..D };
const INLINE: &[&str] = &["strong", "b", "em", "i", "cite", "del", "ins", "sub", "sup", "span", "abbr", "acronym", "br"];

/// Only phrase elements, all closed, and every line is a line.
fn shape(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    if !c.restricted && doc.contains('<') { return; }
    let Some(o) = ctx.must(c, doc) else { return };
    ctx.validated += 1;
    if o.contains('<') { ctx.mark_nontrivial(doc); }
    for t in tokenize(&o) {
        if let Tok::Open { name, .. } = t {
            if !INLINE.contains(&name.as_str()) { ctx.fail(c, doc, format!("<{name}> with block tags off; output {o:?}")); return; }
        }
    }
    if let Some(m) = super::c27_wellformed::ill_formed(&o) { ctx.fail(c, doc, format!("{m}; output {o:?}")); return; }
    let n = |s: &str| {
        let l: Vec<bool> = s.split('\n').map(|l| l.trim_matches([' ', '\t']).is_empty()).collect();
        l.iter().rposition(|b| !b).unwrap_or(0) - l.iter().position(|b| !b).unwrap_or(0)
    };
    if !doc.contains('\r') && !doc.trim().is_empty() && n(doc) != n(&o) { ctx.fail(c, doc, format!("{} line ends become {}; output {o:?}", n(doc), n(&o))); }
}

/// A line of phrases and typography is what it is in a paragraph.
fn same(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    let (Some(o), Some(p)) = (ctx.must(c, doc), ctx.must(&Cfg { noblock: false, ..c.clone() }, &format!("p. {doc}"))) else { return };
    let Some(p) = p.strip_prefix("<p>").and_then(|p| p.strip_suffix("</p>")) else { return };
    ctx.validated += 1;
    ctx.mark_nontrivial(doc);
    if o != p { ctx.fail(c, doc, format!("output {o:?}, in a paragraph {p:?}")); }
}

/// Markup of blocks and of other stages stays in the text: (document, output).
const KEPT: &[(&str, &str)] = &[
    ("p. §", "p. §"), ("h1. §", "h1. §"), ("h6(k#i). §", "h6(k#i). §"), ("bq. §", "bq. §"), ("bq.:/u §", "bq.:/u §"), ("bc. §", "bc. §"), ("bc[l]. §", "bc[l]. §"), ("pre. §", "pre. §"), ("notextile. §", "notextile. §"), ("###. §", "###. §"), ("fn1. §", "fn1. §"), ("note#n. §", "note#n. §"), ("notelist. §", "notelist. §"),
    ("# §", "# §"), ("* §", "* §"), ("; §", "; §"), (": §", ": §"), ("- t := §", "- t := §"), ("| § |", "| § |"), ("|a| § |b|", "|a| § |b|"), ("table. §\n| § |", "table. §\n| § |"), ("§[1]", "§[1]"), ("§[#n]", "§[#n]"),
    ("!i.png! §", "!i.png! §"), ("§ !i.png!", "§ !i.png!"), ("@c@ §", "@c@ §"), ("§ @c@", "§ @c@"), ("==c== §", "==c== §"), ("\"t\":/u §", "&#8220;t&#8221;:/u §"), ("[al]http://h/ §", "[al]http://h/ §"), ("p.. §\n\nx", "p.. §\n\nx"), ("§\n§", "§\n§"), ("§\n\n§", "§\n\n§"), ("a\n\n\n§", "a\n\n\n§"), ("  §", "  §"), ("a\n  §", "a\n  §"), ("§", "§"),
];
const CONTENT: &[(&str, &str)] = &[
    ("a", "a"), ("a b", "a b"), ("*a*", "<strong>a</strong>"), ("_a *b* c_", "<em>a <strong>b</strong> c</em>"), ("it's", "it&#8217;s"), ("x \"q\"", "x &#8220;q&#8221;"), ("a -- b", "a &#8212; b"), ("2 x 3", "2 &#215; 3"), ("%(k)a%", "<span class=\"k\">a</span>"), ("ABC(t)", "<abbr title=\"t\"><span class=\"caps\">ABC</span></abbr>"), ("ABCD x", "<span class=\"caps\">ABCD</span> x"), ("x...", "x&#8230;"), ("-a- +b+", "<del>a</del> <ins>b</ins>"), ("a^2^", "a^2^"), ("é & è", "é &amp; è"), ("x (tm)", "x &#8482;"), ("~s~", "<sub>s</sub>"), ("??c??", "<cite>c</cite>"),
];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    {
        let p = Prod(vec![KEPT.len(), CONTENT.len(), 3]);
        f.push(Family::new("other markup stays text", format!("{} kinds of markup x {} contents x 3 configs", KEPT.len(), CONTENT.len()), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let c = [N, Cfg { lite: true, ..N }, Cfg { noimg: true, rel: true, raw: true, ..N }][v[2]].clone();
            let (d, h) = fill(KEPT[v[0]], CONTENT[v[1]].0, CONTENT[v[1]].1);
            ctx.mark_nontrivial(&d);
            ctx.expect(&c, &d, &h);
        }));
        let p = Prod(vec![KEPT.len(), CONTENT.len(), KEPT.len(), CONTENT.len()]);
        f.push(Family::new("two lines of other markup", format!("all pairs of {} kinds of markup x {} contents", KEPT.len(), CONTENT.len()), if q { p.size() / CONTENT.len() as u64 } else { p.size() }, move |i, ctx| {
            let mut v = p.decode(i);
            if q { v[3] = (v[0] + v[1] + v[2]) % CONTENT.len(); }
            let (a, b) = (fill(KEPT[v[0]], CONTENT[v[1]].0, CONTENT[v[1]].1), fill(KEPT[v[2]], CONTENT[v[3]].0, CONTENT[v[3]].1));
            let d = format!("{}\n{}", a.0, b.0);
            ctx.mark_nontrivial(&d);
            ctx.expect(&N, &d, &format!("{}\n{}", a.1, b.1));
        }));
    }
    f.push(seq_family("phrases as in a paragraph", &["a", " ", "*", "_", "-", "+", "%", "^", "~", "?", "(k)", "."], 1, if q { 5 } else { 6 }, "a ", " b", vec![N], same));
    f.push(seq_family("typography as in a paragraph", &["a", " ", "\"", "'", "-", ".", "1", "x", "(", ")", "A", "&", "/"], 1, if q { 5 } else { 6 }, "a ", " b", vec![N, NR], same));
    f.push(seq_family("tokens", WIDE, 1, if q { 3 } else { 4 }, "", "", vec![NR], shape));
    f.push(ctx_family("tokens in every construct", WIDE, 1, if q { 1 } else { 2 }, vec![N, NR], shape));
    f.push(tuple_family("pairs of constructs", 2, JOIN, vec![N, NR], shape));
    f.push(nest_family("nested constructs", 2, &["w", "*w*", "\"w\":/w", "@w@", "!w.png!"], vec![N, NR], shape));
    f.push(many_family(q, &[("*a№*", "<strong>a№</strong>"), ("_b *c№*_", "<em>b <strong>c№</strong></em>"), ("\"q№\"", "&#8220;q№&#8221;"), ("p. x№", "p. x№"), ("@c№@", "@c№@")], ("\n", "\n"), ("§", "§"), vec![N]));
    Property { id: "C30", level: "model_checking", rule: "the document has markup", assumptions: vec!["in restricted mode, or without typed tags, where elements are counted"], families: f }
}
