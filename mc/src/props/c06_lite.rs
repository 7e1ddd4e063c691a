//! C06: lite mode keeps only simple blocks.
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};

/// Elements lite mode can produce.
const LITE: &[&str] = &["p", "blockquote", "pre", "code", "br", "strong", "b", "em", "i", "cite", "del", "ins", "sub", "sup", "span", "a", "img", "abbr", "acronym"];

fn whitelist(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    if doc.contains('<') && !c.restricted { return; }
    let Some(out) = ctx.must(c, doc) else { return };
    ctx.validated += 1;
    ctx.mark_nontrivial(doc);
    for t in tokenize(&out) {
        match t {
            Tok::Open { name, .. } | Tok::Close(name) => {
                if (name == "ol" || name == "li") && doc.contains("notelist") { continue; }
                if !LITE.contains(&name.as_str()) || ((name == "pre" || name == "code") && !doc.contains("bc")) {
                    ctx.fail(c, doc, format!("lite mode produces <{name}>: {out:?}"));
                    return;
                }
            }
            _ => {}
        }
    }
}

/// Block markers lite mode does not know, as the start of a paragraph.
const MARKERS: &[&str] = &[
    "h1. §", "h2. §", "h3. §", "h4. §", "h5. §", "h6. §", "h1(k). §", "h3[fr]. §", "h2<. §", "h1.. §", "pre. §", "pre.. §", "pre(k). §", "notextile. §", "notextile.. §",
    "###. §", "###.. §", "fn1. §", "fn1(k). §", "fn1^. §", "* §", "** §", "# §", "## §", "#5 §", "#_ §", "* §\n* §",
    "* §\n** §", "# §\n# §", "*(k) §", "; §\n: §", "; §", "- § := §", "- §\n- § := §", "|§|", "|§|§|", "|_. §|", "|§|\n|§|", "(k). |§|", "table. §\n|§|", "|=. §\n|§|",
    "|^.\n|§|", "|:\\2. 100|\n|§|", "@§@", "==§==", "x @§@ y", "x ==§== y", "[@§@]",
];

/// Phrase contents and what they become.
const BITS: &[(&str, &str)] = &[
    ("word", "word"), ("two words", "two words"), ("*x*", "<strong>x</strong>"), ("_x_", "<em>x</em>"), ("%x%", "<span>x</span>"),
    ("\"x\":/u", "<a href=\"/u\">x</a>"), ("!a.png! y", "<img alt=\"\" src=\"a.png\" /> y"), ("(tm)", "&#8482;"), ("it's", "it&#8217;s"), ("x & y", "x &amp; y"),
    ("**x** ^y^", "<b>x</b> <sup>y</sup>"), ("*x _y_ z*", "<strong>x <em>y</em> z</strong>"),
];

fn text(marker: &str, bit: &str) -> String { marker.replace('§', bit) }

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let l = Cfg::of("l");
    let p = Prod(vec![MARKERS.len(), BITS.len(), 4]);
    f.push(Family::new("markers lite mode does not know stay text", format!("{} markers x {} contents x 4 neighbourhoods, exact output", MARKERS.len(), BITS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (m, (b, hb)) = (MARKERS[v[0]], BITS[v[1]]);
        // quoting and brackets depend on what precedes, a cell border is no word boundary
        let tight = m.contains("|§") || m.contains("§|") || m.contains("@§") || m.contains("==§");
        if tight && !b.chars().all(|c| c.is_ascii_alphabetic() || c == ' ') { return; }
        // a link runs on over what follows it
        if b.contains("\":") && (m.contains("§\n") || m.contains("§ :=") || m.contains("§|")) { return; }
        // the marker pairs with the phrase
        if m.starts_with("*(k)") && b.starts_with('*') { return; }
        let doc = text(m, b);
        let body = esc(m).replace('\n', "<br>\n").replace("<br>\n|", "\n|").replace('§', hb);
        let (pre, post, hpre, hpost) = [("", "", "", ""), ("a\n\n", "\n\nb", "<p>a</p>\n\n", "\n\n<p>b</p>"), ("bq. a\n\n", "", "<blockquote>\n\t<p>a</p>\n</blockquote>\n\n", ""),
            ("bc. a\n\n", "\n\np. b", "<pre><code>a</code></pre>\n\n", "\n\n<p>b</p>")][v[2]];
        let doc = format!("{pre}{doc}{post}");
        ctx.mark_nontrivial(&doc);
        ctx.expect(&l, &doc, &format!("{hpre}<p>{body}</p>{hpost}"));
    }));
    // blocks lite mode knows are converted as without it
    const BLOCKS: &[&str] = &["§", "p. §", "p(k#i). §", "p>. §", "p[fr]. §", "bq. §", "bq(k). §", "bq.:http://h/ §", "bq.. §", "bc. §", "bc(k). §", "bc.. §", "p.. §", " §"];
    const INL: &[&str] = &[
        "word", "*x*", "_x_ **y**", "__x__", "??x??", "-x-", "+x+", "~x~ ^y^", "%(k)x%", "*x _y_*", "\"x\":http://h/", "\"x(t)\":/u", "!a.png!", "!>a.png(t)!:/u", "it's \"so\"",
        "a -- b", "x...", "(c) (tm)", "2 x 3", "ABC(t)", "ABCD", "[1]", "x[1] y[1!]", "x[#n]", "a & b", "a\nb", "\"$\":http://h/", "<b>x</b>", "<!-- x -->", "<div>x</div>", "[*x*]y", "x & <i>y</i>",
    ];
    let p = Prod(vec![BLOCKS.len(), INL.len(), BLOCKS.len(), INL.len()]);
    f.push(Family::new("lite blocks work as usual", format!("all pairs of {}x{} blocks and contents{}, lite = full", BLOCKS.len(), INL.len(), if q { ", one of the two contents among the first four" } else { "" }), p.size(), move |i, ctx| {
        let v = p.decode(i);
        if q && v[1] > 3 && v[3] > 3 { return; }
        let doc = format!("{}\n\n{}", BLOCKS[v[0]].replace('§', INL[v[1]]), BLOCKS[v[2]].replace('§', INL[v[3]]));
        for (a, b) in [("l", ""), ("lr", "r")] {
            let (Some(x), Some(y)) = (ctx.must(&Cfg::of(a), &doc), ctx.must(&Cfg::of(b), &doc)) else { return };
            ctx.validated += 1;
            ctx.mark_nontrivial(&doc);
            if x != y { ctx.fail(&Cfg::of(a), &doc, format!("lite mode gives {x:?}, without it {y:?}")); }
        }
    }));
    let cf: Vec<Cfg> = ["l", "lr", "lx"].iter().map(|c| Cfg::of(c)).collect();
    f.push(tuple_family("pairs of constructs", 2, JOIN, cf.clone(), whitelist));
    f.push(ctx_family("tokens in every construct", WIDE, 1, if q { 1 } else { 2 }, cf.clone(), whitelist));
    f.push(seq_family("tokens", WIDE, 1, if q { 2 } else { 3 }, "", "", cf.clone(), whitelist));
    const BT: &[&str] = &["h1. ", "* ", "# ", "|", "a", "\n", "\n\n", "bc.. ", "bq.. ", "pre. ", "- ", " := ", "; ", ": ", "@", "==", "notextile. ", "###. "];
    f.push(ctx_family("all combinations of options", &["w", "h1. w", "* w", "|w|"], 1, 1, Cfg::with("l", "rxiweb"), whitelist));
    f.push(tuple_family("constructs, all combinations of options", 1, JOIN, Cfg::with("l", "rxiweb"), whitelist));
    f.push(seq_family("block tokens", BT, 1, if q { 4 } else { 5 }, "", "", vec![Cfg::of("l")], whitelist));
    if !q { f.push(tuple_family("triples of constructs", 3, &["\n\n", "\n"], vec![Cfg::of("l")], whitelist)); }
    Property { id: "C06", level: "model_checking", rule: "every document is parsed in lite mode", assumptions: vec!["code blocks count as simple blocks (bq, bc, p)"], families: f }
}
