//! C12: blocks are recognised, separated, extended and closed correctly.
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

/// A kind of block. `§` is its text.
#[derive(Clone, Copy)]
struct Kind {
    /// marker with attributes, without dots
    mark: &'static str,
    cite: &'static str,
    ext: bool,
    what: What,
}
#[derive(Clone, Copy, PartialEq)]
enum What {
    /// unmarked text / unmarked block with its own output
    Plain,
    Own(&'static str),
    /// element with attributes around each part
    Each(&'static str, &'static str),
    /// outer opening, inner opening, inner closing, outer closing
    Quote(&'static str, &'static str),
    Code(&'static str, &'static str),
    Raw,
    Hidden,
    NoteDef,
}
use What::*;

const fn k(mark: &'static str, ext: bool, what: What) -> Kind { Kind { mark, cite: "", ext, what } }
const KINDS: &[Kind] = &[
    k("", false, Plain),
    k("p", false, Each("p", "")),
    k("p", true, Each("p", "")),
    k("h1", false, Each("h1", "")),
    k("bq", false, Quote("", "")),
    k("bq", true, Quote("", "")),
    k("bc", false, Code("<pre><code>", "</code></pre>")),
    k("bc", true, Code("<pre><code>", "</code></pre>")),
    k("notextile", true, Raw),
    k("###", false, Hidden),
    k("###", true, Hidden),
    k("pre", true, Code("<pre>", "</pre>")),
    // beyond the core
    k("h3", true, Each("h3", "")),
    k("h6(k#i)", false, Each("h6", " class=\"k\" id=\"i\"")),
    k("p(k)", true, Each("p", " class=\"k\"")),
    k("p>", false, Each("p", " style=\"text-align:right;\"")),
    k("bq(k)", true, Quote(" class=\"k\"", " class=\"k\"")),
    Kind { mark: "bq", cite: ":http://h/", ext: false, what: Quote(" cite=\"http://h/\"", "") },
    Kind { mark: "bq[fr]", cite: ":/c", ext: true, what: Quote(" cite=\"/c\" lang=\"fr\"", " lang=\"fr\"") },
    k("bc[c]", true, Code("<pre><code class=\"c\">", "</code></pre>")),
    k("bc(k)", false, Code("<pre class=\"k\"><code>", "</code></pre>")),
    k("pre", false, Code("<pre>", "</pre>")),
    k("notextile", false, Raw),
    k("h2", false, Each("h2", "")),
    k("h4", false, Each("h4", "")),
    k("h5", false, Each("h5", "")),
    k("h6", true, Each("h6", "")),
    Kind { mark: "h2", cite: ":/c", ext: true, what: Each("h2", "") },
    k("", false, Own("<ul>\n\t<li>§</li>\n\t<li>§</li>\n</ul>")),
    k("", false, Own("\t<table>\n\t\t<tr>\n\t\t\t<td>§</td>\n\t\t</tr>\n\t</table>")),
    k("", false, Own(" §")),
    k("", false, Own("<div>§</div>")),
    k("", false, Own("<hr />")),
    k("", false, NoteDef),
];
const CORE: usize = 12;

fn source(kd: &Kind, x: &str) -> String {
    match kd.what {
        Plain => x.to_string(),
        NoteDef => format!("note#{x}. {x}"),
        Own(h) => match &h[..3] {
            "<ul" => format!("* {x}\n* {x}"),
            "\t<t" => format!("|{x}|"),
            _ => h.replace('§', x),
        },
        _ => format!("{}{}{} {x}", kd.mark, if kd.ext { ".." } else { "." }, kd.cite),
    }
}

fn code(x: &str) -> String { esc(x).replace('"', "&quot;").replace("'", "&#39;") }

/// The reference model: chunks of output, one per top-level element or extended block.
/// None: a combination the model leaves open.
fn model(seq: &[(Kind, String, String)]) -> Option<Vec<String>> {
    let mut out: Vec<String> = vec![];
    let mut open: Option<Kind> = None;
    for (kd, x, hx) in seq {
        let marked = !kd.mark.is_empty();
        if marked || open.is_none() {
            if let Some(o) = open.take() {
                let end = match o.what { Quote(..) => "\n</blockquote>", Code(_, e) => e, _ => "" };
                if !end.is_empty() { out.last_mut().unwrap().push_str(end); }
            }
            match kd.what {
                Plain => out.push(format!("<p>{hx}</p>")),
                Own(h) => out.push(h.replace('§', hx)),
                Each(t, a) => out.push(format!("<{t}{a}>{hx}</{t}>")),
                Quote(a, b) => out.push(format!("<blockquote{a}>\n\t<p{b}>{hx}</p>{}", if kd.ext { "" } else { "\n</blockquote>" })),
                Code(a, b) => out.push(format!("{a}{}{}", code(x), if kd.ext { "" } else { b })),
                Raw => out.push(x.clone()),
                Hidden | NoteDef => {}
            }
            if kd.ext { open = Some(*kd); }
        } else {
            let o = open.unwrap();
            match (kd.what, o.what) {
                (_, Hidden) => {}
                (Plain, Each(t, a)) => out.push(format!("<{t}{a}>{hx}</{t}>")),
                (Plain, Quote(_, b)) => out.last_mut().unwrap().push_str(&format!("\n\n\t<p{b}>{hx}</p>")),
                (Plain, Code(..)) => out.last_mut().unwrap().push_str(&format!("\n\n{}", code(x))),
                (Plain, Raw) => out.last_mut().unwrap().push_str(&format!("\n\n{x}")),
                (_, Code(..)) => out.last_mut().unwrap().push_str(&format!("\n\n{}", code(&source(kd, x)))),
                (_, Raw) => out.last_mut().unwrap().push_str(&format!("\n\n{}", source(kd, x))),
                (Own(h), Each("p", _)) if h.starts_with("<ul") || h.starts_with("\t<t") || h.starts_with("<div") => out.push(h.replace('§', hx)),
                (NoteDef, Each("p", _)) => {}
                _ => return None,
            }
        }
    }
    if let Some(o) = open {
        let end = match o.what { Quote(..) => "\n</blockquote>", Code(_, e) => e, _ => "" };
        if !end.is_empty() { out.last_mut().unwrap().push_str(end); }
    }
    Some(out)
}

/// The chunks in order, with nothing but line ends (at least two) between them.
fn agrees(out: &str, chunks: &[String]) -> bool {
    let mut rest = out;
    for (n, c) in chunks.iter().enumerate() {
        if n > 0 {
            let r = rest.trim_start_matches('\n');
            if rest.len() - r.len() < 2 { return false; }
            rest = r;
        }
        match rest.strip_prefix(c.as_str()) { Some(r) => rest = r, None => return false }
    }
    rest.is_empty()
}

fn check(seq: &[(Kind, String, String)], seps: &[&str], ctx: &mut Ctx) {
    let mut doc = String::new();
    for (n, (kd, x, _)) in seq.iter().enumerate() {
        if n > 0 { doc.push_str(seps[(n - 1) % seps.len()]); }
        doc.push_str(&source(kd, x));
    }
    // in code and raw text blank lines are text
    let Some(want) = model(seq) else { return };
    let Some(out) = ctx.must(&D, &doc) else { return };
    ctx.validated += 1;
    ctx.mark_nontrivial(&doc);
    if !agrees(&out, &want) { ctx.fail(&D, &doc, format!("output {out:?}; the model requires {:?}", want.join("\n\n"))); }
}

const WORDS: &[&str] = &["wa", "wb", "wc", "wd", "we", "wf", "wg"];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let s = Seqs::new(KINDS.len(), 1, if q { 3 } else { 4 });
    f.push(Family::new("sequences of all blocks", format!("all sequences of 1..={} of {} kinds of blocks", s.hi, KINDS.len()), s.size(), move |i, ctx| {
        let seq: Vec<_> = s.decode(i).iter().enumerate().map(|(n, x)| (KINDS[*x], WORDS[n].to_string(), WORDS[n].to_string())).collect();
        check(&seq, &["\n\n"], ctx);
    }));
    let s = Seqs::new(CORE, 4, if q { 5 } else { 6 });
    f.push(Family::new("sequences of the main blocks", format!("all sequences of 4..={} of {} kinds of blocks", s.hi, CORE), s.size(), move |i, ctx| {
        let seq: Vec<_> = s.decode(i).iter().enumerate().map(|(n, x)| (KINDS[*x], WORDS[n].to_string(), WORDS[n].to_string())).collect();
        check(&seq, &["\n\n"], ctx);
    }));
    // texts with phrases and several lines
    const TEXTS: &[(&str, &str)] = &[("w", "w"), ("*w* x", "<strong>w</strong> x"), ("w\nx", "w<br>\nx"), ("\"w\":/u", "<a href=\"/u\">w</a>"), ("w & x", "w &amp; x"), ("w -- x", "w &#8212; x")];
    let p = Prod(vec![KINDS.len(), TEXTS.len(), KINDS.len(), TEXTS.len(), 2]);
    f.push(Family::new("pairs of blocks with texts", format!("all pairs of {} kinds of blocks with {} texts, unmarked third block or none", KINDS.len(), TEXTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let one = |a: usize, b: usize| (KINDS[a], TEXTS[b].0.to_string(), TEXTS[b].1.to_string());
        let mut seq = vec![one(v[0], v[1]), one(v[2], v[3])];
        // in lists, tables, note definitions and tags a line end is not the same
        if seq.iter().any(|s| (matches!(s.0.what, Own(_) | NoteDef)) && s.1 != "w") { return; }
        if v[4] == 1 { seq.push((KINDS[0], "wz".into(), "wz".into())); }
        check(&seq, &["\n\n"], ctx);
    }));
    // more than one blank line
    const SEPS: &[&str] = &["\n\n", "\n\n\n", "\n\n\n\n\n", "\n \n", "\n\t\n \n"];
    let p = Prod(vec![KINDS.len(), KINDS.len(), KINDS.len(), SEPS.len(), SEPS.len()]);
    f.push(Family::new("distances between blocks", format!("all triples of {} kinds of blocks at all pairs of {} distances", if q { CORE } else { KINDS.len() }, SEPS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        if q && v[..3].iter().any(|x| *x >= CORE) { return; }
        let seq: Vec<_> = v[..3].iter().enumerate().map(|(n, x)| (KINDS[*x], WORDS[n].to_string(), WORDS[n].to_string())).collect();
        // in extended code, quotes and raw text blank lines are text
        if seq.iter().any(|s| s.0.ext && matches!(s.0.what, Code(..) | Raw | Quote(..))) && seq.iter().any(|s| s.0.mark.is_empty()) { return; }
        check(&seq, &[SEPS[v[3]], SEPS[v[4]]], ctx);
    }));
    // what looks like a marker but is none
    const NOT: &[&str] = &[
        "p.x", "p.", "p .x", "P. x", "h1.x", "h1 x", "h7. x", "h0. x", "H1. x", "h. x", "bqq. x", "bq x", "bc.x", "bc: x", "pre.x", "prep. x", "notextile x", "notextil. x", "###x", "## #. x", "fn. x", "fn1 x", "p(k. x", "p{k. x",
        "p... x", "bq... x", "h1.: x", "1p. x", "xp. y", "p,. x", "h12. x", "p(k) . x", "p.\u{a0}x", "notep. x", "p.\tx",
    ];
    let p = Prod(vec![NOT.len(), KINDS.len(), 2]);
    f.push(Family::new("no markers", format!("{} texts that resemble block markers, after and before {} kinds of blocks", NOT.len(), KINDS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let t = NOT[v[0]];
        let x = (KINDS[0], t.to_string(), t.replace("...", "&#8230;"));
        let kd = (KINDS[v[1]], "w".to_string(), "w".to_string());
        let seq = if v[2] == 0 { vec![x, kd] } else { vec![kd, x] };
        if t.ends_with(' ') && v[2] == 1 { return; }
        check(&seq, &["\n\n"], ctx);
    }));
    // a block that starts with a space gets no element of its own
    const BLANK: &[(&str, &str)] = &[(" w", " w"), ("  w", "  w"), (" \tw", " \tw"), ("\tw", "<p>\tw</p>"), ("\t w", "<p>\t w</p>"), ("\u{a0}w", "<p>\u{a0}w</p>"), (" *w*", " <strong>w</strong>"), (" h1. w", " h1. w"), (" w\n x", " w\n x")];
    let p = Prod(vec![KINDS.len() + 1, BLANK.len(), KINDS.len() + 1]);
    f.push(Family::new("blocks that start with a blank", format!("{} such blocks between {} kinds of blocks", BLANK.len(), KINDS.len() + 1), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (s, h) = BLANK[v[1]];
        let nb = |k: usize, w: &str| (KINDS[k - 1], w.to_string(), w.to_string());
        if v[0] > 0 && KINDS[v[0] - 1].ext { return; }
        let (mut doc, mut want) = (vec![], vec![]);
        for (k, w) in [(v[0], "wa"), (0, ""), (v[2], "wc")] {
            if w.is_empty() { doc.push(s.to_string()); want.push(h.to_string()); }
            else if k > 0 {
                let b = nb(k, w);
                doc.push(source(&b.0, w));
                match model(&[b]) { Some(x) => want.extend(x), None => return }
            }
        }
        let doc = doc.join("\n\n");
        let Some(out) = ctx.must(&D, &doc) else { return };
        ctx.validated += 1;
        ctx.mark_nontrivial(&doc);
        if !agrees(&out, &want) { ctx.fail(&D, &doc, format!("output {out:?}; the model requires {:?}", want.join("\n\n"))); }
    }));
    // a marker in the middle of a block is text
    const MARKS: &[&str] = &["p. x", "h1. x", "bq. x", "bc. x", "pre. x", "notextile. x", "###. x", "fn1. x", "bc.. x", "p(k). x"];
    let p = Prod(vec![KINDS.len(), MARKS.len()]);
    f.push(Family::new("markers inside blocks", format!("{} markers on the second line of {} kinds of blocks", MARKS.len(), KINDS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let kd = KINDS[v[0]];
        if matches!(kd.what, Own(_) | NoteDef) { return; }
        check(&[(kd, format!("w\n{}", MARKS[v[1]]), format!("w<br>\n{}", MARKS[v[1]]))], &["\n\n"], ctx);
    }));
    // closed blocks do not know their neighbours
    let own: Vec<&'static str> = CONSTRUCTS.iter().copied().filter(|c| !c.contains(".. ") && !c.contains("ali") && !c.contains("note") && !c.contains("nr[") && !c.contains("ref[") && !c.starts_with("fn") && !c.starts_with("#_") && !c.ends_with(' ') && *c != "<br>").collect();
    let n = own.len();
    for depth in if q { vec![2usize] } else { vec![2, 3] } {
        let (own, p) = (own.clone(), Prod(vec![n; depth]));
        f.push(Family::new(&format!("neighbours, {depth} blocks"), format!("all {depth}-tuples of {n} constructs as blocks: the output is that of the blocks alone, in order"), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let bs: Vec<&str> = v.iter().map(|x| own[*x]).collect();
            let doc = bs.join("\n\n");
            for c in [D, R, Cfg::of("x")] {
                let mut want = vec![];
                for b in &bs {
                    // a block behind another one is not at the start of the document
                    let Some(o) = ctx.must(&c, b) else { return };
                    if !o.is_empty() { want.push(o); }
                }
                let Some(out) = ctx.must(&c, &doc) else { return };
                ctx.validated += 1;
                ctx.mark_nontrivial(&doc);
                if !agrees(&out, &want) { ctx.fail(&c, &doc, format!("output {out:?}; the blocks alone give {:?}", want.join("\n\n"))); }
            }
        }));
    }
    f.push(many_family(q, &[("p. a№", "<p>a№</p>"), ("h1. a№", "<h1>a№</h1>"), ("bq. a№", "<blockquote>\n\t<p>a№</p>\n</blockquote>"), ("bq.. a№\n\nb", "<blockquote>\n\t<p>a№</p>\n\n\t<p>b</p>\n</blockquote>"), ("bc.. a№\n\n*b*", "<pre><code>a№\n\n*b*</code></pre>")], ("\n\n", "\n\n"), ("§", "§"), vec![D]));
    f.push(huge_family(&[(66000, "a", "\n\n", "<p>a</p>", "\n\n", "", ""), (20000, "h1. a\n\nb", "\n\n", "<h1>a</h1>\n\n<p>b</p>", "\n\n", "", "")], D));
    f.push(crate::space::long_family(&[("h1. ¤", "<h1>¤</h1>"), ("bq. ¤", "<blockquote>\n\t<p>¤</p>\n</blockquote>"), ("¤", "<p>¤</p>"), ("p. §\n\n###. ¤\n\nx", "<p>§</p>\n\n<p>x</p>")], vec![D, R]));
    Property { id: "C12", level: "model_checking", rule: "the model defines the output of the sequence", assumptions: vec!["the number of line ends between two elements is left open"], families: f }
}
