//! C23: line ends and blank lines do not change the meaning.
use super::c16_lists::norm;
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

const EOL: &[&str] = &["\n", "\r\n", "\r"];
/// The document with the k-th assignment of line ends; None for those that are other line ends.
fn assign(d: &str, mut k: u64) -> Option<String> {
    let mut o = String::new();
    for c in d.chars() {
        if c == '\n' {
            let e = EOL[(k % 3) as usize];
            k /= 3;
            // CR followed by LF is one line end
            if e == "\n" && o.ends_with('\r') { return None; }
            o += e;
        } else { o.push(c); }
    }
    (k == 0).then_some(o)
}
fn same(ctx: &mut Ctx, c: &Cfg, a: &str, b: &str) {
    if a == b { return; }
    let Some(x) = ctx.must(c, a) else { return };
    same_as(ctx, c, a, &x, b);
}
fn same_as(ctx: &mut Ctx, c: &Cfg, a: &str, x: &str, b: &str) {
    let Some(y) = ctx.must(c, b) else { return };
    ctx.validated += 1;
    ctx.mark_nontrivial(b);
    if x != y { ctx.fail(c, b, format!("output {y:?}; {a:?} gives {x:?}")); }
}
/// Every assignment, or for documents with many lines all uniform and alternating ones.
fn all_assignments(ctx: &mut Ctx, c: &Cfg, d: &str, max: u32) {
    let n = d.matches('\n').count() as u32;
    let Some(o) = ctx.must(c, d) else { return };
    if n <= max {
        for k in 1..3u64.pow(n) { if let Some(x) = assign(d, k) { same_as(ctx, c, d, &o, &x); } }
    } else {
        // periods 1 and 2 written in base three
        for p in 1..9u64 {
            let mut k = 0u64;
            for i in 0..n.min(38) { k = k * 3 + if i % 2 == 0 { p % 3 } else { p / 3 }; }
            if let Some(x) = assign(d, k) { same_as(ctx, c, d, &o, &x); }
        }
    }
}
/// Lines of running text: (source, output, starts with blank or pipe, breaks itself)
const LINES: &[(&str, &str, bool, bool)] = &[
    ("a", "a", false, false), ("b c", "b c", false, false), (" lead", " lead", true, false), ("|x", "|x", true, false), ("*s*", "<strong>s</strong>", false, false), ("\"l\":/u", "<a href=\"/u\">l</a>", false, false), ("日本", "日本", false, false), ("@c@", "<code>c</code>", false, false), ("<b>x</b>", "<b>x</b>", false, false), ("y<br>", "y<br>", false, true), ("z<br />", "z<br />", false, true), ("y<BR>", "y<br>", false, true), ("y<Br />", "y<br />", false, true), ("w ", "w ", false, false), ("q.", "q.", false, false), ("\tt", "\tt", true, false), ("1.5", "1.5", false, false), ("!i.png!", "<img alt=\"\" src=\"i.png\" />", false, false), ("(e)", "(e)", false, false), ("&amp;", "&amp;", false, false), ("<!-- k -->", "<!-- k -->", false, false), ("==r==", "r", false, false),
];
/// Elements with breaks: document, output
const BREAK: &[(&str, &str)] = &[
    ("x§", "<p>x§</p>"), ("p. x§", "<p>x§</p>"), ("h1. x§", "<h1>x§</h1>"), ("h4(k). x§", "<h4 class=\"k\">x§</h4>"), ("h2. x§", "<h2>x§</h2>"), ("h3. x§", "<h3>x§</h3>"), ("h5. x§", "<h5>x§</h5>"), ("h6. x§", "<h6>x§</h6>"), ("; x§\n: d", "<dl><dt>x§</dt><dd>d</dd></dl>"), ("* v\n# x§", "<ul><li>v</li></ul><ol><li>x§</li></ol>"), ("|^.\n|x§|\n|-.\n|y|", "<table><thead><tr><td>x§</td></tr></thead><tbody><tr><td>y</td></tr></tbody></table>"), ("bq(k):/u x§", "<p>bq(k):/u x§</p>"), ("bq.:/u x§", "<blockquote cite=\"/u\"><p>x§</p></blockquote>"), ("bq. x§", "<blockquote><p>x§</p></blockquote>"), ("bq.. v\n\nx§", "<blockquote><p>v</p><p>x§</p></blockquote>"), ("* x§", "<ul><li>x§</li></ul>"), ("# v\n# x§\n# y", "<ol><li>v</li><li>x§</li><li>y</li></ol>"), ("* v\n** x§", "<ul><li>v<ul><li>x§</li></ul></li></ul>"), ("|x§|", "<table><tr><td>x§</td></tr></table>"), ("|v|x§|y|", "<table><tr><td>v</td><td>x§</td><td>y</td></tr></table>"), ("|_. x§|", "<table><tr><th>x§</th></tr></table>"), ("|{color:red}. x§|", "<table><tr><td style=\"color:red;\">x§</td></tr></table>"), ("; t\n: x§", "<dl><dt>t</dt><dd>x§</dd></dl>"), ("fn1. x§", "<p class=\"footnote\" id=\"fnU-1\"><sup>1</sup> x§</p>"), ("v\n\nx§\n\ny", "<p>v</p><p>x§</p><p>y</p>"), ("p.. v\n\nx§", "<p>v</p><p>x§</p>"),
];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let cfgs = if q { vec![D, R] } else { vec![D, R, Cfg::of("x"), Cfg::of("n"), Cfg::of("l"), Cfg::of("w")] };
    let cf = cfgs.clone();
    let js = ["\n", "\n\n", "\n\n\n"];
    let n = CONSTRUCTS.len();
    let p = Prod(vec![n, n, 3]);
    f.push(Family::new("line ends of pairs of constructs", format!("all pairs of {n} constructs x 3 joiners x {} assignments of three line ends, {} configs", if q { "all (one or two lines) or all uniform and alternating" } else { "all" }, cf.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let d = format!("{}{}{}", CONSTRUCTS[v[0]], js[v[2]], CONSTRUCTS[v[1]]);
        for c in &cf { all_assignments(ctx, c, &d, if q { 2 } else { 5 }); }
    }));
    if !q {
        let p = Prod(vec![n, n, n, 4]);
        f.push(Family::new("line ends of triples of constructs", format!("all triples of {n} constructs x 4 joiners, uniform and alternating line ends"), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let (a, b) = [("\n", "\n"), ("\n", "\n\n"), ("\n\n", "\n"), ("\n\n", "\n\n")][v[3]];
            all_assignments(ctx, &D, &format!("{}{a}{}{b}{}", CONSTRUCTS[v[0]], CONSTRUCTS[v[1]], CONSTRUCTS[v[2]]), 2);
        }));
    }
    const T: &[&str] = &["a", "\n", " ", "\t", "* ", "|", "bc.. ", "p. ", "<pre>", "</pre>", "@", "==", "\"", ":=", "<!--", "-->"];
    let s = Seqs::new(T.len(), 2, if q { 4 } else { 5 });
    f.push(Family::new("line ends of token sequences", format!("all sequences of 2..={} of {} tokens x every assignment of line ends", s.hi, T.len()), s.size(), move |i, ctx| {
        let d: String = s.decode(i).iter().map(|x| T[*x]).collect();
        if d.contains('\n') && !d.trim().is_empty() { all_assignments(ctx, &D, &d, 4); }
    }));
    // blank lines
    const BLANK: &[&str] = &["\n", " \n", "\t\n", "  \t \n", "\n\n", " \r\n", "\t\r"];
    let cf = cfgs.clone();
    let p = Prod(vec![n, n, BLANK.len()]);
    f.push(Family::new("lines with only blanks", format!("all pairs of {n} constructs with each of {} spellings of the blank line between them, {} configs", BLANK.len(), cf.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let b = BLANK[v[2]];
        let plain = if b == "\n\n" { "\n\n" } else { "\n" };
        // how many blank lines there are matters in code
        for c in &cf { same(ctx, c, &format!("{}\n{plain}{}", CONSTRUCTS[v[0]], CONSTRUCTS[v[1]]), &format!("{}\n{b}{}", CONSTRUCTS[v[0]], CONSTRUCTS[v[1]])); }
    }));
    let p = Prod(vec![n, 8, 8]);
    f.push(Family::new("blank lines around a document", format!("{n} constructs with 8 kinds of blank lines before and after, {} configs", cfgs.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        const B: &[&str] = &["", "\n", "\n\n\n", " \n", "\t\n\n", "\r\n", "\r", " \t\r\n\n"];
        let k = CONSTRUCTS[v[0]];
        let after = if v[2] == 0 { String::new() } else { format!("\n{}", B[v[2]]) };
        for c in &cfgs { same(ctx, c, k, &format!("{}{k}{after}", B[v[1]])); }
    }));
    // breaks
    let s = Seqs::new(LINES.len(), 1, if q { 3 } else { 4 });
    let k = BREAK.len() as u64;
    f.push(Family::new("line breaks", format!("{k} elements x all sequences of 1..={} of {} further lines, HTML5 and XHTML", s.hi, LINES.len()), s.size() * k * 2, move |i, ctx| {
        let c = if i % 2 == 0 { D } else { Cfg::of("x") };
        let host = BREAK[(i / 2 % k) as usize];
        let v = s.decode(i / 2 / k);
        let (mut d, mut h, mut broken) = (String::new(), String::new(), false);
        for x in &v {
            let l = LINES[*x];
            d += "\n";
            d += l.0;
            if !l.2 && !broken { h += "<br>"; }
            h += "\n";
            h += l.1;
            broken = l.3;
        }
        // a pipe ends a cell; a lone comment or image ends nothing
        if host.0.contains('|') && d.contains('|') { return; }
        let (d, h) = (host.0.replace('§', &d), host.1.replace('§', &h));
        let h = if c.xhtml { h.replace("<br>", "<br />") } else { h.replace("<br />", "<br>") };
        ctx.mark_nontrivial(&d);
        if let Some(got) = ctx.must(&c, &d) {
            ctx.validated += 1;
            // the texts of items and definitions are trimmed
            let h = ["li", "dt", "dd"].iter().fold(h, |h, t| h.replace(&format!(" </{t}>"), &format!("</{t}>")));
            if norm(&got) != norm(&h) { ctx.fail(&c, &d, format!("output {got:?}, the model requires {h:?}")); }
        }
    }));
    Property { id: "C23", level: "model_checking", rule: "the document has line ends other than LF, blank lines or line breaks", assumptions: vec![], families: f }
}
