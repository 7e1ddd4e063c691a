//! C25: raw HTML outside restricted mode.
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

const BLOCK: &[&str] = &["address", "article", "aside", "blockquote", "details", "div", "dl", "fieldset", "figure", "figcaption", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "header", "hgroup", "main", "menu", "nav", "ol", "p",
    "section", "s", "table", "template", "ul"];
const PHRASE: &[&str] = &["abbr", "acronym", "area", "audio", "a", "bdo", "br", "button", "b", "canvas", "cite", "command", "data", "datalist", "del", "dfn", "em", "embed", "iframe", "img", "input", "ins", "i", "kbd", "keygen", "label", "link", "map",
    "mark", "math", "meta", "meter", "noscript", "object", "output", "progress", "q", "ruby", "samp", "script", "select", "small", "span", "strong", "sub", "sup", "svg", "textarea", "time", "var", "video", "wbr"];
const OTHER: &[&str] = &["li", "td", "tr", "th", "dt", "dd", "style", "foo", "x-y", "legend", "tbody", "title", "u", "tt", "col", "hr", "center", "bb", "pp", "divs", "spa", "font", "big", "summary", "optgroup", "h7", "aa"];

/// An element, in a shape: (document, what stays raw, what comes out for the
/// inside, whether the block is wrapped as a whole).
struct Shape { doc: &'static str, whole: bool, tags: bool }
const SHAPES: &[Shape] = &[
    Shape { doc: "<E>§</E>", whole: true, tags: true },
    Shape { doc: "<E k=\"v\">§</E>", whole: true, tags: true },
    Shape { doc: "<E k='v' l=w m>§</E>", whole: true, tags: true },
    Shape { doc: "<E>§</E >", whole: true, tags: true },
    Shape { doc: "<E>", whole: true, tags: true },
    Shape { doc: "<E k=\"v\">", whole: true, tags: true },
    Shape { doc: "</E>", whole: true, tags: true },
    Shape { doc: "<E/>", whole: true, tags: true },
    Shape { doc: "<E />", whole: true, tags: true },
    Shape { doc: "<E k=\"v\" />", whole: true, tags: true },
    Shape { doc: "a <E>§</E>", whole: false, tags: true },
    Shape { doc: "<E>§</E> a", whole: false, tags: true },
    Shape { doc: "a <E k=\"v\">§</E> b", whole: false, tags: true },
    Shape { doc: "a <E> b", whole: false, tags: true },
    Shape { doc: "a </E> b", whole: false, tags: true },
    Shape { doc: "a <E k=\"v\"/> b", whole: false, tags: true },
    Shape { doc: "<E>§", whole: false, tags: true },
    Shape { doc: "§</E>", whole: false, tags: true },
    Shape { doc: "<E>§</E><E>§</E>", whole: true, tags: true },
    Shape { doc: "<E>§</E> <E>§</E>", whole: true, tags: true },
    Shape { doc: "<b><E>§</E></b>", whole: false, tags: true },
    Shape { doc: "<foo><E>§</E></foo>", whole: false, tags: true },
    Shape { doc: "a &lt;E&gt; b", whole: false, tags: false },
];
/// Text inside, and what it becomes.
const INSIDE: &[(&str, &str)] = &[("x", "x"), ("*x* y", "<strong>x</strong> y"), ("\"t\":/u", "<a href=\"/u\">t</a>"), ("\"q\" -- é", "&#8220;q&#8221; &#8212; é"), ("x & y", "x &amp; y"), ("!i.png!", "<img alt=\"\" src=\"i.png\" />"), ("@*c*@", "<code>*c*</code>"), ("", "")];

fn model(sh: &Shape, e: &str, ins: (&str, &str), raw: bool) -> Option<(String, String)> {
    let low = e.to_lowercase();
    let kind = if BLOCK.contains(&low.as_str()) { 0 } else if PHRASE.contains(&low.as_str()) { 1 } else { 2 };
    let doc = sh.doc.replace('E', e).replace('§', ins.0);
    if doc.trim().is_empty() { return None; }
    let out = sh.doc.replace('E', e).replace('§', ins.1);
    let wrap = |o: &str| format!("<p>{o}</p>");
    let divider = ["br", "hr", "img"].contains(&low.as_str());
    if divider && sh.doc.contains('§') { return None; }
    if low == "br" { return None; } // breaks have their own form
    if !sh.tags && e != low || ins.0.is_empty() && !sh.whole { return None; }
    // an inside that does not stand between blanks or tags
    if ins.0.starts_with('!') && !sh.doc.ends_with("§") && sh.doc.contains('§') { return None; }
    // an address runs up to a blank or a closing tag
    if ins.0.contains(":/u") && sh.doc.contains("</E><E>") { return None; }
    if ins.0.starts_with('"') && ins.0.contains(":/u") && !sh.doc.contains("§</E>") && !sh.doc.ends_with('§') { return None; }
    Some((doc.clone(), if sh.whole && divider || raw && sh.doc.starts_with("<foo>") { doc }
        else if sh.tags && kind == 0 { out }
        else if sh.whole && kind == 2 { if raw { doc } else { out } }
        else if sh.doc.starts_with("<foo>") { out }
        else { wrap(&out) }))
}

/// The blocks of a document: what comes out of each of them.
const UNITS: &[(&str, &str)] = &[
    ("a *b*", "<p>a <strong>b</strong></p>"), ("<div>*b*</div>", "<div><strong>b</strong></div>"), ("<!-- *c* -->", "<!-- *c* -->"), ("<hr />", "<hr />"), ("<b>*x*</b> y", "<p><b><strong>x</strong></b> y</p>"),
    ("<foo>x</foo>", "<foo>x</foo>"), ("h1. <i>x</i>", "<h1><i>x</i></h1>"), ("<div>", "<div>"), ("</div>", "</div>"), ("<span class=\"k\">x</span>", "<p><span class=\"k\">x</span></p>"), ("* <b>x</b>\n* y", "<ul>\n\t<li><b>x</b></li>\n\t<li>y</li>\n</ul>"),
    ("<p>x\ny</p>", "<p>x<br>\ny</p>"), ("|<b>x</b>|", "\t<table>\n\t\t<tr>\n\t\t\t<td><b>x</b></td>\n\t\t</tr>\n\t</table>"), ("<!-- a\nb -->", "<!-- a\nb -->"), ("bc. <b>", "<pre><code>&lt;b&gt;</code></pre>"), ("<img src=\"a.png\"/>", "<img src=\"a.png\"/>"),
    ("p(k). <div>x</div>", "<p class=\"k\"><div>x</div></p>"), ("<br>\n<hr>", "SKIP"),
];
/// Pieces of a line: (typed, shown).
const PIECES: &[(&str, &str)] = &[
    ("<b>", "<b>"), ("</b>", "</b>"), ("<i class=\"k\">", "<i class=\"k\">"), ("</i>", "</i>"), ("<a href=\"/u?a=1&b='2'\">", "<a href=\"/u?a=1&b='2'\">"), ("<img alt=\"a - b\" />", "<img alt=\"a - b\" />"), (" ", " "), ("a", "a"), ("é", "é"), ("*s*", "*s*"),
    ("&amp;", "&amp;"), ("<!--[if IE]-->", "<!--[if IE]-->"), ("<?x y?>", "<?x y?>"), ("<B TITLE=x>", "<B TITLE=x>"), ("(c)", "(c)"),
];
const ATTR: &[&str] = &["a", " ", "(c)", "ABC", "--", "'", "&amp;", "&", "[1/2]", "...", "3 x 3", ":", ";", "/", "#", "?", "=", "é", ".", "2 - 1", "{b:c}", "~", "|"];
const COMMENT: &[&str] = &["a", " ", "*b*", "\"t\":/u", "!i.png!", "(c)", "<b>", "&", "--", "\n", "@x@", "ABC(t)", "'", "[1]", "é", "<br/>", "==", "|"];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let cfgs: Vec<Cfg> = ["", "w"].iter().map(|c| Cfg::of(c)).collect();
    // 1. every element in every shape
    let els: Vec<String> = BLOCK.iter().chain(PHRASE).chain(OTHER).map(|e| e.to_string()).chain(["DIV", "Span", "FOO", "H1", "Section"].iter().map(|e| e.to_string())).collect();
    let p = Prod(vec![els.len(), SHAPES.len(), INSIDE.len(), 3, cfgs.len()]);
    f.push(Family::new("elements", format!("{} elements x {} shapes x {} insides x 3 positions x 2 options", els.len(), SHAPES.len(), INSIDE.len()), p.size(), move |i, c| {
        let v = p.decode(i);
        if !SHAPES[v[1]].doc.contains('§') && v[2] > 0 { return; }
        let Some((d, o)) = model(&SHAPES[v[1]], &els[v[0]], INSIDE[v[2]], v[4] == 1) else { return };
        let (d, o) = match v[3] { 0 => (d, o), 1 => (format!("z\n\n{d}\n\nz"), format!("<p>z</p>\n\n{o}\n\n<p>z</p>")), _ => (format!("{d}\n\n{d}"), format!("{o}\n\n{o}")) };
        c.mark_nontrivial(&d);
        c.expect(&cfgs[v[4]], &d, &o);
    }));
    // 2. attribute values, in every element that holds text
    let s = Seqs::new(ATTR.len(), 1, if q { 2 } else { 3 });
    let at = toks(ATTR);
    const TAG: &[&str] = &["<b title=\"§\">", "<i k=\"v\" title=\"§\" l='w'>", "<img alt=\"§\" />", "<b title='§'>"];
    let p = Prod(vec![HOSTS.len(), TAG.len()]);
    f.push(Family::new("attribute values", format!("{} hosts x {} tags x all values of up to {} of {} tokens", HOSTS.len(), TAG.len(), s.hi, ATTR.len()), s.size() * p.size(), move |i, c| {
        let v = p.decode(i % p.size());
        let val = join(&at, &s.decode(i / p.size()));
        if val.starts_with(':') && TAG[v[1]].starts_with("<i k") { return; } // reads as a link: " title=":x
        if TAG[v[1]].contains("='§'") && val.contains('\'') { return; }
        if HOSTS[v[0]].0.contains('|') && val.contains('|') { return; }
        let t = format!("x {}y", TAG[v[1]].replace('§', &val));
        let (d, o) = fill(HOSTS[v[0]], &t, &t);
        c.mark_nontrivial(&d);
        c.expect(&D, &d, &o);
    }));
    // 3. comments
    let s = Seqs::new(COMMENT.len(), 1, 3);
    let co = toks(COMMENT);
    let n = HOSTS.len() as u64;
    f.push(Family::new("comments", format!("{n} hosts x all comments of up to {} of {} tokens", s.hi, COMMENT.len()), s.size() * n, move |i, c| {
        let body = join(&co, &s.decode(i / n));
        let h = HOSTS[(i % n) as usize];
        if body.contains("-->") || body.starts_with('>') { return; }
        if body.contains('\n') && h.0 != "§" || body.contains("\n\n") || body.contains("\n \n") { return; }
        if body.contains('|') && h.0.contains('|') { return; }
        // code and raw text come first; breaks have their own form
        if body.contains("==") || body.contains('@') || body.contains("<br") { return; }
        for t in [format!("x <!--{body}--> y"), format!("x <!-- {body} -->")] {
            let (d, o) = fill(h, &t, &t);
            c.mark_nontrivial(&d);
            c.expect(&D, &d, &o);
        }
    }));
    let s = Seqs::new(COMMENT.len(), 1, if q { 4 } else { 5 });
    let co = toks(COMMENT);
    f.push(Family::new("lone comments", format!("all comments of up to {} of {} tokens, alone and between paragraphs", s.hi, COMMENT.len()), s.size(), move |i, c| {
        let body = join(&co, &s.decode(i));
        if body.contains("\n\n") || body.contains("-->") || body.contains("<br") || body.contains("==") || body.contains('@') { return; }
        if body.lines().any(|l| l.starts_with('|') || l.trim().is_empty()) || body.contains("\n ") || body.ends_with('\n') { return; }
        for (a, b, x, y) in [("", "", "", ""), ("a\n\n", "\n\nb", "<p>a</p>\n\n", "\n\n<p>b</p>")] {
            let d = format!("{a}<!-- {body} -->{b}");
            c.mark_nontrivial(&d);
            c.expect(&D, &d, &format!("{x}<!-- {body} -->{y}"));
        }
    }));
    // 4. blocks next to each other
    let n = if q { 4 } else { 5 };
    let p = Prod(vec![UNITS.len(); n]);
    f.push(Family::new("blocks", format!("all sequences of {n} of {} blocks", UNITS.len()), p.size(), move |i, c| {
        let v = p.decode(i);
        if v.iter().any(|k| UNITS[*k].1 == "SKIP") { return; }
        let d = v.iter().map(|k| UNITS[*k].0).collect::<Vec<_>>().join("\n\n");
        let o = v.iter().map(|k| UNITS[*k].1).collect::<Vec<_>>().join("\n\n");
        c.mark_nontrivial(&d);
        c.expect(&D, &d, &o);
    }));
    // 5. pieces of a line: the tags come out as they went in
    let s = Seqs::new(PIECES.len(), 1, if q { 4 } else { 5 });
    f.push(Family::new("lines", format!("all lines of up to {} of {} pieces", s.hi, PIECES.len()), s.size(), move |i, c| {
        let v = s.decode(i);
        let body: String = v.iter().map(|k| PIECES[*k].0).collect();
        let d = format!("z {body} z");
        let Some(got) = c.must(&D, &d) else { return };
        c.validated += 1;
        c.mark_nontrivial(&d);
        let tags = |s: &str| { let mut v = vec![]; let mut r = s; while let Some(a) = r.find('<') { let e = a + r[a..].find('>').unwrap_or(0) + 1; v.push(r[a..e].to_string()); r = &r[e..]; } v.retain(|t| t != "<strong>" && t != "</strong>"); v };
        let mut want = vec!["<p>".to_string()]; want.extend(tags(&body)); want.push("</p>".into());
        if tags(&got) != want { c.fail(&D, &d, format!("output {got:?}, the model requires the tags {want:?}")); }
    }));
    // 6. raw blocks: untouched whatever they hold
    const HOLD: &[&str] = &["a", " ", "*b*", "\"t\":/u", "\n", "(c)", "<b>", "&", "p. ", "@x@", "* ", "|", "é", "<foo>", "</foo>", "==", "!i!"];
    let s = Seqs::new(HOLD.len(), 1, if q { 4 } else { 5 });
    let ho = toks(HOLD);
    f.push(Family::new("raw blocks", format!("all insides of up to {} of {} tokens x 3 elements, with raw blocks enabled", s.hi, HOLD.len()), s.size(), move |i, c| {
        let body = join(&ho, &s.decode(i));
        if body.contains("\n\n") || body.lines().any(|l| l.trim().is_empty()) || body.ends_with('\n') { return; }
        let w = Cfg::of("w");
        for (a, b) in [("<foo>", "</foo>"), ("<x-y k=\"v\">", "</x-y>"), ("<LI>", "</LI>")] {
            let d = format!("{a}{body}{b}");
            c.mark_nontrivial(&d);
            c.expect(&w, &format!("z\n\n{d}\n\nz"), &format!("<p>z</p>\n\n{d}\n\n<p>z</p>"));
        }
    }));
    Property { id: "C25", level: "model_checking", rule: "the document has HTML in it", assumptions: vec!["tags are on one line", "attribute values hold no complete Textile phrase, link, image, code or footnote mark", "comments follow a blank, a bracket or the start of a line"], families: f }
}
