//! C17: tables keep their rows, cells, groups and attributes.
use super::c16_lists::norm;
use crate::space::*;
use crate::engine::*;
use crate::{Property, Tier};

fn expect(ctx: &mut Ctx, c: &Cfg, doc: &str, want: &str) {
    ctx.mark_nontrivial(doc);
    if c.restricted && doc.contains(['<', '>']) { return; }
    let want = if c.xhtml { want.replace("<br>", "<br />") } else { want.to_string() };
    if let Some(got) = ctx.must(c, doc) {
        ctx.validated += 1;
        if norm(&got) != norm(&want) { ctx.fail(c, doc, format!("output {got:?}, the model requires the structure of {want:?}")); }
    }
}
/// An attribute list: (source, attributes outside restricted mode, attributes in it).
type At = (&'static str, &'static str, &'static str);
fn at(a: At, c: &Cfg) -> &'static str { if c.restricted { a.2 } else { a.1 } }

/// Attributes of cells.
const CELL: &[At] = &[
    ("", "", ""), ("\\2", " colspan=\"2\"", " colspan=\"2\""), ("/3", " rowspan=\"3\"", " rowspan=\"3\""), ("\\12/3", " colspan=\"12\" rowspan=\"3\"", " colspan=\"12\" rowspan=\"3\""),
    ("<", " style=\"text-align:left;\"", " style=\"text-align:left;\""), (">", " style=\"text-align:right;\"", " style=\"text-align:right;\""), ("=", " style=\"text-align:center;\"", " style=\"text-align:center;\""), ("<>", " style=\"text-align:justify;\"", " style=\"text-align:justify;\""),
    ("^", " style=\"vertical-align:top;\"", " style=\"vertical-align:top;\""), ("-", " style=\"vertical-align:middle;\"", " style=\"vertical-align:middle;\""), ("~", " style=\"vertical-align:bottom;\"", " style=\"vertical-align:bottom;\""), ("^>", " style=\"vertical-align:top; text-align:right;\"", " style=\"vertical-align:top; text-align:right;\""),
    ("(k)", " class=\"k\"", ""), ("(k l#i)", " class=\"k l\" id=\"i\"", ""), ("{color:red}", " style=\"color:red;\"", ""), ("[fr]", " lang=\"fr\"", " lang=\"fr\""), ("\\2=(k){color:red}[fr]", " class=\"k\" colspan=\"2\" lang=\"fr\" style=\"color:red; text-align:center;\"", " colspan=\"2\" lang=\"fr\" style=\"text-align:center;\""),
    ("((", " style=\"padding-left:2em;\"", " style=\"padding-left:2em;\""), (")", " style=\"padding-right:1em;\"", " style=\"padding-right:1em;\""), ("(w-1/2)", " class=\"w-1/2\"", ""), ("/2[en]", " lang=\"en\" rowspan=\"2\"", " lang=\"en\" rowspan=\"2\""), ("{a:b;c:d;}(k)", " class=\"k\" style=\"a:b; c:d;\"", ""),
];
/// Contents of cells.
const TEXT: &[(&str, &str)] = &[
    ("a", "a"), ("", ""), (" a ", " a "), ("two words", "two words"), ("*s*", "<strong>s</strong>"), ("_e_ b", "<em>e</em> b"), ("a\nb", "a<br>\nb"), ("\"l\":/u x", "<a href=\"/u\">l</a> x"), ("!i.png!", "<img alt=\"\" src=\"i.png\" />"), ("@c@", "<code>c</code>"), ("a & b", "a &amp; b"),
    ("* x\n* y", "<ul><li>x</li><li>y</li></ul>"), ("- x := y", "<dl><dt>x</dt><dd>y</dd></dl>"), ("a. b", "a. b"), ("(x) a", "(x) a"), ("2. a", "2. a"), ("é", "é"), ("it's", "it&#8217;s"), ("a_b", "a_b"), ("# x\n## y", "<ol><li>x<ol><li>y</li></ol></li></ol>"), ("a - b", "a &#8211; b"), ("<b>h</b>", "<b>h</b>"), (".", "."), ("=", "="), ("h1. a", "h1. a"), ("1/2", "1/2"), ("a\n\tb", "a\n\tb"), 
];
const ROW: &[At] = &[
    ("", "", ""), ("(k). ", " class=\"k\"", ""), ("(k#i). ", " class=\"k\" id=\"i\"", ""), ("{color:red}. ", " style=\"color:red;\"", ""), ("[fr]. ", " lang=\"fr\"", " lang=\"fr\""), ("=. ", " style=\"text-align:center;\"", " style=\"text-align:center;\""), ("^. ", " style=\"vertical-align:top;\"", " style=\"vertical-align:top;\""), ("~>(k). ", " class=\"k\" style=\"vertical-align:bottom; text-align:right;\"", " style=\"vertical-align:bottom; text-align:right;\""), ("[fr]{color:red}(k). ", " class=\"k\" lang=\"fr\" style=\"color:red;\"", " lang=\"fr\""),
];
const TABLE: &[At] = &[
    ("", "", ""), ("table.\n", "", ""), ("table. a summary\n", " summary=\"a summary\"", " summary=\"a summary\""), ("table.  a b \n", " summary=\"a b\"", " summary=\"a b\""), ("table(k#i).\n", " class=\"k\" id=\"i\"", ""), ("table(k){color:red}[fr]. it's & \"so\"\n", " class=\"k\" lang=\"fr\" style=\"color:red;\" summary=\"it's &amp; &quot;so&quot;\"", " lang=\"fr\" summary=\"it's &amp; &quot;so&quot;\""),
    ("table<.\n", " style=\"text-align:left;\"", " style=\"text-align:left;\""), ("table>(k). s\n", " class=\"k\" style=\"text-align:right;\" summary=\"s\"", " style=\"text-align:right;\" summary=\"s\""), ("table=.\n", " style=\"text-align:center;\"", " style=\"text-align:center;\""), ("table. *x* -- 2 x 3 |y|\n", " summary=\"*x* -- 2 x 3 |y|\"", " summary=\"*x* -- 2 x 3 |y|\""),
];
/// Captions, with their html.
const CAP: &[(&str, &str, &str, &str)] = &[
    ("", "", "", ""), ("|=. cap\n", "", "", "cap"), ("|=. two *s* words |\n", "", "", "two <strong>s</strong> words"), ("|=(k). c\n", " class=\"k\"", "", "c"), ("|=<{color:red}. it's\n", " style=\"color:red; text-align:left;\"", " style=\"text-align:left;\"", "it&#8217;s"), ("|=[fr]. a. b\n", " lang=\"fr\"", " lang=\"fr\"", "a. b"),
];
/// Column definitions: source, then (attributes, the same restricted) of the group and its columns.
const COLS: &[(&str, &[(&str, &str)])] = &[
    ("", &[]), ("|:. |\n", &[("", "")]), ("|:. 100|  \n", &[(" width=\"100\"", " width=\"100\"")]), ("|:\\3. |\n", &[(" span=\"3\"", " span=\"3\"")]), ("|:\\2. 100|20|\\3. |\n", &[(" span=\"2\" width=\"100\"", " span=\"2\" width=\"100\""), (" width=\"20\"", " width=\"20\""), (" span=\"3\"", " span=\"3\"")]),
    ("|:(k). 10|(l). 20|{width:1.5em}. |\n", &[(" class=\"k\" width=\"10\"", " width=\"10\""), (" class=\"l\" width=\"20\"", " width=\"20\""), (" style=\"width:1.5em;\"", "")]), ("|:\\2=[fr]. 30\n", &[(" lang=\"fr\" span=\"2\" style=\"text-align:center;\" width=\"30\"", " lang=\"fr\" span=\"2\" style=\"text-align:center;\" width=\"30\"")]), ("|:. | 10 | 20|\n", &[("", ""), (" width=\"10\"", " width=\"10\""), (" width=\"20\"", " width=\"20\"")]),
];
/// Rows and group markers: (source, group, attributes, restricted)
const GRP: &[(&str, &str, &str, &str)] = &[
    ("r", "", "", ""), ("c", "", "", ""), ("|^.", "thead", "", ""), ("|-.", "tbody", "", ""), ("|~.", "tfoot", "", ""), ("|^(k).", "thead", " class=\"k\"", ""), ("|-{color:red}[fr].   ", "tbody", " lang=\"fr\" style=\"color:red;\"", " lang=\"fr\""), ("|~=(k#i).", "tfoot", " class=\"k\" id=\"i\" style=\"text-align:center;\"", " style=\"text-align:center;\""), ("R", "", "", ""),
];
const W: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];

/// The part of a table from captions to columns.
fn head(cap: usize, cols: usize, c: &Cfg) -> (String, String) {
    let (s, a, r, t) = CAP[cap];
    let mut doc = s.to_string();
    let mut want = if s.is_empty() { String::new() } else { format!("<caption{}>{t}</caption>", if c.restricted { r } else { a }) };
    let (s, l) = COLS[cols];
    doc += s;
    for (k, x) in l.iter().enumerate() {
        let a = if c.restricted { x.1 } else { x.0 };
        want += &if k == 0 { format!("<colgroup{a}>") } else { format!("<col{a} />") };
    }
    if !l.is_empty() { want += "</colgroup>"; }
    (doc, want)
}
/// A sequence of rows and groups; None when a group has no rows.
fn body(v: &[usize], c: &Cfg) -> Option<(String, String)> {
    let (mut doc, mut want, mut open, mut rows) = (String::new(), String::new(), "", 1);
    for (k, g) in v.iter().enumerate() {
        let (s, tag, a, r) = GRP[*g];
        if tag.is_empty() {
            rows += 1;
            let (x, y) = (W[k], W[k + 6]);
            if s == "c" {
                // at the very start of a table it would be a caption
                if k == 0 { return None; }
                doc += &format!("|=. {x}|{y}|\n");
                want += &format!("<tr><td style=\"text-align:center;\">{x}</td><td>{y}</td></tr>");
            } else if s == "r" { doc += &format!("|{x}|\n"); want += &format!("<tr><td>{x}</td></tr>"); }
            else { doc += &format!("(k). |_. {x}|{y}\nz|\n"); want += &format!("<tr{}><th>{x}</th><td>{y}<br>\nz</td></tr>", if c.restricted { "" } else { " class=\"k\"" }); }
        } else {
            if rows == 0 { return None; }
            rows = 0;
            if !open.is_empty() { want += &format!("</{open}>"); }
            doc += &format!("{s}\n");
            want += &format!("<{tag}{}>", if c.restricted { r } else { a });
            open = tag;
        }
    }
    if rows == 0 { return None; }
    if !open.is_empty() { want += &format!("</{open}>"); }
    doc.pop();
    Some((doc, want))
}
fn cell(th: bool, a: usize, t: usize, c: &Cfg) -> (String, String) {
    let a = CELL[a];
    let tag = if th { "th" } else { "td" };
    let src = if a.0.is_empty() && !th { TEXT[t].0.to_string() } else { format!("{}{}. {}", if th { "_" } else { "" }, a.0, TEXT[t].0) };
    let mut attrs = at(a, c).to_string();
    // the vertical alignment of a header cell is not read
    if th && attrs.contains("vertical-align") {
        let i = attrs.find("vertical-align").unwrap();
        let e = attrs[i..].find(';').unwrap() + i + 1;
        attrs.replace_range(i..e, "");
        attrs = attrs.replace("style=\" ", "style=\"").replace(" style=\"\"", "");
    }
    (src, format!("<{tag}{attrs}>{}</{tag}>", TEXT[t].1))
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    // every cell next to every cell
    let n = [2, CELL.len(), TEXT.len()];
    let p = Prod(vec![n[0], n[1], n[2], n[0], n[1], if q { 1 } else { n[2] }, 3]);
    f.push(Family::new("cells", format!("a row of two cells, {} attribute lists x {} contents, header or not (second cell: {} contents), 3 configs", n[1], n[2], if q { 1 } else { n[2] }), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = [D, R, Cfg::of("x")][v[6]].clone();
        let (a, b) = (cell(v[0] == 1, v[1], v[2], &c), cell(v[3] == 1, v[4], if q { 6 } else { v[5] }, &c));
        // in the first row an equals sign starts a caption
        let doc = format!("|z|\n|{}|{}|", a.0, b.0);
        // angle brackets are plain text in restricted mode
        if c.restricted && doc.contains(['<', '>']) { return; }
        expect(ctx, &c, &doc, &format!("<table><tr><td>z</td></tr><tr>{}{}</tr></table>", a.1, b.1));
    }));
    // numbers
    let p = Prod(vec![150, 10, 2]);
    f.push(Family::new("numbers", "spans and widths from 1 to 150 in 10 places, 2 configs".to_string(), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let n = v[0] + 1;
        let c = [D, R][v[2]].clone();
        let row = |s: String, h: String| (format!("|z|\n|{s}|\n|y|"), format!("<table><tr><td>z</td></tr><tr>{h}</tr><tr><td>y</td></tr></table>"));
        let col = |s: String, h: String| (format!("|:{s}|\n|y|"), format!("<table>{h}</colgroup><tr><td>y</td></tr></table>"));
        let (doc, want) = match v[1] {
            0 => row(format!("\\{n}. a"), format!("<td colspan=\"{n}\">a</td>")),
            1 => row(format!("/{n}. a"), format!("<td rowspan=\"{n}\">a</td>")),
            2 => row(format!("\\{n}/2. a"), format!("<td colspan=\"{n}\" rowspan=\"2\">a</td>")),
            3 => row(format!("\\2/{n}. a|/{n}. b"), format!("<td colspan=\"2\" rowspan=\"{n}\">a</td><td rowspan=\"{n}\">b</td>")),
            4 => row(format!("_\\{n}. a|_/{n}. b"), format!("<th colspan=\"{n}\">a</th><th rowspan=\"{n}\">b</th>")),
            5 => row(format!("/{n}[fr]. a|\\{n}[fr]. b"), format!("<td lang=\"fr\" rowspan=\"{n}\">a</td><td colspan=\"{n}\" lang=\"fr\">b</td>")),
            6 => col(format!(". {n}"), format!("<colgroup width=\"{n}\">")),
            7 => col(format!("\\{n}. 7"), format!("<colgroup span=\"{n}\" width=\"7\">")),
            8 => col(format!(". 5|\\{n}. 3|{n}"), format!("<colgroup width=\"5\"><col span=\"{n}\" width=\"3\" /><col width=\"{n}\" />")),
            _ => col(format!("\\2. {n}|\\{n}. |{n}"), format!("<colgroup span=\"2\" width=\"{n}\"><col span=\"{n}\" /><col width=\"{n}\" />")),
        };
        expect(ctx, &c, &doc, &want);
    }));
    // shapes
    let s = Seqs::new(8, 1, if q { 5 } else { 6 });
    f.push(Family::new("shapes", format!("all tables of 1..={} rows of 8 kinds (1 to 4 cells, empty cells, blanks at the end, cells over several lines)", s.hi), s.size(), move |i, ctx| {
        let (mut doc, mut want) = (String::new(), String::new());
        for (k, x) in s.decode(i).iter().enumerate() {
            let w = W[k];
            let (d, h): (String, Vec<String>) = match x {
                0 => (format!("|{w}|"), vec![w.into()]),
                1 => (format!("|{w}1|{w}2|"), vec![format!("{w}1"), format!("{w}2")]),
                2 => (format!("|{w}|x|y|"), vec![w.into(), "x".into(), "y".into()]),
                3 => (format!("|{w}||"), vec![w.into(), "".into()]),
                4 => (format!("||{w}|z|"), vec!["".into(), w.into(), "z".into()]),
                5 => (format!("|{w}|x|  "), vec![w.into(), "x".into()]),
                6 => (format!("|{w}\nx|y\nz|"), vec![format!("{w}<br>\nx"), "y<br>\nz".into()]),
                _ => (format!("|p|q|r|{w}|"), vec!["p".into(), "q".into(), "r".into(), w.into()]),
            };
            if k > 0 { doc.push('\n'); }
            doc += &d;
            want += &format!("<tr>{}</tr>", h.iter().map(|x| format!("<td>{x}</td>")).collect::<String>());
        }
        expect(ctx, &D, &doc, &format!("<table>{want}</table>"));
    }));
    // rows and their attributes
    let p = Prod(vec![ROW.len(), ROW.len(), ROW.len(), 5, 3]);
    f.push(Family::new("rows", format!("three rows x {}^3 attribute lists x 5 first cells, 3 configs", ROW.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = [D, R, Cfg::of("xe")][v[4]].clone();
        let (mut doc, mut want) = (vec![], String::new());
        for k in 0..3 {
            let x = cell([false, true, false, false, true][v[3]], [0, 0, 16, 8, 12][v[3]], 0, &c);
            doc.push(format!("{}|{}|{}|", ROW[v[k]].0, x.0, W[k]));
            want += &format!("<tr{}>{}<td>{}</td></tr>", at(ROW[v[k]], &c), x.1, W[k]);
        }
        expect(ctx, &c, &doc.join("\n"), &format!("<table>{want}</table>"));
    }));
    // groups
    let s = Seqs::new(GRP.len(), 1, if q { 5 } else { 6 });
    f.push(Family::new("groups", format!("all sequences of 1..={} of {} rows and group markers (every group with rows), 2 configs", s.hi, GRP.len()), s.size() * 2, move |i, ctx| {
        let c = [&D, &R][(i % 2) as usize];
        if let Some((d, w)) = body(&s.decode(i / 2), c) { expect(ctx, c, &d, &format!("<table>{w}</table>")); }
    }));
    // everything together
    let s = Seqs::new(GRP.len(), 1, if q { 2 } else { 4 });
    let m = s.size() as usize;
    let p = Prod(vec![TABLE.len(), CAP.len(), COLS.len(), m, 3]);
    f.push(Family::new("parts of a table", format!("{} table lines x {} captions x {} column lines x all sequences of 1..={} of {} rows and groups, 3 configs", TABLE.len(), CAP.len(), COLS.len(), s.hi, GRP.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = [D, R, Cfg::of("x")][v[4]].clone();
        if let Some((bd, bw)) = body(&s.decode(v[3] as u64), &c) {
            let (hd, hw) = head(v[1], v[2], &c);
            expect(ctx, &c, &format!("{}{hd}{bd}", TABLE[v[0]].0), &format!("<table{}>{hw}{bw}</table>", at(TABLE[v[0]], &c)));
        }
    }));
    // surroundings
    const BL: &[(&str, &str)] = &[("", ""), ("x\n\n", "<p>x</p>"), ("h1. x\n\n", "<h1>x</h1>"), ("* x\n\n", "<ul><li>x</li></ul>"), ("bq. x\n\n", "<blockquote><p>x</p></blockquote>"), ("bc. |x|\n\n", "<pre><code>|x|</code></pre>"), ("x\n", "x"), ("x *s*\ny\n", "x <strong>s</strong>\ny"), ("|u|v|\n\n", "<table><tr><td>u</td><td>v</td></tr></table>"), ("<div>x</div>\n\n", "<div>x</div>"), ("table. x\n\n", "<p>table. x</p>"), ("| x\n\n", "<p>| x</p>")];
    let s = Seqs::new(GRP.len(), 1, 2);
    let m = s.size() as usize;
    let p = Prod(vec![BL.len(), BL.len(), m, if q { GRP.len() } else { m }, 4]);
    f.push(Family::new("tables between blocks", format!("{} blocks, a table of 1..=2 rows and groups, {} blocks, another table of 1..={} of them, 4 heads", BL.len(), BL.len(), if q { 1 } else { 2 }), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (Some(a), Some(b)) = (body(&s.decode(v[2] as u64), &D), body(&s.decode(v[3] as u64), &D)) else { return };
        let (t, cp, co) = [(0, 0, 0), (2, 1, 0), (4, 3, 4), (0, 0, 5)][v[4]];
        let (hd, hw) = head(cp, co, &D);
        let doc = format!("{}{}{hd}{}\n\n{}{}", BL[v[0]].0, TABLE[t].0, a.0, BL[v[1]].0, b.0);
        expect(ctx, &D, &doc, &format!("{}<table{}>{hw}{}</table>{}<table>{}</table>", BL[v[0]].1, TABLE[t].1, a.1, BL[v[1]].1, b.1));
    }));
    // bars that make no table
    const NOT: &[(&str, &str)] = &[("a ", "a "), ("| ", "| "), ("|b| ", "|b| "), ("c|d ", "c|d "), ("*s* ", "<strong>s</strong> "), ("||", "||")];
    let s = Seqs::new(NOT.len(), 1, if q { 4 } else { 6 });
    f.push(Family::new("bars in text", format!("all sequences of 1..={} of {} words with bars, followed by a word", s.hi, NOT.len()), s.size(), move |i, ctx| {
        let v = s.decode(i);
        let d: String = v.iter().map(|x| NOT[*x].0).collect::<String>() + "z";
        let h: String = v.iter().map(|x| NOT[*x].1).collect::<String>() + "z";
        if d.contains("||*") { return; }
        expect(ctx, &D, &d, &format!("<p>{h}</p>"));
    }));
    f.push(many_family(q, &[("|a№|b|", "\n\t\t<tr>\n\t\t\t<td>a№</td>\n\t\t\t<td>b</td>\n\t\t</tr>"), ("(k). |_. a№|", "\n\t\t<tr class=\"k\">\n\t\t\t<th>a№</th>\n\t\t</tr>")], ("\n", ""), ("§", "\t<table>§\n\t</table>"), vec![D]));
    f.push(many_family(q, &[("a№", "\n\t\t\t<td>a№</td>"), ("*a№*", "\n\t\t\t<td><strong>a№</strong></td>")], ("|", ""), ("|§|", "\t<table>\n\t\t<tr>§\n\t\t</tr>\n\t</table>"), vec![D]));
    f.push(crate::space::long_family(&[("|§|¤|", "\t<table>\n\t\t<tr>\n\t\t\t<td>§</td>\n\t\t\t<td>¤</td>\n\t\t</tr>\n\t</table>"), ("table. ¤\n|_. ¤|", "\t<table summary=\"¤\">\n\t\t<tr>\n\t\t\t<th>¤</th>\n\t\t</tr>\n\t</table>")], vec![D, R]));
    Property { id: "C17", level: "model_checking", rule: "the document holds a table or bars", assumptions: vec!["every row ends with a bar", "every group has rows", "blanks between tags do not matter"], families: f }
}
