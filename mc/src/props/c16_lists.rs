//! C16: lists keep their items, nesting, kinds and numbering.
use crate::space::*;
use crate::engine::*;
use crate::htmltok::*;
use crate::{Property, Tier};
use std::collections::HashMap;

/// One line of a list: marker, start, attributes (source, html), content (source, html).
#[derive(Clone)]
struct Item { mk: &'static str, st: &'static str, at: (&'static str, &'static str), src: String, html: String }
fn item(mk: &'static str, st: &'static str, at: (&'static str, &'static str), src: &str, html: &str) -> Item {
    Item { mk, st, at, src: src.into(), html: html.into() }
}
fn kind(mk: &str) -> &'static str { if mk.ends_with('#') { "ol" } else { "ul" } }

/// The counters of numbered lists, which live as long as the document.
type Counters = HashMap<&'static str, u64>;

/// The tree-building model: a stack of open lists.
fn render(items: &[Item], n: &mut Counters) -> Option<String> {
    let mut out = String::new();
    // markers of the open lists, and whether an item of each is open
    let mut open: Vec<(&'static str, bool)> = vec![];
    let close = |li: bool| if li { "</li>" } else { "" };
    for it in items {
        let level = it.mk.len();
        if open.is_empty() && level > 1 && out.is_empty() { return None; }
        while let Some((top, li)) = open.last() {
            if top.len() > level || top.len() == level && kind(top) != kind(it.mk) {
                out += &format!("{}</{}>", close(*li), kind(top));
                open.pop();
            } else { break; }
        }
        let mut li_atts = "";
        let mut ul_atts = String::new();
        match open.last_mut() {
            Some((top, li)) if top.len() == level => {
                // markers of one list are written alike
                if *top != it.mk { return None; }
                out += close(*li);
                *li = false;
                li_atts = it.at.1;
            }
            _ => {
                ul_atts = it.at.1.to_string();
                if kind(it.mk) == "ol" {
                    let c = n.entry(it.mk).or_insert(1);
                    if it.st.is_empty() { *c = 1; } else if it.st != "_" { *c = it.st.parse().unwrap(); }
                    if !it.st.is_empty() { ul_atts += &format!(" start=\"{c}\""); }
                }
                open.push((it.mk, false));
                out += &format!("<{}{ul_atts}>", kind(it.mk));
            }
        }
        // an empty item is left out, and does not count
        if it.src.is_empty() { continue; }
        if kind(it.mk) == "ol" { *n.entry(it.mk).or_insert(1) += 1; }
        out += &format!("<li{li_atts}>{}", it.html);
        open.last_mut().unwrap().1 = true;
    }
    while let Some((top, li)) = open.pop() { out += &format!("{}</{}>", close(li), kind(top)); }
    Some(out)
}
fn source(items: &[Item]) -> String {
    items.iter().map(|i| format!("{}{}{} {}", i.mk, i.st, i.at.0, i.src)).collect::<Vec<_>>().join("\n")
}

/// The tokens that matter: tags with their attributes in any order, texts without the layout around them.
pub fn norm(html: &str) -> Vec<Tok> {
    tokenize(html).into_iter().filter_map(|t| match t {
        Tok::Text(s) => { let s = s.trim_matches(['\n', '\t']); if s.is_empty() { None } else { Some(Tok::Text(s.to_string())) } }
        Tok::Open { name, mut attrs, self_closing } => { attrs.sort(); Some(Tok::Open { name, attrs, self_closing }) }
        t => Some(t),
    }).collect()
}
fn expect(ctx: &mut Ctx, c: &Cfg, doc: &str, want: &str) {
    ctx.mark_nontrivial(doc);
    if let Some(got) = ctx.must(c, doc) {
        ctx.validated += 1;
        if norm(&got) != norm(want) { ctx.fail(c, doc, format!("output {got:?}, the model requires the structure of {want:?}")); }
    }
}

const MARKS: &[&str] = &["*", "#", "**", "##", "*#", "#*", "***", "###", "*#*", "**#", "*##", "#**", "##*", "#*#"];
const LEVELS: &[&str] = &["*", "#", "**", "##", "***", "###", "****", "####", "*****", "#####"];
const WORDS: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "i"];
const NOATT: (&str, &str) = ("", "");
const ATTS: &[(&str, &str)] = &[NOATT, ("(k)", " class=\"k\""), ("(#i)", " id=\"i\""), ("{color:red}", " style=\"color:red;\""), ("[fr]", " lang=\"fr\""), ("(k#i)[fr]{color:red}", " class=\"k\" id=\"i\" lang=\"fr\" style=\"color:red;\""), (".", "")];
const CONTENT: &[(&str, &str)] = &[
    ("a", "a"), ("a *s* b", "a <strong>s</strong> b"), ("*s*", "<strong>s</strong>"), ("\"l\":/u", "<a href=\"/u\">l</a>"), ("!i.png!", "<img alt=\"\" src=\"i.png\" />"), ("@* c@ d", "<code>* c</code> d"), ("a\nb", "a<br>\nb"), ("a\nb\nc", "a<br>\nb<br>\nc"),
    ("a\n*s* b", "a<br>\n<strong>s</strong> b"), ("a\n#tag", "a<br>\n#tag"), ("a\n- b", "a<br>\n- b"), ("a\n:b", "a<br>\n:b"), ("a\n**b** c", "a<br>\n<b>b</b> c"), ("it's \"q\"", "it&#8217;s &#8220;q&#8221;"), ("a * b # c", "a * b # c"), ("ABCD(x)", "<abbr title=\"x\"><span class=\"caps\">ABCD</span></abbr>"),
    ("a & b", "a &amp; b"), ("é", "é"), ("<b>h</b>", "<b>h</b>"), ("a<br>b", "a<br>\nb"), ("==*r*==", "*r*"), ("# a", "# a"), ("1. a", "1. a"), ("p. a", "p. a"), ("[x]", "[x]"), ("(x) a", "(x) a"), ("a |b| c", "a |b| c"), ("a  b", "a  b"),
];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let shape = |name: &str, marks: &'static [&'static str], hi: u32| {
        let s = Seqs::new(marks.len(), 0, hi - 1);
        Family::new(name, format!("all sequences of 1..={hi} items over {} markers that start at the first level, 2 configs; sequences that change the spelling of a marker within one list are left out", marks.len()), s.size() * 2, move |i, ctx| {
            let mut v = vec![(i % 2) as usize];
            v.extend(s.decode(i / 2));
            let items: Vec<Item> = v.iter().enumerate().map(|(n, m)| item(marks[*m], "", NOATT, WORDS[n], WORDS[n])).collect();
            if let Some(want) = render(&items, &mut Counters::new()) {
                let doc = source(&items);
                for c in if v.len() > 4 { &[D][..] } else { &[D, R][..] } { expect(ctx, c, &doc, &want); }
            }
        })
    };
    f.push(shape("levels and kinds", MARKS, if q { 5 } else { 6 }));
    f.push(shape("deep levels", if q { &LEVELS[..8] } else { LEVELS }, if q { 6 } else { 7 }));
    // numbering over the whole document
    const NUM: &[(&str, &str)] = &[("#", ""), ("#", "5"), ("#", "_"), ("##", ""), ("##", "_"), ("##", "12"), ("*", ""), ("*#", ""), ("*#", "_"), ("", "p"), ("", "b"), ("#", "0")];
    let s = Seqs::new(NUM.len(), 1, if q { 5 } else { 6 });
    f.push(Family::new("numbering", format!("all sequences of 1..={} of {} lines: items with and without start numbers or continuation, paragraphs and blank lines between", s.hi, NUM.len()), s.size(), move |i, ctx| {
        let v = s.decode(i);
        let mut n = Counters::new();
        let (mut doc, mut want) = (String::new(), String::new());
        let mut cur: Vec<Item> = vec![];
        let mut flush = |cur: &mut Vec<Item>, doc: &mut String, want: &mut String| -> bool {
            if cur.is_empty() { return true; }
            *doc += &(source(cur) + "\n\n");
            let w = render(cur, &mut n);
            cur.clear();
            w.map(|w| *want += &w).is_some()
        };
        for (k, x) in v.iter().enumerate() {
            match NUM[*x] {
                ("", "p") => { if !flush(&mut cur, &mut doc, &mut want) { return; } doc += &format!("{}\n\n", WORDS[k]); want += &format!("<p>{}</p>", WORDS[k]); }
                ("", _) => if !flush(&mut cur, &mut doc, &mut want) { return; },
                (m, st) => cur.push(item(m, st, NOATT, WORDS[k], WORDS[k])),
            }
        }
        if flush(&mut cur, &mut doc, &mut want) { expect(ctx, &D, &doc, &want); }
    }));
    // every start number
    let p = Prod(vec![310, 5, 2]);
    f.push(Family::new("start numbers", "start numbers 0..300 and around powers of two and ten x 5 lists that start with or continue from them, 2 configs".to_string(), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let n: u32 = if v[0] <= 300 { v[0] as u32 } else { [999, 1000, 9_999, 10_000, 32_767, 65_535, 65_536, 1_000_000, 2_147_483_600][v[0] - 301] };
        let (st, after) = (format!("#{n} a"), |k: u32| n + k);
        let (doc, want) = match v[1] {
            0 => (st, format!("<ol start=\"{n}\"><li>a</li></ol>")),
            1 => (format!("{st}\n# b\n\n#_ c"), format!("<ol start=\"{n}\"><li>a</li><li>b</li></ol><ol start=\"{}\"><li>c</li></ol>", after(2))),
            2 => (format!("{st}\n\nx\n\n#_ c\n# d\n\ny\n\n#_ e"), format!("<ol start=\"{n}\"><li>a</li></ol><p>x</p><ol start=\"{}\"><li>c</li><li>d</li></ol><p>y</p><ol start=\"{}\"><li>e</li></ol>", after(1), after(3))),
            3 => (format!("# z\n#{st}\n## b"), format!("<ol><li>z<ol start=\"{n}\"><li>a</li><li>b</li></ol></li></ol>")),
            _ => (format!("* z\n*{st}\n\n# c"), format!("<ul><li>z<ol start=\"{n}\"><li>a</li></ol></li></ul><ol><li>c</li></ol>")),
        };
        expect(ctx, [&D, &R][v[2]], &doc, &want);
    }));
    const M3: &[&str] = &["*", "#", "**", "##", "*#", "#*"];
    // what starts below the first level is no list
    const DEEP: &[&str] = &["**", "##", "*#", "***", "###"];
    const FIRST: &[&str] = &["", "x\n\n", "* a\n\n", "# a\n\n", "p. x\n\n", "bq. x\n\n"];
    let s = Seqs::new(M3.len(), 0, if q { 2 } else { 3 });
    let p = Prod(vec![FIRST.len(), DEEP.len(), s.size() as usize, 2]);
    f.push(Family::new("no lists", format!("{} blocks before x {} markers below the first level x 0..={} more items, 2 configs", FIRST.len(), DEEP.len(), s.hi), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = [&D, &R][v[3]];
        let mut lines = vec![format!("{} a", DEEP[v[1]])];
        for (k, m) in s.decode(v[2] as u64).iter().enumerate() { lines.push(format!("{} {}", M3[*m], WORDS[k])); }
        let first = ["", "<p>x</p>", "<ul><li>a</li></ul>", "<ol><li>a</li></ol>", "<p>x</p>", "<blockquote><p>x</p></blockquote>"][v[0]];
        expect(ctx, c, &format!("{}{}", FIRST[v[0]], lines.join("\n")), &format!("{first}<p>{}</p>", lines.join("<br>\n")));
    }));
    // items without text
    const EM: &[(&str, &str, bool)] = &[("#", "", true), ("#", "", false), ("#", "3", true), ("#", "3", false), ("#", "_", true), ("#", "_", false), ("##", "", true), ("##", "", false), ("*", "", true), ("*", "", false), ("**", "", true), ("**", "", false), ("", "", true)];
    let s = Seqs::new(EM.len(), 1, if q { 5 } else { 6 });
    f.push(Family::new("empty items", format!("all sequences of 1..={} of {} lines: items with and without text, blank lines between lists", s.hi, EM.len()), s.size(), move |i, ctx| {
        let v = s.decode(i);
        if v.last().map(|x| EM[*x].2) == Some(false) && v.len() == 1 { return; }
        let mut n = Counters::new();
        let (mut doc, mut want) = (String::new(), String::new());
        for part in v.split(|x| EM[*x].0.is_empty()) {
            if part.is_empty() { continue; }
            let items: Vec<Item> = part.iter().enumerate().map(|(k, x)| { let (m, st, t) = EM[*x]; let w = if t { WORDS[k] } else { "" }; item(m, st, NOATT, w, w) }).collect();
            match render(&items, &mut n) { Some(w) => { doc += &(source(&items) + "\n\n"); want += &w; } None => return }
        }
        if want.is_empty() { return; }
        // only the structure is judged here
        ctx.mark_nontrivial(&doc);
        if let Some(got) = ctx.must(&D, &doc) {
            ctx.validated += 1;
            let is_br = |t: &Tok| matches!(t, Tok::Open { name, .. } if name == "br");
            let got_toks: Vec<Tok> = norm(&got).into_iter().filter(|t| !is_br(t)).collect();
            if got_toks != norm(&want) { ctx.fail(&D, &doc, format!("output {got:?}, the model requires the structure of {want:?}")); }
        }
    }));
    // attributes
    let p = Prod(vec![M3.len(), M3.len(), M3.len(), ATTS.len(), ATTS.len(), ATTS.len(), 2]);
    f.push(Family::new("attributes of lists and items", format!("all triples of {} markers x {}^3 attribute lists, 2 configs", M3.len(), ATTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = [&D, &R][v[6]];
        let at = |k: usize| { let (s, h) = ATTS[v[3 + k]]; (s, if c.restricted { if h.contains("lang") { " lang=\"fr\"" } else { "" } } else { h }) };
        let items: Vec<Item> = (0..3).map(|k| item(M3[v[k]], if M3[v[k]] == "#" && v[3 + k] == 1 { "7" } else { "" }, at(k), WORDS[k], WORDS[k])).collect();
        if let Some(want) = render(&items, &mut Counters::new()) { expect(ctx, c, &source(&items), &want); }
    }));
    // contents and continuation lines
    const SH: &[&[&str]] = &[&["*", "*"], &["#", "#"], &["*", "**"], &["#", "*#"], &["*", "**", "*"], &["#", "##", "#"], &["*", "#"]];
    let p = Prod(vec![SH.len(), CONTENT.len(), CONTENT.len(), CONTENT.len(), 3]);
    f.push(Family::new("contents and continuation lines", format!("{} shapes x {} contents of every item, 3 configs", SH.len(), CONTENT.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let sh = SH[v[0]];
        if sh.len() == 2 && v[3] > 0 { return; }
        let c = [D, R, Cfg::of("x")][v[4]].clone();
        let items: Vec<Item> = sh.iter().enumerate().map(|(k, m)| item(m, "", NOATT, CONTENT[v[1 + k]].0, CONTENT[v[1 + k]].1)).collect();
        let doc = source(&items);
        if c.restricted && doc.contains('<') { return; }
        let mut want = render(&items, &mut Counters::new()).unwrap();
        if c.xhtml { want = want.replace("<br>", "<br />").replace("abbr", "acronym"); }
        expect(ctx, &c, &doc, &want);
    }));
    // surroundings of a list
    const BLOCKS: &[(&str, &str)] = &[("x", "<p>x</p>"), ("p. x", "<p>x</p>"), ("h1. x", "<h1>x</h1>"), ("bq. x", "<blockquote><p>x</p></blockquote>"), ("bc. * x", "<pre><code>* x</code></pre>"), ("|x|", "<table><tr><td>x</td></tr></table>"), ("<b>x</b>", "<p><b>x</b></p>"), ("", "")];
    let s = Seqs::new(M3.len(), 1, if q { 2 } else { 3 });
    let p = Prod(vec![BLOCKS.len(), BLOCKS.len(), s.size() as usize, s.size() as usize]);
    f.push(Family::new("lists between blocks", format!("{0} blocks, a list of 1..={1} items, {0} blocks, another list", BLOCKS.len(), s.hi), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let l = |k: u64, o: usize| -> Vec<Item> { s.decode(k).iter().enumerate().map(|(n, m)| item(M3[*m], "", NOATT, WORDS[n + o], WORDS[n + o])).collect() };
        let (a, b) = (l(v[2] as u64, 0), l(v[3] as u64, 4));
        let mut n = Counters::new();
        if let (Some(ha), Some(hb)) = (render(&a, &mut n), render(&b, &mut n)) {
            let doc = format!("{}\n\n{}\n\n{}\n\n{}", BLOCKS[v[0]].0, source(&a), BLOCKS[v[1]].0, source(&b));
            expect(ctx, &D, &doc, &format!("{}{ha}{}{hb}", BLOCKS[v[0]].1, BLOCKS[v[1]].1));
        }
    }));
    // lists in cells and after text of the same block
    let s = Seqs::new(M3.len(), 1, if q { 4 } else { 5 });
    const PLACE: &[(&str, &str)] = &[("x\n§", "x§"), ("x *s*\ny\n§", "x <strong>s</strong>\ny§"), ("|§|", "<table><tr><td>§</td></tr></table>"), ("|x|§|y|", "<table><tr><td>x</td><td>§</td><td>y</td></tr></table>"), ("|x\n§|y|", "<table><tr><td>x<br>§</td><td>y</td></tr></table>"), ("|_. §|", "<table><tr><th>§</th></tr></table>"), ("|a|\n|§|b|", "<table><tr><td>a</td></tr><tr><td>§</td><td>b</td></tr></table>")];
    f.push(Family::new("lists in other elements", format!("lists of 1..={} items over {} markers in {} places", s.hi, M3.len(), PLACE.len()), s.size() * PLACE.len() as u64, move |i, ctx| {
        let (d, w) = PLACE[(i % PLACE.len() as u64) as usize];
        let items: Vec<Item> = s.decode(i / PLACE.len() as u64).iter().enumerate().map(|(n, m)| item(M3[*m], "", NOATT, WORDS[n], WORDS[n])).collect();
        if let Some(h) = render(&items, &mut Counters::new()) { expect(ctx, &D, &d.replace('§', &source(&items)), &w.replace('§', &h)); }
    }));
    // definition lists with ; and :
    let s = Seqs::new(2 * 7, 0, if q { 3 } else { 4 });
    const DC: &[(&str, &str)] = &[("a", "a"), ("*s* b", "<strong>s</strong> b"), ("a\nb", "a<br>\nb"), ("a : b ; c", "a : b ; c"), ("a\n:b", "a<br>\n:b"), ("\"l\":/u", "<a href=\"/u\">l</a>"), ("@; c@", "<code>; c</code>")];
    f.push(Family::new("terms and definitions", format!("a term followed by all sequences of 0..={} terms and definitions, {} contents, 2 configs", s.hi, DC.len()), s.size() * DC.len() as u64, move |i, ctx| {
        let mut v = vec![((i % DC.len() as u64) * 2) as usize];
        v.extend(s.decode(i / DC.len() as u64));
        let doc = v.iter().map(|x| format!("{} {}", [";", ":"][x % 2], DC[x / 2].0)).collect::<Vec<_>>().join("\n");
        let want = v.iter().map(|x| { let t = ["dt", "dd"][x % 2]; format!("<{t}>{}</{t}>", DC[x / 2].1) }).collect::<String>();
        for c in [D, Cfg::of("xr")] { expect(ctx, &c, &doc, &format!("<dl>{}</dl>", if c.xhtml { want.replace("<br>", "<br />") } else { want.clone() })); }
    }));
    // definition lists with - and :=
    // (source, html of term, html of definition)
    const RT: &[(&str, &str)] = &[("a", "a"), ("a *s* b", "a <strong>s</strong> b"), ("a - b", "a &#8211; b"), ("a\nb", "a<br>\nb"), ("\"l\":/u", "<a href=\"/u\">l</a>"), ("a:b", "a:b"), ("", "")];
    const RD: &[(&str, &str)] = &[("", ""), (" := b", "<dd>b</dd>"), (" := _e_ c", "<dd><em>e</em> c</dd>"), (" := b\nc", "<dd>b<br>\nc</dd>"), (" :=\nb\nc =:", "<dd><p>b<br>\nc</p></dd>"), (" := b =:", "<dd>b</dd>"), (" := b\n-5 c", "<dd>b<br>\n-5 c</dd>"), (":=b", "<dd>b</dd>"), (" := a = b", "<dd>a = b</dd>"), (" := b\n-s- t", "<dd>b<br>\n<del>s</del> t</dd>"), (" :=\n=:", ""), (" := b := c", "<dd>b := c</dd>"), (" := b =: c", "<dd>b =: c</dd>"), (" := b :=", "<dd>b</dd>")];
    const RA: &[(&str, &str)] = &[NOATT, ("(k)", " class=\"k\""), ("[fr]{color:red}", " lang=\"fr\" style=\"color:red;\""), (".", "")];
    let ra = if q { 2 } else { RA.len() };
    let n = RT.len() * RD.len() * ra;
    let s = Seqs::new(n, 1, 2);
    let run = move |v: Vec<usize>, c: &Cfg, ctx: &mut Ctx| {
        let (mut doc, mut want, mut any) = (vec![], String::new(), false);
        for (k, x) in v.iter().enumerate() {
            let (t, d, a) = (RT[x % RT.len()], RD[x / RT.len() % RD.len()], RA[x / RT.len() / RD.len()]);
            any |= !d.0.is_empty();
            // part of the URL
            if t.0.ends_with("/u") && d.0.starts_with(':') { return; }
            let at = if c.restricted { if a.1.contains("lang") { " lang=\"fr\"" } else { "" } } else { a.1 };
            if k == 0 { want += &format!("<dl{}>", if d.1.is_empty() { at } else { "" }); }
            doc.push(format!("-{} {}{}", a.0, t.0, d.0));
            want += &if t.0.is_empty() { d.1.to_string() } else { format!("<dt{at}>{}</dt>{}", t.1, d.1) };
        }
        if !any { return; }
        want += "</dl>";
        if c.xhtml { want = want.replace("<br>", "<br />"); }
        expect(ctx, c, &doc.join("\n"), &want);
    };
    f.push(Family::new("definition lists", format!("all sequences of 1..=2 of {n} entries ({} terms x {} definitions x {} attribute lists), 2 configs", RT.len(), RD.len(), ra), s.size() * 2, move |i, ctx| run(s.decode(i / 2), &[D, Cfg::of("xr")][(i % 2) as usize], ctx)));
    let s = Seqs::new(RD.len(), 3, if q { 4 } else { 5 });
    f.push(Family::new("long definition lists", format!("all sequences of 3..={} of {} entries", s.hi, RD.len()), s.size(), move |i, ctx| run(s.decode(i).iter().map(|x| x * RT.len()).collect(), &D, ctx)));
    f.push(many_family(q, &[("* a№", "\t<li>a№</li>")], ("\n", "\n"), ("§", "<ul>\n§\n</ul>"), vec![D]));
    f.push(many_family(q, &[("# a№\n# b", "<ol>\n\t<li>a№</li>\n\t<li>b</li>\n</ol>"), ("#5 a№\n## b", "<ol start=\"5\">\n\t<li>a№\n\t<ol>\n\t\t<li>b</li>\n\t</ol></li>\n\t</ol>"), ("- a№ := b", "<dl>\n\t<dt>a№</dt>\n\t<dd>b</dd>\n</dl>")], ("\n\n", "\n\n"), ("§", "§"), vec![D]));
    f.push(huge_family(&[(66000, "# a", "\n", "\t<li>a</li>", "\n", "<ol>\n", "\n</ol>"), (33000, "* a\n** b", "\n", "\t<li>a\n\t<ul>\n\t\t<li>b</li>\n\t</ul></li>", "\n", "<ul>\n", "\n\t</ul>")], D));
    f.push(crate::space::long_family(&[("* §\n* ¤", "<ul>\n\t<li>§</li>\n\t<li>¤</li>\n</ul>"), ("# ¤\n## ¤", "<ol>\n\t<li>¤\n\t<ol>\n\t\t<li>¤</li>\n\t</ol></li>\n\t</ol>"), ("- ¤ := ¤", "<dl>\n\t<dt>¤</dt>\n\t<dd>¤</dd>\n</dl>")], vec![D, R]));
    Property { id: "C16", level: "model_checking", rule: "the document holds a list", assumptions: vec!["the items of one list are written with the same marker", "blanks between tags do not matter"], families: f }
}
