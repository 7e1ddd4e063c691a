//! C21: typography is applied as documented and only to text.
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};

/// Typographic units: (source, output). Those in SIGNS depend on what stands before.
const TOK: &[(&str, &str)] = &[
    ("word", "word"), ("été", "été"), ("it's", "it&#8217;s"), ("l'été", "l&#8217;été"), ("dogs'", "dogs&#8217;"), ("'tis", "&#8216;tis"), ("'a'", "&#8216;a&#8217;"), ("\"a\"", "&#8220;a&#8221;"), ("\"two", "&#8220;two"), ("words\"", "words&#8221;"), ("\"'a' b\"", "&#8220;&#8216;a&#8217; b&#8221;"), ("(\"a\")", "(&#8220;a&#8221;)"), ("('a b')", "(&#8216;a b&#8217;)"), ("[\"a\"]", "[&#8220;a&#8221;]"), ("\"a,\"", "&#8220;a,&#8221;"), ("\"a\".", "&#8220;a&#8221;."),
    ("a--b", "a&#8212;b"), ("a -- b", "a &#8212; b"), ("a - b", "a &#8211; b"), ("well-known", "well-known"), ("wait...", "wait&#8230;"), ("...so", "&#8230;so"), ("a...b", "a&#8230;b"), ("a..b", "a..b"), ("2 x 3", "2 &#215; 3"), ("2x3", "2&#215;3"), ("a2x3", "a2x3"), ("0x1F", "0&#215;1F"), ("2X3", "2&#215;3"), ("2 x.5", "2 &#215;.5"), ("10x20x30", "10&#215;20&#215;30"), ("2 x -3.5", "2 &#215; -3.5"), ("2 x a", "2 x a"), ("a x 3", "a x 3"), ("8' x 4'", "8&#8217; &#215; 4&#8217;"), ("8\" x 4\"", "8&#8221; &#215; 4&#8221;"), ("(2) x (3)", "(2) &#215; (3)"), ("2 x $3", "2 &#215; $3"),
    ("(1/2)", "&#189;"), ("[1/4]", "&#188;"), ("(3/4)", "&#190;"), ("(o)", "&#176;"), ("5[o]", "5&#176;"), ("(+/-)", "&#177;"), ("1/2", "1/2"), ("(2/3)", "(2/3)"), ("R&D", "R&amp;D"), ("ABC", "<span class=\"caps\">ABC</span>"), ("ÉTÉS", "<span class=\"caps\">ÉTÉS</span>"), ("AB", "AB"), ("AbC", "AbC"), ("ABC's", "<span class=\"caps\">ABC</span>&#8217;s"), ("DVDs", "<span class=\"caps\">DVD</span>s"), ("ABC(Some 'q')", "<abbr title=\"Some &#8216;q&#8217;\"><span class=\"caps\">ABC</span></abbr>"), ("A1B(t)", "<abbr title=\"t\">A1B</abbr>"), ("(ABC)", "(<span class=\"caps\">ABC</span>)"),
];
const SIGNS: &[(&str, &str)] = &[("(c)", "&#169;"), ("(C)", "&#169;"), ("[r]", "&#174;"), ("(R)", "&#174;"), ("(tm)", "&#8482;"), ("[TM]", "&#8482;"), ("'88", "&#8217;88"), ("'90s", "&#8217;90s")];
/// (source, output): what stands between two units
const SEP: &[(&str, &str)] = &[(" ", " "), ("\n", "<br>\n"), (" - ", " &#8211; "), (" -- ", " &#8212; "), (", ", ", "), ("... ", "&#8230; "), (" & ", " &amp; "), (" / ", " / "), ("; ", "; "), ("--", "&#8212;")];

fn unit(k: usize) -> (&'static str, &'static str) { if k < TOK.len() { TOK[k] } else { SIGNS[k - TOK.len()] } }
fn judge(ctx: &mut Ctx, c: &Cfg, doc: &str, want: &str) {
    let mut want = want.to_string();
    if c.xhtml { want = want.replace("<br>", "<br />").replace("<abbr", "<acronym").replace("</abbr", "</acronym"); }
    ctx.expect(c, doc, &want);
}
/// The text of units and separators, or None where the grammar sees more than the parts.
fn compose(units: &[usize], seps: &[usize]) -> Option<(String, String)> {
    let (mut d, mut h) = (String::new(), String::new());
    for (i, k) in units.iter().enumerate() {
        if i > 0 {
            let s = SEP[seps[i - 1]];
            // an ellipsis after dots, a closing quote before dots and dashes after a blank are other units
            if s.0.starts_with('.') && (d.ends_with('.') || d.ends_with('\'')) { return None; }
            d += s.0;
            h += s.1;
        }
        let (s, t) = unit(*k);
        if *k >= TOK.len() {
            let before = d.chars().last();
            let ok = if s.starts_with('\'') { before.is_some_and(char::is_whitespace) } else { before.is_none() || before.is_some_and(|c| c.is_whitespace() || c.is_alphanumeric()) };
            if !ok {
                if !s.starts_with('\'') { return None; }
                h += &t.replace("&#8217;", "&#8216;");
                d += s;
                continue;
            }
        }
        d += s;
        h += t;
    }
    // two of these make an inserted phrase, brackets of one line a link or a table
    if d.matches("(+").count() > 1 || (d.contains("(+") && d.contains(" -3")) { return None; }
    // two quotes between two signs: neither side is a word
    if d.contains("--\"'") { return None; }
    // this is an entity
    if d.contains("R&D;") { return None; }
    Some((d, h))
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let n = TOK.len() + SIGNS.len();
    let mut f = vec![];
    let cfgs = [D, R, Cfg::of("x")];
    let p = Prod(vec![n, n, SEP.len(), 3]);
    f.push(Family::new("pairs of units", format!("all pairs of {n} typographic units x {} separators, 3 configs", SEP.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let Some((d, h)) = compose(&v[..2], &v[2..3]) else { return };
        ctx.mark_nontrivial(&d);
        judge(ctx, &cfgs[v[3]], &d, &format!("<p>{h}</p>"));
    }));
    let few: Vec<usize> = ["word", "it's", "'a'", "\"a\"", "\"two", "words\"", "(\"a\")", "...so", "2x3", "(1/2)", "R&D", "ABC", "ABC(Some 'q')", "(c)", "'88", "well-known"].iter().map(|s| (0..n).find(|k| unit(*k).0 == *s).unwrap()).collect();
    let m = few.len();
    let len = if q { 3 } else { 4 };
    let p = Prod([vec![m; len], vec![if q { 4 } else { 5 }; len - 1]].concat());
    f.push(Family::new("sequences of units", format!("all sequences of {len} of {m} units x separators {:?}", SEP[..if q { 4 } else { 5 }].iter().map(|s| s.0).collect::<Vec<_>>()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let u: Vec<usize> = v[..len].iter().map(|x| few[*x]).collect();
        let Some((d, h)) = compose(&u, &v[len..]) else { return };
        ctx.mark_nontrivial(&d);
        judge(ctx, &D, &d, &format!("<p>{h}</p>"));
    }));
    // in every element
    let p = Prod(vec![n, n, HOSTS.len(), 3]);
    f.push(Family::new("units in every element", format!("all pairs of {n} units x {} elements, 3 configs", HOSTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let host = HOSTS[v[2]];
        let c = [D, R, Cfg::of("x")][v[3]].clone();
        if c.restricted && host.0.starts_with("(k)") { return; }
        let pre = if host.0 == "a §" { "a " } else if host.0 == "a\n§\nb" { "a\n" } else if host.0.contains("fn1. §") { " " } else { "" };
        // the year of a footnote or a cell: what stands before it is the tag's
        let Some((d, mut h)) = compose(&v[..2], &[0]) else { return };
        if v[0] >= TOK.len() && !pre.is_empty() && unit(v[0]).0.starts_with('\'') { h = h.replacen("&#8216;", "&#8217;", 1); }
        if host.0.contains("- t :=") && d.contains('\n') { return; }
        let (d, h) = fill(host, &d, &h);
        ctx.mark_nontrivial(&d);
        judge(ctx, &c, &d, &h);
    }));
    // in phrases and links
    let p = Prod(vec![n, PHRASES.len() + 4, 4]);
    f.push(Family::new("units in phrases and links", format!("{n} units x {} phrases and links x 4 surroundings", PHRASES.len() + 4), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let Some((s, t)) = compose(&[v[0]], &[]) else { return };
        let ph = if v[1] < PHRASES.len() { PHRASES[v[1]] } else { [("\"x § y\":/u", "<a href=\"/u\">x § y</a>"), ("\"x § y(t)\":http://h/", "<a href=\"http://h/\" title=\"t\">x § y</a>"), ("[_x § y_]", "<em>x § y</em>"), ("*_x § y_*", "<strong><em>x § y</em></strong>")][v[1] - PHRASES.len()] };
        let ph = if v[1] < PHRASES.len() { (ph.0.replace('§', "x § y"), ph.1.replace('§', "x § y")) } else { (ph.0.to_string(), ph.1.to_string()) };
        // the marker of the phrase itself, and quotes within a link
        let marker = ph.0.chars().next().unwrap();
        if s.contains(marker) && marker != '"' && marker != '[' { return; }
        if ph.0.contains("\":") && (s.contains('"') || s.contains(['(', '['])) { return; }
        let t = if v[0] >= TOK.len() && s.starts_with('\'') { t.replace("&#8216;", "&#8217;") } else { t };
        let around = [("§", "§"), ("a § b", "a § b"), ("\"q\" -- §, b", "&#8220;q&#8221; &#8212; §, b"), ("it's § - b", "it&#8217;s § &#8211; b")][v[2]];
        let (d, h) = (ph.0.replace('§', &s), ph.1.replace('§', &t));
        let (d, h) = fill(around, &d, &h);
        ctx.mark_nontrivial(&d);
        judge(ctx, &D, &d, &format!("<p>{h}</p>"));
    }));
    // quoted quotes: a quote on its own between brackets or quotes
    const OPEN: &[char] = &['"', '\'', '(', '{', '[', '«', '»', '‹', '›', '„', '‚', '‘', '”'];
    const SHUT: &[char] = &['"', '\'', ')', '}', ']', '»', '«', '›', '‹', '“', '‘', '’', '“'];
    const QUOTED: &[(&str, &str)] = &[("", ""), ("\"", "&quot;"), ("\"t", "&#8220;t"), ("\"two w", "&#8220;two w"), ("\"été", "&#8220;été"), ("\"a - b", "&#8220;a &#8211; b")];
    let p = Prod(vec![OPEN.len(), QUOTED.len(), 3, HOSTS.len() + 11]);
    f.push(Family::new("quoted quotes", format!("{} pairs of quotes and brackets x {} contents x 3 configs x {} surroundings", OPEN.len(), QUOTED.len(), HOSTS.len() + 11), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (o, s) = (OPEN[v[0]], SHUT[v[0]]);
        let c = [D, R, Cfg::of("x")][v[2]].clone();
        let (qs, qh) = QUOTED[v[1]];
        let h = |c: char, first: bool| match c { '"' => if first { "&#8220;" } else { "&#8221;" }.to_string(), '\'' => if first { "&#8216;" } else { "&#8217;" }.to_string(), c => c.to_string() };
        const AROUND: [(&str, &str); 11] = [("a § b", "<p>a § b</p>"), ("e's § it's", "<p>e&#8217;s § it&#8217;s</p>"), ("a § b § c", "<p>a § b § c</p>"), ("a - b § c -- d", "<p>a &#8211; b § c &#8212; d</p>"), ("\"q\" § it's", "<p>&#8220;q&#8221; § it&#8217;s</p>"), ("a -- § - b", "<p>a &#8212; § &#8211; b</p>"), ("* § b", "<ul>\n\t<li>§ b</li>\n</ul>"), ("# a\n# § b\n# c", "<ol>\n\t<li>a</li>\n\t<li>§ b</li>\n\t<li>c</li>\n</ol>"), ("* a\n** § b\n* c", "<ul>\n\t<li>a\n\t<ul>\n\t\t<li>§ b</li>\n\t</ul></li>\n\t<li>c</li>\n</ul>"), ("*s* § _e_", "<p><strong>s</strong> § <em>e</em></p>"), ("; t\n: § b", "<dl>\n\t<dt>t</dt>\n\t<dd>§ b</dd>\n</dl>")];
        let around = if v[3] < HOSTS.len() { ("a § b", "a § b") } else { AROUND[v[3] - HOSTS.len()] };
        let (d, h) = fill(around, &format!("{o}{qs}{s}"), &format!("{}{qh}{}", h(o, true), h(s, false)));
        let (d, h) = if v[3] < HOSTS.len() { let host = HOSTS[v[3]]; if c.restricted && host.0.starts_with("(k)") { return; } fill(host, &d, &h) } else { (d, h) };
        ctx.mark_nontrivial(&d);
        judge(ctx, &c, &d, &h);
    }));
    // every form of every sign
    let mut ex: Vec<(String, String)> = vec![];
    for (o, s) in [('(', ')'), ('[', ']'), ('(', ']'), ('[', ')')] {
        for (n, h) in [("1/2", "&#189;"), ("1/4", "&#188;"), ("3/4", "&#190;"), ("o", "&#176;"), ("+/-", "&#177;")] {
            for w in ["", "5", "x"] { ex.push((format!("{w}{o}{n}{s}"), format!("{w}{h}"))); }
        }
        for (n, h) in [("c", "&#169;"), ("r", "&#174;"), ("tm", "&#8482;"), ("C", "&#169;"), ("R", "&#174;"), ("TM", "&#8482;"), ("Tm", "&#8482;"), ("tM", "&#8482;")] {
            for (a, b) in [("word", ""), ("été", ""), ("1", ""), ("word ", ""), ("a, ", ""), ("word", " x"), ("word ", "1"), ("x ", ". y")] { ex.push((format!("{a}{o}{n}{s}{b}"), format!("{a}{h}{b}"))); }
        }
    }
    for (q, l, r) in [('"', "&#8220;", "&#8221;"), ('\'', "&#8216;", "&#8217;")] {
        for p in ["!", ".", ",", ";", "?", ")", "/", "-b", "%", "#", "&", "]", "}", "~", "=", "+"] { ex.push((format!("{q}a b{q}{p}"), format!("{l}a b{r}{p}", p = p.replace('&', "&amp;")))); }
        for (o, s) in [('(', ')'), ('[', ']'), ('{', '}')] {
            for t in ["a", "a b", "é", "1"] { ex.push((format!("{o}{q}{t}{q}{s}"), format!("{o}{l}{t}{r}{s}"))); ex.push((format!("x {o}{q}{t}{q} z{s}"), format!("x {o}{l}{t}{r} z{s}"))); }
        }
    }
    for a in ["a", "é", "1", "e\u{301}", "Z", "(a)", "日", "٣"] { for b in ["s", "t", "é", "1", "日"] { ex.push((format!("{a}'{b}"), format!("{a}&#8217;{b}"))); } }
    for y in ["88", "5", "1990", "90s", "0é"] { ex.push((format!("x '{y}"), format!("x &#8217;{y}"))); ex.push((format!("x '{y}, z"), format!("x &#8217;{y}, z"))); ex.push((format!("x '{y}. z"), format!("x &#8217;{y}. z"))); ex.push((format!("x '{y}' z"), format!("x &#8216;{y}&#8217; z"))); ex.push((format!("x '{y}.' z"), format!("x &#8216;{y}.&#8217; z"))); }
    for x in ["x", "X"] {
        for (l, r) in [("2", "3"), ("10", "20"), ("2", "-3"), ("2", "+3"), ("2", ".5"), ("2", "1.5"), ("2", "£3"), ("2", "€ 3"), ("2", "¥3"), ("[2]", "[3]"), ("(2)", "(3)"), ("2", "(3)"), ("2'", "3"), ("2\"", "3")] {
            let g = |s: &str| s.replace('\'', "&#8217;").replace('"', "&#8221;");
            ex.push((format!("{l} {x} {r}"), format!("{} &#215; {r}", g(l))));
            if !l.ends_with(['\'', '"', ']']) { ex.push((format!("{l}{x}{r}"), format!("{}&#215;{r}", g(l)))); }
        }
    }
    for (a, b) in [("a....", "a&#8230;."), ("wait ... what", "wait &#8230; what"), ("a --b", "a &#8212;b"), ("a-- b", "a&#8212; b"), ("a---b", "a&#8212;-b"), ("a -b", "a -b"), ("a- b", "a- b"), ("a & b", "a &amp; b"), ("a &b", "a &amp;b"), ("a& b", "a&amp; b")] { ex.push((a.into(), b.into())); }
    for t in ["t", "two words", "é", "1", "a-b"] { for n in ["ABC", "A12", "ABCDE", "ÉTÉ", "ЖЗИ", "AB1C2"] { let caps = n.chars().all(char::is_uppercase); ex.push((format!("{n}({t})"), if caps { format!("<abbr title=\"{t}\"><span class=\"caps\">{n}</span></abbr>") } else { format!("<abbr title=\"{t}\">{n}</abbr>") })); } }
    for n in ["ABC", "ABCD", "ÉTÉ", "ЖЗИ"] {
        let h = format!("<span class=\"caps\">{n}</span>");
        for (a, b) in [("", ""), ("(", ")"), ("x;", ""), ("x-", ""), ("", "s"), ("", "é"), ("", "!"), ("", "."), ("", ","), ("", "?"), ("", "-x"), ("", "/x"), ("", "&#8217;s"), ("", "%"), ("x ", " y"), ("<b>", "</b>")] { ex.push((format!("{a}{n}{}", b.replace("&#8217;", "'")), format!("{a}{h}{b}"))); }
    }
    for n in ["AB", "ABc", "aBC", "A1C", "xABC", "AB_", "1ABC", "AbCD"] { ex.push((n.into(), n.into())); ex.push((format!("x {n} y"), format!("x {n} y"))); }
    const EXA: &[(&str, &str)] = &[("§", "§"), ("a § b", "a § b"), ("*a* § _b_", "<strong>a</strong> § <em>b</em>"), ("a\n§\nb", "a<br>\n§<br>\nb"), ("*a § b*", "<strong>a § b</strong>"), ("\"a § b\":/u", "<a href=\"/u\">a § b</a>")];
    let p = Prod(vec![ex.len(), EXA.len() + HOSTS.len(), 3]);
    f.push(Family::new("every form of every sign", format!("{} spellings of signs, quotes, years, dimensions, dashes, abbreviations and capitals x {} surroundings, 3 configs", ex.len(), EXA.len() + HOSTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (s, h) = &ex[v[0]];
        let c = [D, R, Cfg::of("x")][v[2]].clone();
        if c.restricted && (s.contains('<') || v[1] >= EXA.len() && HOSTS[v[1] - EXA.len()].0.starts_with("(k)")) { return; }
        let (d, h) = if v[1] < EXA.len() {
            if EXA[v[1]].0.contains("\":/u") && s.contains(['"', '(', '[', '\'', '{', '<']) { return; }
            let (d, h) = fill(EXA[v[1]], s, h);
            (d, format!("<p>{h}</p>"))
        } else { fill(HOSTS[v[1] - EXA.len()], &format!("a {s} b"), &format!("a {h} b")) };
        ctx.mark_nontrivial(&d);
        judge(ctx, &c, &d, &h);
    }));
    // not in code, tags, attributes and URLs
    const NOT: &[(&str, &str)] = &[
        ("a @§@ b", "<p>a <code>§</code> b</p>"), ("bc. §", "<pre><code>§</code></pre>"), ("a <code>§</code> b", "<p>a <code>§</code> b</p>"), ("a ==§== b", "<p>a § b</p>"), ("notextile. §", "§"), ("a <notextile>§</notextile> b", "<p>a § b</p>"), ("a <b title='§'>x</b> b", "<p>a <b title='§'>x</b> b</p>"), ("a <!-- § --> b", "<p>a <!-- § --> b</p>"), ("<pre>§</pre>", "<pre>§</pre>"),
        ("p{a:§}. x", "<p style=\"a:§;\">x</p>"), ("*{a:§}x*", "<p><strong style=\"a:§;\">x</strong></p>"), ("|{a:§}. x|", "\t<table>\n\t\t<tr>\n\t\t\t<td style=\"a:§;\">x</td>\n\t\t</tr>\n\t</table>"), ("* a\n*{a:§} b", "<ul>\n\t<li>a</li>\n\t<li style=\"a:§;\">b</li>\n</ul>"), ("!{a:§}i.png!", "<p><img alt=\"\" src=\"i.png\" style=\"a:§;\" /></p>"), ("\"{a:§}x\":/u", "<p><a href=\"/u\" style=\"a:§;\">x</a></p>"),
        ("\"x\":/u/§", "<p><a href=\"/u/§\">x</a></p>"), ("!/u/§.png!", "<p><img alt=\"\" src=\"/u/§.png\" /></p>"), ("!i.png!:/u/§", "<p><a href=\"/u/§\"><img alt=\"\" src=\"i.png\" /></a></p>"), ("\"x\":al\n\n[al]/u/§", "<p><a href=\"/u/§\">x</a></p>"), ("*:/u/§ x*", "<p><strong cite=\"/u/§\">x</strong></p>"), ("bq.:/u/§ x", "<blockquote cite=\"/u/§\">\n\t<p>x</p>\n</blockquote>"),
    ];
    let k = n + SEP.len();
    let p = Prod(vec![k, NOT.len(), 3]);
    f.push(Family::new("units outside of text", format!("{k} units and separators x {} places that are not text x 3 kinds of output", NOT.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let s = if v[0] < n { unit(v[0]).0 } else { SEP[v[0] - n].0 };
        let host = NOT[v[1]];
        if s.contains('\n') { return; }
        // URLs end at blanks, quotes and brackets; a style at its bracket; code is escaped
        let url = host.0.contains("/u/§");
        if url && s.contains([' ', '"', '\'', '(', ')', '[', ']', '\n', '&', 'É', 'é']) { return; }
        if url && (s.ends_with('.') || s.ends_with(',') || s.contains("..") ) { return; }
        if host.0.contains("\"{a") && s.contains('"') || host.0.contains("'§'") && s.contains('\'') || host.0.contains("a ==§") && (s.starts_with(' ') || s.ends_with(' ')) || host.0.starts_with("a @") && (s.starts_with(' ') || s.ends_with(' ')) { return; }
        if host.0.contains("<!--") && s.contains("--") { return; }
        let style = host.0.contains("{a:§}");
        if style && (s.contains(';') || s.trim() != s) { return; }
        let t = if host.0.contains('@') || host.0.starts_with("bc") || host.0.starts_with("a <code") || host.0.starts_with("<pre") { esc(s).replace('"', "&quot;") } else if style { s.replace('&', "&amp;").replace('"', "&quot;") } else { s.to_string() };
        let c = [D, Cfg::of("x"), Cfg::of("e")][v[2]].clone();
        let (d, mut h) = fill(host, s, &t);
        if c.rel && h.contains("<a ") { h = h.replace("style=", "rel=\"nofollow\" style="); if !h.contains("rel=") { h = h.replace("\">x</a>", "\" rel=\"nofollow\">x</a>").replace("\"><img", "\" rel=\"nofollow\"><img"); } }
        ctx.mark_nontrivial(&d);
        if let Some(got) = ctx.must(&c, &d) {
            ctx.validated += 1;
            // whether a quote in code is escaped does not matter here
            if tokenize(&got) != tokenize(&h) { ctx.fail(&c, &d, format!("output {got:?}, the model requires {h:?}")); }
        }
    }));
    Property { id: "C21", level: "model_checking", rule: "the document holds a typographic unit", assumptions: vec!["units are separated by blanks, punctuation or dashes", "a year is abbreviated after a blank only"], families: f }
}
