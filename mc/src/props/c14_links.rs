//! C14: links get the right target, text, title and surroundings.
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};

/// Link texts: (text, html)
const TEXT: &[(&str, &str)] = &[
    ("l", "l"), ("two words", "two words"), ("*s*", "<strong>s</strong>"), ("a _b_ c", "a <em>b</em> c"), ("it's", "it&#8217;s"), ("a & b", "a &amp; b"), ("é", "é"), ("a (b) c", "a (b) c"),
    ("!i.png!", "<img alt=\"\" src=\"i.png\" />"), ("!i.png(t)!", "<img alt=\"t\" src=\"i.png\" title=\"t\" />"), ("a @c@ b", "a <code>c</code> b"), ("ABCD", "<span class=\"caps\">ABCD</span>"), ("a\nb", "a<br>\nb"), ("say \"hi\" now", "say &#8220;hi&#8221; now"), ("say \"hi\"", "say &#8220;hi&#8221;"), ("\"hi\"", "&#8220;hi&#8221;"),
    ("1.", "1."), ("a, b!", "a, b!"), ("*", "*"), ("x *s* ==*r*== y", "x <strong>s</strong> *r* y"), ("a -- b", "a &#8212; b"), ("http://t/", "http://t/"), ("a:b", "a:b"), ("a.b/c", "a.b/c"), ("<b>h</b>", "<b>h</b>"), ("[x]y", ""), ("$x", "$x"), ("\u{130}x", "\u{130}x"),
];
/// URLs as written and as they come out.
const URL: &[(&str, &str)] = &[
    ("http://h.com", "http://h.com/"), ("http://h.com/a", "http://h.com/a"), ("/u", "/u"), ("u.html", "u.html"), ("../u", "../u"), ("#f", "#f"), ("?q=1", "?q=1"), ("/u?a=b&c=d#e", "/u?a=b&amp;c=d#e"),
    ("https://h.com/a?b=c&d=e#f", "https://h.com/a?b=c&amp;d=e#f"), ("HTTP://H.com/A", "http://h.com/A"), ("http://h.com/ü", "http://h.com/%C3%BC"), ("http://h.com/a(b)", "http://h.com/a(b)"), ("http://h.com/a_(b)_c", "http://h.com/a_(b)_c"), ("/a(b(c)d)", "/a(b(c)d)"),
    ("http://h.com/a[b]", "http://h.com/a[b]"), ("http://h.com/?q[]=1&q[]=2", "http://h.com/?q[]=1&amp;q[]=2"), ("http://h.com/a,b;c", "http://h.com/a,b;c"), ("http://h.com/a.b.c", "http://h.com/a.b.c"), ("http://h.com:80/x", "http://h.com/x"), ("http://h.com/%41%20", "http://h.com/%41%20"),
    ("mailto:a@b.c", "mailto:a@b.c"), ("ftp://h.com/x", "ftp://h.com/x"), ("http://h.com/~u/-_-/", "http://h.com/~u/-_-/"), ("http://h.com/a--b", "http://h.com/a--b"), ("/ABCD/x", "/ABCD/x"), ("/2x3/a...b", "/2x3/a...b"), ("http://u@h.com:81/a:b", "http://u@h.com:81/a:b"), ("a/b_c_d", "a/b_c_d"), ("+x+y", "+x+y"), ("http://h.com/?x=-a-&y=+b+", "http://h.com/?x=-a-&amp;y=+b+"), ("u", "u"),
    ("http://h.com/a?b=%26&amp;c", "http://h.com/a?b=%26&amp;amp;c"),
];
const TRAIL: &[(&str, &str)] = &[
    ("", ""), (" x", " x"), (".", "."), (", x", ", x"), ("!", "!"), ("? x", "? x"), (":", ":"), ("; x", "; x"), ("...", "&#8230;"), ("?!", "?!"), (".\nx", ".<br>\nx"), ("\nx", "<br>\nx"), (" \"q\"", " &#8220;q&#8221;"), (" *s*", " <strong>s</strong>"),
    ("\"", "&#8221;"), ("' x", "&#8217; x"), (" -- x", " &#8212; x"), (" (x)", " (x)"), (".,;:!?", ".,;:!?"), (" [x]", " [x]"), (" \"", " &#8220;"),
];
const PRE: &[(&str, &str)] = &[("", ""), ("x ", "x "), ("x: ", "x: "), ("x\n", "x<br>\n"), ("\"q\" ", "&#8220;q&#8221; "), ("\"q r\", ", "&#8220;q r&#8221;, "), ("he said \"hi\" and ", "he said &#8220;hi&#8221; and "), ("*s* ", "<strong>s</strong> "), ("it's ", "it&#8217;s "), ("x, ", "x, "), ("<b>x</b> ", "<b>x</b> "), ("x -- ", "x &#8212; "), ("@c@ ", "<code>c</code> "), ("6\" ", "6&#8221; ")];
/// Attributes: (text, class, id, lang, style)
const ATTS: &[(&str, &str, &str, &str, &str)] = &[
    ("", "", "", "", ""), ("(k)", "k", "", "", ""), ("(#i)", "", "i", "", ""), ("(k l#i)", "k l", "i", "", ""), ("{color:red}", "", "", "", "color:red;"), ("[fr]", "", "", "fr", ""), ("(k){color:red;margin:0}[fr]", "k", "", "fr", "color:red; margin:0;"), ("[fr](k)", "k", "", "fr", ""), ("{color:red}(#i)", "", "i", "", "color:red;"),
];
const TITLE: &[(&str, &str)] = &[("", ""), ("(t)", " title=\"t\""), (" (two words)", " title=\"two words\""), ("(a & b)", " title=\"a &amp; b\""), ("(it's)", " title=\"it's\""), ("(ü -- *x*)", " title=\"ü -- *x*\""), ("(http://t/)", " title=\"http://t/\""), ("(<b>)", " title=\"&lt;b&gt;\"")];

fn anchor(a: usize, href: &str, title: &str, html: &str, c: &Cfg) -> String {
    let (_, class, id, lang, style) = ATTS[a];
    let at = |n: &str, v: &str, drop: bool| if v.is_empty() || (drop && c.restricted) { String::new() } else { format!(" {n}=\"{v}\"") };
    format!("<a{} href=\"{href}\"{}{}{}{}{title}>{html}</a>", at("class", class, true), at("id", id, true), at("lang", lang, false), if c.rel { " rel=\"nofollow\"" } else { "" }, at("style", style, true))
}

/// What does not go together.
fn odd(t: &str, title: &str, _u: &str, trail: &str, c: &Cfg) -> bool {
    t == "[x]y" // an attribute
        || (t == "a (b) c" && false)
        || (c.restricted && (t.contains('<') || trail.contains('<')))
        || (t.contains('!') && trail.contains('!') && title.is_empty() && false)
}

/// What is linked is what was typed, in the places given (document, element, attribute).
pub fn targets(q: bool, places: &'static [(&'static str, &'static str, &'static str)]) -> Family {
    const START: &[&str] = &["", "/", "./", "../", "a/b/", "//h.com/", "http://h.com", "http://h.com/p/../", "https://u:v@H.com:8080/", "ftp://h.com/", "mailto:m@h.com"];
    const UP: &[&str] = &["a", "/", "../", "?", "#", "&", "=", "ü", "%41", "%", "~", "@", ":", "+", "$", "-x-", "_", "1", "日", "`", ",", "(b)", "\\", "{", ";", "%2F", "&amp;"];
    let s = Seqs::new(UP.len(), 0, if q { 2 } else { 3 });
    let p = Prod(vec![places.len(), START.len(), s.size() as usize, 2]);
    Family::new("URLs lead where they were typed to lead", format!("{} beginnings x all sequences of 0..={} of {} parts x {} places, 2 configs", START.len(), s.hi, UP.len(), places.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (t, name, att) = places[v[0]];
        let c = [&D, &R][v[3]];
        let src = START[v[1]].to_string() + &s.decode(v[2] as u64).iter().map(|x| UP[*x]).collect::<String>() + "z";
        // aliases are absolute or start with a slash
        if t.starts_with("[n]") && !(src.starts_with('/') || v[1] > 5) { return; }
        // these belong to the image
        if t.contains("!§") && (src.contains("(b)") || src.starts_with('=')) { return; }
        if let Ok(u) = url::Url::parse(&src) { if !["http", "https", "ftp", "mailto"].contains(&u.scheme()) { return; } }
        let bases = ["http://base.org/d/e?q#f", "https://other.net:81/x/y/"].map(|b| url::Url::parse(b).unwrap());
        if bases.iter().any(|b| b.join(&src).is_err()) { return; }
        let doc = t.replace('§', &src);
        ctx.mark_nontrivial(&doc);
        let Some(got) = ctx.must(c, &doc) else { return };
        ctx.validated += 1;
        let urls: Vec<String> = tokenize(&got).into_iter().filter_map(|t| match t { Tok::Open { name: n, attrs, .. } if n == name => attrs.into_iter().find(|a| a.0 == att).map(|a| a.1), _ => None }).collect();
        if urls.len() != 1 { ctx.fail(c, &doc, format!("output {got:?}, one {att} required")); return; }
        for b in &bases {
            let want = b.join(&src).unwrap();
            if b.join(&urls[0]).as_ref() != Ok(&want) { ctx.fail(c, &doc, format!("output {got:?}: seen from {b} it leads to {:?}, WANT {want}", b.join(&urls[0]).map(|u| u.to_string()))); return; }
        }
    })
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let cfgs = [D, R, Cfg::of("e"), Cfg::of("re"), Cfg::of("xe")];
    let xh = |c: &Cfg, s: String| if c.xhtml { s.replace("<br>", "<br />") } else { s };
    // text x url x trailing text
    let p = Prod(vec![TEXT.len(), URL.len(), TRAIL.len()]);
    let cs = cfgs.clone();
    f.push(Family::new("text, URL and trailing text", format!("{} texts x {} URLs x {} trailing texts, {} configs", TEXT.len(), URL.len(), TRAIL.len(), if q { 2 } else { 5 }), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let ((t, h), (u, hu), (r, hr)) = (TEXT[v[0]], URL[v[1]], TRAIL[v[2]]);
        for c in if q { &cs[..2] } else { &cs[..] } {
            if odd(t, "", u, r, c) { continue; }
            let doc = format!("x \"{t}\":{u}{r}");
            ctx.mark_nontrivial(&doc);
            ctx.expect(c, &doc, &xh(c, format!("<p>x {}{hr}</p>", anchor(0, hu, "", h, c))));
        }
    }));
    // attributes, titles, texts
    let p = Prod(vec![ATTS.len(), TITLE.len(), TEXT.len(), 3]);
    let cs = cfgs.clone();
    f.push(Family::new("attributes, titles and texts", format!("{} attribute lists x {} titles x {} texts x 3 URLs, 5 configs", ATTS.len(), TITLE.len(), TEXT.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let ((t, h), (ti, hti), (u, hu)) = (TEXT[v[2]], TITLE[v[1]], URL[[1, 2, 8][v[3]]]);
        // where the quotes of such a text start is a guess of the grammar
        if t.ends_with('"') && (v[0] > 0 || v[1] > 0) { return; }
        if t.contains('!') && !ti.is_empty() && t.starts_with('!') && ti.starts_with(' ') { return; }
        for c in &cs {
            if odd(t, ti, u, "", c) { continue; }
            let doc = format!("\"{}{t}{ti}\":{u}", ATTS[v[0]].0);
            ctx.mark_nontrivial(&doc);
            ctx.expect(c, &doc, &xh(c, format!("<p>{}</p>", anchor(v[0], hu, hti, h, c))));
        }
    }));
    // surroundings
    let p = Prod(vec![PRE.len(), TRAIL.len(), 4, URL.len()]);
    f.push(Family::new("surroundings", format!("{} texts before x {} after x 4 links x {} URLs, 2 configs", PRE.len(), TRAIL.len(), URL.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let ((l, hl), (r, hr), (u, hu)) = (PRE[v[0]], TRAIL[v[1]], URL[v[3]]);
        let (t, h, ti, a) = [("l", "l", 0, 0), ("two words", "two words", 1, 0), ("*s*", "<strong>s</strong>", 0, 1), ("say \"hi\" now", "say &#8220;hi&#8221; now", 0, 0)][v[2]];
        for c in [&D, &R] {
            if c.restricted && l.contains('<') { continue; }
            let doc = format!("{l}\"{}{t}{}\":{u}{r}", ATTS[a].0, TITLE[ti].0);
            ctx.mark_nontrivial(&doc);
            ctx.expect(c, &doc, &format!("<p>{hl}{}{hr}</p>", anchor(a, hu, TITLE[ti].1, h, c)));
        }
    }));
    // brackets
    let p = Prod(vec![PRE.len(), 8, 4, URL.len()]);
    f.push(Family::new("links in square brackets", format!("{} texts before x 8 after x 4 links x {} URLs, 2 configs", PRE.len(), URL.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let ((l, hl), (u, hu)) = (PRE[v[0]], URL[v[3]]);
        let (r, hr) = [("", ""), ("x", "x"), (" x", " x"), (".", "."), (", x", ", x"), ("\nx", "<br>\nx"), ("s", "s"), ("é", "é")][v[1]];
        let (t, h, ti, a) = [("l", "l", 0, 0), ("two words", "two words", 1, 0), ("*s*", "<strong>s</strong>", 0, 1), ("a (b) c", "a (b) c", 0, 6)][v[2]];
        for c in [&D, &R] {
            if c.restricted && l.contains('<') { continue; }
            let doc = format!("{l}[\"{}{t}{}\":{u}]{r}", ATTS[a].0, TITLE[ti].0);
            ctx.mark_nontrivial(&doc);
            ctx.expect(c, &doc, &format!("<p>{hl}{}{hr}</p>", anchor(a, hu, TITLE[ti].1, h, c)));
        }
    }));
    // where the URL ends: a well nested core, then punctuation and unmatched brackets
    const PIECE: &[&str] = &["a", "(b)", "/c.d", "(e(f)g)", "[h]=k", "=", ",i", "?j"];
    const END: &[&str] = &[")", ".", ",", "!", "?", ":", ";"];
    let (s, e) = (Seqs::new(PIECE.len(), 0, if q { 3 } else { 4 }), Seqs::new(END.len(), 0, if q { 3 } else { 4 }));
    f.push(Family::new("where the URL ends", format!("all URLs of 0..={} of {} pieces with balanced brackets x all runs of 0..={} of {} punctuation marks and unmatched brackets, 2 ways on", s.hi, PIECE.len(), e.hi, END.len()), s.size() * e.size() * 2, move |i, ctx| {
        let (k, j) = (i / 2 / e.size(), i / 2 % e.size());
        let u: String = std::iter::once("/x").chain(s.decode(k).iter().map(|x| PIECE[*x])).collect();
        let r: String = e.decode(j).iter().map(|x| END[*x]).collect();
        let n = if i % 2 == 0 { "" } else { " z" };
        // three dots are an ellipsis, two marks after a word are no matter
        let hr = r.replace("...", "&#8230;");
        if r.contains("....") || r.matches('!').count() > 1 { return; }
        let doc = format!("y \"l\":{u}{r}{n}");
        ctx.mark_nontrivial(&doc);
        ctx.expect(&D, &doc, &format!("<p>y <a href=\"{u}\">l</a>{hr}{n}</p>"));
    }));
    // characters that cannot be part of a URL
    const STOP: &[(&str, &str)] = &[("^y", "^y"), ("|y", "|y"), ("*y", "*y"), ("'y", "&#8217;y"), ("^", "^"), ("|", "|"), ("^y^ z", "^y^ z"), ("\ty", "\ty"), ("\u{a0}y", "\u{a0}y"), ("\u{3000}y", "\u{3000}y"), ("*. y", "*. y")];
    let p = Prod(vec![STOP.len(), URL.len(), PRE.len(), 2]);
    f.push(Family::new("characters that end the URL", format!("{} texts x {} URLs x {} texts before, 2 configs", STOP.len(), URL.len(), PRE.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let ((r, hr), (u, hu), (l, hl), c) = (STOP[v[0]], URL[v[1]], PRE[v[2]], [&D, &R][v[3]]);
        if c.restricted && l.contains('<') { return; }
        let doc = format!("{l}\"t\":{u}{r}");
        ctx.mark_nontrivial(&doc);
        ctx.expect(c, &doc, &format!("<p>{hl}{}{hr}</p>", anchor(0, hu, "", "t", c)));
    }));
    // blanks around the text
    const BL: &[&str] = &["", " ", "  ", "   ", "\t", " \t "];
    let p = Prod(vec![BL.len(), BL.len(), ATTS.len(), TITLE.len(), 3]);
    f.push(Family::new("blanks in links", format!("{0} blanks before x {0} after the text x {1} attribute lists x {2} titles x 3 texts, 2 configs", BL.len(), ATTS.len(), TITLE.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (t, h) = [("l", "l"), ("two words", "two words"), ("*s*", "<strong>s</strong>")][v[4]];
        let (ti, hti) = TITLE[v[3]];
        for c in [&D, &R] {
            let doc = format!("\"{}{}{t}{}{}\":/u", ATTS[v[2]].0, BL[v[0]], BL[v[1]], ti.trim_start());
            ctx.mark_nontrivial(&doc);
            ctx.expect(c, &doc, &format!("<p>{}</p>", anchor(v[2], "/u", hti, h, c)));
        }
    }));
    // brackets end the URL unless they are its own; a note may follow
    const OWN: &[&str] = &["/x", "/x[0]", "/x?q[]=1", "/x?q[]=1&r[a]=2", "/x(y)", "http://h.com/a[b]"];
    const NEXT: &[(&str, &str)] = &[("]", ""), ("]z", "z"), ("]. z", ". z"), ("][1]", "§"), ("][1] z", "§ z"), ("][1], z", "§, z")];
    let p = Prod(vec![OWN.len(), NEXT.len() + 3, PRE.len(), 2]);
    f.push(Family::new("notes after links", format!("{} URLs with brackets x {} endings with brackets and footnote references x {} texts before, 2 configs", OWN.len(), NEXT.len() + 3, PRE.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (u, (l, hl), c) = (OWN[v[0]], PRE[v[2]], if v[3] == 0 { &D } else { &R });
        if c.restricted && l.contains('<') { return; }
        let note = "<sup class=\"footnote\" id=\"fnrevU-1\"><a href=\"#fnU-1\">1</a></sup>";
        let (b, r, hr) = if v[1] < NEXT.len() { ("[", NEXT[v[1]].0.to_string(), NEXT[v[1]].1.replace('§', note)) } else {
            // without brackets around it a URL that ends in a bracket ends before a note
            if !u.ends_with(']') { return; }
            let n = ["", " z", ", z"][v[1] - NEXT.len()];
            ("", format!("[1]{n}"), format!("{note}{n}"))
        };
        let doc = format!("{l}{b}\"l\":{u}{r}");
        ctx.mark_nontrivial(&doc);
        ctx.expect(c, &doc, &format!("<p>{hl}<a href=\"{}\">l</a>{hr}</p>", u.replace('&', "&amp;")));
    }));
    // quotes at both ends of the text of a link, and two quotes as a link
    const QUO: &[(&str, &str)] = &[("\"say \"hi\"\":/u", "<a href=\"/u\">say &#8220;hi&#8221;</a>"), ("\"\"hi\"\":/u", "<a href=\"/u\">&#8220;hi&#8221;</a>"), ("\"\"Open the door, HAL!\"\":/u", "<a href=\"/u\">&#8220;Open the door, <span class=\"caps\">HAL</span>!&#8221;</a>"), ("\"a\" \"b\":/u", "&#8220;a&#8221; <a href=\"/u\">b</a>"), ("\"a\" b \"c\":/u", "&#8220;a&#8221; b <a href=\"/u\">c</a>"), ("\"a \"b\" c\":/u \"d\":/v", "<a href=\"/u\">a &#8220;b&#8221; c</a> <a href=\"/v\">d</a>")];
    let p = Prod(vec![QUO.len(), HOSTS.len(), TRAIL.len()]);
    f.push(Family::new("quotes in and around links", format!("{} links x {} elements x {} trailing texts", QUO.len(), HOSTS.len(), TRAIL.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (l, t) = (QUO[v[0]], TRAIL[v[2]]);
        // a note is a single line
        if HOSTS[v[1]].0.contains("note#n. §") && t.0.contains('\n') { return; }
        let (doc, want) = fill(HOSTS[v[1]], &format!("{}{}", l.0, t.0), &format!("{}{}", l.1, t.1));
        ctx.mark_nontrivial(&doc);
        ctx.expect(&D, &doc, &want);
    }));
    // several links
    let p = Prod(vec![6, 6, 6, SEPS.len(), SEPS.len()]);
    f.push(Family::new("several links", format!("all triples of 6 links x {}^2 separators, in 2 elements", SEPS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let ls: [(&str, &str); 6] = [("\"a\":/u", "<a href=\"/u\">a</a>"), ("\"b c(t)\":http://h.com/v", "<a href=\"http://h.com/v\" title=\"t\">b c</a>"), ("[\"d\":/w]", "<a href=\"/w\">d</a>"), ("\"(k)e\":x", "<a class=\"k\" href=\"x\">e</a>"), ("\"$\":http://h.com/y", "<a href=\"http://h.com/y\">h.com/y</a>"), ("\"*f*\":/z(1)", "<a href=\"/z(1)\"><strong>f</strong></a>")];
        let d = format!("{}{}{}{}{}", ls[v[0]].0, SEPS[v[3]].0, ls[v[1]].0, SEPS[v[4]].0, ls[v[2]].0);
        let h = format!("{}{}{}{}{}", ls[v[0]].1, SEPS[v[3]].1, ls[v[1]].1, SEPS[v[4]].1, ls[v[2]].1);
        for host in [HOSTS[0], HOSTS[11]] {
            let (doc, want) = fill(host, &d, &h);
            ctx.mark_nontrivial(&doc);
            ctx.expect(&D, &doc, &want);
        }
    }));
    // every element
    let p = Prod(vec![HOSTS.len(), 10, 5]);
    f.push(Family::new("links in every element", format!("{} elements x 10 links, 5 configs", HOSTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = &cfgs[v[2]];
        let (d, u, ti, h, a, l, r) = [
            ("l", 1, 0, "l", 0, "", ""), ("l", 2, 1, "l", 1, "x ", " y"), ("two words", 8, 2, "two words", 4, "x ", ". y"), ("*s*", 3, 0, "<strong>s</strong>", 0, "(", ")"), ("l", 11, 0, "l", 0, "(", ") y"),
            ("say \"hi\" now", 0, 0, "say &#8220;hi&#8221; now", 0, "x ", "! y"), ("!i.png!", 2, 0, "<img alt=\"\" src=\"i.png\" />", 0, "x ", " y"), ("l", 15, 1, "l", 0, "x ", " y"), ("l", 20, 3, "l", 5, "x, ", ", y"), ("l", 29, 0, "l", 0, "x ", ": y"),
        ][v[1]];
        let (doc, want) = fill(HOSTS[v[0]], &format!("{l}\"{}{d}{}\":{}{r}", ATTS[a].0, TITLE[ti].0, URL[u].0), &format!("{l}{}{r}", anchor(a, URL[u].1, TITLE[ti].1, h, c)));
        if c.restricted && HOSTS[v[0]].1.contains("class=\"k\"") { return; }
        ctx.mark_nontrivial(&doc);
        ctx.expect(c, &doc, &if c.xhtml { want.replace("<br>", "<br />") } else { want });
    }));
    // self-titled links
    const SELF: &[(&str, &str, &str)] = &[
        ("http://h.com/a", "http://h.com/a", "h.com/a"), ("https://h.com", "https://h.com/", "h.com"), ("mailto:a@b.c", "mailto:a@b.c", "a@b.c"), ("/u", "/u", "/u"), ("u.html", "u.html", "u.html"), ("ftp://h.com/x", "ftp://h.com/x", "h.com/x"), ("http://h.com/?a=b&c=d", "http://h.com/?a=b&amp;c=d", "h.com/?a=b&amp;c=d"), ("http://h.com/(a)", "http://h.com/(a)", "h.com/(a)"), ("#f", "#f", "#f"),
    ];
    let p = Prod(vec![SELF.len(), ATTS.len(), TITLE.len(), TRAIL.len()]);
    f.push(Family::new("self-titled links", format!("{} URLs x {} attribute lists x {} titles x {} trailing texts", SELF.len(), ATTS.len(), TITLE.len(), TRAIL.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (u, hu, h) = SELF[v[0]];
        if TITLE[v[2]].0.starts_with(' ') { return; }
        let c = if v[1] % 2 == 0 { &D } else { &R };
        let doc = format!("x \"{}${}\":{u}{}", ATTS[v[1]].0, TITLE[v[2]].0, TRAIL[v[3]].0);
        ctx.mark_nontrivial(&doc);
        ctx.expect(c, &doc, &format!("<p>x {}{}</p>", anchor(v[1], hu, TITLE[v[2]].1, h, c), TRAIL[v[3]].1));
    }));
    // aliases
    const NAMES: &[&str] = &["al", "Al1", "a-b", "a_b", "a.b", "é", "1", "a/b", "x*y", "al2", "a'b", "a&b"];
    let p = Prod(vec![NAMES.len(), 7, 8, 6, 2]);
    f.push(Family::new("aliases", format!("{} names x 7 definitions x 8 places x 6 links, 2 configs", NAMES.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let n = NAMES[v[0]];
        if n.contains(['*', '\'']) { return; }
        let (u, hu, read) = [("http://h.com/x", "http://h.com/x", "h.com/x"), ("http://h.com", "http://h.com/", "h.com"), ("/u", "/u", "/u"), ("mailto:a@b.c", "mailto:a@b.c", "a@b.c"), ("http://h.com/?a=b&c=d", "http://h.com/?a=b&amp;c=d", "h.com/?a=b&amp;c=d"), ("https://h.com/a(b)", "https://h.com/a(b)", "h.com/a(b)"), ("/v.w,", "/v.w,", "/v.w,")][v[1]];
        let c = if v[4] == 0 { &D } else { &R };
        let (l, hl) = [
            (format!("\"l\":{n}"), anchor(0, hu, "", "l", c)), (format!("x \"l\":{n}. y"), format!("x {}. y", anchor(0, hu, "", "l", c))), (format!("\"(k)l(t)\":{n} y"), format!("{} y", anchor(1, hu, " title=\"t\"", "l", c))),
            (format!("[\"l\":{n}]s"), format!("{}s", anchor(0, hu, "", "l", c))), (format!("(\"l\":{n})"), format!("({})", anchor(0, hu, "", "l", c))), (format!("\"$\":{n}"), anchor(0, hu, "", read, c)),
        ][v[3]].clone();
        // a self-titled alias has to be known
        if v[3] == 5 && ![1, 3, 5].contains(&v[2]) { return; }
        let (doc, want) = match v[2] {
            0 => (format!("{l}\n\n[{n}]{u}"), format!("<p>{hl}</p>")),
            1 => (format!("[{n}]{u}\n\n{l}"), format!("<p>{hl}</p>")),
            2 => (format!("{l}\n[{n}]{u}"), format!("<p>{hl}</p>")),
            3 => (format!("[{n}]{u}\n\na\n\n{l}\n\nb"), format!("<p>a</p>\n\n<p>{hl}</p>\n\n<p>b</p>")),
            4 => (format!("a\n\n{l}\n\nb\n\n[{n}]{u}\n\nc"), format!("<p>a</p>\n\n<p>{hl}</p>\n\n<p>b</p>\n\n<p>c</p>")),
            5 => (format!("[{n}]{u}\n[zz]http://z/\n\n* {l}"), format!("<ul>\n\t<li>{hl}</li>\n</ul>")),
            6 => (format!("|{l}|\n\n[zz]http://z/\n[{n}]{u}"), format!("\t<table>\n\t\t<tr>\n\t\t\t<td>{hl}</td>\n\t\t</tr>\n\t</table>")),
            _ => (format!("a {l}\n\n{l}\n\n[{n}]{u} b"), format!("<p>a {hl}</p>\n\n<p>{hl}</p>\n\n<p> b</p>")),
        };
        ctx.mark_nontrivial(&doc);
        let Some(out) = ctx.must(c, &doc) else { return };
        ctx.validated += 1;
        // the number of line ends left by a definition is open
        let norm = |s: &str| { let mut s = s.trim_matches('\n').to_string(); while s.contains("\n\n\n") { s = s.replace("\n\n\n", "\n\n"); } s };
        if norm(&out) != norm(&want) { ctx.fail(c, &doc, format!("output {out:?}, WANT {want:?}")); }
    }));
    // definitions between words
    const LINE: &[(&str, &str)] = &[("w", "w"), ("[sic]", "[sic]"), ("[a]http://x/", ""), ("[b]/y", ""), ("\"l\":a", "<a href=\"§a\">l</a>"), ("\"m\":b", "<a href=\"§b\">m</a>"), ("v[1]", "v<sup class=\"footnote\"><a href=\"#fnU-1\">1</a></sup>"), ("\n", "<br>\n")];
    let s = Seqs::new(LINE.len(), 2, if q { 5 } else { 6 });
    f.push(Family::new("definitions between words", format!("all sequences of 2..={} of {} words, definitions and links on one line or several", s.hi, LINE.len()), s.size(), move |i, ctx| {
        let v = s.decode(i);
        if !v.iter().any(|x| (2..4).contains(x)) || v.iter().all(|x| (2..4).contains(x) || *x == 7) || v.windows(2).any(|w| w[0] == 7 && w[1] == 7) || v[0] == 7 || v[v.len() - 1] == 7 { return; }
        let doc = v.iter().map(|x| LINE[*x].0).collect::<Vec<_>>().join(" ");
        // a line of definitions only is a blank line
        if doc.split('\n').any(|l| l.split(' ').all(|w| w.is_empty() || w.starts_with("[a]") || w.starts_with("[b]"))) { return; }
        let (a, b) = (if v.contains(&2) { "http://x/" } else { "a" }, if v.contains(&3) { "/y" } else { "b" });
        let mut want = v.iter().map(|x| LINE[*x].1).collect::<Vec<_>>().join(" ").replace("§a", a).replace("§b", b);
        want = want.replacen("<sup class=\"footnote\">", "<sup class=\"footnote\" id=\"fnrevU-1\">", 1);
        ctx.mark_nontrivial(&doc);
        let Some(out) = ctx.must(&D, &doc) else { return };
        ctx.validated += 1;
        let norm = |s: &str| s.replace("<p>", " <p> ").replace("</p>", " </p> ").replace("<br>", " ").split_whitespace().collect::<Vec<_>>().join(" ");
        if norm(&out) != norm(&format!("<p>{want}</p>")) { ctx.fail(&D, &doc, format!("output {out:?}, the model requires the text of {want:?}")); }
    }));
    // several aliases
    let s = Seqs::new(6, 2, if q { 5 } else { 6 });
    f.push(Family::new("several aliases", format!("all sequences of 2..={} blocks: definitions of 3 aliases and links to them", s.hi), s.size(), move |i, ctx| {
        let v = s.decode(i);
        let (mut d, mut h) = (vec![], vec![]);
        for (at, x) in v.iter().enumerate() {
            let k = x % 3;
            if *x < 3 {
                d.push(format!("[n{k}]http://h{k}/{at}"));
            } else {
                // the last definition counts; without one the name is a relative URL
                let u = v.iter().rposition(|x| *x == k).map_or(format!("n{k}"), |last| format!("http://h{k}/{last}"));
                d.push(format!("\"l\":n{k}"));
                h.push(format!("<p><a href=\"{u}\">l</a></p>"));
            }
        }
        let doc = d.join("\n\n");
        ctx.mark_nontrivial(&doc);
        let Some(out) = ctx.must(&D, &doc) else { return };
        ctx.validated += 1;
        let got: Vec<&str> = out.split('\n').filter(|l| !l.is_empty()).collect();
        if got != h { ctx.fail(&D, &doc, format!("output {out:?}, WANT {h:?}")); }
    }));
    f.push(targets(q, &[("\"t\":§ x", "a", "href"), ("bq.:§ x", "blockquote", "cite"), ("[n]§\n\n\"t\":n", "a", "href"), ("[\"t\":§]", "a", "href")]));
    f.push(many_family(q, &[("\"a№\":/u№", "<a href=\"/u№\">a№</a>"), ("[\"a№(t№)\":/u№]", "<a href=\"/u№\" title=\"t№\">a№</a>"), ("\"*a№*\":/u№", "<a href=\"/u№\"><strong>a№</strong></a>"), ("\"a№\":z", "<a href=\"http://h/z\">a№</a>")], (" ", " "), ("§\n\n[z]http://h/z", "<p>§</p>"), vec![D]));
    f.push(many_family(q, &[("\"a№\":z№\n[z№]http://h/z№", "<p><a href=\"http://h/z№\">a№</a></p>")], ("\n\n", "\n\n"), ("§", "§"), vec![D]));
    f.push(crate::space::long_family(&[("\"§\":/u", "<p><a href=\"/u\">§</a></p>"), ("\"¤(¤)\":/u", "<p><a href=\"/u\" title=\"¤\">¤</a></p>"), ("\"x\":/§", "<p><a href=\"/§\">x</a></p>"), ("\"x\":http://§.com/§?§=§#§", "<p><a href=\"http://§.com/§?§=§#§\">x</a></p>"), ("\"$\":http://h.com/§", "<p><a href=\"http://h.com/§\">h.com/§</a></p>"), ("¤ \"x\":§ ¤\n\n[§]http://h.com/", "<p>¤ <a href=\"http://h.com/\">x</a> ¤</p>")], vec![D, R]));
    Property { id: "C14", level: "model_checking", rule: "the document holds link markup", assumptions: vec!["a URL contains none of the characters that end it (blank, bar, caret, quotes, asterisk)"], families: f }
}
const SEPS: &[(&str, &str)] = &[(" ", " "), (", ", ", "), (" and ", " and "), (". ", ". "), ("\n", "<br>\n"), (" (", " ("), (" \"q\" ", " &#8220;q&#8221; "), (" 'q' ", " &#8216;q&#8217; ")];
