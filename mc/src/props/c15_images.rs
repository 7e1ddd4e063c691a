//! C15: images get the right source, text, alignment and link.
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

const ALIGN: &[(&str, &str)] = &[("", ""), ("<", "left"), (">", "right"), ("=", "center")];
/// Attributes: (text, class, id, lang, style)
const ATTS: &[(&str, &str, &str, &str, &str)] = &[
    ("", "", "", "", ""), ("(k)", "k", "", "", ""), ("(#i)", "", "i", "", ""), ("(k l#i)", "k l", "i", "", ""), ("{color:red}", "", "", "", "color:red;"), ("[fr]", "", "", "fr", ""), ("(k){color:red;margin:0}[fr]", "k", "", "fr", "color:red; margin:0;"), ("[fr](k)", "k", "", "fr", ""), ("{color:red}(#i)", "", "i", "", "color:red;"), ("{width:1px}[de](m)", "m", "", "de", "width:1px;"), ("(k). ", "k", "", "", ""),
];
const SRC: &[(&str, &str)] = &[
    ("i.png", "i.png"), ("/a/i.png", "/a/i.png"), ("../i", "../i"), ("http://h.com/i.png", "http://h.com/i.png"), ("http://h.com", "http://h.com/"), ("i.png?a=b&c=d", "i.png?a=b&amp;c=d"), ("HTTP://H.com/I", "http://h.com/I"), ("http://h.com/ü.png", "http://h.com/%C3%BC.png"), ("ü.png", "ü.png"), ("a_b_c.png", "a_b_c.png"), ("a--b.png", "a--b.png"), ("a*b*.png", "a*b*.png"), ("ABCD.png", "ABCD.png"), ("2x3.png", "2x3.png"), ("http://h.com:80/~a/i.png#f", "http://h.com/~a/i.png#f"), ("i", "i"), ("it's.png", "it&#39;s.png"),
    ("http://h.com/a,b;c", "http://h.com/a,b;c"), ("https://h.com/a?b=c%20d", "https://h.com/a?b=c%20d"),
];
/// Titles: (markup, value in quotes)
const TITLE: &[(&str, &str)] = &[
    ("", ""), ("(t)", "\"t\""), (" (t)", "\"t\""), ("(two words)", "\"two words\""), ("(a & b)", "\"a &amp; b\""), ("(it's)", "\"it's\""), ("(<b>)", "\"&lt;b&gt;\""), ("(a \"q\")", "'a \"q\"'"), ("(a \"q\" it's)", "\"a &quot;q&quot; it's\""), ("(ü -- *x* y)", "\"ü -- *x* y\""), ("(ABCD 2 x 3...)", "\"ABCD 2 x 3...\""), ("(http://h/?a=b)", "\"http://h/?a=b\""), ("( s )", "\" s \""), ("(_a_ [1])", "\"_a_ [1]\""),
];
const HREF: &[(&str, &str)] = &[
    ("", ""), (":/u", "/u"), (":http://h.com", "http://h.com/"), (":u.html?a=b&c=d#e", "u.html?a=b&amp;c=d#e"), (":http://h.com/a(b)c", "http://h.com/a(b)c"), (":mailto:a@b.c", "mailto:a@b.c"), (":http://h.com/_a_/*b*", "http://h.com/_a_/*b*"), (":#f", "#f"), (":HTTP://H.com/ü", "http://h.com/%C3%BC"), (":/a,b.c", "/a,b.c"),
];
const PRE: &[(&str, &str)] = &[("", ""), ("x ", "x "), ("(", "("), ("x\n", "x<br>\n"), ("x, ", "x, "), ("*s* ", "<strong>s</strong> "), ("\"q\" ", "&#8220;q&#8221; "), ("\"l\":/l ", "<a href=\"/l\">l</a> "), ("x", "x"), ("[", ""), ("{", ""), ("x{", "x")];
const POST: &[(&str, &str)] = &[("", ""), (" x", " x"), (".", "."), (", x", ", x"), (") x", ") x"), ("\nx", "<br>\nx"), (". x", ". x"), (" *s*", " <strong>s</strong>"), (" \"q\"", " &#8220;q&#8221;"), (" \"l\":/l", " <a href=\"/l\">l</a>"), (" -- x", " &#8212; x"), ("]x", "x"), ("] x", " x"), ("}x", "x"), ("} x", " x"), ("}", "")];

pub fn img(al: usize, a: usize, src: &str, title: &str, c: &Cfg) -> String {
    let (_, class, id, lang, style) = ATTS[a];
    let al = ALIGN[al].1;
    let by_class = match c.align { 1 => true, 2 => false, _ => !c.xhtml };
    let mut cl = if c.restricted { String::new() } else { class.to_string() };
    if !al.is_empty() && by_class { cl = format!("{cl} align-{al}").trim().to_string(); }
    let at = |n: &str, v: &str| if v.is_empty() { String::new() } else { format!(" {n}=\"{v}\"") };
    let drop = |v: &'static str| if c.restricted { "" } else { v };
    format!("<img{} alt={}{}{}{} src=\"{src}\"{}{} />", if by_class { String::new() } else { at("align", al) }, if title.is_empty() { "\"\"" } else { title }, at("class", &cl), at("id", drop(id)), at("lang", lang), at("style", drop(style)), if title.is_empty() { String::new() } else { format!(" title={title}") })
}
fn linked(img: String, href: &str, c: &Cfg) -> String {
    if href.is_empty() { img } else { format!("<a href=\"{href}\"{}>{img}</a>", if c.rel { " rel=\"nofollow\"" } else { "" }) }
}
fn xh(c: &Cfg, s: String) -> String { if c.xhtml { s.replace("<br>", "<br />") } else { s } }

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let cfgs: Vec<Cfg> = ["", "r", "x", "xr", "a", "b", "xa", "xb", "e", "rea"].iter().map(|l| Cfg::of(l)).collect();
    let p = Prod(vec![ALIGN.len(), ATTS.len(), SRC.len(), TITLE.len(), HREF.len()]);
    let cs = cfgs.clone();
    f.push(Family::new("parts of an image", format!("{} alignments x {} attribute lists x {} sources x {} titles x {} links, 10 configs{}", ALIGN.len(), ATTS.len(), SRC.len(), TITLE.len(), HREF.len(), if q { "; 2 configs where more than three parts differ from the plain ones" } else { "" }), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let n = v.iter().filter(|x| **x > 0).count();
        let (t, ht) = TITLE[v[3]];
        let doc = format!("!{}{}{}{t}!{}", ALIGN[v[0]].0, ATTS[v[1]].0, SRC[v[2]].0, HREF[v[4]].0);
        for c in if q && n > 3 { &cs[..2] } else { &cs[..] } {
            ctx.mark_nontrivial(&doc);
            ctx.expect(c, &doc, &format!("<p>{}</p>", linked(img(v[0], v[1], SRC[v[2]].1, ht, c), HREF[v[4]].1, c)));
        }
    }));
    let p = Prod(vec![PRE.len(), POST.len(), 6, 2]);
    f.push(Family::new("surroundings", format!("{} texts before x {} after x 6 images, 2 configs", PRE.len(), POST.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let ((l, hl), (r, hr)) = (PRE[v[0]], POST[v[1]]);
        if l.ends_with('[') != r.starts_with(']') || l.ends_with('{') != r.starts_with('}') { return; }
        let c = [&D, &R][v[3]];
        let (al, a, s, t, h) = [(0, 0, 0, 0, 0), (1, 0, 0, 1, 0), (0, 3, 3, 3, 1), (3, 6, 5, 7, 2), (0, 0, 0, 0, 1), (2, 1, 9, 4, 3)][v[2]];
        // the target of a link goes on to the next blank
        if h > 0 && (r.starts_with("]x") || r.starts_with('}')) { return; }
        let doc = format!("{l}!{}{}{}{}!{}{r}", ALIGN[al].0, ATTS[a].0, SRC[s].0, TITLE[t].0, HREF[h].0);
        ctx.mark_nontrivial(&doc);
        ctx.expect(c, &doc, &format!("<p>{hl}{}{hr}</p>", linked(img(al, a, SRC[s].1, TITLE[t].1, c), HREF[h].1, c)));
    }));
    // every element and phrase
    let p = Prod(vec![HOSTS.len(), 5, 6, cfgs.len()]);
    let cs = cfgs.clone();
    f.push(Family::new("images in every element", format!("{} elements x 5 images x 6 surroundings, {} configs", HOSTS.len(), cfgs.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = &cs[v[3]];
        if c.restricted && HOSTS[v[0]].1.contains("class=\"k\"") { return; }
        if c.rel && HOSTS[v[0]].1.contains("<a ") && false { return; }
        let (al, a, s, t, h) = [(0, 0, 0, 0, 0), (1, 0, 0, 1, 0), (0, 3, 3, 3, 1), (3, 6, 5, 7, 2), (2, 1, 9, 4, 0)][v[1]];
        // in a table the target of a linked image takes the next bar with it
        if h > 0 && HOSTS[v[0]].0.contains("§|") && v[2] != 1 || h > 0 && v[2] >= 4 { return; }
        let (l, r, hl, hr) = [("", "", "", ""), ("x ", " y", "x ", " y"), ("(", ")", "(", ")"), ("x, *s* ", ", *t*", "x, <strong>s</strong> ", ", <strong>t</strong>"), ("[", "]y", "", "y"), ("{", "} y", "", " y")][v[2]];
        let (doc, want) = fill(HOSTS[v[0]], &format!("{l}!{}{}{}{}!{}{r}", ALIGN[al].0, ATTS[a].0, SRC[s].0, TITLE[t].0, HREF[h].0), &format!("{hl}{}{hr}", linked(img(al, a, SRC[s].1, TITLE[t].1, c), HREF[h].1, c)));
        ctx.mark_nontrivial(&doc);
        ctx.expect(c, &doc, &xh(c, want));
    }));
    let p = Prod(vec![PHRASES.len(), 5, 3]);
    f.push(Family::new("images in phrases", format!("{} phrases x 5 images, 3 configs", PHRASES.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = [&D, &R, &Cfg::of("x")][v[2]].clone();
        let (al, a, s, t, h) = [(0, 0, 0, 0, 0), (1, 0, 0, 1, 0), (0, 3, 3, 3, 1), (3, 6, 5, 7, 2), (2, 1, 9, 4, 0)][v[1]];
        let (doc, want) = fill(PHRASES[v[0]], &format!("x !{}{}{}{}!{} y", ALIGN[al].0, ATTS[a].0, SRC[s].0, TITLE[t].0, HREF[h].0), &format!("x {} y", linked(img(al, a, SRC[s].1, TITLE[t].1, &c), HREF[h].1, &c)));
        ctx.mark_nontrivial(&doc);
        ctx.expect(&c, &format!("z {doc} z"), &format!("<p>z {want} z</p>"));
    }));
    // several images
    const IM: &[(usize, usize, usize, usize, usize)] = &[(0, 0, 0, 0, 0), (1, 0, 1, 1, 0), (0, 1, 3, 0, 1), (2, 4, 5, 7, 0), (3, 0, 15, 0, 2), (0, 5, 9, 5, 3)];
    const SEP: &[(&str, &str)] = &[(" ", " "), (", ", ", "), (" x ", " x "), ("\n", "<br>\n"), (". ", ". "), (" \"l\":/l ", " <a href=\"/l\">l</a> ")];
    let p = Prod(vec![IM.len(), SEP.len(), IM.len(), SEP.len(), IM.len(), 3]);
    f.push(Family::new("several images", format!("all triples of {} images x {}^2 separators, 3 configs", IM.len(), SEP.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = [&D, &R, &Cfg::of("xe")][v[5]].clone();
        let one = |k: usize| {
            let (al, a, s, t, h) = IM[k];
            (format!("!{}{}{}{}!{}", ALIGN[al].0, ATTS[a].0, SRC[s].0, TITLE[t].0, HREF[h].0), linked(img(al, a, SRC[s].1, TITLE[t].1, &c), HREF[h].1, &c))
        };
        let (a, b, d) = (one(v[0]), one(v[2]), one(v[4]));
        let (l, m) = (SEP[v[1]], SEP[v[3]]);
        let doc = format!("{}{}{}{}{}", a.0, l.0, b.0, m.0, d.0);
        let mut want = format!("<p>{}{}{}{}{}</p>", a.1, l.1, b.1, m.1, d.1);
        if c.rel { want = want.replace("<a href=\"/l\">", "<a href=\"/l\" rel=\"nofollow\">"); }
        ctx.mark_nontrivial(&doc);
        ctx.expect(&c, &doc, &xh(&c, want));
    }));
    // exclamation marks that are no images
    const WORDS: &[(&str, &str)] = &[("Hey! ", "Hey! "), ("a ", "a "), ("b!! ", "b!! "), ("! ", "! "), ("*x*! ", "<strong>x</strong>! "), ("c\n", "c<br>\n"), ("Oh!\n", "Oh!<br>\n"), ("(b) ", "(b) ")];
    let s = Seqs::new(WORDS.len(), 1, if q { 4 } else { 5 });
    f.push(Family::new("exclamation marks", format!("all sequences of 1..={} of {} words with exclamation marks", s.hi, WORDS.len()), s.size(), move |i, ctx| {
        let v = s.decode(i);
        let d: String = v.iter().map(|x| WORDS[*x].0).collect::<String>() + "z";
        let h: String = v.iter().map(|x| WORDS[*x].1).collect::<String>() + "z";
        ctx.mark_nontrivial(&d);
        ctx.expect(&D, &d, &format!("<p>{h}</p>"));
    }));
    f.push(super::c14_links::targets(q, &[("!§!", "img", "src"), ("!§(t)!", "img", "src"), ("!i.png!:§ x", "a", "href"), ("\"!§!\":/u", "img", "src")]));
    f.push(many_family(q, &[("!i№.png!", "<img alt=\"\" src=\"i№.png\" />"), ("!i№.png(t№)!:/u№", "<a href=\"/u№\"><img alt=\"t№\" src=\"i№.png\" title=\"t№\" /></a>"), ("\"!i№.png!\":/u№", "<a href=\"/u№\"><img alt=\"\" src=\"i№.png\" /></a>")], (" ", " "), ("§", "<p>§</p>"), vec![D]));
    f.push(crate::space::long_family(&[("!/§.png!", "<p><img alt=\"\" src=\"/§.png\" /></p>"), ("!i.png(¤)!", "<p><img alt=\"¤\" src=\"i.png\" title=\"¤\" /></p>"), ("!i.png!:/§", "<p><a href=\"/§\"><img alt=\"\" src=\"i.png\" /></a></p>"), ("¤ !i.png! ¤", "<p>¤ <img alt=\"\" src=\"i.png\" /> ¤</p>")], vec![D, R]));
    Property { id: "C15", level: "model_checking", rule: "the document holds image markup or exclamation marks", assumptions: vec!["an image is followed by a blank, a line end, one of .,)] or the end"], families: f }
}
