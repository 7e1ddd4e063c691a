//! C05: disabling images removes images and nothing else.
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};

/// (markup, what it becomes with images enabled)
const FORMS: &[(&str, &str)] = &[
    ("!a.png!", "<img alt=\"\" src=\"a.png\" />"),
    ("!a.png(alt)!", "<img alt=\"alt\" src=\"a.png\" title=\"alt\" />"),
    ("!>a.png!", "<img alt=\"\" class=\"align-right\" src=\"a.png\" />"),
    ("!<a.png!", "<img alt=\"\" class=\"align-left\" src=\"a.png\" />"),
    ("!=a.png!", "<img alt=\"\" class=\"align-center\" src=\"a.png\" />"),
    ("!(k)a.png!", "<img alt=\"\" class=\"k\" src=\"a.png\" />"),
    ("!(k#i)a.png(t)!", "<img alt=\"t\" class=\"k\" id=\"i\" src=\"a.png\" title=\"t\" />"),
    ("!/d/a.png!", "<img alt=\"\" src=\"/d/a.png\" />"),
    ("!http://h/a.png!", "<img alt=\"\" src=\"http://h/a.png\" />"),
    ("!a.png!:http://h/", "<a href=\"http://h/\"><img alt=\"\" src=\"a.png\" /></a>"),
    ("!a.png(t)!:/u", "<a href=\"/u\"><img alt=\"t\" src=\"a.png\" title=\"t\" /></a>"),
];

fn no_img(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    if doc.to_lowercase().contains("<img") && !c.restricted { return; }
    let Some(out) = ctx.must(c, doc) else { return };
    ctx.validated += 1;
    if doc.contains('!') { ctx.mark_nontrivial(doc); }
    if tokenize(&out).iter().any(|t| matches!(t, Tok::Open { name, .. } if name == "img")) {
        ctx.fail(c, doc, format!("an image is produced: {out:?}"));
    }
    if !doc.contains('!') {
        let on = Cfg { noimg: false, ..c.clone() };
        if let Some(o) = ctx.must(&on, doc) {
            if o != out { ctx.fail(c, doc, format!("no image markup, but the output {out:?} differs from {o:?} with images enabled")); }
        }
    }
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    // positions: hosts, phrases, links
    let mut pos: Vec<(String, String)> = HOSTS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    for h in [0usize, 2, 7, 10] {
        for (a, b) in PHRASES { pos.push(fill(HOSTS[h], &format!("x {}", a.replace("§", "§ y")), &format!("x {}", b.replace("§", "§ y")))); }
        pos.push(fill(HOSTS[h], "\"§\":http://q/", "<a href=\"http://q/\">§</a>"));
        pos.push(fill(HOSTS[h], "x \"y § z\":/q w", "x <a href=\"/q\">y § z</a> w"));
        pos.push(fill(HOSTS[h], "§, x", "§, x"));
        pos.push(fill(HOSTS[h], "§ y §", "§ y §"));
        pos.push(fill(HOSTS[h], "*y* § _z_", "<strong>y</strong> § <em>z</em>"));
        pos.push(fill(HOSTS[h], "@y@ § @z@", "<code>y</code> § <code>z</code>"));
    }
    let n = pos.len();
    let p = Prod(vec![n, FORMS.len()]);
    f.push(Family::new("image markup in every element", format!("{n} positions x {} image forms x on/off x restricted or not, exact output", FORMS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (form, img) = FORMS[v[1]];
        let (a, b) = &pos[v[0]];
        // a link target runs to the next blank
        if form.contains("!:") && (a.contains("§,") || a.contains("§\"") || a.contains("§|")) { return; }
        // a less-than sign before a letter starts a tag, which the next greater-than sign ends
        let cells = ["<li>", "<td>", "<th>", "<dd>"].iter().any(|t| b.contains(t));
        if form.contains('<') && cells { return; }
        let doc = a.replace('§', form);
        ctx.mark_nontrivial(&doc);
        ctx.expect(&Cfg::of("i"), &doc, &b.replace('§', &esc(form)));
        ctx.expect(&Cfg::of("ie"), &doc, &b.replace("\">§</a>", "\" rel=\"nofollow\">§</a>").replace("\">y § z</a>", "\" rel=\"nofollow\">y § z</a>").replace('§', &esc(form)));
        ctx.expect(&D, &doc, &b.replace('§', img));
        // the classes of the restricted output are the converter's business (C03)
        if !b.contains("class=\"k") { ctx.expect(&Cfg::of("ri"), &doc, &b.replace('§', &esc(form))); }
    }));
    // neighbours: everything but the image is the same
    let js: &'static [&'static str] = &["\n\n", " "];
    const CORE: &[&str] = &["", "word", "*strong*", "\"link\":http://h.com/a", "* item", "bq.. ext quote", "|a|b|", "@code@", "\"", "bc.. ext code", "[ali]http://h.com/x", "nr[#n1]"];
    let near: &'static [&'static str] = if q { CORE } else { CONSTRUCTS };
    let fs: &'static [usize] = if q { &[0, 1, 9] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10] };
    let p = Prod(vec![js.len(), CONSTRUCTS.len(), near.len(), fs.len(), 2]);
    f.push(Family::new("images among other markup", format!("2 joiners x {} x {} constructs around {} image forms, both orders; the rest is as with images", CONSTRUCTS.len(), near.len(), fs.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (form, img) = FORMS[fs[v[3]]];
        let (a, b) = if v[4] == 0 { (CONSTRUCTS[v[1]], near[v[2]]) } else { (near[v[2]], CONSTRUCTS[v[1]]) };
        if a.contains('!') || b.contains('!') { return; }
        let j = js[v[0]];
        let doc = format!("{a}{j}{form}{j}{b}");
        let (Some(on), Some(off)) = (ctx.must(&D, &doc), ctx.must(&Cfg::of("i"), &doc)) else { return };
        ctx.validated += 1;
        ctx.mark_nontrivial(&doc);
        if on.matches(img).count() != 1 { return; }
        let want = on.replace(img, form);
        if off != want { ctx.fail(&Cfg::of("i"), &doc, format!("output {off:?}; apart from the image it should be {want:?}")); }
    }));
    let cf: Vec<Cfg> = ["i", "ri", "li", "xi", "ni", "rli", "wi"].iter().map(|c| Cfg::of(c)).collect();
    const PAY: &[&str] = &["!a.png!", "!a.png(t)!", "!a!:b", "[!a!]", "!", "a", " ", "!>a!", "\"", ":", "(", ")"];
    f.push(ctx_family("image tokens in every construct", PAY, 1, if q { 2 } else { 3 }, vec![Cfg::of("i"), Cfg::of("ri"), Cfg::of("xi")], no_img));
    f.push(seq_family("tokens", WIDE, 1, if q { 2 } else { 3 }, "", "", cf.clone(), no_img));
    f.push(tuple_family("pairs of constructs", 2, JOIN, cf, no_img));
    f.push(ctx_family("all combinations of options", &["!a.png!", "!>(k)a.png(t)!:/u", "w"], 1, 1, Cfg::with("i", "rxlnweb"), no_img));
    f.push(seq_family("image tokens", PAY, 1, if q { 4 } else { 5 }, "", "", vec![Cfg::of("i")], no_img));
    Property { id: "C05", level: "model_checking", rule: "the document holds image markup", assumptions: vec!["an img tag typed as raw HTML is not image markup"], families: f }
}
