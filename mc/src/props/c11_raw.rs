//! C11: text excluded from Textile passes through untouched.
use super::c10_code::{blank_line, marked, positions};
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};

const ALPHA: &[&str] = &[
    "a", " ", "\n", "*", "_", "-", "<b>", "</b>", "&", "&amp;", "\"", "'", "@", "--", "...", "(c)", "|", "[1]", "\":/u", "!i.png!", "h1. ", "# ", "http://h", "<!--", "-->", "ABC", " x ", "$1",
    "\\", "é", "<div>", "<pre>", "</pre>", "%", "[#n]", "notelist.", "1", "<", ">", "<i class='k'>",
];
const SMALL: &[&str] = &["a", " ", "\n", "*", "<b>", "&lt;", "&", "\"", "'", "--", "|", "\":/u", "ABC", "<", "@", "=a="];

/// A typed break that no line end follows gets one in any case.
fn breaks(x: &str) -> bool { x.contains("<br>") || x.contains("<br />") }

/// Outside restricted mode the bytes, in restricted mode the characters shown.
fn passes(ctx: &mut Ctx, c: &Cfg, doc: &str, html: &str, x: &str) {
    if !c.restricted {
        ctx.mark_nontrivial(doc);
        ctx.expect(c, doc, &html.replace('§', x));
        return;
    }
    let Some(out) = ctx.must(c, doc) else { return };
    ctx.validated += 1;
    let mut rest = out.as_str();
    let fr: Vec<&str> = html.split('§').collect();
    for (n, f) in fr.iter().enumerate() {
        let p = if n == 0 { rest.starts_with(f).then_some(0) } else if n + 1 == fr.len() { rest.len().checked_sub(f.len()).filter(|p| rest.is_char_boundary(*p) && &rest[*p..] == *f) } else { rest.find(f) };
        let Some(p) = p else { ctx.fail(c, doc, format!("output {out:?} lacks {f:?}")); return };
        if n > 0 {
            let t = tokenize(&rest[..p]);
            if t.iter().any(|t| !matches!(t, Tok::Text(_))) || text_of(&rest[..p]) != x { ctx.fail(c, doc, format!("the raw text {x:?} is shown as {:?}: {out:?}", text_of(&rest[..p]))); return; }
        }
        rest = &rest[p + f.len()..];
    }
}

const INLINE: &[(&str, &str, bool)] = &[("==", "==", true), ("[==", "==]", true), ("<notextile>", "</notextile>", false)];

fn inline_case(form: usize, pos: &(String, String), x: &str, cfgs: &[Cfg], ctx: &mut Ctx) {
    let (o, e, restr) = INLINE[form];
    if blank_line(x) || breaks(x) || x.contains("==") || x.contains("</notextile>") || (restr && (x.starts_with('=') || x.ends_with('='))) { return; }
    if o == "[==" && pos.0.starts_with("[§") { return; }
    if x.contains('\n') && pos.0.contains("note#") { return; }
    // a line end right after a generated break is the break's own
    if x.starts_with('\n') && pos.1.contains("<br>\n§") { return; }
    let doc = pos.0.replace('§', &format!("{o}{x}{e}"));
    if doc.ends_with('\n') { return; }
    for c in cfgs {
        if c.restricted && (!restr || pos.0.matches('§').count() > 1 || pos.1.contains("class=\"k\"")) { continue; }
        let html = if c.xhtml { pos.1.replace("<br>", "<br />") } else { pos.1.clone() };
        passes(ctx, c, &doc, &html, x);
    }
}

const AROUND: &[(&str, &str)] = &[
    ("§", "§"), ("a\n\n§\n\nb. b", "<p>a</p>\n\n§\n\n<p>b. b</p>"), ("bq. a\n\n§\n\np. b", "<blockquote>\n\t<p>a</p>\n</blockquote>\n\n§\n\n<p>b</p>"),
    ("bc.. a\n\n§\n\n* b", "<pre><code>a</code></pre>\n\n§\n\n<ul>\n\t<li>b</li>\n</ul>"), ("###. a\n\n§\n\nbc. b", "§\n\n<pre><code>b</code></pre>"), ("notextile.. a\n\n§", "a\n\n§"),
];
const FORMS: &[&str] = &["notextile. §", "notextile.. §", "notextile(k). §"];

fn block_case(form: usize, around: usize, x: &str, cfgs: &[Cfg], ctx: &mut Ctx) {
    if blank_line(x) || breaks(x) || x.starts_with('\n') || x.ends_with('\n') || x.trim().is_empty() || x.lines().last().map_or(true, |l| l.trim().is_empty()) { return; }
    let (d, (ad, ah)) = (FORMS[form], AROUND[around]);
    if d.contains("..") && (ad.contains("b. b") || ad.contains("* b")) { return; }
    let doc = ad.replace('§', d).replace('§', x);
    for c in cfgs { passes(ctx, c, &doc, ah, x); }
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let dr = vec![D, R];
    let pos: &'static Vec<(String, String)> = Box::leak(Box::new(positions()));
    let al = toks(ALPHA);
    {
        let (s, n, a, cf) = (Seqs::new(ALPHA.len(), 1, if q { 1 } else { 2 }), pos.len() as u64 * 3, al.clone(), Cfg::product("rx"));
        f.push(Family::new("raw text in every position", format!("{} positions x 3 forms x all sequences of 1..={} of {} tokens x 4 configs", pos.len(), s.hi, a.len()), s.size() * n, move |i, ctx| {
            let x = join(&a, &s.decode(i / n));
            inline_case((i % 3) as usize, &pos[(i % n / 3) as usize], &x, &cf, ctx);
        }));
    }
    {
        const TAGS: &[(&str, &str)] = &[("<b>§</b>", "<p><b>§</b></p>"), ("x <span class=\"k\">§</span> y", "<p>x <span class=\"k\">§</span> y</p>"), ("x <i>§</i>, <b>§</b>", "<p>x <i>§</i>, <b>§</b></p>"), ("h2. <b>§</b> x", "<h2><b>§</b> x</h2>"), ("<div>§</div>", "<div>§</div>"), ("|<b>§</b>|x|", "\t<table>\n\t\t<tr>\n\t\t\t<td><b>§</b></td>\n\t\t\t<td>x</td>\n\t\t</tr>\n\t</table>")];
        let pos: &'static Vec<(String, String)> = Box::leak(Box::new(TAGS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()));
        let (s, n, a, cf) = (Seqs::new(ALPHA.len(), 1, if q { 1 } else { 2 }), pos.len() as u64 * 3, al.clone(), vec![D, Cfg::of("x")]);
        f.push(Family::new("raw text between tags", format!("{} positions x 3 forms x all sequences of 1..={} of {} tokens x 2 configs", pos.len(), s.hi, a.len()), s.size() * n, move |i, ctx| {
            let x = join(&a, &s.decode(i / n));
            inline_case((i % 3) as usize, &pos[(i % n / 3) as usize], &x, &cf, ctx);
        }));
    }
    for (name, p) in [("raw text", 0usize), ("raw text in a list", 7), ("raw text in a table", 11), ("raw text in a link", 22)] {
        let (s, a, cf) = (Seqs::new(ALPHA.len(), 2, if p == 0 && !q { 4 } else if p == 0 || !q { 3 } else { 2 }), al.clone(), dr.clone());
        f.push(Family::new(name, format!("3 forms x all sequences of 2..={} of {} tokens x 2 configs", s.hi, a.len()), s.size() * 3, move |i, ctx| {
            let x = join(&a, &s.decode(i / 3));
            inline_case((i % 3) as usize, &pos[p], &x, &cf, ctx);
        }));
    }
    {
        let (s, a, cf) = (Seqs::new(ALPHA.len(), 1, if q { 2 } else { 3 }), al.clone(), dr.clone());
        let n = (FORMS.len() * AROUND.len()) as u64;
        f.push(Family::new("raw blocks", format!("{} block forms x {} surroundings x all sequences of 1..={} of {} tokens x 2 configs", FORMS.len(), AROUND.len(), s.hi, a.len()), s.size() * n, move |i, ctx| {
            let x = join(&a, &s.decode(i / n));
            block_case((i % n) as usize / AROUND.len(), (i % n) as usize % AROUND.len(), &x, &cf, ctx);
        }));
    }
    {
        const LOOKS: &[&str] = &["h1. x", "bc. x", "bq.. x", "* a\n* b", "|a|b|\n|c|d|", "- a := b", "fn1. x", "note#n. x", "notelist.", "[al]http://h/", "###. x", "<div>\n</div>", "a\n  b\n\tc", " lead", "a  b ", "\"a\":al", "p. ",
            "@x@", "==x==", "<pre>x</pre>", "<code>y</code>", "a @b@ c ==d== <pre>e</pre>", "&#38; &quot; &nope; &", "a\u{a0}\t\u{2028}b", "textileRef:V:1:shelve", "\"q\" 'q' -- ... (c) 1/2 ABC(d)", "<!-- c -->", "<p>notelist.</p>",
            "<script>if (a < b && c > d) { x = \"y\"; }</script>", "<style>p > a { color: red; }</style>", "<hr />", "<p>x", "<p>a\nb</p>", "<a href=\"/x?a=1&b=2\">t</a>"];
        let p = Prod(vec![FORMS.len(), AROUND.len(), LOOKS.len(), LOOKS.len() + 1]);
        f.push(Family::new("markup as raw text", format!("{} block forms x {} surroundings x all pairs of {} pieces of markup on lines", FORMS.len(), AROUND.len(), LOOKS.len()), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let x = if v[3] == 0 { LOOKS[v[2]].to_string() } else { format!("{}\n{}", LOOKS[v[2]], LOOKS[v[3] - 1]) };
            block_case(v[0], v[1], &x, &[D, R], ctx);
        }));
        let p = Prod(vec![LOOKS.len(), LOOKS.len(), if q { 1 } else { LOOKS.len() }, 4]);
        f.push(Family::new("extended raw blocks", format!("all pairs{} of {} parts x 4 ways to end", if q { "" } else { " and triples" }, LOOKS.len()), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let mut xs: Vec<&str> = vec![LOOKS[v[0]], LOOKS[v[1]]];
            if v[2] > 0 { xs.push(LOOKS[v[2]]); }
            if xs[1..].iter().any(|x| marked(x) || *x == "p. ") { return; }
            let (e, he) = [("", ""), ("\n\np. end", "\n\n<p>end</p>"), ("\n\nbc. end", "\n\n<pre><code>end</code></pre>"), ("\n\nnotextile. <i>", "\n\n<i>")][v[3]];
            let text = xs.join("\n\n");
            if e.is_empty() && text.ends_with(|c: char| c.is_whitespace()) { return; }
            let doc = format!("notextile.. {text}{e}");
            passes(ctx, &D, &doc, &format!("§{he}"), &text);
            if v[3] < 3 { passes(ctx, &R, &doc, &format!("§{he}"), &text); }
        }));
        // several raw passages in one paragraph do not mix
        let p = Prod(vec![LOOKS.len(), LOOKS.len(), 3]);
        f.push(Family::new("two raw passages", format!("all pairs of {} raw texts in one paragraph, 3 forms", LOOKS.len()), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let (a, b) = (LOOKS[v[0]], LOOKS[v[1]]);
            let (o, e) = [("==", "=="), ("<notextile>", "</notextile>"), ("[==", "==]")][v[2]];
            if breaks(a) || breaks(b) || a.contains("==") || b.contains("==") || a.contains("notextile") || b.contains("notextile") { return; }
            let doc = format!("x {o}{a}{e} y {o}{b}{e} z");
            ctx.mark_nontrivial(&doc);
            ctx.expect(&D, &doc, &format!("<p>x {a} y {b} z</p>"));
            ctx.expect(&Cfg::of("x"), &doc, &format!("<p>x {a} y {b} z</p>"));
            ctx.expect(&Cfg::of("w"), &doc, &format!("<p>x {a} y {b} z</p>"));
        }));
    }
    {
        let (s, a) = (Seqs::new(SMALL.len(), 3, if q { 4 } else { 6 }), toks(SMALL));
        f.push(Family::new("long raw texts", format!("inline and block, all sequences of 3..={} of {} tokens", s.hi, a.len()), s.size() * 2, move |i, ctx| {
            let x = join(&a, &s.decode(i / 2));
            if i % 2 == 0 { inline_case(0, &pos[0], &x, &[D], ctx) } else { block_case(0, 0, &x, &[D], ctx) }
        }));
    }
    f.push(many_family(q, &[("==<c№>==", "<c№>"), ("[==*c№*==]", "*c№*"), ("<notextile>*№</notextile>", "*№"), ("\"x ==*№== y\":/u", "<a href=\"/u\">x *№ y</a>")], (" ", " "), ("§ z", "<p>§ z</p>"), vec![D]));
    f.push(many_family(q, &[("notextile. *c№*", "*c№*"), ("p. ==*№*==", "<p>*№*</p>")], ("\n\n", "\n\n"), ("§", "§"), vec![D]));
    f.push(crate::space::long_family(&[("==§==", "<p>§</p>"), ("x ==*¤*== y", "<p>x *¤* y</p>"), ("notextile. *¤*", "*¤*"), ("notextile.. *¤*\n\n*¤*\n\np. x", "*¤*\n\n*¤*\n\n<p>x</p>")], vec![D]));
    Property { id: "C11", level: "model_checking", rule: "raw text is present in the document", assumptions: vec!["a typed break tag that no line end follows gets one in raw text as well", "texts without blank lines, except in extended blocks"], families: f }
}
