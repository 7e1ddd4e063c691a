//! C10: code and preformatted text is shown verbatim.
use crate::engine::*;
use crate::htmltok::*;
use crate::space::*;
use crate::{Property, Tier};

/// Everything with a meaning somewhere else.
const ALPHA: &[&str] = &[
    "a", " ", "\n", "*", "_", "-", "<b>", "&", "&amp;", "\"", "'", "==", "--", "...", "(c)", "|", "[1]", "\":/u", "!i.png!", "h1. ", "# ", "http://h", "<!--", "-->", "ABC", " x ", "$1",
    "\\", "é", "</code>", "</pre>", "<br>", "%", "[#n]", "notelist.", "1",
];
const SMALL: &[&str] = &["a", " ", "\n", "*", "_", "<b>", "&lt;", "\"", "'", "--", "|", "\":/u", "ABC", "</pre>"];

/// Positions of inline code.
pub fn positions() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = HOSTS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    for (a, b) in [
        ("\"x § y\":/u", "<a href=\"/u\">x § y</a>"), ("(§)", "(§)"), ("a § b", "a § b"), ("§, b", "§, b"), ("[§]b", "§b"), ("[§, b]", "[§, b]"), ("[§ b", "[§ b"), ("{§}", "{§}"), ("a (§, b)", "a (§, b)"), ("§]", "§]"), ("§ § §", "§ § §"),
        ("*x* § _y_", "<strong>x</strong> § <em>y</em>"), ("it's § -- b", "it&#8217;s § &#8212; b"),
    ] { v.push(fill(HOSTS[0], a, b)); }
    for (a, b) in PHRASES { v.push(fill(HOSTS[0], &a.replace('§', "x § y"), &b.replace('§', "x § y"))); }
    v.push(fill(HOSTS[7], "*x § y*", "<strong>x § y</strong>"));
    v.push(fill(HOSTS[10], "\"x § y\":/u", "<a href=\"/u\">x § y</a>"));
    v.push(("bq.:http://h/ §".into(), "<blockquote cite=\"http://h/\">\n\t<p>§</p>\n</blockquote>".into()));
    v
}

fn verbatim(ctx: &mut Ctx, c: &Cfg, doc: &str, frame: &[&str], x: &[&str]) {
    let Some(out) = ctx.must(c, doc) else { return };
    ctx.validated += 1;
    ctx.mark_nontrivial(doc);
    // the text sits between the known pieces of the output
    let mut rest = out.as_str();
    for (n, f) in frame.iter().enumerate() {
        if n == 0 {
            match rest.strip_prefix(f) { Some(r) => rest = r, None => { ctx.fail(c, doc, format!("output {out:?} does not start with {f:?}")); return; } }
            continue;
        }
        let last = n + 1 == frame.len();
        let Some(p) = (if last { rest.len().checked_sub(f.len()).filter(|p| rest.is_char_boundary(*p) && &rest[*p..] == *f) } else { rest.find(f) }) else {
            ctx.fail(c, doc, format!("output {out:?} lacks {f:?} after the code"));
            return;
        };
        let got = &rest[..p];
        let toks = tokenize(got);
        let shown: String = toks.iter().map(|t| match t { Tok::Text(s) => s.as_str(), _ => "" }).collect();
        if toks.iter().any(|t| !matches!(t, Tok::Text(_))) { ctx.fail(c, doc, format!("there is markup in the code: {got:?}")); return; }
        if shown != x[n - 1] { ctx.fail(c, doc, format!("the code is shown as {shown:?}, written as {:?}", x[n - 1])); return; }
        rest = &rest[p + f.len()..];
    }
}

fn framed(ctx: &mut Ctx, c: &Cfg, doc: &str, html: &str, x: &[&str]) {
    let f: Vec<&str> = html.split('§').collect();
    let xs: Vec<&str> = if x.len() == 1 { vec![x[0]; f.len() - 1] } else { x.to_vec() };
    verbatim(ctx, c, doc, &f, &xs);
}

pub fn blank_line(x: &str) -> bool {
    let l: Vec<&str> = x.split('\n').collect();
    l.len() > 2 && l[1..l.len() - 1].iter().any(|s| s.trim().is_empty())
}

/// Inline forms: (opening, closing, restricted mode too, may not contain).
const INLINE: &[(&str, &str, bool, &str)] = &[("@", "@", true, "@"), ("[@", "@]", true, "@"), ("<code>", "</code>", false, "</code>")];

fn inline_case(form: usize, pos: &(String, String), x: &str, cfgs: &[Cfg], ctx: &mut Ctx) {
    let (o, e, restr, no) = INLINE[form];
    if x.contains(no) || blank_line(x) || x.matches("==").count() > 1 { return; }
    if x.contains("==") && pos.0.matches('§').count() > 1 { return; }
    if o == "[@" && pos.0.starts_with("[§") { return; }
    if x.contains('\n') && pos.0.contains("note#") { return; }
    let doc = pos.0.replace('§', &format!("{o}{x}{e}"));
    let html = pos.1.replace('§', "<code>§</code>");
    for c in cfgs {
        if c.restricted && (!restr || html.contains("class=\"k\"")) { continue; }
        let html = if c.xhtml { html.replace("<br>", "<br />") } else { html.clone() };
        framed(ctx, c, &doc, &html, &[x]);
    }
}

/// Block forms; the text stands at §.
const BLOCKS: &[(&str, &str)] = &[
    ("bc. §", "<pre><code>§</code></pre>"), ("bc(k). §", "<pre class=\"k\"><code>§</code></pre>"), ("bc[ruby]. §", "<pre><code class=\"ruby\">§</code></pre>"),
    ("pre. §", "<pre>§</pre>"), ("pre(#i). §", "<pre id=\"i\">§</pre>"), ("bc.. §", "<pre><code>§</code></pre>"), ("pre.. §", "<pre>§</pre>"),
];
const AROUND: &[(&str, &str)] = &[
    ("§", "§"), ("a\n\n§\n\nb. b", "<p>a</p>\n\n§\n\n<p>b. b</p>"), ("bq. a\n\n§\n\np. b", "<blockquote>\n\t<p>a</p>\n</blockquote>\n\n§\n\n<p>b</p>"),
    ("bc.. a\n\n§\n\n* b", "<pre><code>a</code></pre>\n\n§\n\n<ul>\n\t<li>b</li>\n</ul>"), ("###. a\n\n§\n\nbc. b", "§\n\n<pre><code>b</code></pre>"),
];

pub fn marked(x: &str) -> bool {
    ["p", "bq", "bc", "pre", "notextile", "###", "h1", "fn1"].iter().any(|t| x.starts_with(&format!("{t}. ")) || x.starts_with(&format!("{t}.. ")))
}

fn block_case(form: usize, around: usize, x: &str, cfgs: &[Cfg], ctx: &mut Ctx) {
    if blank_line(x) || x.ends_with('\n') || x.lines().last().map_or(true, |l| l.trim().is_empty()) || x.trim().is_empty() { return; }
    if x.starts_with("\n\n") || x.starts_with("\n \n") { return; }
    let (d, h) = BLOCKS[form];
    let (ad, ah) = AROUND[around];
    // an extended block goes on over unmarked blocks
    if d.contains("..") && (ad.contains("b. b") || ad.contains("* b")) { return; }
    let doc = ad.replace('§', d).replace('§', x);
    let html = ah.replace('§', h);
    for c in cfgs {
        if c.restricted && (d.contains("(k)") || d.contains("(#i)")) { continue; }
        framed(ctx, c, &doc, &html, &[x]);
    }
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let dr = vec![D, R];
    let pos: &'static Vec<(String, String)> = Box::leak(Box::new(positions()));
    let al = toks(ALPHA);
    {
        let (s, n, a, cf) = (Seqs::new(ALPHA.len(), 1, if q { 1 } else { 2 }), pos.len() as u64 * 3, al.clone(), Cfg::product("rx"));
        f.push(Family::new("inline code in every position", format!("{} positions x 3 forms x all sequences of 1..={} of {} tokens x 4 configs", pos.len(), s.hi, a.len()), s.size() * n, move |i, ctx| {
            let x = join(&a, &s.decode(i / n));
            inline_case((i % 3) as usize, &pos[(i % n / 3) as usize], &x, &cf, ctx);
        }));
    }
    {
        const TAGS: &[(&str, &str)] = &[("<b>§</b>", "<p><b>§</b></p>"), ("x <span class=\"k\">§</span> y", "<p>x <span class=\"k\">§</span> y</p>"), ("x <i>§</i>, <b>§</b>", "<p>x <i>§</i>, <b>§</b></p>"), ("h2. <b>§</b> x", "<h2><b>§</b> x</h2>"), ("<div>§</div>", "<div>§</div>"), ("|<b>§</b>|x|", "\t<table>\n\t\t<tr>\n\t\t\t<td><b>§</b></td>\n\t\t\t<td>x</td>\n\t\t</tr>\n\t</table>")];
        let pos: &'static Vec<(String, String)> = Box::leak(Box::new(TAGS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()));
        let (s, n, a, cf) = (Seqs::new(ALPHA.len(), 1, if q { 1 } else { 2 }), pos.len() as u64 * 3, al.clone(), vec![D, Cfg::of("x")]);
        f.push(Family::new("inline code between tags", format!("{} positions x 3 forms x all sequences of 1..={} of {} tokens x 2 configs", pos.len(), s.hi, a.len()), s.size() * n, move |i, ctx| {
            let x = join(&a, &s.decode(i / n));
            inline_case((i % 3) as usize, &pos[(i % n / 3) as usize], &x, &cf, ctx);
        }));
    }
    for (name, p) in [("inline code", 0usize), ("inline code in a list", 7), ("inline code in a table", 11), ("inline code in a link", 22)] {
        let (s, a, cf) = (Seqs::new(ALPHA.len(), 2, if p == 0 && !q { 4 } else if p == 0 || !q { 3 } else { 2 }), al.clone(), dr.clone());
        f.push(Family::new(name, format!("3 forms x all sequences of 2..={} of {} tokens x 2 configs", s.hi, a.len()), s.size() * 3, move |i, ctx| {
            let x = join(&a, &s.decode(i / 3));
            inline_case((i % 3) as usize, &pos[p], &x, &cf, ctx);
        }));
    }
    {
        let (s, a, cf) = (Seqs::new(ALPHA.len(), 1, if q { 2 } else { 3 }), al.clone(), dr.clone());
        let n = (BLOCKS.len() * AROUND.len()) as u64;
        f.push(Family::new("code blocks", format!("{} block forms x {} surroundings x all sequences of 1..={} of {} tokens x 2 configs", BLOCKS.len(), AROUND.len(), s.hi, a.len()), s.size() * n, move |i, ctx| {
            let x = join(&a, &s.decode(i / n));
            block_case((i % n) as usize / AROUND.len(), (i % n) as usize % AROUND.len(), &x, &cf, ctx);
        }));
    }
    {
        // code text that looks like the start of a block, and long mixtures
        const LOOKS: &[&str] = &["h1. x", "bc. x", "bq.. x", "* a\n* b", "|a|b|\n|c|d|", "- a := b", "fn1. x", "note#n. x", "notelist.", "[al]http://h/", "###. x", "<div>\n</div>", "a\n  b\n\tc", " lead", "a  b ", "\"a\":al", "p. ",
            "<notextile>x</notextile>", "@x@", "==x==", "<pre>x</pre>", "<code>y</code>", "a @b@ c ==d== <pre>e</pre>", "&#38; &quot; &nope; &", "a\u{a0}\t\u{2028}b", "textileRef:V:1:shelve", "\"q\" 'q' -- ... (c) 1/2 ABC(d)", "<!-- c -->", "<br>a<br />b"];
        let p = Prod(vec![BLOCKS.len(), AROUND.len(), LOOKS.len(), LOOKS.len() + 1]);
        f.push(Family::new("markup as code", format!("{} block forms x {} surroundings x all pairs of {} pieces of markup on lines", BLOCKS.len(), AROUND.len(), LOOKS.len()), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let x = if v[3] == 0 { LOOKS[v[2]].to_string() } else { format!("{}\n{}", LOOKS[v[2]], LOOKS[v[3] - 1]) };
            block_case(v[0], v[1], &x, &[D, R], ctx);
        }));
        // extended blocks of several parts
        let p = Prod(vec![4, LOOKS.len(), LOOKS.len(), if q { 1 } else { LOOKS.len() }, 3]);
        f.push(Family::new("extended code blocks", format!("4 forms x all pairs{} of {} parts x 3 ways to end", if q { "" } else { " and triples" }, LOOKS.len()), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let mut xs: Vec<&str> = vec![LOOKS[v[1]], LOOKS[v[2]]];
            if v[3] > 0 { xs.push(LOOKS[v[3]]); }
            if xs[1..].iter().any(|x| marked(x) || *x == "p. ") { return; }
            let (o, ho, hc) = [("bc.. ", "<pre><code>", "</code></pre>"), ("pre.. ", "<pre>", "</pre>"), ("bc(k).. ", "<pre class=\"k\"><code>", "</code></pre>"), ("bc[c].. ", "<pre><code class=\"c\">", "</code></pre>")][v[0]];
            let (e, he) = [("", ""), ("\n\np. end", "\n\n<p>end</p>"), ("\n\nbc. end", "\n\n<pre><code>end</code></pre>")][v[4]];
            let text = xs.join("\n\n");
            if e.is_empty() && text.ends_with(|c: char| c.is_whitespace()) { return; }
            let doc = format!("{o}{text}{e}");
            for c in [D, R] {
                if c.restricted && o.contains("(k)") { continue; }
                verbatim(ctx, &c, &doc, &[ho, &format!("{hc}{he}")], &[&text]);
            }
        }));
    }
    {
        // <pre> tags
        const PP: &[(&str, &str)] = &[("<pre>§</pre>", "<pre>§</pre>"), ("a\n\n<pre>§</pre>\n\nb", "<p>a</p>\n\n<pre>§</pre>\n\n<p>b</p>"), ("bq. a\n\n<pre>§</pre>", "<blockquote>\n\t<p>a</p>\n</blockquote>\n\n<pre>§</pre>")];
        let (s, a) = (Seqs::new(ALPHA.len(), 1, if q { 2 } else { 3 }), al.clone());
        f.push(Family::new("preformatted tags", format!("{} surroundings x all sequences of 1..={} of {} tokens", PP.len(), s.hi, a.len()), s.size() * 3, move |i, ctx| {
            let x = join(&a, &s.decode(i / 3));
            if x.contains("</pre>") || blank_line(&x) || x.matches("==").count() > 1 { return; }
            let (d, h) = PP[(i % 3) as usize];
            framed(ctx, &D, &d.replace('§', &x), h, &[&x]);
        }));
    }
    {
        let (s, a) = (Seqs::new(SMALL.len(), 3, if q { 4 } else { 6 }), toks(SMALL));
        f.push(Family::new("long code texts", format!("inline code and code block, all sequences of 3..={} of {} tokens", s.hi, a.len()), s.size() * 2, move |i, ctx| {
            let x = join(&a, &s.decode(i / 2));
            if i % 2 == 0 { inline_case(0, &pos[0], &x, &[D], ctx) } else { block_case(0, 0, &x, &[D], ctx) }
        }));
    }
    f.push(many_family(q, &[("@c№@", "<code>c№</code>"), ("[@c№@]", "<code>c№</code>"), ("<code>c№</code>", "<code>c№</code>"), ("\"a @c№@\":/u", "<a href=\"/u\">a <code>c№</code></a>"), ("*a @c№@*", "<strong>a <code>c№</code></strong>")], (" ", " "), ("§", "<p>§</p>"), vec![D]));
    f.push(many_family(q, &[("bc. c№", "<pre><code>c№</code></pre>"), ("pre. c№", "<pre>c№</pre>"), ("bc[l]. c№", "<pre><code class=\"l\">c№</code></pre>")], ("\n\n", "\n\n"), ("§", "§"), vec![D]));
    f.push(crate::space::long_family(&[("@§@", "<p><code>§</code></p>"), ("x @¤@ y", "<p>x <code>¤</code> y</p>"), ("bc. ¤", "<pre><code>¤</code></pre>"), ("pre. ¤", "<pre>¤</pre>"), ("bc.. ¤\n\n¤\n\np. x", "<pre><code>¤\n\n¤</code></pre>\n\n<p>x</p>")], vec![D, R]));
    Property { id: "C10", level: "model_checking", rule: "code is present in the document", assumptions: vec!["the markers of raw text (==, notextile) take precedence over inline code", "texts without blank lines, except in extended blocks"], families: f }
}
