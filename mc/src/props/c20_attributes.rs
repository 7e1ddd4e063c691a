//! C20: classes, ids, styles, languages, alignment and padding are applied.
use super::c16_lists::norm;
use crate::engine::*;
use crate::{Property, Tier};

/// The attributes of one element.
#[derive(Clone, Default)]
struct Att { class: Option<String>, id: Option<String>, lang: Option<String>, style: Vec<String> }
impl Att {
    fn render(&self) -> String {
        let mut s = String::new();
        for (k, v) in [("class", &self.class), ("id", &self.id), ("lang", &self.lang)] { if let Some(v) = v { s += &format!(" {k}=\"{v}\""); } }
        if !self.style.is_empty() { s += &format!(" style=\"{};\"", self.style.join("; ")); }
        s
    }
}
/// What follows the bracketed attributes of an element, and where they go.
/// A: alignment before and after, T: alignment before, C: none.
/// In the output ¤ stands for the attributes; ¤B: of a code block (language on
/// the code element, at ¤L); ¤F: of a footnote (default class and id), ¤S its number.
const ELEMS: &[(char, &str, &str)] = &[
    ('A', "p§. x", "<p¤>x</p>"), ('A', "h1§. x", "<h1¤>x</h1>"), ('A', "h6§. x", "<h6¤>x</h6>"), ('A', "h3§. *x*\ny", "<h3¤><strong>x</strong><br>\ny</h3>"),
    ('A', "bq§. x", "<blockquote¤><p¤>x</p></blockquote>"), ('A', "bq§.. x\n\ny\n\np. z", "<blockquote¤><p¤>x</p><p¤>y</p></blockquote><p>z</p>"), ('A', "bq§.:http://h/ x", "<blockquote cite=\"http://h/\"¤><p¤>x</p></blockquote>"),
    ('A', "bc§. x", "<pre¤B><code¤L>x</code></pre>"), ('A', "bc§.. x\n\ny", "<pre¤B><code¤L>x\n\ny</code></pre>"), ('A', "pre§. x", "<pre¤>x</pre>"), ('A', "pre§.. x\n\ny", "<pre¤>x\n\ny</pre>"),
    ('A', "p§.. x\n\ny", "<p¤>x</p><p¤>y</p>"), ('A', "notextile§. x", "x"), ('A', "###§. x\n\ny", "<p>y</p>"), ('A', "h2§.. x\n\ny\n\np. z", "<h2¤>x</h2><h2¤>y</h2><p>z</p>"),
    ('A', "fn1§. x", "<p¤F><sup¤S>1</sup> x</p>"), ('A', "a[1]\n\nfn1§. x", "<p>a<sup class=\"footnote\" id=\"fnrevU-1\"><a href=\"#fnU-1\">1</a></sup></p><p¤F><sup¤S>1</sup> x</p>"), ('A', "fn1^§. x", "<p¤F><sup¤S><a href=\"#fnrevU-1\">1</a></sup> x</p>"),
    ('C', "*§x*", "<p><strong¤>x</strong></p>"), ('C', "**§x**", "<p><b¤>x</b></p>"), ('C', "_§x_", "<p><em¤>x</em></p>"), ('C', "__§x__", "<p><i¤>x</i></p>"), ('C', "??§x??", "<p><cite¤>x</cite></p>"), ('C', "-§x-", "<p><del¤>x</del></p>"), ('C', "+§x+", "<p><ins¤>x</ins></p>"), ('C', "~§x~", "<p><sub¤>x</sub></p>"), ('C', "^§x^", "<p><sup¤>x</sup></p>"), ('C', "%§x%", "<p><span¤>x</span></p>"),
    ('C', "[*§x*]", "<p><strong¤>x</strong></p>"), ('C', "a _§x y_, b", "<p>a <em¤>x y</em>, b</p>"), ('C', "*:http://h/ x* %§x%", "<p><strong cite=\"http://h/\">x</strong> <span¤>x</span></p>"),
    ('C', "\"§x\":http://h/", "<p><a¤ href=\"http://h/\">x</a></p>"), ('C', "[\"§x(t)\":http://h/]", "<p><a¤ href=\"http://h/\" title=\"t\">x</a></p>"), ('C', "\"§!a.png!\":http://h/", "<p><a¤ href=\"http://h/\"><img alt=\"\" src=\"a.png\" /></a></p>"), ('C', "\"§*x* y\":/u", "<p><a¤ href=\"/u\"><strong>x</strong> y</a></p>"), ('C', "a \"§x\":z b\n[z]/u", "<p>a <a¤ href=\"/u\">x</a> b</p>"),
    ('C', "!§a.png!", "<p><img¤ alt=\"\" src=\"a.png\" /></p>"), ('C', "!§a.png(t)!:http://h/", "<p><a href=\"http://h/\"><img¤ alt=\"t\" src=\"a.png\" title=\"t\" /></a></p>"), ('C', "!§. a.png!", "<p><img¤ alt=\"\" src=\"a.png\" /></p>"),
    ('T', "|§. x|", "<table><tr><td¤>x</td></tr></table>"), ('T', "|_§. x|", "<table><tr><th¤>x</th></tr></table>"), ('T', "|\\2§. x|", "<table><tr><td colspan=\"2\"¤>x</td></tr></table>"), ('T', "|/3§. x|y|", "<table><tr><td rowspan=\"3\"¤>x</td><td>y</td></tr></table>"), ('T', "|y|§. x|\n|z|", "<table><tr><td>y</td><td¤>x</td></tr><tr><td>z</td></tr></table>"),
    ('T', "§. |x|", "<table><tr¤><td>x</td></tr></table>"), ('T', "|a|\n§. |b|\n|c|", "<table><tr><td>a</td></tr><tr¤><td>b</td></tr><tr><td>c</td></tr></table>"),
    ('T', "table§. s\n|x|", "<table¤ summary=\"s\"><tr><td>x</td></tr></table>"), ('T', "table§.\n|x|", "<table¤><tr><td>x</td></tr></table>"), ('T', "|=§. c\n|x|", "<table><caption¤>c</caption><tr><td>x</td></tr></table>"),
    ('T', "|:§. |\n|x|", "<table><colgroup¤></colgroup><tr><td>x</td></tr></table>"), ('T', "|:§. 100|\n|x|", "<table><colgroup¤ width=\"100\"></colgroup><tr><td>x</td></tr></table>"), ('T', "|:\\2§. 100|\n|x|", "<table><colgroup¤ span=\"2\" width=\"100\"></colgroup><tr><td>x</td></tr></table>"),
    ('T', "|^§.\n|x|", "<table><thead¤><tr><td>x</td></tr></thead></table>"), ('T', "|-§.\n|x|", "<table><tbody¤><tr><td>x</td></tr></tbody></table>"), ('T', "|~§.\n|x|", "<table><tfoot¤><tr><td>x</td></tr></tfoot></table>"),
    ('C', "*§ x", "<ul¤><li>x</li></ul>"), ('C', "* x\n*§ y\n* z", "<ul><li>x</li><li¤>y</li><li>z</li></ul>"), ('C', "* x\n**§ y", "<ul><li>x<ul¤><li>y</li></ul></li></ul>"), ('C', "* x\n** y\n*§ z", "<ul><li>x<ul><li>y</li></ul></li><li¤>z</li></ul>"), ('C', "#§ x", "<ol¤><li>x</li></ol>"), ('C', "#5§ x", "<ol start=\"5\"¤><li>x</li></ol>"), ('C', "# x\n#§ y", "<ol><li>x</li><li¤>y</li></ol>"),
    ('C', ";§ x\n: y", "<dl¤><dt>x</dt><dd>y</dd></dl>"), ('C', "; x\n:§ y", "<dl><dt>x</dt><dd¤>y</dd></dl>"), ('C', "; x\n: y\n;§ z", "<dl><dt>x</dt><dd>y</dd><dt¤>z</dt></dl>"), ('C', "-§ x := y", "<dl><dt¤>x</dt><dd>y</dd></dl>"),
    ('C', "a[§#n]\n\nnote#n. x\n\nnotelist.", "<p>a<sup¤><a href=\"#noteU-2\"><span id=\"noterefU-1\">1</span></a></sup></p><ol><li><sup><a href=\"#noterefU-1\">a</a></sup><span id=\"noteU-2\"> </span>x</li></ol>"),
    ('C', "a[#n]\n\nnote#n§. x\n\nnotelist.", "<p>a<sup><a href=\"#noteU-2\"><span id=\"noterefU-1\">1</span></a></sup></p><ol><li¤><sup><a href=\"#noterefU-1\">a</a></sup><span id=\"noteU-2\"> </span>x</li></ol>"), ('C', "a[#n]\n\nnote#n!§. x\n\nnotelist.", "<p>a<sup><a href=\"#noteU-2\"><span id=\"noterefU-1\">1</span></a></sup></p><ol><li¤><span id=\"noteU-2\"> </span>x</li></ol>"), ('C', "note#n§. x\n\nnotelist+.", "<ol><li¤>x</li></ol>"),
    ('C', "a[#n]\n\nnote#n. x\n\nnotelist§.", "<p>a<sup><a href=\"#noteU-2\"><span id=\"noterefU-1\">1</span></a></sup></p><ol¤><li><sup><a href=\"#noterefU-1\">a</a></sup><span id=\"noteU-2\"> </span>x</li></ol>"), ('C', "note#n. x\n\nnotelist§:1^+.", "<ol¤><li>x</li></ol>"),
];
/// (source, class, id)
const CLS: &[(&str, &str, &str)] = &[
    ("", "", ""), ("(k)", "k", ""), ("(#i)", "", "i"), ("(k d#i)", "k d", "i"), ("(w-1/2 K_2.b)", "w-1/2 K_2.b", ""), ("(#A-1_b.c:d)", "", "A-1_b.c:d"), ("(é)", "", ""), ("(a=b)", "", ""), ("(k#é)", "k", ""), ("(é#i)", "", "i"), ("(k#)", "k", ""), ("(#)", "", ""), ("(k!)", "", ""), ("(a[b)", "a[b", ""), ("(a]b)", "a]b", ""), ("(#i#j)", "", ""), ("(#i j)", "", ""),
];
const STY: &[(&str, &[&str])] = &[("", &[]), ("{color:red}", &["color:red"]), ("{color:red; margin:0 1px;}", &["color:red", "margin:0 1px"]), ("{background:url(x/2.png)}", &["background:url(x/2.png)"]), ("{a:#fff;b:c}", &["a:#fff", "b:c"]), ("{a:\\2 >}", &["a:\\2 &gt;"]), ("{a:(}", &["a:("]), ("{a:b)}", &["a:b)"]), ("{x:a=b}", &["x:a=b"])];
const LNG: &[(&str, &str)] = &[("", ""), ("[fr]", "fr"), ("[en-US]", "en-US"), ("[x y]", ""), ("[é]", ""), ("[x_1]", "x_1")];
const ORD: &[[usize; 3]] = &[[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
/// Alignment marks: (source, left padding, right padding, alignment)
const ALI: &[(&str, usize, usize, &str)] = &[
    ("", 0, 0, ""), ("<", 0, 0, "left"), (">", 0, 0, "right"), ("=", 0, 0, "center"), ("<>", 0, 0, "justify"), ("(", 1, 0, ""), ("((", 2, 0, ""), (")", 0, 1, ""), (")))", 0, 3, ""), ("()", 1, 1, ""), ("(())", 2, 2, ""), ("(>", 1, 0, "right"), (">(", 1, 0, "right"), (")<>", 0, 1, "justify"), ("=)", 0, 1, "center"), ("()<", 1, 1, "left"), ("<())", 1, 2, "left"), ("))=(", 1, 2, "center"),
];

fn bracketed(v: [usize; 4]) -> Option<(String, Att)> {
    let part = [CLS[v[0]].0, STY[v[1]].0, LNG[v[2]].0];
    let src = |o: usize| -> String { ORD[o].iter().map(|k| part[*k]).collect() };
    let s = src(v[3]);
    // a bracket in a class and a language can be read in two ways
    if part[0].contains(['[', ']']) && !part[2].is_empty() { return None; }
    // every spelling once
    if (0..v[3]).any(|o| src(o) == s) { return None; }
    let some = |x: &str| if x.is_empty() { None } else { Some(x.to_string()) };
    Some((s, Att { class: some(CLS[v[0]].1), id: some(CLS[v[0]].2), lang: some(LNG[v[2]].1), style: STY[v[1]].1.iter().map(|x| x.to_string()).collect() }))
}
fn place(c: &Cfg, e: (char, &str, &str), src: &str, a: &Att) -> (String, String) {
    let mut a = a.clone();
    if c.restricted { a.class = None; a.id = None; }
    let mut h = e.2.to_string();
    if h.contains("¤B") {
        let l = a.lang.take();
        h = h.replace("¤B", &a.render()).replace("¤L", &l.map(|l| format!(" class=\"{l}\"")).unwrap_or_default());
    } else if h.contains("¤F") {
        let s = if a.id.is_some() { " id=\"fnU-1\"" } else { "" };
        a.class.get_or_insert("footnote".into());
        a.id.get_or_insert("fnU-1".into());
        h = h.replace("¤F", &a.render()).replace("¤S", s);
    } else { h = h.replace('¤', &a.render()); }
    (e.1.replace('§', src), h)
}
fn judge(ctx: &mut Ctx, c: &Cfg, doc: &str, want: &str) {
    let want = if c.xhtml { want.replace("<br>", "<br />") } else { want.to_string() };
    if let Some(got) = ctx.must(c, doc) {
        ctx.validated += 1;
        if norm(&got) != norm(&want) { ctx.fail(c, doc, format!("output {got:?}, the model requires the structure of {want:?}")); }
    }
}
/// The attributes of a note list are typeset before they are read.
fn skip(e: (char, &str, &str), v: [usize; 4]) -> bool {
    e.1.contains("notelist§") && STY[v[1]].0.contains('>')
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let cfgs = if q { vec![D, R] } else { vec![D, R, Cfg::of("x"), Cfg::of("rx")] };
    let n = cfgs.len();
    let p = Prod(vec![ELEMS.len(), CLS.len(), STY.len(), LNG.len(), ORD.len(), n]);
    f.push(Family::new("attribute lists on every element", format!("{} elements x {} classes and ids x {} styles x {} languages x every order{}, {n} configs", ELEMS.len(), CLS.len(), STY.len(), LNG.len(), if q { " (lists of all three: the first 3, 2 and 1 of them)" } else { "" }), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let k = [v[1], v[2], v[3], v[4]];
        if skip(ELEMS[v[0]], k) { return; }
        if q && v[1] > 0 && v[2] > 0 && v[3] > 0 && (v[1] > 3 || v[2] > 2 || v[3] > 1) { return; }
        let Some((s, mut a)) = bracketed(k) else { return };
        let c = &cfgs[v[5]];
        if c.restricted { a.style.clear(); }
        let (d, h) = place(c, ELEMS[v[0]], &s, &a);
        if !s.is_empty() { ctx.mark_nontrivial(&d); }
        judge(ctx, c, &d, &h);
    }));
    // alignment and padding around bracketed attributes
    const SMALL: &[[usize; 4]] = &[[0, 0, 0, 0], [1, 0, 0, 0], [2, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [3, 2, 1, 0], [1, 1, 0, 2], [0, 2, 2, 5], [6, 0, 0, 0]];
    let al: Vec<usize> = (0..ELEMS.len()).filter(|x| ELEMS[*x].0 != 'C').collect();
    let p = Prod(vec![al.len(), ALI.len(), ALI.len(), SMALL.len(), 2]);
    f.push(Family::new("alignment and padding", format!("{} blocks and table parts x {2}^2 alignments before and after x {1} bracketed attributes, plain and restricted", al.len(), SMALL.len(), ALI.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let e = ELEMS[al[v[0]]];
        let (x, y) = (ALI[v[1]], ALI[v[2]]);
        let c = if v[4] == 1 { R } else { D };
        if e.0 == 'T' && v[2] > 0 { return; }
        // this would be a caption
        if e.1.starts_with("|§") && x.0.starts_with('=') { return; }
        // one mark of each kind
        if (x.1 > 0 && y.1 > 0) || (x.2 > 0 && y.2 > 0) || (!x.3.is_empty() && !y.3.is_empty()) { return; }
        let Some((s, mut a)) = bracketed(SMALL[v[3]]) else { return };
        if c.restricted { a.style.clear(); }
        // parentheses around an alignment would be a class
        let plain: String = format!("{}{}", x.0, y.0);
        if plain.split('(').skip(1).any(|t| t.find(|c| !"<>=".contains(c)).is_some_and(|k| k > 0 && t[k..].starts_with(')'))) { return; }
        // next to each other they would be another mark
        if plain.contains("<>") && !(x.0.contains("<>") || y.0.contains("<>")) { return; }
        // restricted mode escapes angle brackets
        if c.restricted && plain.contains(['<', '>']) { return; }
        let (l, r) = (x.1.max(y.1), x.2.max(y.2));
        if l > 0 { a.style.push(format!("padding-left:{l}em")); }
        if r > 0 { a.style.push(format!("padding-right:{r}em")); }
        let h = if x.3.is_empty() { y.3 } else { x.3 };
        if !h.is_empty() { a.style.push(format!("text-align:{h}")); }
        let (d, want) = place(&c, e, &format!("{}{s}{}", x.0, y.0), &a);
        if !plain.is_empty() { ctx.mark_nontrivial(&d); }
        judge(ctx, &c, &d, &want);
    }));
    // any amount of padding
    let al: Vec<usize> = (0..ELEMS.len()).filter(|x| ELEMS[*x].0 != 'C').collect();
    let p = Prod(vec![al.len(), 14, 14, 2]);
    f.push(Family::new("amounts of padding", format!("{} blocks and table parts x padding of 0 to 13 on each side, plain and restricted", al.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (e, l, r) = (ELEMS[al[v[0]]], v[1], v[2]);
        let c = if v[3] == 1 { R } else { D };
        let Some((_, mut a)) = bracketed([0, 0, 0, 0]) else { return };
        if l > 0 { a.style.push(format!("padding-left:{l}em")); }
        if r > 0 { a.style.push(format!("padding-right:{r}em")); }
        let (d, want) = place(&c, e, &format!("{}{}", "(".repeat(l), ")".repeat(r)), &a);
        ctx.mark_nontrivial(&d);
        judge(ctx, &c, &d, &want);
    }));
    // vertical alignment of rows and cells
    let p = Prod(vec![4, 3, ALI.len(), SMALL.len()]);
    f.push(Family::new("vertical alignment", format!("rows and cells x 3 vertical x {} horizontal alignments x {} bracketed attributes", ALI.len(), SMALL.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let e = [("|§. x|", "<table><tr><td¤>x</td></tr></table>"), ("§. |x|", "<table><tr¤><td>x</td></tr></table>"), ("|a|§. x|", "<table><tr><td>a</td><td¤>x</td></tr></table>"), ("|a|\n§. |x|b|", "<table><tr><td>a</td></tr><tr¤><td>x</td><td>b</td></tr></table>")][v[0]];
        let (m, name) = [("^", "top"), ("-", "middle"), ("~", "bottom")][v[1]];
        let x = ALI[v[2]];
        let Some((s, mut a)) = bracketed(SMALL[v[3]]) else { return };
        a.style.insert(0, format!("vertical-align:{name}"));
        if x.1 > 0 { a.style.push(format!("padding-left:{}em", x.1)); }
        if x.2 > 0 { a.style.push(format!("padding-right:{}em", x.2)); }
        if !x.3.is_empty() { a.style.push(format!("text-align:{}", x.3)); }
        let (d, want) = place(&D, ('T', e.0, e.1), &format!("{m}{}{s}", x.0), &a);
        ctx.mark_nontrivial(&d);
        judge(ctx, &D, &d, &want);
    }));
    // two elements with attributes of their own
    const TWO: &[[usize; 4]] = &[[0, 0, 0, 0], [1, 0, 0, 0], [2, 0, 1, 0], [0, 1, 0, 0], [6, 2, 0, 0]];
    let p = Prod(vec![ELEMS.len(), ELEMS.len(), TWO.len(), TWO.len(), 2]);
    f.push(Family::new("two elements", format!("all pairs of {0} elements, each with one of {1} attribute lists, plain and restricted", ELEMS.len(), TWO.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let c = if v[4] == 1 { R } else { D };
        let (x, y) = (ELEMS[v[0]], ELEMS[v[1]]);
        // numbered ids and aliases are shared by a document, extended blocks go on
        if x.1.contains("note") && (y.2.contains("U-") || y.2.contains("¤F") || y.1.starts_with("notextile")) || x.1.starts_with("notextile") && y.1.starts_with("note") { return; }
        if (x.2.contains("U-") || x.2.contains("¤F")) && (y.2.contains("U-") || y.2.contains("¤F")) { return; }
        let note = |e: &str| e.contains("note#") ;
        if note(x.1) && note(y.1) { return; }
        if x.1.contains(".. ") && !x.1.ends_with("\n\np. z") && !["p", "h", "b", "f", "n", "t", "#"].iter().any(|s| y.1.starts_with(s)) { return; }
        if x.1.contains(".. ") && !x.1.ends_with("\n\np. z") && (y.1.starts_with("table") || y.1.starts_with("#") && !y.1.starts_with("###") || note(y.1)) { return; }
        let (mut d, mut h) = (vec![], String::new());
        for (e, k) in [(x, v[2]), (y, v[3])] {
            let (s, mut a) = bracketed(TWO[k]).unwrap();
            if c.restricted { a.style.clear(); }
            let (dd, hh) = place(&c, e, &s, &a);
            d.push(dd);
            h += &hh;
        }
        let d = d.join("\n\n");
        ctx.mark_nontrivial(&d);
        judge(ctx, &c, &d, &h);
    }));
    // phrases, links and images with attributes inside elements with attributes
    let inl: Vec<usize> = (0..ELEMS.len()).filter(|x| ELEMS[*x].0 == 'C' && ELEMS[*x].2.starts_with("<p><") && !ELEMS[*x].1.contains('\n')).collect();
    let hosts: Vec<usize> = (0..ELEMS.len()).filter(|x| ELEMS[*x].1.ends_with("x") || ELEMS[*x].1.ends_with("x|") || ELEMS[*x].1.starts_with("*§x") || ELEMS[*x].1.contains("x\":")).filter(|x| !ELEMS[*x].1.starts_with("bc") && !ELEMS[*x].1.starts_with("pre") && !ELEMS[*x].1.starts_with("notextile")).collect();
    let p = Prod(vec![hosts.len(), inl.len(), TWO.len(), TWO.len()]);
    f.push(Family::new("attributes within attributes", format!("{} elements holding {} phrases, links and images, each with one of {} attribute lists", hosts.len(), inl.len(), TWO.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (x, y) = (ELEMS[hosts[v[0]]], ELEMS[inl[v[1]]]);
        // links do not hold links; a phrase does not hold the same marker
        if x.1.contains("\":") && y.1.contains("\":") || x.1.contains("\":") && y.1.contains(":http") { return; }
        if x.1.starts_with("*§x") && y.1.contains('*') || x.1.contains("**") || x.1.contains("*x*") { return; }
        let ((s, a), (t, b)) = (bracketed(TWO[v[2]]).unwrap(), bracketed(TWO[v[3]]).unwrap());
        let (yd, yh) = place(&D, y, &t, &b);
        let yh = yh.replace("<p>", "").replace("</p>", "");
        let k = x.1.rfind('x').unwrap();
        let hk = x.2.rfind('x').unwrap();
        let e = (x.0, format!("{}a {yd} b{}", &x.1[..k], &x.1[k + 1..]), format!("{}a {yh} b{}", &x.2[..hk], &x.2[hk + 1..]));
        let (d, h) = place(&D, (e.0, &e.1, &e.2), &s, &a);
        ctx.mark_nontrivial(&d);
        judge(ctx, &D, &d, &h);
    }));
    f.push(crate::space::long_family(&[("p(§). x", "<p class=\"§\">x</p>"), ("*(#§)x*", "<p><strong id=\"§\">x</strong></p>"), ("h2{color:§}. x", "<h2 style=\"color:§;\">x</h2>"), ("%[§]x%", "<p><span lang=\"§\">x</span></p>"), ("bq(¤). x", "<blockquote class=\"¤\">\n\t<p class=\"¤\">x</p>\n</blockquote>")], vec![D]));
    Property { id: "C20", level: "model_checking", rule: "the document holds attributes", assumptions: vec!["each kind of attribute is written once", "blanks between tags do not matter"], families: f }
}
