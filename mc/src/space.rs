//! Document spaces shared by the invariant checks.
use crate::engine::*;

/// Elementary tokens of the language: every character with a meaning, plus
/// ordinary text, multi-byte letters and the multi-character markers.
pub const WIDE: &[&str] = &[
    "a", " ", "\n", "\"", "'", ":", "*", "#", "_", "-", "@", "==", "!", "(", ")", "[", "]", "{", "}", "<", ">", "|",
    ".", "&", "1", "/", "\\", "^", "~", "%", "+", "?", ";", ",", "=", "é", "İ", "A", "p. ", "bc.. ", "http://h", "<pre>",
    "</pre>", "note#", "fn1. ", "[1]", "\t", "\n\n", "notelist.", "x", "$", "\u{a0}", "<!--", "-->", ":=",
];

/// Every construct of the language with one hole (§) at every place where the
/// author's text can go: content, attribute slots, URL slots, titles, labels.
pub const CTX: &[&str] = &[
    "§", "p. §", "h1. §", "h6[§]. x", "bq. §", "bq.. §\n\nx", "bq.:§ x", "bq(§). x", "bc. §", "bc[§]. x", "bc(§). x", "bc.. §\n\n§",
    "pre. §", "pre[§]. x", "pre{§}. x", "pre.. a\n\n§", "notextile. §", "notextile.. §\n\na", "###. §", "*§*", "*(§)x*", "*[§]x*",
    "*{§}x*", "*:§ x*", "??:§ x??", "??§??", "%§%", "%{§}x%", "[_§_]", "__§__", "**§**", "-§-", "+§+", "~§~", "^§^", "@§@", "[@§@]",
    "==§==", "a ==§== b", "<notextile>§</notextile>", "!§!", "!a.png(§)!", "!(§)a.png!", "!{§}a.png!", "!a.png!:§", "!a§.png!",
    "!>a.png(§)!:http://h/", "[!a.png(§)!]", "\"§\":http://h/", "\"a(§)\":http://h/", "\"(§)a\":http://h/", "\"[§]a\":http://h/",
    "\"{§}a\":http://h/", "\"a\":§", "\"a\":http://h/§", "\"a\":http://h/§]", "[\"a(§)\":http://h/]", "\"a\":b\n[b]§",
    "\"a\":b\n\n[b]http://h/§", "\"a\":§\n[§]http://h/", "\"$\":§", "\"$\":http://h/§", "\"!a.png(§)!\":http://h/", "|§|", "|_. §|",
    "|(§). a|", "|{§}. a|", "(§). |a|", "table(§). s\n|a|", "table{§}.\n|a|", "table. §\n|a|", "|=. §\n|a|", "|=(§). a\n|a|",
    "|[§]. a|", "|:[§]. |\n|a|", "|:\\2. §|\n|a|", "|^(§).\n|a|", "|a|\n|~[§].\n|b|", "* §\n* a", "* a\n** §", "# §", "#(§) a",
    "#§ a", "* a\n§\n* b", "- § := a", "- a := §", "-(§) a := b", "- a :=\n§ =:", "; §\n: a", "; a\n: §", "a[§]", "a[1]\n\nfn1. §",
    "a[1]\n\nfn1(§). a", "a[1]\n\nfn1[§]. a", "a[1]\n\nfn1{§}. a", "a[#n]\n\nnote#n. §\n\nnotelist.",
    "a[#n]\n\nnote#n(§). a\n\nnotelist.", "a[#n]\n\nnote#n[§]. a\n\nnotelist.", "a[#§]\n\nnotelist.", "a[(§)#n]\n\nnote#n. b",
    "a[#n]\n\nnote#n. a\n\nnotelist(§).", "a[#n]\n\nnote#n. a\n\nnotelist[§].", "a[#n]\n\nnote#n. a\n\nnotelist:§.", "note#§. a\n\nnotelist+.",
    "ABC(§)", "ABC §", "<pre>§</pre>", "<code>§</code>", "<!-- § -->", "<b title=\"§\">x</b>", "<div>§</div>", "p[§]. x", "p(§). x",
    "p{§}. x", "p<§>. x", "\"b !a.png(§)! c\":http://h/", "*a \"b(§)\":http://h/ c*", "\"a ==§== b\":http://h/", "\"a\":http://h/[§]",
    "\"a\":/§", "\"a\":?q=§", "\"a\":#§", " §", "a §\nb",
];

/// Complete constructs used for pair/triple interaction spaces.
pub const CONSTRUCTS: &[&str] = &[
    "word", "two words", "p. para", "p(c#i). attr", "h2. head", "bq. quote", "bq.. ext quote", "bc. code <b>", "bc.. ext code", "pre. pre *x*",
    "pre.. ext pre", "notextile. <i>raw</i>", "notextile.. <u>raw", "###. hidden", "###.. hidden", "p.. ext para", "*strong*", "**bold**",
    "_em_", "__it__", "??cite??", "-del-", "+ins+", "~sub~", "^sup^", "%span%", "@code@", "==raw <b>==", "<notextile>*r*</notextile>",
    "\"link\":http://h.com/a", "\"link(t)\":/b", "[\"br\":http://h.com]", "\"al\":ali", "[ali]http://h.com/x", "\"$\":http://h.com/z",
    "!img.png!", "!>img.png(alt)!", "!img.png!:http://h.com/", "* item", "** sub", "# num", "## subnum", "#5 start", "#_ cont", "; term",
    ": def", "- t := d", "|a|b|", "|_. h|", "table(c). sum\n|a|", "|=. cap\n|a|", "|:. |\n|a|", "|^.\n|a|", "fn1. foot", "ref[1]", "ref[2!]",
    "nr[#n1]", "note#n1. note text", "notelist.", "notelist+.", "notelist^.", "ABC(title)", "CAPS", "<b>html</b>", "<div>block</div>", "<br>",
    "<hr />", "<!-- com -->", "<pre>rawpre</pre>", "<code>rc</code>", "\"quoted\"", "'single'", "it's", "a -- b", "a - b", "a...", "2 x 3", "(c)",
    "(tm) [1/2]", "a & b", "&amp;", "a < b", "é İ", " lead", "trail ", "***", "---", "\"", "[", "==", "@", "!",
];

pub const JOIN: &[&str] = &["\n\n", "\n", " ", ""];

/// Every context × every payload sequence.
pub fn ctx_family(name: &str, pay: &[&str], lo: u32, hi: u32, cfgs: Vec<Cfg>, check: impl Fn(&Cfg, &str, &mut Ctx) + Sync + Send + 'static) -> Family {
    let pay = toks(pay);
    let s = Seqs::new(pay.len(), lo, hi);
    let k = CTX.len() as u64;
    let b = format!("{} contexts x all sequences of {lo}..={hi} of {} payload tokens x {} configs", k, pay.len(), cfgs.len());
    Family::new(name, b, s.size() * k, move |i, c| {
        let d = CTX[(i % k) as usize].replace('§', &join(&pay, &s.decode(i / k)));
        for cf in &cfgs { check(cf, &d, c); }
    })
}

/// Every ordered `n`-tuple of constructs, with every joiner.
pub fn tuple_family(name: &str, n: usize, joins: &[&str], cfgs: Vec<Cfg>, check: impl Fn(&Cfg, &str, &mut Ctx) + Sync + Send + 'static) -> Family {
    let js = toks(joins);
    let mut dims = vec![js.len()];
    dims.extend(std::iter::repeat(CONSTRUCTS.len()).take(n));
    let p = Prod(dims);
    let b = format!("all {n}-tuples of {} constructs x {} joiners x {} configs", CONSTRUCTS.len(), js.len(), cfgs.len());
    Family::new(name, b, p.size(), move |i, c| {
        let v = p.decode(i);
        let d = v[1..].iter().map(|x| CONSTRUCTS[*x]).collect::<Vec<_>>().join(&js[v[0]]);
        for cf in &cfgs { check(cf, &d, c); }
    })
}

/// Small alphabets, one per part of the language, for deep sequences.
pub const DEEP: &[(&str, &[&str])] = &[
    ("quotes and links", &["a", " ", "\"", "\":c", "\"a\":h/", "(", ")", "["]),
    ("phrases", &["a", " ", "*", "_", "**", "-", "[", "]"]),
    ("lists", &["* ", "# ", "** ", "a", "\n", "; ", ": ", "*"]),
    ("definitions", &["- ", "a", " := ", "\n", "=:", " "]),
    ("tables", &["|", "a", "\n", "_. ", "|=. ", "|:", "|^.", " "]),
    ("blocks", &["p. ", "bc.. ", "bq.. ", "a", "\n", "\n\n", " ", "###.. "]),
    ("raw", &["==", "@", "<pre>", "</pre>", "a", " ", "<!--", "-->"]),
    ("html", &["<b>", "</b>", "<div>", "</div>", "a", "\n", "<br>", "<"]),
    ("notes", &["[1]", "fn1. ", "a", "\n\n", "[#n]", "note#n. ", "notelist.", " "]),
    ("glyphs", &["a", " ", "'", "\"", "-", "...", "1", "x"]),
    ("urls", &["\"a\":", "h", "/", ".", "]", ")", "(", "["]),
    ("images", &["!", "a", ".", "(", ")", ":", " ", "\""]),
];

/// All sequences up to `hi` over each of the small alphabets.
pub fn deep_families(lo: u32, hi: u32, cfgs: Vec<Cfg>, check: impl Fn(&Cfg, &str, &mut Ctx) + Sync + Send + Copy + 'static) -> Vec<Family> {
    DEEP.iter().map(|(n, a)| seq_family(&format!("deep: {n}"), a, lo, hi, "", "", cfgs.clone(), check)).collect()
}

/// Elements that hold running text: (document, output) with the text at §.
pub const HOSTS: &[(&str, &str)] = &[
    ("§", "<p>§</p>"),
    ("p. §", "<p>§</p>"),
    ("h1. §", "<h1>§</h1>"),
    ("h6. §", "<h6>§</h6>"),
    ("bq. §", "<blockquote>\n\t<p>§</p>\n</blockquote>"),
    ("bq.. a\n\n§", "<blockquote>\n\t<p>a</p>\n\n\t<p>§</p>\n</blockquote>"),
    ("p.. a\n\n§\n\nh1. b", "<p>a</p>\n\n<p>§</p>\n\n<h1>b</h1>"),
    ("* §", "<ul>\n\t<li>§</li>\n</ul>"),
    ("# a\n# §\n# b", "<ol>\n\t<li>a</li>\n\t<li>§</li>\n\t<li>b</li>\n</ol>"),
    ("* a\n** §\n* b", "<ul>\n\t<li>a\n\t<ul>\n\t\t<li>§</li>\n\t</ul></li>\n\t<li>b</li>\n</ul>"),
    ("|§|", "\t<table>\n\t\t<tr>\n\t\t\t<td>§</td>\n\t\t</tr>\n\t</table>"),
    ("|_. a|§|b|", "\t<table>\n\t\t<tr>\n\t\t\t<th>a</th>\n\t\t\t<td>§</td>\n\t\t\t<td>b</td>\n\t\t</tr>\n\t</table>"),
    ("|_. §|", "\t<table>\n\t\t<tr>\n\t\t\t<th>§</th>\n\t\t</tr>\n\t</table>"),
    ("- t := §", "<dl>\n\t<dt>t</dt>\n\t<dd>§</dd>\n</dl>"),
    ("; t\n: §", "<dl>\n\t<dt>t</dt>\n\t<dd>§</dd>\n</dl>"),
    ("fn1. §", "<p class=\"footnote\" id=\"fnU-1\"><sup>1</sup> §</p>"),
    ("a\n\n§\n\nb", "<p>a</p>\n\n<p>§</p>\n\n<p>b</p>"),
    ("a §", "<p>a §</p>"),
    ("§ b", "<p>§ b</p>"),
    ("a\n§\nb", "<p>a<br>\n§<br>\nb</p>"),
    ("(k). |§|", "\t<table>\n\t\t<tr class=\"k\">\n\t\t\t<td>§</td>\n\t\t</tr>\n\t</table>"),
    ("a[#n]\n\nnote#n. §\n\nnotelist.", "<p>a<sup><a href=\"#noteU-2\"><span id=\"noterefU-1\">1</span></a></sup></p>\n\n<ol>\n\t\t<li><sup><a href=\"#noterefU-1\">a</a></sup><span id=\"noteU-2\"> </span>§</li>\n\t</ol>"),
];

/// Phrases and links that hold running text.
pub const PHRASES: &[(&str, &str)] = &[
    ("*§*", "<strong>§</strong>"), ("**§**", "<b>§</b>"), ("_§_", "<em>§</em>"), ("__§__", "<i>§</i>"), ("??§??", "<cite>§</cite>"),
    ("-§-", "<del>§</del>"), ("+§+", "<ins>§</ins>"), ("~§~", "<sub>§</sub>"), ("^§^", "<sup>§</sup>"), ("%§%", "<span>§</span>"),
];

/// Fills the hole of a pair of templates.
pub fn fill(t: (&str, &str), doc: &str, html: &str) -> (String, String) {
    (t.0.replace('§', doc), t.1.replace('§', html))
}

pub fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;") }

/// Inline constructs and simple hosts with a hole, for nesting.
pub const NEST: &[&str] = &[
    "a @§@ b", "<code>§</code>", "<pre>§</pre>", "a ==§== b", "<notextile>§</notextile>", "\"a § b\":/u", "\"§\":http://h/", "[\"§(t)\":/v]", "\"a(§)\":/u", "!i.png(§)!", "!i.png!:/§",
    "*a § b*", "_§_", "[%(k)§%]", "%{color:§}x%", "*[§]x*", "a (\"§\") b", "a \"(§)\" b", "<!-- § -->", "<b title=\"§\">x</b>", "ABC(§)", "|a|§|", "(§). |a|", "* §", "- t := §", "p. §", "x[1]\n\nfn1. §", "x[#n]\n\nnote#n. §\n\nnotelist.",
    "al \"§\":zz\n[zz]http://h/",
];

/// All nestings of exactly `n` of the constructs, around a few leaves.
pub fn nest_family(name: &str, n: usize, leaves: &'static [&'static str], cfgs: Vec<Cfg>, check: impl Fn(&Cfg, &str, &mut Ctx) + Sync + Send + 'static) -> Family {
    let mut dims = vec![leaves.len()];
    dims.extend(std::iter::repeat(NEST.len()).take(n));
    let p = Prod(dims);
    let b = format!("all {n}-deep nestings of {} constructs around {} leaves x {} configs", NEST.len(), leaves.len(), cfgs.len());
    Family::new(name, b, p.size(), move |i, c| {
        let v = p.decode(i);
        let mut d = leaves[v[0]].to_string();
        for x in &v[1..] { d = NEST[*x].replace('§', &d); }
        for cf in &cfgs { check(cf, &d, c); }
    })
}

/// How many fragments a document of many has: every small number, and the
/// neighbourhoods of the powers of ten and two.
pub fn counts(q: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=24).collect();
    v.extend([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 300]);
    if !q { v.extend(25..=300); v.extend([511, 512, 513, 999, 1000, 1001, 1024]); v.sort(); v.dedup(); }
    v
}

/// Documents of many numbered fragments (№): each alone, and all in turn.
pub fn many_family(q: bool, units: &'static [(&'static str, &'static str)], sep: (&'static str, &'static str), frame: (&'static str, &'static str), cfgs: Vec<Cfg>) -> Family {
    let ns = counts(q);
    let k = units.len() as u64 + 1;
    let b = format!("{} fragments and their cycle, each {} to {} times x {} configs", units.len(), ns[0], ns[ns.len() - 1], cfgs.len());
    Family::new("many fragments", b, k * ns.len() as u64, move |i, c| {
        let u = (i % k) as usize;
        let n = ns[(i / k) as usize];
        let part = |html: bool| (1..=n).map(|j| {
            let t = if u < units.len() { units[u] } else { units[j % units.len()] };
            (if html { t.1 } else { t.0 }).replace('№', &j.to_string())
        }).collect::<Vec<_>>().join(if html { sep.1 } else { sep.0 });
        let d = frame.0.replace('§', &part(false));
        let o = frame.1.replace('§', &part(true));
        c.mark_nontrivial(&d);
        for cf in &cfgs { c.expect(cf, &d, &o); }
    })
}

/// Long texts in every slot: "§" is a run of letters, "¤" a run of words.
pub fn long_family(slots: &'static [(&'static str, &'static str)], cfgs: Vec<Cfg>) -> Family {
    let ns: Vec<usize> = (1..=40).chain(62..=66).chain(98..=102).chain(126..=130).chain(198..=202).chain(253..=258).chain([299, 300, 301, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000]).collect();
    let k = slots.len() as u64;
    let b = format!("{} slots x {} lengths from 1 to {} x {} configs", slots.len(), ns.len(), ns[ns.len() - 1], cfgs.len());
    Family::new("long texts", b, k * ns.len() as u64, move |i, c| {
        let (d, h) = slots[(i % k) as usize];
        let n = ns[(i / k) as usize];
        let run = "a".repeat(n);
        let words: String = "word ".repeat(n / 5 + 1).chars().take(n).collect::<String>().trim().to_string();
        let fill = |t: &str| t.replace('§', &run).replace('¤', &words);
        let (d, h) = (fill(d), fill(h));
        c.mark_nontrivial(&d);
        for cf in &cfgs { c.expect(cf, &d, &h); }
    })
}

/// Documents longer than any counter of two bytes: one unit, tens of thousands of times.
pub fn huge_family(units: &'static [(usize, &'static str, &'static str, &'static str, &'static str, &'static str, &'static str)], cfg: Cfg) -> Family {
    let b = format!("{} documents of {:?} fragments", units.len(), units.iter().map(|u| u.0).collect::<Vec<_>>());
    Family::new("very long documents", b, units.len() as u64, move |i, c| {
        let (n, u, sep, h, hsep, pre, post) = units[i as usize];
        let d = vec![u; n].join(sep);
        let o = format!("{pre}{}{post}", vec![h; n].join(hsep));
        c.mark_nontrivial(&d);
        c.expect(&cfg, &d, &o);
    })
}
