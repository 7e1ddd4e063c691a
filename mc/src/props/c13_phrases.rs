//! C13: phrase markup nests and converts to the right elements.
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

/// (marker, element), in no particular order.
pub const KINDS: &[(&str, &str)] = &[
    ("*", "strong"), ("_", "em"), ("-", "del"), ("+", "ins"), ("%", "span"), ("**", "b"), ("__", "i"), ("??", "cite"), ("~", "sub"), ("^", "sup"),
];
const ATTS: &[(&str, &str)] = &[
    ("", ""), ("(k)", " class=\"k\""), ("(#i)", " id=\"i\""), ("(k#i)", " class=\"k\" id=\"i\""), ("{color:red}", " style=\"color:red;\""), ("[fr]", " lang=\"fr\""),
    ("(k){color:red}[fr]", " class=\"k\" lang=\"fr\" style=\"color:red;\""), ("[fr](k)", " class=\"k\" lang=\"fr\""), (":http://h/ ", " cite=\"http://h/\""), ("(k):/c ", " cite=\"/c\" class=\"k\""),
];
/// Contents: (text, html)
const TEXT: &[(&str, &str)] = &[
    ("a", "a"), ("a b", "a b"), ("a b c", "a b c"), ("a.", "a."), ("a!", "a!"), ("a, b", "a, b"), ("é", "é"), ("1", "1"), ("İ b", "İ b"), ("a & b", "a &amp; b"), ("it's", "it&#8217;s"),
    ("a -- b", "a &#8212; b"), ("a @c@ b", "a <code>c</code> b"), ("a \"l\":/u b", "a <a href=\"/u\">l</a> b"), ("a !i.png! b", "a <img alt=\"\" src=\"i.png\" /> b"), ("<b>h</b>", "<b>h</b>"),
    ("(tm)", "&#8482;"), ("\"q\"", "&#8220;q&#8221;"), ("a\"", "a&#8221;"), ("ABC(t)", "<abbr title=\"t\"><span class=\"caps\">ABC</span></abbr>"), ("ABCD x", "<span class=\"caps\">ABCD</span> x"), ("http://h/", "http://h/"), ("a (b) c", "a (b) c"),
];
const PRE: &[(&str, &str)] = &[("", ""), ("x ", "x "), ("(", "("), ("x (", "x ("), ("x, ", "x, "), ("x\n", "x<br>\n"), ("\"", "&#8220;"), ("x.", "x."), ("x: ", "x: "), ("<b>x</b> ", "<b>x</b> "), ("«", "«"), ("@c@ ", "<code>c</code> ")];
const POST: &[(&str, &str)] = &[
    ("", ""), (" x", " x"), (".", "."), (", x", ", x"), (")", ")"), (") x", ") x"), ("!", "!"), ("? x", "? x"), (": x", ": x"), (";", ";"), ("\nx", "<br>\nx"), ("\"", "&#8221;"), ("...", "&#8230;"), ("'s", "&#8217;s"), ("», x", "», x"), (" -- x", " &#8212; x"),
    ("<b>x</b>", "<b>x</b>"), (" @c@", " <code>c</code>"),
];

fn conflicts(m: &str, t: &str) -> bool { t.contains(m.chars().next().unwrap()) }

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    // single phrases
    let p = Prod(vec![KINDS.len(), ATTS.len(), TEXT.len(), PRE.len(), POST.len()]);
    f.push(Family::new("single phrases", format!("{} markers x {} attribute lists x {} texts x {} x {} surroundings{}", KINDS.len(), ATTS.len(), TEXT.len(), PRE.len(), POST.len(), if q { "; beyond the plain text and no attributes, two of the three vary" } else { "" }), p.size(), move |i, ctx| {
        let v = p.decode(i);
        if q && (v[1] > 0) as u8 + (v[2] > 2) as u8 + (v[3] > 1 || v[4] > 1) as u8 > 2 { return; }
        single(&v, ctx);
    }));
    // chains of nested phrases
    for (name, o, c) in [("chains with words between", "x ", " y"), ("chains, tight", "", ""), ("chains, words before", "x ", ""), ("chains, words after", "", " y")] {
        let s = Seqs::new(KINDS.len(), 1, if q && o.len() + c.len() == 2 { 3 } else if q { 4 } else { 5 });
        f.push(Family::new(name, format!("all chains of 1..={} different markers of {}, 5 elements", s.hi, KINDS.len()), s.size(), move |i, ctx| chain(&s.decode(i), o, c, ctx)));
    }
    // beyond the supported depth, and what comes after
    for (n, times) in if q { vec![(5usize, 7usize), (6, 1)] } else { vec![(5, 7), (6, 7), (7, 1)] } {
    let mut dims = vec![8; n];
    dims.push(2);
    let p = Prod(dims);
    f.push(Family::new(&format!("chains of {n}, {times} times, and what follows"), format!("all chains of {n} different markers of 8 with words between, {times} times, followed by another phrase in the same and in the next block"), p.size(), move |i, ctx| {
        let v = p.decode(i);
        const K: [usize; 8] = [0, 1, 2, 3, 4, 7, 8, 9];
        if (0..n).any(|a| (0..a).any(|b| v[a] == v[b])) { return; }
        let (mut d, mut h) = ("w".to_string(), "w".to_string());
        for k in v[..n].iter().rev() {
            let (m, e) = KINDS[K[*k]];
            d = format!("{m}x {d} y{m}");
            h = format!("<{e}>x {h} y</{e}>");
        }
        let (m, e) = KINDS[K[v[n]]];
        (d, h) = (vec![d; times].join(", "), vec![h; times].join(", "));
        ctx.mark_nontrivial(&d);
        ctx.expect(&D, &format!("{d}, {m}v{m}\n\nh1. {m}u{m}"), &format!("<p>{h}, <{e}>v</{e}></p>\n\n<h1><{e}>u</{e}></h1>"));
    }));
    }
    // trees
    let shapes: &'static [&'static str] = &["1(w) 2(w)", "1(w 2(w) w)", "1(w 2(w) w 3(w) w)", "1(w 2(w 3(w) w) w)", "1(2(w) w 3(w))", "1(w) w 2(w 3(w))", "1(w), 2(w). 3(w)!", "1(w 2(w)) 3(w)", "(1(w), 2(w)) 3(w)"];
    let p = Prod(vec![shapes.len(), KINDS.len(), KINDS.len(), KINDS.len(), 3]);
    f.push(Family::new("trees", format!("{} tree shapes x all assignments of {} markers to up to 3 phrases, 3 elements", shapes.len(), KINDS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (d, h) = render(shapes[v[0]], &v[1..4]);
        let ks: Vec<usize> = (1..4).filter(|n| shapes[v[0]].contains(&n.to_string())).map(|n| v[n]).collect();
        if shapes[v[0]].contains("3(") || v[3] == 0 {
            if !nests(shapes[v[0]], &v[1..4]) { return; }
            // a closing marker that touches another one is not told from an opening one
            if shapes[v[0]] == "1(w 2(w)) 3(w)" && !compatible(v[2], v[3]) { return; }
            if shapes[v[0]].contains("))") && ks.iter().skip(1).any(|k| KINDS[*k].0 == "??") { return; }
            let host = [HOSTS[0], HOSTS[9], HOSTS[11]][v[4]];
            // markers touching the border of a cell or the start of a line
            let (doc, want) = fill(host, &format!("z {d} z"), &format!("z {h} z"));
            ctx.mark_nontrivial(&doc);
            ctx.expect(&D, &doc, &want);
        }
    }));
    // two phrases with attributes side by side
    let p = Prod(vec![KINDS.len(), ATTS.len(), KINDS.len(), ATTS.len(), 3]);
    f.push(Family::new("neighbouring phrases", "all pairs of phrases with all attribute lists, separated by a blank, a comma, a word", p.size(), move |i, ctx| {
        let v = p.decode(i);
        if q && v[1] > 0 && v[3] > 0 && v[1] != v[3] { return; }
        let ph = |k: usize, a: usize, w: &str| {
            let (m, e) = KINDS[k];
            (format!("{m}{}{w}{m}", ATTS[a].0), format!("<{e}{}>{w}</{e}>", ATTS[a].1))
        };
        let (a, b) = (ph(v[0], v[1], "w1"), ph(v[2], v[3], "w2"));
        let sep = [" ", ", ", " and "][v[4]];
        let doc = format!("z {}{sep}{} z", a.0, b.0);
        ctx.mark_nontrivial(&doc);
        ctx.expect(&D, &doc, &format!("<p>z {}{sep}{} z</p>", a.1, b.1));
    }));
    // all punctuation marks
    const MARKS: &[&str] = &["", ".", ",", "?", "!", ";", ":", "‹", "›", "«", "»", "„", "“", "”", "‚", "‘", "’"];
    let p = Prod(vec![KINDS.len(), MARKS.len(), MARKS.len(), MARKS.len(), 3, 2]);
    f.push(Family::new("punctuation", format!("{} markers x {1} marks before x {1} at the end of the text x {1} after, 3 surroundings (one in restricted mode)", KINDS.len(), MARKS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (m, e) = KINDS[v[0]];
        let (a, b, d) = (MARKS[v[1]], MARKS[v[2]], MARKS[v[3]]);
        if m.contains('?') && [a, b, d].contains(&"?") || v[5] > 0 && v[4] > 0 { return; }
        // two of these around a text make an image
        if [a, b, d].iter().filter(|x| **x == "!").count() > 1 { return; }
        let (l, r) = [("", ""), ("x ", " y"), ("", ", y")][v[4]];
        let doc = format!("{l}{a}{m}t{b}{m}{d}{r}");
        ctx.mark_nontrivial(&doc);
        ctx.expect(&[D, R][v[5]], &doc, &format!("<p>{l}{a}<{e}>t{b}</{e}>{d}{r}</p>"));
    }));
    // brackets
    let p = Prod(vec![KINDS.len(), ATTS.len(), TEXT.len(), 5]);
    f.push(Family::new("bracketed phrases", "all markers x attribute lists x texts in brackets, 5 surroundings", p.size(), move |i, ctx| {
        let v = p.decode(i);
        if (v[1] > 0 && v[2] > 1) || conflicts(KINDS[v[0]].0, TEXT[v[2]].0) { return; }
        let ((m, e), (a, ha), (t, ht)) = (KINDS[v[0]], ATTS[v[1]], TEXT[v[2]]);
        if t.contains("\":/u") && !t.ends_with(" b") { return; }
        let (l, r) = [("", ""), ("x", "y"), ("x ", " y"), ("x", ""), ("(", ")")][v[3]];
        let doc = format!("{l}[{m}{a}{t}{m}]{r}");
        ctx.mark_nontrivial(&doc);
        ctx.expect(&D, &doc, &format!("<p>{l}<{e}{ha}>{ht}</{e}>{r}</p>"));
    }));
    // phrases in every element
    let p = Prod(vec![KINDS.len(), HOSTS.len(), 4, 3]);
    f.push(Family::new("phrases in every element", format!("{} markers x {} elements x 4 forms x 3 output kinds", KINDS.len(), HOSTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let ((m, e), host) = (KINDS[v[0]], HOSTS[v[1]]);
        let (d, h) = [(format!("{m}w{m}"), format!("<{e}>w</{e}>")), (format!("x {m}w v{m} y"), format!("x <{e}>w v</{e}> y")), (format!("x {m}w{m}, y"), format!("x <{e}>w</{e}>, y")), (format!("x[{m}w{m}]y"), format!("x<{e}>w</{e}>y"))][v[2]].clone();
        if host.0.contains("|§") && d.starts_with('_') { return; }
        let (doc, want) = fill(host, &d, &h);
        ctx.mark_nontrivial(&doc);
        let c = [D, R, Cfg::of("x")][v[3]].clone();
        if c.restricted && want.contains("class=\"k\"") { return; }
        ctx.expect(&c, &doc, &if c.xhtml { want.replace("<br>", "<br />") } else { want });
    }));
    // markers that are none
    let ms: Vec<&'static str> = KINDS.iter().map(|k| k.0).collect();
    let s = Seqs::new(ms.len(), 1, if q { 4 } else { 5 });
    f.push(Family::new("markers in words", format!("1..={} of {} markers between letters and digits, and between words, in 2 elements", s.hi, ms.len()), s.size() * 4, move |i, ctx| {
        let v = s.decode(i / 4);
        let words = ["a", "b2", "é", "cd", "e", "f"];
        let spaced = i % 2 == 1;
        let mut d = words[0].to_string();
        for (n, m) in v.iter().enumerate() {
            // two question marks are punctuation, after which a marker may open
            if ms[*m] == "??" && !spaced { return; }
            d += &if spaced { format!(" {} {}", ms[*m], words[n + 1]) } else { format!("{}{}", ms[*m], words[n + 1]) };
        }
        let h = d.replace(" - ", " &#8211; ");
        let (doc, want) = fill(if i % 4 < 2 { HOSTS[0] } else { HOSTS[10] }, &d, &h);
        ctx.mark_nontrivial(&doc);
        ctx.expect(&D, &doc, &want);
    }));
    let s = Seqs::new(2 * KINDS.len() + 1, 1, if q { 3 } else { 4 });
    f.push(Family::new("unpaired markers", format!("all sequences of 1..={} words, each with an opening or a closing marker or none, no marker paired", s.hi), s.size(), move |i, ctx| {
        let v = s.decode(i);
        let n = KINDS.len();
        // paired: an opening marker and later a closing one of the same character
        for (a, x) in v.iter().enumerate() {
            for y in v.iter().skip(a + 1) {
                if *x > 0 && *x <= n && *y > n && KINDS[*x - 1].0.as_bytes()[0] == KINDS[*y - n - 1].0.as_bytes()[0] { return; }
            }
        }
        let ws: Vec<String> = v.iter().enumerate().map(|(i, x)| {
            let w = ["wa", "wb", "wc", "wd"][i];
            if *x == 0 { w.into() } else if *x <= n { format!("{}{w}", KINDS[*x - 1].0) } else { format!("{w}{}", KINDS[*x - n - 1].0) }
        }).collect();
        let d = format!("z {}", ws.join(" "));
        ctx.mark_nontrivial(&d);
        ctx.expect(&D, &d, &format!("<p>{d}</p>"));
    }));
    f.push(many_family(q, &[("*a№*", "<strong>a№</strong>"), ("_a№_", "<em>a№</em>"), ("[~a№~]", "<sub>a№</sub>"), ("%(k)a№%", "<span class=\"k\">a№</span>"), ("-_*+^a№^+*_-", "<del><em><strong><ins><sup>a№</sup></ins></strong></em></del>")], (" ", " "), ("§", "<p>§</p>"), vec![D]));
    f.push(huge_family(&[(33000, "*a*", " ", "<strong>a</strong>", " ", "<p>", "</p>")], D));
    f.push(crate::space::long_family(&[("*§*", "<p><strong>§</strong></p>"), ("x _¤_ y", "<p>x <em>¤</em> y</p>"), ("**¤** -§- +¤+ ^§^ ~§~ %¤% ??¤??", "<p><b>¤</b> <del>§</del> <ins>¤</ins> <sup>§</sup> <sub>§</sub> <span>¤</span> <cite>¤</cite></p>"), ("*¤ _§_ ¤*", "<p><strong>¤ <em>§</em> ¤</strong></p>")], vec![D, R]));
    Property { id: "C13", level: "model_checking", rule: "the document holds phrase markers", assumptions: vec!["phrases stand on one line", "a phrase does not hold another one of the same marker character, except bold in strong and italic in emphasis and the reverse"], families: f }
}

fn single(v: &[usize], ctx: &mut Ctx) {
    let ((m, e), (a, ha), (t, ht), (l, hl), (r, hr)) = (KINDS[v[0]], ATTS[v[1]], TEXT[v[2]], PRE[v[3]], POST[v[4]]);
    if conflicts(m, t) || conflicts(m, r) || conflicts(m, l) || (t.contains('!') && r.contains('!')) { return; }
    let doc = format!("{l}{m}{a}{t}{m}{r}");
    ctx.mark_nontrivial(&doc);
    ctx.expect(&D, &doc, &format!("<p>{hl}<{e}{ha}>{ht}</{e}>{hr}</p>"));
}

fn chain(ks: &[usize], o: &str, c: &str, ctx: &mut Ctx) {
    for (n, k) in ks.iter().enumerate() {
        for j in &ks[..n] {
            if !compatible(*j, *k) { return; }
        }
    }
    // a citation does not end right at another closing marker
    if c.is_empty() && ks.iter().skip(1).any(|k| KINDS[*k].0 == "??") { return; }
    let (mut d, mut h) = ("w".to_string(), "w".to_string());
    for k in ks.iter().rev() {
        let (m, e) = KINDS[*k];
        d = format!("{m}{o}{d}{c}{m}");
        h = format!("<{e}>{o}{h}{c}</{e}>");
    }
    for host in [HOSTS[0], HOSTS[2], HOSTS[4], HOSTS[8], HOSTS[11]] {
        // a cell that starts with an underline is a heading cell
        if host.0.contains("|§") && d.starts_with('_') { continue; }
        let (doc, want) = fill(host, &d, &h);
        ctx.mark_nontrivial(&doc);
        ctx.expect(&D, &doc, &want);
    }
}

/// Whether `inner` may stand inside `outer`.
fn compatible(outer: usize, inner: usize) -> bool {
    KINDS[outer].0.as_bytes()[0] != KINDS[inner].0.as_bytes()[0]
}

/// Fills a shape like `1(w 2(w) w)` with markers.
fn render(shape: &str, ks: &[usize]) -> (String, String) {
    let (mut d, mut h) = (String::new(), String::new());
    let mut st: Vec<Option<usize>> = vec![];
    let b: Vec<char> = shape.chars().collect();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            n @ '1'..='3' => {
                let k = ks[n as usize - '1' as usize];
                d += KINDS[k].0;
                h += &format!("<{}>", KINDS[k].1);
                st.push(Some(k));
                i += 1;
            }
            '(' => { st.push(None); d.push('('); h.push('('); }
            ')' => match st.pop().unwrap() {
                Some(k) => { d += KINDS[k].0; h += &format!("</{}>", KINDS[k].1); }
                None => { d.push(')'); h.push(')'); }
            },
            c => { d.push(c); h.push(c); }
        }
        i += 1;
    }
    (d, h)
}

fn nests(shape: &str, ks: &[usize]) -> bool {
    let mut st: Vec<Option<usize>> = vec![];
    let b: Vec<char> = shape.chars().collect();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            n @ '1'..='3' => {
                let k = ks[n as usize - '1' as usize];
                if st.iter().flatten().any(|o| !compatible(*o, k)) { return false; }
                st.push(Some(k));
                i += 1;
            }
            '(' => st.push(None),
            ')' => { st.pop(); }
            _ => {}
        }
        i += 1;
    }
    true
}
