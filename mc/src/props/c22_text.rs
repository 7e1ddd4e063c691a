//! C22: ordinary text is kept and escaped exactly once.
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

/// Length of the entity at the start of `s`, if there is one.
fn entity(s: &[char]) -> Option<usize> {
    let end = s.iter().position(|c| *c == ';')?;
    let body: &[char] = &s[1..end];
    let all = |b: &[char], f: fn(&char) -> bool| !b.is_empty() && b.iter().all(f);
    let ok = match body.first()? {
        '#' => match body.get(1)? { 'x' | 'X' => all(&body[2..], |c| c.is_ascii_hexdigit()), _ => all(&body[1..], |c| c.is_ascii_digit()) },
        c => c.is_ascii_alphabetic() && all(body, |c| c.is_ascii_alphanumeric()),
    };
    ok.then_some(end + 1)
}
/// The text as HTML; None if it holds something that may be a tag.
fn escape(s: &str, restricted: bool) -> Option<String> {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    for (i, x) in c.iter().enumerate() {
        match x {
            '&' if !restricted && entity(&c[i..]).is_some() => o.push('&'),
            '&' => o += "&amp;",
            '<' => {
                let tag = c.get(i + 1).is_some_and(|n| n.is_alphanumeric() || "/!?_".contains(*n)) && c[i + 1..].contains(&'>');
                if tag && !restricted { return None; }
                o += "&lt;";
            }
            '>' => o += "&gt;",
            _ => o.push(*x),
        }
    }
    Some(o)
}
fn judge(ctx: &mut Ctx, c: &Cfg, host: (&str, &str), text: &str) {
    if c.restricted && host.0.starts_with("(k)") { return; }
    // a pipe ends a cell, a cell that starts with this is a header, and this is a deleted phrase
    if host.0.contains('|') && (text.contains('|') || host.0.starts_with("|_") && !host.0.starts_with("|_. ")) || text.contains("->") && text.contains("<-") { return; }
    let Some(t) = escape(text, c.restricted) else { return };
    let t = t.replace('\n', "<br>\n");
    let (d, mut h) = fill(host, text, &t);
    if c.xhtml { h = h.replace("<br>", "<br />"); }
    if text.contains(|c: char| !c.is_ascii_alphanumeric()) { ctx.mark_nontrivial(&d); }
    ctx.expect(c, &d, &h);
}
/// Words, punctuation and stray special characters, as they occur between blanks.
const WORDS: &[&str] = &[
    "word", "Two", "été", "日本語", "привет", "שלום", "नमस्ते", "😀", "e\u{301}", "a\u{a0}b", "ﬁ", "İ", "ß", "42", "3.14", "1,000", "50%", "$5", "€5", "#1", "no.", "yes,", "so;", "why?", "oh!", "a:", "(a)", "(a", "a)", "[a b]", "{a}", "a_b_c", "a*b", "a/b", "c:\\d", "e@f.gh", "a+b=c", "a^b", "a~b", "`", "\\", "x", "a-b", "&", "a&b", "&amp;", "&#233;", "&eacute;", "&bogus", "&;", "<", ">", "a>b", "->", "<-", "<=", ">>", "=", "+", "*", "_", "^", "~", "%", "/", "|", "?", "!", ":", ";", ",", ".", "..", "a|b", "$", "£", "«a»", "†", "–", "a@b", "#", "##", "**", "http://h/p?a=b&c=d#e", "file_name.txt", "x<y", "1<2",
];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    // every character there is
    const B: u32 = 32;
    let n = (0x110000 / B) as u64;
    f.push(Family::new("all characters", "every Unicode scalar above ASCII, between blanks and within a word, plain and restricted", n * 2, move |i, ctx| {
        let c = if i % 2 == 0 { D } else { R };
        let mut d = String::from("z");
        for k in 0..B {
            let Some(x) = char::from_u32((i / 2) as u32 * B + k) else { continue };
            if (x as u32) < 0x80 || x.is_whitespace() { continue; }
            d += &format!(" {x} a{x}b");
        }
        d += " z";
        judge(ctx, &c, ("§", "<p>§</p>"), &d);
    }));
    // escaping, character by character
    const CH: &[&str] = &["a", "&", "<", ">", ";", "#", "1", " ", "é", "amp", "&lt;", "&#x1F;", "/"];
    let s = Seqs::new(CH.len(), 1, if q { 4 } else { 6 });
    let k = if q { 2 } else { 3 };
    f.push(Family::new("escaping", format!("all sequences of 1..={} of {} pieces around ampersands and angle brackets, {k} configs", s.hi, CH.len()), s.size() * k, move |i, ctx| {
        let t: String = s.decode(i / k).iter().map(|x| CH[*x]).collect();
        let c = [D, R, Cfg::of("x")][(i % k) as usize].clone();
        judge(ctx, &c, ("§", "<p>§</p>"), &format!("z{t}z"));
    }));
    // in every element and phrase
    let s = Seqs::new(CH.len(), 1, if q { 2 } else { 3 });
    let hosts: Vec<(String, String)> = HOSTS.iter().map(|h| (h.0.replace('§', "z§z"), h.1.replace('§', "z§z")))
        .chain(PHRASES.iter().flat_map(|p| [("§", "<p>§</p>"), ("a § b", "<p>a § b</p>"), ("|§|", "\t<table>\n\t\t<tr>\n\t\t\t<td>§</td>\n\t\t</tr>\n\t</table>")].map(|h| (h.0.replace('§', &p.0.replace('§', "z§z")), h.1.replace('§', &p.1.replace('§', "z§z"))))))
        .chain([("\"z§z\":/u", "<p><a href=\"/u\">z§z</a></p>"), ("a \"z§z(t)\":/u b", "<p>a <a href=\"/u\" title=\"t\">z§z</a> b</p>"), ("- t :=\nz§z =:", "<dl>\n\t<dt>t</dt>\n\t<dd><p>z§z</p></dd>\n</dl>"), ("*_z§z_*", "<p><strong><em>z§z</em></strong></p>"), ("|=. z§z\n|a|", "\t<table>\n\t<caption>z§z</caption>\n\n\t\t<tr>\n\t\t\t<td>a</td>\n\t\t</tr>\n\t</table>")].map(|h| (h.0.to_string(), h.1.to_string()))).collect();
    let m = hosts.len() as u64;
    f.push(Family::new("escaping in every element", format!("all sequences of 1..={} of {} pieces x {m} elements, phrases and links, 3 configs", s.hi, CH.len()), s.size() * m * 3, move |i, ctx| {
        let c = [D, R, Cfg::of("x")][(i % 3) as usize].clone();
        let h = &hosts[(i / 3 % m) as usize];
        let t: String = s.decode(i / 3 / m).iter().map(|x| CH[*x]).collect();
        judge(ctx, &c, (&h.0, &h.1), &t);
    }));
    // words
    let w = WORDS.len();
    let s = Seqs::new(w, 1, if q { 2 } else { 3 });
    f.push(Family::new("words", format!("all sequences of 1..={} of {w} words and stray characters, 3 configs", s.hi), s.size() * 3, move |i, ctx| {
        let c = [D, R, Cfg::of("x")][(i % 3) as usize].clone();
        let t: Vec<&str> = s.decode(i / 3).iter().map(|x| WORDS[*x]).collect();
        judge(ctx, &c, ("§", "<p>§</p>"), &format!("z {} z", t.join(" ")));
    }));
    let p = Prod(vec![w, w, HOSTS.len()]);
    f.push(Family::new("words in every element", format!("all pairs of {w} words x {} elements", HOSTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        judge(ctx, &D, HOSTS[v[2]], &format!("z {} y {} z", WORDS[v[0]], WORDS[v[1]]));
    }));
    // long texts
    let p = Prod(vec![w, 4, HOSTS.len()]);
    f.push(Family::new("long texts", format!("{w} words repeated 10, 100 and 400 times on one line or on lines of ten x {} elements", HOSTS.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let x = WORDS[v[0]];
        // repeated they may be markup
        if x.chars().any(|c| "*_^~%+-?!@=#|[]{}".contains(c)) || x == "<" || x == ">" { return; }
        let n = [10, 100, 400, 100][v[1]];
        let t: Vec<String> = (0..n).map(|k| format!("{x} w{k}")).collect();
        let t = if v[1] == 3 { t.chunks(10).map(|c| format!("z {}", c.join(" "))).collect::<Vec<_>>().join("\n") } else { format!("z {}", t.join(" ")) };
        // a note is one line
        if v[1] == 3 && HOSTS[v[2]].0.contains("note#") { return; }
        judge(ctx, &D, HOSTS[v[2]], &t);
    }));
    Property { id: "C22", level: "model_checking", rule: "the text holds more than ASCII letters and digits", assumptions: vec!["the text holds no Textile markup, typographic units or tags"], families: f }
}
