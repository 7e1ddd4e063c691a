//! C04: only allowed URL schemes reach links, images and citations.
use crate::engine::*;
use crate::htmltok::text_of;
use crate::observe::*;
use crate::space::*;
use crate::{Property, Tier};

fn allowed(c: &Cfg) -> &'static [&'static str] { if c.restricted { SAFE } else { FULL } }

fn check(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    // raw HTML is the author's own outside of restricted mode
    if !c.restricted && doc.contains('<') { return; }
    let Some(out) = ctx.must(c, doc) else { return };
    ctx.validated += 1;
    if doc.contains(':') { ctx.mark_nontrivial(doc); }
    if let Some(m) = bad_scheme(&out, allowed(c)) {
        ctx.fail(c, doc, format!("{m}; output {out:?}"));
    }
}

/// (document with the URL at §, element and attribute that must carry it)
const POS: &[(&str, &str, &str)] = &[
    ("\"x\":§", "a", "href"), ("\"x(t)\":§", "a", "href"), ("\"(c)x\":§", "a", "href"), ("[\"x\":§]", "a", "href"), ("\"x\":§ y", "a", "href"),
    ("y \"x\":§. z", "a", "href"), ("(\"x\":§)", "a", "href"), ("\"$\":§", "a", "href"), ("!§!", "img", "src"), ("!>§(t)!", "img", "src"), ("!§!:/l", "img", "src"),
    ("[!§!]", "img", "src"), ("!a.png!:§", "a", "href"), ("!a.png(t)!:§", "a", "href"), ("\"!a.png!\":§", "a", "href"), ("\"!§!\":/l", "img", "src"),
    ("\"x\":b\n\n[b]§", "a", "href"), ("[b]§\n\n\"x\":b", "a", "href"), ("\"x\":b\n[b]§", "a", "href"), ("\"$\":b\n[b]§", "a", "href"),
    ("bq.:§ q", "blockquote", "cite"), ("bq(c)..:§ q\n\nr", "blockquote", "cite"), ("*:§ x*", "strong", "cite"), ("??:§ x??", "cite", "cite"),
    ("%(c):§ x%", "span", "cite"), ("|\"x\":§|", "a", "href"), ("|!§!|", "img", "src"), ("* \"x\":§", "a", "href"), ("# !§!", "img", "src"),
    ("fn1. \"x\":§", "a", "href"), ("h1. \"x\":§", "a", "href"), ("bq. \"x\":§", "a", "href"), ("*\"x\":§*", "a", "href"), ("- t := \"x\":§", "a", "href"),
    ("a[#n]\n\nnote#n. \"x\":§\n\nnotelist.", "a", "href"), ("\"a\":/b and \"x\":§", "a", "href"), ("\"x *y* z\":§", "a", "href"), ("|=. \"x\":§\n|a|", "a", "href"),
];

const SCHEMES: &[&str] = &[
    "http", "https", "ftp", "mailto", "file", "tel", "callto", "sftp", "data", "javascript", "vbscript", "about", "blob", "ws", "xhttp", "httpx", "http2",
    "view-source", "feed", "jar", "java", "livescript", "gopher", "ssh", "sms", "x", "filesystem", "ftps", "chrome", "htt", "mailt", "dat",
];
/// The same schemes disguised in ways a browser undoes (or might).
const DISGUISE: &[&str] = &["", "U", "C", "\u{1}", "\u{0}", "\u{1f}", "\u{7f}", "\u{a0}", "\u{feff}", "\u{200b}", "%20", "&#32;", "&#9;", "/", "//", "./", "http:", "https://h/", "+", "1", "-", "."];
const INNER: &[&str] = &["", "%0a", "&#10;", "&#x0A;", "&Tab;", "&NewLine;", "\u{ad}", "\u{200d}", "\\", "/**/", "+", "-x"];
const REST: &[&str] = &["://h.com/p", ":x", ":alert(1)", "&#58;x", "&colon;x", "&#x3a;x", "%3ax", ":", "::x", ":/x", ":///x", "\u{ff1a}x", ":a@h.com"];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    {
        let p = Prod(vec![POS.len(), SCHEMES.len(), DISGUISE.len(), REST.len()]);
        f.push(Family::new("schemes, disguised", format!("{} places x {} schemes x {} disguises x {} continuations x 2 modes", POS.len(), SCHEMES.len(), DISGUISE.len(), REST.len()), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let s = SCHEMES[v[1]];
            let s = match DISGUISE[v[2]] {
                "U" => s.to_uppercase(),
                "C" => s.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
                d => format!("{d}{s}"),
            };
            let doc = POS[v[0]].0.replace('§', &format!("{s}{}", REST[v[3]]));
            check(&D, &doc, ctx);
            check(&R, &doc, ctx);
        }));
        let p = Prod(vec![POS.len(), 6, INNER.len(), REST.len()]);
        f.push(Family::new("schemes, broken up", format!("{} places x 6 schemes x {} insertions at every place x {} continuations x 2 modes", POS.len(), INNER.len(), REST.len()), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let s = ["javascript", "vbscript", "data", "file", "tel", "x"][v[1]];
            for k in 0..=s.len() {
                let doc = POS[v[0]].0.replace('§', &format!("{}{}{}{}", &s[..k], INNER[v[2]], &s[k..], REST[v[3]]));
                check(&D, &doc, ctx);
                check(&R, &doc, ctx);
            }
        }));
        let cfgs = Cfg::product("rxe");
        let p = Prod(vec![POS.len(), SCHEMES.len(), 3]);
        f.push(Family::new("allowed schemes make links, others stay text", format!("{} places x {} schemes x 3 continuations x 8 configs", POS.len(), SCHEMES.len()), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let (tpl, el, at) = POS[v[0]];
            let url = format!("{}{}", SCHEMES[v[1]], ["://h.com/p", ":x", ":/p/q"][v[2]]);
            let doc = tpl.replace('§', &url);
            for c in &cfgs {
                let Some(out) = ctx.must(c, &doc) else { continue };
                ctx.validated += 1;
                ctx.mark_nontrivial(&doc);
                let ok = allowed(c).contains(&SCHEMES[v[1]]);
                let found = urls(&out).iter().any(|(n, k, u)| n == el && k == at && scheme_of(u).as_deref() == Some(SCHEMES[v[1]]));
                if let Some(m) = bad_scheme(&out, allowed(c)) {
                    ctx.fail(c, &doc, format!("{m}; output {out:?}"));
                } else if ok && !found {
                    ctx.fail(c, &doc, format!("allowed scheme, but no {at} on <{el}>; output {out:?}"));
                } else if !ok && at != "cite" && !tpl.contains("[b]") && !fold(&text_of(&out)).contains(&url) {
                    ctx.fail(c, &doc, format!("the markup with a scheme that is not allowed is not kept in the text; output {out:?}"));
                } else if !ok && at == "cite" && out.contains(SCHEMES[v[1]]) && SCHEMES[v[1]].len() > 1 {
                    ctx.fail(c, &doc, format!("the citation with a scheme that is not allowed is kept; output {out:?}"));
                }
            }
        }));
    }
    const PAY: &[&str] = &["javascript:x", "JavaScript:", "data:x", "vbscript:x", ":", "/", " ", "&#58;", "#", "\"", "http://h/", "\u{1}", "!", "x", "]", ")", "@", "=="];
    let cf: Vec<Cfg> = ["", "r", "rx", "re", "l", "rl", "n", "rn"].iter().map(|c| Cfg::of(c)).collect();
    f.push(ctx_family("schemes in every construct, every option", PAY, 1, if q { 1 } else { 2 }, cf.clone(), check));
    f.push(ctx_family("schemes in every construct", PAY, 2, if q { 2 } else { 3 }, vec![D, R], check));
    f.push(tuple_family("pairs of constructs", 2, JOIN, if q { vec![D, R] } else { cf }, check));
    f.push(ctx_family("all combinations of options", &["javascript:x", "\"w\":javascript:x", "!data:x!", "tel:1"], 1, 1, Cfg::with("", "rxlinweb"), check));
    // two places at once: an alias and its use, an image in a link
    let two: &'static [&'static str] = &["\"x\":§\n[§]¤", "[§]¤\n\n\"x\":§", "!¤!:§", "\"!¤!\":§", "\"x\":b\n[b]§\n[b]¤", "\"x\":§ \"y\":¤", "bq.:§ \"x\":¤", "\"§\":¤", "!¤(§)!", "[¤]§ \"x\":b"];
    let u: &'static [&'static str] = &["javascript:x", "data:x", "http://h/", "b", "/p", "JAVASCRIPT:x", "vbscript:x", "file:x", "javascript://h/%0ax", "mailto:x", "x:y"];
    let p = Prod(vec![two.len(), u.len(), u.len()]);
    f.push(Family::new("two URLs", "10 two-URL constructs x all pairs of 11 URLs x 2 modes", p.size(), move |i, ctx| {
        let v = p.decode(i);
        let d = two[v[0]].replace('§', u[v[1]]).replace('¤', u[v[2]]);
        check(&D, &d, ctx);
        check(&R, &d, ctx);
    }));
    Property {
        id: "C04", level: "model_checking",
        rule: "the document holds a colon",
        assumptions: vec!["a browser takes the scheme from the attribute value after dropping tabs, line ends and leading controls"],
        families: f,
    }
}
