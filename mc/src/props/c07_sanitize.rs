//! C07: sanitizing applies the configured sanitizer to the whole output.
use crate::engine::*;
use crate::htmltok::*;
use crate::observe::scheme_of;
use crate::space::*;
use crate::{Property, Tier};
use rustextile::ammonia::Builder;
use rustextile::{HtmlKind, Textile};

/// The parser puts line ends after break tags and drops those at the end, after
/// sanitizing as well as without it, so line ends take no part in the comparison.
fn breaks(s: &str) -> String {
    s.replace("<br />", "<br>").replace("&lt;br /&gt;", "&lt;br&gt;").replace(['\n', '\r'], "")
}

fn agrees(b: &Builder, raw: &str, got: &str) -> Result<(), String> {
    let want = breaks(&b.clean(raw).to_string());
    if want == got || breaks(&b.clean(&format!("{raw}\n\n")).to_string()) == got { Ok(()) } else { Err(want) }
}

fn plain() -> Builder<'static> {
    let mut b = Builder::default();
    b.link_rel(None);
    b
}

/// What a sanitized page must never hold.
fn dangerous(out: &str) -> Option<String> {
    const BAD: &[&str] = &["script", "iframe", "object", "embed", "form", "style", "link", "meta", "base", "svg", "math", "input"];
    for t in tokenize(out) {
        if let Tok::Open { name, attrs, .. } = t {
            if BAD.contains(&name.as_str()) { return Some(format!("<{name}>")); }
            for (k, v) in attrs {
                if k.starts_with("on") || k == "style" || k == "srcdoc" || k == "formaction" { return Some(format!("{k}={v:?} on <{name}>")); }
                if (k == "href" || k == "src") && matches!(scheme_of(&v).as_deref(), Some("javascript" | "vbscript" | "data" | "file")) {
                    return Some(format!("{k}={v:?} on <{name}>"));
                }
            }
        }
    }
    None
}

fn check(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    let un = Cfg { sanitize: false, ..c.clone() };
    let (Some(raw), Some(out)) = (ctx.must(&un, doc), ctx.must(c, doc)) else { return };
    ctx.validated += 1;
    if raw != out { ctx.mark_nontrivial(doc); }
    if doc.trim().is_empty() { return; }
    let got = breaks(&out);
    if let Err(want) = agrees(&plain(), &raw, &got) { ctx.fail(c, doc, format!("output {out:?}; the sanitizer makes {want:?} of {raw:?}")); return; }
    let again = breaks(&plain().clean(&out).to_string());
    // the sanitizer may move the rows of a table on every pass
    if got != again && !raw.contains("<table") { ctx.fail(c, doc, format!("output {out:?} is not clean: the sanitizer makes {again:?} of it")); return; }
    if let Some(m) = dangerous(&out) { ctx.fail(c, doc, format!("{m} survives: {out:?}")); }
}

type Adj = (&'static str, fn(Textile) -> Textile, fn(&mut Builder<'static>));
const ADJ: &[Adj] = &[
    ("default", |t| t.set_sanitize(true), |_| {}),
    ("identity", |t| t.adjust_sanitizer(|s| s), |_| {}),
    ("link_rel", |t| t.adjust_sanitizer(|s| s.link_rel(Some("noopener"))), |b| { b.link_rel(Some("noopener")); }),
    ("no images", |t| t.adjust_sanitizer(|s| s.rm_tags(&["img"])), |b| { b.rm_tags(&["img"]); }),
    ("classes", |t| t.adjust_sanitizer(|s| s.add_generic_attributes(&["class", "id"])), |b| { b.add_generic_attributes(&["class", "id"]); }),
    ("no links", |t| t.adjust_sanitizer(|s| s.rm_tags(&["a", "b"])), |b| { b.rm_tags(&["a", "b"]); }),
    ("id prefix", |t| t.adjust_sanitizer(|s| s.add_generic_attributes(&["id"]).id_prefix(Some("u-"))), |b| { b.add_generic_attributes(&["id"]).id_prefix(Some("u-")); }),
    ("schemes", |t| t.adjust_sanitizer(|s| s.rm_url_schemes(&["http"])), |b| { b.rm_url_schemes(&["http"]); }),
    ("later adjustment wins", |t| t.adjust_sanitizer(|s| s.rm_tags(&["p"])).adjust_sanitizer(|s| s.rm_tags(&["strong"])), |b| { b.rm_tags(&["strong"]); }),
    ("reset", |t| t.adjust_sanitizer(|s| s.rm_tags(&["p"])).set_sanitize(true), |_| {}),
    ("off and on", |t| t.set_sanitize(true).set_sanitize(false).set_sanitize(true), |_| {}),
    ("comments", |t| t.adjust_sanitizer(|s| s.strip_comments(false)), |b| { b.strip_comments(false); }),
    ("relative", |t| t.adjust_sanitizer(|s| s.url_relative(rustextile::ammonia::UrlRelative::Deny)), |b| { b.url_relative(rustextile::ammonia::UrlRelative::Deny); }),
];

const HOT: &[&str] = &[
    "<script>x</script>", "<b onclick=\"x\">", "</b>", "<a href=\"javascript:x\">", "</a>", "<img src=x onerror=y>", "<style>x</style>", "<iframe src=\"http://h\"></iframe>",
    "<svg><script>", "<!-- c -->", "<div style=\"x:y\">", "</div>", "a", " ", "\"", "<br>", "<form>", "</p>", "&lt;script&gt;", "<math>", "\n", "<noscript>", "<p title='x'>", "<xmp>",
];
const PAY: &[&str] = &["<script>x</script>", "<b onclick=x>", "<a href=\"javascript:x\">", "<img src=x onerror=y>", "</p>", "<!--", "-->", "\"", ">", "a", "<style>", "<br>", "javascript:x"];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let s = Cfg::of("s");
    let cf: Vec<Cfg> = ["s", "sr", "sx", "sn", "sl"].iter().map(|c| Cfg::of(c)).collect();
    let mut f = vec![];
    f.push(seq_family("hostile HTML", HOT, 1, if q { 3 } else { 4 }, "", "", vec![s.clone()], check));
    f.push(seq_family("hostile HTML, options", HOT, 1, 2, "", "", cf.clone(), check));
    f.push(ctx_family("hostile text in every construct", PAY, 1, if q { 1 } else { 2 }, cf.clone(), check));
    f.push(ctx_family("all combinations of options", &["<b onclick=x>", "<script>x</script>", "\"w\":javascript:x"], 1, 1, Cfg::with("s", "rxlinweb"), check));
    f.push(tuple_family("constructs, all combinations of options", 1, &[""], Cfg::with("s", "rxlinweb"), check));
    f.push(ctx_family("hostile pairs in every construct", PAY, 2, if q { 2 } else { 3 }, vec![s.clone()], check));
    f.push(tuple_family("pairs of constructs", 2, if q { &JOIN[..1] } else { JOIN }, if q { vec![s, Cfg::of("sr")] } else { cf }, check));
    let docs: Vec<String> = CONSTRUCTS.iter().chain(HOT).map(|x| x.to_string())
        .chain(HOT.iter().flat_map(|a| CONSTRUCTS.iter().map(move |b| format!("{b} {a}")))).collect();
    let n = docs.len();
    let p = Prod(vec![ADJ.len(), n, 2, 2]);
    f.push(Family::new("adjusted sanitizers", format!("{} adjustments x {n} documents x HTML5/XHTML x restricted or not", ADJ.len()), p.size(), move |i, ctx| {
        let v = p.decode(i);
        let (name, adj, oracle) = ADJ[v[0]];
        let doc = &docs[v[1]];
        let base = || {
            let t = Textile::default().set_uid("U").set_restricted(v[3] == 1);
            if v[2] == 1 { t.set_html_kind(HtmlKind::XHTML) } else { t }
        };
        let label = format!("sanitizer: {name}{}{}", if v[2] == 1 { ", XHTML" } else { "" }, if v[3] == 1 { ", restricted" } else { "" });
        let (a, b) = (ctx.parse_with(&base(), &label, doc), ctx.parse_with(&adj(base()), &label, doc));
        let (Ok(raw), Ok(out)) = (a, b) else { ctx.fail_l(&label, doc, "no output: the parser panicked"); return };
        ctx.validated += 1;
        ctx.mark_nontrivial(doc);
        let mut b = plain();
        oracle(&mut b);
        if let Err(want) = agrees(&b, &raw, &breaks(&out)) { ctx.fail_l(&label, doc, format!("output {out:?}; the configured sanitizer makes {want:?} of {raw:?}")); }
    }));
    Property { id: "C07", level: "model_checking", rule: "sanitizing changes the output", assumptions: vec!["ammonia called directly is the reference; break tags are compared regardless of their spelling, and line ends are left out of the comparison"], families: f }
}
