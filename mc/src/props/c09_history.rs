//! C09: the result depends only on the text and the options.
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};
use rustextile::{HtmlKind, Textile};
use std::sync::Arc;

/// The abstract state of a parser: the last value of every option.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct St { uid: &'static str, r: bool, l: bool, x: bool, img: bool, blk: bool, raw: bool, rel: Option<&'static str>, align: Option<bool>, san: u8 }
const INIT: St = St { uid: "U", r: false, l: false, x: false, img: true, blk: true, raw: false, rel: None, align: None, san: 0 };

impl St {
    /// A parser configured once, in a fixed order.
    fn fresh(&self) -> Textile {
        let mut t = Textile::default().set_uid(self.uid).set_restricted(self.r).set_lite(self.l)
            .set_html_kind(if self.x { HtmlKind::XHTML } else { HtmlKind::HTML5 })
            .set_images(self.img).set_block_tags(self.blk).set_raw_blocks(self.raw).set_rel(self.rel).set_getting_image_size(false);
        if let Some(a) = self.align { t = t.set_align_class(a); }
        match self.san { 1 => t.set_sanitize(true), 2 => t.adjust_sanitizer(|s| s.rm_tags(&["strong"])), _ => t }
    }
}

#[derive(Clone, Copy)]
enum Op { Parse(usize), Set(&'static str, fn(Textile) -> Textile, fn(&mut St)) }

const DOCS: &[&str] = &[
    "a[1] b[#n] b[#n] \"l\":ali \"m(t)\":http://h/ !>i.png! ABC(t) CAPS\n\n[ali]http://q/\n\nfn1^(k). *foot*\n\nnote#n(k). text\n\nnotelist(k):A+.",
    "#5(k) one\n# two\n\nx\n\n#_ three\n\n|_(k). a|/2. b|\n\nbc.. code <b>\n\n*more*\n\np(k#i){a:b}. end\nof it <b onclick=x>b</b>",
    "<foo>*x*</foo>\n\n<div>y</div> @c@ ==r *r*== \"it's\" -- 2 x 3",
    "bq.:http://h/ q[2]\n\nfn2. z\n\n- a := b\n\n\"$\":http://h/p",
    "\"[ @ == *a _b %{c !d\n\nbc.. \n\n[#m] fn1. |x",
];

const OPS: &[Op] = &[
    Op::Parse(0), Op::Parse(1), Op::Parse(2), Op::Parse(3), Op::Parse(4),
    Op::Set("uid V", |t| t.set_uid("V"), |s| s.uid = "V"),
    Op::Set("uid a.b", |t| t.set_uid("a.b"), |s| s.uid = "a.b"),
    Op::Set("restricted", |t| t.set_restricted(true), |s| s.r = true),
    Op::Set("unrestricted", |t| t.set_restricted(false), |s| s.r = false),
    Op::Set("lite", |t| t.set_lite(true), |s| s.l = true),
    Op::Set("not lite", |t| t.set_lite(false), |s| s.l = false),
    Op::Set("XHTML", |t| t.set_html_kind(HtmlKind::XHTML), |s| s.x = true),
    Op::Set("HTML5", |t| t.set_html_kind(HtmlKind::HTML5), |s| s.x = false),
    Op::Set("no images", |t| t.set_images(false), |s| s.img = false),
    Op::Set("images", |t| t.set_images(true), |s| s.img = true),
    Op::Set("no blocks", |t| t.set_block_tags(false), |s| s.blk = false),
    Op::Set("blocks", |t| t.set_block_tags(true), |s| s.blk = true),
    Op::Set("raw blocks", |t| t.set_raw_blocks(true), |s| s.raw = true),
    Op::Set("no raw blocks", |t| t.set_raw_blocks(false), |s| s.raw = false),
    Op::Set("rel", |t| t.set_rel(Some("nofollow")), |s| s.rel = Some("nofollow")),
    Op::Set("other rel", |t| t.set_rel(Some("me \"x\"")), |s| s.rel = Some("me \"x\"")),
    Op::Set("no rel", |t| t.set_rel::<&str>(None), |s| s.rel = None),
    Op::Set("align class", |t| t.set_align_class(true), |s| s.align = Some(true)),
    Op::Set("align attribute", |t| t.set_align_class(false), |s| s.align = Some(false)),
    Op::Set("sanitize", |t| t.set_sanitize(true), |s| s.san = 1),
    Op::Set("adjusted sanitizer", |t| t.adjust_sanitizer(|s| s.rm_tags(&["strong"])), |s| s.san = 2),
    Op::Set("no sanitizer", |t| t.set_sanitize(false), |s| s.san = 0),
    Op::Set("sizes off", |t| t.set_getting_image_size(false), |_| {}),
];

thread_local! {
    /// What a new parser gives, per option state and document.
    static FRESH: std::cell::RefCell<std::collections::HashMap<(St, usize), String>> = Default::default();
}

fn step(ctx: &mut Ctx, t: &Textile, st: &St, hist: &str, d: usize) -> bool {
    let label = format!("history: {hist}; then parse document {d}");
    let known = FRESH.with(|m| m.borrow().get(&(st.clone(), d)).cloned());
    let fresh = match known {
        Some(x) => Ok(x),
        None => ctx.parse_with(&st.fresh(), &label, DOCS[d]),
    };
    if let Ok(x) = &fresh { FRESH.with(|m| m.borrow_mut().insert((st.clone(), d), x.clone())); }
    let (Ok(a), Ok(b)) = (ctx.parse_with(t, &label, DOCS[d]), fresh) else {
        ctx.fail_l(&label, DOCS[d], "no output: the parser panicked");
        return false;
    };
    ctx.validated += 1;
    if a != b { ctx.fail_l(&label, DOCS[d], format!("output {a:?}; a new parser with the same options gives {b:?}")); }
    a == b
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let s = Seqs::new(OPS.len(), 0, if q { 3 } else { 4 });
    f.push(Family::new("histories of option changes and conversions",
        format!("all histories of up to {} of {} operations, then every one of {} documents compared with a new parser", s.hi, OPS.len(), DOCS.len()), s.size(), move |i, ctx| {
            let mut t = Textile::default().set_uid("U");
            let mut st = INIT;
            let mut hist = String::new();
            for o in s.decode(i) {
                match OPS[o] {
                    Op::Parse(d) => {
                        hist.push_str(&format!("parse {d}, "));
                        if !step(ctx, &t, &st, &hist, d) { return; }
                    }
                    Op::Set(n, f, m) => { hist.push_str(n); hist.push_str(", "); t = f(t); m(&mut st); }
                }
            }
            ctx.mark_nontrivial(&hist);
            for d in 0..DOCS.len() {
                if !step(ctx, &t, &st, &hist, d) { return; }
            }
        }));
    // two live parsers, conversions interleaved in every way
    let n = DOCS.len() * 2;
    let s = Seqs::new(n, 1, if q { 4 } else { 5 });
    f.push(Family::new("two parsers interleaved", format!("all sequences of up to {} conversions over 2 parsers x {} documents", s.hi, DOCS.len()), s.size(), move |i, ctx| {
        let st = [INIT, St { uid: "V", r: true, x: true, ..INIT }];
        let t = [st[0].fresh(), st[1].fresh()];
        let seq = s.decode(i);
        let (last, before) = seq.split_last().unwrap();
        let hist = format!("parsers and documents {:?}", before);
        ctx.mark_nontrivial(&hist);
        for k in before {
            if ctx.parse_with(&t[k % 2], &hist, DOCS[k / 2]).is_err() { return; }
        }
        step(ctx, &t[last % 2], &st[last % 2], &hist, last / 2);
    }));
    // every document after every other one
    let docs: Arc<Vec<String>> = Arc::new(CONSTRUCTS.iter().map(|x| x.to_string()).chain(CTX.iter().map(|x| x.replace('§', "a"))).collect());
    let k = docs.len();
    for (name, c) in [("", D), (", restricted", R)] {
        if q && c.restricted { continue; }
        let docs = docs.clone();
        let p = Prod(vec![k, k]);
        f.push(Family::new(&format!("every document after every other{name}"), format!("all ordered pairs of {k} documents on one parser"), p.size(), move |i, ctx| {
            let v = p.decode(i);
            let t = c.build();
            let label = format!("after {:?}", docs[v[0]]);
            let doc = &docs[v[1]];
            if ctx.parse_with(&t, &label, &docs[v[0]]).is_err() { return; }
            let (Ok(a), Some(b)) = (ctx.parse_with(&t, &label, doc), ctx.must(&c, doc)) else { return };
            ctx.validated += 1;
            ctx.mark_nontrivial(&format!("{label}{doc}"));
            if a != b { ctx.fail_l(&label, doc, format!("output {a:?}; alone it is {b:?}")); }
        }));
    }
    // the same document over and over
    f.push(tuple_family("the same document again", 2, if q { &["\n\n"] } else { JOIN }, vec![D, R], |c, d, ctx| {
        let t = c.build();
        let l = c.label();
        let outs: Vec<_> = (0..3).map(|k| if k < 2 { ctx.parse_with(&t, &l, d) } else { ctx.parse_with(&c.build(), &l, d) }).collect();
        ctx.validated += 1;
        ctx.mark_nontrivial(d);
        if outs[0] != outs[1] || outs[1] != outs[2] { ctx.fail(c, d, format!("three conversions give {:?}, {:?} and {:?}", outs[0], outs[1], outs[2])); }
    }));
    // many items: iteration order of maps must not show
    let p = Prod(vec![7, 6]);
    f.push(Family::new("many notes, aliases and attributes", "7 sizes x 6 kinds, 12 conversions each", p.size(), |i, ctx| {
        let v = Prod(vec![7, 6]).decode(i);
        let n = [2, 3, 5, 8, 12, 20, 40][v[0]];
        let each = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
        let doc = match v[1] {
            0 => format!("{}\n\n{}\n\nnotelist.", each(&|k| format!("[#n{k}]"), " "), each(&|k| format!("note#n{k}. t{k}"), "\n\n")),
            1 => format!("{}\n\nnotelist+.", each(&|k| format!("note#n{k}. t{k}"), "\n\n")),
            2 => format!("{}\n\n{}", each(&|k| format!("\"l{k}\":a{k}"), " "), each(&|k| format!("[a{k}]http://h/{k}"), "\n")),
            3 => format!("p({}#i)[fr]{{a:b;c:d;e:f}}. x", each(&|k| format!("c{k}"), " ")),
            4 => format!("{}\n\n{}", each(&|k| format!("r[{k}]"), " "), each(&|k| format!("fn{k}. t{k}"), "\n\n")),
            _ => each(&|k| format!("@c{k}@ *s{k}* \"l\":/{k} !i{k}.png(t)!"), " "),
        };
        ctx.mark_nontrivial(&doc);
        let Some(a) = ctx.must(&D, &doc) else { return };
        for _ in 0..12 {
            let Ok(b) = ctx.parse_with(&D.build(), "-", &doc) else { return };
            ctx.validated += 1;
            if a != b { ctx.fail(&D, &doc, format!("two conversions give {a:?} and {b:?}")); return; }
        }
    }));
    Property { id: "C09", level: "model_checking", rule: "every history", assumptions: vec![], families: f }
}
