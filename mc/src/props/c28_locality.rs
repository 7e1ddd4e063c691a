//! C28: blocks do not influence each other.
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

fn collapse(s: &str) -> String {
    let mut o = String::new();
    let mut n = false;
    for c in s.chars() { if c == '\n' { if !n { o.push(c); } n = true; } else { o.push(c); n = false; } }
    o.trim_matches('\n').to_string()
}
/// Documents whose meaning is defined through other blocks.
fn shared(d: &str) -> bool {
    ["..", "[1]", "[2", "fn1", "[#", "note", "ali", "#_", "]http", "]/"].iter().any(|x| d.contains(x))
}
const PROBE: &str = "h2(c#i). *T* _e_ \"l(t)\":/u\n\n# one\n## two *x*\n# three\n\n@c@ !i.png! \"q\" ==<r>== CAP\n\n|_. a|b|\n|c|*d*|\n\nbc. <x>\n\n- t := d\n\nbq. _q_ \"$\":http://h.com/\n\np>. *_+-^n^-+_*";

thread_local! { static SEEN: std::cell::RefCell<std::collections::HashMap<(String, String), String>> = Default::default(); }
/// The probe and the constructs are converted once in each worker.
fn alone(c: &Cfg, d: &str, ctx: &mut Ctx) -> Option<String> {
    let k = (c.label(), d.to_string());
    if let Some(o) = SEEN.with(|s| s.borrow().get(&k).cloned()) { return Some(o); }
    let o = ctx.must(c, d)?;
    if d == PROBE || CONSTRUCTS.contains(&d) { SEEN.with(|s| s.borrow_mut().insert(k, o.clone())); }
    Some(o)
}
fn pair(c: &Cfg, a: &str, b: &str, ctx: &mut Ctx) {
    let (Some(x), Some(y), Some(z)) = (alone(c, a, ctx), alone(c, b, ctx), ctx.must(c, &format!("{a}\n\n{b}"))) else { return };
    ctx.validated += 1;
    ctx.mark_nontrivial(&format!("{a}\n\n{b}"));
    let w = collapse(&format!("{x}\n\n{y}"));
    if collapse(&z) != w { ctx.fail(c, &format!("{a}\n\n{b}"), format!("output {z:?}, the parts give {w:?}")); }
}
fn check(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    if shared(doc) || doc.trim().is_empty() { return; }
    pair(c, doc, PROBE, ctx);
    pair(c, PROBE, doc, ctx);
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    f.push(seq_family("tokens around a probe", WIDE, 1, if q { 2 } else { 3 }, "", "", vec![D, R], check));
    f.push(ctx_family("tokens in every construct around a probe", WIDE, 1, 1, vec![D, R], check));
    f.push(tuple_family("pairs of constructs around a probe", 2, &["\n", " "], vec![D], check));
    {
        let p = Prod(vec![CONSTRUCTS.len(); 2]);
        f.push(Family::new("two constructs", format!("all pairs of {} constructs", CONSTRUCTS.len()), p.size(), move |i, c| {
            let v = p.decode(i);
            let (a, b) = (CONSTRUCTS[v[0]], CONSTRUCTS[v[1]]);
            if shared(a) || shared(b) { return; }
            for cf in [D, R] { pair(&cf, a, b, c); }
        }));
    }
    {
        let list: Vec<&'static str> = CONSTRUCTS.iter().copied().filter(|d| !shared(d) && !d.trim().is_empty()).collect();
        let p = Prod(vec![list.len(); 3]);
        f.push(Family::new("three constructs", format!("all triples of {} constructs", list.len()), p.size(), move |i, c| {
            let v = p.decode(i);
            let (a, b, d) = (list[v[0]], list[v[1]], list[v[2]]);
            let (Some(x), Some(y), Some(z)) = (alone(&D, a, c), alone(&D, b, c), alone(&D, d, c)) else { return };
            let doc = format!("{a}\n\n{b}\n\n{d}");
            let Some(o) = c.must(&D, &doc) else { return };
            c.validated += 1;
            c.mark_nontrivial(&doc);
            let w = collapse(&format!("{x}\n\n{y}\n\n{z}"));
            if collapse(&o) != w { c.fail(&D, &doc, format!("output {o:?}, the parts give {w:?}")); }
        }));
    }
    f.push(tuple_family("constructs around a probe, all combinations of options", 1, &[""], Cfg::with("", "rxliwe"), |c: &Cfg, d: &str, x: &mut Ctx| {
        // a typed break that is a block of its own keeps its form unless the document ends there
        if c.xhtml && d == "<br>" { return; }
        check(c, d, x)
    }));
    f.push(nest_family("nested constructs around a probe", 2, &["w", "@w@", "*w*"], vec![D], check));
    Property { id: "C28", level: "model_checking", rule: "both parts have output", assumptions: vec![], families: f }
}
