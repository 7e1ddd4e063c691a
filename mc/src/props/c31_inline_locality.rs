//! C31: complete constructs in one text do not influence each other.
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

/// Complete constructs: everything they open they close.
const BITS: &[&str] = &[
    "*s*", "_e_", "**b**", "__i__", "??c??", "-d-", "+n+", "^u^", "~l~", "%p%", "*(k#i)s t*", "_{color:red}e_", "%[fr]p q%", "*a _b_ c*", "[*s*]", "{_e_}", "(*s*)",
    "\"t\":/u", "\"(k)t v(w)\":http://h.com/a", "[\"t\":/u]", "\"$\":http://h.com/b", "\"*t*\":/u(v)", "\"say \"hi\" now\":/u", "(\"t\":/u)", "\"!i.png!\":/u", "\"t\":mailto:a@b.c",
    "!i.png!", "!>i.png(t u)!", "!(k)i.png!:/u", "[!i.png!]", "@c@", "@*c* \"d\":/u@", "@<b>@", "==r *s*==", "==<b>==", "<code>*c*</code>", "<notextile>*r*</notextile>", "<pre>*p*</pre>", "<kbd>*p*</kbd>",
    "<b>h</b>", "<i class=\"k\">*h*</i>", "<br>", "<img src=\"a.png\" alt=\"x\">", "<!-- *c* -->", "<a href=\"/*x*\">t</a>",
    "\"q\"", "\"q r s\"", "'q'", "'q r'", "it's", "'99", "x -- y", "x - y", "x...", "(c)", "(tm)", "2 x 3", "[1/2]", "5'", "ABC(long name)", "ABCD", "&amp;", "&#169;", "a & b", "a < b", "x_y", "a*b", "[sic]", "(x)", "{y}", "a@b.c", "50%", "http://h.com/", "C++", "a.b", "Who?", "No!", "a|b", "a/b", "#1", "x:", "日本", "é*è*",
];
const JOINS: &[&str] = &[" w ", ", ", " ", "\nw "];

thread_local! { static SEEN: std::cell::RefCell<std::collections::HashMap<(usize, String), Option<String>>> = Default::default(); }
/// What a construct becomes between two words.
fn alone(x: usize, c: &Cfg, ctx: &mut Ctx) -> Option<String> {
    let k = (x, c.label());
    if let Some(o) = SEEN.with(|s| s.borrow().get(&k).cloned()) { return o; }
    let o = ctx.must(c, &format!("w {} w", BITS[x])).and_then(|o| o.strip_prefix("<p>w ").and_then(|o| o.strip_suffix(" w</p>")).map(str::to_string));
    SEEN.with(|s| s.borrow_mut().insert(k, o.clone()));
    o
}

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let mut f = vec![];
    let run = move |v: &[usize], j: usize, host: usize, c: &Cfg, ctx: &mut Ctx| {
        // tags are text in restricted mode, and so is what is next to them
        if c.restricted && v.iter().any(|x| BITS[*x].starts_with('<')) { return; }
        // a line that ends with a break is not broken again
        if JOINS[j].starts_with('\n') && v[..v.len() - 1].iter().any(|x| BITS[*x] == "<br>") { return; }
        // a pipe ends a cell
        if HOSTS[host].0.contains('|') && v.iter().any(|x| BITS[*x].contains('|')) { return; }
        let mut parts = vec![];
        for x in v { match alone(*x, c, ctx) { Some(o) => parts.push(o), None => return } }
        let (doc, want) = fill(HOSTS[host], &format!("w {} w", v.iter().map(|x| BITS[*x]).collect::<Vec<_>>().join(JOINS[j])), &format!("w {} w", parts.join(&JOINS[j].replace('\n', "<br>\n"))));
        let Some(out) = ctx.must(c, &doc) else { return };
        ctx.validated += 1;
        ctx.mark_nontrivial(&doc);
        if out != want { ctx.fail(c, &doc, format!("output {out:?}, the parts give {want:?}")); }
    };
    let n = BITS.len();
    let p = Prod(vec![n, n, JOINS.len(), 2]);
    f.push(Family::new("two constructs", format!("all pairs of {n} constructs x {} texts between them, 2 configs", JOINS.len()), p.size(), move |i, ctx| { let v = p.decode(i); run(&v[..2], v[2], 0, &[D, R][v[3]], ctx) }));
    let p = Prod(vec![n, n, n]);
    f.push(Family::new("three constructs", format!("all triples of {n} constructs"), p.size(), move |i, ctx| { let v = p.decode(i); run(&v, 0, 0, &D, ctx) }));
    let p = Prod(vec![n, n, HOSTS.len()]);
    f.push(Family::new("two constructs in every element", format!("all pairs of {n} constructs in {} elements", HOSTS.len()), p.size(), move |i, ctx| { let v = p.decode(i); run(&v[..2], 0, v[2], &D, ctx) }));
    if !q {
        let p = Prod(vec![n, n, n, JOINS.len() - 1, 2]);
        f.push(Family::new("three constructs, all texts between", format!("all triples of {n} constructs x {} texts between them, 2 configs", JOINS.len() - 1), p.size(), move |i, ctx| { let v = p.decode(i); run(&v[..3], v[3] + 1, 0, &[D, R][v[4]], ctx) }));
    }
    Property { id: "C31", level: "model_checking", rule: "every construct is complete", assumptions: vec![], families: f }
}
