//! C03: restricted mode ignores author-chosen classes, ids and styles.
use crate::engine::*;
use crate::observe::*;
use crate::space::*;
use crate::{Property, Tier};

fn check(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    let Some(out) = ctx.must(c, doc) else { return };
    ctx.validated += 1;
    if doc.contains(['(', '{']) { ctx.mark_nontrivial(doc); }
    if let Some(m) = foreign_attributes(&out, c.uid) {
        ctx.fail(c, doc, format!("{m}; output {out:?}"));
    }
}

/// Every construct with an attribute slot (§). The slot may be filled or left out.
pub const SLOTS: &[&str] = &[
    "p§. x", "h1§. x", "h6§. x", "bq§. x", "bq§.. x\n\ny\n\np. z", "bc§. x", "bc§.. x\n\ny", "pre§. x", "pre§.. x\n\ny", "p§.. x\n\ny",
    "notextile§. x", "###§. x\n\ny", "*§x*", "**§x**", "_§x_", "__§x__", "??§x??", "-§x-", "+§x+", "~§x~", "^§x^", "%§x%", "[*§x*]",
    "\"§x\":http://h/", "[\"§x(t)\":http://h/]", "\"§!a.png!\":http://h/", "!§a.png!", "!>§a.png(t)!", "!§a.png(t)!:http://h/", "!<§. a.png!",
    "|§. x|", "|_§. x|", "|\\2§. x|", "|/2^§. x|", "§. |x|", "^§. |x|", "table§. s\n|x|", "table§.\n|x|", "|=§. c\n|x|", "|:§. |\n|x|",
    "|:§. 100|§ 200|\n|x|", "|:\\2§. 100|\n|x|", "|^§.\n|x|", "|-§.\n|x|", "|~§.\n|x|", "*§ x", "*§ x\n** y\n*§ z", "* x\n**§ y", "#§ x", "#5§ x", ";§ x\n: y",
    "; x\n:§ y", "-§ x := y", "-§ x\n- y := z", "fn1§. x", "a[1]\n\nfn1§. x", "a[1]\n\nfn1§^. x", "a[§#n]\n\nnote#n. x\n\nnotelist.",
    "a[#n]\n\nnote#n§. x\n\nnotelist.", "a[#n]\n\nnote#n*§. x\n\nnotelist+.", "a[#n]\n\nnote#n. x\n\nnotelist§.", "a[#n]\n\nnote#n. x\n\nnotelist§:α^+.",
    "bq§.:http://h/ x", "|a|\n§. |b|\n|c|", "* *§x* y", "|*§x*|", "p. \"§x\":/u", "| * a\n*§ b|",
];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let cls: Vec<&'static str> = vec!["", "(k)", "(#i)", "(k d#i)", "(w-1/2)", "(k<)", "(é^)", "(a=b)", "(\"x)", "(a\\2)"];
    let sty: Vec<&'static str> = vec!["", "{color:red;}", "{a=b}", "{a:b(k)}", "{a:(x}", "{\"}", "{>}", "{a/3\\2}", "{^}", "{x[y]z}"];
    let lang: Vec<&'static str> = vec!["", "[fr]"];
    let cfgs: Vec<Cfg> = if q { &["r", "rxe"][..] } else { &["r", "rx", "re", "rs"][..] }.iter().map(|c| Cfg::of(c)).collect();
    let ord: &'static [[usize; 3]] = &[[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let p = Prod(vec![SLOTS.len(), cls.len(), sty.len(), lang.len(), ord.len()]);
    let n = cfgs.len();
    let mut f = vec![Family::new("the attributes might as well not be there",
        format!("{} attribute slots x {} class/id x {} styles x {} languages x 6 orders x {n} configs", SLOTS.len(), cls.len(), sty.len(), lang.len()),
        p.size(), move |i, ctx| {
            let v = p.decode(i);
            let part = [cls[v[1]], sty[v[2]], lang[v[3]]];
            let a: String = ord[v[4]].iter().map(|k| part[*k]).collect();
            let with = SLOTS[v[0]].replace('§', &a);
            let without = SLOTS[v[0]].replace('§', lang[v[3]]);
            // a quote ends the text of a link
            if a.contains('"') && SLOTS[v[0]].contains("\"§") { return; }
            for c in &cfgs {
                let (Some(x), Some(y)) = (ctx.must(c, &with), ctx.must(c, &without)) else { continue };
                ctx.validated += 1;
                if with != without { ctx.mark_nontrivial(&with); }
                if x != y {
                    ctx.fail(c, &with, format!("output {x:?}; without the class, id and style it is {y:?}"));
                }
                if let Some(m) = foreign_attributes(&x, c.uid) {
                    ctx.fail(c, &with, format!("{m}; output {x:?}"));
                }
            }
        })];
    const PAY: &[&str] = &["(c)", "(#i)", "(c#i)", "{s:t}", "{", "}", "(", ")", "[x]", "<", ">", "=", "a", " ", "#", "."];
    let all: Vec<Cfg> = ["r", "rx", "rn", "rl"].iter().map(|c| Cfg::of(c)).collect();
    let k = SLOTS.len() as u64;
    let s = Seqs::new(PAY.len(), 1, if q { 2 } else { 4 });
    f.push(Family::new("attribute tokens in every slot",
        format!("{k} slots x all sequences of 1..={} of {} attribute tokens", s.hi, PAY.len()), s.size() * k, move |i, ctx| {
            let a: String = s.decode(i / k).iter().map(|x| PAY[*x]).collect();
            check(&R, &SLOTS[(i % k) as usize].replace('§', &a), ctx);
        }));
    f.push(ctx_family("attribute tokens in every construct", PAY, 1, if q { 2 } else { 3 }, all.clone(), check));
    f.push(seq_family("tokens", WIDE, 1, if q { 2 } else { 3 }, "", "", all.clone(), check));
    f.push(tuple_family("pairs of constructs", 2, JOIN, all, check));
    f.push(tuple_family("constructs, all combinations of options", 1, JOIN, Cfg::with("r", "xlinweb"), check));
    let every = Cfg::with("r", "xliweb");
    f.push(Family::new("every slot, all combinations of options", format!("{k} slots x 3 attribute lists x {} option sets", every.len()), k * 3, move |i, ctx| {
        let a = ["(k#i)", "{color:red}", "{color:red}(k#i)[fr]"][(i / k) as usize];
        for c in &every { check(c, &SLOTS[(i % k) as usize].replace('§', a), ctx); }
    }));
    Property {
        id: "C03", level: "model_checking",
        rule: "a class, id or style is written in the document",
        assumptions: vec![],
        families: f,
    }
}
