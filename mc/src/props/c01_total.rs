//! C01: conversion is total.
use crate::engine::*;
use crate::space::*;
use crate::{Property, Tier};

fn total(c: &Cfg, doc: &str, ctx: &mut Ctx) {
    if ctx.must(c, doc).is_some() {
        ctx.validated += 1;
        ctx.mark_nontrivial(doc);
    }
}

/// Characters with unusual byte lengths, case mappings, widths or categories.
const ODD: &[&str] = &[
    "\0", "\u{1}", "\u{b}", "\u{c}", "\r", "\r\n", "\u{7f}", "\u{85}", "\u{a0}", "ß", "İ", "ı", "ŉ", "ǰ", "ﬁ", "ſ", "K", "Å", "e\u{301}", "é",
    "Ω", "א", "中", "\u{2028}", "\u{2029}", "\u{200b}", "\u{200d}", "\u{feff}", "\u{fffd}", "\u{ffff}", "𝒜", "😀", "\u{10ffff}", "²", "Ⅷ", "٣", "€",
    "“", "‘", "«", "„", "—", "&#0;", "&#x110000;", "&#99999999999;", "&nosuch;", "%", "%zz", "\\", "`",
];

const NUMS: &[&str] = &[
    "0", "00", "1", "9", "10", "007", "255", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807",
    "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616",
    "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999999999", "²", "٣", "Ⅷ", "-1", "1.5",
];
const NUMCTX: &[&str] = &[
    "#§ a\n# b\n# c", "#§ a\n\n#_ b\n\n#_ c", "##§ a", "# a\n##§ b\n## c\n\n#_ d", "fn§. x", "a[§] b[§!]\n\nfn§. x", "fn§^. x", "|\\§. a|b|", "|/§. a|b|",
    "|\\§/§. a|", "|:\\§. |\n|a|", "|:\\§. §|§|\n|a|", "h§. x", "§ x §", "§x§x§", "§' x §\"", "'§s", "[§/2]", "a[#n§]\n\nnote#n§. x\n\nnotelist:§.",
    "notelist:§+.", "\"a\":http://h:§/", "!a.png §x§!", "!http://h:§/a.png!", "p((§. x", "table\\§/§. s\n|a|", "&#§;", "&#x§;", "*(§)a*", "\"$\":§",
];

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    let all8: Vec<Cfg> = ["", "r", "l", "n", "x", "w", "s", "ie"].iter().map(|c| Cfg::of(c)).collect();
    let mut f = vec![
        seq_family("tokens, every option set", WIDE, 1, if q { 2 } else { 3 }, "", "", Cfg::product("rlxinwes"), total),
        seq_family("tokens", WIDE, 1, if q { 3 } else { 4 }, "", "", if q { vec![D, R] } else { vec![D] }, total),
        ctx_family("odd characters in every construct", ODD, 1, if q { 1 } else { 2 }, all8.clone(), total),
        ctx_family("odd characters in every construct, twice", ODD, 2, 2, vec![D], total),
        ctx_family("tokens in every construct", WIDE, 1, if q { 1 } else { 2 }, Cfg::product("rlxn"), total),
        tuple_family("pairs of constructs", 2, JOIN, all8.clone(), total),
        nest_family("nested constructs", 2, &["w", "", "é", "\"", "\n", "@w@", "\"w\":/w", "*w*", "==w==", "!w.png!", "[1]", "[#m]"], all8.clone(), total),
        nest_family("deeply nested constructs", 3, if q { &["w"] } else { &["w", "@w@", "\"w\":/w", "*w*"] }, vec![D, R], total),
    ];
    {
        let p = Prod(vec![NUMCTX.len(), NUMS.len(), NUMS.len()]);
        f.push(Family::new("numbers", "29 numeric slots x all pairs of 24 boundary numbers x 2 configs", p.size(), move |i, ctx| {
            let v = p.decode(i);
            let d = NUMCTX[v[0]].replacen('§', NUMS[v[1]], 1).replace('§', NUMS[v[2]]);
            total(&D, &d, ctx);
            total(&R, &d, ctx);
        }));
    }
    f.extend(deep_families(1, if q { 5 } else { 7 }, vec![D], total));
    f.push(seq_family("deep: quotes", &["a", " ", "\"", "\":c", "'", "\"\":h"], 6, if q { 6 } else { 8 }, "", "", vec![D], total));
    let attr: &[&str] = &["(", ")", "<", ">", "=", "^", "-", "~", "{a}", "[b]", "(c#d)", "\\2", "/3", "_"];
    for (pre, post) in [("p", ". x"), ("|", ". x|"), ("table", ".\n|a|"), ("|:", ". |\n|a|"), ("|^", ".\n|a|"), ("", ". |a|"), ("|=", ". cap\n|a|"),
        ("*", " x"), ("!", "a.png!"), ("notelist", "."), ("[", "#x]"), ("fn1", ". x"), ("bq", ".. x"), ("bc", ". x")] {
        f.push(seq_family(&format!("attributes of {pre:?}"), attr, 0, if q { 3 } else { 5 }, pre, post, vec![D], total));
    }
    // Pumping: long and deep inputs. The bound on time is the watchdog's.
    {
        let a = toks(&["a", " ", "\n", "\"", "'", ":", "*", "#", "_", "-", "@", "=", "!", "(", ")", "[", "]", "{", "}", "<", ">", "|", ".", "&",
            "1", "/", "^", "~", "%", "+", "?", "A", "é"]);
        let s = Seqs::new(a.len(), 1, 2);
        let pres = toks(if q { &[""] } else { &["", "p. ", "- ", "* ", "|", "\"", "- a := ", "<b>", "bq. ", "!"] });
        let reps: &'static [usize] = if q { &[9, 60, 800] } else { &[3, 9, 33, 200, 2000, 4000] };
        let n = pres.len() as u64;
        let b = format!("every unit of 1..=2 of {} tokens repeated {reps:?} times after {n} prefixes", a.len());
        f.push(Family::new("pumped", b, s.size() * n, move |i, ctx| {
            let u = join(&a, &s.decode(i / n));
            for r in reps {
                let d = format!("{}{}", pres[(i % n) as usize], u.repeat(*r));
                total(&D, &d, ctx);
                if *r <= 60 { total(&R, &d, ctx); }
            }
        }));
        const HUGE: [(&str, usize); 9] = [("*a* ", 33000), ("_a *b*_\n", 17000), ("a\n\n", 66000), ("a[1] ", 66000), ("# a\n", 66000), ("*# a\n", 20000), ("|a|\n", 20000), ("a|", 66000), ("a\n", 66000)];
        f.push(Family::new("very long documents", format!("{HUGE:?}"), HUGE.len() as u64, move |i, ctx| {
            let (u, n) = HUGE[i as usize];
            total(&D, &u.repeat(n), ctx);
        }));
        // every construct many times over
        let reps2: &'static [usize] = if q { &[7, 40, 270] } else { &[7, 40, 300, 1000] };
        let p = Prod(vec![CONSTRUCTS.len(), JOIN.len()]);
        f.push(Family::new("repeated constructs", format!("every construct x 4 joiners repeated {reps2:?} times x 2 configs"), p.size(), move |i, ctx| {
            let v = p.decode(i);
            for r in reps2 {
                let d = vec![CONSTRUCTS[v[0]]; *r].join(JOIN[v[1]]);
                total(&D, &d, ctx);
                total(&R, &d, ctx);
            }
        }));
    }
    Property {
        id: "C01", level: "model_checking",
        rule: "a document is non-trivial when the parser was executed on it and returned",
        assumptions: vec!["an execution that has not returned within the watchdog limit (30 s) counts as non-terminating"],
        families: f,
    }
}
