mod engine;
mod htmltok;
mod observe;
mod props;
mod space;

use engine::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Family>,
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// (property, config label, document) triples recorded as known defects.
fn known() -> Vec<(String, String, String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines().filter(|l| l.starts_with('{')) {
            let j: Value = serde_json::from_str(l).expect("known_findings.txt: bad line");
            let g = |k: &str| j[k].as_str().unwrap_or_default().to_string();
            v.push((g("property"), g("config"), g("doc"), g("what")));
        }
    }
    v
}

fn write_replay(id: &str, v: &Violation) -> PathBuf {
    let dir = root().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{:016x}.json", h(&(&v.doc, &v.cfg, &v.family_name))));
    let j = json!({"property": id, "family": v.family_name, "index": v.index, "config": v.cfg,
        "doc": v.doc, "violation": v.msg,
        "replay_with": format!("cd /verif && ./check.sh replay {}", p.display())});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}

fn evidence_path(id: &str) -> PathBuf { root().join("evidence").join(format!("{id}.json")) }

fn run_check(id: &str, tier: Tier) -> i32 {
    let p = match props::get(id, tier) {
        // for development: only the families with this in their name
        Some(mut p) => { if let Ok(n) = std::env::var("MC_FAMILY") { p.families.retain(|f| f.name.contains(&n)); } p }
        None => { eprintln!("unknown property {id}"); return 2; }
    };
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let opts = Opts {
        threads,
        cap: Duration::from_secs(std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok())
            .unwrap_or(if tier == Tier::Quick { 600 } else { 7200 })),
        hang: Duration::from_secs(std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if id == "C26" { 120 } else { 30 })),
        max_viol: std::env::var("MC_MAX_VIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(40),
    };
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = std::fs::create_dir_all(root().join("evidence"));
    {
        let (idc, lvl) = (id.to_string(), p.level);
        *HANG_FN.lock().unwrap() = Some(Box::new(move |v: &Violation| {
            let f = write_replay(&idc, v);
            let ev = json!({"property": idc, "tier": tier_s, "seed": seed(), "level": lvl,
                "coverage": {"explanation": "run ended by the watchdog on a non-terminating execution",
                    "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
                    "distinct_nontrivial": 0, "rule": "", "samples": [v.doc], "exhaustive": false},
                "wall_s": 0.0, "violations": 1});
            let _ = std::fs::write(evidence_path(&idc), serde_json::to_string_pretty(&ev).unwrap());
            println!("violation: config={} doc={:?}: {}", v.cfg, v.doc, v.msg);
            println!("VIOLATION property={idc} replay={}", f.display());
        }));
    }
    let rep = explore(&p.families, &opts);
    let kn: Vec<_> = known().into_iter().filter(|k| k.0 == id).collect();
    let mut hit: BTreeMap<usize, ()> = BTreeMap::new();
    let mut fresh: Vec<&Violation> = vec![];
    for v in &rep.violations {
        match kn.iter().position(|k| k.2 == v.doc && (k.1 == v.cfg || k.1 == "*")) {
            Some(i) => { hit.insert(i, ()); }
            None => fresh.push(v),
        }
    }
    for i in hit.keys() {
        println!("KNOWN-FINDING: property={id} {} [config={} doc={:?}]", kn[*i].3, kn[*i].1, kn[*i].2);
    }
    let ev = json!({
        "property": id, "tier": tier_s, "seed": seed(), "level": p.level,
        "coverage": {
            "states": rep.docs,
            "transitions": rep.parses,
            "traces_validated_against_impl": rep.validated,
            "evaluations": rep.cases,
            "distinct_nontrivial": rep.nontrivial,
            "distinct_outputs": rep.outs,
            "rule": p.rule,
            "families": rep.families,
            "samples": rep.samples,
            "exhaustive": rep.exhaustive,
            "counting": "states: distinct input documents/histories executed; transitions: executions of the real parser; traces_validated: executions whose output the oracle/model judged; evaluations: indices of the bounded spaces visited; distinct_nontrivial: distinct documents meeting the rule",
        },
        "assumptions": p.assumptions,
        "wall_s": rep.wall,
        "violations": fresh.len(),
        "known_findings_hit": hit.len(),
    });
    std::fs::write(evidence_path(id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{id} {tier_s}: {} cases, {} distinct documents, {} executions, {} judged, {} nontrivial, {} distinct outputs, exhaustive={} in {:.1}s",
        rep.cases, rep.docs, rep.parses, rep.validated, rep.nontrivial, rep.outs, rep.exhaustive, rep.wall);
    if std::env::var("MC_VERBOSE").is_ok() {
        for f in &rep.families { println!("  {}", f); }
    }
    if std::env::var("MC_GROUP").is_ok() {
        let mut g: BTreeMap<String, (usize, &Violation)> = BTreeMap::new();
        for v in &fresh {
            let k: String = v.msg.chars().take(60).map(|c| if c.is_ascii_digit() { '0' } else { c }).collect();
            let e = g.entry(format!("{} | {k}", v.family_name)).or_insert((0, v));
            e.0 += 1;
            if v.doc.len() < e.1.doc.len() { e.1 = v; }
        }
        for (k, (n, v)) in g { println!("{n:6} {k}   e.g. {} {:?}: {}", v.cfg, v.doc, v.msg); }
    }
    if let Some(n) = std::env::var("MC_SHORT").ok().and_then(|s| s.parse::<usize>().ok()) {
        let mut v = fresh.clone();
        v.sort_by_key(|v| (v.family, v.doc.len(), v.doc.clone()));
        let (mut fam, mut k) = (usize::MAX, 0);
        for x in v {
            if x.family != fam { fam = x.family; k = 0; println!("== {} ({})", x.family_name, fresh.iter().filter(|y| y.family == fam).count()); }
            k += 1;
            if k <= n { println!("{} {:?}: {}", x.cfg, x.doc, x.msg.replace("the model requires", "WANT")); }
        }
    }
    if fresh.is_empty() { return 0; }
    for v in fresh.iter().take(std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(12)) {
        println!("violation: [{}#{}] config={} doc={:?}: {}", v.family_name, v.index, v.cfg, v.doc, v.msg);
    }
    let f = write_replay(id, fresh[0]);
    println!("VIOLATION property={id} replay={}", f.display());
    1
}

/// Runs the exploration in a child process, so that a crash of the code under
/// test (stack overflow, abort, memory exhaustion) is still reported.
fn supervise(id: &str, tier: &str) -> i32 {
    let dir = std::env::temp_dir().join(format!("mc-slots-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["explore", id, tier]).env("MC_SLOTS", &dir).status();
    let code = match st {
        Ok(s) => match s.code() {
            Some(c) => c,
            None => {
                use std::os::unix::process::ExitStatusExt;
                let inflight = read_slots(&dir);
                let (cfg, doc) = inflight.first().cloned().unwrap_or_default();
                let v = Violation { family: 0, family_name: "crash".into(), index: u64::MAX, doc, cfg,
                    msg: format!("the process was killed by signal {:?} while executing one of {:?}", s.signal(), inflight) };
                let f = write_replay(id, &v);
                let ev = json!({"property": id, "tier": tier, "seed": seed(), "level": "model_checking",
                    "coverage": {"explanation": "run ended by a crash of the code under test", "states": 0, "transitions": 0,
                        "traces_validated_against_impl": 0, "evaluations": 0, "distinct_nontrivial": 0, "rule": "",
                        "samples": [v.doc], "exhaustive": false},
                    "wall_s": 0.0, "violations": 1});
                let _ = std::fs::write(evidence_path(id), serde_json::to_string_pretty(&ev).unwrap());
                println!("violation: {}", v.msg);
                println!("VIOLATION property={id} replay={}", f.display());
                1
            }
        },
        Err(e) => { eprintln!("cannot start the explorer: {e}"); 3 }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn replay(path: &Path) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = j["property"].as_str().unwrap();
    for tier in [Tier::Quick, Tier::Thorough] {
        if let Some(p) = props::get(id, tier) {
            for f in &p.families {
                if f.name == j["family"].as_str().unwrap() && j["index"].as_u64().unwrap_or(u64::MAX) < f.size {
                    let mut ctx = Ctx::standalone();
                    (f.run)(j["index"].as_u64().unwrap(), &mut ctx);
                    for (c, d, m) in &ctx.viol { println!("config={c} doc={d:?}: {m}"); }
                    if !ctx.viol.is_empty() {
                        println!("VIOLATION property={id} replay={}", path.display());
                        return 1;
                    }
                    println!("replayed: no violation");
                    return 0;
                }
            }
        }
    }
    println!("no such family/index; document was {:?}", j["doc"]);
    2
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("MC_TRACE").is_ok() { eprintln!("{i}"); }
    }));
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => supervise(&a[1], a.get(2).map(|s| s.as_str()).unwrap_or("quick")),
        Some("explore") => {
            let tier = match a.get(2).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            run_check(&a[1], tier)
        }
        Some("replay") => replay(Path::new(&a[1])),
        Some("parse") => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            let cfg = Cfg::of(a.get(1).map(|s| s.trim_matches('-')).unwrap_or(""));
            for d in s.split("\n----\n") {
                println!("IN : {d:?}\nOUT: {:?}", Ctx::standalone().parse(&cfg, d));
            }
            0
        }
        _ => { eprintln!("usage: mc check ID [quick|thorough] | replay FILE | parse LETTERS"); 2 }
    };
    std::process::exit(code);
}
