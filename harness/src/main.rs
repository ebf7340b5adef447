//! lam-monitor: drives the real crates of /repo under generated workloads and decides each
//! property with an oracle over what was observed. See /verif/DESIGN.md.
mod acct_conc;
mod acct_model;
mod acct_seq;
mod acct_world;
mod common_checks;
mod conc;
mod hostile;
mod known;
mod chains;
mod many;
mod ondemand;
mod sim;
mod token;
mod token_conc;
#[macro_use]
mod util;
use std::sync::Arc;
use util::*;

pub struct Check {
    pub id: &'static str,
    pub run: fn(&Arc<Ctx>),
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    /// fewer distinct non-trivial cases than this is inconclusive
    pub min_nontrivial: usize,
    /// events the monitors must have seen at least once
    pub must_see: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

fn checks() -> Vec<Check> {
    let mut v = vec![];
    v.extend(acct_seq::checks());
    v.extend(common_checks::checks());
    v.extend(acct_conc::checks());
    v.extend(ondemand::checks());
    v.extend(token::checks());
    v.extend(token_conc::checks());
    v.extend(hostile::checks());
    v.extend(sim::checks());
    v
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|s| !s.is_empty())
}

/// usage: lam-monitor <property> [replay file]
fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).expect("property id").clone();
    let tier = match env("VERIF_TIER").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = env("VERIF_SEED").map_or(1, |s| s.parse().unwrap_or_else(|_| hash_of(&s) >> 1));
    let mut replay = None;
    if let Some(f) = args.get(2) {
        let j: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).unwrap();
        replay = Some((
            j["workload"].as_str().unwrap().to_string(),
            j["case_seed"].as_str().unwrap().parse().unwrap(),
        ));
        seed = j["seed"].as_u64().unwrap();
    }
    let verif = env("VERIF_DIR").unwrap_or_else(|| "/verif".into());
    // the libraries print to stdout, so the verdict goes to a file of its own
    let mut out = String::new();
    let all = checks();
    let chk = all.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    let ctx = Ctx::new(&id, tier, seed, replay.clone());
    match catch(|| (chk.run)(&ctx)) {
        Ok(()) => {}
        Err(Caught::Library(m)) => ctx.violate("main", 0, viol!("library panic: {m}")),
        Err(Caught::Harness(m)) => ctx.inconclusive(format!("harness error: {m}")),
    }
    let wall = ctx.start.elapsed().as_secs_f64();
    let st = ctx.stats.lock().unwrap();
    let violations = ctx.violations.lock().unwrap();
    let known = ctx.known.lock().unwrap();
    let mut inconclusive = ctx.inconclusive.lock().unwrap();
    if violations.is_empty() && replay.is_none() {
        if st.nontrivial.len() < chk.min_nontrivial {
            inconclusive.push(format!(
                "only {} distinct non-trivial cases observed, {} needed",
                st.nontrivial.len(),
                chk.min_nontrivial
            ));
        }
        for k in chk.must_see {
            if st.counters.get(*k).copied().unwrap_or(0) == 0 {
                inconclusive.push(format!("the workload never produced the event '{k}'"));
            }
        }
    }
    let mut coverage = serde_json::json!({
        "evaluations": st.evaluations,
        "distinct_nontrivial": st.nontrivial.len(),
        "rule": chk.rule,
        "samples": st.samples,
        "observed": st.counters,
    });
    if let Some(n) = st.counters.get("distinct_interleavings") {
        coverage["distinct_interleavings"] = serde_json::json!(n);
    }
    let ev = serde_json::json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": chk.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations.iter().map(|(_, _, v)| v.message.clone()).collect::<Vec<_>>(),
        "known_findings": *known,
        "inconclusive": *inconclusive,
    });
    std::fs::create_dir_all(format!("{verif}/evidence/replay")).ok();
    if replay.is_none() {
        std::fs::write(
            format!("{verif}/evidence/{id}.json"),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
    }
    for k in known.iter() {
        out += &format!("KNOWN-FINDING: property={id} {k}\n");
    }
    let mut code = 0;
    if let Some((label, case_seed, v)) = violations.first() {
        let path = format!("{verif}/evidence/replay/{id}.json");
        let rep = serde_json::json!({
            "property": id, "workload": label, "seed": seed, "case_seed": case_seed.to_string(),
            "message": v.message, "history": v.history,
            "how_to_replay": format!("./run.sh {id} {path}"),
        });
        if replay.is_none() {
            std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).ok();
        }
        out += &format!("{}\n", v.message);
        for h in &v.history {
            out += &format!("    {h}\n");
        }
        out += &format!("VIOLATION property={id} replay={path}\n");
        code = 1;
    } else if !inconclusive.is_empty() {
        for i in inconclusive.iter() {
            out += &format!("INCONCLUSIVE: {i}\n");
        }
        code = 2;
    } else {
        out += &format!(
            "{id} held on {} executions ({} distinct non-trivial) in {wall:.1} s; {}\n",
            st.evaluations,
            st.nontrivial.len(),
            st.counters
                .iter()
                .map(|(k, v)| format!("{k}={v}"))
                .collect::<Vec<_>>()
                .join(" ")
        );
    }
    match env("MONITOR_OUT") {
        Some(f) => std::fs::write(f, out).expect("write verdict"),
        None => print!("{out}"),
    }
    // threads stuck in the library are left behind on purpose
    std::process::exit(code);
}
