mod attack;
mod bank;
mod client;
mod gen;
mod iface;
mod keys;
mod model;
mod rng;
mod trace;
mod watch;
mod wire;
mod world;

use keys::Cfg;
use model::{c, tag_names, Tags};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;
use world::{hash_bank, Stats, Step, Violation, World};

#[derive(Clone, Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    run: u64,
    run_seed: u64,
    cfg: Cfg,
    steps: Vec<Step>,
    #[serde(default)]
    strict: bool,
    #[serde(default)]
    violation: String,
}

#[derive(Clone, Serialize, Deserialize)]
struct Finding {
    property: String,
    id: String,
    what: String,
    #[serde(rename = "match")]
    matches: String,
    /// the step at which it fails
    step: usize,
    cfg: Cfg,
    steps: Vec<Step>,
    /// repeat the steps from index .0 to the end .1 times, .2 seconds apart
    #[serde(default)]
    repeat: Option<(usize, u64, u64)>,
}

fn prop_no(p: &str) -> u32 {
    p.trim_start_matches('C').parse().expect("property id like C04")
}

fn want(n: u32) -> Tags {
    c(n)
}

/// Executes one list of steps the way property `n` is judged; pure function of its arguments.
fn execute(n: u32, cfg: &Cfg, steps: &[Step], strict: bool, log: bool) -> (Option<Violation>, World) {
    watch::begin(0, 0, strict, cfg, steps);
    let mut w = World::new(cfg, want(n));
    w.m.strict = strict;
    if log {
        w.log = Some(vec![]);
    }
    w.run(steps);
    if w.viol.is_none() {
        w.viol = post(n, cfg, steps, &w, strict);
    }
    (w.viol.clone(), w)
}

/// Checks over the recorded history, after the run.
fn post(n: u32, cfg: &Cfg, steps: &[Step], w: &World, strict: bool) -> Option<Violation> {
    if w.dead {
        return None;
    }
    match n {
        3 => {
            let other: Vec<Step> = steps.iter().filter(|s| !s.extra).cloned().collect();
            if other.len() == steps.len() {
                return None;
            }
            let mut b = World::new(cfg, 0);
            b.m.strict = strict;
            b.run(&other);
            // A claim of nothing succeeds where a claim of something would meet a frozen account,
            // and an account owed nothing can be closed: the extra claims may legitimately change
            // which of the other requests are accepted, and then the histories are incomparable.
            if b.dead {
                return None;
            }
            if b.shape != w.shape {
                let excused = steps.iter().any(|s| {
                    matches!(s.env, Some(world::Env::FreezeVault { .. } | world::Env::FreezeUser { .. } | world::Env::Rollback))
                        || s.ops.iter().any(|o| matches!(o, model::Op::Close { .. }))
                });
                if excused {
                    return None;
                }
                let i = b.shape.iter().zip(&w.shape).position(|(x, y)| x != y);
                return Some(Violation {
                    tags: c(3),
                    step: steps.len(),
                    msg: format!("leaving out the extra claims changes which other requests are accepted (request {i:?})"),
                });
            }
            // what is still unclaimed counts too
            let fin = |w: &World| -> std::collections::BTreeMap<(u8, u8), (u128, u128, bool)> {
                let mut out = std::collections::BTreeMap::new();
                for (k, m) in &w.m.minings {
                    let (paid, mut loss) = w.payouts.get(k).copied().unwrap_or((0, 0));
                    let p = w.final_claim(k.0, k.1);
                    loss += m.loss + (2 + m.popped as u128) * model::ONE;
                    let ok = p.is_ok();
                    out.insert(*k, (paid + p.unwrap_or(0) as u128, loss, ok));
                }
                out
            };
            let (x, y) = (fin(w), fin(&b));
            for (k, (pa, la, oka)) in &x {
                let Some((pb, lb, okb)) = y.get(k) else { continue };
                let tol = (la + lb) / model::ONE + 2;
                if oka != okb || pa.abs_diff(*pb) > tol {
                    return Some(Violation {
                        tags: c(3),
                        step: steps.len(),
                        msg: format!(
                            "user {} in pool {} receives {pa} tokens in all when claims happen at the recorded times and {pb} when the extra claims are left out (rounding explains at most {tol})",
                            k.1, k.0
                        ),
                    });
                }
            }
            None
        }
        21 => {
            let mut b = World::new(cfg, 0);
            b.m.strict = strict;
            b.run(steps);
            if hash_bank(&b.bank) != hash_bank(&w.bank) || b.outs != w.outs {
                return Some(Violation { tags: c(21), step: steps.len(), msg: "re-executing the same history gives a different state".into() });
            }
            None
        }
        _ => None,
    }
}

fn run_one(n: u32, idx: u64, seed: u64, thorough: bool) -> (Cfg, Vec<Step>, Option<Violation>, Stats, u64) {
    let (cfg, mut g) = gen::run_seed(seed, n, want(n), thorough);
    watch::begin(idx, seed, false, &cfg, &[]);
    g.generate();
    if g.w.viol.is_none() {
        g.w.viol = post(n, &cfg, &g.steps, &g.w, false);
    }
    let h = hash_bank(&g.w.bank);
    (cfg, g.steps, g.w.viol, g.w.stats, h)
}

fn seeds_for(seed: u64, n: u32, idx: u64) -> u64 {
    rng::mix(rng::mix(seed ^ 0x5eed) ^ ((n as u64) << 48) ^ idx)
}

/// Delta debugging over steps, then over the parts of each step.
fn minimise(n: u32, cfg: &mut Cfg, steps: &[Step], strict: bool) -> Vec<Step> {
    let t0 = Instant::now();
    let cur = minimise_steps(n, cfg, steps, strict, t0);
    // a plainer configuration
    let edits: [fn(&mut Cfg); 8] = [
        |c| c.overlap = 0,
        |c| c.kinds = 0,
        |c| c.rent = 0,
        |c| c.shared_dep = false,
        |c| c.shared_dist = false,
        |c| c.shared_mint = false,
        |c| c.fill_is_dep = false,
        |c| c.dist_is_dep = false,
    ];
    for e in edits {
        let mut t = cfg.clone();
        e(&mut t);
        if t0.elapsed().as_secs() < 60
            && std::panic::catch_unwind(|| execute(n, &t, &cur, strict, false).0.is_some()).unwrap_or(false)
        {
            *cfg = t;
        }
    }
    cur
}

fn minimise_steps(n: u32, cfg: &Cfg, steps: &[Step], strict: bool, t0: Instant) -> Vec<Step> {
    let bad = |s: &[Step]| std::panic::catch_unwind(|| execute(n, cfg, s, strict, false).0.is_some()).unwrap_or(false);
    let mut cur = steps.to_vec();
    let over = |t0: &Instant| t0.elapsed().as_secs() > 60;
    if !bad(&cur) {
        return cur;
    }
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && !over(&t0) {
            let j = (i + chunk).min(cur.len());
            let mut t = cur.clone();
            t.drain(i..j);
            if bad(&t) {
                cur = t;
                changed = true;
            } else {
                i = j;
            }
        }
        if over(&t0) || (chunk == 1 && !changed) {
            break;
        }
        if !changed || chunk > cur.len() {
            chunk = (chunk / 2).max(1);
        }
    }
    // simpler steps
    let edits: Vec<fn(&mut Step)> = vec![
        |s| s.via = 0,
        |s| s.wire = false,
        |s| s.abort = None,
        |s| s.cpi = None,
        |s| s.tail = false,
        |s| s.probe = false,
        |s| s.drain = false,
        |s| s.extra = false,
    ];
    for i in 0..cur.len() {
        for e in &edits {
            if over(&t0) {
                return cur;
            }
            let mut t = cur.clone();
            e(&mut t[i]);
            if t[i] != cur[i] && bad(&t) {
                cur = t;
            }
        }
        let mut k = 0;
        while cur[i].ops.len() > 1 && k < cur[i].ops.len() && !over(&t0) {
            let mut t = cur.clone();
            t[i].ops.remove(k);
            if bad(&t) {
                cur = t;
            } else {
                k += 1;
            }
        }
        // smaller numbers
        for _ in 0..24 {
            let mut t = cur.clone();
            if !shrink_op(&mut t[i]) || over(&t0) || !bad(&t) {
                break;
            }
            cur = t;
        }
    }
    cur
}

fn shrink_op(s: &mut Step) -> bool {
    use model::Op::*;
    let mut any = false;
    for op in s.ops.iter_mut() {
        let a = match op {
            Fill { amount, .. } | Deposit { amount, .. } | Withdraw { amount, .. } | Decrease { amount, .. } => amount,
            Slash { native, .. } => native,
            Extend { add, .. } => add,
            _ => continue,
        };
        if *a > 16 {
            *a /= 2;
            any = true;
        }
    }
    any
}

fn verif_dir() -> String {
    std::env::var("RSIM_OUT").unwrap_or_else(|_| "/verif".into())
}

fn level() -> &'static str {
    "exploration"
}

struct Budget {
    runs: u64,
    secs: u64,
}

fn budget(n: u32, thorough: bool) -> Budget {
    let mut b = if thorough { Budget { runs: 4_000_000, secs: 480 } } else { Budget { runs: 16_000, secs: 75 } };
    if n == 18 {
        b.runs = if thorough { 400_000 } else { 6000 };
    }
    if let Ok(v) = std::env::var("RSIM_RUNS") {
        b.runs = v.parse().unwrap();
    }
    if let Ok(v) = std::env::var("RSIM_SECS") {
        b.secs = v.parse().unwrap();
    }
    b
}

fn load_findings() -> Vec<Finding> {
    let p = std::env::var("RSIM_KNOWN").unwrap_or_else(|_| "/verif/known_findings.json".into());
    match std::fs::read_to_string(&p) {
        Ok(s) => {
            let v: Value = serde_json::from_str(&s).expect("known_findings.json");
            serde_json::from_value(v["findings"].clone()).expect("known_findings.json findings")
        }
        Err(_) => vec![],
    }
}

fn expand(f: &Finding) -> Vec<Step> {
    let mut s = f.steps.clone();
    if let Some((from, times, gap)) = f.repeat {
        let tail: Vec<Step> = s[from..].to_vec();
        for i in 1..times {
            for x in &tail {
                let mut y = x.clone();
                y.at += i * gap;
                s.push(y);
            }
        }
    }
    s
}

fn write_replay(r: &Replay) -> String {
    let dir = format!("{}/replay", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{}-{}.json", r.property, r.run);
    std::fs::write(&path, serde_json::to_string_pretty(r).unwrap()).expect("write replay");
    path
}

const ENDLESS: &str = "the last request does not come to an end";
const UNREADABLE: &str = "the accounts cannot be interpreted after the last request";

fn unreadable(n: u32, cfg: &Cfg, steps: &[Step], strict: bool) -> bool {
    std::panic::catch_unwind(|| execute(n, cfg, steps, strict, false)).is_err()
}

/// Does the history end in a request that does not come to an end?  Asked of another process, which is then ended.
fn endless(r: &Replay) -> bool {
    let path = format!("{}/replay/.{}-{}.try", verif_dir(), r.property, std::process::id());
    std::fs::write(&path, serde_json::to_string(r).unwrap()).ok();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).env("RSIM_HANG", "2").output();
    std::fs::remove_file(&path).ok();
    out.is_ok_and(|o| String::from_utf8_lossy(&o.stdout).contains(ENDLESS))
}

/// Reports a history whose last request never ends, and ends this process.
fn stuck(prop: &str, seed: u64, h: watch::History, minimal: bool) -> ! {
    let t0 = Instant::now();
    let mut r = Replay {
        property: prop.into(), seed, run: h.run, run_seed: h.run_seed, cfg: h.cfg.unwrap(), steps: h.steps, strict: h.strict, violation: ENDLESS.into(),
    };
    let path = write_replay(&r);
    let all = r.steps.len();
    let mut chunk = if minimal { all / 2 } else { 0 };
    while chunk > 0 && t0.elapsed().as_secs() < 60 {
        let mut i = 0;
        while i + 1 < r.steps.len() && t0.elapsed().as_secs() < 60 {
            let mut t = r.clone();
            t.steps.drain(i..(i + chunk).min(r.steps.len() - 1));
            if endless(&t) {
                r = t;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    write_replay(&r);
    println!("run {}: {ENDLESS}", r.run);
    println!("minimised from {all} to {} steps: {ENDLESS}", r.steps.len());
    println!("VIOLATION property={prop} replay={path}");
    iface::js_done();
    std::process::exit(1)
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let n = prop_no(prop);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let threads: usize = std::env::var("RSIM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    println!("rsim property={prop} VERIF_SEED={seed} tier={}", if thorough { "thorough" } else { "quick" });
    let b = budget(n, thorough);
    if n == 22 {
        if let Err(e) = iface::js_ready() {
            println!("HARNESS ERROR: cannot bundle the JavaScript client: {e}");
            return 3;
        }
    }

    let p = prop.to_string();
    watch::start(move |h| stuck(&p, seed, h, true));

    // recorded findings: still there, or a different failure of the same history
    let mut known = 0;
    for f in load_findings().iter().filter(|f| f.property == prop) {
        let steps = expand(f);
        let (v, _) = execute(n, &f.cfg, &steps, true, false);
        match v {
            Some(v) if v.msg.contains(&f.matches) && v.step == f.step => {
                known += 1;
                println!("KNOWN-FINDING: property={prop} {}: {}", f.id, f.what);
            }
            Some(v) => {
                let r = Replay { property: prop.into(), seed, run: 0, run_seed: 0, cfg: f.cfg.clone(), steps, strict: true, violation: v.msg.clone() };
                let path = write_replay(&r);
                println!("in the history of finding {}: {}", f.id, v.msg);
                println!("VIOLATION property={prop} replay={path}");
                return 1;
            }
            None => println!("finding {} no longer reproduces", f.id),
        }
    }

    let next = AtomicU64::new(0);
    let found: Mutex<Option<(u64, Cfg, Vec<Step>, Violation)>> = Mutex::new(None);
    let first_bad = AtomicU64::new(u64::MAX);
    let total: Mutex<(Stats, u64, u64, Vec<Value>, u64)> = Mutex::new((Stats::default(), 0, 0, vec![], 0));
    let harness: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, || {
                    let mut st = Stats::default();
                    let mut runs = 0u64;
                    let mut steps_n = 0u64;
                    let mut nontriv = 0u64;
                    let mut samples: Vec<Value> = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= b.runs || i > first_bad.load(Ordering::SeqCst) || t0.elapsed().as_secs() >= b.secs {
                            break;
                        }
                        let rs = seeds_for(seed, n, i);
                        let done = std::panic::catch_unwind(|| run_one(n, i, rs, thorough));
                        let Ok((cfg, steps, v, s, h)) = done else {
                            // what the program left behind cannot even be looked at: if that is so each time, it is the program's doing
                            let h = watch::history();
                            let (cfg, steps) = (h.cfg.unwrap(), h.steps);
                            if unreadable(n, &cfg, &steps, false) {
                                first_bad.fetch_min(i, Ordering::SeqCst);
                                let mut f = found.lock().unwrap();
                                if f.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                                    *f = Some((i, cfg, steps.clone(), Violation { tags: want(n), step: steps.len(), msg: UNREADABLE.into() }));
                                }
                                break;
                            }
                            *harness.lock().unwrap() = Some(format!("the simulator failed in run {i}"));
                            continue;
                        };
                        runs += 1;
                        steps_n += steps.len() as u64;
                        if s.n.get("probe.claim_paid").copied().unwrap_or(0) > 0 || s.txs > 20 {
                            nontriv += 1;
                        }
                        if i < 2 {
                            samples.push(json!({"run": i, "seed": rs, "cfg": cfg, "first_steps": steps.iter().take(25).collect::<Vec<_>>(), "steps": steps.len()}));
                        }
                        // the same seed must give the same execution
                        if v.is_none() && i % 97 == 0 {
                            let (_, w2) = execute(0, &cfg, &steps, false, false);
                            if hash_bank(&w2.bank) != h && n != 21 {
                                *harness.lock().unwrap() = Some(format!("run {i} is not deterministic"));
                            }
                        }
                        st.merge(s);
                        if let Some(v) = v {
                            first_bad.fetch_min(i, Ordering::SeqCst);
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                                *f = Some((i, cfg, steps, v));
                            }
                            break;
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.0.merge(st);
                    t.1 += runs;
                    t.2 += steps_n;
                    t.3.extend(samples);
                    t.4 += nontriv;
                })
                .unwrap();
        }
    });
    let (st, runs, steps_n, samples, nontriv) = total.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let found = found.into_inner().unwrap();
    let pick = |pre: &str| -> serde_json::Map<String, Value> {
        st.n.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k[pre.len()..].to_string(), json!(v))).collect()
    };
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": level(),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontriv,
            "rule": "one evaluation is one simulated execution generated from its own seed (configuration, actors, network, clock, faults); seeds are distinct; non-trivial: a claim paid tokens or more than 20 transactions were executed",
            "samples": samples,
            "steps": steps_n,
            "transactions": st.txs,
            "program_calls": st.program_calls,
            "most_heap_bytes_in_one_instruction": st.heap,
            "heap_limit_bytes": bank::HEAP,
            "runs_per_hour": if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "simulated_seconds": st.sim_secs,
            "simulated_years": st.sim_secs / 31_536_000,
            "distinct_states": st.states.len(),
            "distinct_states_measure": "hash of (per pool: weight bucket, pending dates, reserve bucket, distribution open, distributed today; per account: has own weight, pending dates, delegated weight, owed, kinds of event since payout, distributions since payout; operation; at midnight)",
            "faults_injected": pick("fault."),
            "operations": pick("op."),
            "attacks": pick("attack."),
            "refused_as_required": pick("refused."),
            "rare_conditions_hit": pick("probe."),
            "whole_state_checks": pick("check."),
            "known_findings_reproduced": known,
            "components": {
                "real": ["programs/rewards instruction processor, state, zero-copy trees (compiled from /repo)", "programs/rewards entrypoint (serialized buffer) on a third of the calls", "SPL Token 4.0.0 processor", "clients/rust and program crate builders and account decoders", "clients/js/src as shipped, bundled and run by node (C22)", "idls/mplx_rewards.json interpreted (C20)"],
                "stub": ["Solana runtime (account loading, privilege and rent rules, CPI dispatch, atomic commit)", "System program (create, transfer, allocate, assign)", "staking program / registrar (a model actor holding the deposit authority)", "network, clock, clients", "@metaplex-foundation/umi (C22: serializers, transaction and search builders)"]
            },
            "deviations_seen_for_other_properties": false
        },
        "assumptions": [
            "the simulated runtime enforces the rules of the Solana runtime that matter here",
            "native x86-64 build of the program stands for the SBF build (u128 alignment differs)",
            "sampled, not exhaustive: a clean batch is evidence, not proof"
        ],
        "wall_s": wall,
        "violations": if found.is_some() { 1 } else { 0 }
    });
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{runs} runs, {} transactions, {} distinct states, {} simulated years, {wall:.1} s",
        st.txs,
        st.states.len(),
        st.sim_secs / 31_536_000
    );
    if let Some((i, cfg, steps, v)) = found {
        println!("run {i}: step {} [{}] {}", v.step, tag_names(v.tags), v.msg);
        let mut cfg = cfg;
        if v.msg == UNREADABLE {
            let r = Replay { property: prop.into(), seed, run: i, run_seed: seeds_for(seed, n, i), cfg, steps, strict: false, violation: v.msg };
            println!("VIOLATION property={prop} replay={}", write_replay(&r));
            return 1;
        }
        let small = minimise(n, &mut cfg, &steps, false);
        let (v2, w) = execute(n, &cfg, &small, false, true);
        let v2 = v2.unwrap_or(v);
        let r = Replay { property: prop.into(), seed, run: i, run_seed: seeds_for(seed, n, i), cfg, steps: small, strict: false, violation: v2.msg.clone() };
        let path = write_replay(&r);
        let log = w.log.unwrap_or_default();
        for (k, l) in log.iter().enumerate() {
            // long histories are in the replay file
            if k < 40 || k + 120 >= log.len() {
                println!("  {l}");
            }
        }
        println!("minimised from {} to {} steps: {}", steps.len(), r.steps.len(), v2.msg);
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    if let Some(h) = harness.into_inner().unwrap() {
        println!("HARNESS ERROR: {h}");
        return 3;
    }
    0
}

fn replay(path: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let (p, at) = (r.property.clone(), path.to_string());
    watch::start(move |_| {
        println!("{ENDLESS}");
        println!("VIOLATION property={p} replay={at}");
        iface::js_done();
        std::process::exit(1)
    });
    let n = prop_no(&r.property);
    if r.violation == UNREADABLE && unreadable(n, &r.cfg, &r.steps, r.strict) {
        println!("{UNREADABLE}");
        println!("VIOLATION property={} replay={path}", r.property);
        return 1;
    }
    let (v, w) = execute(n, &r.cfg, &r.steps, r.strict, true);
    for l in w.log.unwrap_or_default() {
        println!("{l}");
    }
    match v {
        Some(v) => {
            println!("step {} [{}] {}", v.step, tag_names(v.tags), v.msg);
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Prints every deviation of any kind over many runs (development aid).
fn survey(n: u32, runs: u64) {
    use std::collections::BTreeMap;
    let seen: Arc<Mutex<BTreeMap<String, (u64, u64)>>> = Default::default();
    let next = AtomicU64::new(0);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let all: Mutex<Stats> = Default::default();
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= runs {
                        break;
                    }
                    let rs = seeds_for(seed, n, i);
                    let (cfg, mut g) = gen::run_seed(rs, n, u32::MAX, false);
                    g.generate();
                    if g.w.viol.is_none() {
                        g.w.viol = post(n, &cfg, &g.steps, &g.w, false);
                    }
                    all.lock().unwrap().merge(g.w.stats.clone());
                    if let Some(v) = g.w.viol {
                        let key: String = format!("[{}] {}", tag_names(v.tags), v.msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect::<String>().replace("##", "#"));
                        let mut k = key;
                        while k.contains("##") {
                            k = k.replace("##", "#");
                        }
                        while k.contains("#: #, #: #") {
                            k = k.replace("#: #, #: #", "#: #");
                        }
                        if let Some(p) = k.find("] ") {
                            k = format!("[{}] {}", tag_names(v.tags).split(',').next().unwrap_or(""), &k[p + 2..]);
                        }
                        k.truncate(200);
                        let mut s = seen.lock().unwrap();
                        let e = s.entry(k).or_insert((0, i));
                        e.0 += 1;
                        e.1 = e.1.min(i);
                    }
                })
                .unwrap();
        }
    });
    for (k, (cnt, i)) in seen.lock().unwrap().iter() {
        println!("{cnt:6}  first run {i:5}  {k}");
    }
    let st = all.into_inner().unwrap();
    println!("txs {} states {} years {}", st.txs, st.states.len(), st.sim_secs / 31_536_000);
    for (k, v) in &st.n {
        println!("    {k:50} {v}");
    }
}

/// Minimised trace of one run against all properties (development aid).
fn show(n: u32, i: u64, mini: bool) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let rs = seeds_for(seed, n, i);
    let (cfg, mut g) = gen::run_seed(rs, n, u32::MAX, false);
    g.generate();
    println!("{:?}\n{} steps, violation {:?}", cfg, g.steps.len(), g.w.viol.as_ref().map(|v| (v.step, tag_names(v.tags), v.msg.clone())));
    let Some(v) = g.w.viol.clone() else { return };
    let t = (1..32).find(|k| v.tags & c(*k) != 0).unwrap();
    let mut cfg = cfg;
    let small = if mini { minimise(t, &mut cfg, &g.steps, false) } else { g.steps.clone() };
    let (_, w) = execute(t, &cfg, &small, false, true);
    for l in w.log.unwrap_or_default() {
        println!("{l}");
    }
}

/// Which properties' checks notice something within a number of runs (development aid).
fn sweep(runs: u64) {
    for n in 1..=21u32 {
        let next = AtomicU64::new(0);
        let bad: Mutex<Option<(u64, String)>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for _ in 0..4 {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= if n == 18 { runs / 6 } else { runs } || bad.lock().unwrap().is_some() {
                            break;
                        }
                        let (_, _, v, _, _) = run_one(n, i, seeds_for(1, n, i), false);
                        if let Some(v) = v {
                            *bad.lock().unwrap() = Some((i, v.msg));
                        }
                    })
                    .unwrap();
            }
        });
        if let Some((i, m)) = bad.into_inner().unwrap() {
            println!("C{n:02} run {i}: {m}");
        }
    }
    for f in load_findings() {
        let (v, _) = execute(prop_no(&f.property), &f.cfg, &expand(&f), true, false);
        if !v.is_some_and(|v| v.msg.contains(&f.matches) && v.step == f.step) {
            println!("finding {} differs", f.id);
        }
    }
}

/// One number for a batch of executions: every final state, every number of steps, every refusal.
fn digest(n: u32, runs: u64, threads: u64, seed: u64) -> u64 {
    let next = AtomicU64::new(0);
    let sum = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= runs {
                        break;
                    }
                    let (_, steps, v, st, h) = run_one(n, i, seeds_for(seed, n, i), false);
                    let mut x = rng::mix(h ^ rng::mix(i));
                    x = rng::mix(x ^ steps.len() as u64 ^ (v.is_some() as u64) << 40 ^ st.txs << 20);
                    for (k, v) in &st.n {
                        for b in k.bytes() {
                            x = rng::mix(x ^ b as u64);
                        }
                        x = rng::mix(x ^ v);
                    }
                    sum.fetch_xor(x, Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    sum.into_inner()
}

/// The same batch on one and on eight threads; the printed digests must also agree between processes.
fn selfcheck(runs: u64) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut bad = 0;
    for n in 1..=22 {
        let r = if n == 18 { runs.div_ceil(8) } else { runs };
        let a = digest(n, r, 1, seed);
        let b = digest(n, r, 8, seed);
        println!("C{n:02} {a:016x}{}", if a == b { "" } else { " DIFFERS" });
        bad += (a != b) as i32;
    }
    (bad > 0) as i32
}

fn main() {
    bank::install_seam();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = a[2].clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || check(&p)).unwrap().join().unwrap_or(3)
        }
        Some("replay") => {
            let p = a[2].clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || replay(&p)).unwrap().join().unwrap_or(3)
        }
        Some("survey") => {
            survey(prop_no(&a[2]), a[3].parse().unwrap());
            0
        }
        Some("show") => {
            let (n, i) = (prop_no(&a[2]), a[3].parse().unwrap());
            let mini = a.get(4).map(|s| s == "min").unwrap_or(true);
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || show(n, i, mini)).unwrap().join().unwrap();
            0
        }
        Some("sweep") => {
            sweep(a[2].parse().unwrap());
            0
        }
        Some("selfcheck") => selfcheck(a.get(2).and_then(|x| x.parse().ok()).unwrap_or(100)),
        _ => {
            eprintln!("usage: rsim check <property> | replay <file>");
            3
        }
    };
    iface::js_done();
    std::process::exit(code);
}
