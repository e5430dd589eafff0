//! Workers, aggregation, minimisation, replay and evidence.
use crate::props;
use crate::rng::{mix, Rng};
use crate::rt::{self, Outcome};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::time::Instant;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub viol: Option<(String, String)>,
    /// faults that actually fired, by kind
    pub faults: BTreeMap<String, u64>,
    /// rare conditions that were reached
    pub probes: BTreeMap<String, u64>,
    /// identifies the interleaving / fault history that was executed
    pub trace: u64,
    pub nontrivial: bool,
    pub steps: u64,
    pub switches: u64,
    pub evals: u64,
    pub sim_ns: u64,
    pub cov: u64,
    /// what a follow-up run of the same family should aim at
    pub hint: Vec<(u8, u64)>,
    /// the case could not be used (only minimisation produces such cases)
    pub skip: bool,
}

impl Report {
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn probe(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.probes.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn violate(&mut self, class: &str, msg: impl Into<String>) {
        if self.viol.is_none() {
            let mut m: String = msg.into();
            if m.len() > 1500 {
                let mut k = 1500;
                while !m.is_char_boundary(k) {
                    k -= 1;
                }
                m.truncate(k);
                m.push('…');
            }
            self.viol = Some((class.to_string(), m));
        }
    }
    pub fn hash(&mut self, b: &[u8]) {
        self.trace = mix(&[self.trace, crate::rng::hash_bytes(b)]);
    }
    pub fn hash64(&mut self, b: u64) {
        self.trace = mix(&[self.trace, b]);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Prop {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// number of runs
    fn runs(&self, tier: Tier) -> u64;
    fn timeout_ms(&self) -> u64 {
        60_000
    }
    fn gen(&self, r: &mut Rng, tier: Tier, idx: u64) -> Value;
    /// executes one run; called in a freshly forked process that never called yamd
    fn run(&self, case: &Value) -> Report;
    /// a further run aimed at what `rep` shows to be interesting, if anything
    fn follow(&self, _r: &mut Rng, _case: &Value, _rep: &Report) -> Option<Value> {
        None
    }
    /// true: `run` is executed in the worker itself (it only starts other programs)
    fn in_worker(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str>;
    fn real(&self) -> &'static str;
    fn stub(&self) -> &'static str;
}

pub fn execute(p: &dyn Prop, case: &Value) -> Result<Report, String> {
    if p.in_worker() {
        return Ok(p.run(case));
    }
    let out = rt::forked(p.timeout_ms(), || serde_json::to_vec(&p.run(case)).unwrap());
    let mut r = Report::default();
    match out {
        Outcome::Ok(b) => {
            return serde_json::from_slice(&b).map_err(|e| format!("bad report: {e}"));
        }
        Outcome::Viol(c, m) if c == "harness-panic" || c == "harness" => return Err(format!("{c}: {m}")),
        Outcome::Viol(c, m) => r.violate(&c, m),
        Outcome::Signal(s) => r.violate(&format!("crash-signal-{s}"), format!("the process died of signal {s}")),
        Outcome::Exit(c) => r.violate("exit", format!("the process exited with status {c}")),
        Outcome::Timeout => r.violate("hang", "no result within the time limit"),
    }
    r.nontrivial = true;
    Ok(r)
}

fn pid(p: &dyn Prop) -> u64 {
    crate::rng::hash_bytes(p.id().as_bytes())
}

pub fn case_of(p: &dyn Prop, seed: u64, tier: Tier, idx: u64) -> Value {
    let mut r = Rng::new(mix(&[seed, pid(p), idx]));
    p.gen(&mut r, tier, idx)
}

// ---------------------------------------------------------------- worker

#[derive(Serialize, Deserialize, Default)]
pub struct Summary {
    pub runs: u64,
    pub evals: u64,
    pub nontrivial_runs: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub traces: BTreeSet<u64>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub cov: u64,
    pub samples: Vec<Value>,
    pub rechecked: u64,
    pub nondeterministic: u64,
    pub unreproduced: Vec<String>,
    pub violation: Option<Found>,
    pub error: Option<String>,
    pub busy_s: f64,
    pub aimed: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Found {
    pub idx: u64,
    pub class: String,
    pub msg: String,
    pub case: Value,
    pub original: Value,
    pub shrink_runs: u64,
}

pub fn worker(p: &dyn Prop, seed: u64, tier: Tier, me: u64, n: u64, cap_s: f64) -> Summary {
    let t0 = Instant::now();
    let mut s = Summary::default();
    let total = std::env::var("YSIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(p.runs(tier));
    let mut idx = me;
    let mut aimed = 0;
    'all: while idx < total {
        if t0.elapsed().as_secs_f64() > cap_s {
            break;
        }
        let mut queue = vec![case_of(p, seed, tier, idx)];
        let mut k = 0;
        while let Some(case) = queue.pop() {
            k += 1;
            let t1 = Instant::now();
            let rep = execute(p, &case);
            if std::env::var_os("YSIM_SLOW").is_some() && t1.elapsed().as_secs_f64() > 1.5 {
                eprintln!("slow: run {idx} took {:.1}s", t1.elapsed().as_secs_f64());
            }
            let rep = match rep {
                Ok(r) => r,
                Err(e) => {
                    s.error = Some(format!("run {idx}: {e}; case {}", short(&case)));
                    break 'all;
                }
            };
            s.runs += 1;
            // determinism: the same seed must give the same execution
            if s.runs % 40 == 1 && rep.viol.is_none() {
                s.rechecked += 1;
                if let Ok(r2) = execute(p, &case) {
                    if serde_json::to_string(&r2).unwrap() != serde_json::to_string(&rep).unwrap() {
                        s.nondeterministic += 1;
                        if std::env::var_os("YSIM_DEBUG").is_some() {
                            eprintln!("nondeterministic run {idx}:\n{}\n{}", serde_json::to_string(&rep).unwrap(), serde_json::to_string(&r2).unwrap());
                        }
                    }
                }
            }
            s.evals += rep.evals.max(1);
            for (k, v) in &rep.faults {
                *s.faults.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &rep.probes {
                *s.probes.entry(k.clone()).or_insert(0) += v;
            }
            s.steps += rep.steps;
            s.switches += rep.switches;
            s.sim_ns = s.sim_ns.saturating_add(rep.sim_ns);
            s.cov = s.cov.max(rep.cov);
            if rep.nontrivial {
                s.nontrivial_runs += 1;
                s.traces.insert(rep.trace);
                if s.samples.len() < 2 && me == 0 {
                    s.samples.push(json!({"run": idx, "seed": mix(&[seed, pid(p), idx]), "case": shorten(&case), "trace": format!("{:016x}", rep.trace), "steps": rep.steps, "faults": rep.faults}));
                }
            }
            if let Some((class, msg)) = rep.viol.clone() {
                // a violation counts only if the same seed shows it again
                let again = execute(p, &case);
                let same = matches!(&again, Ok(r) if r.viol.as_ref().map(|v| &v.0) == Some(&class));
                if !same {
                    s.unreproduced.push(format!("run {idx}: {class}: {msg}"));
                } else {
                    let (small, m2, k) = shrink(p, &case, &class, &msg);
                    s.violation = Some(Found { idx, class, msg: m2, case: small, original: case, shrink_runs: k });
                    break 'all;
                }
            }
            // aimed runs around an execution that touched something several callers share
            if k <= 4 && aimed < 400 && rep.viol.is_none() && !rep.hint.is_empty() {
                let mut fr = Rng::new(mix(&[seed, pid(p), idx, k]));
                if let Some(c) = p.follow(&mut fr, &case, &rep) {
                    aimed += 1;
                    s.aimed += 1;
                    queue.push(c);
                }
            }
        }
        idx += n;
    }
    s.busy_s = t0.elapsed().as_secs_f64();
    s
}

fn short(v: &Value) -> String {
    let s = v.to_string();
    s.chars().take(600).collect()
}
fn shorten(v: &Value) -> Value {
    match v {
        Value::String(s) if s.chars().count() > 160 => Value::String(s.chars().take(160).collect::<String>() + "…"),
        Value::Array(a) => {
            let mut o: Vec<Value> = a.iter().take(12).map(shorten).collect();
            if a.len() > 12 {
                o.push(json!(format!("… {} more", a.len() - 12)));
            }
            Value::Array(o)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), shorten(v))).collect()),
        _ => v.clone(),
    }
}

// ---------------------------------------------------------------- minimisation

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<(usize, Vec<String>)>) {
    match v {
        Value::Array(a) => {
            out.push((a.len() * 8 + 1, at.clone()));
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::String(s) if s.len() > 1 => out.push((s.len(), at.clone())),
        Value::Number(n) if n.as_f64() != Some(0.0) => out.push((1, at.clone())),
        Value::Bool(true) => out.push((1, at.clone())),
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(m) => m.get_mut(k)?,
            _ => return None,
        };
    }
    Some(c)
}

/// Greedy minimisation over the structure of the case: drop list elements, shorten strings,
/// reduce numbers, as long as the same class of violation persists.
pub fn shrink(p: &dyn Prop, case: &Value, class: &str, msg: &str) -> (Value, String, u64) {
    let t0 = Instant::now();
    let limit = std::env::var("YSIM_SHRINK_S").ok().and_then(|v| v.parse().ok()).unwrap_or(25.0);
    let mut best = case.clone();
    let mut best_msg = msg.to_string();
    let mut tries = 0u64;
    let test = |c: &Value, best: &mut Value, bm: &mut String, tries: &mut u64| -> bool {
        *tries += 1;
        if let Ok(r) = execute(p, c) {
            if let Some((k, m)) = r.viol {
                if k == class && !r.skip {
                    *best = c.clone();
                    *bm = m;
                    return true;
                }
            }
        }
        false
    };
    let over = |tries: u64| t0.elapsed().as_secs_f64() > limit || tries > 4000;
    loop {
        let before = best.to_string().len();
        let bs = best.to_string();
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        ps.sort_by(|a, b| b.0.cmp(&a.0).then(a.1.len().cmp(&b.1.len())));
        for (_, path) in ps {
            if over(tries) {
                break;
            }
            let Some(cur) = at(&mut best, &path).cloned() else {
                continue;
            };
            match cur {
                Value::Array(mut a) => {
                    let mut k = a.len().div_ceil(2);
                    while k > 0 && !a.is_empty() {
                        let mut i = 0;
                        while i < a.len() && !over(tries) {
                            let mut b = a.clone();
                            b.drain(i..(i + k).min(a.len()));
                            let mut c = best.clone();
                            *at(&mut c, &path).unwrap() = Value::Array(b.clone());
                            if test(&c, &mut best, &mut best_msg, &mut tries) {
                                a = b;
                            } else {
                                i += k;
                            }
                        }
                        k = if k == 1 { 0 } else { k / 2 };
                    }
                }
                Value::String(s) => {
                    let mut a: Vec<char> = s.chars().collect();
                    let mut k = a.len();
                    while k > 0 && !a.is_empty() {
                        let mut i = 0;
                        while i < a.len() && !over(tries) {
                            let mut b = a.clone();
                            b.drain(i..(i + k).min(a.len()));
                            let mut c = best.clone();
                            *at(&mut c, &path).unwrap() = Value::String(b.iter().collect());
                            if test(&c, &mut best, &mut best_msg, &mut tries) {
                                a = b;
                            } else {
                                i += k;
                            }
                        }
                        k = if k == 1 { 0 } else { k / 2 };
                    }
                }
                Value::Number(n) => {
                    if let Some(x) = n.as_u64() {
                        for y in [0, 1, x / 2, x.saturating_sub(1)] {
                            if y < x && !over(tries) {
                                let mut c = best.clone();
                                *at(&mut c, &path).unwrap() = json!(y);
                                if test(&c, &mut best, &mut best_msg, &mut tries) {
                                    break;
                                }
                            }
                        }
                    }
                }
                Value::Bool(true) => {
                    let mut c = best.clone();
                    *at(&mut c, &path).unwrap() = json!(false);
                    test(&c, &mut best, &mut best_msg, &mut tries);
                }
                _ => {}
            }
        }
        if over(tries) || (best.to_string().len() >= before && best.to_string() == bs) {
            break;
        }
    }
    (best, best_msg, tries)
}

// ---------------------------------------------------------------- the check

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("YSIM_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub fn check(id: &str, seed: u64, tier: Tier) -> i32 {
    let Some(p) = props::by_id(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let n: u64 =
        std::env::var("YSIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4)).max(1);
    let cap: f64 = std::env::var("YSIM_CAP_S").ok().and_then(|v| v.parse().ok()).unwrap_or(if tier == Tier::Quick { 150.0 } else { 1500.0 });
    println!("{id}: seed {seed}, {:?}, {n} workers", tier);
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for i in 0..n {
        let c = std::process::Command::new(&exe)
            .args(["worker", id, &seed.to_string(), if tier == Tier::Quick { "quick" } else { "thorough" }, &i.to_string(), &n.to_string(), &cap.to_string()])
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("spawn worker");
        kids.push(c);
    }
    let mut tot = Summary::default();
    let mut errors = vec![];
    let mut found: Vec<Found> = vec![];
    for mut k in kids {
        let out = std::io::BufReader::new(k.stdout.take().unwrap());
        let mut sum: Option<Summary> = None;
        for l in out.lines() {
            let Ok(l) = l else { break };
            if let Some(j) = l.strip_prefix("SUMMARY ") {
                sum = serde_json::from_str(j).ok();
            }
        }
        let st = k.wait();
        let Some(s) = sum else {
            errors.push(format!("a worker ended without a summary: {st:?}"));
            continue;
        };
        tot.runs += s.runs;
        tot.evals += s.evals;
        tot.nontrivial_runs += s.nontrivial_runs;
        tot.steps += s.steps;
        tot.switches += s.switches;
        tot.sim_ns = tot.sim_ns.saturating_add(s.sim_ns);
        tot.cov = tot.cov.max(s.cov);
        tot.rechecked += s.rechecked;
        tot.nondeterministic += s.nondeterministic;
        tot.busy_s += s.busy_s;
        tot.aimed += s.aimed;
        for (k, v) in s.faults {
            *tot.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in s.probes {
            *tot.probes.entry(k).or_insert(0) += v;
        }
        tot.traces.extend(s.traces);
        if tot.samples.len() < 2 {
            tot.samples.extend(s.samples);
        }
        tot.unreproduced.extend(s.unreproduced);
        if let Some(e) = s.error {
            errors.push(e);
        }
        if let Some(f) = s.violation {
            found.push(f);
        }
    }
    found.sort_by_key(|f| f.idx);
    let wall = t0.elapsed().as_secs_f64();
    let mut violation_line = None;
    if let Some(f) = found.first() {
        let dir = verif_dir().join("replays");
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{id}-{seed}-{}.json", f.idx));
        let write = |case: &Value| {
            let v = json!({
                "property": id, "seed": seed, "run": f.idx, "run_seed": mix(&[seed, pid(&*p), f.idx]), "class": f.class, "message": f.msg,
                "case": case, "minimised_in_runs": f.shrink_runs,
                "replay": format!("{} replay {}", exe.display(), path.display()),
            });
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
        };
        write(&f.case);
        // the minimised file must fail the same way in a fresh process
        let ok = std::process::Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status().map(|s| s.code() == Some(1)).unwrap_or(false);
        if !ok {
            write(&f.original);
        }
        println!("{id}: run {} violates the property: {}: {}", f.idx, f.class, f.msg);
        violation_line = Some(format!("VIOLATION property={id} replay={}", path.display()));
    }
    let per_h = if wall > 0.0 { tot.runs as f64 / wall * 3600.0 } else { 0.0 };
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level(),
        "coverage": {
            "evaluations": tot.evals,
            "distinct_nontrivial": tot.traces.len(),
            "rule": p.rule(),
            "samples": tot.samples,
            "simulated_runs": tot.runs,
            "nontrivial_runs": tot.nontrivial_runs,
            "seeds_per_hour": per_h.round(),
            "simulated_seconds": tot.sim_ns as f64 / 1e9,
            "simulated_steps": tot.steps,
            "context_switches": tot.switches,
            "faults_injected": tot.faults,
            "rare_conditions_reached": tot.probes,
            "distinct_executions_measure": "64-bit hash over every scheduling decision, fault and observed result of a run",
            "most_basic_blocks_of_yamd_in_one_run": tot.cov,
            "same_seed_rechecked": tot.rechecked,
            "same_seed_differed": tot.nondeterministic,
            "real_code": p.real(),
            "simulated": p.stub(),
            "aimed_follow_up_runs": tot.aimed,
            "unreproduced": tot.unreproduced,
        },
        "assumptions": p.assumptions(),
        "wall_s": wall,
        "violations": found.len(),
    });
    let evd = verif_dir().join("evidence");
    std::fs::create_dir_all(&evd).ok();
    std::fs::write(evd.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
    println!(
        "{id}: {} runs, {} evaluations, {} distinct, {} steps, {} switches, {:.0} runs/h, {:.1}s; rechecked {} differed {}",
        tot.runs,
        tot.evals,
        tot.traces.len(),
        tot.steps,
        tot.switches,
        per_h,
        wall,
        tot.rechecked,
        tot.nondeterministic
    );
    println!("{id}: faults {:?}", tot.faults);
    println!("{id}: probes {:?}", tot.probes);
    for u in tot.unreproduced.iter().take(3) {
        println!("{id}: not reproduced, ignored: {u}");
    }
    let _ = std::io::stdout().flush();
    if let Some(v) = violation_line {
        println!("{v}");
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(5) {
            eprintln!("ERROR {id}: {e}");
        }
        return 2;
    }
    if tot.runs == 0 {
        eprintln!("ERROR {id}: nothing was run");
        return 2;
    }
    0
}

pub fn replay(path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    let Some(p) = props::by_id(id) else {
        eprintln!("unknown property");
        return 2;
    };
    match execute(&*p, &v["case"]) {
        Ok(r) => match r.viol {
            Some((c, m)) => {
                println!("{c}: {m}");
                println!("VIOLATION property={id} replay={path}");
                1
            }
            None => {
                println!("{id}: no violation; {}", serde_json::to_string(&r).unwrap());
                0
            }
        },
        Err(e) => {
            eprintln!("ERROR {e}");
            2
        }
    }
}
