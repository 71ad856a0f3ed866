//! Driver of the checks that compare expansions: generation in batches, judging, shrinking, replay files, evidence.
use crate::engine::*;
use crate::items::{G, Profile, layout};
use crate::model::{self, Flavor, Model};
use crate::norm;
use crate::src::{Src, mix, reductions};
use proc_macro2::TokenStream;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::time::Instant;
use syn::Item;

pub struct Params {
    pub root: PathBuf,
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub started: Instant,
}

impl Params {
    pub fn scale(&self, quick: usize) -> usize {
        let n = if self.thorough { quick * 8 } else { quick };
        // for trying many changes of the code under test
        match std::env::var("HV_SCALE").ok().and_then(|x| x.parse::<usize>().ok()) {
            Some(percent) => (n * percent).div_ceil(100),
            None => n,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    /// held; the flag says whether the case was non-trivial, the tags feed the distribution
    Ok(bool, Vec<&'static str>),
    Fail(String),
    Discard(&'static str),
}

pub struct JudgeIn<'a> {
    pub text: &'a str,
    pub args: TokenStream,
    pub item: Item,
    pub outcome: &'a Outcome,
    pub flavors: &'a BTreeMap<String, Flavor>,
    pub consume: bool,
    pub path: &'a str,
}

pub type Judge = fn(&JudgeIn) -> Verdict;

pub enum Gen {
    Items(Box<Profile>),
    /// text of the whole annotated item, before layout
    Custom(fn(&mut Src, &[String]) -> String),
    /// text of the whole annotated item in its final layout
    Raw(fn(&mut Src) -> String),
}

pub struct Variant {
    pub name: &'static str,
    pub quick: usize,
    pub gen_: Gen,
    pub budget: u32,
    /// flavors come from a generated configuration file
    pub toml: Option<fn(&mut Src) -> TomlCase>,
    pub consume: bool,
    pub judge: Judge,
}

pub struct TomlCase {
    pub text: String,
    pub flavors: BTreeMap<String, Flavor>,
    pub names: Vec<String>,
}

pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: BTreeSet<u64>,
    pub discards: BTreeMap<String, u64>,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failures: Vec<Failure>,
    pub notes: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub summary: String,
    pub replay: Value,
}

pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

impl Report {
    pub fn new() -> Report {
        Report {
            evaluations: 0,
            nontrivial: 0,
            distinct: BTreeSet::new(),
            discards: BTreeMap::new(),
            tags: BTreeMap::new(),
            samples: vec![],
            failures: vec![],
            notes: vec![],
        }
    }
    pub fn ok(&mut self, key: &str, nontrivial: bool, tags: &[&str]) {
        self.evaluations += 1;
        if nontrivial {
            if self.distinct.insert(fnv(key)) {
                self.nontrivial += 1;
            }
        }
        for t in tags {
            *self.tags.entry(t.to_string()).or_default() += 1;
        }
    }
    pub fn discard(&mut self, why: &str) {
        *self.discards.entry(why.to_string()).or_default() += 1;
    }
    pub fn fail(&mut self, summary: String, replay: Value) {
        self.failures.push(Failure { summary, replay });
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 12 {
            self.samples.push(v);
        }
    }
}

pub struct UnitCase {
    pub choices: Vec<u32>,
    pub text: String,
}

fn make(v: &Variant, choices: Option<&[u32]>, seed: u64, names: &[String]) -> UnitCase {
    let mut s = match choices {
        Some(c) => Src::replay(c, 0),
        None => Src::random(seed, 0),
    };
    // the first two decisions are the size and the layout
    let size = 6 + s.below(v.budget) as i64;
    let lay = if s.chance(70) { 1 + s.below(100_000) } else { 0 };
    s.budget = size;
    let t = match &v.gen_ {
        Gen::Items(p) => {
            let mut p = (**p).clone();
            if !names.is_empty() {
                p.flavors = names.to_vec();
            }
            G::new(&mut s, p).root()
        }
        Gen::Custom(f) => f(&mut s, names),
        Gen::Raw(f) => {
            let text = f(&mut s);
            return UnitCase { choices: s.rec.clone(), text };
        }
    };
    UnitCase { choices: s.rec.clone(), text: layout(&t, lay) }
}

pub const FILE: &str = "src/deep dir/case.rs";

/// Expand and judge some units in one file. `None` = the text was not accepted by the parser.
fn judge_units(env: &Env, v: &Variant, toml: Option<&TomlCase>, texts: &[String]) -> Vec<Verdict> {
    let builtin;
    let flavors = match toml {
        Some(t) => &t.flavors,
        None => {
            builtin = model::builtin_flavors();
            &builtin
        }
    };
    let mut out: Vec<Option<Verdict>> = texts
        .iter()
        .map(|t| match syn::parse_file(&t.replace("@CAP@", "")) {
            Ok(f) if f.items.len() == 1 => None,
            Ok(_) => Some(Verdict::Discard("not one item")),
            Err(_) => Some(Verdict::Discard("not parsed by syn")),
        })
        .collect();
    loop {
        let live: Vec<usize> = (0..texts.len()).filter(|i| out[*i].is_none()).collect();
        if live.is_empty() {
            break;
        }
        let units: Vec<Unit> = live.iter().map(|i| Unit { text: texts[*i].clone() }).collect();
        let cfg = ExpandCfg { toml: toml.map(|t| t.text.as_str()), consume: v.consume, file: FILE, ..Default::default() };
        let ex = env.expand(&units, &cfg);
        let none = ex.outcomes.iter().all(|o| matches!(o, Outcome::Errors(_)));
        if none && live.len() > 1 {
            // either every unit is rejected, or the file as a whole did not parse: find the culprits
            let culprit: Vec<usize> = (0..live.len())
                .filter(|i| matches!(&ex.outcomes[*i], Outcome::Errors(d) if !d.is_empty()))
                .collect();
            if culprit.len() < live.len() {
                for c in &culprit {
                    let one = judge_units(env, v, toml, std::slice::from_ref(&texts[live[*c]]));
                    out[live[*c]] = Some(one.into_iter().next().unwrap());
                }
                if culprit.is_empty() {
                    let msg = ex.stray.first().map(|d| d.message.clone()).unwrap_or_default();
                    for i in live {
                        out[i] = Some(Verdict::Fail(format!("no expansion was produced for the whole file: {msg}")));
                    }
                    break;
                }
                continue;
            }
        }
        let Ok(f) = syn::parse_file(&ex.batch.file_text) else {
            for i in live {
                out[i] = Some(Verdict::Discard("batch not parsed by syn"));
            }
            break;
        };
        for (k, i) in live.iter().enumerate() {
            let (args, item) = norm::split_root(f.items[k].clone());
            let j = JudgeIn { text: &texts[*i], args, item, outcome: &ex.outcomes[k], flavors, consume: v.consume, path: FILE };
            let mut r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (v.judge)(&j)))
                .unwrap_or_else(|e| Verdict::Fail(format!("the judge could not handle the expansion: {:?}", e.downcast_ref::<String>())));
            if matches!((&r, &ex.outcomes[k]), (Verdict::Fail(_), Outcome::Errors(_))) && !env.parses(&texts[*i]) {
                r = Verdict::Discard("not parsed by the compiler");
            }
            out[*i] = Some(r);
        }
    }
    out.into_iter().map(|x| x.unwrap()).collect()
}

const BATCH: usize = 50;

/// Seconds for making a failing case smaller.
pub fn shrink_time() -> u64 {
    if std::env::var_os("HV_FAST").is_some() { 0 } else { 60 }
}

fn shrink(env: &Env, v: &Variant, tseed: u64, first: UnitCase, msg: String, t0: Instant) -> (UnitCase, String) {
    let names: Vec<String> = toml_for(v, tseed).map(|t| t.names.clone()).unwrap_or_default();
    let mut best = first;
    let mut best_msg = msg;
    while t0.elapsed().as_secs() < shrink_time() {
        let mut cands: Vec<UnitCase> = vec![];
        let mut seen = BTreeSet::new();
        for r in reductions(&best.choices) {
            let c = make(v, Some(&r), 0, &names);
            if c.text.len() < best.text.len() && seen.insert(c.text.clone()) {
                cands.push(c);
            }
            if cands.len() >= 600 {
                break;
            }
        }
        cands.sort_by_key(|c| c.text.len());
        let chunks: Vec<&[UnitCase]> = cands.chunks(BATCH).collect();
        let res = par_map(&chunks, |_, c| judge_units(env, v, toml_for(v, tseed).as_ref(), &c.iter().map(|x| x.text.clone()).collect::<Vec<_>>()));
        let flat: Vec<Verdict> = res.into_iter().flatten().collect();
        match flat.iter().position(|x| matches!(x, Verdict::Fail(_))) {
            Some(i) => {
                if let Verdict::Fail(m) = &flat[i] {
                    best_msg = m.clone();
                }
                best = cands.into_iter().nth(i).unwrap();
            }
            None => break,
        }
    }
    (best, best_msg)
}

fn toml_for(v: &Variant, seed: u64) -> Option<TomlCase> {
    v.toml.map(|f| f(&mut Src::random(seed, 60)))
}

pub fn run_variants(env: &Env, p: &Params, variants: &[Variant], rep: &mut Report) {
    for (vi, v) in variants.iter().enumerate() {
        let total = p.scale(v.quick);
        let nb = total.div_ceil(BATCH);
        let idx: Vec<usize> = (0..nb).collect();
        let vseed = mix(mix(p.seed, fnv(&p.id)), vi as u64);
        let res = par_map(&idx, |_, b| {
            let bseed = mix(vseed, *b as u64);
            let toml = toml_for(v, bseed);
            let names: Vec<String> = toml.as_ref().map(|t| t.names.clone()).unwrap_or_default();
            let cases: Vec<UnitCase> = (0..BATCH).map(|i| make(v, None, mix(bseed, 1 + i as u64), &names)).collect();
            let texts: Vec<String> = cases.iter().map(|c| c.text.clone()).collect();
            let verdicts = judge_units(env, v, toml.as_ref(), &texts);
            cases.into_iter().zip(verdicts).collect::<Vec<_>>()
        });
        let mut fails = vec![];
        for (b, r) in res.into_iter().enumerate() {
            for (k, (c, verdict)) in r.into_iter().enumerate() {
                match verdict {
                    Verdict::Ok(n, tags) => {
                        rep.ok(&c.text, n, &tags);
                        if n && k == 7 && b % (nb / 3 + 1) == 0 {
                            rep.sample(json!({"variant": v.name, "text": c.text}));
                        }
                    }
                    Verdict::Discard(w) => rep.discard(w),
                    Verdict::Fail(m) => {
                        rep.evaluations += 1;
                        fails.push((b, c, m));
                    }
                }
            }
        }
        *rep.tags.entry(format!("variant:{}", v.name)).or_default() += (nb * BATCH) as u64;
        let nf = fails.len();
        if nf > 0 {
            fails.sort_by_key(|(_, c, _)| c.text.len());
            let (b, c, m) = fails.swap_remove(0);
            let toml = toml_for(v, mix(vseed, b as u64));
            let (best, msg) = shrink(env, v, mix(vseed, b as u64), c, m, Instant::now());
            rep.fail(
                format!("[{}; {nf} failing cases] {msg}\n{}", v.name, best.text),
                json!({"kind": "expand", "variant": v.name, "toml": toml.as_ref().map(|t| t.text.clone()), "toml_seed": mix(vseed, b as u64).to_string(), "text": best.text, "message": msg}),
            );
        }
    }
}

/// Re-judge the case of a replay file.
pub fn replay(env: &Env, variants: &[Variant], r: &Value) -> Result<Verdict, String> {
    let name = r["variant"].as_str().unwrap_or("");
    let v = variants.iter().find(|v| v.name == name).ok_or("unknown variant")?;
    let seed: u64 = r["toml_seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0);
    let toml = toml_for(v, seed);
    let text = r["text"].as_str().unwrap_or("").to_string();
    Ok(judge_units(env, v, toml.as_ref(), &[text]).into_iter().next().unwrap())
}

// ------------------------------------------------------------------------------------------ common judges

/// Compare the expansion with the reference model, restricted to the given kinds of hooks.
pub fn against_model(j: &JudgeIn, mask: [bool; 3]) -> Result<Result<model::Expansion, String>, Verdict> {
    let m = Model::expand(j.args.clone(), j.item.clone(), j.flavors, j.consume, j.path);
    match (j.outcome, m) {
        (Outcome::Tokens(t), Ok(m)) => {
            let a = match syn::parse_str::<Item>(t) {
                Ok(a) => a,
                Err(e) => return Err(Verdict::Fail(format!("the expansion is not one item ({e}): {t}"))),
            };
            let exp = norm::canon_mask(m.item.clone(), mask);
            let act = norm::canon_mask(a, mask);
            if exp == act { Ok(Ok(m)) } else { Err(Verdict::Fail(norm::diff(&exp, &act))) }
        }
        (Outcome::Errors(d), Err(m)) => {
            if d.iter().any(|d| d.is_panic) {
                return Err(Verdict::Fail(format!("the macro panicked: {:?}", d[0].message)));
            }
            if d.is_empty() {
                return Err(Verdict::Fail(format!("rejected input vanished without an error (expected: {m})")));
            }
            Ok(Err(m))
        }
        (Outcome::Errors(d), Ok(_)) => Err(Verdict::Fail(format!(
            "valid input was rejected: {:?}",
            d.iter().map(|d| d.message.clone()).collect::<Vec<_>>()
        ))),
        (Outcome::Tokens(t), Err(m)) => Err(Verdict::Fail(format!("input that must be rejected ({m}) was expanded to: {t}"))),
    }
}
