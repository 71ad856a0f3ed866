//! Driver of the checks that are not a plain comparison of one expansion: cases are JSON values, judged in batches.
use crate::engine::*;
use crate::expandck::*;
use crate::src::{Src, mix, reductions};
use serde_json::{Value, json};
use std::collections::BTreeSet;
use std::time::Instant;

pub struct Check {
    pub name: &'static str,
    pub quick: usize,
    pub budget: u32,
    pub batch: usize,
    pub make: fn(&mut Src) -> Value,
    pub judge: fn(&Env, &[Value]) -> Vec<Verdict>,
}

struct Case {
    choices: Vec<u32>,
    data: Value,
}

fn make(c: &Check, choices: Option<&[u32]>, seed: u64) -> Case {
    let mut s = match choices {
        Some(c) => Src::replay(c, 0),
        None => Src::random(seed, 0),
    };
    s.budget = 4 + s.below(c.budget) as i64;
    let data = (c.make)(&mut s);
    Case { choices: s.rec, data }
}

fn judge(env: &Env, c: &Check, data: &[Value]) -> Vec<Verdict> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.judge)(env, data)));
    match r {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if data.len() > 1 {
                data.iter().flat_map(|d| judge(env, c, std::slice::from_ref(d))).collect()
            } else {
                vec![Verdict::Fail(format!("the judge could not handle the result: {m}"))]
            }
        }
    }
}

fn size(v: &Value) -> usize {
    v.to_string().len()
}

pub fn run_checks(env: &Env, p: &Params, checks: &[Check], rep: &mut Report) {
    for (ci, c) in checks.iter().enumerate() {
        let nb = p.scale(c.quick).div_ceil(c.batch);
        let idx: Vec<usize> = (0..nb).collect();
        let cseed = mix(mix(p.seed, fnv(&p.id)), 1000 + ci as u64);
        let res = par_map(&idx, |_, b| {
            let cases: Vec<Case> = (0..c.batch).map(|i| make(c, None, mix(mix(cseed, *b as u64), i as u64))).collect();
            let data: Vec<Value> = cases.iter().map(|c| c.data.clone()).collect();
            let v = judge(env, c, &data);
            assert_eq!(v.len(), data.len());
            cases.into_iter().zip(v).collect::<Vec<_>>()
        });
        *rep.tags.entry(format!("variant:{}", c.name)).or_default() += (nb * c.batch) as u64;
        let mut fails = vec![];
        for (b, r) in res.into_iter().enumerate() {
            for (k, (case, v)) in r.into_iter().enumerate() {
                match v {
                    Verdict::Ok(n, tags) => {
                        rep.ok(&case.data.to_string(), n, &tags);
                        if n && k == 3 % c.batch && b % (nb / 3 + 1) == 0 {
                            rep.sample(json!({"variant": c.name, "case": case.data}));
                        }
                    }
                    Verdict::Discard(w) => rep.discard(w),
                    Verdict::Fail(m) => {
                        rep.evaluations += 1;
                        fails.push((case, m));
                    }
                }
            }
        }
        let nf = fails.len();
        if nf == 0 {
            continue;
        }
        fails.sort_by_key(|(c, _)| size(&c.data));
        let (mut best, mut msg) = fails.swap_remove(0);
        let t0 = Instant::now();
        while t0.elapsed().as_secs() < shrink_time() {
            let mut seen = BTreeSet::new();
            let mut cands = vec![];
            for r in reductions(&best.choices) {
                let k = make(c, Some(&r), 0);
                if size(&k.data) < size(&best.data) && seen.insert(k.data.to_string()) {
                    cands.push(k);
                }
                if cands.len() >= 400 {
                    break;
                }
            }
            cands.sort_by_key(|k| size(&k.data));
            let chunks: Vec<&[Case]> = cands.chunks(c.batch.min(20)).collect();
            let res: Vec<Verdict> =
                par_map(&chunks, |_, ch| judge(env, c, &ch.iter().map(|k| k.data.clone()).collect::<Vec<_>>())).into_iter().flatten().collect();
            match res.iter().position(|v| matches!(v, Verdict::Fail(_))) {
                Some(i) => {
                    if let Verdict::Fail(m) = &res[i] {
                        msg = m.clone();
                    }
                    best = cands.into_iter().nth(i).unwrap();
                }
                None => break,
            }
        }
        rep.fail(
            format!("[{}; {nf} failing cases] {msg}\n{}", c.name, show(&best.data)),
            json!({"kind": "batch", "variant": c.name, "case": best.data, "message": msg}),
        );
    }
}

fn show(v: &Value) -> String {
    match v {
        Value::Object(m) => m.iter().map(|(k, v)| format!("--- {k}\n{}\n", v.as_str().map(String::from).unwrap_or(v.to_string()))).collect(),
        v => v.to_string(),
    }
}

pub fn replay(env: &Env, checks: &[Check], r: &Value) -> Result<Verdict, String> {
    let name = r["variant"].as_str().unwrap_or("");
    let c = checks.iter().find(|c| c.name == name).ok_or("unknown variant")?;
    Ok(judge(env, c, std::slice::from_ref(&r["case"])).into_iter().next().unwrap())
}
