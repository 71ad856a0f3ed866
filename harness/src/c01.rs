//! C01: the same random program without the attribute, with hooks written by hand and with the attribute, run on
//! several inputs; the traces of side effects are compared.
use crate::batch::Check;
use crate::engine::*;
use crate::expandck::*;
use crate::prog;
use crate::src::Src;
use serde_json::{Value, json};

/// (attributes of the root, hook by hand)
const HOOKS: [(&str, &str); 9] = [
    ("#[hooq::method(.obs())]", "(@).obs()"),
    ("#[hooq::method(ob($expr))]", "ob(@)"),
    ("#[hooq::method(match $expr { v => ob(v) })]", "(match (@) { v => ob(v) })"),
    ("#[hooq::method(.obs_at($line, $col, ($path, $file, $count, $fn_name, $fn_sig, stringify!($source))))]", "(@).obs()"),
    ("#[hooq::k = t(-1)] #[hooq::method(.obs_with(|| { let m = $hooq_meta; m.line }))]", "(@).obs()"),
    ("#[hooq::k = t(-1)] #[hooq::method(.obs_with(|| $bindings))]", "(@).obs()"),
    ("#[hooq::method(.then_obs(|v| ob(v)))]", "(@).then_obs(|v| ob(v))"),
    ("#[hooq::method(ob(one!($expr)))]", "ob(one!(@))"),
    ("#[hooq::o = ob] #[hooq::method($o(($expr)))]", "ob((@))"),
];

const OBS: &str = r##"
pub fn ob<T: std::fmt::Debug>(v: T) -> T { hook_log(format!("H{v:?}")); v }
pub trait Obs: Sized + std::fmt::Debug {
    fn obs(self) -> Self { ob(self) }
    fn obs_at<P>(self, _: usize, _: usize, _: P) -> Self { ob(self) }
    fn obs_with<R>(self, _: impl FnOnce() -> R) -> Self { ob(self) }
    fn then_obs(self, f: impl FnOnce(Self) -> Self) -> Self { f(self) }
}
impl<T: std::fmt::Debug> Obs for T {}
fn trace(input: u64, f: fn()) -> Vec<String> {
    INPUT.set(input);
    STEPS.set(0);
    LOG.take();
    let r = std::panic::catch_unwind(f);
    let mut l = LOG.take();
    if r.is_err() { l.push("panic".into()) }
    l
}
fn differ(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |v: &[String]| v[i.saturating_sub(3).min(v.len())..(i + 3).min(v.len())].join(" | ");
    format!("after {i} steps: {} ### {}", cut(a), cut(b))
}
fn compare(unit: usize, plain: fn(), hand: fn(), hooked: fn()) {
    let (mut hooks, mut steps) = (0, 0);
    let mut seen = std::collections::BTreeSet::new();
    for input in 0..INPUTS {
        let (p, m, a) = (trace(input, plain), trace(input, hand), trace(input, hooked));
        let rest: Vec<String> = a.iter().filter(|x| !x.starts_with('H')).cloned().collect();
        if rest != p {
            println!("BAD {unit} with the attribute ### without it, input {input}, {}", differ(&rest, &p));
            return;
        }
        if a != m {
            println!("BAD {unit} with the attribute ### with hooks by hand, input {input}, {}", differ(&a, &m));
            return;
        }
        hooks += a.len() - rest.len();
        steps += p.len();
        seen.insert(p);
    }
    println!("OK {unit} {hooks} {steps} {}", seen.len());
}
"##;

pub fn make(s: &mut Src) -> Value {
    let hook = s.below(HOOKS.len() as u32);
    s.budget = 8 + s.below(90) as i64;
    let skips = s.chance(30);
    let p = prog::Gen::new(s, prog::Cfg { options: true, skips, copy_err: true, bindings: false }).unit_prog();
    json!({"text": p.text, "run": p.run, "hook": hook})
}

fn program(cases: &[&Value], inputs: u32, annotated: bool) -> String {
    let (mut a, mut b, mut c, mut main) = (String::new(), String::new(), String::new(), String::new());
    for (i, k) in cases.iter().enumerate() {
        let (text, run) = (k["text"].as_str().unwrap(), k["run"].as_str().unwrap());
        let h = HOOKS[k["hook"].as_u64().unwrap() as usize];
        let unit = |t: String| format!("pub mod u{i} {{ use super::*; {t} pub fn run() {{ {run} }} }}\n");
        a.push_str(&unit(prog::plain(text).replace("@ROOT@", "")));
        b.push_str(&unit(prog::by_hand(text, |_, _| h.1.to_string()).replace("@ROOT@", "")));
        let t = if annotated { prog::annotated(text).replace("@ROOT@", &format!("#[hooq::hooq] {}", h.0)) } else { prog::plain(text).replace("@ROOT@", "") };
        c.push_str(&unit(t));
        main.push_str(&format!("compare({i}, plain::u{i}::run, hand::u{i}::run, hooked::u{i}::run);\n"));
    }
    format!(
        "#![allow(warnings)]\n{}{}const INPUTS: u64 = {inputs};\nmod plain {{ use super::*;\n{a}}}\nmod hand {{ use super::*;\n{b}}}\nmod hooked {{ use super::*;\n{c}}}\nfn main() {{ std::panic::set_hook(Box::new(|_| ())); {main} }}\n",
        [prog::PRELUDE, prog::ERRORS].concat(),
        OBS
    )
}

pub fn judge(env: &Env, cases: &[Value]) -> Vec<Verdict> {
    let refs: Vec<&Value> = cases.iter().collect();
    let out = match env.run_program(&program(&refs, 24, true), None, false, &[], &[]) {
        Ok(o) => o,
        Err(d) => {
            if cases.len() > 1 {
                let m = cases.len() / 2;
                let mut v = judge(env, &cases[..m]);
                v.extend(judge(env, &cases[m..]));
                return v;
            }
            return vec![match env.run_program(&program(&refs, 24, false), None, false, &[], &[]) {
                Err(p) => {
                    if std::env::var_os("HV_PANIC").is_some() {
                        eprintln!("NOT TYPED: {}", p[0].rendered);
                    }
                    Verdict::Discard("not well typed")
                }
                Ok(_) => Verdict::Fail(format!("compiles with hooks written by hand, not with the attribute: {}", d[0].rendered)),
            }];
        }
    };
    let mut res: Vec<Option<Verdict>> = cases.iter().map(|_| None).collect();
    for l in out.stdout.lines() {
        let mut w = l.splitn(3, ' ');
        let (k, i, rest) = (w.next().unwrap_or(""), w.next().and_then(|x| x.parse::<usize>().ok()), w.next().unwrap_or(""));
        let Some(i) = i else { continue };
        res[i] = Some(match k {
            "OK" => {
                let n: Vec<usize> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                let mut tags = vec![];
                if n[0] >= 50 {
                    tags.push("50 hooks run");
                }
                if n[2] > 1 {
                    tags.push("traces depend on the input");
                }
                Verdict::Ok(n[0] > 0, tags)
            }
            _ => Verdict::Fail(rest.to_string()),
        });
    }
    res.into_iter().map(|r| r.unwrap_or_else(|| Verdict::Fail(format!("the program stopped: {:?} {}", out.code, out.stderr)))).collect()
}

pub fn checks() -> Vec<Check> {
    vec![Check { name: "programs", quick: 2500, budget: 1, batch: 25, make, judge }]
}
