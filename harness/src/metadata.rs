//! C25, and C11 at run time: what hooks are given in `$hooq_meta`, `$bindings` and `$name`, compared with records
//! written by hand at the marks of random programs.
use crate::batch::Check;
use crate::engine::*;
use crate::excerpt;
use crate::expandck::*;
use crate::model::ordinal;
use crate::prog;
use crate::reports::tokens_between;
use crate::src::Src;
use serde_json::{Value, json};

#[derive(Clone, Copy, PartialEq)]
enum Form {
    Meta,
    Bindings,
    Both,
    Named,
}

/// (attribute of the root for the method, or the flavor that brings it; form)
const FORMS: [(&str, Form); 10] = [
    ("#[hooq::method(.meta(|| $hooq_meta))]", Form::Meta),
    ("hook", Form::Meta),
    ("#[hooq::method(see($expr, || $hooq_meta))]", Form::Meta),
    ("#[hooq::method(match $expr { v => v.meta(|| { let m = $hooq_meta; m }) })]", Form::Meta),
    ("#[hooq::method(.meta(|| $bindings))]", Form::Bindings),
    ("#[hooq::method(see($expr, || { $bindings }))]", Form::Bindings),
    ("#[hooq::method(.both(|| $hooq_meta, || $bindings))]", Form::Both),
    ("#[hooq::method(.meta(|| any($k0)))]", Form::Named),
    ("#[hooq::method(see($expr, || any({ $k0 })))]", Form::Named),
    ("#[hooq::method(.both(|| any($k0), || any(($k0))))]", Form::Named),
];

const TOOLS: &str = r##"
macro_rules! sum { ($a:expr, $b:expr) => { $a + $b } }
use std::{any::Any, collections::{BTreeMap, HashMap}, rc::Rc};
pub fn strip(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
pub trait Data { fn data(&self) -> String; }
trait Get { fn get<T: 'static>(&self, k: &str) -> Option<Rc<T>>; }
impl Get for hooq::HooqMeta {
    fn get<T: 'static>(&self, k: &str) -> Option<Rc<T>> {
        let (a, b) = (self.get_binding::<T>(k), self.get_binding::<T>(k));
        match (&a, &b) {
            (Some(a), Some(b)) => assert!(Rc::ptr_eq(a, b)),
            (None, None) => (),
            _ => panic!("not the same"),
        }
        a
    }
}
impl Get for HashMap<String, hooq::BindingPayload> {
    fn get<T: 'static>(&self, k: &str) -> Option<Rc<T>> { HashMap::get(self, k).and_then(|b| b.value.clone().downcast().ok()) }
}
impl Get for BTreeMap<String, (String, Rc<dyn Any>)> {
    fn get<T: 'static>(&self, k: &str) -> Option<Rc<T>> { BTreeMap::get(self, k).and_then(|b| b.1.clone().downcast().ok()) }
}
impl Get for Rc<dyn Any> {
    fn get<T: 'static>(&self, _: &str) -> Option<Rc<T>> { self.clone().downcast().ok() }
}
/// tries every type
fn all(g: &impl Get, k: &str) -> String {
    macro_rules! one { ($s:ident $($t:ty),*) => { $( if let Some(v) = g.get::<$t>(k) { $s.push_str(&format!("{}={v:?};", stringify!($t))); } )* } }
    let mut s = String::new();
    one!(s i64, i32, f64, bool, char, &'static str, String, (i64, bool), Option<i64>, Vec<i64>, (), u8, Rc<i64>, &'static i64);
    s
}
fn vars<'a>(g: &impl Get, keys: impl Iterator<Item = (&'a String, &'a String)>) -> String {
    let mut k: Vec<(&String, &String)> = keys.collect();
    k.sort();
    let mut s = String::new();
    for (k, text) in k { s.push_str(&format!("{k}: {} {} | ", strip(text), all(g, k))); }
    for k in ["nope", "", "K0", "line", "k0 ", "expr"] { s.push_str(&all(g, k)); }
    s
}
impl Data for hooq::HooqMeta {
    fn data(&self) -> String {
        format!("{} {} {} {} {} {} {}", self.line, self.column, self.path, self.file, strip(self.source_str), self.count, vars(self, self.bindings.iter().map(|(k, v)| (k, &v.expr))))
    }
}
impl Data for HashMap<String, hooq::BindingPayload> { fn data(&self) -> String { vars(self, self.iter().map(|(k, v)| (k, &v.expr))) } }
pub type Vars = BTreeMap<String, (String, Rc<dyn Any>)>;
impl Data for Vars { fn data(&self) -> String { vars(self, self.iter().map(|(k, v)| (k, &v.0))) } }
pub struct Want(pub &'static str, pub Vars);
impl Data for Want { fn data(&self) -> String { format!("{} {}", self.0, self.1.data()) } }
impl Data for Rc<dyn Any> { fn data(&self) -> String { all(self, "") } }
pub fn any<T: 'static>(v: T) -> Rc<dyn Any> { Rc::new(v) }
pub fn see<T: Meta, D: Data>(v: T, f: impl FnOnce() -> D) -> T { v.meta(f) }
pub trait Meta: Sized {
    fn meta<D: Data>(self, f: impl FnOnce() -> D) -> Self {
        if bits(77) % 3 != 0 { let d = f(); hook_log(format!("M {}", d.data())) } else { hook_log("-".into()) }
        self
    }
    fn hook<D: Data>(self, f: impl FnOnce() -> D) -> Self { self.meta(f) }
    fn both<D: Data, F: Data>(self, f: impl FnOnce() -> D, g: impl FnOnce() -> F) -> Self { self.meta(f).meta(g) }
}
impl<T> Meta for T {}
fn trace(input: u64, f: fn()) -> Vec<String> {
    INPUT.set(input);
    STEPS.set(0);
    LOG.take();
    let r = std::panic::catch_unwind(f);
    let mut l = LOG.take();
    if r.is_err() { l.push("panic".into()) }
    l
}
fn compare(unit: usize, hooked: fn(), hand: fn()) {
    let (mut seen, mut lazy) = (0, 0);
    for input in 0..INPUTS {
        let (a, m) = (trace(input, hooked), trace(input, hand));
        if let Some(i) = (0..a.len().max(m.len())).find(|i| a.get(*i) != m.get(*i)) {
            println!("BAD {unit} input {input}, step {i}: {:?} ### expected {:?}", a.get(i), m.get(i));
            return;
        }
        seen += a.iter().filter(|x| x.starts_with("M ")).count();
        lazy += a.iter().filter(|x| *x == "-").count();
    }
    println!("OK {unit} {seen} {lazy}");
}
"##;

fn make(s: &mut Src, forms: &[usize]) -> Value {
    let form = *s.pick(forms);
    s.budget = 6 + s.below(60) as i64;
    let skips = s.chance(30);
    let table = form != 1 && s.chance(30);
    let mut g = prog::Gen::new(s, prog::Cfg { options: true, skips, copy_err: true, bindings: true });
    let mut flavor = vec![];
    if table {
        // the outermost definitions come from the configuration file
        g.define();
        if g.s.chance(50) {
            g.define();
        }
        let env = g.env();
        for (k, v) in env.iter().rev() {
            if !flavor.iter().any(|(n, _)| n == k) {
                flavor.push((k.clone(), v.clone()));
            }
        }
    }
    let mut root = String::new();
    if g.s.chance(60) {
        root = g.define().0;
    }
    if FORMS[form].1 == Form::Named && !g.env().iter().any(|(k, _)| k == "k0") {
        let v = g.s.pick(&prog::BINDINGS).to_string();
        root.push_str(&format!("#[hooq::k0 = {v}] "));
        g.env_mut().push(("k0".into(), v));
    }
    let p = g.unit_prog();
    let marks = g.marks.clone();
    let t = prog::spread(&p.text, s);
    json!({"text": t, "run": p.run, "form": form, "root": root, "flavor": flavor, "table": table, "marks": marks})
}

fn hand_hook(form: Form, want: &str, env: &[(String, String)]) -> String {
    let vars: String = env.iter().map(|(k, v)| format!("({k:?}.to_string(), ({v:?}.to_string(), any({v}))), ")).collect();
    let vars = format!("Vars::from([{vars}])");
    let meta = format!("Want({want:?}, {vars})");
    let k0 = env.iter().find(|(k, _)| k == "k0").map(|(_, v)| v.clone()).unwrap_or_default();
    match form {
        Form::Meta => format!("(@).meta(|| {meta})"),
        Form::Bindings => format!("(@).meta(|| {vars})"),
        Form::Both => format!("(@).both(|| {meta}, || {vars})"),
        Form::Named => format!("(@).meta(|| any({k0}))"),
    }
}

/// hooks, named variables and the order of the two calls are the same in both programs
fn program(cases: &[Value], annotate: bool) -> (String, String) {
    let mut t = format!("#![allow(warnings)]\n{}{}{}const INPUTS: u64 = 12;\nmod hooked {{ use super::*;\n", prog::PRELUDE, prog::ERRORS, TOOLS);
    let (mut hand, mut main, mut toml) = (String::new(), String::new(), String::new());
    for (i, c) in cases.iter().enumerate() {
        let (text, run) = (c["text"].as_str().unwrap(), c["run"].as_str().unwrap());
        let k = c["form"].as_u64().unwrap() as usize;
        let (method, form) = FORMS[k];
        let env: Vec<Vec<(String, String)>> = serde_json::from_value(c["marks"].clone()).unwrap();
        let mut arg = if k == 1 { "(hook)".to_string() } else { String::new() };
        if c["table"] == json!(true) {
            toml.push_str(&format!("[u{i}]\n[u{i}.bindings]\n"));
            for (k, v) in serde_json::from_value::<Vec<(String, String)>>(c["flavor"].clone()).unwrap() {
                toml.push_str(&format!("{k} = {}\n", serde_json::to_string(&v).unwrap()));
            }
            arg = format!("(u{i})");
        }
        let lines = t.matches('\n').count();
        let root = if annotate { format!("#[hooq::hooq{arg}] {} {}", if k == 1 { "" } else { method }, c["root"].as_str().unwrap()) } else { String::new() };
        let text = if annotate { text.to_string() } else { without_only(text) };
        let marked = format!("{}pub mod u{i} {{ use super::*; {} pub fn run() {{ {run} }} }}\n", "\n".repeat(lines), text.replace("@ROOT@", &root));
        let full = prog::annotated(&marked);
        let all = excerpt::toks(full.parse().expect("lexes"));
        let mut hooks = std::collections::HashMap::new();
        for p in prog::places(&marked) {
            let source: String = tokens_between(&all, p.start, p.end).iter().map(|t| t.text.as_str()).collect();
            let source: String = source.chars().filter(|c| !c.is_whitespace()).collect();
            let kind = match p.kind {
                'q' => "?",
                'r' => "return",
                _ => "tail expr",
            };
            let want = format!("{} {} src/main.rs main.rs {source} {} {kind}", p.at.0, p.at.1 + 1, ordinal(p.nth));
            let mut h = hand_hook(form, &want, &env[p.index]);
            if k == 9 {
                h = h.replacen(".meta(|| any(", ".both(|| any(X), || any(", 1);
                let v = env[p.index].iter().find(|(k, _)| k == "k0").unwrap().1.clone();
                h = h.replacen("any(X)", &format!("any({v})"), 1);
            }
            hooks.insert(p.index, h);
        }
        let m = format!("pub mod u{i} {{ use super::*; {} pub fn run() {{ {run} }} }}\n", text.replace("@ROOT@", ""));
        hand.push_str(&prog::by_hand(&m, |_, k| hooks[&k].clone()));
        t.push_str(&full[lines..]);
        main.push_str(&format!("compare({i}, hooked::u{i}::run, hand::u{i}::run);\n"));
    }
    (format!("{t}}}\nmod hand {{ use super::*;\n{hand}}}\nfn main() {{ std::panic::set_hook(Box::new(|_| ())); {main} }}\n"), toml)
}

fn without_only(t: &str) -> String {
    let mut only = false;
    t.chars()
        .filter(|c| {
            only = (only || *c == prog::ONLY) && *c != prog::END;
            !only && *c != prog::END
        })
        .collect()
}

pub fn judge(env: &Env, cases: &[Value]) -> Vec<Verdict> {
    let (text, toml) = program(cases, true);
    let out = match env.run_program(&text, Some(&toml), false, &[], &[]) {
        Ok(o) => o,
        Err(d) => {
            if cases.len() > 1 {
                let m = cases.len() / 2;
                let mut v = judge(env, &cases[..m]);
                v.extend(judge(env, &cases[m..]));
                return v;
            }
            return vec![match env.run_program(&program(cases, false).0, None, false, &[], &[]) {
                Err(p) => {
                    if std::env::var_os("HV_PANIC").is_some() {
                        eprintln!("NOT TYPED: {}", p[0].rendered);
                    }
                    Verdict::Discard("not well typed")
                }
                Ok(_) => Verdict::Fail(format!("compiles with records written by hand, not with the attribute: {}", d[0].rendered)),
            }];
        }
    };
    let mut res: Vec<Option<Verdict>> = cases.iter().map(|_| None).collect();
    for l in out.stdout.lines() {
        let mut w = l.splitn(3, ' ');
        let (k, i, rest) = (w.next().unwrap_or(""), w.next().and_then(|x| x.parse::<usize>().ok()), w.next().unwrap_or(""));
        let Some(i) = i else { continue };
        res[i] = Some(match k {
            "OK" => {
                let n: Vec<usize> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                let vars = cases[i]["marks"].as_array().unwrap().iter().map(|m| m.as_array().unwrap().len()).max().unwrap_or(0);
                let mut tags = vec![];
                if n[1] > 0 {
                    tags.push("data not asked for");
                }
                if vars > 2 {
                    tags.push("more than 2 variables");
                }
                if cases[i]["table"] == json!(true) {
                    tags.push("variables from the configuration file");
                }
                Verdict::Ok(n[0] > 0 && vars > 0, tags)
            }
            _ => Verdict::Fail(rest.to_string()),
        });
    }
    res.into_iter().map(|r| r.unwrap_or_else(|| Verdict::Fail(format!("the program stopped: {:?} {}", out.code, out.stderr)))).collect()
}

pub fn checks(id: &str) -> Vec<Check> {
    if id == "C25" {
        vec![Check { name: "metadata", quick: 1100, budget: 1, batch: 20, make: |s| make(s, &[0, 1, 2, 3, 6]), judge }]
    } else {
        vec![Check { name: "variables at run time", quick: 600, budget: 1, batch: 20, make: |s| make(s, &[4, 5, 6, 7, 8, 9]), judge }]
    }
}
