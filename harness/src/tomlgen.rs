//! Generator of configuration files together with the flavors they must define.
use crate::expandck::TomlCase;
use crate::model::{Flavor, builtin_flavors, parse_method, split_bang, targets_of};
use crate::src::Src;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Table {
    /// key and value, both as TOML text
    pub fields: Vec<(String, String)>,
    pub set: Set,
    pub subs: Vec<(String, Table)>,
}

#[derive(Clone, Debug, Default)]
pub struct Set {
    pub trait_uses: Option<Vec<String>>,
    pub method: Option<String>,
    pub targets: Option<Vec<String>>,
    pub tails: Option<Vec<String>>,
    pub ignores: Option<Vec<String>>,
    pub results: Option<Vec<String>>,
    pub macros: Option<bool>,
    pub bindings: Vec<(String, String)>,
}

// names that coincide when joined, cut or folded are on purpose
const TOP: &[&str] = &["alpha", "alphaone", "Alpha", "al", "beta", "my-flavor", "default", "log", "hook", "anyhow", "tracing", "eyre"];
const SUB: &[&str] = &["phaone", "one", "alpha", "two", "release", "error", "warn"];
const NAMES: &[&str] = &["Err", "Ok", "Some", "None", "Left", "f", "make"];
const RESULTS: &[&str] = &["Result", "Option", "MyResult", "Either", "Box"];

fn basic_toml(v: &str) -> String {
    format!("\"{}\"", v.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', "\\t"))
}

fn str_toml(s: &mut Src, v: &str) -> String {
    let basic = || basic_toml(v);
    match s.below(4) {
        0 if !v.contains('\'') && !v.contains('\n') => format!("'{v}'"),
        1 => format!("\"\"\"{}\"\"\"", v.replace('\\', "\\\\").replace('"', "\\\"")),
        2 if !v.contains('\'') => format!("'''\n{v}'''"),
        _ => basic(),
    }
}

fn list(s: &mut Src, v: &[String]) -> String {
    let nl = s.chance(25);
    let mut t: Vec<String> = vec![];
    for x in v {
        t.push(str_toml(s, x));
    }
    if nl && !t.is_empty() {
        format!("[\n  {},\n]", t.join(", # c\n  "))
    } else {
        format!("[{}]", t.join(", "))
    }
}

fn some_names(s: &mut Src, pool: &[&str], bang: bool) -> Vec<String> {
    (0..s.below(4))
        .map(|_| {
            let x = s.pick(pool).to_string();
            if bang && s.chance(25) { format!("!{x}") } else { x }
        })
        .collect()
}

fn table(s: &mut Src, n: &mut u32, depth: u32, must_method: bool, in_preset: bool) -> Table {
    let mut t = Table::default();
    let k = &mut t.set;
    if s.chance(30) {
        let v: Vec<String> = (0..s.below(3)).map(|_| s.pick(&["::rt::A", "rt::B", "::rt::m::C"]).to_string()).collect();
        t.fields.push(("trait_uses".into(), list(s, &v)));
        k.trait_uses = Some(v);
    }
    if must_method || s.chance(45) {
        *n += 1;
        let m = match s.below(5) {
            0 | 1 => format!(".h{n}($t0)"),
            2 => format!("h{n}($expr, $t1)"),
            3 => format!(".h{n}(\n    |e| {{ g(e, \"a'b\") }},\n    $count)"),
            _ => format!(".h{n}($t0, '\\n', \"q\\\"\")"),
        };
        t.fields.push(("method".into(), str_toml(s, &m)));
        k.method = Some(m);
    }
    if s.chance(30) {
        let v: Vec<String> = (0..s.below(4)).map(|_| s.pick(&["?", "return", "tail_expr", "question", "tail expr", "tailexpr", "tailExpr", "all"]).to_string()).collect();
        t.fields.push(("hook_targets".into(), list(s, &v)));
        k.targets = Some(v);
    }
    if s.chance(35) {
        let v = some_names(s, NAMES, true);
        t.fields.push(("tail_expr_idents".into(), list(s, &v)));
        k.tails = Some(v);
    }
    if s.chance(25) {
        let v = some_names(s, NAMES, false);
        t.fields.push(("ignore_tail_expr_idents".into(), list(s, &v)));
        k.ignores = Some(v);
    }
    if s.chance(30) {
        let v = some_names(s, RESULTS, false);
        t.fields.push(("result_types".into(), list(s, &v)));
        k.results = Some(v);
    }
    if s.chance(30) {
        let v = s.chance(50);
        t.fields.push(("hook_in_macros".into(), v.to_string()));
        k.macros = Some(v);
    }
    if s.chance(50) {
        let mut v: Vec<(String, String)> = vec![];
        for _ in 0..s.range(1, 3) {
            let b = s.pick(&["t0", "t1", "t2", "level"]).to_string();
            *n += 1;
            let e = match s.below(4) {
                0 => format!("\"b{n}\""),
                1 => format!("{n} + 1"),
                2 => format!("S {{ a: {n} }}"),
                _ => format!("g({n})?"),
            };
            if v.iter().all(|(x, _)| *x != b) {
                v.push((b, e));
            }
        }
        k.bindings = v.clone();
        let kv: Vec<String> = v
            .iter()
            .map(|(a, b)| {
                let x = str_toml(s, b);
                // inline tables stay on one line
                let x = if x.contains('\n') { basic_toml(b) } else { x };
                format!("{a} = {x}")
            })
            .collect();
        if s.chance(40) {
            for e in kv {
                t.fields.push((format!("bindings.{}", e.split_once(" = ").unwrap().0), e.split_once(" = ").unwrap().1.to_string()));
            }
        } else {
            t.fields.push(("bindings".into(), format!("{{ {} }}", kv.join(", "))));
        }
    }
    if depth < 3 {
        let m = s.below(3);
        for _ in 0..m {
            let name = s.pick(SUB).to_string();
            // tables below new children of a preset that itself has children are left out
            if t.subs.iter().any(|(x, _)| *x == name) || (in_preset && depth >= 2) {
                continue;
            }
            let c = table(s, n, depth + 1, false, in_preset);
            t.subs.push((name, c));
        }
    }
    t
}

pub fn apply(into: &mut BTreeMap<String, Flavor>, name: &str, t: &Table, base: &Flavor, consume: bool) {
    let mut f = into.get(name).cloned().unwrap_or_else(|| base.clone());
    let k = &t.set;
    if let Some(v) = &k.trait_uses {
        f.trait_uses = v.clone();
    }
    if let Some(m) = &k.method {
        f.method = parse_method(m.parse().unwrap(), consume);
    }
    if let Some(v) = &k.targets {
        f.targets = targets_of(v).unwrap();
    }
    let mut ign: Option<Vec<String>> = None;
    if let Some(v) = &k.tails {
        let (a, b) = split_bang(v);
        f.tail_idents = a;
        if !b.is_empty() {
            ign = Some(b);
        }
    }
    if let Some(v) = &k.ignores {
        ign.get_or_insert_with(Vec::new).extend(v.clone());
    }
    if let Some(v) = ign {
        f.ignore_idents = v;
    }
    if let Some(v) = &k.results {
        f.result_types = v.clone();
    }
    if let Some(v) = k.macros {
        f.in_macros = v;
    }
    for (a, b) in &k.bindings {
        f.bindings.insert(a.clone(), b.parse().unwrap());
    }
    let mut child_base = f.clone();
    child_base.subs = BTreeMap::new();
    let mut subs = f.subs.clone();
    for (n, c) in &t.subs {
        apply(&mut subs, n, c, &child_base, consume);
    }
    f.subs = subs;
    into.insert(name.to_string(), f);
}

fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = s.below(i as u32 + 1) as usize;
        // choice 0 keeps the order
        v.swap(i, i - j);
    }
}

fn key(n: &str, s: &mut Src) -> String {
    if s.chance(20) { format!("\"{n}\"") } else { n.to_string() }
}

fn inline(s: &mut Src, t: &Table) -> String {
    let mut parts: Vec<String> = vec![];
    for (k, v) in &t.fields {
        parts.push(format!("{k} = {v}"));
    }
    for (n, c) in &t.subs {
        let v = inline(s, c);
        parts.push(format!("{} = {v}", key(n, s)));
    }
    shuffle(s, &mut parts);
    format!("{{ {} }}", parts.join(", "))
}

fn single_line(t: &Table) -> bool {
    t.fields.iter().all(|(_, v)| !v.contains('\n')) && t.subs.iter().all(|(_, c)| single_line(c))
}

/// sections: (header, lines)
fn sections(s: &mut Src, path: &str, t: &Table, out: &mut Vec<(String, Vec<String>)>) {
    let mut lines: Vec<String> = t.fields.iter().map(|(k, v)| format!("{k} = {v}")).collect();
    let mut subs = vec![];
    for (n, c) in &t.subs {
        let k = key(n, s);
        match s.below(3) {
            0 if single_line(c) => lines.push(format!("{k} = {}", inline(s, c))),
            1 if c.subs.is_empty() && !c.fields.is_empty() => {
                for (a, b) in &c.fields {
                    lines.push(format!("{k}.{a} = {b}"));
                }
            }
            _ => subs.push((k, c)),
        }
    }
    shuffle(s, &mut lines);
    let explicit = !lines.is_empty() || subs.is_empty() || s.chance(50);
    if explicit {
        out.push((path.to_string(), lines));
    }
    for (k, c) in subs {
        sections(s, &format!("{path}.{k}"), c, out);
    }
}

pub fn tree(s: &mut Src) -> Vec<(String, Table)> {
    let mut n = 500;
    let mut v: Vec<(String, Table)> = vec![];
    for _ in 0..s.range(1, 4) {
        let name = s.pick(TOP).to_string();
        if v.iter().any(|(x, _)| *x == name) {
            continue;
        }
        let preset = matches!(name.as_str(), "log" | "tracing");
        let m = s.chance(80);
        let t = table(s, &mut n, 1, m, preset);
        v.push((name, t));
    }
    v
}

pub fn render(s: &mut Src, tree: &[(String, Table)]) -> String {
    let mut sec = vec![];
    for (n, t) in tree {
        let k = key(n, s);
        sections(s, &k, t, &mut sec);
    }
    shuffle(s, &mut sec);
    let mut out = String::new();
    for (h, l) in sec {
        let pad = if s.chance(20) { " " } else { "" };
        out.push_str(&format!("[{pad}{h}{pad}]\n"));
        for x in l {
            out.push_str(&x);
            out.push_str(if s.chance(10) { " # note\n" } else { "\n" });
        }
        if s.chance(50) {
            out.push('\n');
        }
    }
    out
}

pub fn flavors_of(tree: &[(String, Table)], consume: bool) -> BTreeMap<String, Flavor> {
    let mut f = builtin_flavors();
    for (n, t) in tree {
        apply(&mut f, n, t, &Flavor::base(), consume);
    }
    f
}

pub fn names_of(f: &BTreeMap<String, Flavor>, tree: &[(String, Table)]) -> Vec<String> {
    fn go(pre: &str, t: &Table, v: &mut Vec<String>) {
        v.push(pre.to_string());
        for (n, c) in &t.subs {
            go(&format!("{pre}.{n}"), c, v);
        }
    }
    let mut v = vec![];
    for (n, t) in tree {
        go(n, t, &mut v);
    }
    // some flavors the file does not mention
    v.push("default".into());
    v.push("hook".into());
    if f.contains_key("log") {
        v.push("log.warn".into());
    }
    v
}

pub fn toml_case(s: &mut Src) -> TomlCase {
    let t = tree(s);
    let flavors = flavors_of(&t, false);
    let names = names_of(&flavors, &t);
    let text = render(s, &t);
    TomlCase { text, flavors, names }
}

pub fn toml_case_consume(s: &mut Src) -> TomlCase {
    let mut t = tree(s);
    fn bang(s: &mut Src, t: &mut Table) {
        if let Some(m) = &mut t.set.method {
            if s.chance(60) {
                *m = format!("{m} !");
                let v = m.replace('\\', "\\\\").replace('"', "\\\"");
                for (k, x) in &mut t.fields {
                    if k == "method" {
                        *x = format!("\"\"\"{v}\"\"\"");
                    }
                }
            }
        }
        t.subs.iter_mut().for_each(|(_, c)| bang(s, c));
    }
    t.iter_mut().for_each(|(_, c)| bang(s, c));
    let flavors = flavors_of(&t, true);
    let names = names_of(&flavors, &t);
    let text = render(s, &t);
    TomlCase { text, flavors, names }
}
