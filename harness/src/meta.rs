//! C16 (determinism), C22 (trait imports), C23 (independence): relations between several expansions.
use crate::batch::Check;
use crate::engine::*;
use crate::expandck::*;
use crate::items::{G, Profile, TemplateStyle, layout};
use crate::model::{Flavor, builtin_flavors};
use crate::src::Src;
use crate::tomlgen;
use serde_json::{Value, json};
use std::collections::BTreeMap;

pub fn checks(id: &str) -> Vec<Check> {
    match id {
        "C16" => vec![Check { name: "repeated expansion", quick: 240, budget: 40, batch: 1, make: c16_make, judge: c16_all }],
        "C22" => vec![
            Check { name: "import lists", quick: 3000, budget: 30, batch: 25, make: c22_make, judge: c22_judge },
            Check { name: "imports in use", quick: 200, budget: 12, batch: 10, make: c22_run_make, judge: c22_run_judge },
        ],
        "C23" => vec![Check { name: "neighbours", quick: 240, budget: 40, batch: 1, make: c23_make, judge: c23_all }],
        _ => vec![],
    }
}

fn c16_all(env: &Env, v: &[Value]) -> Vec<Verdict> {
    v.iter().map(|x| c16_judge(env, x)).collect()
}

fn c23_all(env: &Env, v: &[Value]) -> Vec<Verdict> {
    v.iter().map(|x| c23_judge(env, x)).collect()
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()).collect()
}

fn lay(s: &mut Src) -> u32 {
    if s.chance(50) { 1 + s.below(100_000) } else { 0 }
}

fn parses(t: &str) -> bool {
    matches!(syn::parse_file(&t.replace("@CAP@", "")), Ok(f) if f.items.len() == 1)
}

fn unit(s: &mut Src, p: Profile) -> String {
    let l = lay(s);
    let b = s.budget;
    let t = layout(&G::new(s, p).root(), l);
    s.budget = b;
    if parses(&t) { t } else { "#[hooq::hooq] @CAP@ fn f1() { g()?; }".into() }
}

/// A message without the scratch directory it may mention.
fn place_free(env: &Env, m: &str) -> String {
    let w = format!("{}/d", env.work.display());
    let mut out = String::new();
    let mut rest = m;
    while let Some(i) = rest.find(&w) {
        out.push_str(&rest[..i]);
        out.push_str("DIR");
        rest = rest[i + w.len()..].trim_start_matches(|c: char| c.is_ascii_digit());
    }
    out.push_str(rest);
    out
}

// ------------------------------------------------------------------------------------------ C16

const KEYS: [&str; 12] = ["a", "b", "cc", "k0", "k1", "k2", "zeta", "alpha", "m1", "m2", "été", "x_y"];

fn c16_make(s: &mut Src) -> Value {
    let toml = if s.chance(70) { Some(tomlgen::toml_case(s)) } else { None };
    let n = s.range(2, 8);
    let mut units = vec![];
    for _ in 0..n {
        let mut p = Profile {
            attr_pct: 12,
            attr_w: [3, 1, 1, 1, 1, 1, 8, 1, 1, 3, 3],
            try_pct: 30,
            template: TemplateStyle::Mixed,
            flavors: toml.as_ref().map(|t| t.names.clone()).unwrap_or(vec!["default".into(), "log".into(), "hook".into(), "tracing.warn".into()]),
            root_flavor_pct: 60,
            root_method: false,
            bad_pct: 4,
            bindings: KEYS[..2 + s.below(10) as usize].to_vec(),
            ..Default::default()
        };
        p.root_extra = *s.pick(&[
            "#[hooq::method(·.h(·$bindings,·$line·)·)]·",
            "#[hooq::method(·.h(·||·$hooq_meta·)·)]·",
            "#[hooq::method(·h(·$expr,·{·$bindings·},·$hooq_meta·)·)]·",
            "#[hooq::method(·.h(·$nowhere,·$a·)·)]·",
            "#[hooq::flavor = nowhere::at_all]·",
            "",
        ]);
        units.push(unit(s, p));
    }
    // errors of the attribute itself list the flavors
    match s.below(8) {
        0 => units.push("#[hooq::hooq(nowhere)] @CAP@ fn f1() { g()?; }".into()),
        1 => units.push("#[hooq::hooq(nothing(x))] @CAP@ fn f1() { g()?; }".into()),
        2 => units.push("#[hooq::hooq(flavor = 1)] @CAP@ fn f1() { g()?; }".into()),
        3 => units.push("#[hooq::hooq] @CAP@ #[hooq::nothing(x)] fn f1() { g()?; }".into()),
        4 => units.push("#[hooq::hooq] @CAP@ #[hooq::hook_targets(\"nothing\")] fn f1() { g()?; }".into()),
        _ => (),
    }
    json!({"toml": toml.map(|t| t.text), "units": units})
}

fn shown(env: &Env, o: &Outcome) -> String {
    match o {
        Outcome::Tokens(t) => t.clone(),
        Outcome::Errors(d) => d.iter().map(|d| format!("error at line {}: {}\n{}\n", d.line, place_free(env, &d.message), place_free(env, &d.rendered))).collect(),
    }
}

fn first_difference(a: &str, b: &str) -> String {
    let i = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.chars().skip(i.saturating_sub(120)).take(360).collect::<String>();
    format!("once …{}…\nthen …{}…", cut(a), cut(b))
}

fn c16_judge(env: &Env, case: &Value) -> Verdict {
    let toml = case["toml"].as_str();
    let units: Vec<Unit> = strs(&case["units"]).into_iter().map(|text| Unit { text }).collect();
    let cfg = ExpandCfg { toml, file: FILE, ..Default::default() };
    let first = env.expand(&units, &cfg);
    if first.outcomes.iter().all(|o| matches!(o, Outcome::Errors(d) if d.is_empty())) {
        return Verdict::Discard("not parsed by the compiler");
    }
    let all = |e: &Expanded| -> Vec<String> {
        let mut v: Vec<String> = e.outcomes.iter().map(|o| shown(env, o)).collect();
        v.push(shown(env, &Outcome::Errors(e.stray.clone())));
        v
    };
    let a = all(&first);
    for _ in 0..2 {
        let b = all(&env.expand(&units, &cfg));
        for (i, (x, y)) in a.iter().zip(&b).enumerate() {
            if x != y {
                return Verdict::Fail(format!("two compiler runs on the same file differ (item {i}): {}", first_difference(x, y)));
            }
        }
    }
    let mut tags = vec![];
    if first.outcomes.iter().any(|o| matches!(o, Outcome::Errors(_))) {
        tags.push("has an error");
    }
    let rich = a.iter().any(|t| t.contains("BindingPayload"));
    if rich {
        tags.push("has a variable list");
    }
    if toml.is_some() {
        tags.push("has a configuration file");
    }
    Verdict::Ok(!tags.is_empty(), tags)
}

// ------------------------------------------------------------------------------------------ C23

/// Whether nothing a hook of the flavor renders depends on the position.
fn position_free(f: &Flavor) -> bool {
    let t = f.method.ts.to_string();
    !["__preset", "line", "col", "hooq_meta"].iter().any(|x| t.contains(x))
}

fn flavor_at<'a>(f: &'a BTreeMap<String, Flavor>, path: &str) -> Option<&'a Flavor> {
    let mut it = path.split('.');
    let mut c = f.get(it.next()?)?;
    for x in it {
        c = c.subs.get(x)?;
    }
    Some(c)
}

fn c23_make(s: &mut Src) -> Value {
    let toml = tomlgen::toml_case(s);
    let free: Vec<String> = toml.names.iter().filter(|n| flavor_at(&toml.flavors, n).is_some_and(position_free)).cloned().collect();
    let n = s.range(2, 7);
    let mut units = vec![];
    let mut profile = |s: &mut Src, moved: bool| {
        let flavors = if moved { free.clone() } else { toml.names.clone() };
        let root_flavor_pct = if flavors.is_empty() { 0 } else { 75 };
        let p = Profile {
            attr_pct: 12,
            attr_w: [3, 1, 1, 1, 1, 1, 3, 1, 1, 4, 4],
            try_pct: 30,
            template: if moved { *s.pick(&[TemplateStyle::Describe, TemplateStyle::Insert]) } else { TemplateStyle::Mixed },
            bad_pct: if moved || s.chance(40) { 0 } else { 12 },
            // without a flavor the preset method reports positions
            root_method: moved || s.chance(50),
            flavors,
            root_flavor_pct,
            root_extra: if s.chance(8) { "#[hooq::method(·.h(·$nowhere·)·)]·" } else { "" },
            ..Default::default()
        };
        unit(s, p)
    };
    for _ in 0..n {
        units.push(profile(s, true));
    }
    let mut aliens = vec![];
    for _ in 0..n {
        aliens.push(match s.below(9) {
            0 => String::new(),
            1 => "#[hooq::hooq(nowhere)] fn f1() { g()?; }".into(),
            2 => "#[hooq::hooq(trait_use(::rt::A), empty)] fn f1() { g()?; }".into(),
            3 => "#[hooq::hooq] #[hooq::method(.h($nowhere))] fn f1() { g()?; }".into(),
            4 => "#[hooq::hooq(1)] fn f1() { g()?; }".into(),
            _ => profile(s, false).replace("@CAP@", ""),
        });
    }
    let order: Vec<u32> = (0..n + 2).map(|_| s.below(n)).collect();
    json!({"toml": toml.text, "units": units, "aliens": aliens, "order": order})
}

fn slots(texts: &[String]) -> Vec<Unit> {
    let h = texts.iter().map(|t| t.matches('\n').count()).max().unwrap_or(0);
    texts.iter().map(|t| Unit { text: format!("{t}{}", "\n".repeat(h - t.matches('\n').count())) }).collect()
}

/// What an item became, without the absolute line of its messages.
fn lineless(env: &Env, e: &Expanded, i: usize) -> String {
    match &e.outcomes[i] {
        Outcome::Tokens(t) => t.clone(),
        Outcome::Errors(d) => {
            d.iter().map(|d| format!("error at line +{}: {}\n", d.line.saturating_sub(e.batch.lines[i].0), place_free(env, &d.message))).collect()
        }
    }
}

fn c23_judge(env: &Env, case: &Value) -> Verdict {
    let toml = case["toml"].as_str();
    let units = strs(&case["units"]);
    let aliens = strs(&case["aliens"]);
    let n = units.len();
    let order: Vec<usize> = case["order"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0) as usize % n.max(1)).collect();
    let cfg = ExpandCfg { toml, file: FILE, ..Default::default() };
    // every unit alone
    let mut base = vec![];
    for u in &units {
        let e = env.expand(&slots(std::slice::from_ref(u)), &cfg);
        if matches!(&e.outcomes[0], Outcome::Errors(d) if d.is_empty()) || (matches!(&e.outcomes[0], Outcome::Errors(_)) && !env.parses(u)) {
            return Verdict::Discard("not parsed by the compiler");
        }
        base.push(lineless(env, &e, 0));
    }
    let all: Vec<String> = units.iter().chain(&aliens).cloned().collect();
    let h = slots(&all)[0].text.matches('\n').count();
    let pad = |t: &String| Unit { text: format!("{t}{}", "\n".repeat(h.saturating_sub(t.matches('\n').count()))) };
    let mut files: Vec<(&str, Vec<(Option<usize>, Unit)>)> = vec![];
    files.push(("all together", (0..n).map(|i| (Some(i), pad(&units[i]))).collect()));
    for par in 0..2 {
        files.push((
            "among other items",
            (0..n).map(|i| if i % 2 == par { (Some(i), pad(&units[i])) } else { (None, pad(&aliens[i])) }).collect(),
        ));
    }
    let mut moved = vec![];
    for (k, i) in order.iter().enumerate() {
        if k % 2 == 1 {
            moved.push((None, pad(&aliens[k % n])));
        }
        moved.push((Some(*i), pad(&units[*i])));
    }
    files.push(("in another order", moved));
    for (what, f) in files {
        let us: Vec<Unit> = f.iter().map(|x| x.1.clone()).collect();
        let e = env.expand(&us, &cfg);
        if !e.success && e.outcomes.iter().all(|o| matches!(o, Outcome::Errors(_))) && f.iter().any(|x| x.0.is_none() && !env.parses(&x.1.text)) {
            continue;
        }
        for (k, (i, _)) in f.iter().enumerate() {
            let Some(i) = i else { continue };
            let t = lineless(env, &e, k);
            if t != base[*i] {
                return Verdict::Fail(format!("item {i} alone and {what} expands differently: {}", first_difference(&base[*i], &t)));
            }
        }
    }
    let mut tags = vec![];
    if base.iter().any(|t| t.starts_with("error")) {
        tags.push("has an error");
    }
    Verdict::Ok(n > 1 && base.iter().any(|t| !t.starts_with("error")), tags)
}

// ------------------------------------------------------------------------------------------ C22

const PATHS: [&str; 12] = [
    "::rt::A", "rt::B", "crate::a::Ext", "crate::b::Ext", "self::Tr", "super::Tr", "std::fmt::Write", "::std::io::Write", "Tr", "crate::r#mod::T", "été::T", "a::b::c::d::E",
];

fn trait_lists(s: &mut Src, paths: &[&str]) -> Vec<String> {
    let mut args = vec![];
    for _ in 0..s.below(4) {
        let l: Vec<String> = (0..s.below(4)).map(|_| s.pick(paths).to_string()).collect();
        let mut t = l.join(",·");
        if !l.is_empty() && s.chance(25) {
            t.push_str("·,");
        }
        args.push(format!("{}(·{t}·)", if s.chance(50) { "trait_uses" } else { "trait_use" }));
    }
    args
}

fn spelled(s: &mut Src, f: &str) -> String {
    match s.below(3) {
        0 if !f.contains('-') => f.replace('.', "::"),
        1 => format!("flavor =·\"{f}\""),
        _ => format!("flavor =·\"{}\"", f.replace('.', "::")),
    }
}

fn c22_make(s: &mut Src) -> Value {
    // one configuration file per case, all cases of a batch share the compiler process when they share the file
    let toml = if s.chance(60) { Some(tomlgen::toml_case(s)) } else { None };
    let flavors = toml.as_ref().map(|t| t.flavors.clone()).unwrap_or_else(builtin_flavors);
    let mut names = vec!["anyhow", "eyre", "color_eyre", "default", "empty", "log.info", "tracing"].into_iter().map(String::from).collect::<Vec<_>>();
    if let Some(t) = &toml {
        names = t.names.clone();
        names.extend(["anyhow", "eyre"].map(String::from));
    }
    let mut units = vec![];
    for _ in 0..s.range(1, 4) {
        let mut args = trait_lists(s, &PATHS);
        let mut f = "default".to_string();
        for _ in 0..s.weighted(&[3, 5, 1]) {
            f = s.pick(&names).clone();
            let a = spelled(s, &f);
            // the last flavor counts; import lists may come after it
            args.push(a);
            if s.chance(50) && args[0].starts_with("trait_use") {
                let x = args.remove(0);
                args.push(x);
            }
        }
        // expected order: as written
        let mut want = vec![];
        for a in &args {
            if let Some(b) = a.strip_prefix("trait_uses(·").or(a.strip_prefix("trait_use(·")) {
                want.extend(b.trim_end_matches("·)").split(',').map(|x| x.replace('·', "")).filter(|x| !x.is_empty()));
            }
        }
        want.extend(flavor_at(&flavors, &f).map(|f| f.trait_uses.clone()).unwrap_or_default());
        let p = Profile {
            attr_pct: 8,
            attr_w: [1, 1, 1, 1, 1, 1, 1, 1, 1, 8, 0],
            try_pct: 20,
            flavors: names.clone(),
            root_flavor_pct: 0,
            root_method: true,
            ..Default::default()
        };
        let b = s.budget;
        s.budget = b.min(12);
        let l = lay(s);
        let t = G::new(s, p).root();
        s.budget = b;
        let t = t.replacen("#[hooq::hooq]", &format!("#[hooq::hooq(·{}·)]", args.join("·,·")), 1).replace("@CAP@", "");
        let t = layout(&t, l);
        if !parses(&t) {
            continue;
        }
        units.push(json!({"text": t, "imports": want}));
    }
    json!({"toml": toml.map(|t| t.text), "units": units})
}

fn c22_judge(env: &Env, data: &[Value]) -> Vec<Verdict> {
    data.iter().map(|d| c22_one(env, d)).collect()
}

fn c22_one(env: &Env, d: &Value) -> Verdict {
    let toml = d["toml"].as_str();
    let units = d["units"].as_array().cloned().unwrap_or_default();
    if units.is_empty() {
        return Verdict::Discard("not parsed by syn");
    }
    let mut text = String::from(PRELUDE);
    for (i, u) in units.iter().enumerate() {
        // a leading item shows that nothing is put before it either
        text.push_str(&format!("mod u{i} {{\nstruct Before;\n{}\nstruct After;\n}}\n", u["text"].as_str().unwrap_or("")));
    }
    let (out, diags) = env.unpretty(&text, &ExpandCfg { toml, file: FILE, ..Default::default() });
    let bad: Vec<&Diag> = diags.iter().filter(|d| d.level.starts_with("error") && d.message.starts_with("proc-macro")).collect();
    if let Some(b) = bad.first() {
        return Verdict::Fail(format!("the macro panicked: {}", b.message));
    }
    let Ok(f) = syn::parse_file(&out) else {
        if units.iter().any(|u| !env.parses(u["text"].as_str().unwrap_or(""))) {
            return Verdict::Discard("not parsed by the compiler");
        }
        return Verdict::Discard("expansion not parsed by syn");
    };
    let mut n = 0;
    for (i, u) in units.iter().enumerate() {
        let want: Vec<String> = strs(&u["imports"]);
        let m = f.items.iter().find_map(|x| match x {
            syn::Item::Mod(m) if m.ident == format!("u{i}") => Some(m),
            _ => None,
        });
        let Some((_, items)) = m.and_then(|m| m.content.as_ref()) else {
            return Verdict::Fail(format!("module u{i} disappeared"));
        };
        let mut got = vec![];
        let struct_named = |it: &syn::Item, n: &str| matches!(it, syn::Item::Struct(s) if s.ident == n);
        if !items.first().is_some_and(|x| struct_named(x, "Before")) || !items.last().is_some_and(|x| struct_named(x, "After")) {
            return Verdict::Fail(format!("something was put before or after the items around: {}", items.iter().map(|x| quote::ToTokens::to_token_stream(x).to_string()).collect::<Vec<_>>().join(" ")));
        }
        let inner = &items[1..items.len() - 1];
        if inner.is_empty() {
            let m: Vec<&str> = diags.iter().map(|d| d.message.as_str()).collect();
            return Verdict::Fail(format!("valid input was rejected: {m:?}\n{}", u["text"].as_str().unwrap_or("")));
        }
        for (k, it) in inner.iter().enumerate() {
            let t = quote::ToTokens::to_token_stream(it).to_string().replace(' ', "");
            if k + 1 < inner.len() {
                got.push(t);
            } else if t.contains("asas_;") || matches!(it, syn::Item::Use(_)) {
                return Verdict::Fail(format!("the item itself is missing: {t}"));
            }
        }
        let exp: Vec<String> = want.iter().map(|p| format!("#[allow(unused)]use{p}as_;")).collect();
        if got != exp {
            return Verdict::Fail(format!("expected imports {exp:?}\nfound {got:?}\nfor {}", u["text"].as_str().unwrap_or("")));
        }
        n += want.len();
    }
    Verdict::Ok(n > 1, if n > 4 { vec!["more than 4 imports"] } else { vec![] })
}

/// Traits spread over modules, used by the hook of an item that does not import them.
fn c22_run_make(s: &mut Src) -> Value {
    // trait i: module, name (names may collide between modules)
    let n = s.range(1, 6);
    let mut traits: Vec<(String, String)> = vec![];
    for i in 0..n {
        let m = format!("m{}", s.below(3));
        let name = s.pick(&["Ext", "Hook", "Tr"]).to_string();
        let name = if traits.iter().any(|t| t.0 == m && t.1 == name) { format!("{name}{i}") } else { name };
        traits.push((m, name));
    }
    let via_flavor: Vec<bool> = (0..n).map(|_| s.chance(40)).collect();
    let unused: Vec<bool> = (0..n).map(|_| s.chance(25)).collect();
    let lists = s.range(1, 2);
    let target = s.below(3);
    json!({"traits": traits, "via_flavor": via_flavor, "unused": unused, "lists": lists, "spell": s.below(2), "target": target})
}

fn c22_run_judge(env: &Env, data: &[Value]) -> Vec<Verdict> {
    data.iter().map(|d| c22_run_one(env, d)).collect()
}

fn c22_run_one(env: &Env, d: &Value) -> Verdict {
    let traits: Vec<(String, String)> = serde_json::from_value(d["traits"].clone()).unwrap_or_default();
    let via: Vec<bool> = serde_json::from_value(d["via_flavor"].clone()).unwrap_or_default();
    let unused: Vec<bool> = serde_json::from_value(d["unused"].clone()).unwrap_or_default();
    let mut mods: BTreeMap<String, String> = BTreeMap::new();
    let mut method = String::new();
    let (mut root, mut fl) = (vec![], vec![]);
    for (i, (m, t)) in traits.iter().enumerate() {
        mods.entry(m.clone()).or_default().push_str(&format!(
            "pub trait {t}: Sized {{ fn t{i}(self) -> Self; }}\nimpl<X> {t} for X {{ fn t{i}(self) -> Self {{ crate::log({i}); self }} }}\n"
        ));
        if !unused[i] {
            method.push_str(&format!(".t{i}()"));
        }
        let p = format!("crate::{m}::{t}");
        if via[i] { fl.push(p) } else { root.push(p) }
    }
    if method.is_empty() {
        method.push_str(".map(|v| v)");
    }
    let toml = format!("[f]\nmethod = \"{method}\"\ntrait_uses = {fl:?}\n");
    let word = if d["spell"] == 1 { "trait_uses" } else { "trait_use" };
    let k = if d["lists"] == 2 { root.len() / 2 } else { 0 };
    let mut args = vec!["f".to_string()];
    for l in [&root[..k], &root[k..]] {
        if !l.is_empty() {
            args.push(format!("{word}({})", l.join(", ")));
        }
    }
    let body = match d["target"].as_u64() {
        Some(0) => "let v = step(1)?; Ok(v)",
        Some(1) => "if true { return step(1); } Ok(2)",
        _ => "step(1)",
    };
    let mut t = String::from("#![deny(warnings)]\n#![allow(dead_code)]\nuse std::cell::RefCell;\nthread_local! { static LOG: RefCell<Vec<usize>> = const { RefCell::new(vec![]) } }\npub fn log(i: usize) { LOG.with(|l| l.borrow_mut().push(i)) }\n");
    for (m, b) in &mods {
        t.push_str(&format!("pub mod {m} {{\n{b}}}\n"));
    }
    t.push_str(&format!(
        "mod user {{\nfn step(n: i32) -> Result<i32, String> {{ Ok(n) }}\n#[hooq::hooq({})]\npub fn f() -> Result<i32, String> {{ {body} }}\n}}\nfn main() {{ user::f().unwrap(); LOG.with(|l| println!(\"{{:?}}\", l.borrow())); }}\n",
        args.join(", ")
    ));
    let want = format!("{:?}\n", (0..traits.len()).filter(|i| !unused[*i]).collect::<Vec<_>>());
    match env.run_program(&t, Some(&toml), false, &[], &[]) {
        Ok(r) if r.stdout == want => Verdict::Ok(traits.len() > 1, vec![]),
        Ok(r) => Verdict::Fail(format!("expected {want} found {:?}\n{t}\n{toml}", r)),
        Err(e) => Verdict::Fail(format!("does not compile without warnings: {:?}\n{t}\n{toml}", e.first().map(|d| &d.message))),
    }
}
