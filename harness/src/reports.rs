//! C24: the reports of the built-in flavors, compared with reports written by hand at the marks of random programs.
use crate::batch::Check;
use crate::engine::*;
use crate::excerpt::{self, Opts, Tok};
use crate::expandck::*;
use crate::prog;
use crate::src::Src;
use serde_json::{Value, json};

const STD: [(&str, &str, &str); 16] = [
    // (argument of the attribute, kind, level)
    ("", "default", ""),
    ("(default)", "default", ""),
    ("(flavor = \"default\")", "default", ""),
    ("(log)", "log", "ERROR"),
    ("(log::error)", "log", "ERROR"),
    ("(log::warn)", "log", "WARN"),
    ("(log::info)", "log", "INFO"),
    ("(flavor = \"log.debug\")", "log", "DEBUG"),
    ("(flavor = \"log::trace\")", "log", "TRACE"),
    ("(tracing)", "tracing", "ERROR"),
    ("(tracing::error)", "tracing", "ERROR"),
    ("(flavor = \"tracing.warn\")", "tracing", "WARN"),
    ("(tracing::info)", "tracing", "INFO"),
    ("(tracing::debug)", "tracing", "DEBUG"),
    ("(tracing::trace)", "tracing", "TRACE"),
    ("(log) ] #[hooq::level = ::log::Level::Warn", "log", "WARN"),
];
const ANYHOW: [(&str, &str, &str); 2] = [("(anyhow)", "anyhow", ""), ("(flavor = \"anyhow\")", "anyhow", "")];
const EYRE: [(&str, &str, &str); 2] = [("(eyre)", "eyre", ""), ("(flavor = \"eyre\")", "eyre", "")];
const COLOR: [(&str, &str, &str); 2] = [("(color_eyre)", "eyre", ""), ("(flavor = \"color_eyre\")", "eyre", "")];

fn forms(family: &str) -> &'static [(&'static str, &'static str, &'static str)] {
    match family {
        "std" => &STD,
        "anyhow" => &ANYHOW,
        "eyre" => &EYRE,
        _ => &COLOR,
    }
}

const SINKS: &str = r##"
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { eprintln!("LOG {} {}", r.level(), r.args()); }
    fn flush(&self) {}
}
struct Events;
struct Fields(String);
impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) { self.0.push_str(&format!(" {}={v:?}", f.name())); }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) { self.0.push_str(&format!(" {}={v}", f.name())); }
}
impl tracing::Subscriber for Events {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut f = Fields(String::new());
        e.record(&mut f);
        eprintln!("EVENT {}{}", e.metadata().level(), f.0);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn one(name: &str, unit: usize, f: fn()) {
    for input in 0..INPUTS {
        INPUT.set(input);
        STEPS.set(0);
        eprintln!("\u{1}{name} {unit} {input}");
        if std::panic::catch_unwind(f).is_err() { eprintln!("panic") }
    }
}
"##;

fn any_errors(krate: &str, ty: &str, mac: &str) -> String {
    let shows = &prog::ERRORS[prog::ERRORS.find("pub fn es").unwrap()..];
    let shows = shows.replace("{e:?}", "{e:#}");
    format!(
        "pub type E = {krate}::{ty};\n#[allow(non_snake_case)] pub fn E(n: i64) -> E {{ {krate}::{mac}!(\"error {{n}}\") }}\npub fn code(e: &E) -> i64 {{ let s = format!(\"{{e:#}}\"); log(&s); s.len() as i64 }}\n{shows}"
    )
}

fn errors(family: &str) -> (String, &'static str) {
    match family {
        "std" => (prog::ERRORS.to_string(), ""),
        "anyhow" => (any_errors("anyhow", "Error", "anyhow"), "use anyhow::Context as _;"),
        "eyre" => (any_errors("eyre", "Report", "eyre"), "use eyre::WrapErr as _;"),
        _ => (any_errors("color_eyre::eyre", "Report", "eyre"), "use color_eyre::eyre::WrapErr as _;"),
    }
}

fn make(s: &mut Src, family: &str) -> Value {
    let k = s.below(forms(family).len() as u32);
    s.budget = 6 + s.below(60) as i64;
    let p = prog::Gen::new(s, prog::Cfg { options: false, skips: false, copy_err: family == "std", bindings: false }).unit_prog();
    let t = prog::spread(&p.text, s);
    json!({"text": t, "run": p.run, "form": k, "family": family})
}

/// the source with everything else blanked, so that places stay
pub fn source_expr(text: &str, start: (usize, usize), end: (usize, usize)) -> Option<syn::Expr> {
    let mut out = "\n".repeat(start.0 - 1);
    for (i, l) in text.split('\n').enumerate() {
        let n = i + 1;
        if n < start.0 || n > end.0 {
            continue;
        }
        let a = if n == start.0 { start.1 } else { 0 };
        let b = if n == end.0 { end.1 } else { usize::MAX };
        out.push_str(&" ".repeat(a));
        out.extend(l.chars().skip(a).take(b - a));
        out.push('\n');
    }
    syn::parse_str(&out).ok()
}

pub fn tokens_between(all: &[Tok], start: (usize, usize), end: (usize, usize)) -> Vec<Tok> {
    all.iter().filter(|t| (t.line, t.col) >= start && (t.line, t.col) < end).cloned().collect()
}

fn hand_hook(kind: &str, level: &str, path: &str, line: usize, col: usize, ex: &str, one: &str) -> String {
    match kind {
        "default" => format!("(@).inspect_err(|e| eprintln!(\"[{{}}:{{}}:{{}}] {{e:?}}\\n{{}}\", {path:?}, {line}, {col}, {ex:?}))"),
        "log" => format!("(@).inspect_err(|e| eprintln!(\"LOG {level} ({{}}:{{}}:{{}}) {{e}}\\n{{}}\", {path:?}, {line}, {col}, {ex:?}))"),
        "tracing" => format!("(@).inspect_err(|e| eprintln!(\"EVENT {level} path={{}} line={{}} col={{}} error={{e}} expr={{}}\", {path:?}, {line}, {col}, {one:?}))"),
        "anyhow" => format!("(@).with_context(|| format!(\"[{{}}:{{}}:{{}}]\\n{{}}\", {path:?}, {line}, {col}, {ex:?}))"),
        _ => format!("(@).wrap_err_with(|| format!(\"[{{}}:{{}}:{{}}]\\n{{}}\", {path:?}, {line}, {col}, {ex:?}))"),
    }
}

fn program(cases: &[Value], annotate: bool) -> String {
    let family = cases[0]["family"].as_str().unwrap();
    let (errs, import) = errors(family);
    let prelude = prog::PRELUDE
        .replace("LOG.with_borrow_mut(|l| l.push(s.to_string()));", "eprintln!(\"- {s}\");")
        .replace("LOG.with_borrow_mut(|l| l.push(format!(\"drop {}\", self.0)));", "eprintln!(\"- drop {}\", self.0);")
        .replace("> 3000", "> 300");
    let mut t = format!("#![allow(warnings)]\n{prelude}{errs}{SINKS}const INPUTS: u64 = 8;\nmod hooked {{ use super::*;\n");
    let (mut hand, mut main) = (String::new(), String::new());
    for (i, c) in cases.iter().enumerate() {
        let (text, run) = (c["text"].as_str().unwrap(), c["run"].as_str().unwrap());
        let (arg, kind, level) = forms(family)[c["form"].as_u64().unwrap() as usize];
        let lines = t.matches('\n').count();
        let root = if annotate { format!("#[hooq::hooq{arg}]") } else { String::new() };
        let marked = format!("{}pub mod u{i} {{ use super::*; {} pub fn run() {{ {run} }} }}\n", "\n".repeat(lines), text.replace("@ROOT@", &root));
        let full = prog::annotated(&marked);
        let all = excerpt::toks(full.parse().expect("lexes"));
        let mut hooks = std::collections::HashMap::new();
        for p in prog::places(&marked) {
            let ts = tokens_between(&all, p.start, p.end);
            let e = source_expr(&full, p.start, p.end).unwrap_or_else(|| panic!("the target does not parse: {p:?} {full}"));
            let ex = excerpt::expected("excerpted_pretty_stringify", &Opts::default(), ts.clone(), &e);
            let one = excerpt::expected("one_line_stringify", &Opts::default(), ts, &e);
            hooks.insert(p.index, hand_hook(kind, level, "src/main.rs", p.at.0, p.at.1 + 1, &ex, &one));
        }
        let m = format!("pub mod u{i} {{ use super::*; {} pub fn run() {{ {run} }} }}\n", text.replace("@ROOT@", ""));
        let m = prog::by_hand(&m, |_, k| hooks[&k].clone()).replace("use super::*;", &format!("use super::*; {import}"));
        hand.push_str(&m);
        t.push_str(&full[lines..]);
        main.push_str(&format!("one(\"hooked\", {i}, hooked::u{i}::run); one(\"hand\", {i}, hand::u{i}::run);\n"));
    }
    format!(
        "{t}}}\nmod hand {{ use super::*;\n{hand}}}\nfn main() {{ std::panic::set_hook(Box::new(|_| ())); log::set_logger(&Log).unwrap(); log::set_max_level(log::LevelFilter::Trace); tracing::subscriber::set_global_default(Events).unwrap();\n{main} }}\n"
    )
}

pub fn judge(env: &Env, cases: &[Value]) -> Vec<Verdict> {
    let out = match env.run_program(&program(cases, true), None, false, &[], &[]) {
        Ok(o) => o,
        Err(d) => {
            if cases.len() > 1 {
                let m = cases.len() / 2;
                let mut v = judge(env, &cases[..m]);
                v.extend(judge(env, &cases[m..]));
                return v;
            }
            return vec![match env.run_program(&program(cases, false), None, false, &[], &[]) {
                Err(p) => {
                    if std::env::var_os("HV_PANIC").is_some() {
                        eprintln!("NOT TYPED: {}", p[0].rendered);
                    }
                    Verdict::Discard("not well typed")
                }
                Ok(_) => Verdict::Fail(format!("compiles with hooks written by hand, not with the attribute: {}", d[0].rendered)),
            }];
        }
    };
    let mut runs = std::collections::HashMap::new();
    for b in out.stderr.split('\u{1}').skip(1) {
        let (head, body) = b.split_once('\n').unwrap_or((b, ""));
        runs.insert(head.to_string(), body.to_string());
    }
    let mut res = vec![];
    for (i, c) in cases.iter().enumerate() {
        let (mut reports, mut silent) = (0, 0);
        let mut bad = None;
        for input in 0..8 {
            let (Some(a), Some(m)) = (runs.get(&format!("hooked {i} {input}")), runs.get(&format!("hand {i} {input}"))) else {
                bad = Some(format!("the program stopped: {:?}", out.code));
                break;
            };
            if a != m {
                let d = a.lines().zip(m.lines()).position(|(x, y)| x != y).unwrap_or(0);
                let cut = |s: &str| s.lines().skip(d.saturating_sub(4)).take(8).collect::<Vec<_>>().join("\n");
                bad = Some(format!("input {input}: with the flavor\n{}\n### expected\n{}", cut(a), cut(m)));
                break;
            }
            let n = m.lines().filter(|l| l.starts_with("[src/") || l.starts_with("LOG ") || l.starts_with("EVENT ") || l.contains("[src/main.rs:")).count();
            reports += n;
            silent += usize::from(n == 0);
        }
        res.push(match bad {
            Some(m) => Verdict::Fail(m),
            None => {
                let mut tags = vec![forms(c["family"].as_str().unwrap())[c["form"].as_u64().unwrap() as usize].1];
                if silent > 0 {
                    tags.push("runs without errors");
                }
                if reports >= 10 {
                    tags.push("10 reports");
                }
                Verdict::Ok(reports > 0, tags)
            }
        });
    }
    res
}

pub fn checks() -> Vec<Check> {
    let c = |name, quick, make| Check { name, quick, budget: 1, batch: 20, make, judge };
    vec![
        c("default, log and tracing", 1800, |s: &mut Src| make(s, "std")),
        c("anyhow", 500, |s: &mut Src| make(s, "anyhow")),
        c("eyre", 400, |s: &mut Src| make(s, "eyre")),
        c("color_eyre", 200, |s: &mut Src| make(s, "color_eyre")),
    ]
}
