//! C15: what is accepted and what is rejected. Attributes at every position, in documented and in malformed
//! forms whose validity is known by construction, random token sequences judged by the model, configuration files.
use crate::batch::Check;
use crate::engine::*;
use crate::expandck::*;
use crate::src::Src;
use crate::tomlgen;
use serde_json::{Value, json};

/// Places for attributes; every one governs at least one hooked `?` and none is skipped.
const PLACES: [&str; 44] = [
    "@A@ fn f1(·) -> Result<u8,·u8> { g(·)?;·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ let x =·g(·)?;·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ let Some(x) =·g(·)? else { return Err(1) };·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ g(·)?;·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ { g(·)?; }·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ if g(·)? { 1 } else { 2 };·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ match g(·)? { _ => 1 };·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { match x { @A@ _ => g(·)?,·};·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { match x { @A@ 1 if g(·)? => 2,·_ => 3 };·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ loop { g(·)?; }·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ while g(·)? { }·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ for i in g(·)? { }·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { f(·@A@ g(·)?,·1);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { x.f(·1,·@A@ g(·)?·);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { [·1,·@A@ g(·)?·];·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { (·@A@ g(·)?,·1·);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { S { @A@ a:·g(·)?,·b:·1 };·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { let c =·@A@ || -> Result<u8,·u8> { g(·)?;·Ok(1) };·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { let c =·f(·@A@ |x| g(·x·)?·);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ fn n(·) -> Result<u8,·u8> { g(·)?;·Ok(1) }·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ unsafe { g(·)?; }·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { let x =·@A@ async { g(·)?; };·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { let x =·(·@A@ &g(·)?·);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { f(·@A@ (g(·)?)·);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { f(·@A@ g(·)?.x.y(·z·)[·0·]·);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { f(·@A@ g(·g(·)?·)?·);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ m!(·g(·)?·);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { let x =·f(·@A@ m![·g(·)?,·1·]·);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { m!(·@A@ g(·)?,·1·);·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { m! { @A@ fn n(·) { g(·)?; } };·Ok(1) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ return Err(·g(·)?·); }",
    "fn f1(·) -> Result<u8,·u8> { @A@ Err(·g(·)?·) }",
    "fn f1(·) -> Result<u8,·u8> { @A@ const C:·u8 =·g(·)?;·Ok(1) }",
    "@A@ impl S { fn f1(·) -> Result<u8,·u8> { g(·)?;·Ok(1) } }",
    "impl S { @A@ fn f1(·) -> Result<u8,·u8> { g(·)?;·Ok(1) } }",
    "impl S { @A@ const C:·u8 =·g(·)?; }",
    "@A@ trait T { fn f1(·) -> Result<u8,·u8> { g(·)?;·Ok(1) } }",
    "trait T { @A@ fn f1(·) -> Result<u8,·u8> { g(·)?;·Ok(1) } }",
    "trait T { @A@ const C:·u8 =·g(·)?; }",
    "@A@ mod m { fn f1(·) -> Result<u8,·u8> { g(·)?;·Ok(1) } }",
    "mod m { @A@ fn f1(·) -> Result<u8,·u8> { g(·)?;·Ok(1) } }",
    "mod m { impl S { fn f1(·) -> Result<u8,·u8> { @A@ if x { g(·)?; }·Ok(1) } } }",
    "@A@ const C:·u8 =·g(·)?;",
    "@A@ static C:·u8 =·f(·||·g(·)?·);",
];

/// Places that govern nothing; only attributes that are malformed in themselves are rejected there.
const IDLE_PLACES: [&str; 12] = [
    "fn f1(·) { @A@ let x; }",
    "fn f1(·) { @A@ x; }",
    "fn f1(·) { f(·@A@ 1·); }",
    "fn f1(·) { f(·@A@ \"s\"·); }",
    "fn f1(·) { @A@ struct S; }",
    "fn f1(·) { @A@ use a::b; }",
    "@A@ fn f1(·) { }",
    "fn f1(·) { match x { @A@ _ => 1 }; }",
    "trait T { @A@ fn f1(·); }",
    "impl S { @A@ type X =·u8; }",
    "mod m { @A@ enum E { A } }",
    "@A@ mod m { }",
];

const VALUES: [&str; 16] = [
    "1",
    "-1",
    "\"t\"",
    "'c'",
    "x",
    "a::b::<u8>",
    "|e|·{·e·}",
    "{·1·}",
    "(·1,·2·)",
    "[·1;·2·]",
    "S {·a:·1·}",
    "if x { 1 } else { 2 }",
    "m!(·1 2·)",
    "x as u8",
    "async move { g()? }",
    "return",
];

const FLAVORS: [&str; 10] = ["default", "empty", "hook", "anyhow", "eyre", "log", "log.warn", "tracing", "tracing.debug", "color_eyre"];

fn strings(s: &mut Src, pool: &[&str]) -> String {
    let n = s.below(4);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let x = *s.pick(pool);
        v.push(match s.below(5) {
            0 => format!("r\"{x}\""),
            1 => format!("r#\"{x}\"#"),
            2 if x.len() > 1 && x.is_ascii() => format!("\"\\u{{{:x}}}{}\"", x.as_bytes()[0], &x[1..]),
            _ => format!("\"{x}\""),
        });
    }
    let mut t = v.join("·,·").replace("ail expr", "ail␠expr");
    if n > 0 && s.chance(25) {
        t.push_str("·,");
    }
    t
}

const TARGETS: [&str; 8] = ["?", "question", "return", "tail_expr", "tail expr", "tailexpr", "tailExpr", "all"];
const NAMES: [&str; 8] = ["Err", "!Err", "Ok", "!Ok", "", "a b", "é", "!"];

fn flavor(s: &mut Src) -> String {
    let f = *s.pick(&FLAVORS);
    match s.below(3) {
        0 => f.replace('.', "·::·"),
        1 => format!("\"{f}\""),
        _ => format!("\"{}\"", f.replace('.', "::")),
    }
}

fn good_method(s: &mut Src) -> String {
    let v = *s.pick(&[
        "$line", "$column", "$col", "$path", "$file", "$source", "$count", "$nth", "$fn_name", "$fnname", "$fn_sig", "$fnsig", "$expr", "$t0", "$bindings", "$hooq_meta",
    ]);
    let t = match s.below(16) {
        0 => ".h1(·@·)",
        1 => ".h1",
        2 => ".0",
        3 => ".await",
        4 => ".h1(·)?.h2(·@·)",
        5 => ".h1::<Vec<u8>>(·|e| {·let x =·@;·return g(·x·)·}·)[·0·].await",
        6 => "h1(·$expr,·@·)",
        7 => "match $expr { Ok(v) if v == @ =>·v,·Err(e) =>·return Err(·e·),·_ =>·{·1·}·}",
        8 => "$expr",
        9 => "{·let x =·$expr;·h1!(·x;·@·);·x·}",
        10 => "-·$expr + 1",
        11 => "{·@·;·}",
        12 => "h1!(·$expr => @·)",
        13 => "h1![·@ # '·'·]",
        14 => "[·$expr,·{·(·@·)·}·]",
        _ => "1",
    };
    // `$source` stands for arbitrary tokens and is fit for macros only
    let v = if v == "$source" && !t.contains('!') { "$line" } else { v };
    t.replace('@', v).replace("'·'", "'␠'")
}

/// A documented form.
fn good(s: &mut Src) -> String {
    let b = match s.below(12) {
        0 | 1 => format!("hooq::method(·{}·)", good_method(s)),
        2 => format!("hooq::hook_targets(·{}·)", strings(s, &TARGETS)),
        3 => format!("hooq::tail_expr_idents(·{}·)", strings(s, &NAMES)),
        4 => format!("hooq::ignore_tail_expr_idents(·{}·)", strings(s, &NAMES)),
        5 => format!("hooq::result_types(·{}·)", strings(s, &NAMES)),
        6 => format!("hooq::hook_in_macros(·{}·)", s.pick(&["true", "false"])),
        7 => format!("hooq::{}(·{} =·{}·)", s.pick(&["binding", "var"]), s.pick(&["t0", "x", "été", "method", "r#fn", "line"]), s.pick(&VALUES)),
        8 => format!("hooq::{} =·{}", s.pick(&["t0", "x", "été", "x_y2"]), s.pick(&VALUES)),
        // (methods of flavors with bindings of their own need these)
        9 if s.chance(20) => format!("hooq::method =·{}", s.pick(&["default", "empty", "hook", "anyhow", "\"color_eyre\""])),
        9 => format!("hooq::{} =·{}", s.pick(&["flavor", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"]), flavor(s)),
        // (skip and skip_all would make the place idle)
        10 => "allow(·unused·)".into(),
        _ => "keep::hooq(·hooq::nothing·)".into(),
    };
    format!("#[·{b}·]·")
}

const BAD_FLAVORS: [&str; 22] = [
    "nowhere",
    "\"nowhere\"",
    "\"\"",
    "\"log..warn\"",
    "\"log::\"",
    "\".log\"",
    "\"log.warn.\"",
    "\"log:warn\"",
    "\"Log\"",
    "\"log␠\"",
    "log::nowhere",
    "nowhere::log",
    "log::warn::error",
    "log::<u8>",
    "log::warn::<u8>",
    "1",
    "log(·)",
    "log!(·)",
    "(log)",
    "'l'",
    "b\"log\"",
    "&log",
];

const BAD_METHODS: [&str; 34] = [
    "",
    ".",
    "1 +",
    ".h1(·)·;",
    "$expr·;",
    "h1(·$expr·) h2(·)",
    "let x",
    "fn",
    "struct S;",
    ",",
    "=> 1",
    ".h1(·) => 1",
    ".h1(·,·)",
    ".h1(·1 2·)",
    ".h1(·)·!",
    "$expr $expr",
    "$expr.",
    ".h1(·|| {·let x =·;·}·)",
    ".h1(·#·)",
    ".h1(·$nowhere·)",
    ".h1(·$Line·)",
    ".h1(·$·)",
    ".h1(·$,·1·)",
    ".h1(·$1·)",
    ".h1(·$$line·)",
    ".h1(·$\"s\"·)",
    ".h1(·$(·line·)·)",
    ".h1(·[·{·$nowhere·}·]·)",
    "h1!(·$nowhere·)",
    "$",
    "$nowhere",
    ".h1(·)·$",
    "match $expr {·_ =>·}",
    ".h1(·$line $·)",
];

/// A malformed form; the flag says whether it is rejected even where it governs nothing.
fn bad(s: &mut Src) -> (String, bool) {
    let mut own = true;
    let b = match s.below(12) {
        0..=2 => {
            own = false;
            format!("hooq::method(·{}·)", s.pick(&BAD_METHODS))
        }
        3 => {
            let k = *s.pick(&["flavor", "method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"]);
            format!("hooq::{k} =·{}", s.pick(&BAD_FLAVORS))
        }
        4 => format!(
            "hooq::hook_targets(·{}·)",
            s.pick(&["\"x\"", "\"Return\"", "\"␠?\"", "\"\"", "\"??\"", "\"!?\"", "\"tail-expr\"", "\"?\",·\"x\"", "return", "?", "\"?\" \"return\"", ",", "\"?\",·,", "'?'", "b\"?\"", "[·\"?\"·]", "\"?\";·\"return\"", "\"none\""])
        ),
        5 => {
            let k = *s.pick(&["tail_expr_idents", "ignore_tail_expr_idents", "result_types"]);
            format!("hooq::{k}(·{}·)", s.pick(&["Err", "1", "\"a\" \"b\"", "[·\"Err\"·]", ",", "\"a\",·,", "'c'", "!\"Err\"", "true"]))
        }
        6 => format!("hooq::hook_in_macros(·{}·)", s.pick(&["", "yes", "\"true\"", "true,·false", "1", "!true", "(·true·)", "True", "true,"])),
        7 => {
            let k = *s.pick(&["binding", "var"]);
            format!("hooq::{k}(·{}·)", s.pick(&["", "x", "x =", "a::b =·1", "x =·1,·y =·2", "\"x\" =·1", "x:·1", "x =·1 2", "=·1", "x(·1·)", "x +=·1", "::x =·1", "hooq::x =·1"]))
        }
        8 => format!(
            "hooq::{}",
            s.pick(&["skipp", "skip_al", "nothing", "method", "flavor", "bindings", "binding", "var", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "r#skip", "Skip", "log"])
        ),
        9 => format!(
            "hooq::{}",
            s.pick(&[
                "skip(·)", "skip(·x·)", "skip_all(·)", "skip_all(·1·)", "nothing(·)", "hook_target(·\"?\"·)", "flavor(·log·)", "flavor(·\"log\"·)", "bindings(·x =·1·)", "bind(·x =·1·)", "methods(·.x(·)·)", "t0(·1·)",
                "result_type(·\"R\"·)", "hook_in_macro(·true·)", "tail_expr_ident(·\"E\"·)", "trait_use(·a::B·)", "skip {·}", "nothing[·]"
            ])
        ),
        10 => format!("hooq::{}", s.pick(&["a::b", "skip::x", "a::b =·1", "method::x(·.h1(·)·)", "flavor::x =·log", "a::b::c", "binding::x(·y =·1·)", "x::t0 =·1"])),
        _ => format!("hooq::ignore_tail_expr_idents =·{}", flavor(s)),
    };
    (format!("#[·{b}·]·"), own)
}

const ROOT: &str = "#[hooq::hooq] @CAP@ #[hooq::method(.h0())] #[hooq::t0 = 1] ";

pub fn documented(s: &mut Src, _: &[String]) -> String {
    if s.chance(25) {
        // arguments of the attribute itself
        let mut v = vec![];
        for _ in 0..s.below(4) {
            v.push(match s.below(4) {
                0 => flavor(s).replace("\"", ""),
                1 => format!("flavor =·\"{}\"", s.pick(&["log", "log.warn", "log::warn", "default", "anyhow"])),
                _ => format!("{}(·{}·)", s.pick(&["trait_use", "trait_uses"]), s.pick(&["", "a::B", "::a::B,·c", "A,·", "crate::x::Y,·self::z,·super::W"])),
            });
        }
        // names in path form
        let v: Vec<String> = v.into_iter().map(|x| if x.contains('=') || x.contains('(') { x } else { x.replace('.', "::") }).collect();
        let mut t = v.join("·,·");
        if !v.is_empty() && s.chance(25) {
            t.push_str("·,");
        }
        let p = s.pick(&PLACES).replace("@A@ ", "");
        return format!("#[hooq::hooq(·{t}·)] /*ok*/ @CAP@ {p}");
    }
    let mut a = String::new();
    for _ in 0..s.range(1, 4) {
        a.push_str(&good(s));
    }
    let idle = s.chance(15);
    let p = if idle { s.pick(&IDLE_PLACES) } else { s.pick(&PLACES) };
    let n = p.matches("@A@").count();
    debug_assert_eq!(n, 1);
    format!("{}/*ok*/ {}", ROOT, p.replace("@A@ ", &a))
}

pub fn malformed(s: &mut Src, _: &[String]) -> String {
    if s.chance(20) {
        let b = match s.below(3) {
            0 => (*s.pick(&BAD_FLAVORS)).to_string(),
            1 => format!("flavor =·{}", s.pick(&BAD_FLAVORS)),
            _ => s
                .pick(&[
                    "flavor =·log", "flavor", "flavor(·\"log\"·)", "flavor =·\"log\" 1", "trait_use", "trait_use =·A", "trait_use =·\"A\"", "trait_use(·\"A\"·)", "trait_use(·1·)", "trait_use(·A B·)", "trait_use(·A;·B·)",
                    "trait_use(·,·)", "trait_use(·A,·,·)", "trait_uses(·use A·)", "uses(·A·)", "trait_Use(·A·)", "log,·,", ",", "log warn", "log.warn", "method(·.x(·)·)", "skip(·)", "x =·1", "hook_targets(·\"?\"·)", "flavors =·\"log\"",
                    "a::trait_use(·A·)", "log;·warn", "{·}", "!", "default =·\"log\"",
                ])
                .to_string(),
        };
        // parts before it do not help; no flavor after it, which would take its place
        let pre = *s.pick(&["", "trait_use(·a::B·),·", "log,·", "flavor =·\"anyhow\",·"]);
        let post = *s.pick(&["", ",·trait_use(·a::B·)", ",·trait_uses(·)"]);
        let p = s.pick(&PLACES).replace("@A@ ", "");
        // a method of its own: the presets' ones are as good
        return format!("#[hooq::hooq(·{pre}{b}{post}·)] /*bad*/ @CAP@ {p}");
    }
    let mut a = String::new();
    let (b, own) = bad(s);
    let method = b.contains("hooq::method(");
    let n = s.below(4);
    let at = s.below(n + 1);
    for i in 0..=n {
        if i == at {
            a.push_str(&b);
            continue;
        }
        let g = good(s);
        // nothing that would take its place or switch it off
        if method && ["method", "flavor", "hook_targets", "hook_in_macros"].iter().any(|k| g.contains(k)) {
            continue;
        }
        a.push_str(&g);
    }
    let idle = own && s.chance(20);
    let p = if idle { s.pick(&IDLE_PLACES) } else { s.pick(&PLACES) };
    format!("{}/*bad*/ {}", ROOT, p.replace("@A@ ", &a))
}

const SOUP: [&str; 62] = [
    "$line", "$expr", "$t0", "$", "$nowhere", "x", "h1", "Err", "log", "warn", "default", "nowhere", "self", "r#fn", "_", "fn", "let", "if", "else", "match", "return", "move", "async", "await", "true", "false", "1", "1.5", "\"s\"", "\"?\"",
    "\"log\"", "'c'", "'a", ".", "..", ",", ";", ":", "::", "=", "==", "=>", "->", "!", "?", "#", "&", "&&", "|", "||", "<", ">", "+", "-", "*", "@", "$so_far", "$source", "$count", "hooq", "method", "trait_use",
];

fn soup(s: &mut Src, depth: u32, out: &mut String) {
    for _ in 0..s.below(7) {
        if depth < 3 && s.chance(18) {
            let (o, c) = *s.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
            out.push_str(o);
            out.push('·');
            soup(s, depth + 1, out);
            out.push_str(c);
        } else {
            out.push_str(*s.pick(&SOUP));
        }
        // kept apart, so that the tokens are the ones above
        out.push(' ');
    }
}

pub fn random_tokens(s: &mut Src, _: &[String]) -> String {
    let mut t = String::new();
    soup(s, 0, &mut t);
    let p = s.pick(&PLACES);
    let k = match s.below(12) {
        0 => return format!("#[hooq::hooq(·{t}·)] @CAP@ {}", p.replace("@A@ ", "")),
        1..=4 => format!("hooq::method(·{t}·)"),
        5 => format!("hooq::method(·.{t}·)"),
        6 => format!("hooq::binding(·{t}·)"),
        7 => format!("hooq::var(·t0 =·{t}·)"),
        8 => format!("hooq::{}(·{t}·)", s.pick(&["hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "ignore_tail_expr_idents", "skip", "flavor", "x"])),
        9 => format!("hooq::{} =·{t}", s.pick(&["flavor", "method", "bindings", "hook_targets", "hook_in_macros"])),
        10 => format!("hooq::x =·{t}"),
        _ => format!("hooq::{}{}", s.pick(&["skip", "x", "method", "a::b", "flavor", "binding"]), if s.chance(50) { format!("[·{t}·]") } else { String::new() }),
    };
    format!("{ROOT}{}", p.replace("@A@ ", &format!("#[·{k}·]·")))
}

fn located(d: &[Diag]) -> Result<(), Verdict> {
    if d.iter().any(|d| d.is_panic) {
        return Err(Verdict::Fail(format!("the macro panicked: {:?}", d[0].message)));
    }
    let foreign = |m: &str| m.starts_with("cannot find") || m.starts_with("failed to resolve") || m.starts_with("cannot determine") || m.starts_with("unused");
    match d.iter().find(|d| !foreign(&d.message)) {
        Some(d) if d.message.trim().is_empty() => Err(Verdict::Fail("rejected without a message".into())),
        Some(_) => Ok(()),
        None => Err(Verdict::Fail(format!("malformed input is not reported by the tool: {:?}", d.iter().map(|d| &d.message).collect::<Vec<_>>()))),
    }
}

pub fn judge_expected(j: &JudgeIn) -> Verdict {
    let bad = j.text.contains("/*bad*/");
    match (j.outcome, bad) {
        (Outcome::Errors(d), true) => match located(d) {
            Ok(()) => Verdict::Ok(true, vec!["malformed"]),
            Err(v) => v,
        },
        (Outcome::Tokens(t), true) => Verdict::Fail(format!("malformed input was accepted and became {t}")),
        // the texts these stand for are judged by other properties
        (Outcome::Tokens(t), _) if ["$bindings", "$hooq_meta", "$fn_sig", "$fnsig", "$source"].iter().any(|k| j.text.contains(k)) => match syn::parse_str::<syn::Item>(t) {
            Ok(_) => Verdict::Ok(true, vec!["documented form"]),
            Err(e) => Verdict::Fail(format!("the expansion is not one item ({e}): {t}")),
        },
        _ => match against_model(j, [true; 3]) {
            Ok(Ok(_)) => Verdict::Ok(true, vec!["documented form"]),
            Ok(Err(m)) => Verdict::Fail(format!("the model rejects a documented form: {m}")),
            Err(v) => v,
        },
    }
}

pub fn judge_soup(j: &JudgeIn) -> Verdict {
    if let Outcome::Errors(d) = j.outcome {
        if let Err(v) = located(d) {
            return v;
        }
    }
    match against_model(j, [true; 3]) {
        Ok(Ok(_)) => Verdict::Ok(true, vec!["random tokens accepted"]),
        Ok(Err(_)) => Verdict::Ok(true, vec!["random tokens rejected"]),
        Err(v) => v,
    }
}

// ------------------------------------------------------------------------------------------ configuration files

pub fn checks() -> Vec<Check> {
    vec![Check { name: "configuration files", quick: 500, budget: 60, batch: 1, make: make_toml, judge: |e, v| v.iter().map(|x| judge_toml(e, x)).collect() }]
}

const BAD_FIELDS: [&str; 30] = [
    "method = 1",
    "method = \"(\"",
    "method = ')'",
    "method = '\"'",
    "method = [\".x()\"]",
    "method = { a = 1 }",
    "hook_targets = \"?\"",
    "hook_targets = [\"x\"]",
    "hook_targets = [\"?\", \"Return\"]",
    "hook_targets = [1]",
    "tail_expr_idents = \"Err\"",
    "tail_expr_idents = [true]",
    "ignore_tail_expr_idents = 1",
    "result_types = 1",
    "result_types = \"Result\"",
    "hook_in_macros = \"true\"",
    "hook_in_macros = 1",
    "hook_in_macros = []",
    "trait_uses = \"a\"",
    "trait_uses = [\"a b\"]",
    "trait_uses = [\"\"]",
    "trait_uses = [\"use a\"]",
    "bindings = { x = \"1 +\" }",
    "bindings = { x = \"\" }",
    "bindings = { x = 1 }",
    "bindings = \"x\"",
    "bindings = { x = \"fn y\" }",
    "mehtod = \".x()\"",
    "extra = [\"a\"]",
    "extra = 1",
];

const BAD_TEXTS: [&str; 14] = [
    "[empty]\nmethod = \"$expr\"\n",
    "[empty]\n",
    "[\"\"]\n",
    "[zz.\"\"]\n",
    "[zz\n",
    "zz\n",
    "= 1\n",
    "[zz]\n[zz]\n",
    "[zz]\nmethod = \".x()\"\nmethod = \".y()\"\n",
    "[zz]\nmethod = \".x()\n",
    "[zz]\nmethod = .x()\n",
    "[[zz]]\nmethod = \".x()\"\n",
    "[zz]\nbindings = { x = \"1\"\n",
    "[zz]]\n",
];

fn make_toml(s: &mut Src) -> Value {
    let t = tomlgen::toml_case(s);
    let mut text = t.text.clone();
    let mut what = "valid".to_string();
    if s.chance(70) {
        match s.below(8) {
            0 => {
                text = "\0dir".into();
                what = "the file is a directory".into();
            }
            1 => {
                text = format!("\0bytes{text}");
                what = "the file is not UTF-8".into();
            }
            2 => {
                // in front of every table
                what = s.pick(&["zz = 1", "method = \".x()\"", "hook_in_macros = true", "zz = \"a\"", "zz = [1]"]).to_string();
                text = format!("{what}\n{text}");
            }
            3 | 4 => {
                what = s.pick(&BAD_TEXTS).to_string();
                text = if s.chance(50) { format!("{what}\n{text}") } else { format!("{text}\n{what}") };
            }
            _ => {
                let f = *s.pick(&BAD_FIELDS);
                let h = *s.pick(&["zz", "zz.yy", "zz.yy.xx", "\"z z\""]);
                what = format!("[{h}]\n{f}\n");
                if s.chance(30) {
                    what = format!("[{h}]\nmethod = \".ok()\"\n{f}\n").replace("method = \".ok()\"\nmethod", "method");
                }
                text = if s.chance(50) { format!("{what}\n{text}") } else { format!("{text}\n{what}") };
            }
        }
    } else if s.chance(20) {
        text = s.pick(&["", "\n", "# nothing\n", "[zz]\n", "[zz]\n[zz.yy]\n", "zz = {}\n", "[zz]\nbindings = {}\nhook_targets = []\n", "[zz.yy.xx]\n"]).to_string();
    }
    json!({"toml": text, "what": what, "flavors": if text == t.text { t.names } else { vec![] }})
}

/// the names that generated methods may use
const T: &str = "#[hooq::t0 = 0] #[hooq::t1 = 1] #[hooq::level = 2]";

fn judge_toml(env: &Env, c: &Value) -> Verdict {
    let what = c["what"].as_str().unwrap();
    let mut units = vec![
        Unit { text: format!("#[hooq::hooq] @CAP@ {T} fn f1() {{ g()?; }}") },
        Unit { text: format!("#[hooq::hooq(log)] @CAP@ {T} fn f1() {{ g()?; }}") },
        Unit { text: format!("#[hooq::hooq(empty)] @CAP@ #[hooq::flavor = anyhow] {T} impl S {{ fn f1() {{ g()?; }} }}") },
    ];
    for f in c["flavors"].as_array().into_iter().flatten().take(8) {
        let f = f.as_str().unwrap();
        units.push(Unit { text: format!("#[hooq::hooq(flavor = \"{f}\")] @CAP@ {T} fn f1() {{ g()?; }}") });
    }
    // the order in which the items ask for the file must not matter
    units.reverse();
    let ex = env.expand(&units, &ExpandCfg { toml: c["toml"].as_str(), file: FILE, ..Default::default() });
    for (u, o) in units.iter().zip(&ex.outcomes) {
        match (o, what == "valid") {
            (Outcome::Tokens(_), true) => (),
            (Outcome::Errors(d), false) => {
                if let Err(v) = located(d) {
                    return v;
                }
            }
            (Outcome::Errors(d), true) => return Verdict::Fail(format!("a valid configuration file was rejected: {:?}\n{}", d.first().map(|d| &d.message), u.text)),
            (Outcome::Tokens(t), false) => return Verdict::Fail(format!("a malformed configuration file ({what}) was accepted: {} became {t}", u.text)),
        }
    }
    Verdict::Ok(true, vec![if what == "valid" { "valid file" } else { "malformed file" }])
}
