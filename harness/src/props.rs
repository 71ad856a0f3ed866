//! The checks of the properties decided on expansions.
use crate::engine::Outcome;
use crate::expandck::*;
use crate::items::{Profile, TemplateStyle};
use crate::model::{Expansion, Kind};
use crate::norm;
use crate::src::Src;
use crate::tomlgen;
use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::visit_mut::VisitMut;

fn sites(m: &Expansion, k: Kind) -> usize {
    m.sites.iter().filter(|s| s.kind == k && s.hooked).count()
}
fn hooked(m: &Expansion) -> usize {
    m.sites.iter().filter(|s| s.hooked).count()
}

fn items(p: Profile) -> Gen {
    Gen::Items(Box::new(p))
}

fn v(name: &'static str, quick: usize, budget: u32, gen_: Gen, judge: Judge) -> Variant {
    Variant { name, quick, gen_, budget, toml: None, consume: false, judge }
}

/// Compare with the model under a mask; non-trivial by the given rule.
fn judged(j: &JudgeIn, mask: [bool; 3], nontrivial: impl Fn(&Expansion) -> bool) -> Verdict {
    match against_model(j, mask) {
        Ok(Ok(m)) => Verdict::Ok(nontrivial(&m), site_tags(&m)),
        Ok(Err(_)) => Verdict::Ok(false, vec!["rejected by both"]),
        Err(v) => v,
    }
}

const C07_METHODS: [&str; 6] = [
    ".h1($line)",
    ".h2s().q::<u8>(|e| { g(e)?; return Err(1) })?.await.0[1].h2e($col)",
    ".h3s(|| $count).x().h3e()",
    "r1(m1($expr))",
    "r2(match m2($expr) { Ok(v) => v, Err(e) => return g(e, $line).q() })",
    "r4(- m4($expr) * 2)",
];
const PLACES: [&str; 3] = [
    ".h(__sig!($line, $column, $col, $path, $file))",
    "h($expr, __sig!($line, $column))",
    ".h(|e| { __sig!($line, $col); e })",
];
const DESCRIPTIONS: [&str; 2] = [".h(__sig!($count, $nth, $fn_name, $fn_sig), __raw!($source))", "h(__raw!($source), $expr, __sig!($count, $fnname, $fnsig))"];

const SCOPES: [u32; 11] = [3, 0, 3, 3, 3, 0, 2, 0, 0, 0, 0];

pub fn variants(id: &str) -> Vec<Variant> {
    let d = Profile::default;
    match id {
        "C02" => vec![
            v("questions", 9000, 110, items(Profile { attr_pct: 0, keep_pct: 3, try_pct: 35, max_depth: 7, ..d() }), |j| {
                judged(j, [true, false, false], |m| sites(m, Kind::Question) > 0)
            }),
            v(
                "questions with settings",
                5000,
                110,
                items(Profile { attr_pct: 8, keep_pct: 3, try_pct: 35, attr_w: SCOPES, macro_pct: 12, ..d() }),
                |j| judged(j, [true, false, false], |m| sites(m, Kind::Question) > 0),
            ),
            v("real-world code", 1500, 1, Gen::Raw(|s| crate::corpus::annotated(s, &[".h()"], false)), |j| {
                judged(j, [true, false, false], |m| sites(m, Kind::Question) > 0)
            }),
        ],
        "C03" => vec![
            v("default names", 6000, 110, items(Profile { attr_pct: 0, try_pct: 8, closures_pct: 14, max_depth: 7, ..d() }), |j| {
                judged(j, [false, true, true], |m| sites(m, Kind::Return) + sites(m, Kind::Tail) > 0)
            }),
            v(
                "configured names",
                9000,
                110,
                items(Profile { attr_pct: 14, attr_w: [1, 0, 5, 4, 5, 0, 1, 0, 0, 0, 0], try_pct: 8, closures_pct: 14, ..d() }),
                |j| judged(j, [false, true, true], |m| sites(m, Kind::Return) + sites(m, Kind::Tail) > 0),
            ),
            v("real-world code", 1500, 1, Gen::Raw(|s| crate::corpus::annotated(s, &[".h()"], true)), |j| {
                judged(j, [false, true, true], |m| sites(m, Kind::Return) + sites(m, Kind::Tail) > 0)
            }),
        ],
        "C04" => vec![
            v(
                "skips",
                11000,
                110,
                items(Profile { attr_pct: 14, attr_w: [1, 0, 0, 0, 0, 0, 1, 6, 4, 0, 0], try_pct: 32, max_depth: 7, ..d() }),
                |j| judged(j, [true; 3], |m| hooked(m) > 0 && m.sites.iter().any(|s| s.skipped)),
            ),
            v(
                "skips among settings",
                3000,
                110,
                items(Profile { attr_pct: 18, attr_w: [3, 2, 2, 2, 2, 1, 3, 5, 4, 0, 0], try_pct: 32, ..d() }),
                |j| judged(j, [true; 3], |m| m.sites.iter().any(|s| s.skipped)),
            ),
        ],
        "C05" => vec![
            v(
                "settings",
                11000,
                110,
                items(Profile { attr_pct: 20, keep_pct: 8, attr_w: [5, 3, 3, 3, 3, 2, 5, 1, 1, 0, 0], try_pct: 30, max_depth: 7, ..d() }),
                |j| judged(j, [true; 3], |m| hooked(m) > 0 && m.attrs_seen > 4),
            ),
            v(
                "settings and flavors",
                4000,
                110,
                items(Profile {
                    attr_pct: 20,
                    keep_pct: 6,
                    attr_w: [4, 2, 2, 2, 2, 1, 3, 1, 1, 3, 4],
                    try_pct: 30,
                    flavors: ["default", "empty", "hook", "log", "log.warn", "anyhow", "eyre", "tracing.debug"].map(String::from).to_vec(),
                    ..d()
                }),
                |j| judged(j, [true; 3], |m| hooked(m) > 0 && m.attrs_seen > 4),
            ),
            Variant {
                toml: Some(tomlgen::toml_case),
                ..v(
                    "several settings on one construct",
                    5000,
                    90,
                    items(Profile {
                        attr_pct: 16,
                        multi_w: [1, 4, 5],
                        attr_w: [3, 2, 2, 2, 2, 2, 3, 0, 0, 6, 6],
                        root_flavor_pct: 50,
                        root_method: false,
                        try_pct: 32,
                        bindings: vec!["t0", "t1", "t2"],
                        ..d()
                    }),
                    |j| judged(j, [true; 3], |m| hooked(m) > 0 && m.attrs_seen > 4),
                )
            },
        ],
        "C06" => vec![
            v("macros", 10000, 110, items(Profile { attr_pct: 5, macro_pct: 45, try_pct: 25, max_depth: 7, ..d() }), |j| {
                judged(j, [true; 3], |m| m.sites.iter().any(|s| s.in_macro && s.hooked))
            }),
            v(
                "macros switched off and on",
                5000,
                110,
                items(Profile { attr_pct: 18, attr_w: [1, 0, 0, 0, 0, 8, 0, 1, 1, 0, 0], macro_pct: 45, try_pct: 25, ..d() }),
                |j| judged(j, [true; 3], |m| hooked(m) > 0),
            ),
        ],
        "C07" => vec![
            v("insertion", 7000, 110, Gen::Custom(c07_insert), c07_judge),
            v("replacement", 6000, 110, Gen::Custom(c07_replace), c07_judge),
            v("real-world code", 2500, 1, Gen::Raw(|s| crate::corpus::annotated(s, &C07_METHODS, true)), c07_judge),
        ],
        "C08" => vec![
            v(
                "positions",
                9000,
                110,
                items(Profile { attr_pct: 5, attr_w: [4, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0], template: TemplateStyle::Position, try_pct: 32, macro_pct: 10, max_depth: 7, bindings: vec![], ..d() }),
                |j| judged(j, [true; 3], |m| hooked(m) > 1),
            ),
            v(
                "positions under skips",
                3000,
                110,
                items(Profile { attr_pct: 12, attr_w: [5, 1, 1, 1, 1, 1, 0, 3, 2, 0, 0], template: TemplateStyle::Position, try_pct: 32, macro_pct: 10, bindings: vec![], ..d() }),
                |j| judged(j, [true; 3], |m| hooked(m) > 1),
            ),
            v("real-world code", 1500, 1, Gen::Raw(|s| crate::corpus::annotated(s, &PLACES, false)), |j| judged(j, [true; 3], |m| hooked(m) > 1)),
        ],
        "C09" => vec![
            v(
                "descriptions",
                9000,
                110,
                items(Profile { attr_pct: 7, attr_w: [2, 2, 1, 1, 1, 1, 0, 2, 1, 0, 0], keep_pct: 5, template: TemplateStyle::Describe, try_pct: 32, macro_pct: 10, closures_pct: 14, max_depth: 7, bindings: vec![], ..d() }),
                |j| judged(j, [true; 3], |m| hooked(m) > 1),
            ),
            v("real-world code", 1500, 1, Gen::Raw(|s| crate::corpus::annotated(s, &DESCRIPTIONS, false)), |j| judged(j, [true; 3], |m| hooked(m) > 1)),
            v("long counts", 400, 30, Gen::Custom(long_counts), |j| judged(j, [true; 3], |m| hooked(m) > 9)),
        ],
        "C10" => vec![
            v(
                "composition",
                8000,
                90,
                items(Profile { attr_pct: 16, attr_w: [8, 0, 1, 1, 1, 0, 2, 0, 0, 0, 0], template: TemplateStyle::Mixed, so_far: true, try_pct: 32, ..d() }),
                |j| judged(j, [true; 3], |m| hooked(m) > 0),
            ),
            v(
                "replacement",
                4000,
                90,
                items(Profile { attr_pct: 12, attr_w: [8, 0, 1, 1, 1, 0, 2, 0, 0, 0, 0], template: TemplateStyle::Replace, so_far: true, try_pct: 32, ..d() }),
                |j| judged(j, [true; 3], |m| hooked(m) > 0),
            ),
            v(
                "misuse",
                3000,
                50,
                items(Profile { attr_pct: 12, attr_w: [8, 0, 1, 1, 1, 0, 2, 1, 1, 0, 0], template: TemplateStyle::Mixed, so_far: true, bad_pct: 12, try_pct: 32, ..d() }),
                |j| match against_model(j, [true; 3]) {
                    Ok(Ok(m)) => Verdict::Ok(hooked(&m) > 0, site_tags(&m)),
                    Ok(Err(_)) => Verdict::Ok(true, vec!["rejected by both"]),
                    Err(v) => v,
                },
            ),
        ],
        "C11" => vec![v(
            "scoping",
            9000,
            110,
            items(Profile { attr_pct: 18, attr_w: [2, 0, 0, 0, 0, 0, 12, 1, 0, 0, 0], try_pct: 32, bindings: vec!["t0", "t1", "été"], ..d() }),
            |j| judged(j, [true; 3], |m| hooked(m) > 0 && m.attrs_seen > 3),
        )],
        "C12" => vec![
            Variant {
                toml: Some(tomlgen::toml_case),
                ..v(
                    "flavors on the item",
                    8000,
                    90,
                    items(Profile { attr_pct: 3, attr_w: [1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0], root_flavor_pct: 85, root_method: false, try_pct: 30, ..d() }),
                    |j| judged(j, [true; 3], |m| hooked(m) > 0),
                )
            },
            Variant {
                toml: Some(tomlgen::toml_case),
                ..v(
                    "flavors inside the item",
                    8000,
                    90,
                    items(Profile { attr_pct: 16, attr_w: [1, 1, 1, 1, 1, 1, 1, 1, 1, 6, 6], root_flavor_pct: 60, root_method: false, try_pct: 30, ..d() }),
                    |j| judged(j, [true; 3], |m| hooked(m) > 0 && m.attrs_seen > 2),
                )
            },
        ],
        "C13" => vec![Variant {
            toml: Some(tomlgen::toml_case),
            ..v(
                "configuration files",
                16000,
                60,
                items(Profile { attr_pct: 5, attr_w: [0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 3], root_flavor_pct: 97, root_method: false, try_pct: 30, ..d() }),
                |j| judged(j, [true; 3], |m| hooked(m) > 0),
            )
        }],
        "C14" => vec![
            v(
                "empty flavor",
                7000,
                110,
                items(Profile {
                    attr_pct: 16,
                    keep_pct: 6,
                    attr_w: [4, 0, 3, 3, 3, 2, 4, 2, 2, 2, 2],
                    flavors: vec!["empty".into()],
                    root_flavor_pct: 100,
                    template: TemplateStyle::Mixed,
                    try_pct: 30,
                    macro_pct: 12,
                    ..d()
                }),
                c14_judge,
            ),
            v(
                "no target enabled",
                5000,
                110,
                items(Profile {
                    attr_pct: 14,
                    keep_pct: 6,
                    attr_w: [4, 0, 3, 3, 3, 2, 4, 2, 2, 0, 0],
                    flavors: ["default", "log", "hook", "anyhow", "tracing.info"].map(String::from).to_vec(),
                    root_flavor_pct: 60,
                    root_extra: "#[hooq::hook_targets()]·",
                    template: TemplateStyle::Mixed,
                    try_pct: 30,
                    macro_pct: 12,
                    ..d()
                }),
                c14_judge,
            ),
        ],
        "C15" => vec![
            v("documented forms", 5000, 20, Gen::Custom(crate::settings::documented), crate::settings::judge_expected),
            v("malformed forms", 8000, 20, Gen::Custom(crate::settings::malformed), crate::settings::judge_expected),
            v("random tokens", 8000, 20, Gen::Custom(crate::settings::random_tokens), crate::settings::judge_soup),
        ],
        "C21" => vec![
            Variant {
                consume: true,
                ..v(
                    "consumed",
                    7000,
                    100,
                    items(Profile { attr_pct: 14, attr_w: [8, 1, 1, 1, 1, 1, 2, 1, 1, 0, 0], keep_pct: 5, template: TemplateStyle::Mixed, bang_pct: 50, try_pct: 38, ..d() }),
                    |j| judged(j, [true; 3], |m| sites(m, Kind::Question) > 0),
                )
            },
            Variant {
                consume: true,
                toml: Some(tomlgen::toml_case_consume),
                ..v(
                    "consumed by configured methods",
                    5000,
                    80,
                    items(Profile { attr_pct: 10, attr_w: [3, 1, 1, 1, 1, 1, 2, 1, 1, 4, 4], bang_pct: 50, root_flavor_pct: 90, root_method: false, try_pct: 38, ..d() }),
                    |j| judged(j, [true; 3], |m| sites(m, Kind::Question) > 0),
                )
            },
        ],
        _ => vec![],
    }
}

pub fn site_tags(m: &Expansion) -> Vec<&'static str> {
    let mut t = vec![];
    if sites(m, Kind::Question) > 0 {
        t.push("has ?-hook");
    }
    if sites(m, Kind::Return) > 0 {
        t.push("has return-hook");
    }
    if sites(m, Kind::Tail) > 0 {
        t.push("has tail-hook");
    }
    if m.sites.len() > 3 {
        t.push("more than 3 targets");
    }
    if m.sites.iter().any(|s| s.in_macro && s.hooked) {
        t.push("hook in macro arguments");
    }
    if m.sites.iter().any(|s| s.skipped) {
        t.push("skipped target");
    }
    if m.sites.iter().any(|s| !s.skipped && !s.hooked) {
        t.push("disabled target");
    }
    if m.sites.iter().any(|s| s.fn_name.starts_with("__closure")) {
        t.push("target in closure");
    }
    t
}

// ------------------------------------------------------------------------------------------ C07

fn c07_profile(insert: bool) -> Profile {
    Profile {
        attr_pct: 6,
        attr_w: [0, 1, 2, 2, 2, 2, 2, 1, 1, 0, 0],
        keep_pct: 6,
        try_pct: 30,
        macro_pct: 10,
        max_depth: 7,
        root_method: false,
        bindings: vec!["t0", "t1", "line", "x"],
        root_extra: if insert { "@M@" } else { "@M@" },
        ..Default::default()
    }
}

fn c07_insert(s: &mut Src, _: &[String]) -> String {
    let m = match s.below(4) {
        0 => ".h1(·$line·)",
        1 => ".h2s(·).q::<u8>(·|e| {·g(·e·)?;·return Err(·1·)·}·)?.await.0[·1·].h2e(·$col·)",
        2 => ".h3s(·|| $count·).x(·).h3e(·)",
        _ => ".h4(·__sig!(·$fn_name·),·{ let v =·1;·v }·)",
    };
    crate::items::G::new(s, c07_profile(true)).root().replace("@M@", &format!("#[hooq::method(·{m}·)]·"))
}

fn c07_replace(s: &mut Src, _: &[String]) -> String {
    let m = match s.below(5) {
        0 => "r1(·m1(·$expr·)·)",
        1 => "r2(·match m2(·$expr·) { Ok(v) =>·v,·Err(e) =>·return g(·e,·$line·).q() }·)",
        2 => "r3(·{ let v =·m3(·$expr·)·;·v }·,·$count·)",
        3 => "r4(·-·m4(·$expr·) *·2·)",
        _ => "r5(·if let Ok(v) =·m5(·$expr·) { v } else { 1 }·)",
    };
    crate::items::G::new(s, c07_profile(false)).root().replace("@M@", &format!("#[hooq::method(·{m}·)]·"))
}

fn tokens(t: &str) -> Result<TokenStream, Verdict> {
    t.parse().map_err(|e| Verdict::Fail(format!("the expansion cannot be lexed ({e}): {t}")))
}

fn item(t: TokenStream) -> Result<syn::Item, Verdict> {
    syn::parse2(t.clone()).map_err(|e| Verdict::Fail(format!("the expansion is not one item ({e}): {t}")))
}

fn rejected(j: &JudgeIn) -> Option<Verdict> {
    match j.outcome {
        Outcome::Errors(d) => Some(Verdict::Fail(format!(
            "valid input was rejected: {:?}",
            d.iter().map(|d| d.message.clone()).collect::<Vec<_>>()
        ))),
        _ => None,
    }
}

/// Erasing the inserted text gives back the source, without any model of what is hooked.
pub fn c07_judge(j: &JudgeIn) -> Verdict {
    if let Some(v) = rejected(j) {
        return v;
    }
    let Outcome::Tokens(t) = j.outcome else { unreachable!() };
    let inner = || -> Result<Verdict, Verdict> {
        let mut n = 0;
        let src = item(norm::strip_own(j.item.to_token_stream(), true, true, &mut n))?;
        let mut left = 0;
        let act = tokens(t)?;
        norm::strip_own(act.clone(), true, false, &mut left);
        if left > 0 {
            return Err(Verdict::Fail(format!("{left} attributes of the tool are left in the expansion: {t}")));
        }
        let mut act = item(norm::strip_own(act, true, true, &mut left))?;
        let mut er = norm::Erase { erased: 0 };
        er.visit_item_mut(&mut act);
        let (a, b) = (norm::canon(src), norm::canon(act));
        if a != b {
            return Err(Verdict::Fail(norm::diff(&a, &b)));
        }
        let mut tags = vec![];
        if er.erased > 3 {
            tags.push("more than 3 hooks removed");
        }
        Ok(Verdict::Ok(er.erased > 0, tags))
    };
    inner().unwrap_or_else(|v| v)
}

/// Nothing but the tool's own attributes may disappear.
fn c14_judge(j: &JudgeIn) -> Verdict {
    if let Some(v) = rejected(j) {
        return v;
    }
    let Outcome::Tokens(t) = j.outcome else { unreachable!() };
    let inner = || -> Result<Verdict, Verdict> {
        let mut n = 0;
        let src = item(norm::strip_own(j.item.to_token_stream(), true, true, &mut n))?;
        let mut left = 0;
        let act = tokens(t)?;
        norm::strip_own(act.clone(), true, false, &mut left);
        if left > 0 {
            return Err(Verdict::Fail(format!("{left} attributes of the tool are left in the expansion: {t}")));
        }
        let act = item(norm::strip_own(act, true, true, &mut left))?;
        let (a, b) = (norm::canon(src), norm::canon(act));
        if a != b {
            return Err(Verdict::Fail(norm::diff(&a, &b)));
        }
        let has = j.text.contains('?') || j.text.contains("Err") || j.text.contains("return");
        Ok(Verdict::Ok(has && n > 2, if n > 5 { vec!["more than 5 attributes"] } else { vec![] }))
    };
    inner().unwrap_or_else(|v| v)
}

// ------------------------------------------------------------------------------------------ C09

fn long_counts(s: &mut Src, _: &[String]) -> String {
    let n = 3 + s.below(10) * s.below(26);
    let mut t = String::from(
        "#[hooq::hooq] @CAP@ #[hooq::method(.h1(·__sig!(·$count,·$nth·)·))] fn f1(·) -> Result<u8,·u8> { ",
    );
    for i in 0..n {
        t.push_str(match s.below(9) {
            0 if i % 3 == 0 => "if x { return g(·x·)·; } ",
            1 => "#[hooq::skip]·g(·)?; ",
            2 => "#[hooq::hook_targets(\"return\")] g(·)?; ",
            3 => "let c =·|| -> Result<u8,·u8> { g(·)?.x }; ",
            4 => "{ fn n(·) -> Result<u8,·u8> { g(·) } } ",
            _ => "g(·1·)?; ",
        });
    }
    t.push_str("Err(·1·) }");
    t
}
