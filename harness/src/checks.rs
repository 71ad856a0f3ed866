//! Which engine decides which property.
use crate::engine::Env;
use crate::expandck::*;
use crate::batch;
use crate::props;
use serde_json::Value;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"];

pub const ASSUMPTIONS: &[&str] = &[
    "rustc 1.88.0 parses, expands and compiles the generated files correctly",
    "syn 2 parses Rust as the compiler does for the generated grammar (cases where they differ are discarded and counted)",
    "the reference model in harness/src/model.rs states the documented semantics",
];

pub fn needs_consume(id: &str) -> bool {
    props::variants(id).iter().any(|v| v.consume)
}

fn batches(id: &str) -> Vec<batch::Check> {
    match id {
        "C17" | "C18" | "C19" | "C20" => crate::excerpt::checks(id),
        "C01" => crate::c01::checks(),
        "C11" | "C25" => crate::metadata::checks(id),
        "C24" => crate::reports::checks(),
        "C15" => crate::settings::checks(),
        "C16" | "C22" | "C23" => crate::meta::checks(id),
        _ => vec![],
    }
}

pub fn run(env: &Env, p: &Params, rep: &mut Report) {
    run_variants(env, p, &props::variants(&p.id), rep);
    batch::run_checks(env, p, &batches(&p.id), rep);
}

pub fn replay(env: &Env, id: &str, r: &Value) -> Result<Verdict, String> {
    match r["kind"].as_str() {
        Some("expand") => crate::expandck::replay(env, &props::variants(id), r),
        Some("batch") => batch::replay(env, &batches(id), r),
        k => Err(format!("unknown kind of replay file {k:?}")),
    }
}

const EXPAND: &str = "random annotated items in random layouts, expanded by the real macro inside rustc and compared with the reference model; ";

fn own(r: &str) -> String {
    format!("{r}; distinct: by case")
}

pub fn rule(id: &str) -> String {
    let r = match id {
        "C02" => "non-trivial: at least one `?` is hooked",
        "C03" => "non-trivial: at least one return or tail value is hooked",
        "C04" => "non-trivial: a target is suppressed (and, without other settings, another one is hooked)",
        "C05" => "non-trivial: at least one target is hooked and more than 4 of the tool's attributes apply",
        "C06" => "non-trivial: a target in macro arguments is hooked",
        "C07" => "the hooks are erased again and the rest compared with the source, without any model; non-trivial: more than 3 hooks were removed",
        "C08" | "C09" => "non-trivial: at least two targets are hooked",
        "C10" => "non-trivial: a hook is composed, or a misuse is rejected",
        "C11" => "also random programs run beside the same programs with the variables written by hand; non-trivial: a target is hooked under more than 3 attributes of the tool, or a hook at run time was given a variable",
        "C12" | "C13" => "configuration files are generated as well; non-trivial: at least one target is hooked",
        "C14" => "the expansion is compared with the source itself; non-trivial: the item has targets and more than 2 attributes of the tool",
        "C21" => "expanded with the consume-question feature; non-trivial: at least one `?` is hooked",
        "C17" => return own("random expressions in random layouts, passed to pretty_stringify! directly and through hooks, printed text compared with a model that puts the lexer's tokens on a grid; non-trivial: the expression has more than one line or is followed by line numbers of 5 digits"),
        "C18" => return own("as C17 for excerpted_pretty_stringify! with all options; non-trivial: lines are left out, numbered or a literal is truncated"),
        "C19" => return own("string literals with every kind of escape, alone and within expressions; the truncated expression is compiled beside the model's; non-trivial: at least one literal is shortened"),
        "C20" => return own("as C17 for one_line_stringify!; non-trivial: the expression has more than one token"),
        "C01" => return own("random well-typed programs, compiled and run on 24 inputs without the attribute, with hooks written by hand at the marks the generator left, and with the attribute; traces of all side effects compared; non-trivial: a hook runs"),
        "C24" => return own("random well-typed programs under each built-in flavor, compiled and run on 8 inputs beside the same programs with the reports written by hand from the places and the excerpt model; the merged traces of side effects and reports compared; non-trivial: something is reported"),
        "C25" => return own("random well-typed programs whose hooks ask, sometimes, for the metadata, compiled and run on 12 inputs beside the same programs with the records written by hand; every variable is looked up under 14 types, unknown names too; traces compared; non-trivial: data with variables was asked for"),
        "C15" => return own("documented and malformed forms of every setting at every kind of place, with known validity; random token sequences in attributes, accepted or rejected as the model says; valid and damaged configuration files; every case counts"),
        "C16" => return own("a file of random annotated items, some of them erroneous, is expanded in three compiler processes; tokens and diagnostics are compared; non-trivial: an error, a variable list or a configuration file is involved"),
        "C22" => return own("random import lists and flavors; the expanded module is compared with the expected import list; further programs use the imported traits in hooks, with all warnings denied; non-trivial: more than one import"),
        "C23" => return own("random annotated items are expanded alone, together, among other items and in other orders with repetitions; non-trivial: more than one item and one that is accepted"),
        _ => "",
    };
    format!("{EXPAND}{r}; distinct: by source text")
}
