//! Items of real-world crates, as they stand in the cargo registry of this machine, and of the standard library.
use crate::src::Src;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};
use syn::spanned::Spanned;

fn walk(d: &Path, out: &mut Vec<PathBuf>, depth: usize) {
    let Ok(r) = std::fs::read_dir(d) else { return };
    let mut e: Vec<PathBuf> = r.filter_map(|e| e.ok().map(|e| e.path())).collect();
    e.sort();
    for p in e {
        let name = p.file_name().unwrap_or_default().to_string_lossy().to_string();
        if p.is_dir() {
            // generated bindings of platforms
            let skip = ["windows", "wasi", "r-efi", "libc-", "linux-raw", "unicode", "target", "encoding_rs"].iter().any(|s| name.starts_with(s));
            if !skip && depth < 12 {
                walk(&p, out, depth + 1);
            }
        } else if name.ends_with(".rs") && std::fs::metadata(&p).is_ok_and(|m| m.len() < 300_000) {
            out.push(p);
        }
    }
}

fn files() -> &'static Vec<PathBuf> {
    static F: OnceLock<Vec<PathBuf>> = OnceLock::new();
    F.get_or_init(|| {
        let home = std::env::var("HOME").unwrap_or_else(|_| "/root".into());
        let mut out = vec![];
        for c in [std::env::var("CARGO_HOME").unwrap_or_default(), format!("{home}/.cargo"), "/root/.cargo".into()] {
            if !c.is_empty() && out.is_empty() {
                walk(&Path::new(&c).join("registry/src"), &mut out, 0);
            }
        }
        for c in [std::env::var("RUSTUP_HOME").unwrap_or_default(), format!("{home}/.rustup"), "/root/.rustup".into()] {
            let t = Path::new(&c).join("toolchains/nightly-2025-11-18-x86_64-unknown-linux-gnu/lib/rustlib/src/rust/library");
            if !c.is_empty() && t.is_dir() {
                for s in ["core/src", "alloc/src", "std/src", "test/src"] {
                    walk(&t.join(s), &mut out, 0);
                }
                break;
            }
        }
        out
    })
}

/// the items of a file: text of the part before the members and of the members; the items of inner modules stand for themselves as well
#[derive(Debug)]
struct Entry {
    head: String,
    members: Vec<String>,
    tail: String,
}

fn interesting(t: &str) -> bool {
    t.contains('?') || t.contains("return") || t.contains("Err(") || t.contains("Result<")
}

fn start(item: &syn::Item) -> Option<usize> {
    let attrs = match item {
        syn::Item::Fn(i) => &i.attrs,
        syn::Item::Impl(i) => &i.attrs,
        syn::Item::Mod(i) => &i.attrs,
        syn::Item::Trait(i) => &i.attrs,
        syn::Item::Const(i) => &i.attrs,
        syn::Item::Static(i) => &i.attrs,
        syn::Item::Struct(i) => &i.attrs,
        syn::Item::Enum(i) => &i.attrs,
        _ => return None,
    };
    let whole = item.span().byte_range();
    let after = attrs.iter().filter(|a| matches!(a.style, syn::AttrStyle::Outer)).map(|a| a.span().byte_range().end).max();
    Some(after.unwrap_or(whole.start))
}

fn entries(text: &str, items: &[syn::Item], out: &mut Vec<Entry>) {
    for i in items {
        let Some(a) = start(i) else { continue };
        let whole = i.span().byte_range();
        let Some(t) = text.get(a..whole.end) else { continue };
        if let syn::Item::Mod(m) = i
            && let Some((_, inner)) = &m.content
        {
            entries(text, inner, out);
        }
        // modules in other files cannot be found
        if !interesting(t) || t.contains("@CAP@") || t.contains("mod ") && t.split("mod ").skip(1).any(|r| r.trim_start_matches(|c: char| c.is_alphanumeric() || c == '_' || c == '#').trim_start().starts_with(';')) {
            continue;
        }
        let spans: Vec<std::ops::Range<usize>> = match i {
            syn::Item::Impl(i) => i.items.iter().map(|m| m.span().byte_range()).collect(),
            syn::Item::Trait(i) => i.items.iter().map(|m| m.span().byte_range()).collect(),
            syn::Item::Mod(i) => i.content.iter().flat_map(|c| c.1.iter()).map(|m| m.span().byte_range()).collect(),
            _ => vec![],
        };
        if spans.is_empty() {
            out.push(Entry { head: t.to_string(), members: vec![], tail: String::new() });
            continue;
        }
        // each member goes with the text before it
        let mut members = vec![];
        let mut last = spans[0].start;
        for s in &spans {
            members.push(text[last..s.end].to_string());
            last = s.end;
        }
        out.push(Entry { head: text[a..spans[0].start].to_string(), members, tail: text[last..whole.end].to_string() });
    }
}

fn load(p: &Path) -> Arc<Vec<Entry>> {
    static CACHE: OnceLock<Mutex<HashMap<PathBuf, Arc<Vec<Entry>>>>> = OnceLock::new();
    let c = CACHE.get_or_init(Default::default);
    if let Some(e) = c.lock().unwrap().get(p) {
        return e.clone();
    }
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(p) {
        // byte ranges of spans are counted over everything that was parsed; each file starts anew
        proc_macro2::extra::invalidate_current_thread_spans();
        let t = t.strip_prefix('\u{feff}').map(String::from).unwrap_or(t);
        if interesting(&t)
            && !t.contains('\r')
            && !t.starts_with("#!")
            && let Ok(f) = syn::parse_file(&t)
        {
            entries(&t, &f.items, &mut out);
        }
    }
    let e = Arc::new(out);
    let mut c = c.lock().unwrap();
    if c.len() > 4000 {
        c.clear();
    }
    c.insert(p.to_path_buf(), e.clone());
    e
}

/// Text of one item without outer attributes.
pub fn item(s: &mut Src) -> String {
    let f = files();
    for _ in 0..12 {
        if f.is_empty() {
            break;
        }
        let k = s.below(f.len() as u32) as usize;
        let e = load(&f[k]);
        if e.is_empty() {
            continue;
        }
        let e = &e[s.below(e.len() as u32) as usize];
        let mut t = e.head.clone();
        let keep = if e.members.len() > 12 { 30 } else { 90 };
        for m in &e.members {
            if s.chance(keep) {
                t.push_str(m);
            }
        }
        t.push_str(&e.tail);
        if t.len() < 12_000 && interesting(&t) {
            return t;
        }
    }
    "fn f() -> Result<u8, u8> { g()?; h() }".into()
}

/// An annotated item; the root attribute's settings are `@M@`.
pub fn annotated(s: &mut Src, methods: &[&str], settings: bool) -> String {
    let m = s.pick(methods).to_string();
    let mut extra = String::new();
    if settings && s.chance(40) {
        extra.push_str(*s.pick(&[
            "#[hooq::tail_expr_idents(\"Err\", \"Some\", \"new\", \"from\")]",
            "#[hooq::result_types(\"Result\", \"Option\", \"Self\", \"PResult\")]",
            "#[hooq::ignore_tail_expr_idents(\"Ok\", \"Some\", \"Err\")]",
            "#[hooq::hook_targets(\"?\", \"return\")]",
            "#[hooq::hook_targets(\"tail_expr\")]",
            "#[hooq::hook_in_macros(false)]",
            "#[hooq::skip]",
            "#[hooq::result_types(\"str\", \"u8\", \"usize\", \"Vec\", \"String\", \"bool\")]",
        ]));
    }
    let t = item(s);
    format!("#[hooq::hooq] @CAP@ #[hooq::method({m})] {extra}\n{t}")
}
