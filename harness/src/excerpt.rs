//! C17-C20: the printing macros, compared with a model that places the lexer's tokens on a grid.
use crate::batch::Check;
use crate::engine::*;
use crate::expandck::*;
use crate::items::{G, Profile, layout};
use crate::src::Src;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use serde_json::{Value, json};
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;

#[derive(Clone, Debug)]
pub struct Tok {
    pub line: usize,
    pub col: usize, // 0-based, in characters
    pub end_line: usize,
    pub end_col: usize,
    pub text: String,
}

/// Tokens of the stream with their places in the source, delimiters included.
pub fn toks(t: TokenStream) -> Vec<Tok> {
    fn go(t: TokenStream, out: &mut Vec<Tok>) {
        for tt in t {
            match tt {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    let (a, b) = (g.span_open(), g.span_close());
                    let mk = |s: proc_macro2::Span, t: &str| Tok {
                        line: s.start().line,
                        col: s.start().column,
                        end_line: s.end().line,
                        end_col: s.end().column,
                        text: t.to_string(),
                    };
                    out.push(mk(a, o));
                    go(g.stream(), out);
                    out.push(mk(b, c));
                }
                t => {
                    let s = t.span();
                    out.push(Tok { line: s.start().line, col: s.start().column, end_line: s.end().line, end_col: s.end().column, text: t.to_string() });
                }
            }
        }
    }
    let mut v = vec![];
    go(t, &mut v);
    v
}

/// Places of the string literals of the expression (not those in the arguments of nested macro calls).
fn str_places(e: &syn::Expr) -> HashMap<(usize, usize), String> {
    struct V(HashMap<(usize, usize), String>);
    impl Visit<'_> for V {
        fn visit_lit_str(&mut self, l: &syn::LitStr) {
            let s = l.span().start();
            self.0.insert((s.line, s.column), l.value());
        }
    }
    let mut v = V(HashMap::new());
    v.visit_expr(e);
    v.0
}

pub fn truncate(v: &str, n: Option<usize>) -> String {
    let (max, a, b) = match n {
        None => (10, 4, 4),
        Some(n) if n < 2 => (n, 0, 0),
        Some(n) => (n, (n - 2) / 2, (n - 2) - (n - 2) / 2),
    };
    let cut = |l: &str| {
        let c: Vec<char> = l.chars().collect();
        if c.len() <= max {
            l.to_string()
        } else {
            format!("{}..{}", c[..a].iter().collect::<String>(), c[c.len() - b..].iter().collect::<String>())
        }
    };
    v.split('\n').map(cut).collect::<Vec<_>>().join("\n")
}

/// Replaces the string literals of the expression by their truncated forms.
pub fn truncated(ts: Vec<Tok>, e: &syn::Expr, n: Option<usize>) -> Vec<Tok> {
    let at = str_places(e);
    ts.into_iter()
        .map(|mut t| {
            if let Some(v) = at.get(&(t.line, t.col)) {
                if t.text.starts_with('"') || t.text.starts_with('r') {
                    t.text = proc_macro2::Literal::string(&truncate(v, n)).to_string();
                }
            }
            t
        })
        .collect()
}

/// Lines of the pretty-printed form, starting with the first token's line.
pub fn grid(ts: &[Tok]) -> Vec<String> {
    let mut lines = vec![String::from("    ")];
    let (mut line, mut col) = (ts[0].line, ts[0].col);
    for t in ts {
        if t.line > line {
            for _ in line..t.line {
                lines.push(String::new());
            }
            *lines.last_mut().unwrap() = " ".repeat(t.col);
        } else if t.col > col {
            lines.last_mut().unwrap().push_str(&" ".repeat(t.col - col));
        }
        let parts: Vec<&str> = t.text.split('\n').collect();
        lines.last_mut().unwrap().push_str(parts[0]);
        for p in &parts[1..] {
            lines.push(p.to_string());
        }
        line = t.line + parts.len() - 1;
        col = t.end_col;
    }
    lines
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub excerpt: Option<usize>,
    pub trunc: Option<Option<usize>>,
    pub nums: bool,
    pub top: bool,
    pub bottom: bool,
}

pub fn number(lines: &[String], start: usize) -> Vec<String> {
    lines.iter().enumerate().map(|(i, l)| format!("{:>4}{}{}", start + i, if i == 0 { '>' } else { '|' }, l)).collect()
}

pub fn excerpt(lines: Vec<String>, n: usize) -> Vec<String> {
    if n == 1 {
        return vec![lines.last().unwrap().clone()];
    }
    if lines.len() <= 2 || lines.len() <= n {
        return lines;
    }
    let mut v = vec![lines[0].clone(), "...".into()];
    v.extend_from_slice(&lines[lines.len() - (n - 1)..]);
    v
}

/// The text that the macro must produce for an expression with these tokens.
pub fn expected(mac: &str, o: &Opts, ts: Vec<Tok>, e: &syn::Expr) -> String {
    let start = ts[0].line;
    let mut o = o.clone();
    let ts = match mac {
        "excerpted_pretty_stringify" | "summary" => truncated(ts, e, o.trunc.unwrap_or(None)),
        "one_line_stringify" => match o.trunc {
            Some(n) => truncated(ts, e, n),
            None => ts,
        },
        _ => ts,
    };
    let mut lines = grid(&ts);
    // a last line that is empty does not exist
    if mac == "one_line_stringify" {
        return lines.iter().map(|l| l.trim()).collect::<Vec<_>>().join(" ");
    }
    let ex = mac != "pretty_stringify";
    if ex {
        o.nums = true;
        o.bottom = true;
    }
    if o.nums {
        lines = number(&lines, start);
    }
    if ex {
        lines = excerpt(lines, o.excerpt.unwrap_or(5));
    }
    let margin = if o.nums { "    |" } else { "" };
    if o.top {
        lines.insert(0, margin.into());
    }
    if o.bottom {
        lines.push(margin.into());
    }
    lines.join("\n")
}

/// Line numbers past 9999 may be padded to any common width.
fn loose(s: &str) -> String {
    s.lines()
        .map(|l| {
            let t = l.trim_start();
            if t.starts_with(|c: char| c.is_ascii_digit()) && l.len() - t.len() <= 4 || t == "|" { t.to_string() } else { l.to_string() }
        })
        .collect::<Vec<_>>()
        .join("\n")
}

// ------------------------------------------------------------------------------------------ generation

fn expr_text(s: &mut Src, rich: u8, macros: bool) -> String {
    let p = Profile {
        attr_pct: 0,
        keep_pct: 0,
        macro_pct: if macros { 8 } else { 0 },
        try_pct: 10,
        max_depth: 5,
        bindings: vec![],
        rich_str: rich,
        ..Default::default()
    };
    let mut g = G::new(s, p);
    let mut parts = vec![];
    for _ in 0..1 + g.s.below(3) {
        parts.push(g.expr().paren().t);
    }
    let e = match s.below(5) {
        0 => parts.remove(0),
        1 => format!("[·{}·]", parts.join(",·")),
        2 => format!("x.foo(·{}·)·.await", parts.join(",·")),
        3 => format!("Err(·{}·)", parts.join(",·")),
        _ => format!("match {} {{ 1 =>·{},·_ =>·\"end\" }}", parts[0], parts[parts.len() - 1]),
    };
    let lay = s.below(100_000);
    layout(&e, lay).replace('\t', "  ")
}

fn opts(s: &mut Src, mac: &str) -> (String, Opts) {
    let mut o = Opts::default();
    let mut v: Vec<String> = vec![];
    for _ in 0..s.below(4) {
        match s.below(4) {
            0 if mac != "one_line_stringify" => {
                let n = match s.below(4) {
                    0 => s.below(4) as usize + 1,
                    _ => s.below(9) as usize + 1,
                };
                if mac == "excerpted_pretty_stringify" {
                    o.excerpt = Some(n);
                    v.push(format!("@excerpt_line{}", lit(s, n)));
                }
            }
            1 if mac != "pretty_stringify" => {
                if s.chance(30) {
                    o.trunc = Some(None);
                    v.push("@truncate_str".into());
                } else {
                    let n = if s.chance(40) { s.below(5) } else { s.below(30) } as usize;
                    o.trunc = Some(Some(n));
                    v.push(format!("@truncate_str{}", lit(s, n)));
                }
            }
            2 if mac != "one_line_stringify" => {
                o.nums = true;
                v.push("@show_line_num".into());
            }
            _ if mac != "one_line_stringify" && v.iter().all(|x| !x.contains("padding")) => match s.below(4) {
                0 => {
                    o.top = true;
                    v.push("@padding =\"top\"".into());
                }
                1 => {
                    o.bottom = true;
                    v.push("@padding= \"bottom\"".into());
                }
                2 => {
                    o.top = true;
                    o.bottom = true;
                    v.push("@padding=\"both\"".into());
                }
                _ => {
                    o.top = true;
                    o.bottom = true;
                    v.push("@padding".into());
                }
            },
            _ => {}
        }
    }
    let mut t = String::new();
    let n = v.len();
    for (i, x) in v.into_iter().enumerate() {
        let value = x.contains('=');
        t.push_str(&x);
        let last = i + 1 == n;
        t.push_str(match s.below(6) {
            // a comma may be left out after a value, and `;` ends the options
            0 if value => " ",
            1 if last => ";",
            2 if last => " ; ",
            3 => ",\n  ",
            _ => ", ",
        });
    }
    (t, o)
}

fn lit(s: &mut Src, n: usize) -> String {
    match s.below(4) {
        0 => format!(" = {n}"),
        1 => format!("={n}usize"),
        _ => format!("={n}"),
    }
}

fn opts_json(o: &Opts) -> Value {
    json!({"excerpt": o.excerpt, "trunc": o.trunc.map(|t| json!({"n": t})), "nums": o.nums, "top": o.top, "bottom": o.bottom})
}

fn opts_of(v: &Value) -> Opts {
    Opts {
        excerpt: v["excerpt"].as_u64().map(|n| n as usize),
        trunc: v["trunc"].as_object().map(|t| t["n"].as_u64().map(|n| n as usize)),
        nums: v["nums"] == true,
        top: v["top"] == true,
        bottom: v["bottom"] == true,
    }
}

fn case(s: &mut Src, mac: &str, rich: u8, macros: bool) -> Value {
    let (ot, o) = opts(s, mac);
    let gap = s.below(4);
    let indent = s.below(12);
    let far = s.chance(4);
    let via = match s.below(10) {
        0 | 1 => "?",
        2 => "return",
        _ => "",
    };
    json!({"macro": mac, "opts": ot, "o": opts_json(&o), "gap": gap, "indent": indent, "far": far, "via": via, "expr": expr_text(s, rich, macros)})
}

fn make_pretty(s: &mut Src) -> Value {
    case(s, "pretty_stringify", 2, true)
}
fn make_excerpt(s: &mut Src) -> Value {
    case(s, "excerpted_pretty_stringify", 1, false)
}
fn make_one_line(s: &mut Src) -> Value {
    let r = if s.chance(15) { 2 } else { 1 };
    let mut c = case(s, "one_line_stringify", r, false);
    if r == 2 {
        // literals with line breaks keep their text only when they are not reprinted
        c["opts"] = json!("");
        c["o"]["trunc"] = Value::Null;
    }
    c
}
fn make_trunc_text(s: &mut Src) -> Value {
    let mac = *s.pick(&["excerpted_pretty_stringify", "one_line_stringify"]);
    case(s, mac, 1, false)
}

/// A literal tree only, for the value-level comparison: every kind of literal.
fn make_trunc(s: &mut Src) -> Value {
    let (mut ot, mut o) = opts(s, "one_line_stringify");
    for _ in 0..3 {
        if o.trunc.is_some() {
            break;
        }
        (ot, o) = opts(s, "one_line_stringify");
    }
    let mut e = expr_text(s, 2, false);
    if s.chance(50) {
        let mut g = G::new(s, Profile { rich_str: 2, attr_pct: 0, ..Default::default() });
        let a = g.rich_strlit();
        e = layout(&format!("f(·{a},·{e}·)"), 0);
    }
    json!({"macro": "truncate_lit_str", "opts": ot, "o": opts_json(&o), "expr": e})
}

// ------------------------------------------------------------------------------------------ judging

fn body(c: &Value, i: usize) -> String {
    let mac = c["macro"].as_str().unwrap();
    let (o, e) = (c["opts"].as_str().unwrap(), c["expr"].as_str().unwrap());
    let gap = "\n".repeat(c["gap"].as_u64().unwrap_or(0) as usize);
    let ind = " ".repeat(c["indent"].as_u64().unwrap_or(0) as usize);
    let m = |inner: &str| format!("::hooq::source_excerpt_helpers::{mac}!({o}{inner})");
    match c["via"].as_str().unwrap_or("") {
        "" => format!("{gap}{ind}const E{i}: &str = {};\n", m(e)),
        via => {
            let m = m("$source");
            let st = if via == "?" { format!("let x = {e}?;") } else { format!("return {e};") };
            format!(
                "#[hooq::hooq] #[hooq::hook_targets(\"{via}\")] #[hooq::method(.__hk(__mk{i}, {m}))] fn e{i}() -> Result<(), ()> {{{gap}{ind}{st} }}\n"
            )
        }
    }
}

fn find_const(f: &syn::File, i: usize) -> Option<&syn::ItemConst> {
    f.items.iter().find_map(|x| match x {
        syn::Item::Const(c) if c.ident == format!("E{i}") => Some(c),
        _ => None,
    })
}

struct Hooks(usize, Vec<String>);
impl Visit<'_> for Hooks {
    fn visit_expr_method_call(&mut self, m: &syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        if m.method == "__hk" {
            if let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = m.args.get(1) {
                self.1.push(s.value());
            }
        }
    }
}

pub fn judge_text(env: &Env, cases: &[Value]) -> Vec<Verdict> {
    let mut text = String::from("#![allow(warnings)]\n");
    if cases[0]["far"] == true {
        text.push_str(&"\n".repeat(9_960));
    }
    let mut skip: BTreeSet<usize> = BTreeSet::new();
    for (i, c) in cases.iter().enumerate() {
        let b = body(c, i);
        if syn::parse_str::<syn::Expr>(c["expr"].as_str().unwrap()).is_err() || syn::parse_file(&b).is_err() {
            skip.insert(i);
        } else {
            text.push_str(&b);
        }
    }
    let (out, diags) = env.unpretty(&text, &ExpandCfg { file: FILE, ..Default::default() });
    let src = syn::parse_file(&text);
    let exp = syn::parse_file(&out);
    let (src, exp) = match (src, exp) {
        (Ok(a), Ok(b)) if !out.is_empty() => (a, b),
        (_, e) => {
            if cases.len() > 1 {
                return cases.iter().flat_map(|c| judge_text(env, std::slice::from_ref(c))).collect();
            }
            if skip.contains(&0) || !env.parses(&format!("fn f() {{ let x = {}; }}", cases[0]["expr"].as_str().unwrap())) {
                return vec![Verdict::Discard("not parsed")];
            }
            return vec![Verdict::Fail(format!("no usable expansion ({:?}): {:?} {out}", e.err().map(|e| e.to_string()), diags.iter().map(|d| &d.message).take(4).collect::<Vec<_>>()))];
        }
    };
    let mut res = vec![];
    for (i, c) in cases.iter().enumerate() {
        if skip.contains(&i) {
            res.push(Verdict::Discard("not parsed by syn"));
            continue;
        }
        let mac = c["macro"].as_str().unwrap();
        let o = opts_of(&c["o"]);
        let via = c["via"].as_str().unwrap_or("");
        // the printed expression in the source
        let (ts, e): (TokenStream, syn::Expr) = if via.is_empty() {
            let Some(k) = find_const(&src, i) else {
                res.push(Verdict::Fail("lost".into()));
                continue;
            };
            let syn::Expr::Macro(m) = &*k.expr else { unreachable!() };
            let skip_n = c["opts"].as_str().unwrap().parse::<TokenStream>().unwrap().into_iter().count();
            let ts: TokenStream = m.mac.tokens.clone().into_iter().skip(skip_n).collect();
            (ts.clone(), syn::parse2(ts).unwrap())
        } else {
            let f = src.items.iter().find_map(|x| match x {
                syn::Item::Fn(f) if f.sig.ident == format!("e{i}") => Some(f),
                _ => None,
            });
            let e = match &f.unwrap().block.stmts[0] {
                syn::Stmt::Local(l) => (*l.init.as_ref().unwrap().expr).clone(),
                syn::Stmt::Expr(e, _) => e.clone(),
                _ => unreachable!(),
            };
            // tokens as lexed, not as reprinted
            let syn::Item::Fn(f) = src.items.iter().find(|x| matches!(x, syn::Item::Fn(f) if f.sig.ident == format!("e{i}"))).unwrap() else { unreachable!() };
            let _ = f;
            use quote::ToTokens;
            (e.to_token_stream(), e)
        };
        let want = expected(mac, &o, toks(ts), &e);
        let got: Vec<String> = if via.is_empty() {
            match find_const(&exp, i).map(|k| &*k.expr) {
                Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => vec![s.value()],
                x => {
                    use quote::ToTokens;
                    let near: Vec<&String> = diags.iter().map(|d| &d.message).filter(|m| !m.starts_with("cannot find") && !m.starts_with("failed to resolve")).take(3).collect();
                    res.push(Verdict::Fail(format!("no string was produced: {} {near:?}", x.map(|x| x.to_token_stream().to_string()).unwrap_or_default())));
                    continue;
                }
            }
        } else {
            let mut h = Hooks(i, vec![]);
            for x in &exp.items {
                if let syn::Item::Fn(f) = x {
                    if f.sig.ident == format!("e{i}") {
                        h.visit_item_fn(f);
                    }
                }
            }
            h.1
        };
        let far = want.lines().any(|l| l.trim_start().chars().take_while(|c| c.is_ascii_digit()).count() == 5);
        let same = |a: &String| *a == want || far && loose(a) == loose(&want);
        if got.iter().any(same) {
            let n = want.lines().count();
            let mut tags = vec![];
            if !via.is_empty() {
                tags.push("through a hook");
            }
            if n > 5 {
                tags.push("more than 5 lines");
            }
            if want.contains("\n...\n") {
                tags.push("lines left out");
            }
            if want.contains("..") && mac != "pretty_stringify" {
                tags.push("truncated literal");
            }
            if far {
                tags.push("line numbers of 5 digits");
            }
            let nontrivial = match mac {
                "one_line_stringify" => want.len() > 20,
                "excerpted_pretty_stringify" => n > 3,
                _ => n > 1,
            };
            res.push(Verdict::Ok(nontrivial, tags));
        } else {
            res.push(Verdict::Fail(format!("expected\n{want}\ngot\n{}\n", got.join("\n----\n"))));
        }
    }
    res
}

/// `truncate_lit_str!`: the values of the string literals, and everything else unchanged.
/// Tokens of an expression printed by rustc, without the trailing commas that depend on where it breaks the lines.
fn printed(e: &syn::Expr) -> String {
    let mut t = crate::norm::canon_expr(e.clone());
    for c in [")", "]", "}"] {
        t = t.replace(&format!(", {c} "), &format!("{c} "));
    }
    t
}

/// The source with the string literals outside macro arguments replaced by their truncation; and how many changed.
fn shortened(e: &str, n: Option<usize>) -> (String, usize) {
    let Ok(x) = syn::parse_str::<syn::Expr>(e) else { return (e.to_string(), 0) };
    struct Lits(Vec<syn::LitStr>);
    impl<'a> Visit<'a> for Lits {
        fn visit_lit_str(&mut self, l: &'a syn::LitStr) {
            self.0.push(l.clone());
        }
    }
    let mut v = Lits(vec![]);
    v.visit_expr(&x);
    let mut v: Vec<_> = v.0.iter().map(|l| (l.token().span().byte_range(), l.value())).collect();
    v.sort_by_key(|(r, _)| std::cmp::Reverse(r.start));
    let (mut out, mut k) = (e.to_string(), 0);
    for (r, val) in v {
        let t = truncate(&val, n);
        if t != val {
            k += 1;
            out.replace_range(r, &format!("{t:?}"));
        }
    }
    (out, k)
}

pub fn judge_trunc(env: &Env, cases: &[Value]) -> Vec<Verdict> {
    let mut text = String::from("#![allow(warnings)]\n");
    let mut skip: BTreeSet<usize> = BTreeSet::new();
    let mut shorter = vec![];
    for (i, c) in cases.iter().enumerate() {
        let (o, e) = (c["opts"].as_str().unwrap(), c["expr"].as_str().unwrap());
        let (b, n) = shortened(e, opts_of(&c["o"]).trunc.unwrap_or(None));
        shorter.push(n);
        let t = format!("const A{i}: u8 = __k!(({e}));\nconst B{i}: u8 = ({b});\nconst E{i}: u8 = (::hooq::source_excerpt_helpers::truncate_lit_str!({o}{e}));\n");
        if syn::parse_str::<syn::Expr>(e).is_err() || syn::parse_file(&t).is_err() {
            skip.insert(i);
        } else {
            text.push_str(&t);
        }
    }
    let (out, diags) = env.unpretty(&text, &ExpandCfg { file: FILE, ..Default::default() });
    let Some(f) = syn::parse_file(&out).ok().filter(|_| !out.is_empty()) else {
        if cases.len() > 1 {
            return cases.iter().flat_map(|c| judge_trunc(env, std::slice::from_ref(c))).collect();
        }
        if skip.contains(&0) || !env.parses(&format!("fn f() {{ let x = {}; }}", cases[0]["expr"].as_str().unwrap())) {
            return vec![Verdict::Discard("not parsed")];
        }
        return vec![Verdict::Fail(format!("no usable expansion: {:?} {out}", diags.iter().map(|d| &d.message).take(4).collect::<Vec<_>>()))];
    };
    let get = |n: String| {
        f.items.iter().find_map(|x| match x {
            syn::Item::Const(c) if c.ident == n => Some((*c.expr).clone()),
            _ => None,
        })
    };
    fn unparen(e: syn::Expr) -> syn::Expr {
        match e {
            syn::Expr::Paren(p) => unparen(*p.expr),
            syn::Expr::Group(p) => unparen(*p.expr),
            e => e,
        }
    }
    struct Values(Vec<String>);
    impl syn::visit_mut::VisitMut for Values {
        fn visit_lit_str_mut(&mut self, l: &mut syn::LitStr) {
            self.0.push(l.value());
            *l = syn::LitStr::new(&l.value(), l.span());
        }
    }
    let mut res = vec![];
    for (i, _) in cases.iter().enumerate() {
        if skip.contains(&i) {
            res.push(Verdict::Discard("not parsed by syn"));
            continue;
        }
        let (Some(b), Some(e)) = (get(format!("B{i}")), get(format!("E{i}"))) else {
            res.push(Verdict::Fail("the expansion is missing".into()));
            continue;
        };
        use quote::ToTokens;
        use syn::visit_mut::VisitMut;
        let (mut b, mut e) = (unparen(b), unparen(e));
        let (mut want, mut got) = (Values(vec![]), Values(vec![]));
        want.visit_expr_mut(&mut b);
        got.visit_expr_mut(&mut e);
        if want.0 != got.0 {
            res.push(Verdict::Fail(format!("string literals: expected {:?}, got {:?}", want.0, got.0)));
        } else if printed(&b) != printed(&e) {
            res.push(Verdict::Fail(format!("more than the string literals changed: expected {}, got {}", b.to_token_stream(), e.to_token_stream())));
        } else {
            res.push(Verdict::Ok(shorter[i] > 0, if shorter[i] > 2 { vec!["more than 2 literals shortened"] } else { vec![] }));
        }
    }
    res
}

pub fn checks(id: &str) -> Vec<Check> {
    let c = |name, quick, budget, make, judge| Check { name, quick, budget, batch: 60, make, judge };
    match id {
        "C17" => vec![c("pretty form", 15000, 40, make_pretty, judge_text)],
        "C18" => vec![c("excerpts", 15000, 40, make_excerpt, judge_text)],
        "C19" => vec![c("values", 9000, 40, make_trunc, judge_trunc), c("text", 6000, 30, make_trunc_text, judge_text)],
        "C20" => vec![c("one line", 15000, 40, make_one_line, judge_text)],
        _ => vec![],
    }
}
