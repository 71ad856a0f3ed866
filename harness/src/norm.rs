//! Canonical text of an item: grouping made explicit, spacing and layout removed, so that two expansions are
//! compared by structure and not by how the tokens happen to be printed.
use crate::model::{flat, Part, expr_attrs, parse_macro_args};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Token text; keeps whether punctuation was joined.
pub fn flat_joint(t: TokenStream) -> String {
    fn go(t: TokenStream, s: &mut String) {
        let mut it = t.into_iter().peekable();
        // documentation comments are turned into literals with escapes of the compiler's own choice
        let mut doc = 0;
        while let Some(tt) = it.next() {
            doc = match &tt {
                TokenTree::Ident(i) if i == "doc" => 1,
                TokenTree::Punct(p) if doc == 1 && p.as_char() == '=' => 2,
                TokenTree::Literal(_) if doc == 2 => 3,
                _ => 0,
            };
            // only within an operator it matters whether two marks are joined
            const PAIRS: [&str; 23] = [
                "::", "->", "=>", "<-", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "..", ".=", "~=",
            ];
            let next_op = match (&tt, it.peek()) {
                (TokenTree::Punct(a), Some(TokenTree::Punct(b))) => PAIRS.contains(&format!("{}{}", a.as_char(), b.as_char()).as_str()),
                _ => false,
            };
            match tt {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => {
                            go(g.stream(), s);
                            continue;
                        }
                    };
                    s.push_str(o);
                    s.push(' ');
                    go(g.stream(), s);
                    s.push_str(c);
                    s.push(' ');
                }
                TokenTree::Punct(p) => {
                    s.push(p.as_char());
                    if p.spacing() == Spacing::Alone || !next_op {
                        s.push(' ');
                    }
                }
                t => {
                    match parse_str::<LitStr>(&t.to_string()) {
                        Ok(l) if doc == 3 => s.push_str(&format!("{:?}", l.value())),
                        _ => s.push_str(&t.to_string()),
                    }
                    s.push(' ');
                }
            }
        }
    }
    let mut s = String::new();
    go(t, &mut s);
    s
}

pub struct Norm {
    in_sig: bool,
    /// which hooks to keep: `?`, return, tail
    mask: [bool; 3],
    /// kind of a hook standing at the expression about to be visited
    kind: usize,
}

/// generated hook methods are called `h<number>`
fn is_hook_name(i: &Ident) -> bool {
    let s = i.to_string();
    s.len() > 1 && s.starts_with('h') && s[1..].bytes().all(|b| b.is_ascii_digit())
}

fn is_own(a: &Attribute) -> bool {
    let p = &a.path().segments;
    p.len() == 2 && ((p[0].ident == "hvcap" && p[1].ident == "capture") || (p[0].ident == "hooq" && p[1].ident == "hooq"))
}

fn preset_kind(m: &Ident, args: TokenStream) -> Option<&'static str> {
    let name = m.to_string();
    for p in ["__preset_hook", "__preset_anyhow", "__preset_eyre", "__preset_log", "__preset_tracing", "__preset_default"] {
        if name == p {
            return Some(p);
        }
    }
    if !matches!(name.as_str(), "inspect_err" | "with_context" | "wrap_err_with" | "hook") {
        return None;
    }
    let t = args.to_string();
    if name == "hook" {
        return t.contains("HooqMeta").then_some("__preset_hook");
    }
    if !t.contains("stringify") {
        return None;
    }
    Some(match name.as_str() {
        "with_context" => "__preset_anyhow",
        "wrap_err_with" => "__preset_eyre",
        _ if t.replace(":: log :: Level", "").contains(":: log ::") => "__preset_log",
        _ if t.replace(":: tracing :: Level", "").contains(":: tracing ::") => "__preset_tracing",
        _ => "__preset_default",
    })
}

fn call_preset(c: &ExprCall) -> Option<&'static str> {
    match &*c.func {
        Expr::Path(p) => preset_kind(p.path.get_ident()?, c.args.to_token_stream()),
        _ => None,
    }
}

/// Attributes stand in front of the whole chain: `match x { #![a] .. }.m()` is the same as `#[a] match x { .. }.m()`.
fn attrs_in_front(e: &mut Expr) {
    fn take(e: &mut Expr, out: &mut Vec<Attribute>) {
        if let Some(a) = expr_attrs(e) {
            out.append(a);
        }
        match e {
            Expr::Paren(x) => take(&mut x.expr, out),
            Expr::Group(x) => take(&mut x.expr, out),
            Expr::MethodCall(x) => take(&mut x.receiver, out),
            Expr::Try(x) => take(&mut x.expr, out),
            Expr::Field(x) => take(&mut x.base, out),
            Expr::Await(x) => take(&mut x.base, out),
            Expr::Call(x) => take(&mut x.func, out),
            Expr::Index(x) => take(&mut x.expr, out),
            _ => {}
        }
    }
    let mut all = vec![];
    take(e, &mut all);
    all.iter_mut().for_each(|a| a.style = AttrStyle::Outer);
    if let Some(a) = expr_attrs(e) {
        *a = all;
    }
}

impl VisitMut for Norm {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let kind = std::mem::replace(&mut self.kind, 2);
        loop {
            // strip redundant grouping
            match e {
                Expr::Paren(ExprParen { attrs, expr, .. }) | Expr::Group(ExprGroup { attrs, expr, .. }) => {
                    let mut x = std::mem::replace(&mut **expr, Expr::Verbatim(TokenStream::new()));
                    if let Some(a) = expr_attrs(&mut x) {
                        a.splice(0..0, attrs.drain(..));
                    }
                    *e = x;
                }
                // the built-in methods are compared by their presence only
                Expr::MethodCall(m) if preset_kind(&m.method, m.args.to_token_stream()).is_some() => {
                    let k = preset_kind(&m.method, m.args.to_token_stream()).unwrap();
                    m.method = Ident::new(k, proc_macro2::Span::call_site());
                    m.args.clear();
                    break;
                }
                // .. also where `$so_far` puts them without a receiver
                Expr::Call(c) if call_preset(c).is_some() => {
                    c.func = Box::new(Expr::Path(ExprPath { attrs: vec![], qself: None, path: Ident::new(call_preset(c).unwrap(), proc_macro2::Span::call_site()).into() }));
                    c.args.clear();
                    break;
                }
                // drop hooks of the kinds that are not looked at
                Expr::MethodCall(m) if !self.mask[kind] && is_hook_name(&m.method) => {
                    let mut x = std::mem::replace(&mut *m.receiver, Expr::Verbatim(TokenStream::new()));
                    if let Some(a) = expr_attrs(&mut x) {
                        a.splice(0..0, m.attrs.drain(..));
                    }
                    *e = x;
                }
                _ => break,
            }
        }
        attrs_in_front(e);
        self.kind = match e {
            Expr::Try(_) => 0,
            Expr::Return(_) => 1,
            _ => 2,
        };
        visit_mut::visit_expr_mut(self, e);
        self.kind = 2;
        let atom = matches!(e, Expr::Lit(_) | Expr::Path(_) | Expr::Paren(_));
        if !atom || expr_attrs(e).is_some_and(|a| !a.is_empty()) {
            let x = std::mem::replace(e, Expr::Verbatim(TokenStream::new()));
            *e = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) });
        }
    }
    fn visit_lit_mut(&mut self, l: &mut Lit) {
        match l {
            Lit::Int(i) if i.suffix() == "usize" => *l = Lit::Int(LitInt::new(i.base10_digits(), i.span())),
            Lit::Str(s) => {
                let mut v = s.value();
                if self.in_sig {
                    v.retain(|c| !c.is_whitespace());
                }
                *l = Lit::Str(LitStr::new(&v, s.span()));
            }
            _ => {}
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_attribute_mut(&mut self, a: &mut Attribute) {
        // attribute arguments are compared token by token
        if let Meta::List(l) = &mut a.meta {
            let s = flat_joint(l.tokens.clone());
            let lit = LitStr::new(&s, proc_macro2::Span::call_site());
            l.tokens = lit.to_token_stream();
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.segments.last().is_some_and(|s| s.ident == "__raw") {
            let s = format!("T {}", flat(m.tokens.clone()));
            m.tokens = LitStr::new(&s, proc_macro2::Span::call_site()).to_token_stream();
            return;
        }
        let sig = m.path.segments.last().is_some_and(|s| s.ident == "__sig");
        let s = match parse_macro_args(m.tokens.clone()) {
            Some(parts) => {
                let old = self.in_sig;
                self.in_sig |= sig;
                let mut out = String::from("R ");
                for (p, sep) in parts {
                    let p = match p {
                        // a lone `m!{..}` is the same thing as an item and as an expression
                        Part::Items(h, mut v)
                            if h.is_empty() && v.len() == 1 && matches!(&v[0], Item::Macro(m) if m.ident.is_none() && m.semi_token.is_none()) =>
                        {
                            match v.remove(0) {
                                Item::Macro(m) => Part::Expr(Expr::Macro(ExprMacro { attrs: m.attrs, mac: m.mac })),
                                _ => unreachable!(),
                            }
                        }
                        p => p,
                    };
                    match p {
                        Part::Items(head, v) => {
                            out.push_str(&flat_joint(head));
                            for mut i in v {
                                self.visit_item_mut(&mut i);
                                out.push_str(&flat(i.to_token_stream()));
                            }
                        }
                        Part::Expr(mut e) => {
                            self.visit_expr_mut(&mut e);
                            out.push_str(&flat(e.to_token_stream()));
                        }
                        Part::Stmt(mut e) => {
                            self.visit_stmt_mut(&mut e);
                            out.push_str(&flat(e.to_token_stream()));
                        }
                    }
                    out.push_str(&flat_joint(sep));
                }
                self.in_sig = old;
                out
            }
            None => format!("T {}", flat_joint(m.tokens.clone())),
        };
        m.tokens = LitStr::new(&s, proc_macro2::Span::call_site()).to_token_stream();
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // `m!(..);` and `(m!(..));` are the same statement
        if let Stmt::Expr(e, Some(semi)) = s {
            loop {
                match e {
                    Expr::Paren(ExprParen { attrs, expr, .. }) | Expr::Group(ExprGroup { attrs, expr, .. }) if attrs.is_empty() => {
                        let x = std::mem::replace(&mut **expr, Expr::Verbatim(TokenStream::new()));
                        *e = x;
                    }
                    _ => break,
                }
            }
            if let Expr::Macro(m) = e {
                *s = Stmt::Macro(StmtMacro { attrs: std::mem::take(&mut m.attrs), mac: m.mac.clone(), semi_token: Some(*semi) });
            }
        }
        // .. and so are `m!{..}` and `(m!{..})` at the end of a block
        if let Stmt::Macro(StmtMacro { attrs, mac, semi_token: None }) = s {
            *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: std::mem::take(attrs), mac: mac.clone() }), None);
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

pub fn item_attrs(i: &mut Item) -> Option<&mut Vec<Attribute>> {
    Some(match i {
        Item::Const(x) => &mut x.attrs,
        Item::Enum(x) => &mut x.attrs,
        Item::ExternCrate(x) => &mut x.attrs,
        Item::Fn(x) => &mut x.attrs,
        Item::ForeignMod(x) => &mut x.attrs,
        Item::Impl(x) => &mut x.attrs,
        Item::Macro(x) => &mut x.attrs,
        Item::Mod(x) => &mut x.attrs,
        Item::Static(x) => &mut x.attrs,
        Item::Struct(x) => &mut x.attrs,
        Item::Trait(x) => &mut x.attrs,
        Item::TraitAlias(x) => &mut x.attrs,
        Item::Type(x) => &mut x.attrs,
        Item::Union(x) => &mut x.attrs,
        Item::Use(x) => &mut x.attrs,
        _ => return None,
    })
}

/// Splits the root attribute off an annotated item: (argument tokens of `#[hooq::hooq(..)]`, bare item)
pub fn split_root(mut i: Item) -> (TokenStream, Item) {
    let mut args = TokenStream::new();
    if let Some(a) = item_attrs(&mut i) {
        for x in a.iter() {
            if is_own(x) && x.path().segments[0].ident == "hooq" {
                if let Meta::List(l) = &x.meta {
                    args = l.tokens.clone();
                }
            }
        }
        a.retain(|x| !is_own(x));
    }
    (args, i)
}

/// `pub(crate)`-style visibilities, generics and the like are compared through their tokens.
pub fn canon(i: Item) -> String {
    canon_mask(i, [true; 3])
}

/// As `canon`, without the hooks of the kinds that are not selected.
pub fn canon_mask(mut i: Item, mask: [bool; 3]) -> String {
    if let Some(a) = item_attrs(&mut i) {
        a.retain(|x| !is_own(x));
    }
    Norm { in_sig: false, mask, kind: 2 }.visit_item_mut(&mut i);
    flat(i.to_token_stream())
}

pub fn canon_expr(mut e: Expr) -> String {
    Norm { in_sig: false, mask: [true; 3], kind: 2 }.visit_expr_mut(&mut e);
    flat(e.to_token_stream())
}

/// Shortest window around the first difference, for reports.
pub fn diff(a: &str, b: &str) -> String {
    let av: Vec<&str> = a.split(' ').collect();
    let bv: Vec<&str> = b.split(' ').collect();
    let n = av.iter().zip(&bv).take_while(|(x, y)| x == y).count();
    let lo = n.saturating_sub(12);
    let w = |v: &[&str]| v[lo.min(v.len())..(n + 25).min(v.len())].join(" ");
    format!("expected ...{}...\nactual   ...{}...", w(&av), w(&bv))
}

// ------------------------------------------------------------------------------------------ erasing

const NOT_MACRO: &[&str] = &["if", "while", "match", "return", "in", "else", "move", "break", "await", "as", "mut", "const", "raw"];

/// Removes every `#[hooq::..]` of the tool; inside macro arguments only when asked to. Returns how many it removed.
pub fn strip_own(t: TokenStream, outside: bool, inside: bool, n: &mut usize) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if outside {
            if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
                if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                    let s = g.stream().to_string();
                    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
                    if s.starts_with("hooq::") {
                        *n += 1;
                        i += 2;
                        continue;
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            let is_macro = i >= 2
                && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '!')
                && matches!(&v[i - 2], TokenTree::Ident(x) if !NOT_MACRO.contains(&x.to_string().as_str()));
            let (o, s) = if is_macro { (inside, inside) } else { (outside, inside) };
            let inner = strip_own(g.stream(), o, s, n);
            out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), inner)));
        } else {
            out.push(v[i].clone());
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// Takes the hooks out again: `.hN..` chains written between the marker methods `hNs` and `hNe` (or a lone `hN`),
/// and `rN(.. mN(operand) ..)` replacements.
pub struct Erase {
    pub erased: usize,
}

fn marker(i: &str, pre: char, suf: &str) -> Option<String> {
    let r = i.strip_prefix(pre)?.strip_suffix(suf)?;
    (!r.is_empty() && r.bytes().all(|b| b.is_ascii_digit())).then(|| r.to_string())
}

fn find_m(e: &Expr, n: &str) -> Option<Expr> {
    struct F<'a>(&'a str, Option<Expr>);
    impl<'b> syn::visit::Visit<'b> for F<'_> {
        fn visit_expr(&mut self, e: &'b Expr) {
            if self.1.is_some() {
                return;
            }
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = &*c.func {
                    if p.path.is_ident(&format!("m{}", self.0)) && c.args.len() == 1 {
                        self.1 = Some(c.args[0].clone());
                        return;
                    }
                }
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut f = F(n, None);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.1
}

fn receiver_of(e: &Expr, n: &str) -> Option<Expr> {
    match e {
        Expr::MethodCall(m) if marker(&m.method.to_string(), 'h', "s").as_deref() == Some(n) => Some((*m.receiver).clone()),
        Expr::MethodCall(m) => receiver_of(&m.receiver, n),
        Expr::Field(x) => receiver_of(&x.base, n),
        Expr::Await(x) => receiver_of(&x.base, n),
        Expr::Try(x) => receiver_of(&x.expr, n),
        Expr::Index(x) => receiver_of(&x.expr, n),
        Expr::Call(x) => receiver_of(&x.func, n),
        Expr::Paren(x) => receiver_of(&x.expr, n),
        _ => None,
    }
}

impl VisitMut for Erase {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            let new = match e {
                Expr::MethodCall(m) => {
                    let name = m.method.to_string();
                    if is_hook_name(&m.method) {
                        Some(((*m.receiver).clone(), std::mem::take(&mut m.attrs)))
                    } else if let Some(n) = marker(&name, 'h', "e") {
                        receiver_of(&m.receiver, &n).map(|r| (r, std::mem::take(&mut m.attrs)))
                    } else {
                        None
                    }
                }
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) if p.path.get_ident().is_some() => {
                        match marker(&p.path.get_ident().unwrap().to_string(), 'r', "") {
                            Some(n) => c.args.first().and_then(|a| find_m(a, &n)).map(|r| (r, std::mem::take(&mut c.attrs))),
                            None => None,
                        }
                    }
                    _ => None,
                },
                _ => None,
            };
            match new {
                Some((mut x, attrs)) => {
                    self.erased += 1;
                    // attributes that stood in front of the whole operand
                    while let Expr::Paren(p) = &mut x {
                        if p.attrs.is_empty() {
                            x = (*p.expr).clone();
                        } else {
                            break;
                        }
                    }
                    if let Some(a) = expr_attrs(&mut x) {
                        a.splice(0..0, attrs);
                    }
                    *e = x;
                }
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let Some(parts) = parse_macro_args(m.tokens.clone()) else { return };
        let mut out = TokenStream::new();
        for (p, sep) in parts {
            match p {
                Part::Items(head, v) => {
                    out.extend(head);
                    for mut i in v {
                        self.visit_item_mut(&mut i);
                        i.to_tokens(&mut out);
                    }
                }
                Part::Expr(mut e) => {
                    self.visit_expr_mut(&mut e);
                    e.to_tokens(&mut out);
                }
                Part::Stmt(mut e) => {
                    self.visit_stmt_mut(&mut e);
                    e.to_tokens(&mut out);
                }
            }
            out.extend(sep);
        }
        m.tokens = out;
    }
}
