//! Reference model of the documented semantics of `#[hooq]`, written against the documentation
//! (attributes.md, method.md, meta_vars.md, flavors.md) as a visitor that reaches every expression
//! position by default, independent of the implementation's hand-written walk.
use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
use quote::{ToTokens, quote};
use std::collections::BTreeMap;
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use std::result::Result;
use syn::*;

#[derive(Clone, Debug)]
pub struct Method {
    pub insert: bool,
    pub ts: TokenStream,
    pub exc: bool,
}

#[derive(Clone, Debug)]
pub struct Flavor {
    pub trait_uses: Vec<String>,
    pub method: Method,
    pub targets: [bool; 3],
    pub tail_idents: Vec<String>,
    pub ignore_idents: Vec<String>,
    pub result_types: Vec<String>,
    pub in_macros: bool,
    pub bindings: BTreeMap<String, TokenStream>,
    pub subs: BTreeMap<String, Flavor>,
}

pub fn parse_method(ts: TokenStream, consume: bool) -> Method {
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    let insert = matches!(v.first(), Some(TokenTree::Punct(p)) if p.as_char() == '.');
    if insert {
        v.remove(0);
    }
    let mut exc = false;
    if consume && matches!(v.last(), Some(TokenTree::Punct(p)) if p.as_char() == '!') {
        v.pop();
        exc = true;
    }
    Method { insert, ts: v.into_iter().collect(), exc }
}

fn ts(s: &str) -> TokenStream {
    s.parse().unwrap_or_else(|e| panic!("model: cannot lex {s:?}: {e}"))
}

impl Flavor {
    pub fn base() -> Flavor {
        Flavor {
            trait_uses: vec![],
            // the text of the preset methods is never compared, only their presence
            method: parse_method(ts(".__preset_default()"), false),
            targets: [true; 3],
            tail_idents: vec!["Err".into()],
            ignore_idents: vec!["Ok".into()],
            result_types: vec!["Result".into()],
            in_macros: true,
            bindings: BTreeMap::new(),
            subs: BTreeMap::new(),
        }
    }
}

pub fn builtin_flavors() -> BTreeMap<String, Flavor> {
    let mut m = BTreeMap::new();
    m.insert("default".to_string(), Flavor::base());
    m.insert(
        "empty".to_string(),
        Flavor {
            method: parse_method(ts("$expr"), false),
            targets: [false; 3],
            tail_idents: vec![],
            ignore_idents: vec![],
            result_types: vec![],
            in_macros: false,
            ..Flavor::base()
        },
    );
    m.insert("hook".into(), Flavor { method: parse_method(ts(".__preset_hook()"), false), ..Flavor::base() });
    m.insert(
        "anyhow".into(),
        Flavor { method: parse_method(ts(".__preset_anyhow()"), false), trait_uses: vec!["::anyhow::Context".into()], ..Flavor::base() },
    );
    m.insert(
        "eyre".into(),
        Flavor {
            method: parse_method(ts(".__preset_eyre()"), false),
            trait_uses: vec!["::eyre::ContextCompat".into(), "::eyre::WrapErr".into()],
            ..Flavor::base()
        },
    );
    m.insert(
        "color_eyre".into(),
        Flavor {
            method: parse_method(ts(".__preset_eyre()"), false),
            trait_uses: vec!["::color_eyre::eyre::ContextCompat".into(), "::color_eyre::eyre::WrapErr".into()],
            ..Flavor::base()
        },
    );
    for (name, pre, lv) in [
        ("log", "::log::Level::", ["Error", "Warn", "Info", "Debug", "Trace"]),
        ("tracing", "::tracing::Level::", ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"]),
    ] {
        let method = parse_method(ts(&format!(".__preset_{name}($level)")), false);
        let mk = |l: &str| Flavor {
            method: method.clone(),
            bindings: [("level".to_string(), ts(&format!("{pre}{l}")))].into(),
            ..Flavor::base()
        };
        let mut f = mk(lv[0]);
        for l in lv {
            f.subs.insert(l.to_lowercase(), mk(l));
        }
        m.insert(name.to_string(), f);
    }
    m
}

/// Chain of methods: innermost first.
#[derive(Clone, Debug)]
pub struct Chain<T> {
    pub val: Rc<T>,
    pub up: Option<Rc<Chain<T>>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Skip {
    No,
    Same,
    All,
}

#[derive(Clone, Debug)]
pub struct FnInfo {
    pub name: String,
    pub sig: String,
    pub ret: ReturnType,
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub method: Rc<Chain<Method>>,
    pub targets: [bool; 3],
    pub tail_idents: Vec<String>,
    pub ignore_idents: Vec<String>,
    pub result_types: Vec<String>,
    pub in_macros: bool,
    pub bindings: BTreeMap<String, TokenStream>,
    pub skip: Skip,
    pub func: Option<FnInfo>,
    pub outer_fn: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Question = 0,
    Return = 1,
    Tail = 2,
}
impl Kind {
    fn text(self) -> &'static str {
        match self {
            Kind::Question => "?",
            Kind::Return => "return",
            Kind::Tail => "tail expr",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Site {
    pub kind: Kind,
    pub line: usize,
    pub col: usize,
    pub hooked: bool,
    pub skipped: bool,
    pub count: usize,
    pub fn_name: String,
    pub in_macro: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum BlockKind {
    FnBody,
    Inner,
    NotTail,
}

pub struct Model<'a> {
    pub ctx: Ctx,
    counts: [usize; 3],
    flavors: &'a BTreeMap<String, Flavor>,
    pub consume: bool,
    pub path: String,
    pub err: Option<String>,
    pub sites: Vec<Site>,
    macro_depth: usize,
    pub attrs_seen: usize,
}

pub struct Expansion {
    pub uses: Vec<String>,
    pub item: Item,
    pub sites: Vec<Site>,
    pub attrs_seen: usize,
}

pub fn lookup<'f>(flavors: &'f BTreeMap<String, Flavor>, path: &[String]) -> Option<&'f Flavor> {
    let mut cur = flavors.get(path.first()?)?;
    for p in &path[1..] {
        cur = cur.subs.get(p)?;
    }
    Some(cur)
}

fn split_flavor_str(s: &str) -> Result<Vec<String>, String> {
    let v: Vec<String> = s.replace("::", ".").split('.').map(|x| x.to_string()).collect();
    if v.iter().any(|x| x.is_empty()) { Err("empty flavor name".into()) } else { Ok(v) }
}

fn flavor_path(value: &Expr) -> Result<Vec<String>, String> {
    match value {
        Expr::Path(p) => {
            if p.path.segments.iter().any(|s| !s.arguments.is_none()) {
                return Err("generic flavor".into());
            }
            Ok(p.path.segments.iter().map(|s| s.ident.to_string()).collect())
        }
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => split_flavor_str(&s.value()),
        _ => Err("bad flavor".into()),
    }
}

fn strings(t: TokenStream) -> Result<Vec<String>, String> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<LitStr, Token![,]>::parse_terminated;
    p.parse2(t).map(|v| v.into_iter().map(|l| l.value()).collect()).map_err(|e| e.to_string())
}

pub fn targets_of(v: &[String]) -> Result<[bool; 3], String> {
    let mut t = [false; 3];
    for s in v {
        match s.as_str() {
            "?" | "question" => t[0] = true,
            "return" => t[1] = true,
            "tail_expr" | "tail expr" | "tailexpr" | "tailExpr" => t[2] = true,
            "all" => t = [true; 3],
            e => return Err(format!("bad target {e}")),
        }
    }
    Ok(t)
}

/// Splits off names marked `!`: (always-hook names, ignored names)
pub fn split_bang(v: &[String]) -> (Vec<String>, Vec<String>) {
    let mut a = vec![];
    let mut b = vec![];
    for s in v {
        match s.strip_prefix('!') {
            Some(x) => b.push(x.to_string()),
            None => a.push(s.clone()),
        }
    }
    (a, b)
}

fn last_ident(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

impl<'a> Model<'a> {
    pub fn expand(
        root_attr: TokenStream,
        mut item: Item,
        flavors: &'a BTreeMap<String, Flavor>,
        consume: bool,
        path: &str,
    ) -> Result<Expansion, String> {
        // root attribute
        use syn::parse::Parser;
        let metas = syn::punctuated::Punctuated::<Meta, Token![,]>::parse_terminated
            .parse2(root_attr)
            .map_err(|e| format!("root: {e}"))?;
        let mut uses = vec![];
        let mut flavor = vec!["default".to_string()];
        for m in metas {
            match m {
                Meta::Path(p) => flavor = flavor_path(&Expr::Path(ExprPath { attrs: vec![], qself: None, path: p }))?,
                Meta::List(l) if l.path.is_ident("trait_use") || l.path.is_ident("trait_uses") => {
                    let ps = syn::punctuated::Punctuated::<Path, Token![,]>::parse_terminated
                        .parse2(l.tokens)
                        .map_err(|e| format!("root: {e}"))?;
                    uses.extend(ps.iter().map(|p| flat(p.to_token_stream())));
                }
                Meta::NameValue(nv) if nv.path.is_ident("flavor") => match &nv.value {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => flavor = split_flavor_str(&s.value())?,
                    _ => return Err("root: flavor must be a string".into()),
                },
                _ => return Err("root: unknown meta".into()),
            }
        }
        let f = lookup(flavors, &flavor).ok_or("unknown flavor")?;
        uses.extend(f.trait_uses.iter().map(|s| flat(ts(s))));
        let ctx = Ctx {
            method: Rc::new(Chain { val: Rc::new(f.method.clone()), up: None }),
            targets: f.targets,
            tail_idents: f.tail_idents.clone(),
            ignore_idents: f.ignore_idents.clone(),
            result_types: f.result_types.clone(),
            in_macros: f.in_macros,
            bindings: f.bindings.clone(),
            skip: Skip::No,
            func: None,
            outer_fn: None,
        };
        let mut m = Model {
            ctx,
            counts: [0; 3],
            flavors,
            consume,
            path: path.to_string(),
            err: None,
            sites: vec![],
            macro_depth: 0,
            attrs_seen: 0,
        };
        m.visit_item_mut(&mut item);
        match m.err {
            Some(e) => Err(e),
            None => Ok(Expansion { uses, item, sites: m.sites, attrs_seen: m.attrs_seen }),
        }
    }

    fn fail(&mut self, e: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(e.into());
        }
    }

    fn flavor(&mut self, v: &Expr) -> Result<Flavor, String> {
        let p = flavor_path(v)?;
        lookup(self.flavors, &p).cloned().ok_or_else(|| format!("unknown flavor {p:?}"))
    }

    /// Reads and removes the tool's attributes; returns the context for the construct.
    fn take_attrs(&mut self, attrs: &mut Vec<Attribute>) -> Result<Ctx, String> {
        let mut c = self.ctx.clone();
        let mut method: Option<Method> = None;
        let mut ignore: Option<Vec<String>> = None;
        let (mut skip, mut skip_all) = (false, false);
        let mut keep = vec![];
        for a in attrs.drain(..) {
            let segs: Vec<String> = a.path().segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.first().map(|s| s.as_str()) != Some("hooq") || segs.len() == 1 {
                keep.push(a);
                continue;
            }
            self.attrs_seen += 1;
            if segs.len() > 2 {
                return Err("long hooq path".into());
            }
            let name = segs[1].as_str();
            match &a.meta {
                Meta::Path(_) => match name {
                    "skip" => skip = true,
                    "skip_all" => skip_all = true,
                    _ => return Err(format!("unknown attribute {name}")),
                },
                Meta::List(l) => {
                    let t = l.tokens.clone();
                    match name {
                        "method" => method = Some(parse_method(t, self.consume)),
                        "hook_targets" => c.targets = targets_of(&strings(t)?)?,
                        "tail_expr_idents" => {
                            let (a, b) = split_bang(&strings(t)?);
                            c.tail_idents = a;
                            ignore = match ignore {
                                Some(mut v) => {
                                    v.extend(b);
                                    Some(v)
                                }
                                None if b.is_empty() => None,
                                None => Some(b),
                            };
                        }
                        "ignore_tail_expr_idents" => {
                            let b = strings(t)?;
                            ignore = Some(match ignore {
                                Some(mut v) => {
                                    v.extend(b);
                                    v
                                }
                                None => b,
                            });
                        }
                        "result_types" => c.result_types = strings(t)?,
                        "hook_in_macros" => c.in_macros = syn::parse2::<LitBool>(t).map_err(|e| e.to_string())?.value,
                        "binding" | "var" => {
                            let nv: MetaNameValue = syn::parse2(t).map_err(|e| e.to_string())?;
                            let id = nv.path.get_ident().ok_or("bad binding name")?;
                            c.bindings.insert(id.to_string(), nv.value.to_token_stream());
                        }
                        _ => return Err(format!("unknown attribute {name}(..)")),
                    }
                }
                Meta::NameValue(nv) => match name {
                    "flavor" => {
                        let f = self.flavor(&nv.value)?;
                        method = Some(f.method);
                        c.targets = f.targets;
                        c.tail_idents = f.tail_idents;
                        ignore = Some(f.ignore_idents);
                        c.result_types = f.result_types;
                        c.in_macros = f.in_macros;
                        c.bindings.extend(f.bindings);
                    }
                    "method" => method = Some(self.flavor(&nv.value)?.method),
                    "hook_targets" => c.targets = self.flavor(&nv.value)?.targets,
                    "tail_expr_idents" => {
                        let f = self.flavor(&nv.value)?;
                        c.tail_idents = f.tail_idents;
                        ignore = Some(f.ignore_idents);
                    }
                    "ignore_tail_expr_idents" => return Err("ignore_tail_expr_idents = flavor".into()),
                    "result_types" => c.result_types = self.flavor(&nv.value)?.result_types,
                    "hook_in_macros" => c.in_macros = self.flavor(&nv.value)?.in_macros,
                    "bindings" => {
                        let f = self.flavor(&nv.value)?;
                        c.bindings.extend(f.bindings);
                    }
                    _ => {
                        c.bindings.insert(name.to_string(), nv.value.to_token_stream());
                    }
                },
            }
        }
        *attrs = keep;
        if let Some(v) = ignore {
            c.ignore_idents = v;
        }
        if let Some(m) = method {
            c.method = Rc::new(Chain { val: Rc::new(m), up: Some(c.method.clone()) });
        }
        if skip_all {
            c.skip = Skip::All;
        } else if skip {
            // a plain skip inside a skip_all region cannot re-enable anything
            c.skip = if c.skip == Skip::All { Skip::All } else { Skip::Same };
        }
        Ok(c)
    }

    fn with_ctx<R>(&mut self, c: Ctx, f: impl FnOnce(&mut Self) -> R) -> R {
        let old = std::mem::replace(&mut self.ctx, c);
        let r = f(self);
        self.ctx = old;
        r
    }

    fn with_attrs(&mut self, attrs: &mut Vec<Attribute>, f: impl FnOnce(&mut Self)) {
        match self.take_attrs(attrs) {
            Ok(c) => self.with_ctx(c, f),
            Err(e) => self.fail(e),
        }
    }

    fn subscope(&self) -> Ctx {
        let mut c = self.ctx.clone();
        if c.skip == Skip::Same {
            c.skip = Skip::No;
        }
        c
    }

    fn block(&mut self, b: &mut Block, kind: BlockKind) {
        let c = self.subscope();
        self.with_ctx(c, |s| {
            let n = b.stmts.len();
            for (i, st) in b.stmts.iter_mut().enumerate() {
                s.stmt(st, if i + 1 == n { kind } else { BlockKind::NotTail });
            }
        })
    }

    fn stmt(&mut self, st: &mut Stmt, kind: BlockKind) {
        match st {
            Stmt::Expr(e, None) if kind != BlockKind::NotTail => self.tail(e, kind),
            Stmt::Expr(e, _) => self.visit_expr_mut(e),
            Stmt::Local(Local { attrs, init: Some(init), .. }) => {
                let mut a = std::mem::take(attrs);
                self.with_attrs(&mut a, |s| {
                    s.visit_expr_mut(&mut init.expr);
                    if let Some((_, d)) = &mut init.diverge {
                        s.visit_expr_mut(d);
                    }
                });
                *attrs = a;
            }
            Stmt::Local(l) => {
                let mut a = std::mem::take(&mut l.attrs);
                self.with_attrs(&mut a, |_| {});
                l.attrs = a;
            }
            Stmt::Item(i) => self.visit_item_mut(i),
            Stmt::Macro(m) => {
                let mut a = std::mem::take(&mut m.attrs);
                self.with_attrs(&mut a, |s| s.mac(&mut m.mac));
                m.attrs = a;
            }
        }
    }

    fn ret_is_result(&self) -> bool {
        match &self.ctx.func {
            Some(FnInfo { ret: ReturnType::Type(_, t), .. }) => match &**t {
                Type::Path(p) => self.ctx.result_types.iter().any(|r| *r == last_ident(&p.path)),
                _ => false,
            },
            _ => false,
        }
    }

    /// name of the function called, when the value is a plain call of a path
    fn call_name(e: &Expr) -> Option<String> {
        match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => Some(last_ident(&p.path)),
                _ => None,
            },
            _ => None,
        }
    }

    fn value_is_target(&self, e: &Expr, own_body: bool) -> bool {
        let name = Self::call_name(e);
        let always = name.as_ref().is_some_and(|n| self.ctx.tail_idents.contains(n));
        let ignored = name.as_ref().is_some_and(|n| self.ctx.ignore_idents.contains(n));
        always || (own_body && self.ret_is_result() && !ignored)
    }

    /// Reads the tool's attributes off an expression and leaves all others in place.
    fn expr_ctx(&mut self, e: &mut Expr) -> Option<Ctx> {
        let r = match expr_attrs(e) {
            Some(a) => self.take_attrs(a),
            None => return None,
        };
        match r {
            Ok(c) => Some(c),
            Err(x) => {
                self.fail(x);
                None
            }
        }
    }

    fn tail(&mut self, e: &mut Expr, kind: BlockKind) {
        let Some(c) = self.expr_ctx(e) else { return };
        self.with_ctx(c, |s| {
            let source = e.to_token_stream();
            let span = e.span();
            s.visit_expr_mut(e);
            if s.err.is_some() {
                return;
            }
            // control never falls out of these, so they have no tail value
            if matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)) {
                return;
            }
            if s.value_is_target(e, kind == BlockKind::FnBody) {
                s.hook(e, source, Kind::Tail, span);
            }
        });
    }

    fn hook(&mut self, e: &mut Expr, source: TokenStream, kind: Kind, span: Span) -> bool {
        let st = span.start();
        let mut site = Site {
            kind,
            line: st.line,
            col: st.column + 1,
            hooked: false,
            skipped: self.ctx.skip != Skip::No,
            count: 0,
            fn_name: self.ctx.func.as_ref().map(|f| f.name.clone()).unwrap_or("<unknown>".into()),
            in_macro: self.macro_depth > 0,
        };
        if site.skipped {
            self.sites.push(site);
            return false;
        }
        self.counts[kind as usize] += 1;
        site.count = self.counts[kind as usize];
        site.hooked = self.ctx.targets[kind as usize];
        self.sites.push(site);
        if !self.ctx.targets[kind as usize] {
            return false;
        }
        let chain = self.ctx.method.clone();
        let t = match self.template(chain.val.ts.clone(), e, &source, kind, span, &chain) {
            Ok(t) => t,
            Err(er) => {
                self.fail(er);
                return false;
            }
        };
        let full = if chain.val.insert {
            let o = operand(e);
            quote! { #o . #t }
        } else {
            t
        };
        // an invisible group can also be taken apart by the parser, as in `.$expr`
        match syn::parse2::<Expr>(full.clone()).map(|x| syn::parse2::<Expr>(parens(full.clone())).unwrap_or(x)) {
            Ok(x) => *e = x,
            Err(er) => self.fail(format!("hook does not parse: {er}: {full}")),
        }
        chain.val.exc
    }

    fn template(
        &self,
        t: TokenStream,
        e: &Expr,
        source: &TokenStream,
        kind: Kind,
        span: Span,
        at: &Rc<Chain<Method>>,
    ) -> Result<TokenStream, String> {
        let mut out = TokenStream::new();
        let mut dollar = false;
        for tt in t {
            if dollar {
                dollar = false;
                let TokenTree::Ident(id) = &tt else { return Err("$ before non-identifier".into()) };
                let p = span.start();
                let (line, col) = (p.line, p.column + 1);
                let file = self.path.rsplit('/').next().unwrap_or("").to_string();
                let path = self.path.clone();
                let f = self.ctx.func.as_ref();
                let r: TokenStream = match id.to_string().as_str() {
                    "line" => quote!(#line),
                    "column" | "col" => quote!(#col),
                    "path" => quote!(#path),
                    "file" => quote!(#file),
                    "expr" => operand(e),
                    "source" => source.clone(),
                    "count" | "nth" => {
                        let s = format!("{} {}", ordinal(self.counts[kind as usize]), kind.text());
                        quote!(#s)
                    }
                    "fn_name" | "fnname" => {
                        let s = f.map(|f| f.name.clone()).unwrap_or("<unknown>".into());
                        quote!(#s)
                    }
                    "fn_sig" | "fnsig" => {
                        let s = f.map(|f| f.sig.clone()).unwrap_or("<unknown>".into());
                        quote!(#s)
                    }
                    "so_far" | "sofar" => match &at.up {
                        None => return Err("$so_far without overridden method".into()),
                        Some(u) => self.template(u.val.ts.clone(), e, source, kind, span, u)?,
                    },
                    "bindings" | "vars" => {
                        let names: Vec<&String> = self.ctx.bindings.keys().collect();
                        let vals: Vec<&TokenStream> = self.ctx.bindings.values().collect();
                        quote!(__bindings!(#(#names = #vals),*))
                    }
                    "hooq_meta" | "hooqmeta" => quote!(__meta!()),
                    n => match self.ctx.bindings.get(n) {
                        Some(v) => v.clone(),
                        None => return Err(format!("unknown variable {n}")),
                    },
                };
                out.extend(r);
                continue;
            }
            match tt {
                TokenTree::Punct(p) if p.as_char() == '$' => dollar = true,
                TokenTree::Group(g) => {
                    let inner = self.template(g.stream(), e, source, kind, span, at)?;
                    out.extend([TokenTree::Group(Group::new(g.delimiter(), inner))]);
                }
                x => out.extend([x]),
            }
        }
        if dollar {
            return Err("dangling $".into());
        }
        Ok(out)
    }

    fn enter_fn(&mut self, sig: &Signature, block: &mut Block) {
        let mut c = self.ctx.clone();
        c.func = Some(FnInfo { name: sig.ident.to_string(), sig: sig.to_token_stream().to_string(), ret: sig.output.clone() });
        c.outer_fn = Some(sig.ident.to_string());
        self.with_ctx(c, |s| s.block(block, BlockKind::FnBody));
    }

    fn mac(&mut self, m: &mut Macro) {
        if !self.ctx.in_macros {
            return;
        }
        let Some(mut parts) = parse_macro_args(m.tokens.clone()) else { return };
        self.macro_depth += 1;
        let mut out = TokenStream::new();
        for (p, sep) in parts.iter_mut() {
            match p {
                Part::Items(head, v) => {
                    out.extend(head.clone());
                    for i in v.iter_mut() {
                        self.visit_item_mut(i);
                        i.to_tokens(&mut out);
                    }
                }
                Part::Expr(e) => {
                    self.visit_expr_mut(e);
                    e.to_tokens(&mut out);
                }
                Part::Stmt(s) => {
                    self.stmt(s, BlockKind::NotTail);
                    s.to_tokens(&mut out);
                }
            }
            out.extend(sep.clone());
        }
        self.macro_depth -= 1;
        m.tokens = out;
    }
}

/// The operand as one unit; its attributes stay in front.
fn operand(e: &Expr) -> TokenStream {
    let mut e = e.clone();
    let mut a = expr_attrs(&mut e).map(std::mem::take).unwrap_or_default();
    a.iter_mut().for_each(|a| a.style = syn::AttrStyle::Outer);
    let g = Group::new(proc_macro2::Delimiter::None, e.to_token_stream());
    quote! { #(#a)* #g }
}

/// Makes the units visible; not in macro arguments of unknown form, which are compared token by token.
fn parens(t: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for tt in t {
        out.push(match tt {
            TokenTree::Group(g) => {
                let opaque = matches!(&out[..], [.., TokenTree::Ident(_), TokenTree::Punct(p)] if p.as_char() == '!') && parse_macro_args(g.stream()).is_none();
                let d = if g.delimiter() == proc_macro2::Delimiter::None { proc_macro2::Delimiter::Parenthesis } else { g.delimiter() };
                TokenTree::Group(Group::new(d, if opaque { g.stream() } else { parens(g.stream()) }))
            }
            x => x,
        });
    }
    out.into_iter().collect()
}

pub enum Part {
    Items(TokenStream, Vec<Item>),
    Expr(Expr),
    Stmt(Stmt),
}

/// Splits macro arguments into Rust pieces separated by `,` or `;`, or None when they are not Rust.
pub fn parse_macro_args(t: TokenStream) -> Option<Vec<(Part, TokenStream)>> {
    if t.is_empty() {
        return None;
    }
    use syn::parse::discouraged::Speculative;
    use syn::parse::{ParseStream, Parser};
    fn sep_next(i: ParseStream) -> bool {
        i.is_empty() || i.peek(Token![,]) || i.peek(Token![;])
    }
    let p = |input: ParseStream| -> syn::Result<Vec<(Part, TokenStream)>> {
        let mut v = vec![];
        while !input.is_empty() {
            let part = 'p: {
                // all the rest may be a list of items
                let f = input.fork();
                if let Ok(i) = f.parse::<File>() {
                    if f.is_empty() {
                        input.advance_to(&f);
                        let mut head = TokenStream::new();
                        i.attrs.iter().for_each(|a| a.to_tokens(&mut head));
                        break 'p Part::Items(head, i.items);
                    }
                }
                let f = input.fork();
                if let Ok(i) = f.parse::<Item>() {
                    if sep_next(&f) {
                        input.advance_to(&f);
                        break 'p Part::Items(TokenStream::new(), vec![i]);
                    }
                }
                let f = input.fork();
                if let Ok(i) = f.parse::<Expr>() {
                    if sep_next(&f) {
                        input.advance_to(&f);
                        break 'p Part::Expr(i);
                    }
                }
                let f = input.fork();
                if let Ok(i) = f.parse::<Stmt>() {
                    if sep_next(&f) {
                        input.advance_to(&f);
                        break 'p Part::Stmt(i);
                    }
                }
                return Err(input.error("not rust"));
            };
            let sep = if input.peek(Token![,]) {
                input.parse::<Token![,]>()?.to_token_stream()
            } else if input.peek(Token![;]) {
                input.parse::<Token![;]>()?.to_token_stream()
            } else {
                TokenStream::new()
            };
            v.push((part, sep));
        }
        Ok(v)
    };
    p.parse2(t).ok()
}

pub fn ordinal(n: usize) -> String {
    let suf = match (n % 10, n % 100) {
        (1, x) if x != 11 => "st",
        (2, x) if x != 12 => "nd",
        (3, x) if x != 13 => "rd",
        _ => "th",
    };
    format!("{n}{suf}")
}

pub fn flat(t: TokenStream) -> String {
    fn go(t: TokenStream, s: &mut String) {
        // documentation comments are turned into literals with escapes of the compiler's own choice
        let mut doc = 0;
        for tt in t {
            doc = match &tt {
                TokenTree::Ident(i) if i == "doc" => 1,
                TokenTree::Punct(p) if doc == 1 && p.as_char() == '=' => 2,
                TokenTree::Literal(_) if doc == 2 => 3,
                _ => 0,
            };
            match tt {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("(", ")"),
                    };
                    s.push_str(o);
                    s.push(' ');
                    go(g.stream(), s);
                    s.push_str(c);
                    s.push(' ');
                }
                TokenTree::Punct(p) => {
                    s.push(p.as_char());
                    s.push(' ');
                }
                t => {
                    match syn::parse_str::<syn::LitStr>(&t.to_string()) {
                        Ok(l) if doc == 3 => s.push_str(&format!("{:?}", l.value())),
                        _ => s.push_str(&t.to_string()),
                    }
                    s.push(' ');
                }
            }
        }
    }
    let mut s = String::new();
    go(t, &mut s);
    s
}

macro_rules! attrs_match {
    ($e:expr; $($v:ident),*) => { match $e { $(Expr::$v(x) => Some(&mut x.attrs),)* _ => None } };
}
pub fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    attrs_match!(e; Array, Assign, Async, Await, Binary, Block, Break, Call, Cast, Closure, Const, Continue, Field,
        ForLoop, Group, If, Index, Infer, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range, RawAddr,
        Reference, Repeat, Return, Struct, Try, TryBlock, Tuple, Unary, Unsafe, While, Yield)
}

impl VisitMut for Model<'_> {
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_generics_mut(&mut self, _: &mut Generics) {}
    fn visit_path_mut(&mut self, _: &mut Path) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, _: &mut AngleBracketedGenericArguments) {}

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() {
            return;
        }
        let Some(c) = self.expr_ctx(e) else { return };
        self.with_ctx(c, |s| s.expr_inner(e));
    }

    fn visit_arm_mut(&mut self, arm: &mut Arm) {
        let mut a = std::mem::take(&mut arm.attrs);
        self.with_attrs(&mut a, |s| {
            if let Some((_, g)) = &mut arm.guard {
                s.visit_expr_mut(g);
            }
            if matches!(*arm.body, Expr::Block(_)) {
                s.visit_expr_mut(&mut arm.body);
            } else {
                s.tail(&mut arm.body, BlockKind::Inner);
            }
        });
        arm.attrs = a;
    }

    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        let mut a = std::mem::take(&mut f.attrs);
        self.with_attrs(&mut a, |s| s.visit_expr_mut(&mut f.expr));
        f.attrs = a;
    }

    fn visit_item_mut(&mut self, i: &mut Item) {
        if self.err.is_some() {
            return;
        }
        match i {
            Item::Fn(f) => {
                let mut a = std::mem::take(&mut f.attrs);
                self.with_attrs(&mut a, |s| s.enter_fn(&f.sig.clone(), &mut f.block));
                f.attrs = a;
            }
            Item::Impl(im) => {
                let mut a = std::mem::take(&mut im.attrs);
                self.with_attrs(&mut a, |s| {
                    for it in &mut im.items {
                        match it {
                            ImplItem::Fn(f) => {
                                let mut a = std::mem::take(&mut f.attrs);
                                s.with_attrs(&mut a, |s| s.enter_fn(&f.sig.clone(), &mut f.block));
                                f.attrs = a;
                            }
                            ImplItem::Const(c) => {
                                let mut a = std::mem::take(&mut c.attrs);
                                s.with_attrs(&mut a, |s| s.visit_expr_mut(&mut c.expr));
                                c.attrs = a;
                            }
                            ImplItem::Type(t) => {
                                let mut a = std::mem::take(&mut t.attrs);
                                s.with_attrs(&mut a, |_| {});
                                t.attrs = a;
                            }
                            ImplItem::Macro(m) => {
                                let mut a = std::mem::take(&mut m.attrs);
                                s.with_attrs(&mut a, |s| s.mac(&mut m.mac));
                                m.attrs = a;
                            }
                            _ => {}
                        }
                    }
                });
                im.attrs = a;
            }
            Item::Trait(t) => {
                let mut a = std::mem::take(&mut t.attrs);
                self.with_attrs(&mut a, |s| {
                    for it in &mut t.items {
                        match it {
                            TraitItem::Fn(f) => {
                                let mut a = std::mem::take(&mut f.attrs);
                                s.with_attrs(&mut a, |s| {
                                    if let Some(b) = &mut f.default {
                                        s.enter_fn(&f.sig.clone(), b)
                                    }
                                });
                                f.attrs = a;
                            }
                            TraitItem::Const(c) => {
                                let mut a = std::mem::take(&mut c.attrs);
                                s.with_attrs(&mut a, |s| {
                                    if let Some((_, e)) = &mut c.default {
                                        s.visit_expr_mut(e)
                                    }
                                });
                                c.attrs = a;
                            }
                            TraitItem::Type(t) => {
                                let mut a = std::mem::take(&mut t.attrs);
                                s.with_attrs(&mut a, |_| {});
                                t.attrs = a;
                            }
                            TraitItem::Macro(m) => {
                                let mut a = std::mem::take(&mut m.attrs);
                                s.with_attrs(&mut a, |s| s.mac(&mut m.mac));
                                m.attrs = a;
                            }
                            _ => {}
                        }
                    }
                });
                t.attrs = a;
            }
            Item::Mod(m) => {
                if let Some((_, items)) = &mut m.content {
                    let mut a = std::mem::take(&mut m.attrs);
                    self.with_attrs(&mut a, |s| items.iter_mut().for_each(|i| s.visit_item_mut(i)));
                    m.attrs = a;
                }
            }
            Item::Const(ItemConst { attrs, expr, .. }) | Item::Static(ItemStatic { attrs, expr, .. }) => {
                let mut a = std::mem::take(attrs);
                self.with_attrs(&mut a, |s| s.visit_expr_mut(expr));
                *attrs = a;
            }
            Item::Macro(m) if m.ident.is_none() => {
                let mut a = std::mem::take(&mut m.attrs);
                self.with_attrs(&mut a, |s| s.mac(&mut m.mac));
                m.attrs = a;
            }
            other => {
                if let Some(x) = crate::norm::item_attrs(other) {
                    let mut a = std::mem::take(x);
                    self.with_attrs(&mut a, |_| {});
                    *crate::norm::item_attrs(other).unwrap() = a;
                }
            }
        }
    }
}

impl Model<'_> {
    fn expr_inner(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) => {
                let source = t.to_token_stream();
                let span = t.question_token.span();
                self.visit_expr_mut(&mut t.expr);
                if self.err.is_some() {
                    return;
                }
                if self.hook(&mut t.expr, source, Kind::Question, span) {
                    let mut x = (*t.expr).clone();
                    if let Some(a) = expr_attrs(&mut x) {
                        a.splice(0..0, t.attrs.drain(..));
                    }
                    *e = x;
                }
            }
            Expr::Return(r) => {
                let source = r.to_token_stream();
                let span = r.return_token.span();
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                    if self.value_is_target(x, true) {
                        self.hook(x, source, Kind::Return, span);
                    }
                }
            }
            Expr::Closure(c) => {
                let name = self.ctx.outer_fn.clone().unwrap_or("<unknown>".into());
                let mut shown = c.clone();
                shown.body = Box::new(parse_quote!({}));
                let mut ctx = self.ctx.clone();
                ctx.func = Some(FnInfo {
                    name: format!("__closure_in_{name}__"),
                    sig: shown.to_token_stream().to_string(),
                    ret: c.output.clone(),
                });
                self.with_ctx(ctx, |s| match &mut *c.body {
                    Expr::Block(b) => {
                        let mut a = std::mem::take(&mut b.attrs);
                        s.with_attrs(&mut a, |s| s.block(&mut b.block, BlockKind::FnBody));
                        b.attrs = a;
                    }
                    body => s.tail(body, BlockKind::FnBody),
                });
            }
            Expr::Block(b) => self.block(&mut b.block, BlockKind::Inner),
            Expr::Async(b) => self.block(&mut b.block, BlockKind::Inner),
            Expr::Unsafe(b) => self.block(&mut b.block, BlockKind::Inner),
            Expr::Const(b) => self.block(&mut b.block, BlockKind::Inner),
            Expr::TryBlock(b) => self.block(&mut b.block, BlockKind::Inner),
            Expr::Loop(b) => self.block(&mut b.body, BlockKind::Inner),
            Expr::ForLoop(b) => {
                self.visit_expr_mut(&mut b.expr);
                self.block(&mut b.body, BlockKind::Inner);
            }
            Expr::While(b) => {
                self.visit_expr_mut(&mut b.cond);
                self.block(&mut b.body, BlockKind::Inner);
            }
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.block(&mut i.then_branch, BlockKind::Inner);
                if let Some((_, els)) = &mut i.else_branch {
                    // an else branch (also `else if`) is a nested scope
                    let c = self.subscope();
                    self.with_ctx(c, |s| s.visit_expr_mut(els));
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                let c = self.subscope();
                self.with_ctx(c, |s| m.arms.iter_mut().for_each(|a| s.visit_arm_mut(a)));
            }
            Expr::Macro(m) => self.mac(&mut m.mac),
            other => visit_mut::visit_expr_mut(self, other),
        }
    }
}
