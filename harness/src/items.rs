//! Untyped generator of annotated items. Text conventions before layout: ' ' is whitespace of any kind,
//! '·' is optional whitespace, '␠' and '␤' are a literal space / newline inside string literals.
use crate::src::{Rng, Src};

#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
pub struct Prec(pub u8);
pub const JUMP: Prec = Prec(0);
pub const ASSIGN: Prec = Prec(1);
pub const RANGE: Prec = Prec(2);
pub const CAST: Prec = Prec(12);
pub const UNARY: Prec = Prec(13);
pub const POSTFIX: Prec = Prec(14);

#[derive(Clone, Debug)]
pub struct E {
    pub t: String,
    pub p: Prec,
    /// a struct literal is exposed (not inside delimiters)
    pub st: bool,
    /// leftmost token belongs to a block-like expression
    pub lead_block: bool,
    /// the whole expression is block-like
    pub block: bool,
    /// attributes may not be put here (literal, path, ...)
    pub plain: bool,
    pub lit: bool,
}

impl E {
    fn atom(t: impl Into<String>) -> E {
        E { t: t.into(), p: POSTFIX, st: false, lead_block: false, block: false, plain: false, lit: false }
    }
    fn plain(t: impl Into<String>) -> E {
        E { plain: true, ..E::atom(t) }
    }
    fn blk(t: impl Into<String>) -> E {
        E { lead_block: true, block: true, ..E::atom(t) }
    }
    fn at(self, p: Prec) -> E {
        E { p, ..self }
    }
    pub fn paren(self) -> E {
        E::atom(format!("(·{}·)", self.t))
    }
    fn need(self, p: Prec) -> E {
        if self.p < p { self.paren() } else { self }
    }
}

/// What the generator may produce; every property's check picks its own mixture.
#[derive(Clone, Debug)]
pub struct Profile {
    pub attr_pct: u32,
    /// method, targets, tail_idents, ignore, result_types, in_macros, binding, skip, skip_all, flavor, field=flavor
    pub attr_w: [u32; 11],
    pub keep_pct: u32,
    /// weights of one, two, three attributes on one construct
    pub multi_w: [u32; 3],
    pub macro_pct: u32,
    pub try_pct: u32,
    pub flavors: Vec<String>,
    pub root_flavor_pct: u32,
    /// string literals: 0 the fixed pool, 1 random single-line ones, 2 also raw and multi-line ones
    pub rich_str: u8,
    pub root_method: bool,
    pub template: TemplateStyle,
    /// low-precedence operands at returns and tails
    pub lowprec: bool,
    pub named_calls: bool,
    pub closures_pct: u32,
    pub max_depth: u32,
    pub so_far: bool,
    pub bang_pct: u32,
    pub root_kinds: Vec<&'static str>,
    pub bindings: Vec<&'static str>,
    /// chance of a malformed piece in a method
    pub bad_pct: u32,
    /// written on the annotated item as it is
    pub root_extra: &'static str,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TemplateStyle {
    /// `.h(..)` with the tag only
    Insert,
    /// position variables
    Position,
    /// source, count and function variables
    Describe,
    /// arbitrary insertions and replacements
    Mixed,
    /// replacement only
    Replace,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            attr_pct: 12,
            attr_w: [4, 3, 3, 3, 3, 2, 4, 3, 3, 0, 0],
            keep_pct: 4,
            multi_w: [6, 3, 1],
            macro_pct: 6,
            try_pct: 28,
            flavors: vec![],
            root_flavor_pct: 0,
            rich_str: 0,
            root_method: true,
            template: TemplateStyle::Insert,
            lowprec: true,
            named_calls: true,
            closures_pct: 8,
            max_depth: 5,
            so_far: false,
            bang_pct: 0,
            root_kinds: vec!["fn", "fn", "fn", "impl", "trait", "mod", "const", "static"],
            bindings: vec!["t0", "t1"],
            bad_pct: 0,
            root_extra: "",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Insert,
    Replace,
    Unknown,
}

pub struct G<'a> {
    pub s: &'a mut Src,
    pub p: Profile,
    depth: u32,
    n: u32,
    mode: Mode,
    /// a construct around set the method, so `$so_far` is defined
    overridden: bool,
    in_async: bool,
    labels: Vec<String>,
}

const IDS: &[&str] = &["x", "y", "foo", "self_", "a_b", "Bar", "r#type", "été"];
const NAMES: &[&str] = &["Err", "Ok", "Some", "None", "Left", "Right", "enresult", "Result", "f", "make"];
const TYPES: &[&str] = &[
    "Result<(),·()>",
    "u32",
    "Option<i32>",
    "std::result::Result<u8,·String>",
    "anyhow::Result<()>",
    "MyResult",
    "io::MyResult<u8>",
    "(Result<(),·()>,·u8)",
    "&'static Result<(),·()>",
    "Box<Result<u8,·u8>>",
    "impl Future<Output·=·Result<(),·()>>",
    "::core::result::Result<Vec<u8>,·Box<dyn Error>>",
    "<T as Tr>::Result",
    "[Result<u8,·u8>;·2]",
    "!",
    "()",
    "Either<u8,·Result<u8,·u8>>",
];
const RT_NAMES: &[&str] = &["Result", "Option", "MyResult", "Either", "Box", "u32"];

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, p: Profile) -> Self {
        G { s, p, depth: 0, n: 0, mode: Mode::Unknown, overridden: false, in_async: false, labels: vec![] }
    }

    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }

    fn id(&mut self) -> String {
        self.s.pick(IDS).to_string()
    }

    pub fn rich_strlit(&mut self) -> String {
        let mut v = String::new();
        let n = if self.s.chance(30) { self.s.below(4) } else { self.s.below(26) };
        let raw = self.p.rich_str > 1 && self.s.chance(15);
        for _ in 0..n {
            let c = match self.s.below(20) {
                0..=9 => (b'a' + self.s.below(26) as u8) as char,
                10 | 11 => (b'0' + self.s.below(10) as u8) as char,
                12 | 13 => '␠',
                14 => 'é',
                15 => '漢',
                16 => '🦀',
                17 if !raw => {
                    v.push_str(*self.s.pick(&["\\n", "\\\"", "\\\\", "\\n\\n"]));
                    continue;
                }
                18 if self.p.rich_str > 1 && self.s.chance(50) => '␤',
                _ => *self.s.pick(&['.', '(', '{', '\'', '/', '?', ',']),
            };
            v.push(c);
        }
        if raw { format!("r#\"{v}\"#") } else { format!("\"{v}\"") }
    }

    fn strlit(&mut self) -> String {
        if self.p.rich_str > 0 {
            return self.rich_strlit();
        }
        match self.s.below(8) {
            0 => "\"\"".into(),
            1 => "\"s␠t\"".into(),
            2 => "\"héé␠漢字␠🦀\"".into(),
            3 => "\"a\\n\\\"b\\\\\"".into(),
            4 => "\"line␤␠␠two\"".into(),
            5 => "r#\"raw␠\"quoted\"#".into(),
            6 => "b\"bytes\"".into(),
            _ => "c\"cstr\"".into(),
        }
    }

    fn lit(&mut self) -> E {
        let k = if self.p.rich_str > 0 && self.s.chance(50) { 7 } else { self.s.below(8) };
        let t = match k {
            0 => "0".to_string(),
            1 => "1u8".into(),
            2 => "0xff_u32".into(),
            3 => "1.5".into(),
            4 => "'c'".into(),
            5 => "true".into(),
            6 => "1e3".into(),
            _ => self.strlit(),
        };
        E { lit: true, ..E::plain(t) }
    }

    fn path(&mut self) -> E {
        let i = self.id();
        let t = match self.s.below(7) {
            0 | 1 | 2 => i,
            3 => format!("m::{i}"),
            4 => format!("Self::{i}"),
            5 => format!("<T as Tr>::{i}"),
            _ => format!("crate::q::{i}::<u8>"),
        };
        E::plain(t)
    }

    fn callee(&mut self) -> String {
        let n = if self.p.named_calls { self.s.pick(NAMES).to_string() } else { self.id() };
        match self.s.below(9) {
            0..=5 => n,
            6 => format!("Result::{n}"),
            7 => format!("::std::result::Result::{n}"),
            _ => format!("{n}::<(),·u8>"),
        }
    }

    // ---------------------------------------------------------------- attributes

    fn names(&mut self, pool: &[&str], bang: bool) -> String {
        let n = self.s.below(3);
        let mut v = vec![];
        for _ in 0..n {
            let x = self.s.pick(pool).to_string();
            let b = if bang && self.s.chance(30) { "!" } else { "" };
            v.push(format!("\"{b}{x}\""));
        }
        let mut r = v.join(",·");
        if n > 0 && self.s.chance(20) {
            r.push(',');
        }
        r
    }

    fn flavor_value(&mut self) -> String {
        let f = self.p.flavors.clone();
        let f = self.s.pick(&f).clone();
        match self.s.below(3) {
            0 if !f.contains('-') => f.replace('.', "::"),
            1 => format!("\"{f}\""),
            _ => format!("\"{}\"", f.replace('.', "::")),
        }
    }

    fn binding_value(&mut self) -> String {
        match self.s.below(9) {
            0 => {
                self.n += 1;
                format!("\"v{}\"", self.n)
            }
            1 => {
                self.n += 1;
                format!("{}", self.n)
            }
            2 => "1 +·2".into(),
            3 => "g(x)?".into(),
            4 => "|v|·v +·1".into(),
            5 => "S {·a:·1 }".into(),
            6 => "Some::<u8>(·1·)".into(),
            7 => "{ let q =·1;·q }".into(),
            _ => "-x.y as u8".into(),
        }
    }

    fn one_attr(&mut self) -> (String, Option<Mode>) {
        let w = self.p.attr_w;
        let mut w = w;
        if self.p.flavors.is_empty() {
            w[9] = 0;
            w[10] = 0;
        }
        let mut mode = None;
        let body = match self.s.weighted(&w) {
            0 => {
                let (t, m) = self.template();
                mode = Some(m);
                format!("hooq::method(·{t}·)")
            }
            1 => {
                let mut v = vec![];
                for _ in 0..self.s.below(3) {
                    v.push(
                        ["\"?\"", "\"return\"", "\"tail_expr\"", "\"question\"", "\"tail␠expr\"", "\"tailexpr\"", "\"tailExpr\"", "\"all\""]
                            [self.s.below(8) as usize],
                    );
                }
                format!("hooq::hook_targets(·{}·)", v.join(",·"))
            }
            2 => format!("hooq::tail_expr_idents(·{}·)", self.names(NAMES, true)),
            3 => format!("hooq::ignore_tail_expr_idents(·{}·)", self.names(NAMES, false)),
            4 => format!("hooq::result_types(·{}·)", self.names(RT_NAMES, false)),
            5 => format!("hooq::hook_in_macros(·{}·)", if self.s.chance(60) { "false" } else { "true" }),
            6 => {
                let b = self.p.bindings.clone();
                let n = self.s.pick(&b).to_string();
                let v = self.binding_value();
                match self.s.below(3) {
                    0 => format!("hooq::{n} =·{v}"),
                    1 => format!("hooq::binding(·{n} =·{v}·)"),
                    _ => format!("hooq::var(·{n}·=·{v}·)"),
                }
            }
            7 => "hooq::skip".into(),
            8 => "hooq::skip_all".into(),
            9 => {
                mode = Some(Mode::Unknown);
                format!("hooq::flavor =·{}", self.flavor_value())
            }
            _ => {
                let f = self.flavor_value();
                let k = *self.s.pick(&["method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"]);
                if k == "method" {
                    mode = Some(Mode::Unknown);
                }
                format!("hooq::{k} =·{f}")
            }
        };
        (format!("#[{body}]"), mode)
    }

    fn keep_attr(&mut self) -> String {
        match self.s.below(7) {
            0 => "#[allow(unused)]".into(),
            1 => "#[cfg(any())]".into(),
            2 => "#[keep::me(a =·\"b\",·c)]".into(),
            3 => "#[keep =·\"v\"]".into(),
            4 => "#[hooq_like::skip]".into(),
            5 => "#[doc =·\"text\"]".into(),
            _ => "#[skip]".into(),
        }
    }

    /// The block (first brace opens it), now and then with an inner attribute.
    fn inner(&mut self, b: String) -> String {
        if !self.s.chance(self.p.keep_pct) {
            return b;
        }
        // the compiler evaluates `cfg` in a function before any macro runs
        let a = self.keep_attr().replace("cfg(any())", "deny(dead_code)").replacen('#', "#!", 1);
        b.replacen("{ ", &format!("{{ {a}·"), 1)
    }

    /// Attributes in front of a construct, then the construct generated under them.
    fn with_attrs<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> (String, R) {
        let mut out = String::new();
        let mut mode = None;
        if self.s.chance(self.p.attr_pct) {
            let n = self.s.weighted(&self.p.multi_w.clone()) + 1;
            for _ in 0..n {
                if self.s.chance(15) {
                    out.push_str(&self.keep_attr());
                    out.push('·');
                }
                let (t, m) = self.one_attr();
                if m.is_some() {
                    mode = m;
                }
                out.push_str(&t);
                out.push('·');
            }
        }
        if self.s.chance(self.p.keep_pct) {
            out.push_str(&self.keep_attr());
            out.push('·');
        }
        let (om, oo) = (self.mode, self.overridden);
        if let Some(m) = mode {
            self.mode = m;
            self.overridden = true;
        }
        let r = f(self);
        self.mode = om;
        self.overridden = oo;
        (out, r)
    }

    // ---------------------------------------------------------------- templates

    fn var_list(&mut self) -> String {
        let all: &[&str] = match self.p.template {
            TemplateStyle::Insert => &["$t0", "$t1"],
            TemplateStyle::Replace => &["$t0", "$line", "$count"],
            TemplateStyle::Position => {
                return "$line,·$column,·$col,·$path,·$file".into();
            }
            TemplateStyle::Describe => {
                return "$count,·$nth,·$fn_name,·$fnname,·$fn_sig,·$fnsig".into();
            }
            TemplateStyle::Mixed => &["$line", "$col", "$t0", "$t1", "$count", "$fn_name", "$file"],
        };
        let n = self.s.range(1, 3);
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.s.pick(all).to_string());
        }
        v.join(",·")
    }

    fn template(&mut self) -> (String, Mode) {
        let v = self.var_list();
        self.n += 1;
        let h = format!("h{}", self.n);
        let style = self.p.template;
        let sofar = self.p.so_far && self.overridden && self.s.chance(55);
        let (t, m) = match style {
            TemplateStyle::Insert if !sofar => (format!(".{h}(·__sig!(·{v}·)·)"), Mode::Insert),
            TemplateStyle::Position => match self.s.below(4) {
                0..=1 => (format!(".{h}(·__sig!(·{v}·)·)"), Mode::Insert),
                2 => (format!("{h}(·$expr,·__sig!(·{v}·)·)"), Mode::Replace),
                _ => (format!(".{h}(·|e| {{·__sig!(·{v}·)·;·e }}·)"), Mode::Insert),
            },
            TemplateStyle::Describe => match self.s.below(3) {
                0 => (format!(".{h}(·__sig!(·{v}·),·__raw!(·$source·)·)"), Mode::Insert),
                1 => (format!("{h}(·__raw!(·$source·),·$expr,·__sig!(·{v}·)·)"), Mode::Replace),
                _ => (format!(".{h}(·[__sig!(·{v}·)]·).raw(·__raw!(·{{·$source·}}·)·)"), Mode::Insert),
            },
            _ if sofar && self.mode == Mode::Insert => match self.s.below(3) {
                0 => (format!(".{h}(·$t0·).$so_far"), Mode::Insert),
                1 => (format!(".$sofar.{h}(·__sig!(·{v}·)·)"), Mode::Insert),
                _ => (format!("{h}(·$expr.$so_far·)"), Mode::Replace),
            },
            _ if sofar && self.mode == Mode::Replace => match self.s.below(3) {
                0 => (format!("{h}(·$so_far,·$t0·)"), Mode::Replace),
                1 => (format!("match $so_far {{ v =>·{h}(·v,·$so_far·)·}}"), Mode::Replace),
                _ => (format!(".{h}(·$so_far·)"), Mode::Insert),
            },
            TemplateStyle::Insert => (format!(".{h}(·__sig!(·{v}·)·)"), Mode::Insert),
            _ => {
                let k = if style == TemplateStyle::Replace { 6 + self.s.below(9) } else { self.s.below(15) };
                match k {
                    0 | 1 => (format!(".{h}(·__sig!(·{v}·)·)"), Mode::Insert),
                    2 => (format!(".inspect_err(|e| {{ {h}(·e,·[{v}]·)?; Err(1) }})"), Mode::Insert),
                    3 => (format!(".a::<u8>().{h}(·{v}·)?.b().await"), Mode::Insert),
                    4 => (format!(".{h}.0(·|| -> Result<(),·()> {{ return Err(·{v}·); }}·)"), Mode::Insert),
                    5 => (format!(".and_then(|x| {{ if x {{ {h}!(·{v}·) }} else {{ __sig!(·$expr·) }} }})"), Mode::Insert),
                    6 | 7 => (format!("{h}(·$expr,·__sig!(·{v}·)·)"), Mode::Replace),
                    8 => (format!("match $expr {{ Ok(v) =>·v,·Err(e) =>·return {h}(·e,·{v}·).q(),·}}"), Mode::Replace),
                    9 => (format!("$expr.{h}(·{v}·)"), Mode::Replace),
                    10 => (format!("{{ let v =·$expr;·{h}!(·v,·$expr,·{v}·);·v }}"), Mode::Replace),
                    11 => (format!("&·$expr +·{h}(·{v}·) *·$expr"), Mode::Replace),
                    12 => (format!("if let Ok(v) =·$expr {{ v }} else {{ return {h}(·{v}·)·}}"), Mode::Replace),
                    13 => ("$expr".to_string(), Mode::Replace),
                    _ => (format!("{h}!(·$expr,·{v}·)?"), Mode::Replace),
                }
            }
        };
        if self.p.bad_pct > 0 && self.s.chance(self.p.bad_pct) {
            let bad = *self.s.pick(&["$nope", "$1", "$(x)", "$", "$;", "$$line", "$\"s\"", "$so_far", "$t0 $nope", "$T0"]);
            let t = match m {
                Mode::Insert => format!(".{h}(·g(·{bad}·)·)"),
                _ => format!("{h}(·$expr,·[·{bad}·]·)"),
            };
            return (t, m);
        }
        if self.p.bang_pct > 0 && self.s.chance(self.p.bang_pct) {
            return (format!("{t}·!"), m);
        }
        (t, m)
    }

    // ---------------------------------------------------------------- expressions

    fn args(&mut self, max: u32) -> String {
        let n = self.s.below(max + 1);
        let mut v: Vec<String> = vec![];
        for _ in 0..n {
            v.push(self.aexpr().t);
        }
        let mut r = v.join("·,·");
        if n > 0 && self.s.chance(15) {
            r.push_str("·,");
        }
        r
    }

    /// an expression with optional attributes in front (delimited positions)
    fn aexpr(&mut self) -> E {
        if !self.s.chance(self.p.attr_pct + self.p.keep_pct) {
            return self.expr();
        }
        let (a, e) = self.with_attrs(|g| g.expr());
        self.attach(a, e)
    }

    fn attach(&mut self, a: String, e: E) -> E {
        if a.is_empty() {
            return e;
        }
        // attributes bind to a unary/postfix expression; everything else gets parentheses
        let e = if e.p < UNARY { e.paren() } else { e };
        E { t: format!("{a}{}", e.t), p: JUMP, ..e }
    }

    fn operand(&mut self, p: Prec) -> E {
        let e = self.expr();
        e.need(p)
    }

    fn postfix_base(&mut self) -> E {
        let e = self.operand(POSTFIX);
        if e.lit { e.paren() } else { e }
    }

    /// leaf-ish operand of a `?`
    fn try_operand(&mut self) -> E {
        self.postfix_base()
    }

    pub fn expr(&mut self) -> E {
        self.depth += 1;
        let leaf = self.depth > self.p.max_depth || !self.s.spend(1);
        let e = if leaf { self.leaf() } else { self.expr_in() };
        self.depth -= 1;
        e
    }

    fn leaf(&mut self) -> E {
        match self.s.below(6) {
            0 => self.path(),
            1 => self.lit(),
            2 => {
                let c = self.callee();
                E::atom(format!("{c}(·)"))
            }
            3 if self.s.chance(60) => {
                let c = self.callee();
                E::atom(format!("{c}(·1·)·?"))
            }
            4 => E::atom("(·)"),
            _ => {
                let c = self.callee();
                E::atom(format!("{c}(·x·)"))
            }
        }
    }

    fn cond(&mut self) -> E {
        // condition / scrutinee position: no exposed struct literal, no jumps
        let e = self.expr();
        if e.st || e.p <= RANGE { e.paren() } else { e }
    }

    fn binop(&mut self) -> (&'static str, u8, bool) {
        *self.s.pick(&[
            ("+", 10, false),
            ("-", 10, false),
            ("*", 11, false),
            ("%", 11, false),
            ("<<", 9, false),
            ("&", 8, false),
            ("^", 7, false),
            ("|", 6, false),
            ("==", 5, true),
            ("!=", 5, true),
            ("<", 5, true),
            (">=", 5, true),
            ("&&", 4, false),
            ("||", 3, false),
        ])
    }

    fn expr_in(&mut self) -> E {
        if self.s.chance(self.p.try_pct) {
            let e = self.try_operand();
            return E { t: format!("{}·?", e.t), block: false, plain: false, ..e };
        }
        if self.s.chance(self.p.closures_pct) {
            return self.closure();
        }
        if self.s.chance(self.p.macro_pct) {
            return self.mac();
        }
        match self.s.below(36) {
            0 | 1 | 2 => {
                let c = self.callee();
                let a = self.args(3);
                E::atom(format!("{c}(·{a}·)"))
            }
            3 => {
                let f = self.postfix_base();
                let f = if f.plain { f } else { f.paren() };
                let a = self.args(2);
                E::atom(format!("{}(·{a}·)", f.t))
            }
            4 | 5 => {
                let b = self.postfix_base();
                let m = self.id();
                let tf = if self.s.chance(15) { "::<u8>" } else { "" };
                let a = self.args(2);
                E { t: format!("{}·.{m}{tf}(·{a}·)", b.t), block: false, plain: false, ..b }
            }
            6 => {
                let b = self.postfix_base();
                let i = if self.s.chance(40) { "0".to_string() } else { self.id() };
                let b = if b.t.ends_with(|c: char| c.is_ascii_digit()) { b.paren() } else { b };
                E { t: format!("{}·.{i}", b.t), block: false, plain: false, ..b }
            }
            7 => {
                let b = self.postfix_base();
                let b = if b.block { b.paren() } else { b };
                let i = self.aexpr();
                E { t: format!("{}[·{}·]", b.t, i.t), block: false, plain: false, ..b }
            }
            8 => {
                let b = self.postfix_base();
                E { t: format!("{}·.await", b.t), block: false, plain: false, ..b }
            }
            9 => {
                let o = self.operand(UNARY);
                let op = *self.s.pick(&["-", "!", "*", "&", "&mut ", "&raw const ", "&raw mut "]);
                E { t: format!("{op}{}{}", if o.t.starts_with(['-', '&', '*', '!']) && !op.ends_with(' ') { " " } else { "" }, o.t), p: UNARY, lead_block: false, block: false, plain: false, ..o }
            }
            10 | 11 => {
                let (op, l, na) = self.binop();
                let left = self.operand(Prec(if na { l + 1 } else { l }));
                let left = if left.p == CAST && op.starts_with('<') { left.paren() } else { left };
                // a jump or cast inside the left operand must not swallow the operator
                let left = if left.p < UNARY && left.p.0 < 3 { left.paren() } else { left };
                let left = if left.block { left.paren() } else { left };
                let right = self.operand(Prec(l + 1));
                E { t: format!("{} {op} {}", left.t, right.t), p: Prec(l), st: left.st || right.st, lead_block: left.lead_block, block: false, plain: false, lit: false }
            }
            12 => {
                let o = self.operand(CAST);
                let ty = *self.s.pick(&["u8", "*const u8", "Vec<u8>", "fn() -> u8"]);
                E { t: format!("{} as {ty}", o.t), p: CAST, block: false, plain: false, lit: false, ..o }
            }
            13 => {
                let l = self.postfix_base();
                let l = if l.block { l.paren() } else { l };
                let r = self.operand(Prec(2));
                let op = *self.s.pick(&["=", "=", "+=", "|=", "<<="]);
                let r = if r.p <= RANGE { r.paren() } else { r };
                E { t: format!("{} {op} {}", l.t, r.t), p: ASSIGN, st: l.st || r.st, lead_block: l.lead_block, block: false, plain: false, lit: false }
            }
            14 => {
                let a = self.args(3);
                E::atom(format!("[·{a}·]"))
            }
            15 => {
                let n = self.s.below(3);
                let a: Vec<String> = (0..n).map(|_| self.aexpr().t).collect();
                let t = match n {
                    0 => "(·)".to_string(),
                    1 => format!("(·{}·,·)", a[0]),
                    _ => format!("(·{}·)", a.join("·,·")),
                };
                E::atom(t)
            }
            16 => {
                let a = self.aexpr();
                let b = self.aexpr();
                E::atom(format!("[·{}·;·{}·]", a.t, b.t))
            }
            17 => {
                let p = *self.s.pick(&["S", "m::S", "Self", "S::<u8>"]);
                let n = self.s.below(3);
                let mut f = vec![];
                for i in 0..n {
                    let (a, e) = self.with_attrs(|g| g.expr());
                    if a.is_empty() && self.s.chance(15) {
                        f.push("sh".to_string());
                    } else {
                        f.push(format!("{a}f{i}:·{}", e.t));
                    }
                }
                let mut t = f.join("·,·");
                if self.s.chance(25) {
                    let r = self.expr();
                    if n > 0 {
                        t.push_str("·,·");
                    }
                    t.push_str(&format!("..{}", r.need(Prec(3)).t));
                }
                E { st: true, ..E::atom(format!("{p} {{ {t} }}")) }
            }
            18 => {
                let op = *self.s.pick(&["..", "..="]);
                let a = if self.s.chance(70) { Some(self.operand(Prec(3))) } else { None };
                let need_b = op == "..=";
                let b = if need_b || self.s.chance(70) { Some(self.operand(Prec(3))) } else { None };
                let st = a.as_ref().is_some_and(|x| x.st) || b.as_ref().is_some_and(|x| x.st);
                let a = a.map(|x| if x.lit || x.block { x.paren() } else { x });
                let lb = a.as_ref().is_some_and(|x| x.lead_block);
                E {
                    t: format!("{}{op}{}", a.map(|x| x.t).unwrap_or_default(), b.map(|x| x.t).unwrap_or_default()),
                    p: RANGE,
                    st,
                    lead_block: lb,
                    block: false,
                    plain: false,
                    lit: false,
                }
            }
            19 => {
                let e = self.aexpr();
                E::atom(format!("(·{}·)", e.t))
            }
            20 | 21 => self.if_(),
            22 | 23 => self.match_(),
            24 => self.block_expr(),
            25 => self.loop_(),
            26 => {
                let v = if self.s.chance(80) { Some(self.aexpr()) } else { None };
                match v {
                    Some(v) => E { t: format!("return {}", v.t), p: JUMP, st: v.st, lead_block: false, block: false, plain: false, lit: false },
                    None => E::atom("return").at(JUMP),
                }
            }
            27 => {
                let l = self.label_use();
                match self.s.below(3) {
                    0 => E { plain: true, ..E::atom(format!("continue{l}")).at(JUMP) },
                    1 => E::atom(format!("break{l}")).at(JUMP),
                    _ => {
                        let v = self.expr();
                        let v = if v.lead_block || v.t.starts_with('\'') { v.paren() } else { v };
                        E { t: format!("break{l} {}", v.t), p: JUMP, st: v.st, lead_block: false, block: false, plain: false, lit: false }
                    }
                }
            }
            28 => self.closure(),
            29 => self.mac(),
            30 => {
                let b = self.block(true);
                let b = self.inner(b);
                E::blk(format!("unsafe {b}"))
            }
            31 => {
                let m = if self.s.chance(40) { "async move " } else { "async " };
                let b = self.block(true);
                // `async {}` starts an expression statement like any other operand
                E { lead_block: false, block: false, ..E::atom(format!("{m}{b}")) }
            }
            32 => {
                let b = self.block(true);
                E::blk(format!("const {b}"))
            }
            _ => {
                let c = self.callee();
                let a = self.args(2);
                E::atom(format!("{c}(·{a}·)"))
            }
        }
    }

    fn label_use(&mut self) -> String {
        if !self.labels.is_empty() && self.s.chance(50) {
            let l = self.labels.clone();
            format!(" {}", self.s.pick(&l))
        } else {
            String::new()
        }
    }

    fn if_(&mut self) -> E {
        let c = self.if_cond();
        let b = self.block(true);
        let mut t = format!("if {c} {b}");
        let mut n = 0;
        while self.s.chance(35) && n < 2 {
            let c = self.if_cond();
            let b = self.block(true);
            t.push_str(&format!("·else if {c} {b}"));
            n += 1;
        }
        if self.s.chance(60) {
            let b = self.block(true);
            t.push_str(&format!("·else·{b}"));
        }
        E::blk(t)
    }

    fn if_cond(&mut self) -> String {
        match self.s.below(4) {
            0 | 1 => self.cond().t,
            2 => {
                let e = self.cond();
                format!("let Some(v) =·{}", e.need(Prec(5)).t)
            }
            _ => {
                let e = self.cond().need(Prec(5));
                let c = self.cond().need(Prec(5));
                format!("let Some(v) =·{}·&&·{}", e.t, c.t)
            }
        }
    }

    /// An expression at the start of a statement or arm: leading blocks need care.
    fn stmt_start(&mut self, e: E) -> E {
        if e.lead_block && !e.block { e.paren() } else { e }
    }

    fn match_(&mut self) -> E {
        let sc = self.cond();
        let n = self.s.below(4);
        let mut arms = String::new();
        for i in 0..n {
            let pat = match self.s.below(4) {
                0 => "_".to_string(),
                1 => "Ok(v)".into(),
                2 => "S {·a,·.. } | T".into(),
                _ => "1..=2".into(),
            };
            let (keep, (guard, body)) = self.with_attrs(|g| {
                let guard = if g.s.chance(25) {
                    let x = g.cond();
                    format!(" if {}", x.t)
                } else {
                    String::new()
                };
                let body = if g.s.chance(40) { g.tail_value() } else { g.aexpr() };
                (guard, g.stmt_start(body))
            });
            let comma = if body.block && body.t.starts_with('{') && self.s.chance(50) {
                " "
            } else if i + 1 == n && self.s.chance(40) {
                " "
            } else {
                "·,·"
            };
            arms.push_str(&format!("{keep}{pat}{guard} =>·{}{comma}", body.t));
        }
        let arms = self.inner(format!("{{ {arms}}}"));
        E::blk(format!("match {} {arms}", sc.t))
    }

    fn block_expr(&mut self) -> E {
        if self.s.chance(25) {
            let l = self.fresh("'l");
            self.labels.push(l.clone());
            let b = self.block(true);
            let b = self.inner(b);
            self.labels.pop();
            return E::blk(format!("{l}:·{b}"));
        }
        let b = self.block(true);
            let b = self.inner(b);
        E::blk(b)
    }

    fn loop_(&mut self) -> E {
        let lab = if self.s.chance(25) { Some(self.fresh("'l")) } else { None };
        if let Some(l) = &lab {
            self.labels.push(l.clone());
        }
        let t = match self.s.below(4) {
            0 => {
                let b = self.block(true);
            let b = self.inner(b);
                format!("loop {b}")
            }
            1 => {
                let c = self.if_cond();
                let b = self.block(true);
            let b = self.inner(b);
                format!("while {c} {b}")
            }
            _ => {
                let c = self.cond();
                let b = self.block(true);
            let b = self.inner(b);
                format!("for i in {} {b}", c.t)
            }
        };
        let t = match lab {
            Some(l) => {
                self.labels.pop();
                format!("{l}:·{t}")
            }
            None => t,
        };
        E::blk(t)
    }

    fn closure(&mut self) -> E {
        let mv = match self.s.below(6) {
            0 => "move ",
            1 => "async ",
            2 => "async move ",
            _ => "",
        };
        let params = *self.s.pick(&["||", "|x|", "|x:·u8,·_|", "|(a,·b)|", "|&S {·a,·.. }|"]);
        let labels = std::mem::take(&mut self.labels);
        let t = if self.s.chance(50) {
            let ty = *self.s.pick(TYPES);
            let b = self.block(true);
            format!("{mv}{params} ->·{ty} {b}")
        } else if self.s.chance(40) {
            let b = self.block(true);
            format!("{mv}{params}·{b}")
        } else {
            let e = if self.s.chance(50) { self.tail_value() } else { self.aexpr() };
            let e = if e.lead_block { e.paren() } else { e };
            format!("{mv}{params}·{}", e.t)
        };
        self.labels = labels;
        E { plain: false, ..E::atom(t).at(JUMP) }
    }

    fn mac(&mut self) -> E {
        let name = *self.s.pick(&["m", "vec", "println", "a::b", "assert_eq"]);
        let body = self.mac_body();
        let (o, c) = *self.s.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
        let e = E::atom(format!("{name}!{o}·{body}·{c}"));
        // a braced macro call at the start of a statement is a statement of its own
        if o == "{" { E { lead_block: true, ..e } } else { e }
    }

    /// expression list, items, or something that is not Rust
    fn mac_body(&mut self) -> String {
        match self.s.below(10) {
            0..=5 => {
                let n = self.s.below(4);
                let mut t = String::new();
                for i in 0..n {
                    if self.s.chance(6) {
                        // one part that is not Rust makes the whole input something else
                        let e = self.expr();
                        let p = *self.s.pick(&["=>·@", "k:·@", "@ =>·y", "+·@", "..·..", "@ @", "$x:·expr", "# x@", "*", "let y", "for"]);
                        t.push_str(&p.replace('@', &e.t));
                        if i + 1 < n {
                            t.push_str("·,·");
                        }
                        continue;
                    }
                    let e = self.aexpr();
                    // `name = value` reads as an assignment, which is an expression as well
                    let named = e.p > ASSIGN && self.s.chance(10);
                    if named {
                        t.push_str("name =·");
                    }
                    t.push_str(&e.t);
                    if i + 1 < n {
                        t.push_str(if self.s.chance(20) { "·;·" } else { "·,·" });
                    } else if self.s.chance(20) {
                        t.push_str("·,");
                    }
                }
                t
            }
            6 => {
                let n = self.s.range(1, 2);
                (0..n).map(|_| self.nested_item()).collect::<Vec<_>>().join(" ")
            }
            7 if self.s.chance(50) => {
                let (a, e) = self.with_attrs(|g| g.expr());
                let more = if self.s.chance(30) { "·;" } else { "" };
                format!("{a}let y =·{}·;{more}", e.t)
            }
            7 => {
                let e = self.expr();
                format!("x =>·{}", e.t)
            }
            8 => {
                let e = self.expr();
                format!("{} 1 {}", e.t, "? return Err(1)")
            }
            _ => {
                let e = self.expr();
                format!("@·{}·;·$x:·expr", e.t)
            }
        }
    }

    /// a value as written at tails and returns
    fn tail_value(&mut self) -> E {
        let mut e = match self.s.below(8) {
            0..=3 => {
                let c = self.callee();
                let a = self.args(2);
                E::atom(format!("{c}(·{a}·)"))
            }
            4 if self.p.lowprec => {
                let o = self.operand(UNARY);
                let op = *self.s.pick(&["*", "-", "!", "&"]);
                let sp = if o.t.starts_with(['-', '&', '*', '!']) { " " } else { "" };
                E { t: format!("{op}{sp}{}", o.t), p: UNARY, lead_block: false, block: false, plain: false, lit: false, ..o }
            }
            5 => {
                let b = self.postfix_base();
                let m = self.s.pick(NAMES).to_string();
                E { t: format!("{}·.{m}(·)", b.t), block: false, plain: false, ..b }
            }
            6 => {
                let c = self.callee();
                E::plain(c)
            }
            _ => self.expr(),
        };
        if !self.p.lowprec && e.p < POSTFIX && e.p > ASSIGN {
            e = e.paren();
        }
        e
    }

    // ---------------------------------------------------------------- statements

    pub fn block(&mut self, tail_ok: bool) -> String {
        self.depth += 1;
        let n = if self.depth > self.p.max_depth || self.s.small() { 0 } else { self.s.below(4) };
        let mut t = String::from("{ ");
        for _ in 0..n {
            t.push_str(&self.stmt());
            t.push(' ');
        }
        if tail_ok && self.s.chance(65) {
            let (a, e) = self.with_attrs(|g| {
                if g.s.chance(60) { g.tail_value() } else { g.expr() }
            });
            let e = if e.lead_block && !e.block { e.paren() } else { e };
            let e = if a.is_empty() { e } else { self.attach(a, e) };
            t.push_str(&e.t);
            t.push(' ');
        }
        t.push('}');
        self.depth -= 1;
        t
    }

    fn stmt(&mut self) -> String {
        match self.s.below(14) {
            0..=3 => {
                let (a, (pat, e, els)) = self.with_attrs(|g| {
                    let pat = match g.s.below(5) {
                        0 => "_".to_string(),
                        1 => format!("{}:·Vec<u8>", g.id()),
                        2 => "(a,·mut b)".into(),
                        3 => "Some(x)".into(),
                        _ => g.id(),
                    };
                    let e = g.aexpr();
                    let els = if g.s.chance(15) {
                        let b = g.block(true);
                        Some(b)
                    } else {
                        None
                    };
                    (pat, e, els)
                });
                match els {
                    // the initialiser of let-else may not end in `}` and may not be a lazy boolean
                    Some(b) => format!("{a}let {pat} =·(·{}·)·else·{b}·;", e.t),
                    None => format!("{a}let {pat} =·{}·;", e.t),
                }
            }
            4 if self.s.chance(40) => {
                let (a, i) = self.with_attrs(|g| g.id());
                format!("{a}let {i}·;")
            }
            5 => {
                let (a, (e, semi)) = self.with_attrs(|g| {
                    let e = g.mac();
                    (e, g.s.chance(70))
                });
                let semi = if semi || !e.lead_block { "·;" } else { "" };
                format!("{a}{}{semi}", e.t)
            }
            6 => self.nested_item(),
            7 | 8 => {
                let (a, e) = self.with_attrs(|g| g.block_like());
                let semi = if self.s.chance(30) { "·;" } else { "" };
                format!("{a}{}{semi}", e.t)
            }
            9 => {
                let (a, e) = self.with_attrs(|g| {
                    let v = g.tail_value();
                    E { t: format!("return {}", v.t), p: JUMP, st: v.st, lead_block: false, block: false, plain: false, lit: false }
                });
                format!("{a}{}·;", e.t)
            }
            _ => {
                let (a, e) = self.with_attrs(|g| g.expr());
                let e = self.stmt_start(e);
                let e = if a.is_empty() { e } else { self.attach(a, e) };
                format!("{}·;", e.t)
            }
        }
    }

    fn block_like(&mut self) -> E {
        match self.s.below(5) {
            0 => self.if_(),
            1 => self.match_(),
            2 => self.loop_(),
            3 => {
                let b = self.block(true);
                let b = self.inner(b);
                E::blk(format!("unsafe {b}"))
            }
            _ => self.block_expr(),
        }
    }

    // ---------------------------------------------------------------- items

    /// functions of a trait have no visibility
    fn unpub(f: String) -> String {
        match f.strip_prefix("pub(crate) ").or(f.strip_prefix("pub ")) {
            Some(x) => x.to_string(),
            None => f,
        }
    }

    fn fn_item(&mut self, in_impl: bool, body: bool) -> String {
        let name = if self.s.chance(10) { self.fresh("ñ") } else { self.fresh("fn_") };
        let q = match self.s.below(8) {
            0 => "pub ",
            1 => "async ",
            2 => "pub(crate) unsafe ",
            3 => "const ",
            _ => "",
        };
        let gs = *self.s.pick(&["", "", "<T>", "<'a,·T:·Tr<u8>·+·'a,·const N:·usize>"]);
        let recv = if in_impl { *self.s.pick(&["", "self", "&self,·", "&mut self", "self:·Box<Self>"]) } else { "" };
        let params = if recv.is_empty() || recv.ends_with('·') { *self.s.pick(&["", "x:·u8", "(a,·b):·(u8,·T),·_:·&[u8]"]) } else { "" };
        let ret = if self.s.chance(70) { format!(" ->·{}", self.s.pick(TYPES)) } else { String::new() };
        let wh = if self.s.chance(15) { " where T:·Copy" } else { "" };
        if !body {
            return format!("{q}fn {name}{gs}(·{recv}{params}·){ret}{wh};");
        }
        let labels = std::mem::take(&mut self.labels);
        let b = self.block(true);
        let b = self.inner(b);
        self.labels = labels;
        format!("{q}fn {name}{gs}(·{recv}{params}·){ret}{wh} {b}")
    }

    fn nested_item(&mut self) -> String {
        let k = *self.s.pick(&["fn", "fn", "const", "static", "impl", "trait", "mod", "struct", "use", "macro_rules", "type", "enum", "macitem"]);
        self.item(k, false)
    }

    pub fn item(&mut self, kind: &str, root: bool) -> String {
        self.depth += 1;
        let r = match kind {
            _ => {
                let (a, t) = if root {
                    (String::new(), self.item_body(kind))
                } else {
                    self.with_attrs(|g| g.item_body(kind))
                };
                format!("{a}{t}")
            }
        };
        self.depth -= 1;
        r
    }

    fn item_body(&mut self, kind: &str) -> String {
        match kind {
            "fn" => self.fn_item(false, true),
            "const" => {
                let n = self.fresh("C");
                let e = self.aexpr();
                let n = if self.s.chance(20) { "_".to_string() } else { n };
                format!("pub(self) const {n}:·Result<u8,·u8> =·{}·;", e.t)
            }
            "static" => {
                let n = self.fresh("S");
                let e = self.aexpr();
                let m = if self.s.chance(30) { "mut " } else { "" };
                format!("static {m}{n}:·u8 =·{}·;", e.t)
            }
            "impl" => {
                let n = self.s.below(3);
                let mut t = String::new();
                for _ in 0..n {
                    match self.s.below(5) {
                        0 => {
                            let (a, e) = self.with_attrs(|g| g.aexpr());
                            let n = self.fresh("K");
                            t.push_str(&format!("{a}const {n}:·u8 =·{}·; ", e.t));
                        }
                        1 => {
                            let (a, _) = self.with_attrs(|_| ());
                            t.push_str(&format!("{a}type Out =·u8; "))
                        }
                        2 if self.s.chance(40) => {
                            let (a, b) = self.with_attrs(|g| g.mac_body());
                            t.push_str(&format!("{a}im!(·{b}·); "));
                        }
                        _ => {
                            let (a, f) = self.with_attrs(|g| g.fn_item(true, true));
                            t.push_str(&format!("{a}{f} "));
                        }
                    }
                }
                let h = *self.s.pick(&["impl S", "impl<T> Tr<T> for S<T> where T:·Copy", "unsafe impl Tr for &S", "impl !Send for S"]);
                format!("{h} {{ {t}}}")
            }
            "trait" => {
                let n = self.s.below(3);
                let mut t = String::new();
                for _ in 0..n {
                    match self.s.below(6) {
                        0 => {
                            let (a, e) = self.with_attrs(|g| g.aexpr());
                            let n = self.fresh("K");
                            t.push_str(&format!("{a}const {n}:·u8 =·{}·; ", e.t));
                        }
                        1 => {
                            let (a, _) = self.with_attrs(|_| ());
                            t.push_str(&format!("{a}type Out:·Copy; "))
                        }
                        2 => {
                            let (a, f) = self.with_attrs(|g| Self::unpub(g.fn_item(true, false)));
                            t.push_str(&format!("{a}{f} "))
                        }
                        3 if self.s.chance(40) => {
                            let (a, b) = self.with_attrs(|g| g.mac_body());
                            t.push_str(&format!("{a}im!(·{b}·); "));
                        }
                        _ => {
                            let (a, f) = self.with_attrs(|g| g.fn_item(true, true));
                            let f = Self::unpub(f);
                            t.push_str(&format!("{a}{f} "));
                        }
                    }
                }
                let n = self.fresh("Tr");
                format!("pub trait {n}<T>:·Copy·+·'static {{ {t}}}")
            }
            "mod" => {
                let n = self.s.below(4);
                let mut t = String::new();
                for _ in 0..n {
                    t.push_str(&self.nested_item());
                    t.push(' ');
                }
                let n = self.fresh("mo");
                format!("pub mod {n} {{ {t}}}")
            }
            "struct" => "struct S1 {·a:·Result<u8,·u8> }".to_string(),
            "enum" => "enum E1 {·A =·1,·B(·u8·) }".into(),
            "use" => "use std::result::{Result,·self as r};".into(),
            "type" => "type A1 =·Result<u8,·u8>;".into(),
            "macro_rules" => "macro_rules! mr { ($x:expr)·=>·{ $x?;·return Err($x) };·() =>·{ Ok(1) } }".into(),
            _ => {
                let b = self.mac_body();
                format!("im!·{{·{b}·}}")
            }
        }
    }

    /// The whole annotated item with `@CAP@` where the capture attribute belongs.
    pub fn root(&mut self) -> String {
        let kinds = self.p.root_kinds.clone();
        let kind = *self.s.pick(&kinds);
        let mut args = String::new();
        if !self.p.flavors.is_empty() && self.s.chance(self.p.root_flavor_pct) {
            let f = self.p.flavors.clone();
            let f = self.s.pick(&f).clone();
            let a = match self.s.below(3) {
                0 if !f.contains('-') => f.replace('.', "::"),
                1 => format!("flavor =·\"{f}\""),
                _ => format!("flavor =·\"{}\"", f.replace('.', "::")),
            };
            args = format!("(·{a}·)");
        }
        let mut t = format!("#[hooq::hooq{args}] @CAP@ ");
        if self.p.root_method {
            let (m, mode) = self.template();
            self.mode = mode;
            self.overridden = true;
            t.push_str(&format!("#[hooq::method(·{m}·)]·"));
        }
        t.push_str(self.p.root_extra);
        for b in self.p.bindings.clone() {
            self.n += 1;
            t.push_str(&format!("#[hooq::{b} =·\"root{}\"]·", self.n));
        }
        // further settings on the root item; the method stays the one above unless overridden inside
        if self.s.chance(self.p.attr_pct * 2) {
            let mut p = self.p.attr_w;
            p[0] = 0;
            p[9] = 0;
            if p.iter().take(9).any(|x| *x > 0) {
                let old = std::mem::replace(&mut self.p.attr_w, p);
                for _ in 0..self.s.range(1, 2) {
                    let (a, _) = self.one_attr();
                    if !a.contains("skip") || self.s.chance(15) {
                        t.push_str(&a);
                        t.push('·');
                    }
                }
                self.p.attr_w = old;
            }
        }
        if self.s.chance(self.p.keep_pct * 2) {
            t.push_str("#[allow(unused)]·");
        }
        let vis = if matches!(kind, "fn") && self.s.chance(0) { "pub " } else { "" };
        format!("{t}{vis}{}", self.item(kind, true))
    }
}

/// Replaces the whitespace placeholders; `seed` 0 is the plain layout.
pub fn layout(t: &str, seed: u32) -> String {
    let mut r = Rng::new(seed as u64 ^ 0xABCD_1234);
    let style = if seed == 0 { 0 } else { 1 + (r.next() % 3) };
    let mut out = String::new();
    let mut chars = t.chars().peekable();
    while let Some(c) = chars.next() {
        match c {
            '␠' => out.push(' '),
            '␤' => out.push('\n'),
            ' ' | '·' => {
                let must = c == ' ';
                let k = r.next() % 100;
                let s: &str = match style {
                    0 => {
                        if must { " " } else { "" }
                    }
                    1 => match k {
                        0..=5 => "\n",
                        6..=9 => "\n        ",
                        10..=14 => "  ",
                        _ => {
                            if must { " " } else { "" }
                        }
                    },
                    2 => match k {
                        0..=11 => "\n    ",
                        12..=15 => "\n\n  ",
                        16..=19 => " /* ? コメント */ ",
                        20..=23 => " // return Err(1)?\n   ",
                        24..=27 => "\t",
                        28..=40 => "   ",
                        _ => {
                            if must { " " } else { "" }
                        }
                    },
                    _ => match k {
                        0..=30 => "\n",
                        31..=45 => "\n            ",
                        46..=48 => "\n\n\n",
                        49..=52 => "/**/",
                        _ => {
                            if must { " " } else { "" }
                        }
                    },
                };
                let s = if must && s.is_empty() { " " } else { s };
                // `x:` followed by `::y` must not be lexed as `x::` `:y`
                let glued = s.is_empty() && out.ends_with(':') && chars.peek() == Some(&':');
                out.push_str(if glued { " " } else { s });
            }
            c => out.push(c),
        }
    }
    out
}
