//! Random well-typed programs. Operands that are to be hooked stand between marks, so that the same text can be
//! turned into the plain program, the program with the hooks written by hand and the annotated program.
use crate::src::Src;

/// `OPEN` kind index text `CLOSE`: an operand to hook; kind is `q`, `r` or `t`, the index (from `INDEX`) tells which
/// of the recorded marks it is
pub const OPEN: char = '\u{E000}';
pub const CLOSE: char = '\u{E001}';
/// text for the annotated program only
pub const ONLY: char = '\u{E002}';
pub const END: char = '\u{E003}';

pub const INDEX: u32 = 0xF0000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    I,
    B,
    R,
    U,
    O,
    Unit,
}
use Ty::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Pos {
    Free,
    Stmt,
    Head,
}
use Pos::*;

#[derive(Clone, Copy, PartialEq)]
enum Call {
    Not,
    Ok,
    Err,
    Other,
}

#[derive(Clone, Copy, PartialEq)]
enum Bk {
    Body,
    Inner,
}

struct Ex {
    s: String,
    /// 0 anything, 2 operand of a binary operator, 3 operand of a unary one, 4 postfix position
    lvl: u8,
    call: Call,
    /// begins with a block-like expression
    block: bool,
}

fn ex(s: String, lvl: u8) -> Ex {
    Ex { s, lvl, call: Call::Not, block: false }
}

fn call(s: String, c: Call) -> Ex {
    Ex { s, lvl: 4, call: c, block: false }
}

fn blk(s: String) -> Ex {
    Ex { s, lvl: 4, call: Call::Not, block: true }
}

#[derive(Clone)]
struct Fx {
    /// what `?` can be used on
    carrier: Option<Ty>,
    /// a result type is declared
    decl: bool,
    ret: Ty,
    loops: Vec<(String, Option<Ty>)>,
    asy: bool,
    typed: bool,
}

#[derive(Clone)]
struct Var {
    name: String,
    ty: Ty,
    mutable: bool,
}

pub struct Cfg {
    /// targets may also be options
    pub options: bool,
    /// marks of the kind skip and skip_all
    pub skips: bool,
    /// the error type can be copied
    pub copy_err: bool,
    /// variables for hooks are defined on statements and items
    pub bindings: bool,
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    cfg: Cfg,
    vars: Vec<Var>,
    fns: Vec<(String, Ty)>,
    fx: Fx,
    id: u32,
    /// 0: hooks are in force, 1: not on this level, 2: not below here
    mute: u8,
    depth: u32,
    /// the type of the value is given by the place
    typed: bool,
    /// visible variables for hooks, innermost last, with their definitions
    env: Vec<(String, String)>,
    /// variables for hooks that are visible at each mark
    pub marks: Vec<Vec<(String, String)>>,
}

pub struct Prog {
    /// items of the unit; the root attribute stands where `@ROOT@` is
    pub text: String,
    /// statements that run it
    pub run: String,
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, cfg: Cfg) -> Self {
        let fx = Fx { carrier: None, decl: false, ret: Unit, loops: vec![], asy: false, typed: true };
        Gen { s, cfg, vars: vec![], fns: vec![], fx, id: 0, mute: 0, depth: 0, typed: false, env: vec![], marks: vec![] }
    }

    fn id(&mut self) -> u32 {
        self.id += 1;
        self.id
    }

    fn mark(&mut self, kind: char, s: &str) -> String {
        if self.mute > 0 {
            return s.to_string();
        }
        let i = char::from_u32(INDEX + self.marks.len() as u32).unwrap();
        let mut env = self.env.clone();
        env.reverse();
        let mut seen = std::collections::BTreeMap::new();
        for (k, v) in env {
            seen.entry(k).or_insert(v);
        }
        self.marks.push(seen.into_iter().collect());
        format!("{OPEN}{kind}{i}{s}{CLOSE}")
    }

    /// definitions of variables for hooks, and how many they are
    pub fn define(&mut self) -> (String, usize) {
        let n = if self.s.chance(6) { self.s.range(3, 12) } else { self.s.range(1, 2) } as usize;
        let mut t = String::new();
        for _ in 0..n {
            let mut name = self.s.pick(&["k0", "k1", "k2", "zz", "Ab"]).to_string();
            if self.s.chance(if n > 2 { 60 } else { 5 }) {
                name.push_str(&"_more".repeat(self.s.below(12) as usize));
                name.push_str(&self.s.below(30).to_string());
            }
            let i = self.id();
            let a = self.vars.iter().any(|v| v.name == "a");
            // at most one definition has effects, so that the order of evaluation does not matter
            let (name, e) = match self.s.below(30) {
                0 | 1 => ("fx".to_string(), format!("t({i})")),
                2 if a => (name, "a".into()),
                3 if a => (name, "a ^ 5".into()),
                20..=25 => {
                    let mut n = self.s.below(40);
                    (name, value(self.s, &mut n))
                }
                26 => (name, format!("\"{}\"", "abc\u{e9}".repeat(self.s.below(80) as usize))),
                k => (name, BINDINGS[k as usize % BINDINGS.len()].to_string()),
            };
            let form = *self.s.pick(&["hooq::N = V", "hooq::binding(N = V)", "hooq::var(N = V)"]);
            t.push_str(&format!("#[{}] ", form.replace('N', &name).replace('V', &e)));
            self.env.push((name, e));
        }
        (t, n)
    }

    pub fn env(&self) -> &[(String, String)] {
        &self.env
    }

    pub fn env_mut(&mut self) -> &mut Vec<(String, String)> {
        &mut self.env
    }

    pub fn undefine(&mut self, n: usize) {
        let k = self.env.len() - n;
        self.env.truncate(k);
    }

    /// runs `f` in a nested scope
    fn scope<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let (m, n, k) = (self.mute, self.vars.len(), self.fns.len());
        if self.mute == 1 {
            self.mute = 0;
        }
        self.depth += 1;
        let r = f(self);
        self.depth -= 1;
        self.mute = m;
        self.vars.truncate(n);
        self.fns.truncate(k);
        r
    }

    fn with_fx<T>(&mut self, fx: Fx, f: impl FnOnce(&mut Self) -> T) -> T {
        let old = std::mem::replace(&mut self.fx, fx);
        let r = f(self);
        self.fx = old;
        r
    }

    /// variables cannot be assigned within
    fn frozen<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let old = self.vars.clone();
        self.vars.iter_mut().for_each(|v| v.mutable = false);
        if !self.cfg.copy_err {
            // errors would be moved into the closure
            self.vars.iter_mut().filter(|v| v.name.starts_with("code")).for_each(|v| v.name = "1i64".into());
        }
        let r = f(self);
        let n = self.vars.len().min(old.len());
        self.vars[..n].clone_from_slice(&old[..n]);
        r
    }

    fn var(&mut self, ty: Ty, mutable: bool) -> Option<String> {
        let v: Vec<String> = self.vars.iter().filter(|v| v.ty == ty && (!mutable || v.mutable)).map(|v| v.name.clone()).collect();
        if v.is_empty() { None } else { Some(self.s.pick(&v).clone()) }
    }

    fn at(&mut self, e: Ex, lvl: u8, pos: Pos, postfix: bool) -> String {
        if e.lvl < lvl || (postfix && e.block && (pos == Stmt || self.s.chance(40))) { format!("({})", e.s) } else { e.s }
    }

    fn expr(&mut self, ty: Ty, pos: Pos) -> Ex {
        match ty {
            I => self.int(pos),
            B => self.boolean(pos),
            R => self.res(pos),
            U => self.unit_res(pos),
            O => self.opt(pos),
            Unit => self.unit(pos),
        }
    }

    fn with_typed<T>(&mut self, typed: bool, f: impl FnOnce(&mut Self) -> T) -> T {
        let old = std::mem::replace(&mut self.typed, typed);
        let r = f(self);
        self.typed = old;
        r
    }

    /// at a place that does not give the type
    fn open(&mut self, ty: Ty, pos: Pos) -> Ex {
        self.with_typed(false, |g| g.expr(ty, pos))
    }

    /// in postfix position
    fn post(&mut self, ty: Ty, pos: Pos) -> String {
        let e = self.open(ty, pos);
        self.at(e, 4, pos, true)
    }

    fn free(&mut self, ty: Ty) -> String {
        self.open(ty, Free).s
    }

    fn unary(&mut self, ty: Ty, pos: Pos) -> String {
        let e = self.open(ty, pos);
        self.at(e, 3, pos, true)
    }

    fn leaf(&mut self) -> Ex {
        match self.s.below(4) {
            0 => ex(format!("{}i64", self.s.below(20)), 4),
            1 | 2 => {
                let i = self.id();
                call(format!("t({i})"), Call::Other)
            }
            _ => match self.var(I, false) {
                Some(v) => ex(v, 4),
                None => ex("1".into(), 4),
            },
        }
    }

    /// `..?` giving an integer, where the function allows it
    fn question(&mut self, pos: Pos) -> Option<Ex> {
        let c = self.fx.carrier?;
        let x = match c {
            O => self.post(O, pos),
            _ if self.s.chance(12) => {
                let (i, a) = (self.id(), self.free(I));
                format!("r2({i}, {a})")
            }
            _ => self.post(R, pos),
        };
        Some(ex(format!("{}?", self.mark('q', &x)), 4))
    }

    fn int(&mut self, pos: Pos) -> Ex {
        if !self.s.spend(1) || self.depth > 9 {
            return self.leaf();
        }
        let q = if self.fx.carrier.is_some() { 16 } else { 0 };
        match self.s.weighted(&[6, q, 3, 2, 3, 3, 3, 2, 3, 2, 3, 2, 2, 3, 2, 2, 2, 1, 2, 2, 2, 2, 2]) {
            0 => self.leaf(),
            1 => self.question(pos).unwrap(),
            2 => {
                let a = self.unary(I, pos);
                let b = self.unary(I, if pos == Head { Head } else { Free });
                let o = *self.s.pick(&["^", "&", "|"]);
                ex(format!("{a} {o} {b}"), 2)
            }
            3 => {
                let a = self.unary(I, if pos == Head { Head } else { Free });
                ex(format!("!{a}"), 3)
            }
            4 => {
                let (a, b) = (self.free(I), self.free(I));
                call(format!("pair({a}, {b})"), Call::Other)
            }
            5 => {
                let a = self.post(I, pos);
                let b = self.free(I);
                ex(format!("{a}.{}({b})", self.s.pick(&["wrapping_add", "wrapping_mul", "max", "join"])), 4)
            }
            6 => self.if_(I, pos),
            7 => self.match_(I, pos),
            8 => {
                let b = self.block(I, Bk::Inner);
                let k = *self.s.pick(&["", "unsafe "]);
                blk(format!("{k}{b}"))
            }
            9 => self.loop_value(I),
            10 => {
                let (a, b, c, i) = (self.free(I), self.free(I), self.free(I), self.post(I, Free));
                ex(format!("[{a}, {b}, {c}][{i}.rem_euclid(3) as usize]"), 4)
            }
            11 => {
                let (a, b) = (self.free(I), self.free(B));
                ex(format!("({a}, {b}).0"), 4)
            }
            12 if pos != Head => {
                let (a, b) = (self.free(I), self.free(I));
                ex(format!("P {{ b: {a}, a: {b} }}.{}", self.s.pick(&["a", "b"])), 4)
            }
            13 => {
                let ((c, t), a) = self.frozen(|g| (g.closure_i(), g.free(I)));
                if t { ex(format!("({c})({a})"), 4) } else { ex(format!("({c})()"), 4) }
            }
            14 => {
                let e = *self.s.pick(&["two", "one", "last"]);
                let a = self.free(I);
                let b = if e == "one" { String::new() } else { format!(", {}", self.free(I)) };
                // a macro call with braces is a statement of its own
                if self.s.chance(20) && pos == Free { ex(format!("{e}![{a}{b}]"), 4) } else { ex(format!("{e}!({a}{b})"), 4) }
            }
            15 => {
                let (a, b) = (self.free(I), self.free(I));
                ex(format!("vec![{a}, {b}].into_iter().fold(0i64, |x, y| pair(x, y))"), 4)
            }
            16 => {
                let a = self.free(I);
                ex(format!("(*(&({a})))"), 4)
            }
            17 => {
                let r = self.post(R, pos);
                let n = self.id();
                let d = self.closure_body(false, I, Some(format!("code(&e{n})")));
                ex(format!("{r}.unwrap_or_else(|e{n}| {d})"), 4)
            }
            18 => {
                let o = self.post(O, pos);
                let a = self.free(I);
                ex(format!("{o}.unwrap_or({a})"), 4)
            }
            19 => {
                let i = self.id();
                let a = self.free(I);
                ex(format!("D({i}).get({a})"), 4)
            }
            20 => {
                // a value of its own async block
                let b = self.async_block(I);
                if self.fx.asy { ex(format!("ai({b}).await"), 4) } else { call(format!("block_on(ai({b}))"), Call::Other) }
            }
            21 => {
                let a = self.free(I);
                call(format!("slen({}, {a})", self.s.pick(&STRINGS)), Call::Other)
            }
            _ => {
                let a = self.post(I, pos);
                ex(format!("({a} as i32 as i64)"), 4)
            }
        }
    }

    fn boolean(&mut self, pos: Pos) -> Ex {
        if !self.s.spend(1) {
            let i = self.id();
            return call(format!("c({i})"), Call::Other);
        }
        match self.s.weighted(&[4, 4, 3, 2, 2, 2, 1]) {
            0 => {
                let i = self.id();
                call(format!("c({i})"), Call::Other)
            }
            1 => {
                let a = self.unary(I, pos);
                let b = self.unary(I, if pos == Head { Head } else { Free });
                let a = if pos == Stmt { format!("({a})") } else { a };
                ex(format!("{a} {} {b}", self.s.pick(&["==", "<=", "!=", ">"])), 1)
            }
            2 => {
                let a = { let e = self.boolean(pos); self.at(e, 2, pos, true) };
                let b = { let e = self.boolean(if pos == Head { Head } else { Free }); self.at(e, 2, Free, true) };
                ex(format!("{a} {} {b}", self.s.pick(&["&&", "||"])), 0)
            }
            3 => {
                let a = { let e = self.boolean(if pos == Head { Head } else { Free }); self.at(e, 3, Free, true) };
                ex(format!("!{a}"), 3)
            }
            4 => {
                let a = self.free(I);
                ex(format!("matches!({a}, 1 | 2..=9)"), 4)
            }
            5 => {
                let r = self.post(R, pos);
                ex(format!("{r}.is_ok()"), 4)
            }
            _ => self.if_(B, pos),
        }
    }

    fn res(&mut self, pos: Pos) -> Ex {
        let leaf = |g: &mut Self| {
            let i = g.id();
            let a = if g.s.spend(1) { g.free(I) } else { g.leaf().s };
            call(format!("r({i}, {a})"), Call::Other)
        };
        if !self.s.spend(1) || self.depth > 9 {
            return leaf(self);
        }
        match self.s.weighted(&[10, 3, 3, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2, 2]) {
            0 => leaf(self),
            1 => {
                let a = self.free(I);
                call(format!("{}({a})", self.s.pick(&["Ok::<i64, E>", "Result::<i64, E>::Ok"])), Call::Ok)
            }
            2 => {
                let a = self.free(I);
                call(format!("{}(E({a}))", self.s.pick(&["Err::<i64, E>", "Result::<i64, E>::Err"])), Call::Err)
            }
            3 => self.if_(R, pos),
            4 => self.match_(R, pos),
            5 => {
                let b = self.block(R, Bk::Inner);
                blk(format!("{}{b}", self.s.pick(&["", "unsafe "])))
            }
            6 => self.loop_value(R),
            7 => {
                // a closure called at once, with its own kind of body
                let decl = self.s.chance(70);
                let b = self.closure_body(decl, R, None);
                let ret = if decl { *self.s.pick(&[" -> Result<i64, E>", " -> std::result::Result<i64, E>"]) } else { "" };
                if decl { call(format!("(||{ret} {b})()"), Call::Not) } else { call(format!("rr(|| {b})"), Call::Other) }
            }
            8 => {
                // map / and_then with a closure
                let r = self.post(R, pos);
                let n = self.id();
                let (m, t) = *self.s.pick(&[("map", I), ("and_then::<i64, _>", R)]);
                let decl = t == R && self.s.chance(50);
                let b = self.closure_body(decl, t, Some(format!("v{n}")));
                ex(format!("{r}.{m}(|v{n}|{} {b})", if decl { " -> Result<i64, E>" } else { "" }), 4)
            }
            9 => {
                let i = self.id();
                let a = self.free(I);
                ex(format!("D({i}).res({a})"), 4)
            }
            10 => {
                let b = self.async_block(R);
                if self.fx.asy { ex(format!("ar({b}).await"), 4) } else { call(format!("block_on(ar({b}))"), Call::Other) }
            }
            11 => {
                let o = self.post(O, pos);
                let a = self.free(I);
                ex(format!("{o}.ok_or(E({a}))"), 4)
            }
            12 if self.cfg.copy_err => match self.var(R, false) {
                Some(v) => ex(v, 4),
                None => leaf(self),
            },
            13 => {
                let v: Vec<String> = self.fns.iter().filter(|f| f.1 == R).map(|f| f.0.clone()).collect();
                if v.is_empty() {
                    return leaf(self);
                }
                let f = self.s.pick(&v).clone();
                let a = self.free(I);
                call(format!("{f}({a})"), Call::Other)
            }
            14 => {
                let a = self.free(R);
                ex(format!("one!({a})"), 4)
            }
            _ => {
                let (i, a) = (self.id(), self.free(I));
                ex(format!("r2({i}, {a}).map_err(E::from)"), 4)
            }
        }
    }

    fn unit_res(&mut self, pos: Pos) -> Ex {
        let i = self.id();
        if !self.s.spend(1) {
            return call(format!("u({i})"), Call::Other);
        }
        match self.s.weighted(&[6, 2, 2, 2, 2, 2, 2]) {
            0 => call(format!("u({i})"), Call::Other),
            1 => call("Ok::<(), E>(())".into(), Call::Ok),
            2 => {
                let a = self.free(I);
                call(format!("Err::<(), E>(E({a}))"), Call::Err)
            }
            3 => {
                let r = self.post(R, pos);
                ex(format!("{r}.map(|_| ())"), 4)
            }
            4 => self.if_(U, pos),
            5 => self.match_(U, pos),
            _ => blk(self.block(U, Bk::Inner)),
        }
    }

    fn opt(&mut self, pos: Pos) -> Ex {
        let i = self.id();
        if !self.s.spend(1) || self.depth > 9 {
            let a = self.leaf().s;
            return call(format!("o({i}, {a})"), Call::Other);
        }
        match self.s.weighted(&[8, 2, 2, 2, 2, 2, 2]) {
            0 => {
                let a = self.free(I);
                call(format!("o({i}, {a})"), Call::Other)
            }
            1 => {
                let a = self.free(I);
                call(format!("Some({a})"), Call::Other)
            }
            2 => {
                let r = self.post(R, pos);
                ex(format!("{r}.ok()"), 4)
            }
            3 => self.if_(O, pos),
            4 => self.match_(O, pos),
            5 => match self.var(O, false) {
                Some(v) => ex(v, 4),
                None => ex("None::<i64>".into(), 4),
            },
            _ => {
                let b = self.closure_body(true, O, None);
                ex(format!("(|| -> Option<i64> {b})()"), 4)
            }
        }
    }

    fn unit(&mut self, pos: Pos) -> Ex {
        match self.s.below(3) {
            0 => {
                let i = self.id();
                call(format!("log(\"n{i}\")"), Call::Other)
            }
            1 => self.if_(Unit, pos),
            _ => blk(self.block(Unit, Bk::Inner)),
        }
    }

    /// the body of a closure: a block, or for undeclared ones also a plain expression
    fn closure_body(&mut self, decl: bool, ty: Ty, var: Option<String>) -> String {
        let n = self.vars.len();
        self.vars.extend(var.map(|name| Var { name, ty: I, mutable: false }));
        self.depth += 1;
        let b = self.closure_fx(if decl { Some(ty) } else { None }, ty, |g| if decl || g.s.chance(40) { g.block(ty, Bk::Body) } else { g.tail_expr(ty, Bk::Body, Free) });
        self.depth -= 1;
        self.vars.truncate(n);
        b
    }

    /// a closure with its own function settings; `decl`: declared return type
    fn closure_fx<T>(&mut self, decl: Option<Ty>, ty: Ty, f: impl FnOnce(&mut Self) -> T) -> T {
        let carrier = match ty {
            R | U => Some(ty),
            O if self.cfg.options => Some(O),
            _ => None,
        };
        let fx = Fx { carrier, decl: matches!(decl, Some(R) | Some(U)), ret: ty, loops: vec![], asy: false, typed: true };
        self.with_typed(true, |g| g.with_fx(fx, f))
    }

    /// a closure giving an integer; true when it takes one
    fn closure_i(&mut self) -> (String, bool) {
        let arg = self.s.chance(50);
        let n = self.id();
        let decl = self.s.chance(50);
        let body = self.closure_body(decl, I, if arg { Some(format!("v{n}")) } else { None });
        let a = if arg { format!("v{n}: i64") } else { String::new() };
        (format!("|{a}|{} {body}", if decl { " -> i64" } else { "" }), arg)
    }

    /// an async block keeps the declaration of the function around it
    fn async_block(&mut self, ty: Ty) -> String {
        let carrier = if ty == R { Some(R) } else { None };
        let fx = Fx { carrier, decl: self.fx.decl, ret: ty, loops: vec![], asy: true, typed: false };
        let b = self.with_typed(false, |g| g.with_fx(fx, |g| g.block(ty, Bk::Inner)));
        format!("async {b}")
    }

    fn cond(&mut self) -> String {
        match self.s.weighted(&[5, 3, 2]) {
            0 => self.expr(B, Head).s,
            _ => {
                let e = self.expr(B, Free).s;
                format!("({e})")
            }
        }
    }

    fn if_(&mut self, ty: Ty, pos: Pos) -> Ex {
        let _ = pos;
        let mut s = String::from("if ");
        let mut n = 0;
        loop {
            match self.s.below(4) {
                0 => {
                    let v = self.id();
                    let o = { let e = self.open(O, Head); self.at(e, 2, Head, false) };
                    let b = self.scope(|g| {
                        g.vars.push(Var { name: format!("v{v}"), ty: I, mutable: false });
                        g.block(ty, Bk::Inner)
                    });
                    s.push_str(&format!("let Some(v{v}) = {o} {b}"));
                }
                1 => {
                    let v = self.id();
                    let o = { let e = self.open(R, Head); self.at(e, 2, Head, false) };
                    let b = self.scope(|g| {
                        g.vars.push(Var { name: format!("v{v}"), ty: I, mutable: false });
                        g.block(ty, Bk::Inner)
                    });
                    s.push_str(&format!("let Ok(v{v}) = {o} {b}"));
                }
                _ => {
                    let c = self.cond();
                    let b = self.block(ty, Bk::Inner);
                    s.push_str(&format!("{c} {b}"));
                }
            }
            n += 1;
            if n < 3 && self.s.chance(20) {
                s.push_str(" else if ");
                // the condition belongs to a nested scope
                let rest = self.scope(|g| g.if_(ty, Free).s);
                s.push_str(rest.strip_prefix("if ").unwrap());
                return blk(s);
            }
            break;
        }
        if ty != Unit || self.s.chance(40) {
            let b = self.block(ty, Bk::Inner);
            s.push_str(&format!(" else {b}"));
        }
        blk(s)
    }

    fn match_(&mut self, ty: Ty, _: Pos) -> Ex {
        let mut s = String::new();
        match self.s.below(3) {
            0 => {
                let h = self.open(I, Head).s;
                s.push_str(&format!("match {h} {{ "));
                for _ in 0..self.s.below(3) {
                    let k = self.s.below(9);
                    let g = if self.s.chance(35) { format!(" if {}", self.scope(|g| g.expr(B, Free).s)) } else { String::new() };
                    // the parts of a negative literal in a pattern lose their places
                    let low = if self.cfg.options { "-3..=K" } else { "0..=K" };
                    let p = *self.s.pick(&["K", "K | 11", "K..=30", low]);
                    let p = p.replace('K', &k.to_string());
                    let b = self.arm(ty, None);
                    s.push_str(&format!("{p}{g} => {b}"));
                }
                let v = self.id();
                let b = self.arm(ty, Some(format!("v{v}")));
                s.push_str(&format!("v{v} => {b}}}"));
            }
            1 => {
                let h = self.open(R, Head).s;
                let (v, w) = (self.id(), self.id());
                let a = self.arm(ty, Some(format!("v{v}")));
                let b = self.arm(ty, Some(format!("code(&v{w})")));
                s.push_str(&format!("match {h} {{ Ok(v{v}) => {a} Err(v{w}) => {b} }}"));
            }
            _ => {
                let h = self.open(O, Head).s;
                let v = self.id();
                let a = self.arm(ty, Some(format!("v{v}")));
                let b = self.arm(ty, None);
                s.push_str(&format!("match {h} {{ None => {b} Some(v{v}) => {a} }}"));
            }
        }
        blk(s)
    }

    fn arm(&mut self, ty: Ty, var: Option<String>) -> String {
        self.scope(|g| {
            if let Some(v) = var {
                g.vars.push(Var { name: v, ty: I, mutable: false });
            }
            if g.s.chance(40) {
                let b = g.block(ty, Bk::Inner);
                format!("{b}{} ", if g.s.chance(50) { "," } else { "" })
            } else {
                format!("{}, ", g.tail_expr(ty, Bk::Inner, Stmt))
            }
        })
    }

    fn loop_value(&mut self, ty: Ty) -> Ex {
        let n = self.id();
        let label = if self.s.chance(40) { format!("'l{n}") } else { String::new() };
        let k = self.s.below(3);
        let b = self.scope(|g| {
            g.fx.loops.push((label.clone(), Some(ty)));
            let v = g.free(ty);
            let body = g.stmts(2);
            let t = format!("if n{n} > {k} {{ break {}{v}; }} {body}", if label.is_empty() { String::new() } else { format!("{label} ") });
            g.fx.loops.pop();
            t
        });
        let l = if label.is_empty() { String::new() } else { format!("{label}: ") };
        blk(format!("{{ let mut n{n} = 0; {l}loop {{ n{n} += 1; {b} }} }}"))
    }

    fn is_target(&self, c: Call, own: bool) -> bool {
        match c {
            Call::Err => true,
            Call::Ok => false,
            _ => own && self.fx.decl,
        }
    }

    /// short forms are for places where the types are given
    fn short(&mut self, ty: Ty) -> Option<Ex> {
        let a = match ty {
            R | U if self.typed && self.s.chance(45) => self.s.below(3),
            _ => return None,
        };
        Some(match (a, ty) {
            (0, R) => {
                let v = self.free(I);
                call(format!("Ok({v})"), Call::Ok)
            }
            (0, _) => call("Ok(())".into(), Call::Ok),
            (1, _) => {
                let v = self.free(I);
                call(format!("{}(E({v}))", self.s.pick(&["Err", "Result::Err", "std::result::Result::Err"])), Call::Err)
            }
            (_, R) => match self.question(Free) {
                // the most common form of all
                Some(q) => call(format!("Ok({})", q.s), Call::Ok),
                None => return None,
            },
            _ => {
                let i = self.id();
                call(format!("u({i})"), Call::Other)
            }
        })
    }

    /// hooks that turn one error type into another do not give the type of their operand
    fn target_expr(&mut self, ty: Ty, own: bool, pos: Pos) -> Ex {
        let typed = self.typed && (self.cfg.copy_err || !own || !self.fx.decl);
        self.with_typed(typed, |g| g.expr(ty, pos))
    }

    fn ret(&mut self) -> String {
        let ty = self.fx.ret;
        if ty == Unit {
            return "return".into();
        }
        if !self.cfg.options && self.fx.decl && !matches!(ty, R | U) {
            // an async block in a function that declares a result: the hook would not fit
            return "panic!()".into();
        }
        let typed = self.fx.typed;
        let e = self.with_typed(typed, |g| match g.short(ty) {
            Some(e) => e,
            None => g.target_expr(ty, true, Free),
        });
        let v = if self.is_target(e.call, true) { self.mark('r', &e.s) } else { e.s };
        format!("return {v}")
    }

    fn jump(&mut self) -> String {
        let l: Vec<(String, Option<Ty>)> = self.fx.loops.clone();
        if !l.is_empty() && self.s.chance(60) {
            let k = if self.s.chance(60) { l.len() - 1 } else { self.s.below(l.len() as u32) as usize };
            let (name, ty) = l[k].clone();
            let inner = k == l.len() - 1;
            if inner || !name.is_empty() {
                let at = if inner && (name.is_empty() || self.s.chance(50)) { String::new() } else { format!(" {name}") };
                return match ty {
                    Some(t) if self.s.chance(60) => format!("break{at} {}", self.free(t)),
                    None if self.s.chance(50) => format!("break{at}"),
                    _ => format!("continue{at}"),
                };
            }
        }
        self.ret()
    }

    fn tail_expr(&mut self, ty: Ty, kind: Bk, pos: Pos) -> String {
        if self.typed && self.s.chance(10) {
            return self.jump();
        }
        let e = match self.short(ty) {
            Some(e) => e,
            None => self.target_expr(ty, kind == Bk::Body, pos),
        };
        // a comparison or an operator after a leading block would end the block as a statement
        if self.is_target(e.call, kind == Bk::Body) { self.mark('t', &e.s) } else { e.s }
    }

    fn block(&mut self, ty: Ty, kind: Bk) -> String {
        self.scope(|g| {
            let max = if g.s.small() { 1 } else { 3 };
            let mut s = g.stmts(max);
            if ty == Unit {
                if g.s.chance(10) {
                    s.push_str(&g.jump());
                }
            } else {
                s.push_str(&g.tail_expr(ty, kind, Stmt));
            }
            format!("{{ {s} }}")
        })
    }

    fn stmts(&mut self, max: u32) -> String {
        let mut s = String::new();
        for _ in 0..=self.s.below(max + 1) {
            if self.s.small() {
                break;
            }
            s.push_str(&self.stmt());
            s.push(' ');
        }
        s
    }

    fn stmt(&mut self) -> String {
        if self.cfg.bindings && self.s.chance(12) {
            let (d, n) = self.define();
            let t = self.marked_stmt();
            self.undefine(n);
            return format!("{ONLY}{d}{END}{t}");
        }
        if self.cfg.skips && self.mute == 0 && self.s.chance(7) {
            let all = self.s.chance(50);
            self.mute = if all { 2 } else { 1 };
            let t = self.marked_stmt();
            self.mute = 0;
            return format!("{ONLY}#[hooq::{}] {END}{t}", if all { "skip_all" } else { "skip" });
        }
        self.s.spend(1);
        let q = if self.fx.carrier.is_some() { 8 } else { 0 };
        match self.s.weighted(&[6, q, 3, 2, 3, 3, 3, 3, 2, 3, 3, 2, 2, 2, 2, 2]) {
            0 => self.let_int(),
            1 => match self.question(Stmt) {
                Some(q) if self.fx.carrier != Some(U) || self.s.chance(60) => format!("{};", q.s),
                Some(_) | None => {
                    let u = self.post(U, Stmt);
                    format!("{}?;", self.mark('q', &u))
                }
            },
            2 => match self.var(I, true) {
                Some(v) => {
                    let e = self.free(I);
                    format!("{v} {} {e};", self.s.pick(&["=", "^=", "|="]))
                }
                None => self.let_int(),
            },
            3 => format!("let _d = D({});", self.id()),
            4 => {
                let e = self.if_(Unit, Stmt).s;
                e
            }
            5 => self.match_(Unit, Stmt).s,
            6 => {
                // loops run a bounded number of times
                let n = self.id();
                let label = if self.s.chance(40) { format!("'l{n}") } else { String::new() };
                let l = if label.is_empty() { String::new() } else { format!("{label}: ") };
                let kind = self.s.below(3);
                // jumps without a label cannot stand in the condition of a loop
                let outer = if kind == 0 { None } else { Some(std::mem::take(&mut self.fx.loops)) };
                let head = match kind {
                    0 => {
                        let a = self.free(I);
                        format!("for v{n} in 0..({a}).rem_euclid(3)")
                    }
                    1 => {
                        let c = self.expr(B, Head);
                        let c = self.at(c, 2, Head, true);
                        format!("while fuel() && {c}")
                    }
                    _ => {
                        let o = self.post(O, Head);
                        format!("while let Some(v{n}) = {o}.filter(|_| fuel())")
                    }
                };
                self.fx.loops = outer.unwrap_or_else(|| self.fx.loops.clone());
                let body = self.scope(|g| {
                    if kind != 1 {
                        g.vars.push(Var { name: format!("v{n}"), ty: I, mutable: false });
                    }
                    g.fx.loops.push((label, None));
                    let b = g.block(Unit, Bk::Inner);
                    g.fx.loops.pop();
                    b
                });
                format!("{l}{head} {body}")
            }
            7 => {
                let n = self.id();
                let (p, o) = match self.s.below(3) {
                    0 => ("Ok", self.open(R, Free)),
                    _ => ("Some", self.open(O, Free)),
                };
                let o = self.at(o, 2, Free, false);
                // a trailing brace is not allowed before `else`
                let o = if o.ends_with('}') { format!("({o})") } else { o };
                let b = self.scope(|g| {
                    let s = g.stmts(1);
                    let j = g.jump();
                    format!("{{ {s}{j}{} }}", if g.s.chance(50) { ";" } else { "" })
                });
                self.vars.push(Var { name: format!("v{n}"), ty: I, mutable: false });
                format!("let {p}(v{n}) = {o} else {b};")
            }
            8 => {
                let n = self.id();
                let e = self.with_typed(true, |g| g.expr(R, Free).s);
                self.vars.push(Var { name: format!("x{n}"), ty: R, mutable: false });
                format!("let x{n}: Result<i64, E> = {e};")
            }
            9 => {
                let c = self.cond();
                let r = self.scope(|g| g.jump());
                format!("if {c} {{ {r}; }}")
            }
            10 => {
                // an array with effects on both sides of the assignment
                let n = self.id();
                let (a, b) = (self.free(I), self.post(I, Free));
                let c = self.free(I);
                format!("let mut w{n} = [0i64; 3]; w{n}[{b}.rem_euclid(3) as usize] = {a}; w{n}[1] ^= {c}; log(&format!(\"{{w{n}:?}}\"));")
            }
            11 => self.inner_fn(),
            12 => {
                // a closure that is called later
                let n = self.id();
                let b = self.frozen(|g| g.closure_body(true, R, Some(format!("v{n}"))));
                self.fns.push((format!("k{n}"), R));
                format!("let k{n} = move |v{n}: i64| -> Result<i64, E> {b};")
            }
            13 => {
                let m = *self.s.pick(&["one", "last"]);
                let a = self.free(I);
                let a = if m == "last" { format!("{}, {a}", self.free(I)) } else { a };
                match self.s.below(3) {
                    0 => format!("{m}! {{ {a} }};"),
                    1 => format!("{m}![{a}];"),
                    _ => format!("{m}!({a});"),
                }
            }
            14 => {
                let b = self.block(Unit, Bk::Inner);
                format!("{}{b}", self.s.pick(&["", "unsafe "]))
            }
            _ => {
                let e = self.free(O);
                let n = self.id();
                self.vars.push(Var { name: format!("x{n}"), ty: O, mutable: false });
                format!("let x{n}: Option<i64> = {e};")
            }
        }
    }

    /// a statement that an attribute can stand on
    fn marked_stmt(&mut self) -> String {
        match self.s.below(6) {
            0 | 1 => self.let_int(),
            2 => match self.question(Stmt) {
                Some(q) => format!("{};", q.s),
                None => self.let_int(),
            },
            3 => self.if_(Unit, Stmt).s,
            4 => self.match_(Unit, Stmt).s,
            _ => self.inner_fn(),
        }
    }

    fn let_int(&mut self) -> String {
        let n = self.id();
        let e = self.with_typed(true, |g| g.expr(I, Free).s);
        let mutable = self.s.chance(40);
        self.vars.push(Var { name: format!("x{n}"), ty: I, mutable });
        format!("let {}x{n}: i64 = {e};", if mutable { "mut " } else { "" })
    }

    fn sig(&mut self) -> (&'static str, Ty, bool) {
        let k = if self.cfg.options { 10 } else { 9 };
        match self.s.below(k) {
            0..=3 => ("Result<i64, E>", R, true),
            4 => ("std::result::Result<i64, E>", R, true),
            5 => ("Res", R, false),
            6 => ("Result<(), E>", U, true),
            7 => ("i64", I, false),
            8 => ("()", Unit, false),
            _ => ("Option<i64>", O, false),
        }
    }

    fn body(&mut self, ty: Ty, decl: bool, asy: bool, params: &[&str]) -> String {
        let carrier = if matches!(ty, R | U | O) { Some(ty) } else { None };
        let fx = Fx { carrier, decl, ret: ty, loops: vec![], asy, typed: true };
        let (vars, fns) = (std::mem::take(&mut self.vars), std::mem::take(&mut self.fns));
        let m = self.mute;
        if m == 1 {
            self.mute = 0;
        }
        for p in params {
            self.vars.push(Var { name: p.to_string(), ty: I, mutable: false });
        }
        let b = self.with_typed(true, |g| g.with_fx(fx, |g| g.block(ty, Bk::Body)));
        self.mute = m;
        (self.vars, self.fns) = (vars, fns);
        b
    }

    fn inner_fn(&mut self) -> String {
        let n = self.id();
        let (t, ty, decl) = self.sig();
        let b = self.body(ty, decl, false, &["a"]);
        self.fns.push((format!("f{n}"), ty));
        format!("fn f{n}(a: i64) -> {t} {b}")
    }

    pub fn unit_prog(&mut self) -> Prog {
        let (t, ty, decl) = self.sig();
        match self.s.below(8) {
            0 | 1 | 2 => {
                let b = self.body(ty, decl, false, &["a", "b"]);
                Prog { text: format!("@ROOT@ pub fn f(a: i64, b: i64) -> {t} {b}"), run: "log(&f(3, 5).show());".into() }
            }
            3 => {
                let b = self.body(ty, decl, true, &["a", "b"]);
                Prog { text: format!("@ROOT@ pub async fn f(a: i64, b: i64) -> {t} {b}"), run: "log(&block_on(f(3, 5)).show());".into() }
            }
            4 => {
                let b = self.body(ty, decl, false, &["self.v", "a"]);
                let (t2, ty2, decl2) = self.sig();
                let c = self.body(ty2, decl2, false, &["a"]);
                Prog {
                    text: format!("pub struct S {{ v: i64 }} @ROOT@ impl S {{ pub fn f(&self, a: i64) -> {t} {b} pub fn g(a: i64) -> {t2} {c} }}"),
                    run: "log(&S { v: 4 }.f(2).show()); log(&S::g(1).show());".into(),
                }
            }
            5 => {
                let b = self.body(ty, decl, false, &["self.v()", "a"]);
                Prog {
                    text: format!("pub struct S; @ROOT@ pub trait T {{ fn v(&self) -> i64; fn f(&self, a: i64) -> {t} {b} }} impl T for S {{ fn v(&self) -> i64 {{ t(77) }} }}"),
                    run: "log(&S.f(2).show());".into(),
                }
            }
            6 => {
                let b = self.body(ty, decl, false, &["a"]);
                let (t2, ty2, decl2) = self.sig();
                let c = self.body(ty2, decl2, false, &["x"]);
                Prog {
                    text: format!("@ROOT@ pub mod m {{ use super::*; pub fn f(a: i64) -> {t} {b} pub mod k {{ use super::*; pub fn g<X: Into<i64>>(x: X) -> {t2} {{ let x: i64 = x.into(); g_(x) }} fn g_(x: i64) -> {t2} {c} }} }}")
                        .replace("{ let x: i64 = x.into(); g_(x) }", &if decl2 { format!("{{ let x: i64 = x.into(); {} }}", self.mark('t', "g_(x)")) } else { "{ let x: i64 = x.into(); g_(x) }".into() }),
                    run: "log(&m::f(2).show()); log(&m::k::g(7i32).show());".into(),
                }
            }
            _ => {
                let b = self.body(ty, decl, false, &["a"]);
                let (t2, ty2, decl2) = self.sig();
                let c = self.body(ty2, decl2, false, &["a"]);
                Prog {
                    text: format!("@ROOT@ const _: () = {{ impl F for i64 {{ fn f(a: i64) -> {t} {b} }} impl F2 for i64 {{ fn g(a: i64) -> {t2} {c} }} }}; pub trait F {{ fn f(a: i64) -> {t}; }} pub trait F2 {{ fn g(a: i64) -> {t2}; }}"),
                    run: "log(&<i64 as F>::f(2).show()); log(&<i64 as F2>::g(7).show());".into(),
                }
            }
        }
    }
}

/// the text between the marks of one kind of program
pub fn plain(t: &str) -> String {
    let mut out = String::new();
    let mut only = false;
    let mut it = t.chars();
    while let Some(c) = it.next() {
        match c {
            ONLY => only = true,
            END => only = false,
            OPEN => {
                it.nth(1);
            }
            CLOSE => (),
            c if !only => out.push(c),
            _ => (),
        }
    }
    out
}

/// the text of the annotated program
pub fn annotated(t: &str) -> String {
    let mut out = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        match c {
            ONLY | END | CLOSE => (),
            OPEN => {
                it.nth(1);
            }
            c => out.push(c),
        }
    }
    out
}

/// hooks written by hand: the text for kind and index has the operand at `@`
pub fn by_hand(t: &str, hook: impl Fn(char, usize) -> String) -> String {
    let mut out = String::new();
    let mut only = false;
    let mut ends: Vec<String> = vec![];
    let mut it = t.chars();
    while let Some(c) = it.next() {
        match c {
            ONLY => only = true,
            END => only = false,
            OPEN => {
                let k = it.next().unwrap();
                let h = hook(k, (it.next().unwrap() as u32 - INDEX) as usize);
                let (pre, post) = h.split_once('@').unwrap();
                out.push_str(pre);
                ends.push(post.to_string());
            }
            CLOSE => out.push_str(&ends.pop().unwrap()),
            c if !only => out.push(c),
            _ => (),
        }
    }
    out
}

#[derive(Debug, Clone)]
pub struct Place {
    pub kind: char,
    pub index: usize,
    /// places in the annotated text, lines from 1, columns from 0: the whole target and the point that it is named by
    pub start: (usize, usize),
    pub end: (usize, usize),
    pub at: (usize, usize),
    /// number among the targets of its kind in the item
    pub nth: usize,
}

/// Where the marks of the text are in the annotated program.
pub fn places(t: &str) -> Vec<Place> {
    let mut out = vec![];
    let mut open: Vec<(char, usize, (usize, usize), (usize, usize))> = vec![];
    let (mut line, mut col) = (1, 0);
    let mut word = String::new();
    let mut last_return = (0, 0);
    let mut nth = std::collections::HashMap::new();
    let chars: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < chars.len() {
        match chars[i] {
            ONLY | END => (),
            OPEN => {
                let k = chars[i + 1];
                open.push((k, (chars[i + 2] as u32 - INDEX) as usize, (line, col), last_return));
                i += 2;
            }
            CLOSE => {
                let (kind, index, start, ret) = open.pop().unwrap();
                let n = nth.entry(kind).and_modify(|n| *n += 1).or_insert(1usize);
                let here = (line, col);
                out.push(match kind {
                    'q' => Place { kind, index, start, end: (line, col + 1), at: here, nth: *n },
                    'r' => Place { kind, index, start: ret, end: here, at: ret, nth: *n },
                    _ => Place { kind, index, start, end: here, at: start, nth: *n },
                });
            }
            '@' if chars[i..].starts_with(&['@', 'N', 'E', 'W', '@']) => {
                nth.clear();
                i += 4;
            }
            c => {
                if c.is_alphanumeric() || c == '_' {
                    word.push(c);
                    if word == "return" {
                        last_return = (line, col - 5);
                    }
                } else {
                    word.clear();
                }
                if c == '\n' {
                    line += 1;
                    col = 0;
                } else {
                    col += 1;
                }
            }
        }
        i += 1;
    }
    out
}

const STRINGS: [&str; 8] = [
    "\"\"",
    "\"short\"",
    "\"exactly 10\"",
    "\"eleven chars\"",
    "\"two lines of text\\nthe second one being longer\"",
    "\"äöü with more than ten characters 日本語\"",
    "r#\"raw \"text\" of more than ten characters\"#",
    "\"a literal\n  over two lines\"",
];

pub const BINDINGS: [&str; 20] = [
    "7i64",
    "-3i64",
    "\"text\"",
    "r#\"raw \"text\"\"#",
    "String::from(\"own\")",
    "'c'",
    "1.5",
    "true",
    "(1i64, false)",
    "Some(4i64)",
    "vec![1i64, 2, 3]",
    "{ let x = 1i64; x + 1 }",
    "if true { 1i64 } else { 2i64 }",
    "(2i64 + 3i64) * 4i64",
    "sum!(1, 2)",
    "()",
    "'\u{3b1}'",
    "\"tab\\t,quotes\\\"\\\"\u{65e5}\"",
    "Some((1i64 as i32) as i64)",
    "sum! { 3, if true { 4 } else { 5 } }",
];

/// an expression of any length without effects
fn value(s: &mut Src, n: &mut u32) -> String {
    if *n == 0 {
        return format!("{}i64", s.below(100));
    }
    *n -= 1;
    match s.below(7) {
        0 => format!("({} ^ {})", value(s, n), value(s, n)),
        1 => format!("{{ let x = {}; x | {} }}", value(s, n), value(s, n)),
        2 => format!("if {} > 50 {{ {} }} else {{ {} }}", value(s, n), value(s, n), value(s, n)),
        3 => format!("[{}, {}][1]", value(s, n), value(s, n)),
        4 => format!("i64::max({}, {})", value(s, n), value(s, n)),
        5 => format!("match {} {{ 0..=9 => {}, _ => {} }}", value(s, n), value(s, n), value(s, n)),
        _ => format!("{}.min(-1 + {})", { let a = value(s, n); if a.starts_with(['{', 'i', 'm']) { format!("({a})") } else { a } }, { let a = value(s, n); if a.starts_with(['{', 'i', 'm']) { format!("({a})") } else { a } }),
    }
}

pub const PRELUDE: &str = r##"
use std::cell::{Cell, RefCell};
thread_local! {
    pub static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
    pub static STEPS: Cell<u64> = Cell::new(0);
    pub static INPUT: Cell<u64> = Cell::new(0);
}
pub fn log(s: &str) {
    STEPS.set(STEPS.get() + 1);
    LOG.with_borrow_mut(|l| l.push(s.to_string()));
    if STEPS.get() > 3000 { panic!("too long") }
}
/// hooks do not count as steps
pub fn hook_log(s: String) { LOG.with_borrow_mut(|l| l.push(s)); }
pub fn bits(id: u64) -> u64 {
    let mut z = INPUT.get().wrapping_mul(0x9E3779B97F4A7C15) ^ id.wrapping_mul(0xD1B54A32D192ED03) ^ STEPS.get().wrapping_mul(0x8CB92BA72F3D8DD7);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fuel() -> bool { STEPS.set(STEPS.get() + 1); STEPS.get() < 200 && bits(9) % 3 != 0 }
pub fn t(n: i64) -> i64 { log(&format!("t{n}")); n }
pub fn c(n: u64) -> bool { log(&format!("c{n}")); if INPUT.get() == 0 { false } else { bits(n) % 2 == 0 } }
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct E2(pub i64);
impl std::fmt::Display for E2 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "other {}", self.0) } }
impl std::error::Error for E2 {}
pub type Res = Result<i64, E>;
fn bad(n: u64) -> bool { INPUT.get() != 0 && bits(n) % 5 == 0 }
pub fn r(n: u64, v: i64) -> Result<i64, E> { log(&format!("r{n} {v}")); if bad(n) { Err(E(n as i64)) } else { Ok(v) } }
pub fn r2(n: u64, v: i64) -> Result<i64, E2> { log(&format!("s{n} {v}")); if bad(n) { Err(E2(n as i64)) } else { Ok(v) } }
pub fn u(n: u64) -> Result<(), E> { log(&format!("u{n}")); if bad(n) { Err(E(n as i64)) } else { Ok(()) } }
pub fn o(n: u64, v: i64) -> Option<i64> { log(&format!("o{n} {v}")); if bad(n) { None } else { Some(v) } }
pub fn rr(f: impl FnOnce() -> Result<i64, E>) -> Result<i64, E> { f() }
pub fn slen(s: &str, a: i64) -> i64 { log(&format!("len {}", s.len())); a }
pub fn pair(a: i64, b: i64) -> i64 { log(&format!("p {a} {b}")); a.wrapping_mul(31) ^ b }
pub struct P { pub a: i64, pub b: i64 }
pub struct D(pub u64);
impl Drop for D { fn drop(&mut self) { STEPS.set(STEPS.get() + 1); LOG.with_borrow_mut(|l| l.push(format!("drop {}", self.0))); } }
impl D {
    pub fn get(&self, a: i64) -> i64 { log(&format!("get {} {a}", self.0)); a }
    pub fn res(&self, a: i64) -> Result<i64, E> { r(self.0, a) }
}
pub trait Join { fn join(self, b: i64) -> i64; }
impl Join for i64 { fn join(self, b: i64) -> i64 { pair(self, b) } }
macro_rules! two { ($a:expr, $b:expr) => { pair($a, $b) } }
macro_rules! one { ($a:expr) => { $a } }
macro_rules! last { ($($a:expr),*) => {{ let mut _z = 0i64; $( _z = $a; )* _z }} }
pub fn ai<F: Future<Output = i64>>(f: F) -> F { f }
pub fn ar<F: Future<Output = Result<i64, E>>>(f: F) -> F { f }
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop { if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x } }
}
"##;

/// the error type of programs that do not bring their own
pub const ERRORS: &str = r##"
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct E(pub i64);
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "error {}", self.0) } }
impl std::error::Error for E {}
impl From<E2> for E { fn from(e: E2) -> E { log("from"); E(e.0 ^ 1) } }
pub fn code(e: &E) -> i64 { e.0 }
pub fn es(e: &E) -> String { format!("{e:?}") }
pub trait Show { fn show(&self) -> String; }
impl Show for Result<i64, E> { fn show(&self) -> String { match self { Ok(v) => format!("Ok {v}"), Err(e) => format!("Err {}", es(e)) } } }
impl Show for Result<(), E> { fn show(&self) -> String { match self { Ok(_) => "Ok".into(), Err(e) => format!("Err {}", es(e)) } } }
impl Show for i64 { fn show(&self) -> String { self.to_string() } }
impl Show for () { fn show(&self) -> String { "()".into() } }
impl Show for Option<i64> { fn show(&self) -> String { format!("{self:?}") } }
"##;

/// breaks lines and adds comments at the spaces
pub fn spread(t: &str, s: &mut Src) -> String {
    let mut out = String::new();
    let mut string = false;
    for c in t.chars() {
        if c == '"' {
            string = !string;
        }
        if c != ' ' || string {
            out.push(c);
            continue;
        }
        match s.weighted(&[70, 14, 4, 3, 2, 2]) {
            0 => out.push(' '),
            1 => {
                out.push('\n');
                out.push_str(&" ".repeat(s.below(9) as usize));
            }
            2 => out.push_str("  "),
            3 => out.push_str(" /* \u{65e5}\u{672c} */ "),
            4 => out.push_str("\n\n\n"),
            _ => out.push_str(" // \u{e9}?\n  "),
        }
    }
    out
}
