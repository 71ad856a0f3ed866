//! Builds the crates under test from /repo's working tree and expands/compiles generated files with them.
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

pub const TOOLCHAIN: &str = "1.88.0";

#[derive(Clone, Debug, Default)]
pub struct Artifacts {
    /// crate name -> rlib / proc-macro library
    pub libs: HashMap<String, PathBuf>,
    pub deps: PathBuf,
}

pub struct Env {
    pub root: PathBuf,
    pub work: PathBuf,
    pub art: Artifacts,
    pub art_consume: Option<Artifacts>,
    pub rustc: PathBuf,
    counter: AtomicUsize,
}

fn build(harness: &Path, consume: bool) -> Result<Artifacts, String> {
    let target = harness.join("target");
    let mut c = Command::new("cargo");
    c.current_dir(harness)
        .env("RUSTUP_TOOLCHAIN", TOOLCHAIN)
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("RUSTFLAGS")
        .env_remove("RUSTC_WRAPPER")
        .env("CARGO_TARGET_DIR", &target)
        .args(["build", "--offline", "-p", "rt", "-p", "hvcap", "--message-format=json"]);
    if consume {
        c.args(["--features", "rt/consume"]);
    }
    let out = c.stderr(Stdio::piped()).output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        let mut msg = String::from_utf8_lossy(&out.stderr).to_string();
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
                if let Some(r) = v["message"]["rendered"].as_str() {
                    msg.push_str(r);
                }
            }
        }
        return Err(msg);
    }
    let mut libs = HashMap::new();
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if v["reason"] != "compiler-artifact" {
            continue;
        }
        let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
        for f in v["filenames"].as_array().into_iter().flatten() {
            let f = f.as_str().unwrap_or("");
            if f.ends_with(".rlib") || f.ends_with(".so") {
                libs.insert(name.clone(), PathBuf::from(f));
            }
        }
    }
    for n in ["hooq", "hvcap", "rt", "anyhow", "eyre", "color_eyre", "log", "tracing"] {
        if !libs.contains_key(n) {
            return Err(format!("artifact {n} not found"));
        }
    }
    Ok(Artifacts { libs, deps: target.join("debug/deps") })
}

impl Env {
    pub fn new(root: &Path, tag: &str, consume: bool) -> Result<Env, String> {
        let harness = root.join("harness");
        let art = build(&harness, false)?;
        let art_consume = if consume { Some(build(&harness, true)?) } else { None };
        let rustc = String::from_utf8_lossy(
            &Command::new("rustup")
                .args(["which", "--toolchain", TOOLCHAIN, "rustc"])
                .output()
                .map_err(|e| e.to_string())?
                .stdout,
        )
        .trim()
        .to_string();
        let work = root.join("work").join(tag);
        let _ = std::fs::remove_dir_all(&work);
        std::fs::create_dir_all(&work).map_err(|e| e.to_string())?;
        Ok(Env { root: root.to_path_buf(), work, art, art_consume, rustc: rustc.into(), counter: AtomicUsize::new(0) })
    }

    pub fn fresh_dir(&self) -> PathBuf {
        let n = self.counter.fetch_add(1, Ordering::SeqCst);
        let d = self.work.join(format!("d{n}"));
        std::fs::create_dir_all(&d).unwrap();
        d
    }

    pub fn artifacts(&self, consume: bool) -> &Artifacts {
        if consume { self.art_consume.as_ref().expect("consume artifacts") } else { &self.art }
    }

    fn base_cmd(&self, dir: &Path, file: &str, consume: bool) -> Command {
        let art = self.artifacts(consume);
        let mut c = Command::new(&self.rustc);
        c.current_dir(dir)
            .env_remove("CARGO")
            .env("CARGO_MANIFEST_DIR", dir)
            .env("CARGO_PKG_NAME", "case")
            .env("CARGO_CRATE_NAME", "case")
            .args(["--edition", "2024", "--error-format=json", "-C", "debuginfo=0"])
            .arg("-L")
            .arg(format!("dependency={}", art.deps.display()));
        for n in ["hooq", "hvcap", "rt", "anyhow", "eyre", "color_eyre", "log", "tracing"] {
            c.arg("--extern").arg(format!("{n}={}", art.libs[n].display()));
        }
        c.arg(file);
        c
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    pub message: String,
    pub rendered: String,
    pub line: usize, // 0 = none
    pub level: String,
    pub is_panic: bool,
}

fn outer_span_line(s: &serde_json::Value, file: &str) -> usize {
    // walk up the macro expansion chain to the outermost site that lies in the file itself
    let mut cur = s;
    let mut line = 0;
    loop {
        if cur["file_name"].as_str() == Some(file) {
            line = cur["line_start"].as_u64().unwrap_or(0) as usize;
        }
        let e = &cur["expansion"];
        if e.is_null() {
            return line;
        }
        cur = &e["span"];
    }
}

fn parse_diags(stderr: &str, file: &str) -> Vec<Diag> {
    let mut v = vec![];
    for l in stderr.lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        let level = j["level"].as_str().unwrap_or("").to_string();
        let message = j["message"].as_str().unwrap_or("").to_string();
        if message.starts_with("aborting due to") || message.starts_with("For more information about") {
            continue;
        }
        let mut line = 0;
        for s in j["spans"].as_array().into_iter().flatten() {
            if s["is_primary"].as_bool() == Some(true) {
                line = outer_span_line(s, file);
                break;
            }
        }
        let mut is_panic = message.contains("panicked");
        let mut full = message.clone();
        for c in j["children"].as_array().into_iter().flatten() {
            if let Some(m) = c["message"].as_str() {
                if m.contains("panicked") || message.contains("panicked") {
                    full.push_str(" | ");
                    full.push_str(m);
                    is_panic |= m.contains("panicked");
                }
            }
        }
        let rendered = j["rendered"].as_str().unwrap_or("").to_string();
        v.push(Diag { message: full, rendered, line, level, is_panic });
    }
    v
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Tokens(String),
    Errors(Vec<Diag>),
}

/// One expansion unit: the text of exactly one item with `@CAP@` where the capture attribute goes.
#[derive(Clone, Debug)]
pub struct Unit {
    pub text: String,
}

pub struct Batch {
    pub file_text: String,
    /// 1-based first and last line of each unit
    pub lines: Vec<(usize, usize)>,
}

pub const PRELUDE: &str = "#![allow(warnings)]\n";

pub fn assemble(units: &[Unit], prelude: &str) -> Batch {
    let mut t = String::from(prelude);
    let mut lines = vec![];
    let mut ln = 1 + prelude.matches('\n').count();
    for (i, u) in units.iter().enumerate() {
        let s = u.text.replace("@CAP@", &format!("#[hvcap::capture({i})]"));
        let n = s.matches('\n').count();
        lines.push((ln, ln + n));
        ln += n + 1;
        t.push_str(&s);
        t.push('\n');
    }
    Batch { file_text: t, lines }
}

pub struct ExpandCfg<'a> {
    pub toml: Option<&'a str>,
    pub consume: bool,
    /// relative path of the file below the package directory
    pub file: &'a str,
    pub prelude: &'a str,
}
impl Default for ExpandCfg<'_> {
    fn default() -> Self {
        ExpandCfg { toml: None, consume: false, file: "case.rs", prelude: PRELUDE }
    }
}

pub struct Expanded {
    pub outcomes: Vec<Outcome>,
    pub stray: Vec<Diag>,
    pub batch: Batch,
    pub success: bool,
}

impl Env {
    fn make_pkg(&self, cfg: &ExpandCfg) -> PathBuf {
        let dir = self.fresh_dir();
        std::fs::write(dir.join("Cargo.toml"), "[package]\nname = \"case\"\nversion = \"0.1.0\"\n\n[dependencies]\nhooq = \"*\"\n").unwrap();
        if let Some(t) = cfg.toml {
            // markers for files that cannot be read as text
            if t == "\0dir" {
                std::fs::create_dir(dir.join("hooq.toml")).unwrap();
            } else if let Some(t) = t.strip_prefix("\0bytes") {
                std::fs::write(dir.join("hooq.toml"), [t.as_bytes(), b"# \xff\xfe\n"].concat()).unwrap();
            } else {
                std::fs::write(dir.join("hooq.toml"), t).unwrap();
            }
        }
        if let Some(p) = dir.join(cfg.file).parent() {
            std::fs::create_dir_all(p).unwrap();
        }
        dir
    }

    /// Does the compiler's own parser accept the unit (with nothing expanded in it)?
    pub fn parses(&self, text: &str) -> bool {
        let u = Unit { text: format!("@CAP@ {}", text.replace("@CAP@", "")) };
        let ex = self.expand(&[u], &ExpandCfg::default());
        matches!(ex.outcomes[0], Outcome::Tokens(_))
    }

    /// Expand the units in one compiler process.
    pub fn expand(&self, units: &[Unit], cfg: &ExpandCfg) -> Expanded {
        let batch = assemble(units, cfg.prelude);
        let dir = self.make_pkg(cfg);
        std::fs::write(dir.join(cfg.file), &batch.file_text).unwrap();
        let outf = dir.join("cap.out");
        let mut c = self.base_cmd(&dir, cfg.file, cfg.consume);
        c.env("HV_OUT", &outf)
            .args(["--cap-lints=allow"])
            .args(["--crate-type", "lib", "--crate-name", "case", "--emit=metadata", "-o"])
            .arg(dir.join("out.rmeta"));
        let o = c.output().expect("rustc");
        let stderr = String::from_utf8_lossy(&o.stderr).to_string();
        let diags = parse_diags(&stderr, cfg.file);
        let mut caps: BTreeMap<usize, String> = BTreeMap::new();
        if let Ok(s) = std::fs::read_to_string(&outf) {
            let mut rest = s.as_str();
            while !rest.is_empty() {
                let Some((id, r)) = rest.split_once('\n') else { break };
                let Some((len, r)) = r.split_once('\n') else { break };
                let len: usize = len.parse().unwrap_or(0);
                if let Ok(id) = id.trim().parse::<usize>() {
                    caps.insert(id, r[..len].to_string());
                }
                rest = &r[len + 1..];
            }
        }
        let mut per: Vec<Vec<Diag>> = vec![vec![]; units.len()];
        let mut stray = vec![];
        for d in diags {
            if d.level != "error" && !d.level.starts_with("error") {
                continue;
            }
            match batch.lines.iter().position(|(a, b)| d.line >= *a && d.line <= *b) {
                Some(i) => per[i].push(d),
                None => stray.push(d),
            }
        }
        if o.status.code().is_none() || stderr.contains("internal compiler error") {
            stray.push(Diag { message: format!("compiler crashed: {}", &stderr[..stderr.len().min(2000)]), rendered: String::new(), line: 0, level: "error".into(), is_panic: true });
        }
        let outcomes = (0..units.len())
            .map(|i| match caps.get(&i) {
                Some(t) => Outcome::Tokens(t.clone()),
                None => Outcome::Errors(per[i].clone()),
            })
            .collect();
        let _ = std::fs::remove_dir_all(&dir);
        Expanded { outcomes, stray, batch, success: o.status.success() }
    }

    /// The whole file after expansion as printed by the compiler, and the error messages.
    pub fn unpretty(&self, text: &str, cfg: &ExpandCfg) -> (String, Vec<Diag>) {
        let dir = self.make_pkg(cfg);
        std::fs::write(dir.join(cfg.file), text).unwrap();
        let mut c = self.base_cmd(&dir, cfg.file, cfg.consume);
        c.env("RUSTC_BOOTSTRAP", "1").env("HV_OUT", dir.join("cap.out")).args(["--cap-lints=allow"]).args(["--crate-type", "lib", "--crate-name", "case", "-Zunpretty=expanded"]);
        let o = c.output().expect("rustc");
        let diags = parse_diags(&String::from_utf8_lossy(&o.stderr), cfg.file);
        let _ = std::fs::remove_dir_all(&dir);
        (String::from_utf8_lossy(&o.stdout).to_string(), diags)
    }

    /// Compile a program and run it; returns (stdout, stderr, status code) or diagnostics.
    pub fn run_program(&self, text: &str, toml: Option<&str>, consume: bool, args: &[&str], env: &[(&str, &str)]) -> Result<RunOut, Vec<Diag>> {
        let cfg = ExpandCfg { toml, consume, file: "src/main.rs", ..Default::default() };
        let dir = self.make_pkg(&cfg);
        std::fs::write(dir.join(cfg.file), text).unwrap();
        let mut c = self.base_cmd(&dir, cfg.file, consume);
        // programs that deny warnings are checked for them
        if !text.starts_with("#![deny(warnings)]") {
            c.args(["--cap-lints=allow"]);
        }
        c.args(["--crate-type", "bin", "--crate-name", "case", "-C", "opt-level=0", "-C", "codegen-units=4", "-o"])
            .arg(dir.join("prog"));
        let o = c.output().expect("rustc");
        let stderr = String::from_utf8_lossy(&o.stderr).to_string();
        if !o.status.success() {
            let mut d: Vec<Diag> = parse_diags(&stderr, cfg.file).into_iter().filter(|d| d.level.starts_with("error")).collect();
            if d.is_empty() {
                d.push(Diag { message: stderr, rendered: String::new(), line: 0, level: "error".into(), is_panic: false });
            }
            let _ = std::fs::remove_dir_all(&dir);
            return Err(d);
        }
        let mut r = Command::new(dir.join("prog"));
        r.current_dir(&dir).args(args).env_remove("RUST_BACKTRACE").env_remove("RUST_LIB_BACKTRACE");
        for (k, v) in env {
            r.env(k, v);
        }
        let o = r.output().expect("run");
        let _ = std::fs::remove_dir_all(&dir);
        Ok(RunOut {
            stdout: String::from_utf8_lossy(&o.stdout).to_string(),
            stderr: String::from_utf8_lossy(&o.stderr).to_string(),
            code: o.status.code(),
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RunOut {
    pub stdout: String,
    pub stderr: String,
    pub code: Option<i32>,
}

pub fn par_map<T: Sync, R: Send>(xs: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(xs.len().max(1));
    let next = AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<Option<R>>> = xs.iter().map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= xs.len() {
                            break;
                        }
                        let r = f(i, &xs[i]);
                        *out[i].lock().unwrap() = Some(r);
                    }
                })
                .unwrap();
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().expect("worker")).collect()
}
