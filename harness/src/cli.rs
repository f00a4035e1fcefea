//! The command line: which files are visited, and what is written where.
use crate::fw::{Ctx, Obs, Rng, clip};
use oxvg_ast::parse::roxmltree::{ParsingOptions, parse_with_options};
use oxvg_ast::serialize::Node as _;
use oxvg_ast::visitor::Info;
use oxvg_ast::xmlwriter::{Indent, Options, Space};
use oxvg_optimiser::Jobs;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::fs::{PermissionsExt, chown, lchown, symlink};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// The program under test is run as nobody, who owns nothing but the scratch directory.
const NOBODY: u32 = 65534;

pub fn program() -> PathBuf {
    PathBuf::from(std::env::var("VMON_OXVG").unwrap_or_else(|_| "/verif/target/cli/debug/oxvg".into()))
}

/// A directory for one case, removed with it.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("vmon-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&p).expect("scratch directory");
        Scratch(p)
    }
    /// Hands everything in the directory to nobody.
    pub fn give_away(&self) {
        fn go(p: &Path) {
            lchown(p, Some(NOBODY), Some(NOBODY)).expect("chown");
            if p.symlink_metadata().is_ok_and(|m| m.is_dir()) {
                for e in std::fs::read_dir(p).expect("read scratch").flatten() {
                    go(&e.path());
                }
            }
        }
        go(&self.0);
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Ran {
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub code: Option<i32>,
}

/// The program, to be run in a directory of the scratch directory
pub fn command(scratch: &Scratch, cwd: &Path, args: &[String]) -> Command {
    let mut c = Command::new(program());
    c.args(args)
        .current_dir(cwd)
        .env_clear()
        .env("HOME", scratch.0.join("home"))
        .env("PATH", "/usr/bin:/bin")
        .env("RUST_BACKTRACE", "0")
        .uid(NOBODY)
        .gid(NOBODY)
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    c
}

pub fn run(scratch: &Scratch, cwd: &Path, args: &[String], stdin: Option<&[u8]>) -> Ran {
    let mut c = command(scratch, cwd, args);
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut child = c.spawn().unwrap_or_else(|e| panic!("harness: cannot run {}: {e}", program().display()));
    if let Some(text) = stdin {
        let _ = child.stdin.take().expect("piped").write_all(text);
    }
    let out = child.wait_with_output().expect("harness: output");
    Ran { stdout: out.stdout, stderr: String::from_utf8_lossy(&out.stderr).into_owned(), code: out.status.code() }
}

/// What the library makes of a document.
pub fn expect(src: &str, jobs: &Jobs, path: Option<&Path>, options: Options) -> Option<String> {
    parse_with_options(src, ParsingOptions { allow_dtd: true, ..Default::default() }, |dom, allocator| {
        let mut info = Info::new(allocator);
        info.path = path.map(Into::into);
        jobs.run(dom, &info).ok()?;
        dom.serialize_with_options(options).ok()
    })
    .ok()?
}

const DIRS: &[&str] = &["a", "b", "icons", "sub dir", "日本", "deep.svg", ".hid", "build"];
const STEMS: &[&str] = &["one", "two", "x", "draw ing", "é", "build", ".dot", "keep.min", "UP"];
const EXTS: &[&str] = &[".svg", ".svg", ".svg", ".svg", ".svg", ".svg", ".SVG", ".svg.bak", ".txt", "", ".svgz"];
const PATTERNS: &[&str] = &["build", "build/", "/a", "x.svg", "*.min.svg", "icons/", "/one.svg", "b"];

#[derive(Clone, Debug, PartialEq)]
enum Entry {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
}

#[derive(Debug, Clone)]
struct Case {
    tree: BTreeMap<PathBuf, Entry>,
    /// made unreadable
    barred: BTreeSet<PathBuf>,
    args: Vec<String>,
    jobs: Value,
    roots: Vec<String>,
    output: Output,
    recursive: bool,
    hidden: bool,
    no_ignore: bool,
    quiet: bool,
    indent: Indent,
    space: Space,
    stdin: Option<Vec<u8>>,
}

#[derive(Debug, Clone, PartialEq)]
enum Output {
    Stdout,
    InPlace,
    To(String),
}

fn document(rng: &mut Rng, n: usize) -> Vec<u8> {
    let body = match rng.below(6) {
        0 => format!("<rect id=\"unused\" width=\"{n}\" height=\"5\" fill=\"#ff0000\"/>"),
        1 => format!("<g><g fill=\"red\"><path id=\"p{n}\" d=\"M 0 0 L 10 {n} L 20 20\"/></g></g><use href=\"#p{n}\" x=\"5\"/>"),
        2 => format!("<text x=\"{n}\" y=\"3\">two\n  lines</text>"),
        3 => format!("<style>.c{n}{{fill:blue}}</style><circle class=\"c{n}\" r=\"{n}\"/>"),
        4 => format!("<a href=\"https://example.com/{n}\"><ellipse rx=\"4\" ry=\"{n}\"/></a>"),
        _ => format!("<linearGradient id=\"g{n}\"><stop stop-color=\"#000000\"/></linearGradient><rect width=\"{n}\" height=\"1\" fill=\"url(#g{n})\"/>"),
    };
    match rng.below(16) {
        0 => format!("<svg xmlns=\"http://www.w3.org/2000/svg\"><rect width=\"{n}\"></svg>").into_bytes(),
        1 => [b"<svg xmlns=\"http://www.w3.org/2000/svg\"><text>".as_slice(), &[0xff, 0xfe], b"</text></svg>"].concat(),
        2 => vec![],
        3 => format!("<?xml version=\"1.0\"?>\n<!DOCTYPE svg [<!ENTITY w \"{n}\">]>\n<svg xmlns=\"http://www.w3.org/2000/svg\"><!-- {n} --><rect width=\"&w;\" height=\"2\"/></svg>\n").into_bytes(),
        4 => format!("<svg xmlns=\"http://www.w3.org/2000/svg\"><script>f({n})</script>{body}</svg>").into_bytes(),
        _ => format!("<svg xmlns=\"http://www.w3.org/2000/svg\" width=\"100\" height=\"100\">\n  <title>{n}</title>\n  {body}\n</svg>\n").into_bytes(),
    }
}

/// The jobs a configuration stands for: the preset's, then the given ones, without the omitted.
pub fn stands_for(conf: &Value) -> Value {
    let mut jobs = match conf.get("extends").and_then(Value::as_str) {
        Some("default") => serde_json::to_value(Jobs::default()).expect("jobs"),
        Some("safe") => serde_json::to_value(Jobs::safe()).expect("jobs"),
        _ => json!({}),
    };
    for (k, v) in conf["jobs"].as_object().into_iter().flatten() {
        jobs[k] = v.clone();
    }
    for k in conf.get("omit").and_then(Value::as_array).into_iter().flatten() {
        jobs.as_object_mut().expect("object").remove(&camel(k.as_str().expect("name")));
    }
    jobs
}

fn camel(name: &str) -> String {
    let mut out = String::new();
    for (i, part) in name.split('_').enumerate() {
        let mut cs = part.chars();
        if i > 0 {
            out.extend(cs.next().map(|c| c.to_ascii_uppercase()));
        }
        out.extend(cs);
    }
    out
}

pub fn snake(name: &str) -> String {
    name.chars().fold(String::new(), |s, c| if c.is_uppercase() { s + "_" + &c.to_lowercase().to_string() } else { s + &c.to_string() })
}

const JOBS: &[&str] = &["removeComments", "removeTitle", "cleanupIds", "prefixIds", "convertColors", "removeScripts", "removeDoctype", "collapseGroups", "removeDesc", "minifyStyles", "removeStyleElement", "convertShapeToPath", "removeDimensions"];

pub fn config(rng: &mut Rng) -> Value {
    let mut conf = json!({"jobs": {}});
    for _ in 0..rng.below(4) {
        let name = *rng.pick(JOBS);
        // some jobs are switches
        let plain = [json!({}), json!(true)].into_iter().find(|v| serde_json::from_value::<Jobs>(json!({name: v})).is_ok());
        conf["jobs"][name] = plain.expect("a form of the job");
    }
    if rng.chance(1, 4) {
        conf["jobs"]["precheck"] = json!({"precleanChecks": true});
    }
    if rng.chance(2, 3) {
        conf["extends"] = json!(*rng.pick(&["none", "default", "safe"]));
    }
    if rng.chance(1, 2) {
        conf["omit"] = (0..1 + rng.below(2)).map(|_| if rng.chance(1, 2) { rng.pick(JOBS).to_string() } else { snake(rng.pick(JOBS)) }).collect::<Vec<_>>().into();
    }
    conf
}

impl Case {
    fn random(rng: &mut Rng) -> Self {
        let mut tree = BTreeMap::new();
        let mut dirs = vec![PathBuf::from("w")];
        tree.insert(PathBuf::from("w"), Entry::Dir);
        tree.insert(PathBuf::from("home"), Entry::Dir);
        for _ in 0..rng.below(6) {
            let d = rng.pick(&dirs).join(rng.pick(DIRS));
            if !tree.contains_key(&d) && d.components().count() < 5 {
                dirs.push(d.clone());
                tree.insert(d, Entry::Dir);
            }
        }
        tree.insert("w/any.svg".into(), Entry::File(document(rng, 30)));
        for n in 0..rng.below(9) {
            let f = rng.pick(&dirs).join(format!("{}{}", rng.pick(STEMS), rng.pick(EXTS)));
            tree.entry(f).or_insert_with(|| Entry::File(document(rng, n + 1)));
        }
        if rng.chance(1, 8) {
            tree.insert(rng.pick(&dirs).join(".svg"), Entry::File(document(rng, 40)));
        }
        if rng.chance(1, 2) {
            tree.insert("w/.git".into(), Entry::Dir);
            if rng.chance(1, 3) {
                tree.insert("w/.git/info".into(), Entry::Dir);
                tree.insert("w/.git/info/exclude".into(), Entry::File(rng.pick(PATTERNS).as_bytes().to_vec()));
            }
        }
        for _ in 0..rng.below(3) {
            let f = rng.pick(&dirs).join(rng.pick(&[".gitignore", ".ignore"]));
            let text: Vec<&str> = (0..1 + rng.below(2)).map(|_| *rng.pick(PATTERNS)).collect();
            tree.insert(f, Entry::File(format!("# comment\n{}\n", text.join("\n")).into_bytes()));
        }
        let mut c = Case {
            tree,
            barred: BTreeSet::new(),
            args: vec![],
            jobs: json!({}),
            roots: vec![],
            output: Output::Stdout,
            recursive: rng.chance(1, 2),
            hidden: rng.chance(1, 3),
            no_ignore: rng.chance(1, 3),
            quiet: rng.chance(1, 3),
            indent: Indent::None,
            space: Space::Auto,
            stdin: None,
        };
        let files: Vec<PathBuf> = c.tree.iter().filter(|(_, e)| matches!(e, Entry::File(_))).map(|(p, _)| p.clone()).collect();
        if rng.chance(1, 6) {
            c.barred.insert(rng.pick(&files).clone());
        }
        c.where_to(rng, &dirs, &files);
        c.command(rng);
        c
    }

    fn where_to(&mut self, rng: &mut Rng, dirs: &[PathBuf], files: &[PathBuf]) {
        if rng.chance(1, 6) {
            self.stdin = Some(document(rng, 50));
            if rng.chance(1, 3) {
                self.roots.push(".".into());
            }
        } else {
            for _ in 0..if rng.chance(1, 3) { 2 } else { 1 } {
                let p = if rng.chance(1, 3) { rng.pick(files) } else { rng.pick(dirs) };
                let rel = p.strip_prefix("w").expect("below").to_str().expect("utf-8").to_string();
                let rel = if rel.is_empty() { "./".to_string() } else { rel };
                self.roots.push(match rng.below(5) {
                    0 if rel != "./" => format!("./{rel}"),
                    1 if self.tree[p] == Entry::Dir && !rel.ends_with('/') => format!("{rel}/"),
                    2 => format!("SCRATCH/w/{rel}"),
                    _ => rel,
                });
            }
            if rng.chance(1, 12) {
                let at = rng.below(self.roots.len() + 1);
                self.roots.insert(at, "missing.svg".into());
            }
        }
        self.output = match rng.below(6) {
            0 | 1 => Output::Stdout,
            2 => Output::InPlace,
            _ => Output::To(rng.pick(&["../out", "SCRATCH/out", "../out/new/deep", "../result.svg", "../out/x.svg"]).to_string()),
        };
        if let Output::To(to) = &self.output.clone() {
            if rng.chance(1, 2) && to.contains("out") {
                self.tree.insert("out".into(), Entry::Dir);
                if to == "../out" && rng.chance(1, 2) {
                    self.output = Output::To("../out/".into());
                }
                if rng.chance(1, 3) {
                    // in the way of a result
                    self.tree.insert("out/one.svg".into(), if rng.chance(1, 2) { Entry::Dir } else { Entry::File(b"old".to_vec()) });
                }
                if rng.chance(1, 3) {
                    self.tree.insert("out/other.svg".into(), Entry::File(b"<other/>".to_vec()));
                }
            }
        }
        // two names for one file cannot both be rewritten
        if self.output != Output::InPlace && rng.chance(1, 4) {
            let to = if rng.chance(1, 2) { rng.pick(files) } else { rng.pick(dirs) };
            let at = rng.pick(dirs).join(rng.pick(&["link.svg", "linked"]));
            if !at.starts_with(to) && !self.tree.contains_key(&at) {
                let up: PathBuf = at.parent().expect("below").components().map(|_| "..").collect();
                self.tree.insert(at, Entry::Link(up.join(to)));
            }
        }
    }

    fn command(&mut self, rng: &mut Rng) {
        let mut flags: Vec<String> = vec![];
        let mut say = |f: &str| flags.push(f.to_string());
        let format = rng.chance(1, 4);
        if self.recursive {
            say(rng.pick(&["-r", "--recursive"]));
        }
        if self.hidden {
            say(rng.pick(&["-.", "--hidden"]));
        }
        if self.no_ignore {
            say("--no-ignore");
        }
        if self.quiet {
            say("--quiet");
        }
        if rng.chance(2, 3) {
            say(&format!("{}{}", rng.pick(&["-t", "--threads="]), rng.pick(&[0, 1, 2, 8])));
        }
        if format {
            self.indent = Indent::Spaces(4);
        }
        if rng.chance(1, 3) {
            let (word, is) = *rng.pick(&[("none", Indent::None), ("tabs", Indent::Tabs), ("2", Indent::Spaces(2)), ("0", Indent::Spaces(0))]);
            self.indent = is;
            say(&format!("--pretty={word}"));
        }
        if rng.chance(1, 4) {
            let (word, is) = *rng.pick(&[("never", Space::Never), ("auto", Space::Auto), ("default", Space::Default), ("preserve", Space::Preserve)]);
            self.space = is;
            say(&format!("--space={word}"));
        }
        if !format {
            self.jobs = match rng.below(4) {
                0 => {
                    let conf = config(rng);
                    let text = json!({"optimise": conf}).to_string().into_bytes();
                    if rng.chance(1, 2) {
                        self.tree.insert("conf.json".into(), Entry::File(text));
                        say(rng.pick(&["--config=../conf.json", "-c../conf.json"]));
                    } else {
                        self.tree.insert("w/oxvgrc.json".into(), Entry::File(text));
                    }
                    stands_for(&conf)
                }
                1 => {
                    let e = *rng.pick(&["none", "default", "safe"]);
                    say(&format!("{}{e}", rng.pick(&["--extends=", "-e"])));
                    stands_for(&json!({"extends": e, "jobs": {}}))
                }
                _ => stands_for(&json!({"extends": "default", "jobs": {}})),
            };
        }
        rng.shuffle(&mut flags);
        let word = if format { "format" } else { *rng.pick(&["optimise", "optimise", "optimize"]) };
        self.args = std::iter::once(word.to_string()).chain(flags).chain(self.roots.iter().cloned()).collect();
        match &self.output {
            Output::Stdout => {}
            Output::InPlace => self.args.push(rng.pick(&["-o", "--output"]).to_string()),
            Output::To(to) => self.args.push(format!("{}{to}", rng.pick(&["-o", "--output="]))),
        }
    }

    fn build(&self, root: &Path) {
        for (p, e) in &self.tree {
            let p = root.join(p);
            match e {
                Entry::Dir => std::fs::create_dir_all(p).expect("dir"),
                Entry::File(b) => std::fs::write(p, b).expect("file"),
                Entry::Link(t) => symlink(t, p).expect("link"),
            }
        }
        for p in &self.barred {
            std::fs::set_permissions(root.join(p), PermissionsExt::from_mode(0o200)).expect("mode");
        }
    }

    fn ignores(&self, at: &Path) -> Vec<String> {
        match self.tree.get(at) {
            Some(Entry::File(b)) if !self.barred.contains(at) => String::from_utf8_lossy(b).lines().filter(|l| !l.starts_with('#')).map(String::from).collect(),
            _ => vec![],
        }
    }

    fn ignored(&self, at: &Path, is_dir: bool) -> bool {
        if self.no_ignore {
            return false;
        }
        let name = at.file_name().expect("named").to_str().expect("utf-8");
        let git = self.tree.contains_key(Path::new("w/.git"));
        let mut up = at.parent();
        while let Some(dir) = up.filter(|d| d.starts_with("w")) {
            let real = self.resolve(dir);
            let mut rules = self.ignores(&real.join(".ignore"));
            if git {
                rules.extend(self.ignores(&real.join(".gitignore")));
                if dir == Path::new("w") {
                    rules.extend(self.ignores(Path::new("w/.git/info/exclude")));
                }
            }
            for r in &rules {
                let (r, only_dir) = r.strip_suffix('/').map_or((r.as_str(), false), |r| (r, true));
                if only_dir && !is_dir {
                    continue;
                }
                let hit = match (r.strip_prefix('/'), r.strip_prefix('*')) {
                    (Some(r), _) => at.parent() == Some(dir) && name == r,
                    (_, Some(r)) => name.ends_with(r),
                    _ => name == r,
                };
                if hit {
                    return true;
                }
            }
            up = dir.parent();
        }
        false
    }

    /// The entry a path stands for once links are followed.
    fn resolve(&self, at: &Path) -> PathBuf {
        let mut out = PathBuf::new();
        for c in at.components() {
            match c {
                std::path::Component::ParentDir => {
                    out.pop();
                }
                std::path::Component::CurDir => {}
                c => {
                    out.push(c);
                    if let Some(Entry::Link(t)) = self.tree.get(&out) {
                        let t = out.parent().expect("below").join(t);
                        out = self.resolve(&t);
                    }
                }
            }
        }
        out
    }

    /// The documents found below one of the given paths, as named by the program.
    fn selected(&self, root: &str, found: &mut Vec<(PathBuf, PathBuf)>) {
        let rel = root.strip_prefix("SCRATCH/").map_or_else(|| PathBuf::from("w").join(root), PathBuf::from);
        self.walk(Path::new(root), &self.resolve(&rel), &rel.components().collect::<PathBuf>(), 0, found);
    }

    fn walk(&self, named: &Path, real: &Path, logical: &Path, depth: usize, found: &mut Vec<(PathBuf, PathBuf)>) {
        match self.tree.get(real) {
            Some(Entry::File(_)) => {
                if named.extension().is_some_and(|e| e == "svg") {
                    found.push((named.to_path_buf(), real.to_path_buf()));
                }
            }
            Some(Entry::Dir) if depth == 0 || self.recursive => {
                let below: Vec<&PathBuf> = self.tree.keys().filter(|p| p.parent() == Some(real)).collect();
                for p in below {
                    let name = p.file_name().expect("named");
                    if !self.hidden && name.to_str().is_some_and(|n| n.starts_with('.')) {
                        continue;
                    }
                    let to = self.resolve(p);
                    let is_dir = self.tree.get(&to) == Some(&Entry::Dir);
                    let logical = logical.join(name);
                    if self.ignored(&self.clean(&logical), is_dir) {
                        continue;
                    }
                    self.walk(&named.join(name), &to, &logical, depth + 1, found);
                }
            }
            _ => {}
        }
    }

    /// Without `.` in it.
    fn clean(&self, p: &Path) -> PathBuf {
        p.components().filter(|c| !matches!(c, std::path::Component::CurDir)).collect()
    }

    fn judge(&self, obs: &mut Obs) -> Result<usize, String> {
        let scratch = Scratch::new();
        let top = scratch.0.to_str().expect("utf-8").to_string();
        self.build(&scratch.0);
        scratch.give_away();
        chown(&scratch.0, Some(NOBODY), Some(NOBODY)).expect("chown");
        let args: Vec<String> = self.args.iter().map(|a| a.replace("SCRATCH", &top)).collect();
        let ran = run(&scratch, &scratch.0.join("w"), &args, self.stdin.as_deref());

        let jobs: Jobs = serde_json::from_value(self.jobs.clone()).expect("jobs");
        let options = Options { indent: self.indent, trim_whitespace: self.space, ..Options::default() };
        let mut files: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
        let mut dirs: BTreeSet<PathBuf> = BTreeSet::new();
        for (p, e) in &self.tree {
            match e {
                Entry::File(b) => drop(files.insert(p.clone(), b.clone())),
                Entry::Dir => drop(dirs.insert(p.clone())),
                Entry::Link(_) => {}
            }
        }
        let mut printed: Vec<Vec<String>> = vec![];
        let mut written: Vec<String> = vec![];
        let mut failed = false;
        let mut visits = 0;
        if let Some(text) = &self.stdin {
            visits += 1;
            let out = std::str::from_utf8(text).ok().and_then(|t| expect(t, &jobs, None, options));
            match (out, &self.output) {
                (None, _) => failed = true,
                (Some(out), Output::To(to)) => {
                    let at = self.destination(to);
                    if dirs.contains(&at) {
                        printed.push(vec![out]);
                    } else {
                        files.insert(at, out.into_bytes());
                        written.push(String::new());
                    }
                }
                (Some(out), _) => printed.push(vec![out]),
            }
        } else {
            for root in &self.roots {
                let mut found = vec![];
                self.selected(root, &mut found);
                if root.ends_with("missing.svg") {
                    failed = true;
                }
                let mut said = vec![];
                for (named, real) in found {
                    visits += 1;
                    let named = PathBuf::from(named.to_str().expect("utf-8").replace("SCRATCH", &top));
                    let source = files.get(&real).filter(|_| !self.barred.contains(&real)).and_then(|b| String::from_utf8(b.clone()).ok());
                    let Some(out) = source.and_then(|s| expect(&s, &jobs, Some(&named), options)) else {
                        failed = true;
                        continue;
                    };
                    let at = match &self.output {
                        Output::Stdout => {
                            said.push(out);
                            continue;
                        }
                        Output::InPlace => real,
                        Output::To(to) => {
                            let at = self.destination(to);
                            let below = named.strip_prefix(root.replace("SCRATCH", &top)).expect("below");
                            if below.as_os_str().is_empty() {
                                if dirs.contains(&at) { at.join(named.file_name().expect("named")) } else { at }
                            } else {
                                at.join(below)
                            }
                        }
                    };
                    if dirs.contains(&at) || at.ancestors().skip(1).any(|d| files.contains_key(d)) {
                        failed = true;
                        continue;
                    }
                    dirs.extend(at.ancestors().skip(1).map(PathBuf::from));
                    files.insert(at, out.into_bytes());
                    written.push(format!("{:?}", named.to_str().expect("utf-8")));
                }
                printed.push(said);
            }
        }

        let note = || format!("exit {:?}; stdout {:?}; stderr {:?}", ran.code, clip(&String::from_utf8_lossy(&ran.stdout), 300), clip(&ran.stderr, 300));
        if ran.code == Some(101) || ran.code.is_none() {
            return Err(format!("crashed: {}", note()));
        }
        let mut actual = BTreeMap::new();
        read(&scratch.0, &scratch.0, &mut actual);
        for (p, want) in &files {
            match actual.get(p) {
                None => return Err(format!("missing file: {} should hold {:?}; {}", p.display(), clip(&String::from_utf8_lossy(want), 200), note())),
                Some(is) if is != want => {
                    return Err(format!("wrong content: {} holds {:?} instead of {:?}; {}", p.display(), clip(&String::from_utf8_lossy(is), 200), clip(&String::from_utf8_lossy(want), 200), note()));
                }
                _ => {}
            }
        }
        if let Some(p) = actual.keys().find(|p| !files.contains_key(*p)) {
            return Err(format!("unexpected file: {}; {}", p.display(), note()));
        }
        let out = String::from_utf8_lossy(&ran.stdout).into_owned();
        if self.output == Output::Stdout || self.stdin.is_some() && written.is_empty() {
            let mut rest = out.as_str();
            for said in &mut printed {
                while !said.is_empty() {
                    // the longest first: one may be the beginning of another
                    said.sort_by_key(|s| std::cmp::Reverse(s.len()));
                    let Some(k) = said.iter().position(|s| rest.starts_with(s.as_str())) else {
                        return Err(format!("printed: expected one of {said:?} at {:?}; {}", clip(rest, 200), note()));
                    };
                    rest = &rest[said.remove(k).len()..];
                }
            }
            if !rest.trim().is_empty() {
                return Err(format!("printed more: {:?}; {}", clip(rest, 200), note()));
            }
        } else if self.quiet {
            if !out.is_empty() {
                return Err(format!("not quiet: {}", note()));
            }
        } else {
            let mut lines: Vec<&str> = out.lines().filter(|l| l.contains(" -> ")).collect();
            if lines.len() != written.len() {
                return Err(format!("reports: {} of {} written; {}", lines.len(), written.len(), note()));
            }
            for w in written.iter().filter(|w| !w.is_empty()) {
                let Some(k) = lines.iter().position(|l| l.contains(&format!("{w} ("))) else {
                    return Err(format!("reports: none for {w}; {}", note()));
                };
                lines.remove(k);
            }
        }
        if failed != (ran.code != Some(0)) {
            return Err(format!("exit code: {:?} although {}; {}", ran.code, if failed { "something failed" } else { "nothing failed" }, note()));
        }
        obs.count(if failed { "runs_with_failures" } else { "runs_without_failures" });
        obs.add("files_written", written.len() as u64);
        Ok(visits)
    }

    fn destination(&self, to: &str) -> PathBuf {
        let p = to.strip_prefix("SCRATCH/").map_or_else(|| PathBuf::from("w").join(to), PathBuf::from);
        self.resolve(&p)
    }

    fn describe(&self) -> String {
        let tree: Vec<String> = self
            .tree
            .iter()
            .map(|(p, e)| match e {
                Entry::Dir => format!("{}/", p.display()),
                Entry::File(b) => format!("{}={:?}{}", p.display(), clip(&String::from_utf8_lossy(b), 120), if self.barred.contains(p) { " (unreadable)" } else { "" }),
                Entry::Link(t) => format!("{} -> {}", p.display(), t.display()),
            })
            .collect();
        format!("oxvg {} {}in w with {}", self.args.join(" "), self.stdin.as_ref().map_or(String::new(), |s| format!("< {:?} ", String::from_utf8_lossy(s))), tree.join(", "))
    }

    fn smaller(&self) -> Vec<Case> {
        let mut out = vec![];
        for p in self.tree.keys().filter(|p| p.as_path() != Path::new("w") && p.as_path() != Path::new("home") && !p.ends_with("conf.json") && !p.ends_with("oxvgrc.json")) {
            let used = self.roots.iter().any(|r| Path::new("w").join(r).components().collect::<PathBuf>() == *p || r.contains("SCRATCH"));
            let linked = self.tree.values().any(|e| matches!(e, Entry::Link(t) if t.ends_with(p.file_name().expect("named"))));
            if used || linked || self.tree.keys().any(|q| q.parent() == Some(p.as_path())) {
                continue;
            }
            let mut c = self.clone();
            c.tree.remove(p);
            c.barred.remove(p);
            out.push(c);
        }
        out
    }
}

fn read(top: &Path, dir: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
    for e in std::fs::read_dir(dir).expect("read back").flatten() {
        let p = e.path();
        let Ok(m) = p.symlink_metadata() else { continue };
        if m.is_dir() {
            read(top, &p, out);
        } else if m.is_file() {
            out.insert(p.strip_prefix(top).expect("below").to_path_buf(), std::fs::read(&p).unwrap_or_default());
        }
    }
}

pub fn files(ctx: &Ctx) {
    ctx.rule("a case is non-trivial when at least one document is selected; distinct by the tree and the arguments");
    ctx.assume("ignore files hold plain names, anchored names, directory names and suffix patterns");
    ctx.explore("trees", ctx.scale(20_000, 250_000), |rng, _, obs| {
        let case = Case::random(rng);
        match case.judge(obs) {
            Ok(n) => {
                if n > 0 {
                    obs.add("documents_visited", n as u64);
                    obs.nontrivial(&case.describe());
                }
            }
            Err(e) => {
                let kind = |e: &str| e.split(':').next().unwrap_or("").to_string();
                let (sort, mut detail, mut case) = (kind(&e), e, case.clone());
                while let Some((c, e)) = case.smaller().into_iter().find_map(|c| match c.judge(&mut Obs::default()) {
                    Err(e) if kind(&e) == sort => Some((c, e)),
                    _ => None,
                }) {
                    (case, detail) = (c, e);
                }
                obs.violation(format!("{}: {sort}", case.args[0]), case.describe(), detail);
            }
        }
        obs.sample(|| json!(clip(&case.describe(), 400)));
    });
    ctx.directed("full device", &["optimise", "format"], |word, obs| {
        let scratch = Scratch::new();
        std::fs::create_dir(scratch.0.join("home")).expect("dir");
        std::fs::write(scratch.0.join("a.svg"), "<svg xmlns=\"http://www.w3.org/2000/svg\"><path d=\"M0 0h9\"/></svg>").expect("file");
        scratch.give_away();
        let args: Vec<String> = [word, "a.svg", "-o", "/dev/full"].map(String::from).to_vec();
        let ran = run(&scratch, &scratch.0, &args, None);
        if ran.code == Some(0) {
            obs.violation(format!("full device: {word} reports success"), args.join(" "), format!("exit {:?}; stdout {:?}; stderr {:?}", ran.code, String::from_utf8_lossy(&ran.stdout), ran.stderr));
        }
        obs.nontrivial(word);
    });
}
