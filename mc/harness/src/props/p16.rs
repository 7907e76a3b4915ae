//! P16: every task is executed by the operation it was created for.
//!
//! The operations of a program come from separate expansions of the derive macro, and
//! are put together by the linker. So programs are what is enumerated: all choices of
//! one or two places for operations (modules, function bodies, crates, packages), big
//! programs with all places, programs of separately built binaries, and compilation
//! settings. Each program is generated, compiled with the macro and the crate of /repo
//! (no stand-ins), and each of its operations is then executed with each format.
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Write as _,
    io::Write as _,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{Arc, OnceLock},
};

use mcrt::choose;

use crate::{common::*, ensure};

const NAMES: [&str; 3] = ["Inc", "Dec", "Sel"];

/// Where an operation is declared.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Home {
    /// The crate of the binary.
    Main,
    /// The library of the same package.
    Own,
    Dep,
    /// Another version of `Dep`, of the same name.
    Dep2,
    /// Another package whose library is named like `Dep`.
    Alias,
    Second,
}
use Home::*;
/// Within its crate.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum At {
    Root,
    ModA,
    ModAB,
    FnF,
    FnG,
    /// The body of one of two functions that one macro invocation generates.
    MacroF,
    MacroG,
}
use At::*;
const ATS: [At; 7] = [Root, ModA, ModAB, FnF, FnG, MacroF, MacroG];

type Slot = (Home, At, usize);

const PLACES: [(Home, At); 13] = [
    (Main, Root),
    (Main, ModA),
    (Main, ModAB),
    (Main, FnF),
    (Main, FnG),
    (Own, Root),
    (Own, ModA),
    (Dep, Root),
    (Dep, ModA),
    (Dep, FnF),
    (Dep2, Root),
    (Alias, Root),
    (Second, Root),
];

fn tag((h, a, n): Slot) -> u64 {
    1 + n as u64 + 8 * (a as u64 + 8 * h as u64)
}

/// The declaration of an operation and the expression of its case.
fn op(label: &str, name: &str, form: usize, tag: u64) -> (String, String) {
    let add = tag * 1000;
    let (decl, value, sum) = match form {
        0 => (format!("pub struct {name} {{ pub k: u64 }}"), format!("{name} {{ k: {add} }}"), "self.k + input".to_string()),
        1 => (format!("pub struct {name};"), name.to_string(), format!("{add} + input")),
        _ => (
            format!("pub enum {name} {{ A, B(u64) }}"),
            format!("{name}::B({add})"),
            format!("match self {{ {name}::A => 0, {name}::B(k) => k + input }}"),
        ),
    };
    let d = format!(
        "#[allow(dead_code)]\n#[derive(serde::Serialize, serde::Deserialize, paladin::RemoteExecute)]\n{decl}\nimpl Operation for {name} {{\n type Input = u64;\n type Output = (u64, u64);\n fn execute(&self, input: u64, _: paladin::AbortSignal) -> paladin::operation::Result<(u64, u64)> {{ Ok(({tag}, {sum})) }}\n}}\n"
    );
    // Maps are compiled for some operations only; they are costly to compile.
    let case = if form == 0 && label.starts_with("m:") { "mapped" } else { "case" };
    (d, format!("v.push(probe::{case}({label:?}, {tag}, {add}, &{value}));\n"))
}

/// The source of a crate with operations at the given places. `root_extra` comes first.
fn source(slots: &BTreeSet<Slot>, home: Home, tweak: &str) -> String {
    let mut s = String::from("#[allow(unused_imports)]\nuse paladin::operation::Operation;\n");
    let at = |a: At| -> (String, String) {
        let (mut d, mut c) = (String::new(), String::new());
        for &(h, x, n) in slots {
            if h == home && x == a {
                let l = format!("{tweak}{h:?}.{a:?}.{}", NAMES[n]);
                let (dd, cc) = op(&l, NAMES[n], n, tag((h, x, n)));
                d += &dd;
                c += &cc;
            }
        }
        (d, c)
    };
    let sig = "(v: &mut Vec<probe::Case>)";
    let (root, rc) = at(Root);
    let (a, ac) = at(ModA);
    let (ab, abc) = at(ModAB);
    s += &root;
    write!(
        s,
        "pub mod a {{\n#[allow(unused_imports)]\nuse paladin::operation::Operation;\n{a}pub mod b {{\n#[allow(unused_imports)]\nuse paladin::operation::Operation;\n{ab}#[allow(unused_variables)] pub fn add{sig} {{\n{abc}}}\n}}\n#[allow(unused_variables)] pub fn add{sig} {{\n{ac}b::add(v);\n}}\n}}\n"
    )
    .unwrap();
    for (n, p) in [("f", FnF), ("g", FnG)] {
        let (d, c) = at(p);
        write!(s, "#[allow(unused_variables)] fn {n}{sig} {{\n{d}{c}}}\n").unwrap();
    }
    let (mf, mfc) = at(MacroF);
    let (mg, mgc) = at(MacroG);
    write!(
        s,
        "macro_rules! two {{ () => {{\n#[allow(unused_variables)] fn mf{sig} {{\n{mf}{mfc}}}\n#[allow(unused_variables)] fn mg{sig} {{\n{mg}{mgc}}}\n}} }}\ntwo!();\n"
    )
    .unwrap();
    write!(
        s,
        "#[allow(dead_code)]\npub fn add_cases{sig} {{\n{rc}a::add(v);\nf(v);\ng(v);\nmf(v);\nmg(v);\n}}\npaladin::registry!();\n"
    )
    .unwrap();
    s
}

/// A library of many operations; `n` of them are named as in `main`.
fn many(n: usize, first_tag: u64, label: &str) -> String {
    let mut s = String::from("use paladin::operation::Operation;\n");
    let mut c = String::new();
    for i in 0..n {
        let (d, cc) = op(&format!("{label}.{i}"), &format!("Op{i}"), 1 + i % 2, first_tag + i as u64);
        s += &d;
        c += &cc;
    }
    write!(s, "pub fn add_cases(v: &mut Vec<probe::Case>) {{\n{c}}}\npaladin::registry!();\n").unwrap();
    s
}

struct Gen {
    root: PathBuf,
    repo: PathBuf,
    members: Vec<String>,
    /// Package settings of the default profile.
    packages: String,
    keep: BTreeSet<PathBuf>,
    libs: BTreeMap<(Home, BTreeSet<Slot>), String>,
}

impl Gen {
    fn put(&mut self, rel: &str, text: &str) {
        let p = self.root.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        if std::fs::read_to_string(&p).ok().as_deref() != Some(text) {
            std::fs::write(&p, text).unwrap();
        }
        self.keep.insert(p);
    }

    fn manifest(&self, name: &str, version: &str, more: &str, deps: &[String]) -> String {
        let mut s = format!("[package]\nname = \"{name}\"\nversion = \"{version}\"\nedition = \"2021\"\n{more}\n[dependencies]\nserde = {{ version = \"1\", features = [\"derive\"] }}\npaladin-core = {{ path = \"{}\" }}\nprobe = {{ path = \"{}\" }}\n", self.repo.join("paladin-core").display(), self.root.join("probe").display());
        for d in deps {
            s += d;
            s += "\n";
        }
        s
    }

    /// The library of a home with these slots; returns the line of the dependency.
    fn lib(&mut self, home: Home, slots: &BTreeSet<Slot>) -> Option<(String, &'static str)> {
        let mine: BTreeSet<Slot> = slots.iter().filter(|s| s.0 == home).cloned().collect();
        if mine.is_empty() {
            return None;
        }
        let (package, major, krate, alias) = match home {
            Dep => ("dep", 1, "dep", "dep"),
            Dep2 => ("dep", 2, "dep", "dep_new"),
            Alias => ("other", 1, "dep", "dep_other"),
            Second => ("second", 1, "second", "second"),
            Main | Own => unreachable!(),
        };
        let n = self.libs.keys().filter(|k| k.0 == home).count();
        let key = (home, mine.clone());
        let dir = match self.libs.get(&key) {
            Some(d) => d.clone(),
            None => {
                let dir = format!("lib/{home:?}{n}");
                let m = self.manifest(package, &format!("{major}.{n}.0"), &format!("[lib]\nname = \"{krate}\""), &[]);
                self.put(&format!("{dir}/Cargo.toml"), &m);
                self.put(&format!("{dir}/src/lib.rs"), &source(&mine, home, if mine.len() > 12 { "m:" } else { "" }));
                self.libs.insert(key, dir.clone());
                dir
            }
        };
        Some((format!("{alias} = {{ path = \"{}\", package = \"{package}\" }}", self.root.join(dir).display()), alias))
    }

    fn program(&mut self, name: &str, slots: &BTreeSet<Slot>, settings: &str) {
        let m = if slots.len() > 20 { "m:" } else { "" };
        let mut deps = vec![];
        let mut calls = String::new();
        for h in [Dep, Dep2, Alias, Second] {
            if let Some((line, alias)) = self.lib(h, slots) {
                deps.push(line);
                write!(calls, "{alias}::register();\n{alias}::add_cases(&mut v);\n").unwrap();
            }
        }
        let own = slots.iter().any(|s| s.0 == Own);
        if own {
            self.put(&format!("programs/{name}/src/lib.rs"), &source(slots, Own, m));
            let krate = name.replace('-', "_");
            write!(calls, "{krate}::register();\n{krate}::add_cases(&mut v);\n").unwrap();
        }
        let main = format!(
            "{}fn main() {{\nlet mut v = vec![];\nadd_cases(&mut v);\n{calls}probe::main(register(), v)\n}}\n",
            source(slots, Main, m)
        );
        let m = self.manifest(name, "0.1.0", "", &deps);
        self.put(&format!("programs/{name}/Cargo.toml"), &m);
        self.put(&format!("programs/{name}/src/main.rs"), &main);
        self.member(name, settings);
    }

    fn member(&mut self, name: &str, settings: &str) {
        self.members.push(format!("programs/{name}"));
        if !settings.is_empty() {
            write!(self.packages, "[profile.dev.package.{name}]\n{settings}\n").unwrap();
        }
    }

    /// Separately built leaders and workers.
    fn deployments(&mut self) {
        let all: BTreeSet<Slot> = [Root, ModA, ModAB, FnF, FnG]
            .iter()
            .flat_map(|&a| (0..3).map(move |n| (Dep, a, n)))
            .collect();
        let (line, _) = self.lib(Dep, &all).unwrap();
        let local: BTreeSet<Slot> = ATS.iter().map(|&a| (Main, a, 0)).collect();
        // Packages of their own, with operations of their own, around a library. The
        // worker does not mention any operation.
        for (name, main) in [
            ("lib-leader", "fn main() {\nlet mut v = vec![];\ndep::add_cases(&mut v);\nprobe::main(dep::register(), v)\n}\n".to_string()),
            ("lib-worker", "fn main() { probe::main(dep::register(), vec![]) }\n".to_string()),
            (
                "lib-leader-local",
                format!("{}fn main() {{\nlet mut v = vec![];\ndep::add_cases(&mut v);\nregister();\nprobe::main(dep::register(), v)\n}}\n", source(&local, Main, "")),
            ),
            (
                "lib-worker-local",
                format!("{}fn main() {{\nlet mut v = vec![];\nadd_cases(&mut v);\nregister();\nprobe::main(dep::register(), v)\n}}\n", source(&local, Main, "")),
            ),
        ] {
            let m = self.manifest(name, "0.1.0", "", &[line.clone()]);
            self.put(&format!("programs/{name}/Cargo.toml"), &m);
            self.put(&format!("programs/{name}/src/main.rs"), &main);
            self.member(name, "");
        }
        // One package with a library, and binaries with operations of their own and a
        // module they share as source.
        let own: BTreeSet<Slot> = [Root, ModA].iter().flat_map(|&a| (0..3).map(move |n| (Own, a, n))).collect();
        let shared: BTreeSet<Slot> = [Root, ModA, FnF, FnG].iter().flat_map(|&a| (0..2).map(move |n| (Second, a, n))).collect();
        self.put("programs/pair/src/lib.rs", &source(&own, Own, ""));
        self.put("programs/pair/src/shared/mod.rs", &source(&shared, Second, ""));
        for (bin, at) in [("leader", Root), ("worker", ModAB)] {
            let local: BTreeSet<Slot> = [(Main, at, 2)].into();
            let add = if bin == "leader" { "pair::add_cases(&mut v);\nshared::add_cases(&mut v);\n" } else { "" };
            let main = format!(
                "{}#[path = \"../shared/mod.rs\"]\nmod shared;\nfn main() {{\n#[allow(unused_mut)] let mut v = vec![];\n{add}pair::register();\nshared::register();\nprobe::main(register(), v)\n}}\n",
                source(&local, Main, "")
            );
            self.put(&format!("programs/pair/src/bin/{bin}.rs"), &main);
        }
        let m = self.manifest("pair", "0.1.0", "", &[]);
        self.put("programs/pair/Cargo.toml", &m);
        self.member("pair", "");
    }

    fn many(&mut self, libs: usize, each: usize) {
        let mut deps = vec![];
        let mut calls = String::new();
        for i in 0..libs {
            let name = format!("many{i}");
            let m = self.manifest(&name, "0.1.0", "", &[]);
            self.put(&format!("lib/{name}/Cargo.toml"), &m);
            self.put(&format!("lib/{name}/src/lib.rs"), &many(each, 10_000 * (i as u64 + 1), &name));
            deps.push(format!("{name} = {{ path = \"{}\" }}", self.root.join(format!("lib/{name}")).display()));
            write!(calls, "{name}::register();\n{name}::add_cases(&mut v);\n").unwrap();
        }
        let main = format!(
            "{}fn main() {{\nlet mut v = vec![];\nadd_cases(&mut v);\n{calls}probe::main(register(), v)\n}}\n",
            many(40, 1000, "main")
        );
        let m = self.manifest("many-operations", "0.1.0", "", &deps);
        self.put("programs/many-operations/Cargo.toml", &m);
        self.put("programs/many-operations/src/main.rs", &main);
        self.member("many-operations", "");
    }
}

fn cargo(args: &[&str], dir: &Path) -> (bool, String) {
    let o = Command::new("cargo")
        .args(args)
        .current_dir(dir)
        .env("CARGO_TARGET_DIR", dir.join("target"))
        .stdin(Stdio::null())
        .output()
        .expect("cargo");
    (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned())
}

/// The profiles: name, directory, settings.
const PROFILES: [(&str, &str, &str); 4] = [
    ("dev", "debug", ""),
    ("o1", "o1", "[profile.o1]\ninherits = \"dev\"\nopt-level = 1\ncodegen-units = 1\n"),
    ("release", "release", "[profile.release]\nopt-level = 3\ncodegen-units = 16\nstrip = true\n"),
    ("lto", "lto", "[profile.lto]\ninherits = \"release\"\nlto = \"fat\"\ncodegen-units = 1\n"),
];

struct Built {
    dir: PathBuf,
    pairs: Vec<String>,
    /// Programs that were not compiled, with what the compiler said.
    bad: BTreeMap<String, String>,
}

fn pair_programs(t: Tier) -> Vec<(String, BTreeSet<Slot>)> {
    let mut v = vec![];
    for (i, &(h, a)) in PLACES.iter().enumerate() {
        v.push((format!("p{i}"), [(h, a, 0)].into()));
        for (j, &(h2, a2)) in PLACES.iter().enumerate().skip(i) {
            if i != j {
                v.push((format!("p{i}-{j}"), [(h, a, 0), (h2, a2, 0)].into()));
            }
            if t.thorough() || i == j {
                v.push((format!("p{i}-{j}-names"), [(h, a, 0), (h2, a2, 1)].into()));
            }
        }
    }
    v
}

fn profiles(t: Tier) -> Vec<usize> {
    t.pick(vec![0, 2], vec![0, 1, 2, 3])
}

fn dir(t: Tier) -> PathBuf {
    let root = std::env::var_os("MC_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into());
    root.join("mc/target").join(format!("p16-{t:?}"))
}

/// Removes the compiled programs.
pub fn cleanup(t: Tier) {
    if std::env::var_os("MC_KEEP").is_none() {
        let _ = std::fs::remove_dir_all(dir(t).join("target"));
    }
}

fn build(t: Tier) -> Built {
    let dir = dir(t);
    let mut g = Gen {
        root: dir.clone(),
        repo: "/repo".into(),
        members: vec![],
        packages: String::new(),
        keep: BTreeSet::new(),
        libs: BTreeMap::new(),
    };
    let probe = include_str!("../../../p16/probe.rs");
    g.put("probe/src/lib.rs", probe);
    g.put(
        "probe/Cargo.toml",
        &format!("[package]\nname = \"probe\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\npaladin-core = {{ path = \"{}\" }}\ntokio = {{ version = \"1\", features = [\"full\"] }}\nfutures = \"0.3\"\nanyhow = \"1\"\n", "/repo/paladin-core"),
    );
    let mut pairs = vec![];
    for (i, (n, s)) in pair_programs(t).into_iter().enumerate() {
        // Settings alternate; the thorough tier has every program with both.
        let o = "opt-level = 1\ncodegen-units = 1";
        if t.thorough() || i % 2 == 0 {
            g.program(&n, &s, "");
            pairs.push(n.clone());
        }
        if t.thorough() || i % 2 == 1 {
            g.program(&format!("{n}-o1"), &s, o);
            pairs.push(format!("{n}-o1"));
        }
    }
    let small = g.members.len();
    let every: BTreeSet<Slot> = [Main, Own, Dep, Dep2, Alias, Second]
        .iter()
        .flat_map(|&h| ATS.iter().flat_map(move |&a| (0..t.pick(2, 3)).map(move |n| (h, a, n))))
        .collect();
    g.program("every-place", &every, "");
    g.deployments();
    g.many(2, t.pick(150, 260));
    let mut top = String::from("[workspace]\nresolver = \"2\"\nexclude = [\"lib\", \"probe\"]\nmembers = [\n");
    for m in &g.members {
        writeln!(top, "{m:?},").unwrap();
    }
    top += "]\n[profile.dev]\ndebug = false\nincremental = false\n";
    let packages = std::mem::take(&mut g.packages);
    top += &packages;
    for (_, _, s) in PROFILES {
        top += s;
    }
    // Optimizing the crates of others takes longest and is not what is at stake.
    let lock = std::fs::read_to_string("/repo/Cargo.lock").expect("lock file");
    for p in lock.split("[[package]]").filter(|p| p.contains("\nsource = ")) {
        let field = |k: &str| p.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim_matches('"');
        writeln!(top, "[profile.release.package.\"{}@{}\"]\nopt-level = 0", field("name = "), field("version = ")).unwrap();
    }
    g.put("Cargo.toml", &top);
    if !dir.join("Cargo.lock").exists() {
        std::fs::write(dir.join("Cargo.lock"), lock).unwrap();
    }
    let mut bad = BTreeMap::new();
    for p in profiles(t) {
        let mut args = vec!["build", "--offline", "--keep-going", "--profile", PROFILES[p].0];
        let names: Vec<String> = g.members[small..].iter().map(|m| m["programs/".len()..].to_string()).collect();
        if p == 0 {
            args.push("--workspace");
        } else {
            for n in names.iter().filter(|n| PROFILES[p].0 == "o1" || *n != "many-operations") {
                args.push("-p");
                args.push(n);
            }
        }
        // What an earlier build left does not count.
        let out = dir.join("target").join(PROFILES[p].1);
        for f in std::fs::read_dir(&out).into_iter().flatten().flatten() {
            if f.path().is_file() && f.path().extension().is_none() {
                let _ = std::fs::remove_file(f.path());
            }
        }
        let (ok, log) = cargo(&args, &dir);
        if !ok {
            bad.insert(PROFILES[p].0.to_string(), log);
        }
    }
    Built { dir, pairs, bad }
}

fn built(t: Tier) -> Arc<Built> {
    static B: OnceLock<Arc<Built>> = OnceLock::new();
    B.get_or_init(|| Arc::new(build(t))).clone()
}

impl Built {
    fn bin(&self, profile: usize, name: &str) -> Result<PathBuf, String> {
        let p = self.dir.join("target").join(PROFILES[profile].1).join(name);
        let fresh = self.bad.get(PROFILES[profile].0);
        match fresh {
            None => Ok(p),
            Some(log) => {
                let e: Vec<&str> = log.lines().filter(|l| l.starts_with("error")).take(3).collect();
                Err(format!("a program does not compile with profile {}: {}", PROFILES[profile].0, e.join("; ")))
            }
        }
    }

    fn run(&self, profile: usize, name: &str, args: &[&str], input: Option<Vec<u8>>) -> Result<String, String> {
        let bin = self.bin(profile, name)?;
        let mut c = Command::new("timeout")
            .arg("60")
            .arg(&bin)
            .args(args)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("{name}: {e}"))?;
        let mut i = c.stdin.take().unwrap();
        let feed = std::thread::spawn(move || {
            let _ = i.write_all(&input.unwrap_or_default());
        });
        let o = c.wait_with_output().map_err(|e| format!("{name}: {e}"))?;
        let _ = feed.join();
        let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
        if o.status.success() {
            Ok(s)
        } else {
            let p = PROFILES[profile].0;
            Err(format!("program {name} ({p}): {}", if s.is_empty() { format!("ended with {}", o.status) } else { s }))
        }
    }
}

/// One operation of one of the programs, executed directly.
fn pairs(b: &Built) -> Result<String, String> {
    let p = &b.pairs[choose(b.pairs.len())];
    let ser = choose(2);
    let ops = if p.trim_end_matches("-o1").contains('-') { 2 } else { 1 };
    let case = choose(ops);
    let input = choose(3);
    b.run(0, p, &["one", &ser.to_string(), &case.to_string(), &input.to_string()], None)?;
    Ok(format!("{p} {case}"))
}

/// All of a program's operations, directly and as maps at the same time.
fn whole(b: &Built, t: Tier) -> Result<String, String> {
    let names: Vec<String> = if t.thorough() { b.pairs.clone() } else { b.pairs.iter().step_by(4).cloned().collect() };
    let p = &names[choose(names.len())];
    b.run(0, p, &["all"], None)?;
    Ok(p.clone())
}

fn big(b: &Built, t: Tier, name: &str) -> Result<String, String> {
    let mut ps = profiles(t);
    // Optimizing hundreds of operations takes too long.
    if name == "many-operations" {
        ps.retain(|p| *p < 2);
    }
    let p = ps[choose(ps.len())];
    b.run(p, name, &["all"], None)?;
    Ok(format!("{name} {}", PROFILES[p].0))
}

fn deploy(b: &Built, t: Tier, leader: &str, worker: &str) -> Result<String, String> {
    let ps = profiles(t);
    let (pl, pw) = (ps[choose(ps.len())], ps[choose(ps.len())]);
    let tasks = b.run(pl, leader, &["tasks"], None)?;
    let n = tasks.lines().count();
    let how = format!("{leader} ({}) to {worker} ({})", PROFILES[pl].0, PROFILES[pw].0);
    if n == 0 {
        return Err(format!("{how}: no tasks"));
    }
    let got = b
        .run(pw, worker, &["exec"], Some((tasks + "\n").into_bytes()))
        .map_err(|e| format!("{how}: {e}"))?;
    ensure!(got == n.to_string(), "{how}: {got} of {n} tasks were executed");
    Ok(how)
}

pub fn scenarios(t: Tier) -> Vec<Scen> {
    let b = built(t);
    // The simplest program must at least compile.
    if !b.bad.is_empty() && !b.dir.join("target/debug/p0").exists() {
        for l in b.bad.values() {
            eprintln!("{}", l.lines().filter(|l| l.starts_with("error")).take(20).collect::<Vec<_>>().join("\n"));
        }
        eprintln!("no program compiles against /repo");
        std::process::exit(2);
    }
    let mut c = dev(0);
    c.shards = 2;
    let mut v = vec![];
    let b2 = b.clone();
    v.push(
        Scen::new("pairs", c.clone(), move || pairs(&b2))
            .what("all programs of one operation or two, at all pairs of 13 places in six crates, each task executed on its own, both formats"),
    );
    let b2 = b.clone();
    v.push(Scen::new("whole", c.clone(), move || whole(&b2, t)).what("the same programs, all operations in one process and as concurrent maps"));
    for n in ["every-place", "many-operations"] {
        let b2 = b.clone();
        v.push(
            Scen::new(n, c.clone(), move || big(&b2, t, n))
                .what("operations at all places and of all forms, or hundreds of operations, under each compilation profile"),
        );
    }
    for l in ["lib-leader", "lib-leader-local"] {
        for w in ["lib-worker", "lib-worker-local", "lib-leader"] {
            let b2 = b.clone();
            v.push(
                Scen::new(format!("deploy-{l}-{w}"), c.clone(), move || deploy(&b2, t, l, w))
                    .what("tasks made by one binary and executed by another that shares a crate, for all pairs of profiles"),
            );
        }
    }
    let b2 = b.clone();
    v.push(
        Scen::new("deploy-pair", c.clone(), move || deploy(&b2, t, "leader", "worker"))
            .what("two binaries of one package with a library and a module shared as source"),
    );
    v
}
