//! C35: the command line of the rewriter does what its options say.
//!
//! The library is the reference for what a modification does (see C33); this is about
//! options, files and exit status.
use object_rewrite::{Options, Rewriter};
use std::collections::{HashMap, HashSet};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Output};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};
use vh::machomodel as mm;
use vh::*;

#[allow(dead_code)]
#[path = "c33.rs"]
mod c33;
use c33::{Name, Op};

static CLI: OnceLock<PathBuf> = OnceLock::new();
static UMASK: OnceLock<u32> = OnceLock::new();

/// Build the command from the tree under test.
fn build() -> PathBuf {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into()));
    let repo = std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into());
    let target = root.join("target/cli");
    let out = Command::new("cargo")
        .args(["build", "--offline", "--locked", "-p", "object-rewrite", "--bin", "object-rewrite", "--features", "cli,object/macho", "--manifest-path"])
        .arg(format!("{repo}/Cargo.toml"))
        .arg("--target-dir")
        .arg(&target)
        .env_remove("CARGO_TARGET_DIR")
        .output();
    match out {
        Ok(o) if o.status.success() => target.join("debug/object-rewrite").canonicalize().unwrap(),
        Ok(o) => {
            println!("{}", String::from_utf8_lossy(&o.stderr));
            println!("ERROR: build failed");
            std::process::exit(3)
        }
        Err(e) => {
            println!("ERROR: cargo: {e}");
            std::process::exit(3)
        }
    }
}

/// A scratch directory that goes away.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("vh-c35-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&d).unwrap();
        Dir(d)
    }
    fn file(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn utf8(v: &[u8]) -> bool {
    !v.contains(&0) && std::str::from_utf8(v).is_ok()
}
fn text(v: &[u8]) -> String {
    String::from_utf8(v.to_vec()).unwrap()
}
/// Keep what can be said on a command line.
fn sayable(op: Op) -> Option<Op> {
    let set = |v: HashSet<Name>| -> HashSet<Name> { v.into_iter().filter(|x| utf8(x)).collect() };
    let list = |v: Vec<Name>| -> Vec<Name> { v.into_iter().filter(|x| utf8(x)).collect() };
    let map = |v: HashMap<Name, Name>| -> HashMap<Name, Name> { v.into_iter().filter(|(a, b)| utf8(a) && utf8(b) && !a.contains(&b'=')).collect() };
    Some(match op {
        Op::DelSyms(v) => Op::DelSyms(set(v)),
        // Files of symbols can hold any bytes.
        Op::RenSyms(v) => Op::RenSyms(v),
        Op::DelSecs(v) => Op::DelSecs(set(v)),
        Op::RenSecs(v) => Op::RenSecs(map(v)),
        Op::DelTable(..) | Op::RenTable(..) => return None,
        Op::SetRunpath(v) | Op::SetSoname(v) | Op::SetInterp(v) if !utf8(&v) => return None,
        Op::AddRunpath(v) => Op::AddRunpath(list(v)),
        Op::DelNeeded(v) => Op::DelNeeded(set(v)),
        Op::RepNeeded(v) => Op::RepNeeded(map(v)),
        Op::AddNeeded(v) => Op::AddNeeded(list(v)),
        op => op,
    })
}

/// `--name=value` or `--name value`.
fn arg(g: &mut Gen, out: &mut Vec<Vec<String>>, name: &str, v: String) {
    if v.is_empty() || v.starts_with('-') || g.bool() { out.push(vec![format!("--{name}={v}")]) } else { out.push(vec![format!("--{name}"), v]) }
}
fn pairs(g: &mut Gen, out: &mut Vec<Vec<String>>, name: &str, v: &HashMap<Name, Name>) {
    let mut v: Vec<_> = v.iter().collect();
    v.sort();
    for (a, b) in v {
        arg(g, out, name, format!("{}={}", text(a), text(b)));
    }
}
fn set(g: &mut Gen, out: &mut Vec<Vec<String>>, name: &str, v: &HashSet<Name>) {
    let mut v: Vec<_> = v.iter().collect();
    v.sort();
    for a in v {
        arg(g, out, name, text(a));
        if g.chance(1, 10) {
            arg(g, out, name, text(a));
        }
    }
}

/// Arguments for the modifications, in groups that can be put in any order; the order of
/// groups for the same list is kept by the caller. Returns what they ask for.
fn args(g: &mut Gen, d: &Dir, ops: &[Op]) -> R<(Vec<Vec<String>>, Options)> {
    let mut out = vec![];
    let mut asked = vec![];
    for op in ops {
        let mut op = op.clone();
        match &mut op {
            Op::DelSyms(v) => set(g, &mut out, "delete-symbol", v),
            Op::RenSyms(v) => {
                let mut all: Vec<_> = v.drain().collect();
                all.sort();
                let mut files: Vec<Vec<u8>> = vec![];
                for (a, b) in all {
                    let direct = utf8(&a) && utf8(&b) && !a.contains(&b'=');
                    let line = !a.contains(&b' ') && !a.contains(&b'\n') && !b.contains(&b'\n') && !b.ends_with(b"\r") && !a.contains(&0) && !b.contains(&0);
                    if line && (!direct || g.bool()) {
                        if files.is_empty() || g.chance(1, 5) {
                            files.push(vec![]);
                        }
                        let f = files.last_mut().unwrap();
                        f.extend_from_slice(&[&a[..], b" ", &b[..]].concat());
                        f.extend_from_slice(g.pickc(&["\n", "\n", "\r\n"]).as_bytes());
                        v.insert(a, b);
                    } else if direct {
                        arg(g, &mut out, "rename-symbol", format!("{}={}", text(&a), text(&b)));
                        v.insert(a, b);
                    }
                }
                for (i, mut f) in files.into_iter().enumerate() {
                    // The last line needs no end.
                    if g.chance(1, 3) && f.pop() == Some(b'\n') && f.last() == Some(&b'\r') {
                        f.pop();
                    }
                    let path = d.file(&format!("list{i}"));
                    std::fs::write(&path, &f).unwrap();
                    g.label("list of symbols");
                    arg(g, &mut out, "rename-symbols", path.to_str().unwrap().into());
                }
            }
            Op::DelSecs(v) => set(g, &mut out, "delete-section", v),
            Op::RenSecs(v) => pairs(g, &mut out, "rename-section", v),
            Op::DelTable(..) | Op::RenTable(..) => continue,
            Op::AddDebug => out.push(vec!["--elf-add-dynamic-debug".into()]),
            Op::DelRunpath => out.push(vec!["--elf-delete-runpath".into()]),
            Op::SetRunpath(v) => arg(g, &mut out, "elf-set-runpath", text(v)),
            Op::AddRunpath(v) => v.iter().for_each(|x| arg(g, &mut out, "elf-add-runpath", text(x))),
            Op::UseRunpath => out.push(vec!["--elf-use-runpath".into()]),
            Op::UseRpath => out.push(vec!["--elf-use-rpath".into()]),
            Op::DelNeeded(v) => set(g, &mut out, "elf-delete-needed", v),
            Op::RepNeeded(v) => pairs(g, &mut out, "elf-replace-needed", v),
            Op::AddNeeded(v) => v.iter().for_each(|x| arg(g, &mut out, "elf-add-needed", text(x))),
            Op::SetSoname(v) => arg(g, &mut out, "elf-set-soname", text(v)),
            Op::SetInterp(v) => arg(g, &mut out, "elf-set-interpreter", text(v)),
        }
        asked.push(op);
    }
    Ok((out, c33::options(&asked)))
}

fn exec(d: &Dir, args: &[String]) -> Output {
    Command::new(CLI.get().unwrap()).args(args).current_dir(&d.0).env_remove("RUST_BACKTRACE").env_remove("RUST_LOG").output().unwrap()
}

/// What the library makes of it: the output, or an error from reading, modifying (`false`)
/// or writing (`true`).
fn reference(v: &[u8], o: Options) -> (R<Vec<u8>>, bool) {
    let Ok(mut r) = Rewriter::read(v) else { return (Err("read".to_string().into()), false) };
    if r.modify(o).is_err() {
        return (Err("modify".to_string().into()), false);
    }
    let mut out = vec![];
    match r.write(&mut out) {
        Ok(()) => (Ok(out), true),
        Err(_) => (Err("write".to_string().into()), true),
    }
}

fn command(g: &mut Gen) -> R {
    let d = Dir::new();
    let kind = g.below(10);
    let (v, mut ops) = if kind < 8 {
        let m = c33::elf_model(g);
        let (mut m, p) = (m.clone(), c33::pools(&m));
        let all: Vec<Name> = m.secs.iter().map(|s| s.name.clone()).collect();
        let n = g.pickc(&[0, 1, 1, 1, 2, 2, 3, 4]);
        let mut ops: Vec<Op> = (0..n).map(|_| c33::gen_op(g, &p, &all)).collect();
        // Names that a shell user can type.
        if g.chance(1, 2) {
            ops.iter_mut().for_each(|op| match op {
                Op::SetRunpath(v) | Op::SetSoname(v) | Op::SetInterp(v) => *v = g.ident(9).into_bytes(),
                Op::AddRunpath(v) | Op::AddNeeded(v) => {
                    let n = g.range(1, 4);
                    *v = (0..n).map(|i| format!("{}{i}", g.ident(5)).into_bytes()).collect();
                }
                _ => {}
            });
        }
        (m.encode(g), ops)
    } else if kind == 8 {
        let object = g.bool();
        let m = mm::gen_model(g, object);
        let name = |g: &mut Gen, s: &[mm::MSym]| if s.is_empty() || g.chance(1, 4) { g.ident(4).into_bytes() } else { g.pick(s).name.clone() };
        let (a, b) = (name(g, &m.syms), name(g, &m.syms));
        let op = if g.bool() { Op::DelSyms([a].into()) } else { Op::RenSyms([(a, b)].into()) };
        g.label("Mach-O");
        (m.encode(g, if object { 0 } else { 0x1000 }), vec![op])
    } else {
        g.label("other input");
        let n = g.range(0, 40);
        (g.bytes(n), vec![])
    };
    ops.sort_by_key(c33::rank);
    ops.dedup_by_key(|op| c33::rank(op));
    // New names are all that follows the first `=`, and no character separates values.
    if g.chance(1, 4) {
        let x = *g.pick(&["=", "=a", "a=b=", ",", ",a", " a", ":", "  "]);
        ops.iter_mut().for_each(|op| match op {
            Op::RenSyms(v) | Op::RenSecs(v) | Op::RepNeeded(v) => v.values_mut().for_each(|y| y.extend(x.as_bytes())),
            Op::AddRunpath(v) | Op::AddNeeded(v) => v.iter_mut().for_each(|y| y.extend(x.as_bytes())),
            Op::SetRunpath(v) | Op::SetSoname(v) | Op::SetInterp(v) => v.extend(x.as_bytes()),
            _ => {}
        });
    }
    let ops: Vec<Op> = ops.into_iter().filter_map(sayable).collect();
    let (mut groups, options) = args(g, &d, &ops)?;
    let modifies = !groups.is_empty();
    g.nontrivial_if(groups.len() > 1);

    let (input, output) = (d.file("in"), d.file("out"));
    std::fs::write(&input, &v).unwrap();
    let mode = g.pickc(&[0o644, 0o755, 0o600, 0o444, 0o777, 0o640]);
    std::fs::set_permissions(&input, std::fs::Permissions::from_mode(mode)).unwrap();

    // What is to be printed.
    let mut print = vec![];
    let read = Rewriter::read(&v);
    let line = |x: &[u8]| format!("{}\n", String::from_utf8_lossy(x));
    let mut prints: Vec<&str> = vec![];
    for (i, name) in ["elf-print-runpath", "elf-print-needed", "elf-print-soname", "elf-print-interpreter"].into_iter().enumerate() {
        if g.chance(1, 5) {
            prints.push(name);
            if let Ok(r) = &read {
                let s: String = match i {
                    0 => r.elf_runpath().map(line).unwrap_or_default(),
                    1 => r.elf_needed().map(line).collect(),
                    2 => r.elf_soname().map(line).unwrap_or_default(),
                    _ => r.elf_interpreter().map(line).unwrap_or_default(),
                };
                print.push(s);
            }
        }
    }
    let print = print.concat();
    groups.extend(prints.iter().map(|x| vec![format!("--{x}")]));
    let ignore = g.chance(1, 6);
    if ignore {
        groups.push(vec!["--ignore-unknown-format".into()]);
    }
    if g.chance(1, 20) {
        groups.push(vec![g.pickc(&["-v", "--verbose"]).into()]);
    }
    // A malformed argument.
    let bad = g.chance(1, 12);
    if bad {
        g.label("malformed");
        let x = match g.below(6) {
            0 => vec!["--rename-symbol=abc".into()],
            1 => vec!["--rename-section=abc".into()],
            2 => vec!["--elf-replace-needed=abc".into()],
            3 => {
                std::fs::write(d.file("bad"), g.pickc(&["abc\n", "a b\nc\n", "a b\n\nc d\n", "\n"])).unwrap();
                vec!["--rename-symbols=bad".into()]
            }
            4 => vec!["--rename-symbols=absent".into()],
            _ => vec![g.pickc(&["--delete-symbol", "--elf-unknown", "--elf-set-soname", "--rename-symbols"]).into()],
        };
        groups.push(x);
    }
    // 0: no output, 1: standard output, 2 or 3: a file that may exist, 4: the input itself.
    let to = if g.chance(1, 12) { 0 } else if g.chance(1, 15) { 4 } else { g.pickc(&[1, 2, 2, 2, 2, 3]) };
    let same = if to == 4 {
        match g.below(4) {
            0 => must!(std::fs::hard_link(&input, &output), "hard link"),
            1 => must!(std::os::unix::fs::symlink(g.pickc(&["in", "./in"]), &output), "symbolic link"),
            _ => {}
        }
        if output.exists() { "out".to_string() } else { g.pickc(&["in", "./in", input.to_str().unwrap()]).to_string() }
    } else {
        String::new()
    };
    let old = vec![0x55; v.len() * 2 + 100];
    if to == 3 {
        std::fs::write(&output, &old).unwrap();
        std::fs::set_permissions(&output, std::fs::Permissions::from_mode(0o612)).unwrap();
    }
    // Options can be in any order, and before or after the files; those of a list stay in order.
    let missing = bad && groups.last().is_some_and(|x| x.len() == 1 && matches!(&x[0][..], "--delete-symbol" | "--elf-set-soname" | "--rename-symbols"));
    let tail = if missing { groups.pop() } else { None };
    if g.bool() {
        let k = g.range(0, groups.len());
        groups.rotate_left(k);
        let lists: HashSet<&str> = ["elf-add-needed", "elf-add-runpath"].into();
        let is = |x: &Vec<String>, n: &str| x[0].strip_prefix("--").is_some_and(|x| x.split('=').next() == Some(n));
        for n in lists {
            // Put the elements of a list back in order.
            let mut at: Vec<usize> = (0..groups.len()).filter(|i| is(&groups[*i], n)).collect();
            let mut want: Vec<Vec<String>> = vec![];
            let values: &[Name] = if n == "elf-add-needed" { &options.elf.add_needed } else { &options.elf.add_runpath };
            for v in values {
                let v = text(v);
                want.push(vec![format!("--{n}={v}")]);
            }
            if at.len() == want.len() {
                at.iter().zip(want).for_each(|(i, w)| groups[*i] = w);
            }
            at.clear();
        }
    }
    let mut line = vec![];
    let files_at = g.range(0, groups.len());
    for i in 0..=groups.len() {
        if i == files_at {
            line.push(if g.bool() { "in".to_string() } else { input.to_str().unwrap().into() });
            match to {
                0 => {}
                1 => line.push("-".into()),
                4 => line.push(same.clone()),
                _ => line.push(if g.bool() { "out".to_string() } else { output.to_str().unwrap().into() }),
            }
        }
        if let Some(x) = groups.get(i) {
            line.extend(x.iter().cloned());
        }
    }
    line.extend(tail.into_iter().flatten());
    let out = exec(&d, &line);
    let ok = out.status.success();
    let ctx = || format!("{line:?}: {:?} {}", out.status.code(), String::from_utf8_lossy(&out.stderr));
    g.sample(|| line.join(" "));
    ensure!(out.status.code().is_some_and(|c| c < 100), "the command died: {}", ctx());
    ensure!(!out.stderr.windows(9).any(|x| x == b"panicked "), "panic: {}", ctx());
    ensure_eq!(std::fs::read(&input).ok(), Some(v.clone()), "the input file");

    // What is expected.
    let skipped = ignore && !(v.len() >= 5 && v.starts_with(b"\x7fELF") && matches!(v[4], 1 | 2));
    if to == 4 {
        g.label("the output is the input");
        ensure_eq!(std::fs::metadata(&input).map(|m| m.mode() & 0o777).ok(), Some(mode), "mode of the input: {}", ctx());
        ensure!(!ok || skipped, "accepted: {}", ctx());
        return Ok(());
    }
    let unsaid = to == 0 && (modifies || bad);
    let untouched = |ctx: &str| -> R {
        match to {
            3 => ensure_eq!(std::fs::read(&output).ok(), Some(old.clone()), "output of a failed command {ctx}"),
            _ => ensure!(!output.exists(), "output of a failed command: {ctx}"),
        }
        Ok(())
    };
    if skipped && !unsaid && !(bad && !ok) {
        g.label("ignored");
        ensure!(ok && out.stdout.is_empty(), "ignored input: {}", ctx());
        return untouched(&ctx());
    }
    if unsaid || bad {
        g.label_if(unsaid, "modification without output");
        // What is printed before arguments are looked at is no concern.
        ensure!(!ok, "accepted: {}", ctx());
        return untouched(&ctx());
    }
    if to == 0 {
        g.label("no output");
        ensure_eq!(ok, read.is_ok(), "exit status of {}", ctx());
        ensure_eq!(String::from_utf8_lossy(&out.stdout), print, "output of {}", ctx());
        return Ok(());
    }
    let (want, write) = reference(&v, options);
    match want {
        Ok(want) => {
            g.label("written");
            ensure!(ok, "failed: {}", ctx());
            if to == 1 {
                g.label("standard output");
                ensure!(out.stdout == [print.as_bytes(), &want[..]].concat(), "standard output is not the printed lines and the file: {}", ctx());
                ensure!(!output.exists(), "output file");
            } else {
                ensure_eq!(String::from_utf8_lossy(&out.stdout), print, "output of {}", ctx());
                let got = must!(std::fs::read(&output), "output of {}", ctx());
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                ensure!(got == want, "the output of {} bytes differs at {at:#x} from the {} bytes of the library: {}", got.len(), want.len(), ctx());
                let m = must!(std::fs::metadata(&output), "metadata").mode() & 0o777;
                ensure_eq!(m, if to == 3 { 0o612 } else { mode & !UMASK.get().unwrap() }, "mode of the output for mode {mode:o}: {}", ctx());
            }
        }
        Err(e) => {
            g.label("refused");
            ensure!(!ok, "accepted although the library refuses to {}: {}", e.msg, ctx());
            if write {
                // A file that was started is removed.
                ensure!(!output.exists(), "a partial output is left: {}", ctx());
            } else {
                return untouched(&ctx());
            }
        }
    }
    Ok(())
}

fn main() {
    let _ = CLI.set(build());
    let status = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let mask = status.lines().find_map(|l| l.strip_prefix("Umask:")).and_then(|x| u32::from_str_radix(x.trim(), 8).ok());
    let _ = UMASK.set(mask.unwrap_or(0o022));
    run(
        "C35",
        "a case is non-trivial when more than one option for a modification was given",
        &[
            "arguments are valid UTF-8, and old names in old=new contain no '='",
            "the library does what its options say (see C33)",
            "files are written in a scratch directory that every case creates and removes",
        ],
        &[sub("command", 30_000, 600_000, command)],
    )
}
