//! C36: features of the crate decide what is available, not what it does.
//!
//! A small program is built once for each selection of features, and all answer the same
//! requests: to describe a file with the unified read API, to write an object that the
//! request describes, and to read and rewrite an ELF file.
use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;
use vh::*;

#[path = "../images.rs"]
mod images;
#[allow(dead_code)]
#[path = "c33.rs"]
mod c33;

/// Name, features of the library, and what the program can do.
const VARIANTS: &[(&str, &str, &str)] = &[
    ("all", "object/read,object/write,object/build,object/std", "r,w,b"),
    ("elf", "object/read_core,object/elf", "r"),
    ("coff", "object/read_core,object/coff", "r"),
    ("pe", "object/read_core,object/pe", "r"),
    ("macho", "object/read_core,object/macho", "r"),
    ("xcoff", "object/read_core,object/xcoff", "r"),
    ("core", "object/read_core,object/write_core,object/build_core,object/elf,object/macho,object/pe,object/xcoff", "r,w,b"),
    ("more", "object/read,object/write,object/build,object/std,object/compression,object/wasm,object/goff,object/unstable", "r,w,b"),
];

static BINS: OnceLock<Vec<PathBuf>> = OnceLock::new();

/// Build all variants from the tree under test.
fn build() -> Vec<PathBuf> {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into()));
    let repo = std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into());
    let base = root.join("target/features");
    let put = |f: &str, text: &str| {
        let p = base.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        if std::fs::read_to_string(&p).ok().as_deref() != Some(text) {
            std::fs::write(&p, text).unwrap();
        }
    };
    put("src/main.rs", include_str!("../../features/main.rs"));
    put("src/dump.rs", include_str!("../dump.rs"));
    if !base.join("Cargo.lock").exists() {
        put("Cargo.lock", include_str!("../../features/lock"));
    }
    put(
        "Cargo.toml",
        &format!(
            "[package]\nname = \"variant\"\nversion = \"0.1.0\"\nedition = \"2024\"\n[workspace]\n[features]\nr = []\nw = []\nb = []\n\
             [dependencies]\nobject = {{ path = {repo:?}, default-features = false }}\n\
             [profile.dev]\nopt-level = 1\ndebug = false\nincremental = false\n"
        ),
    );
    let all: Vec<_> = VARIANTS
        .iter()
        .map(|(name, features, own)| {
            let c = Command::new("cargo")
                .args(["build", "--offline", "--features", &format!("{features},{own}"), "--manifest-path"])
                .arg(base.join("Cargo.toml"))
                .arg("--target-dir")
                .arg(base.join(name))
                .env_remove("CARGO_TARGET_DIR")
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn();
            (name, c)
        })
        .collect();
    all.into_iter()
        .map(|(name, c)| match c.and_then(Child::wait_with_output) {
            Ok(o) if o.status.success() => base.join(name).join("debug/variant"),
            o => {
                println!("{}", o.map(|o| String::from_utf8_lossy(&o.stderr).into_owned()).unwrap_or_default());
                println!("ERROR: build of {name} failed");
                std::process::exit(3)
            }
        })
        .collect()
}

struct Server(Child, ChildStdin, ChildStdout);
impl Server {
    fn new(i: usize) -> Server {
        let mut c = Command::new(&BINS.get().unwrap()[i]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let (i, o) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
        Server(c, i, o)
    }
    fn ask(&mut self, what: u8, v: &[u8]) -> std::io::Result<Vec<u8>> {
        self.1.write_all(&[&[what][..], &(v.len() as u32).to_le_bytes(), v].concat())?;
        self.1.flush()?;
        let mut n = [0; 4];
        self.2.read_exact(&mut n)?;
        let mut out = vec![0; u32::from_le_bytes(n) as usize];
        self.2.read_exact(&mut out)?;
        Ok(out)
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
thread_local! {
    static SERVERS: RefCell<Vec<Server>> = const { RefCell::new(vec![]) };
}
/// Ask one variant.
fn ask(i: usize, what: u8, v: &[u8]) -> R<Vec<u8>> {
    let r = SERVERS.with_borrow_mut(|s| {
        if s.is_empty() {
            *s = (0..VARIANTS.len()).map(Server::new).collect();
        }
        let r = s[i].ask(what, v);
        if r.is_err() {
            s.clear();
        }
        r
    });
    let r = must!(r, "the program for {} died", VARIANTS[i].0);
    // A panic is an answer like others here: it has to be the same in all of them (see C01).
    Ok(r)
}

fn lines(v: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(v).lines().map(|x| x.to_string()).collect()
}

fn reading(g: &mut Gen) -> R {
    let mut v = images::object(g);
    if v.len() > 1 << 20 {
        return Ok(());
    }
    if g.chance(1, 4) {
        let n = g.range(1, 4);
        images::mutate(g, &mut v, n);
        g.label("damaged");
    }
    let want = ask(0, 0, &v)?;
    let kind = object::FileKind::parse(&v[..]).ok();
    use object::FileKind as K;
    let own = match kind {
        Some(K::Elf32 | K::Elf64) => "elf",
        Some(K::Coff | K::CoffBig) => "coff",
        Some(K::Pe32 | K::Pe64) => "pe",
        Some(K::MachO32 | K::MachO64) => "macho",
        Some(K::Xcoff32 | K::Xcoff64) => "xcoff",
        _ => "",
    };
    g.nontrivial_if(want != b"error" && want != b"panic");
    g.label_if(want == b"error", "not read");
    g.sample(|| format!("{own} file of {} bytes, described in {} lines", v.len(), lines(&want).len()));
    for (i, (name, ..)) in VARIANTS.iter().enumerate().skip(1) {
        // Compressed sections (also found as `.zdebug_*` under their usual names) need a feature.
        let text = String::from_utf8_lossy(&want);
        if *name == "more" && (own.is_empty() || text.contains("Zlib") || text.contains("Zstandard") || v.windows(6).any(|x| x == b"zdebug")) {
            continue;
        }
        let got = ask(i, 0, &v)?;
        // Images and objects share a format.
        if *name == own || matches!(*name, "core" | "more") || (*name == "pe" && own == "coff") {
            if let Some(d) = dump::differ(&lines(&got), &lines(&want)) {
                fail!("a build with the features of {name} describes the {own} file differently: {d}");
            }
        } else {
            ensure!(got == b"error", "a build with the features of {name} only accepts a file of {own:?}");
        }
    }
    Ok(())
}

fn writing(g: &mut Gen) -> R {
    let v = g.bytes(400);
    let want = ask(0, 1, &v)?;
    g.nontrivial_if(want.len() > 400);
    g.label_if(want == b"error" || want == b"panic", "refused");
    g.sample(|| format!("request {:x?}.. gives {} bytes", &v[..12], want.len()));
    for (i, (name, ..)) in VARIANTS.iter().enumerate().filter(|x| x.1.2.contains('w')) {
        ensure!(ask(i, 1, &v)? == want, "an object is written differently with the features of {name}");
    }
    ensure!(ask(0, 1, &v)? == want, "the same object is written differently the second time");
    Ok(())
}

fn rebuilding(g: &mut Gen) -> R {
    let v = c33::elf_model(g).encode(g);
    let want = ask(0, 2, &v)?;
    g.nontrivial_if(want != b"error" && want != b"panic");
    g.sample(|| format!("{} bytes give {} bytes", v.len(), want.len()));
    for (i, (name, ..)) in VARIANTS.iter().enumerate().filter(|x| x.1.2.contains('b')) {
        ensure!(ask(i, 2, &v)? == want, "a file is rebuilt differently with the features of {name}");
    }
    ensure!(ask(0, 2, &v)? == want, "the same file is rebuilt differently the second time");
    Ok(())
}

fn main() {
    let _ = BINS.set(build());
    if std::env::args().nth(1).as_deref() == Some("build") {
        return;
    }
    run(
        "C36",
        "a case is non-trivial when the file was read (reading), sections or symbols were written (writing), or the file was rebuilt (rebuilding)",
        &["errors are compared as such, without their texts", "files of up to 1 MiB"],
        &[sub("reading", 20_000, 1_000_000, reading), sub("writing", 30_000, 2_000_000, writing), sub("rebuilding", 10_000, 500_000, rebuilding)],
    )
}
