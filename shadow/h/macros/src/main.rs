//! Checks of `vercre-macros`: enumerate invocations, compile them against the
//! real proc macros and either run the resulting program (C10) or read the
//! compiler's diagnostics (C11).
mod bad;
mod cases;

use std::path::{Path, PathBuf};
use std::process::Command;

use serde_json::Value;

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// Result of compiling a generated crate: per line with an error, the messages.
pub struct Compiled {
    pub ok: bool,
    /// program, line, message
    pub errors: Vec<(usize, usize, String)>,
    pub stderr: String,
}

/// Compile one program that can name the macros, `vercre_issuer`, and
/// `serde_json`.
pub fn compile(name: &str, main_rs: &str) -> Compiled {
    compile_all(name, &[main_rs.to_string()], true).0
}

/// Compile several programs of one generated package, a few at a time.
pub fn compile_all(name: &str, programs: &[String], check_only: bool) -> (Compiled, Vec<PathBuf>) {
    let root = root();
    let dir = root.join("target/generated").join(name);
    let _ = std::fs::remove_dir_all(dir.join("src"));
    std::fs::create_dir_all(dir.join("src/bin")).expect("create generated crate");
    let shadow = root.join("shadow");
    std::fs::write(
        dir.join("Cargo.toml"),
        format!(
            "[package]\nname = \"{name}\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nserde_json = \"1\"\n\
             facade = {{ path = \"{0}/h/facade\" }}\nvercre-macros = {{ path = \"{0}/real/vercre-macros\" }}\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n",
            shadow.display()
        ),
    )
    .unwrap();
    std::fs::copy(shadow.join("Cargo.lock"), dir.join("Cargo.lock")).unwrap();
    let bins: Vec<String> = (0..programs.len()).map(|i| format!("{name}-{i}")).collect();
    for (b, text) in bins.iter().zip(programs) {
        std::fs::write(dir.join(format!("src/bin/{b}.rs")), text).unwrap();
    }
    let target = root.join("target/generated/target");
    let out = Command::new("cargo")
        .args([if check_only { "check" } else { "build" }, "--offline", "-q", "--keep-going", "-j", "4", "--message-format=json"])
        .current_dir(&dir)
        .env("CARGO_TARGET_DIR", &target)
        .output()
        .expect("run cargo");
    let mut errors = vec![];
    for line in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
        if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
            continue;
        }
        let Some(bin) = bins.iter().position(|b| v["target"]["name"] == b.as_str()) else {
            eprintln!("{}", v["message"]["rendered"]);
            eprintln!("a dependency does not compile");
            std::process::exit(2);
        };
        let source = format!("src/bin/{}.rs", bins[bin]);
        let msg = v["message"]["message"].as_str().unwrap_or_default().to_string();
        for s in v["message"]["spans"].as_array().into_iter().flatten() {
            // follow macro expansions out to the invocation
            let mut s = s;
            loop {
                if s["file_name"].as_str().is_some_and(|f| Path::new(f).ends_with(&source)) && s["expansion"].is_null() {
                    errors.push((bin, s["line_start"].as_u64().unwrap_or(0) as usize, msg.clone()));
                    break;
                }
                if s["expansion"].is_null() {
                    break;
                }
                s = &s["expansion"]["span"];
            }
        }
    }
    let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
    if !out.status.success() && errors.is_empty() {
        eprintln!("{stderr}");
        eprintln!("cargo failed without a diagnostic");
        std::process::exit(2);
    }
    (Compiled { ok: out.status.success(), errors, stderr }, bins.iter().map(|b| target.join("debug").join(b)).collect())
}

fn main() {
    // programs with thousands of invocations take the compiler a while
    mc::patience(if std::env::args().any(|a| a == "thorough") { 7200 } else { 500 });
    mc::main(|id| match id {
        "C10" => cases::run(),
        "C11" => bad::run(),
        _ => {}
    })
}
