//! git itself as an independent oracle.
use crate::engine::{Fail, Res};
use crate::model::{hex, Kind, Oid};
use std::io::Write;
use std::path::Path;
use std::process::{Command, Output, Stdio};
use std::sync::OnceLock;

pub fn available() -> bool {
    static A: OnceLock<bool> = OnceLock::new();
    *A.get_or_init(|| {
        Command::new("git")
            .arg("--version")
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .map_or(false, |s| s.success())
    })
}

pub fn git(dotgit: &Path, args: &[&str], input: Option<&[u8]>) -> Res<Output> {
    git_env(dotgit, args, input, &[])
}

pub fn git_env(dotgit: &Path, args: &[&str], input: Option<&[u8]>, env: &[(&str, &str)]) -> Res<Output> {
    let mut c = Command::new("git");
    c.args(args)
        .env_clear()
        .env("PATH", std::env::var_os("PATH").unwrap_or_else(|| "/usr/bin:/bin".into()))
        .env("HOME", dotgit)
        .env("GIT_DIR", dotgit)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("GIT_CONFIG_GLOBAL", "/dev/null")
        .env("GIT_AUTHOR_NAME", "A").env("GIT_AUTHOR_EMAIL", "a@b")
        .env("GIT_COMMITTER_NAME", "A").env("GIT_COMMITTER_EMAIL", "a@b")
        .env("LC_ALL", "C")
        .envs(env.iter().copied())
        .current_dir(dotgit)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let mut child = c.spawn().map_err(|e| Fail::Harness(format!("git: {e}")))?;
    let mut stdin = child.stdin.take().unwrap();
    let input = input.map(|i| i.to_vec()).unwrap_or_default();
    let t = std::thread::spawn(move || {
        let _ = stdin.write_all(&input);
    });
    let out = child.wait_with_output().map_err(|e| Fail::Harness(format!("git: {e}")))?;
    let _ = t.join();
    Ok(out)
}

pub fn git_ok(dotgit: &Path, args: &[&str], input: Option<&[u8]>) -> Res<Vec<u8>> {
    let o = git(dotgit, args, input)?;
    if !o.status.success() {
        return Err(Fail::Harness(format!("git {args:?} failed: {}", String::from_utf8_lossy(&o.stderr))));
    }
    Ok(o.stdout)
}

/// What git reads for an id: kind and content, or nothing.
pub fn cat_file(dotgit: &Path, ids: &[Oid]) -> Res<Vec<Option<(Kind, Vec<u8>)>>> {
    let mut input = String::new();
    for i in ids {
        input.push_str(&hex(i));
        input.push('\n');
    }
    let o = git(dotgit, &["cat-file", "--batch"], Some(input.as_bytes()))?;
    let mut out = &o.stdout[..];
    let mut v = vec![];
    for _ in ids {
        let Some(nl) = out.iter().position(|b| *b == b'\n') else {
            v.push(None);
            continue;
        };
        let line = String::from_utf8_lossy(&out[..nl]).into_owned();
        out = &out[nl + 1..];
        let f: Vec<&str> = line.split(' ').collect();
        if f.len() != 3 {
            v.push(None);
            continue;
        }
        let kind = Kind::ALL.into_iter().find(|k| k.name() == f[1]);
        let n: usize = f[2].parse().unwrap_or(0);
        match kind {
            Some(k) if out.len() > n => {
                v.push(Some((k, out[..n].to_vec())));
                out = &out[n + 1..];
            }
            _ => v.push(None),
        }
    }
    Ok(v)
}
