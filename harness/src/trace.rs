//! C20: the calls of a case under strace; every state-changing system call between the markers counts.
use crate::props;
use crate::run::make_case;
use serde_json::{json, Value};
use std::fs;
use std::path::Path;
use std::process::{Command, Stdio};

/// Does this line of the log show an attempt to change something outside the process?
pub fn changes(line: &str) -> bool {
    // "PID name(args) = result" or "name(args..."
    let l = line.trim_start_matches(|c: char| c.is_ascii_digit() || c == ' ');
    let name = l.split('(').next().unwrap_or("");
    let wr = |l: &str| ["O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC", "O_APPEND", "O_TMPFILE"].iter().any(|f| l.contains(f));
    match name {
        "open" | "openat" | "openat2" => wr(l),
        "creat" | "unlink" | "unlinkat" | "rename" | "renameat" | "renameat2" | "mkdir" | "mkdirat" | "rmdir" | "link"
        | "linkat" | "symlink" | "symlinkat" | "mknod" | "mknodat" | "truncate" | "ftruncate" | "fallocate" | "chmod"
        | "fchmod" | "fchmodat" | "fchmodat2" | "chown" | "fchown" | "lchown" | "fchownat" | "utime" | "utimes" | "utimensat" | "futimesat"
        | "setxattr" | "lsetxattr" | "fsetxattr" | "removexattr" | "lremovexattr" | "fremovexattr" | "chdir" | "fchdir"
        | "chroot" | "mount" | "umount2" | "socket" | "connect" | "bind" | "sendto" | "sendmsg" | "execve" | "execveat"
        | "fork" | "vfork" | "kill" | "tkill" | "tgkill" | "umask" | "setrlimit" | "copy_file_range" | "sendfile" | "splice"
        | "pwrite64" | "pwritev" | "pwritev2" | "shm_open" | "memfd_create" => true,
        "write" | "writev" => {
            let fd = l.split('(').nth(1).unwrap_or("").split(|c| c == ',' || c == '<').next().unwrap_or("");
            fd.trim().parse::<i32>().map_or(false, |n| n > 2)
        }
        _ => false,
    }
}
pub fn batch(seed: u64, n: u64, dir: &Path) -> Result<Value, (Value, String)> {
    let root = dir.join("traced").join("w");
    let log = dir.join("strace.log");
    let cf = dir.join("traced.json");
    let (mut runs, mut unread, mut calls, mut seen, mut kinds) = (0u64, 0u64, 0u64, 0u64, std::collections::BTreeMap::<String, u64>::new());
    for i in 0..n {
        let c = make_case("C20", seed, 1_000_000 + i);
        props::fresh_root(&root, &c.world);
        fs::write(&cf, c.to_json().to_string()).unwrap();
        let st = Command::new("strace")
            .args(["-f", "-qq", "-o"])
            .arg(&log)
            .arg(std::env::current_exe().unwrap())
            .arg("eval")
            .arg(&cf)
            .arg(&root)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        let text = fs::read_to_string(&log).unwrap_or_default();
        let _ = fs::remove_file(&log);
        if !st.map_or(false, |s| s.success()) || !text.contains("/mon-end-of-calls") {
            if text.contains("/mon-begin-of-calls") {
                // it crashed, which is for C02 to tell, or strace may not read its memory
                unread += 1;
                continue;
            }
            return Ok(json!({"available": false, "note": "strace could not run here; the snapshots decide alone"}));
        }
        let mut inside = false;
        for l in text.lines() {
            if l.contains("/mon-begin-of-calls") {
                inside = true;
                continue;
            }
            if l.contains("/mon-end-of-calls") {
                inside = false;
            }
            if inside {
                seen += 1;
                let name = l.trim_start_matches(|c: char| c.is_ascii_digit() || c == ' ').split('(').next().unwrap_or("").to_string();
                if name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                    *kinds.entry(name).or_insert(0) += 1;
                }
                if changes(l) {
                    props::wipe(&root);
                    return Err((c.to_json(), format!("a call made the system call {}", l.replace(&root.display().to_string(), "{ROOT}"))));
                }
            }
        }
        runs += 1;
        calls += c.calls.len() as u64;
    }
    props::wipe(&root);
    Ok(json!({"available": true, "processes": runs, "unreadable": unread, "calls": calls, "system_calls_examined": seen, "by_name": kinds}))
}
