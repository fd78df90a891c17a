//! C22 (built-in modules) and C23 (lexical normalisation): the pure helpers.
use crate::core::*;
use crate::gen::{Call, Case};
use crate::props::{fresh_root, hash_of, Obs, Verdict};
use nodejs_resolver::Resolver;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

/// require('module').builtinModules of Node 16 (with the subpaths that are modules of their own).
pub const NODE16: [&str; 69] = [
    "_http_agent", "_http_client", "_http_common", "_http_incoming", "_http_outgoing", "_http_server",
    "_stream_duplex", "_stream_passthrough", "_stream_readable", "_stream_transform", "_stream_wrap",
    "_stream_writable", "_tls_common", "_tls_wrap", "assert", "assert/strict", "async_hooks", "buffer",
    "child_process", "cluster", "console", "constants", "crypto", "dgram", "diagnostics_channel", "dns",
    "dns/promises", "domain", "events", "fs", "fs/promises", "http", "http2", "https", "inspector", "module",
    "net", "os", "path", "path/posix", "path/win32", "perf_hooks", "process", "punycode", "querystring",
    "readline", "repl", "stream", "stream/consumers", "stream/promises", "stream/web", "string_decoder", "sys",
    "timers", "timers/promises", "tls", "trace_events", "tty", "url", "util", "util/types", "v8", "vm", "wasi",
    "worker_threads", "zlib", "", "", "",
];
pub fn list() -> HashSet<&'static str> {
    NODE16.iter().copied().filter(|x| !x.is_empty()).collect()
}

pub fn gen_c22(mut r: Rng, index: u64) -> Case {
    let l: Vec<&str> = NODE16.iter().copied().filter(|x| !x.is_empty()).collect();
    let mut words: Vec<String> = vec![];
    // the whole list and its neighbourhood, module by module, then random words
    let w = l[(index as usize) % l.len()].to_string();
    if index < l.len() as u64 {
        words.extend(l.iter().map(|x| x.to_string()));
        let c: Vec<char> = w.chars().collect();
        for i in 0..=c.len() {
            words.push(c[..i].iter().collect());
            words.push(c[i..].iter().collect());
            for x in ['/', '_', 's', '2', ':', '.', ' ', '\0', 'é', '-', 'A', c[0]] {
                let mut d = c.clone();
                d.insert(i, x);
                words.push(d.iter().collect());
                if i < c.len() {
                    let mut d = c.clone();
                    d[i] = x;
                    words.push(d.iter().collect());
                }
            }
            if i < c.len() {
                let mut d = c.clone();
                d.remove(i);
                words.push(d.iter().collect());
                let mut d = c.clone();
                d[i] = if d[i].is_uppercase() { d[i].to_ascii_lowercase() } else { d[i].to_ascii_uppercase() };
                words.push(d.iter().collect());
                if i + 1 < c.len() {
                    let mut d = c.clone();
                    d.swap(i, i + 1);
                    words.push(d.iter().collect());
                }
            }
        }
        for o in ["promises", "strict", "posix", "win32", "web", "types", "consumers", "sub", "", "index.js", "internal"] {
            words.push(format!("{w}/{o}"));
            words.push(format!("{o}/{w}"));
        }
        for x in ["node:", "./", "../", "/", "@", "node_modules/", "internal/"] {
            words.push(format!("{x}{w}"));
        }
        for x in [".js", "?q", "#f", " ", "\n", "/"] {
            words.push(format!("{w}{x}"));
        }
        for o in &l {
            words.push(format!("{w}{o}"));
            words.push(format!("{w}/{o}"));
        }
        words.push(w.to_uppercase());
        words.extend(
            ["test", "node:test", "sqlite", "sea", "inspector/promises", "readline/promises", "path/posix/x", "_debugger", "freelist", "sys/x", "v8/tools", "node-inspect/lib/_inspect", "", ".", "assert\\strict", "assert\"strict", "assert/stric", "react", "lodash", "fs-extra", "events2", "buffer/", "process/", "punycode/", "http3"]
                .iter()
                .map(|x| x.to_string()),
        );
    } else {
        for _ in 0..400 {
            let n = 1 + r.below(4);
            let mut s = String::new();
            for _ in 0..n {
                match r.below(4) {
                    0 => s.push_str(*r.pick(&l)),
                    1 => s.push((b'a' + r.below(26) as u8) as char),
                    2 => s.push_str(*r.pick(&["/", "_", "s", "promises", "strict", ":", "node:", ""])),
                    _ => {
                        let x = *r.pick(&l);
                        let k = r.below(x.len() + 1);
                        s.push_str(if r.pct(50) { &x[..k] } else { &x[k..] });
                    }
                }
            }
            words.push(s);
        }
    }
    Case {
        prop: "C22".into(),
        world: World::new(),
        opts: Opts::default(),
        calls: words.into_iter().map(|w| Call { base: String::new(), req: w, se: false }).collect(),
        extra: Value::Null,
    }
}
pub fn check_c22(c: &Case, obs: &mut Obs) -> Verdict {
    let l = list();
    for call in &c.calls {
        obs.evals += 1;
        let got = match guarded(|| Resolver::is_build_in_module(&call.req)) {
            Ok(b) => b,
            Err(p) => return Err(format!("is_build_in_module({:?}): PANIC {p}", call.req)),
        };
        let want = l.contains(call.req.as_str());
        obs.tag(if got { "answer:true" } else { "answer:false" });
        if got != want {
            return Err(format!("is_build_in_module({:?}) is {got}, Node 16's list says {want}", call.req));
        }
        if obs.hashes.insert(hash_of(&[&call.req.as_str()])) && obs.samples.len() < 5 && obs.hashes.len() % 5000 < 3 {
            obs.samples.push(json!({"specifier": call.req, "observed": got}));
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C23
pub fn gen_c23(mut r: Rng) -> Case {
    let comps = ["a", "b", "c", ".", "..", "", "...", "..a", "a..", ".a", "é", " ", "a.b", "{FF}", "*", "~", "..\\", "C:", "\\", "x\n", "😀"];
    let mut calls = vec![];
    for _ in 0..40 {
        let n = r.below(9);
        let mut s = String::new();
        if r.pct(55) {
            s.push('/');
        }
        for i in 0..n {
            if i > 0 {
                s.push('/');
            }
            let c = if r.pct(75) { *r.pick(&comps[..6]) } else { *r.pick(&comps) };
            s.push_str(c);
        }
        if r.pct(20) {
            s.push('/');
        }
        if r.pct(3) {
            s = format!("{}{s}", "a/".repeat(r.below(500)));
        }
        if r.pct(3) {
            s = format!("{s}{}", "/..".repeat(r.below(20)));
        }
        calls.push(Call { base: s, req: String::new(), se: false });
    }
    let mut w = World::new();
    for d in ["a", "a/b", "a/b/c", "b", "b/a", "c", "é"] {
        w.dir(d);
        for f in ["x", "..a", "a..", "a.b"] {
            w.file(&format!("{d}/{f}"), "");
        }
    }
    Case { prop: "C23".into(), world: w, opts: Opts::default(), calls, extra: Value::Null }
}
/// Byte-level specification, sharing nothing with std's component iterator.
pub fn spec(p: &[u8]) -> Vec<u8> {
    let abs = p.first() == Some(&b'/');
    let mut stack: Vec<&[u8]> = vec![];
    for c in p.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                stack.pop();
            }
            _ => stack.push(c),
        }
    }
    let mut out = vec![];
    if abs {
        out.push(b'/');
    }
    for (i, c) in stack.iter().enumerate() {
        if i > 0 {
            out.push(b'/');
        }
        out.extend_from_slice(c);
    }
    out
}
pub fn check_c23(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    fresh_root(root, &c.world);
    for call in &c.calls {
        let p = PathBuf::from(os(&call.base));
        obs.evals += 1;
        let n = |p: &Path| guarded(|| Resolver::normalize_path_without_link(p));
        let got = match n(&p) {
            Ok(x) => x,
            Err(e) => return Err(format!("normalize_path_without_link({:?}): PANIC {e}", call.base)),
        };
        let want = PathBuf::from(std::ffi::OsString::from_vec(spec(p.as_os_str().as_bytes())));
        if got.as_os_str() != want.as_os_str() {
            return Err(format!("normalize_path_without_link({:?}) is {:?}, expected {:?}", call.base, got, want));
        }
        match n(&got) {
            Ok(x) if x.as_os_str() == got.as_os_str() => {}
            x => return Err(format!("normalizing {:?} again gives {:?}", got, x)),
        }
        // on a tree without links it names the same file
        let mut full = root.as_os_str().to_os_string();
        full.push("/");
        full.push(p.as_os_str());
        let full = PathBuf::from(full);
        if let Ok(m) = std::fs::metadata(&full) {
            use std::os::unix::fs::MetadataExt;
            let q = n(&full).map_err(|e| format!("PANIC {e}"))?;
            let m2 = std::fs::metadata(&q).map_err(|_| format!("{:?} exists, its normal form {:?} does not", full, q))?;
            if m.ino() != m2.ino() || m.dev() != m2.dev() {
                return Err(format!("{:?} and its normal form {:?} are different files", full, q));
            }
            obs.tag("compared-on-disk");
        }
        if obs.hashes.insert(hash_of(&[&call.base.as_str()])) && obs.samples.len() < 6 && obs.hashes.len() % 3000 < 2 {
            obs.samples.push(json!({"path": call.base, "observed": got.display().to_string()}));
        }
        obs.tag(if want.as_os_str() == p.as_os_str() { "already-normal" } else { "changed" });
    }
    Ok(())
}
