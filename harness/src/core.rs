//! Shared vocabulary of the monitor: scratch worlds, resolver options, observed outcomes, PRNG.
use nodejs_resolver::{AliasMap, ResolveResult, Resolver, ResolverCache, ResolverOptions};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// true with probability pct/100
    pub fn pct(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

// ---------------------------------------------------------------- worlds
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(String),
    Dir,
    Link(String),
}

/// A file tree, relative to a scratch root. `{ROOT}` in contents, link targets and requests stands for that root.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct World {
    pub entries: BTreeMap<String, Node>,
    /// permissions that differ from the usual ones; such a case runs as an unprivileged user
    pub modes: BTreeMap<String, u32>,
}

impl World {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn file(&mut self, p: &str, content: &str) -> &mut Self {
        self.put(p, Node::File(content.to_string()))
    }
    pub fn json(&mut self, p: &str, v: &Value) -> &mut Self {
        self.put(p, Node::File(serde_json::to_string(v).unwrap()))
    }
    pub fn dir(&mut self, p: &str) -> &mut Self {
        self.put(p, Node::Dir)
    }
    pub fn link(&mut self, p: &str, to: &str) -> &mut Self {
        self.put(p, Node::Link(to.to_string()))
    }
    /// Adds an entry unless it would conflict with one already there (a file where a directory is needed, ...).
    pub fn put(&mut self, p: &str, n: Node) -> &mut Self {
        let p = p.trim_matches('/');
        if p.is_empty() || p.split('/').any(|c| c.is_empty() || c == "." || c == "..") {
            return self;
        }
        // every proper ancestor must be absent or a Dir
        let mut anc = String::new();
        let comps: Vec<&str> = p.split('/').collect();
        for c in &comps[..comps.len() - 1] {
            if !anc.is_empty() {
                anc.push('/');
            }
            anc.push_str(c);
            match self.entries.get(&anc) {
                Some(Node::File(_)) | Some(Node::Link(_)) => return self,
                _ => {}
            }
        }
        let prefix = format!("{p}/");
        let has_children = self
            .entries
            .range(prefix.clone()..)
            .next()
            .map_or(false, |(k, _)| k.starts_with(&prefix));
        if has_children && n != Node::Dir {
            return self;
        }
        if n == Node::Dir && self.entries.contains_key(p) {
            return self;
        }
        self.entries.insert(p.to_string(), n);
        self
    }
    pub fn to_json(&self) -> Value {
        let mut m = Map::new();
        for (k, n) in &self.entries {
            m.insert(
                k.clone(),
                match n {
                    Node::File(c) => json!(c),
                    Node::Dir => json!({"dir": true}),
                    Node::Link(t) => json!({ "link": t }),
                },
            );
        }
        if !self.modes.is_empty() {
            m.insert("{MODES}".into(), json!(self.modes));
        }
        Value::Object(m)
    }
    pub fn from_json(v: &Value) -> World {
        let mut w = World::new();
        for (k, n) in v.as_object().expect("world object") {
            if k == "{MODES}" {
                w.modes = n.as_object().map(|m| m.iter().map(|(k, x)| (k.clone(), x.as_u64().unwrap_or(0) as u32)).collect()).unwrap_or_default();
                continue;
            }
            let node = match n {
                Value::String(s) => Node::File(s.clone()),
                Value::Object(o) if o.contains_key("dir") => Node::Dir,
                Value::Object(o) if o.contains_key("link") => {
                    Node::Link(o["link"].as_str().unwrap().to_string())
                }
                other => Node::File(serde_json::to_string(other).unwrap()),
            };
            w.entries.insert(k.clone(), node);
        }
        w
    }
    pub fn files(&self) -> Vec<String> {
        self.entries
            .iter()
            .filter(|(_, n)| matches!(n, Node::File(_)))
            .map(|(k, _)| k.clone())
            .collect()
    }
    /// every directory of the tree, "" (the root) included
    pub fn dirs(&self) -> Vec<String> {
        let mut s = std::collections::BTreeSet::new();
        s.insert(String::new());
        for (k, n) in &self.entries {
            let comps: Vec<&str> = k.split('/').collect();
            for i in 1..comps.len() {
                s.insert(comps[..i].join("/"));
            }
            if *n == Node::Dir {
                s.insert(k.clone());
            }
        }
        s.into_iter().collect()
    }
    pub fn materialize(&self, root: &Path) {
        let _root = User::enter(0);
        fs::create_dir_all(root).expect("mk root");
        for (k, n) in &self.entries {
            let p = root.join(os(k));
            if let Some(d) = p.parent() {
                fs::create_dir_all(d).unwrap_or_else(|e| panic!("mkdir {}: {e}", d.display()));
            }
            match n {
                // a named pipe: there, but not a regular file
                Node::File(c) if c == "{FIFO}" => {
                    let _ = fs::remove_file(&p);
                    make_fifo(&p)
                }
                Node::File(c) => fs::write(&p, with_byte(&subst(c, root), "{BYTE}").as_encoded_bytes())
                    .unwrap_or_else(|e| panic!("write {}: {e}", p.display())),
                Node::Dir => fs::create_dir_all(&p).expect("mkdir"),
                Node::Link(t) => {
                    let _ = fs::remove_file(&p);
                    std::os::unix::fs::symlink(os(&subst(t, root)), &p).expect("symlink")
                }
            }
        }
        for (k, mode) in &self.modes {
            use std::os::unix::fs::PermissionsExt;
            if matches!(self.entries.get(k), Some(Node::Link(_))) {
                continue;
            }
            let _ = fs::set_permissions(root.join(os(k)), fs::Permissions::from_mode(*mode));
        }
    }
}

/// The user as whom this thread uses the file system, as long as this lives (threads begun meanwhile, too).
pub struct User(u32);
extern "C" {
    fn setfsuid(uid: u32) -> i32;
    fn prctl(option: i32, arg: u64, a: u64, b: u64, c: u64) -> i32;
}
impl User {
    pub fn enter(uid: u32) -> User {
        // SAFETY: changes an attribute of this thread only
        let old = unsafe { setfsuid(uid) } as u32;
        // the change hides the memory of the process from the strace that runs it (PR_SET_DUMPABLE)
        unsafe { prctl(4, 1, 0, 0, 0) };
        User(old)
    }
}
impl Drop for User {
    fn drop(&mut self) {
        // SAFETY: as above
        unsafe {
            setfsuid(self.0);
            prctl(4, 1, 0, 0, 0);
        }
    }
}

extern "C" {
    fn mkfifo(path: *const std::os::raw::c_char, mode: u32) -> i32;
}
fn make_fifo(p: &Path) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).expect("path");
    // SAFETY: a NUL-terminated path that lives over the call
    let r = unsafe { mkfifo(c.as_ptr(), 0o600) };
    assert_eq!(r, 0, "mkfifo {}", p.display());
}

/// `{FF}` stands for the byte 0xFF, which is not valid UTF-8.
pub fn os(s: &str) -> std::ffi::OsString {
    with_byte(s, "{FF}")
}
fn with_byte(s: &str, token: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    if !s.contains(token) {
        return s.into();
    }
    let mut b = vec![];
    for (i, part) in s.split(token).enumerate() {
        if i > 0 {
            b.push(0xFF);
        }
        b.extend_from_slice(part.as_bytes());
    }
    std::ffi::OsString::from_vec(b)
}
/// The base path of a call: relative to the scratch root, unless it is `{REL}...` (left relative)
/// or `{ABS}...` (taken as it is).
pub fn base_path(root: &Path, base: &str) -> PathBuf {
    if let Some(b) = base.strip_prefix("{REL}") {
        return PathBuf::from(os(b));
    }
    if let Some(b) = base.strip_prefix("{ABS}") {
        return PathBuf::from(os(b));
    }
    if base.is_empty() {
        return root.to_path_buf();
    }
    let mut p = root.as_os_str().to_os_string();
    p.push("/");
    p.push(os(base));
    PathBuf::from(p)
}

pub fn subst(s: &str, root: &Path) -> String {
    if s.contains("{ROOT}") {
        s.replace("{ROOT}", root.to_str().expect("utf8 root"))
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------- options
#[derive(Clone, Debug, PartialEq)]
pub struct Opts {
    pub extensions: Vec<String>,
    pub enforce_extension: Option<bool>,
    /// None = ignored
    pub alias: Vec<(String, Option<String>)>,
    pub prefer_relative: bool,
    pub symlinks: bool,
    pub description_file: Option<String>,
    pub main_files: Vec<String>,
    pub main_fields: Vec<String>,
    pub browser_field: bool,
    pub conditions: Vec<String>,
    /// relative to the scratch root
    pub tsconfig: Option<String>,
}
fn sv(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|s| s.to_string()).collect()
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            extensions: sv(&[".js", ".json", ".node"]),
            enforce_extension: None,
            alias: vec![],
            prefer_relative: false,
            symlinks: true,
            description_file: Some("package.json".into()),
            main_files: sv(&["index"]),
            main_fields: sv(&["main"]),
            browser_field: false,
            conditions: sv(&["node"]),
            tsconfig: None,
        }
    }
}
impl Opts {
    pub fn build(&self, root: &Path, cache: Option<Arc<ResolverCache>>) -> ResolverOptions {
        ResolverOptions {
            extensions: self.extensions.clone(),
            enforce_extension: self.enforce_extension,
            alias: self
                .alias
                .iter()
                .map(|(k, v)| {
                    (
                        subst(k, root),
                        match v {
                            Some(t) => AliasMap::Target(subst(t, root)),
                            None => AliasMap::Ignored,
                        },
                    )
                })
                .collect(),
            prefer_relative: self.prefer_relative,
            external_cache: cache,
            symlinks: self.symlinks,
            description_file: self.description_file.clone(),
            main_files: self.main_files.clone(),
            main_fields: self.main_fields.clone(),
            browser_field: self.browser_field,
            condition_names: self.conditions.iter().cloned().collect(),
            tsconfig: self.tsconfig.as_ref().map(|t| root.join(os(t))),
        }
    }
    pub fn resolver(&self, root: &Path, cache: Option<Arc<ResolverCache>>) -> Resolver {
        Resolver::new(self.build(root, cache))
    }
    pub fn to_json(&self) -> Value {
        let d = Opts::default();
        let mut m = Map::new();
        macro_rules! put {
            ($f:ident, $v:expr) => {
                if self.$f != d.$f {
                    m.insert(stringify!($f).into(), $v);
                }
            };
        }
        put!(extensions, json!(self.extensions));
        put!(enforce_extension, json!(self.enforce_extension));
        put!(alias, json!(self.alias));
        put!(prefer_relative, json!(self.prefer_relative));
        put!(symlinks, json!(self.symlinks));
        put!(description_file, json!(self.description_file));
        put!(main_files, json!(self.main_files));
        put!(main_fields, json!(self.main_fields));
        put!(browser_field, json!(self.browser_field));
        put!(conditions, json!(self.conditions));
        put!(tsconfig, json!(self.tsconfig));
        Value::Object(m)
    }
    pub fn from_json(v: &Value) -> Opts {
        let mut o = Opts::default();
        let strs = |v: &Value| -> Vec<String> {
            v.as_array()
                .unwrap()
                .iter()
                .map(|s| s.as_str().unwrap().to_string())
                .collect()
        };
        let m = match v.as_object() {
            Some(m) => m,
            None => return o,
        };
        for (k, v) in m {
            match k.as_str() {
                "extensions" => o.extensions = strs(v),
                "enforce_extension" => o.enforce_extension = v.as_bool(),
                "alias" => {
                    o.alias = v
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|e| {
                            (
                                e[0].as_str().unwrap().to_string(),
                                e[1].as_str().map(|s| s.to_string()),
                            )
                        })
                        .collect()
                }
                "prefer_relative" => o.prefer_relative = v.as_bool().unwrap(),
                "symlinks" => o.symlinks = v.as_bool().unwrap(),
                "description_file" => o.description_file = v.as_str().map(|s| s.to_string()),
                "main_files" => o.main_files = strs(v),
                "main_fields" => o.main_fields = strs(v),
                "browser_field" => o.browser_field = v.as_bool().unwrap(),
                "conditions" => o.conditions = strs(v),
                "tsconfig" => o.tsconfig = v.as_str().map(|s| s.to_string()),
                other => panic!("unknown option {other}"),
            }
        }
        o
    }
}

// ---------------------------------------------------------------- observed outcomes
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    File {
        path: PathBuf,
        query: String,
        fragment: String,
    },
    Ignored,
    Err(String),
    Panic(String),
}

impl Out {
    pub fn short(&self, root: &Path) -> String {
        let r = root.display().to_string();
        match self {
            Out::File {
                path,
                query,
                fragment,
            } => format!(
                "file {}{}{}",
                path.display().to_string().replace(&r, "{ROOT}"),
                if query.is_empty() { String::new() } else { format!(" query={query}") },
                if fragment.is_empty() { String::new() } else { format!(" fragment={fragment}") }
            ),
            Out::Ignored => "ignored".into(),
            Out::Err(e) => format!("error: {}", e.replace(&r, "{ROOT}")),
            Out::Panic(e) => format!("PANIC: {}", e.replace(&r, "{ROOT}")),
        }
    }
    /// Outcome class, the error text left out.
    pub fn same_class(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Err(_), Out::Err(_)) => true,
            (Out::Panic(_), _) | (_, Out::Panic(_)) => false,
            _ => self == o,
        }
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
    pub fn is_file(&self) -> bool {
        matches!(self, Out::File { .. })
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Panics of the code under test are caught and reported as outcomes; keep stderr quiet about them.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let in_resolver = IN_RESOLVER.with(|c| c.get());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if !in_resolver {
            default(info);
        }
    }));
}
thread_local! {
    static IN_RESOLVER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub static CALLS: AtomicU64 = AtomicU64::new(0);

/// Runs a piece of the code under test; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CALLS.fetch_add(1, Ordering::Relaxed);
    IN_RESOLVER.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_RESOLVER.with(|c| c.set(false));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// What `load_side_effects` answered, in comparable form.
#[derive(Clone, Debug, PartialEq)]
pub enum Se {
    None,
    Some(PathBuf, Option<Value>),
    Err(String),
    Panic(String),
}
pub fn side_effects(r: &Resolver, p: &Path) -> Se {
    match guarded(|| r.load_side_effects(p)) {
        Err(p) => Se::Panic(p),
        Ok(Err(e)) => Se::Err(e),
        Ok(Ok(None)) => Se::None,
        Ok(Ok(Some((p, v)))) => Se::Some(
            p,
            v.map(|v| match v {
                nodejs_resolver::SideEffects::Bool(b) => json!(b),
                nodejs_resolver::SideEffects::Array(a) => json!(a),
            }),
        ),
    }
}
impl Se {
    pub fn short(&self, root: &Path) -> String {
        let r = root.display().to_string();
        match self {
            Se::None => "nothing".into(),
            Se::Some(p, v) => format!(
                "{} sideEffects={}",
                p.display().to_string().replace(&r, "{ROOT}"),
                v.as_ref().map(|v| v.to_string()).unwrap_or("absent".into())
            ),
            Se::Err(e) => format!("error: {}", e.replace(&r, "{ROOT}")),
            Se::Panic(e) => format!("PANIC: {}", e.replace(&r, "{ROOT}")),
        }
    }
}

pub fn resolve(r: &Resolver, base: &Path, req: &str) -> Out {
    match guarded(|| r.resolve(base, req)) {
        Ok(Ok(ResolveResult::Info(i))) => Out::File {
            path: if i.request.target.is_empty() {
                i.path.clone()
            } else {
                // never expected: make it visible
                i.path.join(format!("<<remaining target {:?}>>", i.request.target))
            },
            query: i.request.query.to_string(),
            fragment: i.request.fragment.to_string(),
        },
        Ok(Ok(ResolveResult::Ignored)) => Out::Ignored,
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}
