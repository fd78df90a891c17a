//! Reference model: what a resolve call has to answer, written from the documented rules
//! (properties C01-C14, C19, C21, C24) and not from the implementation's structure. It reads the
//! real scratch tree with plain std::fs, keeps no state between calls, and knows nothing of caches.
use crate::core::{Opts, Out};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// Redirections (alias, imports, browser) a request may go through before it counts as recursive.
const REDIRECT_LIMIT: u32 = 32;
/// Work bound of the model itself: beyond it the model gives no verdict.
const FUEL: u32 = 200_000;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    /// no candidate exists; the message names request and base
    NotFound(String),
    /// internal: not found here, the caller may go on
    Soft,
    /// a description file or tsconfig that cannot be read or parsed
    Malformed(PathBuf),
    /// valid JSON whose field contents are invalid
    BadField,
    /// the subpath or import is not listed
    NotExported(String),
    /// an error raised while evaluating a mapping (misplaced default, kind mismatch, ...)
    Mapping,
    Recursion,
    /// the model ran out of fuel: no verdict
    NoVerdict,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    File { path: PathBuf, query: String, fragment: String },
    Ignored,
    Err(E),
}

impl Expect {
    pub fn short(&self, root: &Path) -> String {
        match self {
            Expect::File { path, query, fragment } => Out::File {
                path: path.clone(),
                query: query.clone(),
                fragment: fragment.clone(),
            }
            .short(root),
            Expect::Ignored => "ignored".into(),
            Expect::Err(e) => format!("error ({e:?})").replace(&root.display().to_string(), "{ROOT}"),
        }
    }
    /// Agreement on the answer; the text of errors is C19's business.
    pub fn agrees(&self, o: &Out) -> bool {
        match (self, o) {
            (Expect::Err(E::NoVerdict), Out::Panic(_)) => false,
            (Expect::Err(E::NoVerdict), _) => true,
            (
                Expect::File { path, query, fragment },
                Out::File { path: p, query: q, fragment: f },
            ) => path.as_os_str() == p.as_os_str() && query == q && fragment == f,
            (Expect::Ignored, Out::Ignored) => true,
            (Expect::Err(_), Out::Err(_)) => true,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Relative,
    Absolute,
    Internal,
    Bare,
}

pub fn kind_of(t: &str) -> Kind {
    let b = t.as_bytes();
    if t.is_empty() || t == "." || t == ".." || t.starts_with("./") || t.starts_with("../") {
        Kind::Relative
    } else if t.starts_with('#') {
        Kind::Internal
    } else if t.starts_with('/')
        || (b.len() >= 2
            && b[0].is_ascii_alphabetic()
            && b[1] == b':'
            && (b.len() == 2 || b[2] == b'/' || b[2] == b'\\'))
    {
        Kind::Absolute
    } else {
        Kind::Bare
    }
}

/// target, query, fragment
pub fn split_request(r: &str) -> (String, String, String) {
    let frag_at = r
        .char_indices()
        .skip(1)
        .find(|(_, c)| *c == '#')
        .map(|(i, _)| i)
        .unwrap_or(r.len());
    let (head, fragment) = r.split_at(frag_at);
    let q_at = head.find('?').unwrap_or(head.len());
    let (target, query) = head.split_at(q_at);
    // "?#x": the '#' is not the first character of the request, so it starts the fragment
    (target.to_string(), query.to_string(), fragment.to_string())
}

#[derive(Clone, Debug)]
struct Req {
    target: String,
    query: String,
    fragment: String,
    hops: u32,
}
impl Req {
    fn parse(s: &str) -> Req {
        let (target, query, fragment) = split_request(s);
        Req { target, query, fragment, hops: 0 }
    }
    fn to(&self, t: &str) -> Req {
        Req { target: t.to_string(), ..self.clone() }
    }
    fn hop(&self, mut to: Req) -> Result<Req, E> {
        if self.hops >= REDIRECT_LIMIT || to.target.len() > self.target.len().max(64 * 1024) {
            return Err(E::Recursion);
        }
        to.hops = self.hops + 1;
        Ok(to)
    }
    fn kind(&self) -> Kind {
        kind_of(&self.target)
    }
    fn text(&self) -> String {
        format!("{}{}{}", self.target, self.query, self.fragment)
    }
}

#[derive(Clone, Debug)]
enum Found {
    File(PathBuf, Req),
    Ignored,
}
/// Ok(None): nothing here.
type Res = Result<Option<Found>, E>;
enum Step {
    Done(Found),
    Go(PathBuf, Req),
}

struct Desc {
    dir: PathBuf,
    name: Option<String>,
    json: Value,
    browser: Vec<(String, Option<String>)>,
    exports: Option<Keys>,
    imports: Option<Keys>,
}

/// The keys of an exports or imports field; the leading "./" or "#" is removed.
#[derive(Default, Debug)]
struct Keys {
    /// target of "."
    main: Option<Value>,
    keys: Vec<(String, Value)>,
}

fn at(base: &Path, target: &str) -> PathBuf {
    if target.is_empty() || target == "." {
        base.to_path_buf()
    } else {
        base.join(target)
    }
}
fn with_ext(p: &Path, ext: &str) -> PathBuf {
    let mut s = p.as_os_str().to_os_string();
    s.push(ext);
    PathBuf::from(s)
}
/// Normal form of a path that exists, as the operating system walks it: what lies before a `..`
/// is kept as written unless it is itself a link.
pub fn as_found(p: &Path) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    let bytes = p.as_os_str().as_bytes();
    let mut cur: Vec<u8> = vec![];
    let absolute = bytes.first() == Some(&b'/');
    let path_of = |c: &[u8]| -> PathBuf {
        if c.is_empty() {
            PathBuf::from(if absolute { "/" } else { "." })
        } else {
            PathBuf::from(std::ffi::OsStr::from_bytes(c))
        }
    };
    for part in bytes.split(|b| *b == b'/') {
        match part {
            b"" | b"." => {}
            b".." => {
                let here = path_of(&cur);
                if fs::read_link(&here).is_ok() {
                    cur = here.canonicalize().map(|r| r.as_os_str().as_bytes().to_vec()).unwrap_or(cur);
                }
                let up_here = cur.is_empty() || cur == b".." || cur.ends_with(b"/..");
                if up_here && !absolute && !cur.starts_with(b"/") {
                    if !cur.is_empty() {
                        cur.push(b'/');
                    }
                    cur.extend(b"..");
                } else {
                    match cur.iter().rposition(|b| *b == b'/') {
                        Some(i) => cur.truncate(i),
                        None => cur.clear(),
                    }
                }
            }
            name => {
                if absolute || !cur.is_empty() {
                    cur.push(b'/');
                }
                cur.extend(name);
            }
        }
    }
    path_of(&cur)
}
pub fn lexical(p: &Path) -> PathBuf {
    let mut parts: Vec<&std::ffi::OsStr> = vec![];
    let mut abs = false;
    for c in p.components() {
        match c {
            std::path::Component::RootDir => abs = true,
            std::path::Component::Normal(n) => parts.push(n),
            std::path::Component::ParentDir => {
                parts.pop();
            }
            _ => {}
        }
    }
    let mut out = PathBuf::new();
    if abs {
        out.push("/");
    }
    for x in parts {
        out.push(x);
    }
    out
}
pub fn up(dir: &Path) -> Option<PathBuf> {
    let d = if dir.components().next_back() == Some(std::path::Component::ParentDir) {
        lexical(dir)
    } else {
        dir.to_path_buf()
    };
    d.parent().map(|p| p.to_path_buf())
}

/// Shape check of a whole exports/imports value: which targets can be written at all.
fn valid_target(v: &Value, inside_array: bool) -> bool {
    match v {
        Value::String(_) | Value::Null => true,
        Value::Bool(_) | Value::Number(_) => false,
        Value::Array(xs) => {
            (!inside_array || xs.is_empty() || xs.iter().all(|x| null_like(x) && valid_target(x, true)))
                && xs.iter().all(|x| valid_target(x, true))
        }
        // within an object of conditions arrays are allowed again
        Value::Object(m) => m.values().all(|x| valid_target(x, false)),
    }
}
fn null_like(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Array(xs) => xs.iter().all(null_like),
        _ => false,
    }
}

fn exports_keys(v: &Value) -> Result<Keys, E> {
    if !valid_target(v, false) {
        return Err(E::BadField);
    }
    let mut k = Keys::default();
    match v {
        Value::Object(m) => {
            let direct = m.keys().filter(|k| k.starts_with('.') || k.starts_with('/')).count();
            if direct == 0 {
                k.main = Some(v.clone());
            } else if direct < m.len() {
                return Err(E::BadField);
            } else {
                for (key, t) in m {
                    if key.len() == 1 {
                        k.main = Some(t.clone());
                    } else if let Some(rest) = key.strip_prefix("./") {
                        k.keys.push((rest.to_string(), t.clone()));
                    } else {
                        return Err(E::BadField);
                    }
                }
            }
        }
        _ => k.main = Some(v.clone()),
    }
    Ok(k)
}
fn imports_keys(v: &Value) -> Result<Keys, E> {
    let m = match v {
        Value::Object(m) if valid_target(v, false) => m,
        _ => return Err(E::BadField),
    };
    let mut k = Keys::default();
    for (key, t) in m {
        match key.strip_prefix('#') {
            Some(rest) if !rest.is_empty() && !rest.starts_with('/') => {
                k.keys.push((rest.to_string(), t.clone()))
            }
            _ => return Err(E::BadField),
        }
    }
    Ok(k)
}

enum KeyMatch<'a> {
    Exact(&'a Value),
    Folder(&'a Value, String),
    Pattern(&'a Value, String),
}

/// `sub` is the subpath without its leading "./" or "#".
fn best_key<'a>(keys: &'a [(String, Value)], sub: &str) -> Option<KeyMatch<'a>> {
    if let Some((_, v)) = keys
        .iter()
        .find(|(k, _)| k == sub && !k.ends_with('/') && !k.ends_with('*') && !k.is_empty())
    {
        return Some(KeyMatch::Exact(v));
    }
    let mut best: Option<(usize, bool, KeyMatch<'a>)> = None;
    for (k, v) in keys {
        let (prefix, is_pattern) = match k.strip_suffix('*') {
            Some(p) => (p, true),
            None if k.is_empty() || k.ends_with('/') => (k.as_str(), false),
            None => continue,
        };
        // a folder or pattern never matches across its own last segment from outside
        if !sub.starts_with(prefix) {
            continue;
        }
        let rank = (prefix.chars().count(), is_pattern);
        if best.as_ref().map_or(true, |(l, p, _)| rank > (*l, *p)) {
            let rest = sub[prefix.len()..].to_string();
            best = Some((
                rank.0,
                rank.1,
                if is_pattern { KeyMatch::Pattern(v, rest) } else { KeyMatch::Folder(v, rest) },
            ));
        }
    }
    best.map(|(_, _, m)| m)
}

fn inside(t: &str) -> bool {
    let mut depth = 0i64;
    for s in t.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                depth -= 1;
                if depth < 0 {
                    return false;
                }
            }
            _ => depth += 1,
        }
    }
    true
}

pub struct Model<'a> {
    o: &'a Opts,
    root: PathBuf,
    enforce: bool,
    descs: RefCell<HashMap<PathBuf, Result<Rc<Desc>, E>>>,
    fuel: Cell<u32>,
    /// what the evaluation went through, for evidence and coverage
    pub tags: RefCell<BTreeMap<&'static str, u32>>,
}

impl<'a> Model<'a> {
    pub fn new(o: &'a Opts, root: &Path) -> Self {
        Model {
            o,
            root: root.to_path_buf(),
            enforce: o
                .enforce_extension
                .unwrap_or_else(|| o.extensions.iter().any(|e| e.is_empty())),
            descs: Default::default(),
            fuel: Cell::new(FUEL),
            tags: Default::default(),
        }
    }
    fn tag(&self, t: &'static str) {
        *self.tags.borrow_mut().entry(t).or_insert(0) += 1;
    }
    fn burn(&self) -> Result<(), E> {
        let f = self.fuel.get();
        if f == 0 {
            return Err(E::NoVerdict);
        }
        self.fuel.set(f - 1);
        Ok(())
    }

    // ------------------------------------------------------------ description files
    fn desc_in(&self, dir: &Path, file: PathBuf) -> Result<Rc<Desc>, E> {
        if let Some(d) = self.descs.borrow().get(dir) {
            return d.clone();
        }
        let r = self.read_desc(dir, file);
        self.descs.borrow_mut().insert(dir.to_path_buf(), r.clone());
        r
    }
    fn read_desc(&self, dir: &Path, file: PathBuf) -> Result<Rc<Desc>, E> {
        let text = fs::read_to_string(&file).map_err(|_| E::Malformed(file.clone()))?;
        let json: Value = serde_json::from_str(&text).map_err(|_| E::Malformed(file.clone()))?;
        let mut browser = vec![];
        if let Some(Value::Object(m)) = json.get("browser") {
            for (k, v) in m {
                match v {
                    Value::Bool(false) => browser.push((k.clone(), None)),
                    Value::String(s) => browser.push((k.clone(), Some(s.clone()))),
                    _ => {}
                }
            }
        }
        let field = |n: &str| json.get(n).filter(|v| !v.is_null());
        let exports = field("exports").map(exports_keys).transpose()?;
        let imports = field("imports").map(imports_keys).transpose()?;
        match json.get("sideEffects") {
            None | Some(Value::Bool(_)) => {}
            Some(Value::Array(xs)) if xs.iter().all(|x| x.is_string()) => {}
            _ => return Err(E::BadField),
        }
        Ok(Rc::new(Desc {
            dir: dir.components().collect(),
            name: json.get("name").and_then(|v| v.as_str()).map(|s| s.to_string()),
            browser,
            exports,
            imports,
            json,
        }))
    }
    fn governing(&self, p: &Path) -> Result<Option<Rc<Desc>>, E> {
        let name = match &self.o.description_file {
            Some(n) => n,
            None => return Ok(None),
        };
        let mut d = Some(p.to_path_buf());
        while let Some(dir) = d {
            let f = dir.join(name);
            if f.is_file() {
                return self.desc_in(&dir, f).map(Some);
            }
            d = up(&dir);
        }
        Ok(None)
    }
    /// (file, side effects as JSON) or nothing
    pub fn side_effects(&self, p: &Path) -> Result<Option<(PathBuf, Option<Value>)>, E> {
        Ok(self.governing(p)?.map(|d| {
            (
                d.dir.join(self.o.description_file.as_ref().unwrap()),
                d.json.get("sideEffects").cloned(),
            )
        }))
    }

    // ------------------------------------------------------------ mappings
    /// The targets a mapping value yields, in the order they are to be tried.
    fn targets(
        &self,
        v: &Value,
        rest: Option<(&str, bool)>,
        exports: bool,
        out: &mut Vec<String>,
    ) -> Result<(), E> {
        match v {
            Value::String(t) => {
                if exports
                    && (t.len() < 2 || t.starts_with('/') || (t.starts_with('.') && !t.starts_with("./")))
                {
                    return Err(E::Mapping);
                }
                let folder_target = t.ends_with('/');
                match rest {
                    None if folder_target => return Err(E::Mapping),
                    None => out.push(t.clone()),
                    // folder key
                    Some((r, true)) if folder_target => out.push(format!("{t}{r}")),
                    // pattern key
                    Some((r, false)) if !folder_target => {
                        self.tag("pattern");
                        out.push(t.split('*').collect::<Vec<_>>().join(r))
                    }
                    _ => return Err(E::Mapping),
                }
            }
            Value::Array(xs) => {
                for x in xs {
                    self.targets(x, rest, exports, out)?;
                }
            }
            Value::Object(_) => {
                if let Some(chosen) = self.condition(v)? {
                    self.targets(&chosen, rest, exports, out)?;
                }
            }
            _ => {}
        }
        Ok(())
    }
    /// First leaf (string, array or null) in written order whose conditions all hold.
    fn condition(&self, v: &Value) -> Result<Option<Value>, E> {
        let m = v.as_object().unwrap();
        let n = m.len();
        for (i, (k, t)) in m.iter().enumerate() {
            if k == "default" && i + 1 != n {
                return Err(E::Mapping);
            }
            if k == "default" || self.o.conditions.contains(k) {
                self.tag("condition");
                if t.is_object() {
                    if let Some(x) = self.condition(t)? {
                        return Ok(Some(x));
                    }
                } else {
                    return Ok(Some(t.clone()));
                }
            }
        }
        Ok(None)
    }
    fn mapped(&self, keys: &Keys, sub: Option<&str>, exports: bool) -> Result<Vec<String>, E> {
        let mut out = vec![];
        match sub {
            None => {
                if let Some(v) = &keys.main {
                    self.targets(v, None, exports, &mut out)?;
                }
            }
            Some(s) => match best_key(&keys.keys, s) {
                None => {}
                Some(KeyMatch::Exact(v)) => {
                    self.tag("exact-key");
                    self.targets(v, None, exports, &mut out)?
                }
                Some(KeyMatch::Folder(v, r)) => {
                    self.tag("folder-key");
                    self.targets(v, Some((&r, true)), exports, &mut out)?
                }
                Some(KeyMatch::Pattern(v, r)) => {
                    self.tag("pattern-key");
                    self.targets(v, Some((&r, false)), exports, &mut out)?
                }
            },
        }
        Ok(out)
    }

    // ------------------------------------------------------------ top level
    pub fn resolve(&self, base: &Path, request: &str) -> Expect {
        self.fuel.set(FUEL);
        self.tags.borrow_mut().clear();
        let req = Req::parse(request);
        let r = match &self.o.tsconfig {
            Some(t) => self.with_tsconfig(base, &req, &self.root.join(crate::core::os(t))),
            None => self.request(base, &req),
        };
        match r {
            Ok(Found::Ignored) => Expect::Ignored,
            Ok(Found::File(p, q)) => {
                let path = if self.o.symlinks {
                    match p.canonicalize() {
                        Ok(p) => p,
                        Err(_) => return Expect::Err(E::NoVerdict),
                    }
                } else {
                    as_found(&p)
                };
                Expect::File { path, query: q.query, fragment: q.fragment }
            }
            Err(e) => Expect::Err(e),
        }
    }

    fn request(&self, base: &Path, req: &Req) -> Result<Found, E> {
        let r = self.request_steps(base, req);
        match r {
            Ok(Some(f)) => Ok(f),
            Ok(None) | Err(E::Soft) => {
                Err(E::NotFound(format!("Resolve '{}' failed in '{}'", req.text(), base.display())))
            }
            Err(e) => Err(e),
        }
    }

    fn request_steps(&self, base: &Path, req: &Req) -> Res {
        self.burn()?;
        // 1. aliases
        if !base.display().to_string().contains("node_modules") {
            for (from, to) in &self.o.alias {
                let from = crate::core::subst(from, &self.root);
                if !req.target.starts_with(from.as_str()) {
                    continue;
                }
                let to = match to {
                    None => {
                        self.tag("alias-ignored");
                        return Ok(Some(Found::Ignored));
                    }
                    Some(t) => crate::core::subst(t, &self.root),
                };
                if req.target.starts_with(&to) {
                    continue;
                }
                self.tag("alias");
                let rewritten = format!("{to}{}", &req.target[from.len()..]);
                let r = req.hop(req.to(&rewritten))?;
                match self.request(base, &r) {
                    Ok(f) => return Ok(Some(f)),
                    Err(E::Recursion) => return Err(E::Recursion),
                    Err(E::NoVerdict) => return Err(E::NoVerdict),
                    Err(_) => self.tag("alias-fell-through"),
                }
            }
        }
        // 2. prefer_relative
        if self.o.prefer_relative && matches!(req.kind(), Kind::Bare | Kind::Internal) {
            match self.request(base, &req.to(&format!("./{}", req.target))) {
                Ok(f) => {
                    self.tag("prefer-relative");
                    return Ok(Some(f));
                }
                Err(E::Recursion) => return Err(E::Recursion),
                Err(E::NoVerdict) => return Err(E::NoVerdict),
                Err(_) => {}
            }
        }
        // 3. the governing description file: of the importer for bare requests, of the file otherwise
        let desc = match req.kind() {
            Kind::Bare => self.governing(base)?,
            _ => self.governing(&at(base, &req.target))?,
        };
        let (b, r) = self.imports(&desc, base, req)?;
        let (b, r) = match self.browser(&desc, &b, &r)? {
            Step::Done(f) => return Ok(Some(f)),
            Step::Go(b, r) => (b, r),
        };
        self.by_kind(&b, &r)
    }

    fn by_kind(&self, base: &Path, req: &Req) -> Res {
        match req.kind() {
            Kind::Relative | Kind::Absolute => {
                if let Some(f) = self.file(base, req) {
                    return Ok(Some(f));
                }
                self.dir(base, req, &mut HashSet::new())
            }
            _ => self.modules(base, req),
        }
    }

    /// exact file, then the extensions
    fn file(&self, base: &Path, req: &Req) -> Option<Found> {
        let p = at(base, &req.target);
        if !self.enforce && p.is_file() {
            return Some(Found::File(p, req.clone()));
        }
        self.o
            .extensions
            .iter()
            .map(|e| with_ext(&p, e))
            .find(|p| p.is_file())
            .map(|p| {
                self.tag("extension");
                Found::File(p, req.clone())
            })
    }

    fn dir(&self, base: &Path, req: &Req, seen: &mut HashSet<PathBuf>) -> Res {
        self.burn()?;
        let dir = at(base, &req.target);
        if !dir.is_dir() {
            return Err(E::Soft);
        }
        if !seen.insert(dir.canonicalize().unwrap_or_else(|_| dir.clone())) {
            return Err(E::Soft);
        }
        let desc = self.governing(&dir)?;
        self.tag("directory");
        let stop = |r: &Res| {
            matches!(r, Ok(Some(_)) | Err(E::Recursion) | Err(E::NoVerdict))
        };
        if let Some(d) = desc.as_ref().filter(|d| d.dir == dir) {
            for f in &self.o.main_fields {
                let v = match d.json.get(f).and_then(|v| v.as_str()) {
                    Some(v) => v,
                    None => continue,
                };
                if v == "." || v == "./" {
                    break;
                }
                self.tag("main-field");
                let t = if v.starts_with("./") { v.to_string() } else { format!("./{v}") };
                let r = self.entry(&desc, &dir, &req.to(&t), Some(seen));
                if stop(&r) {
                    return r;
                }
            }
        }
        for f in &self.o.main_files {
            let r = self.entry(&desc, &dir, &req.to(&format!("./{f}")), None);
            if stop(&r) {
                self.tag("main-file");
                return r;
            }
        }
        Ok(None)
    }
    /// A main field (as file or directory) or main file (as file) of a directory.
    fn entry(
        &self,
        desc: &Option<Rc<Desc>>,
        dir: &Path,
        req: &Req,
        as_dir: Option<&mut HashSet<PathBuf>>,
    ) -> Res {
        let (b, r) = match self.browser(desc, dir, req)? {
            Step::Done(f) => return Ok(Some(f)),
            Step::Go(b, r) => (b, r),
        };
        if r.kind() == Kind::Bare {
            return self.modules(&b, &r);
        }
        if let Some(f) = self.file(&b, &r) {
            return Ok(Some(f));
        }
        match as_dir {
            Some(seen) => self.dir(&b, &r, seen),
            None => Ok(None),
        }
    }

    fn browser(&self, desc: &Option<Rc<Desc>>, base: &Path, req: &Req) -> Result<Step, E> {
        let go = Step::Go(base.to_path_buf(), req.clone());
        let d = match desc {
            Some(d) if self.o.browser_field => d,
            _ => return Ok(go),
        };
        let bare = req.kind() == Kind::Bare;
        let here = at(base, &req.target);
        let hit = d.browser.iter().find(|(k, _)| {
            if bare {
                *k == req.target
            } else {
                let listed = d.dir.join(k);
                listed == here || self.o.extensions.iter().any(|e| listed == with_ext(&here, e))
            }
        });
        let mut to = match hit {
            None => return Ok(go),
            Some((_, t)) => t.clone(),
        };
        self.tag("browser");
        // follow the chain to its end; where a cycle of several entries leads is left open
        let listed: HashMap<&String, &Option<String>> =
            d.browser.iter().map(|(k, t)| (k, t)).collect();
        let mut seen: Vec<String> = vec![];
        loop {
            let next = match &to {
                None => break,
                Some(t) => match listed.get(t) {
                    None => break,
                    Some(n) if *n == &to => break,
                    Some(_) if seen.contains(t) => {
                        self.tag("browser-cycle");
                        return Err(E::NoVerdict);
                    }
                    Some(n) => {
                        seen.push(t.clone());
                        (*n).clone()
                    }
                },
            };
            self.tag("browser-chain");
            to = next;
        }
        match to {
            None => {
                self.tag("browser-ignored");
                Ok(Step::Done(Found::Ignored))
            }
            Some(t) => Ok(Step::Go(d.dir.clone(), req.hop(req.to(&t))?)),
        }
    }

    fn imports(
        &self,
        desc: &Option<Rc<Desc>>,
        base: &Path,
        req: &Req,
    ) -> Result<(PathBuf, Req), E> {
        let (mut b, mut r) = (base.to_path_buf(), req.clone());
        let (d, keys) = match desc {
            Some(d) => match &d.imports {
                Some(k) => (d, k),
                None => return Ok((b, r)),
            },
            None => return Ok((b, r)),
        };
        while r.target.starts_with('#') {
            let sub = &r.target[1..];
            if sub.is_empty() || sub.starts_with('/') || sub.ends_with('/') {
                return Err(E::Mapping);
            }
            self.tag("imports");
            let list = self.mapped(keys, Some(sub), false)?;
            let item = match list.first() {
                Some(i) => i,
                None => return Err(E::NotExported(r.target.clone())),
            };
            let next = r.hop(Req::parse(item))?;
            b = d.dir.clone();
            match next.kind() {
                Kind::Bare => {
                    self.tag("imports-bare");
                    return Ok((b, next));
                }
                Kind::Internal => r = next,
                _ => {
                    if at(&b, &next.target).is_file() && inside(&next.target) {
                        return Ok((b, next));
                    }
                    return Err(E::NotExported(r.target.clone()));
                }
            }
        }
        Ok((b, r))
    }

    // ------------------------------------------------------------ node_modules
    fn package_name(t: &str) -> &str {
        let want = if t.starts_with('@') { 2 } else { 1 };
        let mut seen = 0;
        for (i, c) in t.char_indices() {
            if c == '/' {
                seen += 1;
                if seen == want {
                    return &t[..i];
                }
            }
        }
        t
    }

    fn modules(&self, base: &Path, req: &Req) -> Res {
        let mut level = Some(base.to_path_buf());
        while let Some(dir) = level {
            match self.level(&dir, req) {
                Ok(Some(f)) => return Ok(Some(f)),
                Ok(None) | Err(E::Soft) => {}
                Err(e) => return Err(e),
            }
            level = up(&dir);
        }
        Err(E::Soft)
    }

    /// One node_modules directory.
    fn level(&self, dir: &Path, req: &Req) -> Res {
        self.burn()?;
        let nm = dir.join("node_modules");
        if !nm.is_dir() {
            return Ok(None);
        }
        let name = Self::package_name(&req.target);
        let pkg_dir = nm.join(name);
        let desc = self.governing(&pkg_dir)?;
        let own_name = desc.as_ref().and_then(|d| d.name.clone());
        let is_self = own_name.as_ref().map_or(false, |n| {
            req.target == *n || req.target.starts_with(&format!("{n}/"))
        });
        if is_self && own_name.as_ref().map_or(false, |n| n.starts_with('@') && !n.contains('/')) {
            // a scope is not the name of a package
            return Err(E::NoVerdict);
        }
        if !pkg_dir.is_dir() && !is_self {
            return Ok(self.file(&nm, req));
        }
        let mut b = nm.clone();
        let mut r = req.clone();
        if let Some(d) = desc.as_ref().filter(|d| {
            req.kind() == Kind::Bare && (is_self || d.dir == pkg_dir)
        }) {
            if let Some(keys) = &d.exports {
                self.tag("exports");
                let (nb, nr) = self.exports(d, keys, req)?;
                b = nb;
                r = nr;
            }
        }
        let desc = self.governing(&at(&b, &r.target))?;
        if matches!(r.kind(), Kind::Bare | Kind::Internal) {
            r = r.to(&format!("./{}", r.target));
        }
        let (b, r) = match self.browser(&desc, &b, &r)? {
            Step::Done(f) => return Ok(Some(f)),
            Step::Go(b, r) => (b, r),
        };
        self.tag("node_modules");
        self.by_kind(&b, &r)
    }

    fn exports(&self, d: &Desc, keys: &Keys, req: &Req) -> Result<(PathBuf, Req), E> {
        // what follows the package name
        let unscoped = if req.target.starts_with('@') {
            match req.target.find('/') {
                Some(i) => &req.target[i + 1..],
                None => return Err(E::Soft),
            }
        } else {
            &req.target
        };
        let tail = format!("{}{}", req.query, req.fragment);
        let sub = match unscoped.find('/') {
            Some(i) => Some(format!("{}{tail}", &unscoped[i + 1..])),
            None if tail.is_empty() => None,
            None => Some(tail),
        };
        let list = match &sub {
            None => self.mapped(keys, None, true)?,
            Some(s) if s.is_empty() || s.ends_with('/') => return Err(E::Mapping),
            Some(s) => self.mapped(keys, Some(s), true)?,
        };
        for t in &list {
            let r = Req { hops: req.hops, ..Req::parse(t) };
            if at(&d.dir, &r.target).is_file() && inside(&r.target) {
                return Ok((d.dir.clone(), r));
            }
        }
        Err(E::NotExported(req.target.clone()))
    }

    // ------------------------------------------------------------ tsconfig
    fn read_tsconfig(&self, file: &Path, chain: &mut Vec<PathBuf>) -> Result<(Option<Value>, Option<PathBuf>, Value), E> {
        let real = file.canonicalize().map_err(|_| E::Malformed(file.to_path_buf()))?;
        if chain.contains(&real) {
            return Err(E::Recursion);
        }
        chain.push(real);
        let text = fs::read_to_string(file).map_err(|_| E::Malformed(file.to_path_buf()))?;
        let json: Value = serde_json::from_str(&strip_jsonc(&text))
            .map_err(|_| E::Malformed(file.to_path_buf()))?;
        let dir = file.parent().unwrap().to_path_buf();
        let mut co = json.get("compilerOptions").cloned().unwrap_or(Value::Null);
        // directory the base url (own or inherited) is relative to
        let own = |co: &Value, k: &str| co.get(k).filter(|v| !v.is_null()).cloned();
        let mut base_dir = own(&co, "baseUrl").map(|_| dir.clone());
        if let Some(Value::String(e)) = json.get("extends") {
            match self.request(&dir, &Req::parse(e)) {
                Ok(Found::Ignored) => return Err(E::Mapping),
                Ok(Found::File(p, _)) => {
                    self.tag("extends");
                    let (pco, pdir, _) = self.read_tsconfig(&p, chain)?;
                    let pco = pco.unwrap_or(Value::Null);
                    if co.is_null() {
                        co = Value::Object(Default::default());
                    }
                    if let Some(m) = co.as_object_mut() {
                        for k in ["baseUrl", "paths"] {
                            let mine = m.get(k).map_or(false, |v| !v.is_null());
                            if !mine {
                                if let Some(v) = pco.get(k) {
                                    m.insert(k.into(), v.clone());
                                    if k == "baseUrl" {
                                        base_dir = pdir.clone();
                                    }
                                }
                            }
                        }
                    }
                }
                Err(E::NoVerdict) => return Err(E::NoVerdict),
                Err(_) => {}
            }
        }
        Ok((Some(co), base_dir, json))
    }

    fn with_tsconfig(&self, base: &Path, req: &Req, file: &Path) -> Result<Found, E> {
        let (co, base_dir, _) = self.read_tsconfig(file, &mut vec![])?;
        let co = co.unwrap_or(Value::Null);
        let base_url = match co.get("baseUrl") {
            None | Some(Value::Null) => None,
            Some(Value::String(s)) => Some(base_dir.unwrap_or_default().join(s)),
            _ => return Err(E::BadField),
        };
        let mut paths: Vec<(String, Vec<String>)> = vec![];
        match co.get("paths") {
            None | Some(Value::Null) => {}
            Some(Value::Object(m)) => {
                for (k, v) in m {
                    let xs = v.as_array().ok_or(E::BadField)?;
                    let xs: Option<Vec<String>> =
                        xs.iter().map(|x| x.as_str().map(|s| s.to_string())).collect();
                    paths.push((k.clone(), xs.ok_or(E::BadField)?));
                }
            }
            _ => return Err(E::BadField),
        }
        if let (Some(base_url), true) = (base_url, req.kind() != Kind::Relative) {
            // longest literal prefix first
            let plen = |k: &String| k.split('*').next().unwrap().len();
            paths.sort_by(|a, b| plen(&b.0).cmp(&plen(&a.0)).then(a.0.cmp(&b.0)));
            for (k, locations) in &paths {
                let star = if *k == req.target {
                    String::new()
                } else {
                    match k.split_once('*') {
                        Some((pre, post))
                            if req.target.starts_with(pre)
                                && req.target.ends_with(post)
                                && (*k == "*" || req.target.len() >= k.len()) =>
                        {
                            req.target[pre.len()..req.target.len() - post.len()].to_string()
                        }
                        _ => continue,
                    }
                };
                self.tag("tsconfig-paths");
                for pattern in locations {
                    let l = pattern.replace('*', &star);
                    // `*` stands for nothing but itself in the base directory
                    let p = if pattern.starts_with('/') {
                        PathBuf::from(l)
                    } else {
                        let mut t = base_url.join("").into_os_string();
                        t.push(l);
                        PathBuf::from(t)
                    };
                    match self.request(&p, &req.to("")) {
                        Ok(f) => return Ok(f),
                        Err(E::NoVerdict) => return Err(E::NoVerdict),
                        Err(_) => self.tag("tsconfig-fell-through"),
                    }
                }
            }
        }
        self.request(base, req)
    }
}

/// Comments and trailing commas out, everything else as it is.
pub fn strip_jsonc(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out: Vec<char> = vec![];
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '"' => {
                out.push('"');
                i += 1;
                while i < c.len() {
                    out.push(c[i]);
                    if c[i] == '\\' && i + 1 < c.len() {
                        out.push(c[i + 1]);
                        i += 2;
                        continue;
                    }
                    i += 1;
                    if c[i - 1] == '"' {
                        break;
                    }
                }
            }
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) {
                    i += 1;
                }
                i += 2;
                out.push(' ');
            }
            ch @ ('}' | ']') => {
                while out.last().map_or(false, |x| x.is_whitespace()) {
                    out.pop();
                }
                if out.last() == Some(&',') {
                    out.pop();
                }
                out.push(ch);
                i += 1;
            }
            ch => {
                out.push(ch);
                i += 1;
            }
        }
    }
    out.into_iter().collect()
}
