//! Oracles: one `check` per property, run on a generated (or replayed) case.
use crate::core::*;
use crate::gen::{self, Call, Case, Knobs, G, PLAIN};
use crate::model::{self, Expect, Kind, Model, E};
use nodejs_resolver::{ResolveResult, Resolver, ResolverCache};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub hashes: HashSet<u64>,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}
impl Obs {
    pub fn tag(&mut self, t: &str) {
        self.add(t, 1)
    }
    pub fn add(&mut self, t: &str, n: u64) {
        match self.tags.get_mut(t) {
            Some(x) => *x += n,
            None => {
                self.tags.insert(t.to_string(), n);
            }
        }
    }
    fn out(&mut self, o: &Out) {
        self.tag(match o {
            Out::File { .. } => "outcome:file",
            Out::Ignored => "outcome:ignored",
            Out::Err(_) => "outcome:error",
            Out::Panic(_) => "outcome:panic",
        })
    }
    fn nontrivial(&mut self, h: u64) -> bool {
        self.hashes.insert(h)
    }
    fn sample(&mut self, f: impl FnOnce() -> Value) {
        // spread over the run: 1st, 10th, 100th, ...
        let n = self.hashes.len();
        if self.samples.len() < 6 && (n == 1 || n == 10 || n == 100 || n == 1000 || n == 10000) {
            let v = f();
            if v.to_string().len() < 6000 {
                self.samples.push(v);
            }
        }
    }
}

pub fn hash_of(parts: &[&dyn ToHash]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for p in parts {
        p.feed(&mut h);
    }
    h.finish()
}
pub trait ToHash {
    fn feed(&self, h: &mut std::collections::hash_map::DefaultHasher);
}
impl<T: Hash> ToHash for T {
    fn feed(&self, h: &mut std::collections::hash_map::DefaultHasher) {
        self.hash(h)
    }
}
fn case_hash(c: &Case) -> u64 {
    let w = c.world.to_json().to_string();
    let o = c.opts.to_json().to_string();
    hash_of(&[&w.as_str(), &o.as_str()])
}

pub fn wipe(root: &Path) {
    let _root = User::enter(0);
    if let Ok(m) = fs::symlink_metadata(root) {
        if m.is_dir() {
            let _ = fs::remove_dir_all(root);
        } else {
            let _ = fs::remove_file(root);
        }
    }
}
pub fn fresh_root(root: &Path, w: &World) {
    wipe(root);
    w.materialize(root);
}

pub type Verdict = Result<(), String>;

fn call_text(c: &Call) -> String {
    if c.se {
        format!("load_side_effects({:?})", c.base)
    } else {
        format!("resolve({:?}, {:?})", c.base, c.req)
    }
}
fn req_of(c: &Call, root: &Path) -> String {
    subst(&c.req, root)
}

/// Any answer of any call, as text.
fn do_call(r: &Resolver, root: &Path, c: &Call) -> String {
    let b = base_path(root, &c.base);
    if c.se {
        side_effects(r, &b).short(root)
    } else {
        resolve(r, &b, &req_of(c, root)).short(root)
    }
}
/// Spelling of paths within texts: "/./" and "//" mean "/".
fn norm_text(s: &str) -> String {
    let mut t = s.to_string();
    loop {
        let u = t.replace("/./", "/").replace("//", "/");
        if u == t {
            return t;
        }
        t = u;
    }
}

// ==================================================================== generation
pub fn generate(prop: &str, mut r: Rng) -> Case {
    let sizes = match prop {
        "C02" => 30,
        "C16" | "C18" => 0,
        _ => 4,
    };
    let sizes = if std::env::var_os("MON_BIG").is_some() { 1000 } else { sizes };
    if r.below(1000) < sizes {
        let mut c = crate::big::big(r, prop);
        if prop == "C19" {
            // the same, missing
            for x in c.calls.clone().iter().filter(|x| !x.se).take(4) {
                let (target, rest) = x.req.split_at(x.req.get(1..).and_then(|t| t.find(['?', '#'])).map_or(x.req.len(), |i| i + 1));
                c.calls.push(Call { req: format!("{target}-missing{rest}"), ..x.clone() });
                c.calls.push(Call { req: format!("./missing/{rest}"), ..x.clone() });
            }
            c.calls.retain(|x| !x.se);
        }
        if prop == "C15" {
            c.extra = json!({ "alts": [], "seed": 1 });
        }
        return c;
    }
    match prop {
        "C01" => {
            let mut g = G::new(r);
            g.mixed(24);
            if g.p(60) {
                g.links(3);
            }
            g.maybe_symlinks_off(50);
            if g.p(25) {
                g.special_files(3);
            }
            for i in 0..g.calls.len() {
                if g.p(10) {
                    let b = g.calls[i].base.clone();
                    let climbs = g.of(&["", "", "./", "../w/", "a/../"]);
                    g.calls[i].base = format!("{{REL}}{climbs}{}", if b.is_empty() && climbs.is_empty() { "." } else { &b });
                }
            }
            g.case(prop)
        }
        "C02" => hostile(r),
        "C15" => {
            let mut g = G::new(r);
            g.mixed(20);
            share_fields(&mut g);
            let mut alts = vec![];
            for _ in 0..1 + g.r.below(3) {
                alts.push(alt_opts(&mut g).to_json());
            }
            second_descs(&mut g);
            g.extra = json!({ "alts": alts, "seed": g.r.next() >> 12 });
            for b in g.w.dirs() {
                if g.p(20) {
                    g.calls.push(Call { base: b, req: String::new(), se: true });
                }
            }
            g.case(prop)
        }
        "C16" => history(r),
        "C17" => {
            let mut g = G::new(r);
            g.mixed(16);
            g.extra = json!({ "seed": g.r.next() >> 12 });
            g.case(prop)
        }
        "C18" => {
            let mut g = G::new(r);
            g.mixed(24);
            share_fields(&mut g);
            second_descs(&mut g);
            let alts: Vec<Value> = (0..2).map(|_| alt_opts(&mut g).to_json()).collect();
            let churn = g.p(50);
            g.extra = json!({ "alts": alts, "seed": g.r.next() >> 12, "churn": churn });
            g.case(prop)
        }
        "C19" => {
            let which = ["", "", "C07", "C09", "C10", "C14", "C12", "C13", "C08"];
            let p = which[r.below(which.len())];
            let mut c = gen::generate(p, r.fork());
            if r.pct(20) {
                // some description file is broken
                let descs: Vec<String> =
                    c.world.entries.iter().filter(|(k, n)| k.ends_with("package.json") && matches!(n, Node::File(_))).map(|(k, _)| k.clone()).collect();
                if !descs.is_empty() {
                    let d = r.pick(&descs).clone();
                    let t = *r.pick(&["{", "", "{\"a\":}", "nope", "{} x"]);
                    c.world.entries.insert(d, Node::File(t.to_string()));
                }
            }
            c.calls.retain(|x| !x.se);
            if r.pct(3) {
                let n = *r.pick(&[200, 1000, 2001, 5000, 66_000]);
                for x in c.calls.iter_mut() {
                    if r.pct(60) {
                        continue;
                    }
                    x.req.push_str(&format!("{}{}", *r.pick(&["?", "#", "", "/"]), if n > 3000 { *r.pick(&["q", "é", "\t"]) } else { *r.pick(&["q", "é", "a/", "\t"]) }.repeat(n)));
                }
            }
            c.prop = prop.into();
            c
        }
        "C20" => {
            let mut g = G::new(r);
            g.mixed(16);
            if g.p(50) {
                g.links(2);
            }
            for b in g.w.dirs() {
                if g.p(15) {
                    g.calls.push(Call { base: b, req: String::new(), se: true });
                }
            }
            g.case(prop)
        }
        "C21" => {
            let mut g = G::new(r);
            if g.p(50) {
                g.mixed(20);
            } else {
                // linked packages, as package managers lay them out
                let dirs = g.dirs_below("", 2);
                let k = Knobs { exports: 25, browser: 15, imports: 10, ..PLAIN };
                let top = g.of(&["store", "store", ".pnpm", "node_modules/.pnpm", "node_modules/.store", ".yarn/unplugged", "node_modules", "pkgs", ".cache/_x"]).to_string();
                for p in ["p", "q", "@s/p"] {
                    let store = match g.r.below(3) {
                        0 => format!("{top}/{}", p.replace('@', "at-").replace('/', "+")),
                        1 => format!("{top}/{p}/1.0.0"),
                        _ => format!("{top}/{}@1/node_modules/{p}", p.replace('/', "+")),
                    };
                    if g.w.dirs().contains(&store) || g.w.entries.contains_key(&store) {
                        continue;
                    }
                    g.package(&store, &k);
                    for d in &dirs {
                        if g.p(50) {
                            let at = if d.is_empty() { format!("node_modules/{p}") } else { format!("{d}/node_modules/{p}") };
                            if g.w.entries.contains_key(&at) || g.w.dirs().contains(&at) {
                                continue;
                            }
                            let t = if g.p(50) { format!("{{ROOT}}/{store}") } else {
                                let parent = at.rsplit_once('/').unwrap().0.to_string();
                                let t = gen::rel(&parent, &store);
                                t.strip_prefix("./").map(String::from).unwrap_or(t)
                            };
                            g.w.link(&at, &t);
                        }
                    }
                }
                for d in &dirs {
                    g.files_in(d, 3);
                }
                g.o.browser_field = g.p(30);
                g.ext_options();
                g.exports_calls(5);
                g.cap_calls(10);
                g.near_calls(10, "bbbrra", 5);
                let ls: Vec<String> = g.w.entries.iter().filter(|(_, n)| matches!(n, Node::Link(_))).map(|(k, _)| k.clone()).collect();
                for l in ls {
                    if let Some((top, name)) = l.rsplit_once("node_modules/") {
                        let (top, name) = (top.trim_end_matches('/').to_string(), name.to_string());
                        g.call(&top, &name);
                        let t = g.of(&["/x", "/index", "/lib/x", "/x.js", "/main"]);
                        g.call(&top, &format!("{name}{t}"));
                    }
                }
            }
            g.links(3);
            g.case(prop)
        }
        "C24" => {
            let mut g = G::new(r);
            g.mixed(16);
            g.extra = json!({ "seed": g.r.next() >> 12 });
            g.case(prop)
        }
        _ => gen::generate(prop, r),
    }
}

fn shuffle_keys(v: &mut Value, r: &mut Rng) {
    match v {
        Value::Object(m) => {
            let mut es: Vec<(String, Value)> = std::mem::take(m).into_iter().collect();
            r.shuffle(&mut es);
            for (_, x) in es.iter_mut() {
                shuffle_keys(x, r);
            }
            *m = es.into_iter().collect();
        }
        Value::Array(a) => a.iter_mut().for_each(|x| shuffle_keys(x, r)),
        _ => {}
    }
}
/// changes one string somewhere
fn tweak_leaf(v: &mut Value, r: &mut Rng) -> bool {
    match v {
        Value::Object(m) => {
            let n = m.len();
            if n == 0 {
                return false;
            }
            let i = if n > 8 { n - 1 - r.below(4) } else { r.below(n) };
            m.iter_mut().nth(i).map_or(false, |(_, x)| tweak_leaf(x, r))
        }
        Value::Array(a) => {
            let n = a.len();
            if n == 0 {
                return false;
            }
            let i = r.below(n);
            tweak_leaf(&mut a[i], r)
        }
        Value::String(t) => {
            *t = if t.ends_with('*') { "./*".into() } else if t.ends_with('/') { "./".into() } else { r.pick(&["./x.js", "./y.js", "./lib/x.js"]).to_string() };
            true
        }
        _ => false,
    }
}
/// files for the targets in `v`, a field of the description file `desc`
fn file_too(g: &mut G, v: &Value, desc: &str) {
    match v {
        Value::String(t) if t.starts_with("./") && !t.contains("..") && !t.ends_with('/') && !t.contains("//") => {
            let d = desc.rsplit_once('/').map_or("", |x| x.0).to_string();
            let t = t[2..].replace('*', "x");
            if g.p(60) && !t.is_empty() && !t.split('/').any(|x| x.is_empty() || x == "." || x.len() > 200) {
                let p = if d.is_empty() { t } else { format!("{d}/{t}") };
                if !g.w.entries.contains_key(&p) {
                    g.w.file(&p, "");
                }
            }
        }
        Value::Array(xs) => xs.iter().for_each(|x| file_too(g, x, desc)),
        Value::Object(m) => m.values().for_each(|x| file_too(g, x, desc)),
        _ => {}
    }
}
/// packages whose fields have equal contents, also across fields
fn share_fields(g: &mut G) {
    let n = g.desc_name();
    let descs: Vec<String> = g.w.entries.keys().filter(|k| **k == n || k.ends_with(&format!("/{n}"))).cloned().collect();
    if descs.len() < 2 {
        return;
    }
    let read = |g: &G, k: &str| -> Option<Map<String, Value>> {
        match g.w.entries.get(k) {
            Some(Node::File(t)) => serde_json::from_str::<Value>(t).ok().and_then(|v| v.as_object().cloned()),
            _ => None,
        }
    };
    for _ in 0..3 {
        let a = descs[g.r.below(descs.len())].clone();
        let b = descs[g.r.below(descs.len())].clone();
        let (f, t) = *g.r.pick(&[("exports", "exports"), ("imports", "imports"), ("imports", "exports"), ("exports", "imports"), ("browser", "browser")]);
        if let (Some(ma), Some(mut mb)) = (read(g, &a), read(g, &b)) {
            if let Some(v) = ma.get(f) {
                let mut v = v.clone();
                let mut ma = ma.clone();
                // much in common before what differs
                if let (Value::Object(m), true) = (&v, g.p(30)) {
                    if m.keys().all(|k| k.starts_with(['.', '#'])) && !m.is_empty() {
                        let lead = if f == "imports" { "#" } else { "./" };
                        let n = 4 + g.r.below(60);
                        let mut long: Map<String, Value> = (0..n).map(|i| (format!("{lead}zzz{i}"), Value::String(format!("./zzz/{i}.js")))).collect();
                        long.extend(m.clone());
                        v = Value::Object(long);
                        ma.insert(f.into(), v.clone());
                        g.w.entries.insert(a.clone(), Node::File(Value::Object(ma.clone()).to_string()));
                    }
                }
                // equal up to the order of keys, or up to one target
                match g.r.below(8) {
                    5 => {
                        // up to letter case
                        let text = v.to_string();
                        let at: Vec<usize> = text.match_indices(|c: char| c.is_alphabetic() && "xyplmdé".contains(c)).map(|m| m.0).collect();
                        if !at.is_empty() {
                            let i = at[g.r.below(at.len())];
                            let c = text[i..].chars().next().unwrap();
                            let n = if g.p(50) { c.to_uppercase().to_string() } else { ["X", "é", "e"][g.r.below(3)].to_string() };
                            v = serde_json::from_str(&format!("{}{n}{}", &text[..i], &text[i + c.len_utf8()..])).unwrap_or(v);
                            file_too(g, &v, &b);
                        }
                    }
                    6 => {
                        // up to a sign
                        let text = v.to_string();
                        let (old, new) = *g.r.pick(&[("./", "/"), ("./", "."), ("./", "././"), (".js", ""), ("/", "//"), ("*", ""), ("\"", "\" "), ("#", "##"), ("null", "\"null\""), ("default", "node"), ("[", "[[]")]);
                        let at: Vec<usize> = text.match_indices(old).map(|m| m.0).collect();
                        if !at.is_empty() {
                            let i = at[g.r.below(at.len())];
                            v = serde_json::from_str(&format!("{}{new}{}", &text[..i], &text[i + old.len()..])).unwrap_or(v);
                        }
                    }
                    7 => {
                        // up to its shape
                        v = match (v, g.r.below(3)) {
                            (Value::Object(m), 0) if m.values().any(|x| x.is_string()) => {
                                Value::Object(m.into_iter().map(|(k, x)| (k, if x.is_string() { json!([x]) } else { x })).collect())
                            }
                            (Value::Object(m), 1) => Value::Object(m.into_iter().rev().collect()),
                            (Value::Object(m), _) => {
                                let n = m.len();
                                Value::Object(m.into_iter().take(n.max(2) - 1).collect())
                            }
                            (x, 0) => json!([x]),
                            (x, 1) => json!({ "default": x }),
                            (x, _) => json!({ ".": x }),
                        };
                    }
                    0 | 1 => shuffle_keys(&mut v, &mut g.r),
                    2 => {
                        tweak_leaf(&mut v, &mut g.r);
                    }
                    3 => {
                        // of the same length
                        let text = v.to_string();
                        let at: Vec<usize> = ["./x", "./y", "/x.", "/y."].iter().flat_map(|w| text.match_indices(w).map(|m| m.0)).collect();
                        if !at.is_empty() {
                            let i = at[g.r.below(at.len())];
                            let w = text[i..].find(['x', 'y']).unwrap() + i;
                            let c = if &text[w..w + 1] == "x" { "y" } else { "x" };
                            v = serde_json::from_str(&format!("{}{c}{}", &text[..w], &text[w + 1..])).unwrap_or(v);
                        }
                    }
                    _ => {}
                }
                if let Value::Object(m) = &v {
                    let keys: Vec<String> = m.keys().filter(|k| !k.contains("zzz")).cloned().collect();
                    for desc in [&a, &b] {
                        let d = desc.rsplit_once('/').map_or("", |x| x.0).to_string();
                        for k in keys.iter().take(6) {
                            let k = k.replace('*', "x");
                            let (base, req) = match (t, d.rsplit_once("node_modules/")) {
                                ("exports", Some((up, name))) => (up.trim_end_matches('/').to_string(), if k.starts_with('.') { format!("{name}{}", &k[1..]) } else { name.to_string() }),
                                _ => (d.clone(), k),
                            };
                            g.calls.push(Call { base, req, se: false });
                        }
                    }
                }
                mb.insert(t.into(), v);
                if g.p(50) {
                    for x in ["name", "version"] {
                        match ma.get(x) {
                            Some(v) => mb.insert(x.into(), v.clone()),
                            None => mb.shift_remove(x),
                        };
                    }
                }
                g.w.entries.insert(b.clone(), Node::File(Value::Object(mb).to_string()));
            }
        }
    }
}
/// description files under another name next to the first ones
fn second_descs(g: &mut G) {
    let dirs = g.w.dirs();
    let k = Knobs { exports: 40, browser: 30, imports: 30, main: 60, side: 40, ..PLAIN };
    for d in dirs {
        if g.p(25) {
            let m = g.desc_fields(&d, &k);
            let p = if d.is_empty() { "pkg.json".to_string() } else { format!("{d}/pkg.json") };
            g.w.json(&p, &Value::Object(m));
        }
    }
}
fn alt_opts(g: &mut G) -> Opts {
    let keep = g.o.clone();
    if g.p(60) {
        g.o.description_file = g.r.pick(&[None, Some("pkg.json".to_string()), Some("package.json".to_string())]).clone();
    }
    if g.p(50) {
        g.o.browser_field = !g.o.browser_field;
    }
    g.opt_conditions();
    if g.p(50) {
        g.opt_main_fields();
    }
    if g.p(30) {
        g.o.enforce_extension = None;
        g.ext_options();
    }
    if g.p(30) {
        g.o.symlinks = !g.o.symlinks;
    }
    if g.p(20) {
        g.o.prefer_relative = !g.o.prefer_relative;
    }
    if g.p(30) {
        g.o.alias.clear();
        if g.p(50) {
            g.alias_list();
        }
    }
    std::mem::replace(&mut g.o, keep)
}

// -------------------------------------------------------------------- C02: hostile inputs
const NASTY: [&str; 28] = [
    "", ".", "..", "/", "//", "*", "#", "?", "@", "@/", "$", "$&", "\\", ":", "é", "😀", "\u{0}", " ", "\u{202e}", "%2e",
    "~", "node_modules", "package.json", "./", "../", "a\nb", "T0", "{FF}",
];
fn nasty(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(5) {
            0 => s.push_str(*r.pick(&["x", "p", "a", "lib", "index", ".js", "/x", "p/"])),
            1 => s.push(char::from_u32(r.below(0x300) as u32).unwrap_or('x')),
            2 => s.push('/'),
            _ => s.push_str(*r.pick(&NASTY)),
        }
    }
    s
}
fn nasty_json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth > 4 { 6 } else { 10 }) {
        0 => Value::Null,
        1 => json!(r.pct(50)),
        2 => json!(*r.pick(&[0i64, -1, 1 << 53, i64::MAX])),
        3 => json!(1.5),
        4 | 5 => json!(nasty(r, 3)),
        6 | 7 => {
            let n = r.below(4);
            Value::Array((0..n).map(|_| nasty_json(r, depth + 1)).collect())
        }
        _ => {
            let mut m = Map::new();
            for _ in 0..r.below(5) {
                let k = match r.below(4) {
                    0 => nasty(r, 3),
                    1 => format!("./{}", nasty(r, 2)),
                    2 => format!("#{}", nasty(r, 2)),
                    _ => r.pick(&["node", "default", ".", "./x", "./*", "./lib/", "#x", "#x/*", "import", "p"]).to_string(),
                };
                m.insert(k, nasty_json(r, depth + 1));
            }
            Value::Object(m)
        }
    }
}
fn mutate_text(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(3) {
        let n = c.len();
        let i = r.below(n + 1);
        match r.below(6) {
            0 if n > 0 => {
                c.remove(i.min(n - 1));
            }
            1 => c.insert(i, *r.pick(&['{', '}', '[', ']', '"', ',', ':', '\\', '/', '*', 'é', '0', '-', '\u{0}', '#'])),
            2 if n > 1 => {
                let j = r.below(n);
                c.swap(i.min(n - 1), j);
            }
            3 => c.truncate(i),
            4 if n > 0 => {
                let j = i + r.below(n - i + 1);
                let part: Vec<char> = c[i..j].to_vec();
                let k = r.below(n);
                for (o, x) in part.into_iter().enumerate() {
                    c.insert(k + o, x);
                }
            }
            _ => {
                let w: Vec<char> = r.pick(&["null", "true", "1", "\"x\"", "{}", "[]", "\"\\u00e9\"", "\"\\ud83d\\ude00\""]).chars().collect();
                for (o, x) in w.into_iter().enumerate() {
                    c.insert(i + o, x);
                }
            }
        }
    }
    c.into_iter().collect()
}
/// Known findings K2 and K3 live in the jsonc parser: exponents with a plus sign, and nesting of thousands.
fn avoid_known_tsconfig(t: &str) -> String {
    t.replace(['e', 'E'], "f")
}
fn hostile(mut r: Rng) -> Case {
    let mut g = G::new(r.fork());
    let style = r.below(10);
    if style < 6 {
        g.mixed(12);
    } else {
        let d = g.dirs_below("", 2);
        for x in &d {
            g.files_in(x, 2);
        }
        g.modules_at(&d, 60, &Knobs { exports: 40, imports: 40, browser: 40, ..PLAIN });
        g.o.browser_field = g.p(70);
    }
    // self reference and cycles
    if r.pct(35) {
        let fields = ["a", "b", "c"];
        match r.below(7) {
            0 => {
                for f in fields {
                    g.o.alias.push((f.into(), Some(r.pick(&["a", "b", "c", "ca", "a/b", "./a"]).to_string())));
                }
                g.call("", "a");
                g.call("", "b/x");
            }
            1 => {
                let mut m = Map::new();
                for f in fields {
                    m.insert(format!("./{f}.js"), json!(*r.pick(&["./a.js", "./b.js", "./c.js", "a", "b", "p"])));
                    m.insert(f.into(), json!(*r.pick(&["./a.js", "b", "c", "a", "./c", "p"])));
                }
                g.o.browser_field = true;
                g.w.entries.insert("package.json".into(), Node::File(json!({ "browser": m }).to_string()));
                g.w.file("a.js", "");
                for q in ["./a", "a", "b", "./c.js", ".", "p"] {
                    g.call("", q);
                }
            }
            2 => {
                let mut m = Map::new();
                for f in fields {
                    m.insert(format!("#{f}"), json!(*r.pick(&["#a", "#b", "#c", "#d/x", "#d/d/x", "p", "./a.js"])));
                }
                m.insert("#d/*".into(), json!(*r.pick(&["#d/*", "#d/*/x", "#e/*", "#a", "p/*"])));
                m.insert("#e/*".into(), json!(*r.pick(&["#d/*", "#e/x/*", "#a"])));
                g.w.entries.insert("package.json".into(), Node::File(json!({ "imports": m }).to_string()));
                for q in ["#a", "#b", "#c", "#d/x", "#e/x"] {
                    g.call("", q);
                }
            }
            3 => {
                g.o.main_fields = vec!["main".into(), "module".into(), "style".into()];
                for d in ["m0", "m0/m1", "m0/m1/m2"] {
                    let mut m = Map::new();
                    for f in ["main", "module", "style"] {
                        m.insert(f.into(), json!(*r.pick(&["..", "../..", "m1", "m2", "./m1/m2", "m1/..", "../m1", "./.", "l"])));
                    }
                    g.w.json(&format!("{d}/package.json"), &Value::Object(m));
                    if r.pct(40) {
                        g.w.link(&format!("{d}/l"), r.pick(&["..", ".", "../..", "m1"]));
                    }
                    g.call("", &format!("./{d}"));
                    g.call(d, ".");
                }
            }
            4 => {
                for (i, f) in ["tsconfig.json", "t1.json", "sub/t2.json"].iter().enumerate() {
                    let up = if i == 2 { "../" } else { "./" };
                    let e = *r.pick(&["tsconfig.json", "t1.json", "t1", "sub/t2.json", "sub/../t1.json", "l.json"]);
                    g.w.file(f, &json!({"extends": format!("{up}{e}"), "compilerOptions": {"baseUrl": ".", "paths": {"*": ["./*", "*"]}}}).to_string());
                }
                g.w.link("l.json", "tsconfig.json");
                g.o.tsconfig = Some("tsconfig.json".into());
                g.call("", "p");
            }
            5 => {
                // packages pointing at each other
                g.o.browser_field = true;
                for (a, b) in [("p", "q"), ("q", "@s/p"), ("@s/p", "p")] {
                    let d = format!("node_modules/{a}");
                    for k in g.w.entries.keys().filter(|k| k.starts_with(&format!("{d}/"))).cloned().collect::<Vec<_>>() {
                        g.w.entries.remove(&k);
                    }
                    g.w.entries.remove(&d);
                    g.w.file(&format!("{d}/index.js"), "");
                    g.w.file(&format!("{d}/m.js"), "");
                    let t = *r.pick(&[b, a, "p/m", "q/index.js", "./m.js"]);
                    let u = *r.pick(&[b, a, "p/index.js", "q/m.js", "./index"]);
                    g.w.json(&format!("{d}/package.json"), &json!({"name": a, "main": "m", "browser": {"./m.js": t, "./index.js": u, "./m": t}}));
                    g.call("", a);
                    g.call("", &format!("{a}/m"));
                }
            }
            _ => {
                for (a, b) in [("l0", "l1"), ("l1", "l0"), ("l2", "l2"), ("l3", "."), ("l4", "l3/l3/l3")] {
                    g.w.link(a, b);
                }
                for q in ["./l0", "./l2/x", "./l3/l3/l3/x", "./l4/l4/a", "./l3"] {
                    g.call("", q);
                }
            }
        }
    }
    // broken and strange description files
    let descs: Vec<String> = g.w.entries.keys().filter(|k| k.ends_with(".json")).cloned().collect();
    for d in descs {
        let is_ts = !d.ends_with("package.json");
        let t = match g.w.entries.get(&d) {
            Some(Node::File(t)) => t.clone(),
            _ => continue,
        };
        let new = match r.below(12) {
            0 | 1 => mutate_text(&mut r, &t),
            2 | 3 => {
                let mut m = Map::new();
                for f in ["name", "main", "module", "exports", "imports", "browser", "sideEffects", "version", "compilerOptions", "extends"] {
                    if r.pct(40) {
                        m.insert(f.into(), nasty_json(&mut r, 0));
                    }
                }
                Value::Object(m).to_string()
            }
            4 => nasty_json(&mut r, 0).to_string(),
            5 => {
                let n = *r.pick(&[5usize, 60, 120, 126, 127, 128, 129, 500]);
                let f = *r.pick(&["exports", "imports", "browser", "sideEffects", "compilerOptions"]);
                match r.below(3) {
                    0 => format!("{{\"{f}\":{}{}}}", "[".repeat(n), "]".repeat(n)),
                    1 => format!("{{\"{f}\":{}\"./x.js\"{}}}", "{\"node\":".repeat(n), "}".repeat(n)),
                    _ => format!("{{\"{f}\":{{\".\":{}\"./x.js\"{}}}}}", "{\"default\":".repeat(n), "}".repeat(n)),
                }
            }
            _ => continue,
        };
        let new = if is_ts { avoid_known_tsconfig(&new) } else { new };
        g.w.entries.insert(d, Node::File(new));
    }
    if r.pct(6) {
        // tsconfig contents
        let mut m = Map::new();
        m.insert("compilerOptions".into(), json!({"baseUrl": nasty(&mut r, 2), "paths": nasty_json(&mut r, 0)}));
        m.insert("extends".into(), nasty_json(&mut r, 2));
        g.w.entries.remove("tsconfig.json");
        g.w.file("tsconfig.json", &avoid_known_tsconfig(&Value::Object(m).to_string()));
        g.o.tsconfig = Some("tsconfig.json".into());
    }
    // strange options
    if r.pct(30) {
        match r.below(8) {
            0 => g.o.extensions = (0..r.below(4)).map(|_| nasty(&mut r, 2)).collect(),
            1 => g.o.main_files = (0..r.below(4)).map(|_| nasty(&mut r, 3)).collect(),
            2 => g.o.main_fields = (0..r.below(4)).map(|_| nasty(&mut r, 2)).collect(),
            3 => g.o.description_file = Some(nasty(&mut r, 2)),
            4 => g.o.conditions = (0..r.below(4)).map(|_| nasty(&mut r, 2)).collect(),
            5 => g.o.tsconfig = Some(r.pick(&["missing.json", "", "lib", "package.json", "x.js", ".", "..", "é.json"]).to_string()),
            _ => {
                for _ in 0..1 + r.below(3) {
                    let v = if r.pct(80) { Some(nasty(&mut r, 3)) } else { None };
                    g.o.alias.push((nasty(&mut r, 2), v));
                }
            }
        }
    }
    // strange files
    if r.pct(20) {
        for _ in 0..2 {
            let n = nasty(&mut r, 2).replace(['/', '\u{0}'], "_");
            if n.len() < 200 && n != "." && n != ".." && !n.is_empty() {
                g.w.file(&format!("{}{n}", r.pick(&["", "node_modules/", "lib/", "{FF}/"])), "");
            }
        }
    }
    // strange requests
    g.cap_calls(16);
    for _ in 0..8 {
        let b = match r.below(8) {
            0 => nasty(&mut r, 3),
            1 => format!("{{REL}}{}", nasty(&mut r, 2)),
            2 => r.pick(&["{ABS}/", "{ABS}//", "{ABS}", "{ABS}/..", "{ABS}.", "{ABS}/proc/self/fd", "{FF}", "a{FF}/b", "zz/../zz/.."]).to_string(),
            3 => r.pick(&["d", "zz", "a", ".."]).to_string() + &"/d".repeat(r.below(600)),
            _ => g.base(),
        };
        let q = match r.below(10) {
            0 => {
                let unit = *r.pick(&["../", "a/", "@", "x/../", "/", "é/", "./", "#", "?", "node_modules/", "p/", "a", "*"]);
                let n = *r.pick(&[10usize, 100, 2000, 20000]);
                format!("{}{}", r.pick(&["./", "", "p/", "#", "/", "@s/p/"]), unit.repeat(n))
            }
            1 => mutate_text(&mut r, "@s/p/lib/x.js?q#f"),
            2 => format!("p/{}", nasty(&mut r, 4)),
            3 => format!("#{}", nasty(&mut r, 4)),
            4 => format!("./{}", nasty(&mut r, 4)),
            5 => g.near_request("", "rbao"),
            _ => nasty(&mut r, 5),
        };
        g.calls.push(Call { base: b, req: q, se: r.pct(12) });
    }
    g.case("C02")
}

// -------------------------------------------------------------------- C16: histories of edits
fn history(r: Rng) -> Case {
    let mut g = G::new(r);
    g.mixed(10);
    if g.o.description_file.is_none() {
        g.o.description_file = Some("package.json".into());
    }
    if g.o.tsconfig.is_none() && g.p(20) {
        g.tsconfig();
        g.tsconfig_calls(5);
        g.cap_calls(14);
    }
    if g.p(40) {
        // directories reached through links
        let n = 1 + g.r.below(3);
        g.links(n);
        g.near_calls(6, "rrab", 5);
    }
    let alt = alt_opts(&mut g).to_json();
    if g.p(35) {
        // description files that are links to files kept elsewhere
        let dn = g.desc_name();
        let ks: Vec<String> = g
            .w
            .entries
            .iter()
            .filter(|(k, n)| (**k == dn || k.ends_with(&format!("/{dn}"))) && matches!(n, Node::File(_)))
            .map(|(k, _)| k.clone())
            .collect();
        for (i, k) in ks.iter().enumerate() {
            if g.p(60) {
                let n = g.w.entries.remove(k).unwrap();
                let at = format!("zstore/{i}.json");
                g.w.put(&at, n);
                let parent = k.rsplit_once('/').map(|x| x.0).unwrap_or("");
                let t = if g.p(50) { format!("{{ROOT}}/{at}") } else { gen::rel(parent, &at) };
                g.w.link(k, &t);
            }
        }
    }
    for b in g.w.dirs() {
        if g.p(20) {
            g.calls.push(Call { base: b, req: String::new(), se: true });
        }
    }
    let k = Knobs { exports: 50, imports: 40, browser: 40, main: 60, side: 40, ..PLAIN };
    let dn = g.desc_name();
    let mut steps = vec![];
    // the world as it evolves, so that edits hit what is there
    let mut cur = g.w.clone();
    for _ in 0..3 + g.r.below(5) {
        let mut edits = vec![];
        for _ in 0..1 + g.r.below(3) {
            let dirs = cur.dirs();
            let d = dirs[g.r.below(dirs.len())].clone();
            let descs: Vec<String> = cur.entries.keys().filter(|k| **k == dn || k.ends_with(&format!("/{dn}"))).cloned().collect();
            let files = cur.files();
            let pick_desc = |g: &mut G| {
                if descs.is_empty() || g.p(30) {
                    if d.is_empty() { dn.clone() } else { format!("{d}/{dn}") }
                } else {
                    descs[g.r.below(descs.len())].clone()
                }
            };
            let tsfiles: Vec<String> = cur
                .entries
                .iter()
                .filter(|(k, n)| g.o.tsconfig.is_some() && k.ends_with(".json") && matches!(n, Node::File(t) if t.contains("compilerOptions") || t.contains("extends")))
                .map(|(k, _)| k.clone())
                .collect();
            let links: Vec<String> = cur.entries.iter().filter(|(_, n)| matches!(n, Node::Link(_))).map(|(k, _)| k.clone()).collect();
            let (kind, path, content): (&str, String, Value) = match g.r.below(if tsfiles.is_empty() { 16 } else { 19 }) {
                15 | 16 if !links.is_empty() => {
                    // the link leads elsewhere
                    let l = links[g.r.below(links.len())].clone();
                    let to = if g.p(70) { dirs[g.r.below(dirs.len())].clone() } else { files.get(g.r.below(files.len().max(1))).cloned().unwrap_or_default() };
                    ("link", l, json!(format!("{{ROOT}}/{to}")))
                }
                17 | 18 => {
                    // something moves to another place
                    let from = if g.p(60) || files.is_empty() { d.clone() } else { files[g.r.below(files.len())].clone() };
                    let t = dirs[g.r.below(dirs.len())].clone();
                    let name = match from.rsplit_once('/') {
                        Some((_, n)) if g.p(40) => n.to_string(),
                        _ => g.of(&["a", "b", "lib", "x", "x.js", "l", "node_modules", "p", "node_modules/p"]).to_string(),
                    };
                    ("move", from, json!(if t.is_empty() { name } else { format!("{t}/{name}") }))
                }
                12..=14 if !tsfiles.is_empty() => {
                    let p = tsfiles[g.r.below(tsfiles.len())].clone();
                    let old = match cur.entries.get(&p) {
                        Some(Node::File(t)) => t.clone(),
                        _ => String::new(),
                    };
                    std::mem::swap(&mut g.w, &mut cur);
                    let t = g.tsconfig_text(&p, &old);
                    std::mem::swap(&mut g.w, &mut cur);
                    ("write", p, json!(t))
                }
                0..=4 => {
                    let p = pick_desc(&mut g);
                    let dd = p.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
                    std::mem::swap(&mut g.w, &mut cur);
                    let mut m = g.desc_fields(&dd, &k);
                    std::mem::swap(&mut g.w, &mut cur);
                    // much stays as it was
                    if let Some(Ok(Value::Object(old))) = match cur.entries.get(&p) {
                        Some(Node::File(t)) => Some(serde_json::from_str::<Value>(t)),
                        _ => None,
                    } {
                        match g.r.below(4) {
                            0 => {
                                for x in ["name", "version", "exports", "imports", "browser", "sideEffects", "main"] {
                                    if g.p(60) || matches!(x, "name" | "version") {
                                        match old.get(x) {
                                            Some(v) => m.insert(x.into(), v.clone()),
                                            None => m.shift_remove(x),
                                        };
                                    }
                                }
                            }
                            1 => {
                                let mut v = Value::Object(old);
                                if let Some(Value::Object(e)) = v.get_mut(g.of(&["exports", "imports", "browser", "exports"])) {
                                    let mut x = Value::Object(std::mem::take(e));
                                    tweak_leaf(&mut x, &mut g.r);
                                    if g.p(30) {
                                        shuffle_keys(&mut x, &mut g.r);
                                    }
                                    *e = x.as_object().unwrap().clone();
                                }
                                m = v.as_object().unwrap().clone();
                            }
                            2 => {
                                for x in ["name", "version"] {
                                    match old.get(x) {
                                        Some(v) => m.insert(x.into(), v.clone()),
                                        None => m.shift_remove(x),
                                    };
                                }
                            }
                            _ => {}
                        }
                    }
                    let mut text = Value::Object(m).to_string();
                    if let Some(Node::File(t)) = cur.entries.get(&p) {
                        // of the same length
                        if t.len() > text.len() && g.p(60) {
                            text.push_str(&" ".repeat(t.len() - text.len()));
                        }
                    }
                    ("write", p, json!(text))
                }
                5 => {
                    let p = pick_desc(&mut g);
                    ("write", p, json!(g.of(&["{", "", "{\"exports\":1}", "{}", "{\"sideEffects\":3}"])))
                }
                6 => ("remove", pick_desc(&mut g), Value::Null),
                7 if !files.is_empty() => ("remove", files[g.r.below(files.len())].clone(), Value::Null),
                8 => {
                    let st = g.of(&gen::STEMS);
                    let e = g.of(&[".js", "", ".json", ".ts", "/index.js"]);
                    ("write", if d.is_empty() { format!("{st}{e}") } else { format!("{d}/{st}{e}") }, json!(""))
                }
                9 => {
                    let name = g.of(&gen::PKGS);
                    let nm = if d.is_empty() { "node_modules".to_string() } else { format!("{d}/node_modules") };
                    ("write", format!("{nm}/{name}/{}", g.of(&["index.js", "x.js", "package.json", "lib/x.js"])), json!("{}"))
                }
                10 => {
                    let t = dirs[g.r.below(dirs.len())].clone();
                    let at = g.of(&["l", "x", "node_modules/p", "lib"]);
                    ("link", if d.is_empty() { at.to_string() } else { format!("{d}/{at}") }, json!(format!("{{ROOT}}/{t}")))
                }
                _ if !d.is_empty() => ("remove", d.clone(), Value::Null),
                _ => ("write", "y.js".into(), json!("")),
            };
            // through the link, mostly
            let path = match cur.entries.get(&path) {
                Some(Node::Link(t)) if kind == "write" && t.contains("zstore/") && g.p(75) => t[t.find("zstore/").unwrap()..].to_string(),
                _ => path,
            };
            apply_to_world(&mut cur, kind, &path, &content);
            let how = g.of(&["inplace", "rename", "recreate"]);
            edits.push(json!({"kind": kind, "path": path, "content": content, "how": how}));
        }
        // some further calls aimed at the new state
        std::mem::swap(&mut g.w, &mut cur);
        let keep = std::mem::take(&mut g.calls);
        g.exports_calls(5);
        g.imports_calls();
        g.browser_calls(5);
        g.cap_calls(6);
        g.near_calls(3, "rrbb", 5);
        let new = std::mem::replace(&mut g.calls, keep);
        std::mem::swap(&mut g.w, &mut cur);
        let calls: Vec<Value> = new.iter().map(|c| json!([c.base, c.req])).collect();
        steps.push(json!({"edits": edits, "calls": calls}));
    }
    g.extra = json!({"alt": alt, "steps": steps, "seed": g.r.next() >> 12});
    g.case("C16")
}
fn apply_to_world(w: &mut World, kind: &str, path: &str, content: &Value) {
    match kind {
        "write" => {
            if !matches!(w.entries.get(path), Some(Node::File(_)) | None) {
                return;
            }
            w.entries.remove(path);
            w.put(path, Node::File(content.as_str().unwrap().into()));
        }
        "link" => {
            if let Some(Node::Dir) | Some(Node::File(_)) = w.entries.get(path) {
                return;
            }
            w.entries.remove(path);
            w.put(path, Node::Link(content.as_str().unwrap().into()));
        }
        "move" => {
            let to = content.as_str().unwrap();
            if path.is_empty() || w.entries.contains_key(to) || to == path || w.dirs().iter().any(|d| d == to) || to.starts_with(&format!("{path}/")) {
                return;
            }
            let pre = format!("{path}/");
            let ks: Vec<String> = w.entries.keys().filter(|k| *k == path || k.starts_with(&pre)).cloned().collect();
            for k in ks {
                let n = w.entries.remove(&k).unwrap();
                w.put(&format!("{to}{}", &k[path.len()..]), n);
            }
        }
        _ => {
            let pre = format!("{path}/");
            let ks: Vec<String> = w.entries.keys().filter(|k| *k == path || k.starts_with(&pre)).cloned().collect();
            for k in ks {
                w.entries.remove(&k);
            }
        }
    }
}
/// Modification times are set explicitly and are all different, by at least one second.
struct Clock {
    used: BTreeSet<i64>,
    last: i64,
    r: Rng,
}
impl Clock {
    fn next(&mut self) -> std::time::SystemTime {
        loop {
            let t = match self.r.below(6) {
                0 => self.last + 1,
                1 => self.last - 1,
                2 => self.last - 3600 - self.r.below(100000) as i64,
                3 => 1 + self.r.below(1000) as i64,
                _ => self.last + 1 + self.r.below(1000) as i64,
            };
            // also times before 1970, and after 2038
            let t = if self.r.below(25) == 0 { -t % 1_000_000_000 } else if self.r.below(25) == 0 { t % 1_000_000_000 + 3_000_000_000 } else { t };
            if self.used.insert(t) {
                self.last = t;
                let d = std::time::Duration::from_secs(t.unsigned_abs());
                return if t < 0 { std::time::UNIX_EPOCH - d } else { std::time::UNIX_EPOCH + d };
            }
            self.last += 7;
        }
    }
    fn stamp(&mut self, p: &Path) {
        let t = self.next();
        if let Ok(f) = fs::OpenOptions::new().write(true).open(p) {
            let _ = f.set_times(fs::FileTimes::new().set_modified(t).set_accessed(t));
        }
    }
}
fn has_link_ancestor(root: &Path, path: &str) -> bool {
    let mut p = root.to_path_buf();
    let comps: Vec<&str> = path.split('/').collect();
    for c in &comps[..comps.len().saturating_sub(1)] {
        p.push(c);
        if fs::symlink_metadata(&p).map_or(false, |m| m.file_type().is_symlink()) {
            return true;
        }
    }
    false
}
fn apply_edit(root: &Path, e: &Value, clock: &mut Clock) -> bool {
    let path = e["path"].as_str().unwrap();
    // edits stay inside of the scratch tree
    if path.is_empty() || path.split('/').any(|c| c == ".." || c == "." || c.is_empty()) || has_link_ancestor(root, path) {
        return false;
    }
    let p = root.join(path);
    let md = fs::symlink_metadata(&p).ok();
    let is_dir = md.as_ref().map_or(false, |m| m.is_dir());
    match e["kind"].as_str().unwrap() {
        "write" => {
            if is_dir {
                return false;
            }
            if let Some(d) = p.parent() {
                if fs::create_dir_all(d).is_err() {
                    return false;
                }
            }
            let c = subst(e["content"].as_str().unwrap(), root);
            match (e["how"].as_str().unwrap_or("inplace"), md.is_some()) {
                ("rename", _) => {
                    let tmp = root.join(".mon-tmp");
                    if fs::write(&tmp, c).is_err() {
                        return false;
                    }
                    clock.stamp(&tmp);
                    return fs::rename(&tmp, &p).is_ok();
                }
                ("recreate", true) => {
                    let _ = fs::remove_file(&p);
                }
                _ => {
                    // do not write through a link
                    if md.map_or(false, |m| m.file_type().is_symlink()) {
                        let _ = fs::remove_file(&p);
                    }
                }
            }
            if fs::write(&p, c).is_err() {
                return false;
            }
            clock.stamp(&p);
            true
        }
        "link" => {
            if is_dir {
                return false;
            }
            if let Some(d) = p.parent() {
                if fs::create_dir_all(d).is_err() {
                    return false;
                }
            }
            let _ = fs::remove_file(&p);
            std::os::unix::fs::symlink(subst(e["content"].as_str().unwrap(), root), &p).is_ok()
        }
        "move" => {
            let to = e["content"].as_str().unwrap();
            if to.split('/').any(|c| c == ".." || c == "." || c.is_empty()) || has_link_ancestor(root, to) || to.starts_with(&format!("{path}/")) {
                return false;
            }
            let q = root.join(to);
            if md.is_none() || fs::symlink_metadata(&q).is_ok() {
                return false;
            }
            if let Some(d) = q.parent() {
                if fs::create_dir_all(d).is_err() {
                    return false;
                }
            }
            fs::rename(&p, &q).is_ok()
        }
        _ => match is_dir {
            true => fs::remove_dir_all(&p).is_ok(),
            false => fs::remove_file(&p).is_ok(),
        },
    }
}

// ==================================================================== checking
fn relevant(prop: &str, tags: &BTreeMap<&'static str, u32>, kind: Kind, out: &Out, req: &str) -> bool {
    let t = |k: &str| tags.contains_key(k);
    match prop {
        "C03" => (req.contains('?') || req.get(1..).map_or(false, |x| x.contains('#'))) && out.is_file(),
        "C04" => matches!(kind, Kind::Relative | Kind::Absolute) && out.is_file(),
        "C05" => t("directory"),
        "C06" => kind == Kind::Bare && (t("node_modules") || out.is_file()),
        "C07" => t("exports"),
        "C08" => t("exact-key") || t("pattern-key") || t("folder-key") || t("condition"),
        "C09" => t("imports"),
        "C10" => t("alias") || t("alias-ignored"),
        "C11" => t("browser"),
        "C12" => t("tsconfig-paths") || t("extends"),
        "C13" => t("prefer-relative") || kind == Kind::Bare,
        _ => true,
    }
}

/// Every call against the reference model.
fn model_check(c: &Case, root: &Path, obs: &mut Obs, prop: &str) -> Verdict {
    fresh_root(root, &c.world);
    let ch = case_hash(c);
    // the default resolver is one with the default options
    let r = if c.opts == Opts::default() && ch % 2 == 0 {
        obs.tag("Resolver::default()");
        nodejs_resolver::Resolver::default()
    } else {
        c.opts.resolver(root, None)
    };
    let m = Model::new(&c.opts, root);
    for call in &c.calls {
        let base = base_path(root, &call.base);
        if call.se {
            obs.evals += 1;
            let got = side_effects(&r, &base);
            let want = m.side_effects(&base);
            let ok = match (&got, &want) {
                (Se::None, Ok(None)) => true,
                (Se::Some(p, v), Ok(Some((wp, wv)))) => p == wp && v == wv,
                (Se::Err(_), Err(_)) => true,
                _ => false,
            };
            obs.tag(match &got {
                Se::None => "side-effects:nothing",
                Se::Some(_, None) => "side-effects:absent",
                Se::Some(_, Some(_)) => "side-effects:value",
                Se::Err(_) => "side-effects:error",
                Se::Panic(_) => "side-effects:panic",
            });
            if !ok {
                return Err(format!("{}: got {}, expected {:?}", call_text(call), got.short(root), want));
            }
            if !matches!(got, Se::None) && obs.nontrivial(hash_of(&[&ch, &call.base.as_str(), &1])) {
                obs.sample(|| json!({"case": c.to_json(), "call": call_text(call), "observed": got.short(root)}));
            }
            continue;
        }
        let req = req_of(call, root);
        obs.evals += 1;
        let out = resolve(&r, &base, &req);
        let exp = m.resolve(&base, &req);
        obs.out(&out);
        for (t, n) in m.tags.borrow().iter() {
            obs.add(t, *n as u64);
        }
        if !exp.agrees(&out) {
            return Err(format!("{}: got {}, expected {}", call_text(call), out.short(root), exp.short(root)));
        }
        if exp == Expect::Err(E::NoVerdict) {
            obs.tag("model:no-verdict");
            continue;
        }
        let (t, q, f) = model::split_request(&req);
        if relevant(prop, &m.tags.borrow(), model::kind_of(&t), &out, &req)
            && obs.nontrivial(hash_of(&[&ch, &call.base.as_str(), &call.req.as_str()]))
        {
            obs.sample(|| json!({"case": c.to_json(), "call": call_text(call), "observed": out.short(root)}));
        }
        if prop == "C03" {
            let tags = m.tags.borrow().clone();
            if !tags.contains_key("exports") && !tags.contains_key("imports") && !tags.contains_key("imports-bare") && !t.is_empty() {
                let bare = resolve(&r, &base, &t);
                let same = match (&out, &bare) {
                    (Out::File { path, query, fragment }, Out::File { path: p, .. }) => {
                        if *query != q || *fragment != f {
                            return Err(format!("{}: query/fragment came back as {query:?} {fragment:?}, requested {q:?} {f:?}", call_text(call)));
                        }
                        path == p
                    }
                    (a, b) => a.same_class(b),
                };
                // the bare target may itself go through exports
                let e2 = m.resolve(&base, &t);
                let t2 = m.tags.borrow();
                if !same && !t2.contains_key("exports") && !t2.contains_key("imports") && e2 != Expect::Err(E::NoVerdict) {
                    return Err(format!("{}: {} with query/fragment, {} without", call_text(call), out.short(root), bare.short(root)));
                }
            }
            if let (Out::File { path, query, fragment }, Ok(Ok(ResolveResult::Info(i)))) = (&out, guarded(|| r.resolve(&base, &req))) {
                let want = format!("{}{query}{fragment}", path.display());
                if i.join().display().to_string() != want || i.get_path() != *path {
                    return Err(format!("{}: join() is {}, expected {want}", call_text(call), i.join().display()));
                }
            }
        }
    }
    Ok(())
}

fn check_c01(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    fresh_root(root, &c.world);
    // bases written `{REL}` are relative to the tree
    std::env::set_current_dir(root).expect("cd");
    let v = check_c01_here(c, root, obs);
    std::env::set_current_dir("/").expect("cd /");
    v
}
fn check_c01_here(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    let r = c.opts.resolver(root, None);
    let ch = case_hash(c);
    for call in c.calls.iter().filter(|x| !x.se) {
        let base = base_path(root, &call.base);
        let req = req_of(call, root);
        obs.evals += 1;
        let raw = guarded(|| r.resolve(&base, &req));
        let info = match raw {
            Ok(Ok(ResolveResult::Info(i))) => i,
            Ok(Ok(ResolveResult::Ignored)) => {
                obs.tag("outcome:ignored");
                continue;
            }
            Ok(Err(_)) => {
                obs.tag("outcome:error");
                continue;
            }
            Err(p) => return Err(format!("{}: PANIC {p}", call_text(call))),
        };
        obs.tag("outcome:file");
        let p = &info.path;
        let shown = p.display().to_string().replace(&root.display().to_string(), "{ROOT}");
        let bad = |why: &str| Err(format!("{}: answer {shown} {why}", call_text(call)));
        if !info.request.target.is_empty() {
            return bad(&format!("leaves the target {:?} unconsumed", info.request.target));
        }
        if info.get_path() != *p {
            return bad("differs from its get_path()");
        }
        if !p.is_absolute() && (base.is_absolute() || c.opts.symlinks) {
            return bad("is not absolute");
        }
        if !p.is_absolute() {
            obs.tag("relative-answer-to-relative-base");
        }
        match fs::metadata(p) {
            Ok(m) if m.is_file() => {}
            Ok(_) => return bad("is not a regular file"),
            Err(_) => return bad("does not exist"),
        }
        let s = p.display().to_string();
        let mut parts = s.split('/').peekable();
        if !p.is_absolute() {
            while parts.next_if(|x| *x == "..").is_some() {}
        }
        if parts.any(|x| x == "." || x == "..") || s.contains("//") || s.ends_with('/') {
            return bad("is not in normal form");
        }
        if c.opts.symlinks && p.canonicalize().ok().as_deref() != Some(p) {
            return bad("is not its own canonical path");
        }
        if fs::symlink_metadata(p).map_or(false, |m| m.file_type().is_symlink()) {
            obs.tag("answer-is-a-link");
        }
        if obs.nontrivial(hash_of(&[&ch, &call.base.as_str(), &call.req.as_str()])) {
            obs.sample(|| json!({"case": c.to_json(), "call": call_text(call), "observed": shown}));
        }
    }
    Ok(())
}

fn check_c02(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    fresh_root(root, &c.world);
    let ch = case_hash(c);
    let r = match guarded(|| c.opts.resolver(root, None)) {
        Ok(r) => r,
        Err(p) => return Err(format!("Resolver::new: PANIC {p}")),
    };
    // a second pass asks a warm resolver
    for pass in 0..2 {
        for call in &c.calls {
            let base = base_path(root, &call.base);
            let req = req_of(call, root);
            obs.evals += 1;
            let class = if call.se {
                match side_effects(&r, &base) {
                    Se::Panic(p) => return Err(format!("{} (pass {pass}): PANIC {p}", call_text(call))),
                    Se::Err(_) => 1,
                    _ => 0,
                }
            } else {
                let o = resolve(&r, &base, &req);
                if pass == 0 {
                    obs.out(&o);
                }
                match o {
                    Out::Panic(p) => return Err(format!("{} (pass {pass}): PANIC {p}", call_text(call))),
                    Out::Err(e) => {
                        if e.starts_with("Recursion") || e.starts_with("Circular") {
                            obs.tag("recursion-stopped");
                        } else if e.starts_with("Parse") {
                            obs.tag("malformed-reported");
                        }
                        1
                    }
                    _ => 0,
                }
            };
            for p in [base.clone(), PathBuf::from(&req)] {
                if let Err(p) = guarded(|| Resolver::normalize_path_without_link(&p)) {
                    return Err(format!("normalize_path_without_link for {}: PANIC {p}", call_text(call)));
                }
            }
            if let Err(p) = guarded(|| Resolver::is_build_in_module(&req)) {
                return Err(format!("is_build_in_module({req:?}): PANIC {p}"));
            }
            if obs.nontrivial(hash_of(&[&ch, &call.base.as_str(), &call.req.as_str()])) && call.req.len() < 300 {
                obs.sample(|| json!({"case": c.to_json(), "call": call_text(call), "observed": if class == 0 { "a result" } else { "an error value" }}));
            }
        }
    }
    Ok(())
}

fn check_c13(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    model_check(c, root, obs, "C13")?;
    if !c.opts.alias.is_empty() || c.opts.tsconfig.is_some() {
        return Ok(());
    }
    let on = Opts { prefer_relative: true, ..c.opts.clone() }.resolver(root, None);
    let off = Opts { prefer_relative: false, ..c.opts.clone() }.resolver(root, None);
    for call in c.calls.iter().filter(|x| !x.se) {
        let base = base_path(root, &call.base);
        let req = req_of(call, root);
        let o = resolve(&on, &base, &req);
        let f = resolve(&off, &base, &req);
        let (t, _, _) = model::split_request(&req);
        obs.evals += 2;
        let want = match model::kind_of(&t) {
            Kind::Relative | Kind::Absolute => f,
            Kind::Internal => continue,
            Kind::Bare => match resolve(&off, &base, &format!("./{req}")) {
                Out::Err(e) if e.starts_with("Recursion") => continue,
                Out::Err(_) => f,
                x => x,
            },
        };
        let same = match (&o, &want) {
            (Out::Err(_), Out::Err(_)) => true,
            (a, b) => a == b && !a.is_panic(),
        };
        if !same {
            return Err(format!("{} with prefer_relative: got {}, expected {}", call_text(call), o.short(root), want.short(root)));
        }
    }
    Ok(())
}

/// The answers of a resolver in a process of its own.
fn in_new_process(c: &Case, opts: &Opts, calls: &[Call], root: &Path) -> Result<Vec<String>, String> {
    let _root = User::enter(0);
    let f = root.parent().unwrap().join("fresh.json");
    let world = World { modes: c.world.modes.clone(), ..World::new() };
    let x = Case { opts: opts.clone(), calls: calls.to_vec(), world, extra: Value::Null, ..c.clone() };
    fs::write(&f, x.to_json().to_string()).unwrap();
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("eval").arg(&f).arg(root).output().expect("child");
    let _ = fs::remove_file(&f);
    let b: Vec<String> = serde_json::from_slice(&o.stdout).unwrap_or_default();
    if b.len() != calls.len() {
        return Err(format!("the calls made in a new process ended with {} and {} answers of {}", o.status, b.len(), calls.len()));
    }
    Ok(b)
}

fn check_c15(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    fresh_root(root, &c.world);
    let mut optss = vec![c.opts.clone()];
    for a in c.extra["alts"].as_array().map(|x| x.as_slice()).unwrap_or(&[]) {
        optss.push(Opts::from_json(a));
    }
    let shared = Arc::new(ResolverCache::default());
    // shared cache for all of them, and one warm resolver each with a cache of its own
    let on_shared: Vec<Resolver> = optss.iter().map(|o| o.resolver(root, Some(shared.clone()))).collect();
    let own: Vec<Resolver> = optss.iter().map(|o| o.resolver(root, None)).collect();
    let mut r = Rng::new(c.extra["seed"].as_u64().unwrap_or(1));
    let mut order: Vec<(usize, usize)> = vec![];
    for i in 0..optss.len() {
        for j in 0..c.calls.len() {
            order.push((i, j));
        }
    }
    let ch = case_hash(c);
    let mut want: HashMap<(usize, usize), String> = HashMap::new();
    for pass in 0..2 {
        r.shuffle(&mut order);
        for &(i, j) in &order {
            let call = &c.calls[j];
            let w = want
                .entry((i, j))
                .or_insert_with(|| do_call(&optss[i].resolver(root, None), root, call))
                .clone();
            for (which, rs) in [("shared", &on_shared), ("own", &own)] {
                obs.evals += 1;
                let got = do_call(&rs[i], root, call);
                if got != w || got.contains("PANIC") {
                    return Err(format!(
                        "{} on resolver {i} ({which} cache, pass {pass}): got {got}, a fresh resolver answers {w}",
                        call_text(call)
                    ));
                }
            }
            obs.tag(if w.starts_with("file") { "outcome:file" } else if w.starts_with("error") { "outcome:error" } else { "outcome:other" });
            if obs.nontrivial(hash_of(&[&ch, &i, &call.base.as_str(), &call.req.as_str(), &call.se])) {
                obs.sample(|| json!({"case": c.to_json(), "call": call_text(call), "resolver": i, "observed": w}));
            }
        }
    }
    obs.add("resolvers-sharing-a-cache", optss.len() as u64);
    if c.extra["seed"].as_u64().unwrap_or(0) % 4 == 0 {
        // nothing process-wide either
        for (i, o) in optss.iter().enumerate() {
            let b = in_new_process(c, o, &c.calls, root)?;
            obs.evals += b.len() as u64;
            obs.tag("new-processes");
            for (j, y) in b.iter().enumerate() {
                let x = &want[&(i, j)];
                if x != y {
                    return Err(format!("{} on options {i}: {x}, but {y} in a process of its own", call_text(&c.calls[j])));
                }
            }
        }
    }
    Ok(())
}

fn check_c16(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    fresh_root(root, &c.world);
    let mut clock = Clock { used: BTreeSet::new(), last: 1_600_000_000, r: Rng::new(c.extra["seed"].as_u64().unwrap_or(1)) };
    for (k, n) in &c.world.entries {
        if let Node::File(_) = n {
            clock.stamp(&root.join(k));
        }
    }
    let alt = Opts::from_json(&c.extra["alt"]);
    let shared = Arc::new(ResolverCache::default());
    let long = [
        (&c.opts, c.opts.resolver(root, None), "own cache"),
        (&c.opts, c.opts.resolver(root, Some(shared.clone())), "shared cache"),
        (&alt, alt.resolver(root, Some(shared)), "shared cache, other options"),
    ];
    let ch = case_hash(c);
    let mut calls = c.calls.clone();
    let none = json!({"edits": [], "calls": []});
    let steps: Vec<&Value> =
        std::iter::once(&none).chain(c.extra["steps"].as_array().map(|x| x.as_slice()).unwrap_or(&[])).collect();
    let mut before: HashMap<(usize, usize), String> = HashMap::new();
    for (n, step) in steps.iter().enumerate() {
        for e in step["edits"].as_array().unwrap() {
            if apply_edit(root, e, &mut clock) {
                obs.tag(&format!("edit:{}", e["kind"].as_str().unwrap()));
            }
        }
        for x in step["calls"].as_array().unwrap() {
            calls.push(Call { base: x[0].as_str().unwrap().into(), req: x[1].as_str().unwrap().into(), se: false });
        }
        let apart = if c.extra["seed"].as_u64().unwrap_or(0) % 4 == 0 {
            obs.tag("new-processes");
            Some(in_new_process(c, &c.opts, &calls, root)?)
        } else {
            None
        };
        for (i, (o, r, what)) in long.iter().enumerate() {
            for (j, call) in calls.iter().enumerate() {
                // not every call in every step
                if n > 0 && hash_of(&[&n, &i, &j, &ch]) % 5 < 1 {
                    continue;
                }
                obs.evals += 1;
                let got = do_call(r, root, call);
                let want = do_call(&o.resolver(root, None), root, call);
                if got != want || got.contains("PANIC") {
                    return Err(format!(
                        "after step {n}, {} on the long-lived resolver ({what}): got {got}, a fresh resolver answers {want}",
                        call_text(call)
                    ));
                }
                if let (Some(a), true) = (&apart, i < 2) {
                    if a[j] != got {
                        return Err(format!("after step {n}, {}: got {got}, but {} in a new process", call_text(call), a[j]));
                    }
                }
                let changed = before.insert((i, j), want.clone()).map_or(false, |b| b != want);
                if changed {
                    obs.tag("answer-changed-by-edit");
                    if obs.nontrivial(hash_of(&[&ch, &n, &i, &j])) {
                        obs.sample(|| json!({"case": c.to_json(), "step": n, "call": call_text(call), "observed": want}));
                    }
                }
            }
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C17
/// Things no candidate of any request refers to.
fn add_unrelated(w: &World, o: &Opts, r: &mut Rng) -> World {
    let mut n = w.clone();
    let dn = o.description_file.clone().unwrap_or("package.json".into());
    for d in w.dirs() {
        if r.pct(40) {
            let pre = if d.is_empty() { String::new() } else { format!("{d}/") };
            match r.below(5) {
                0 => {
                    n.file(&format!("{pre}zzz_unused.js"), "");
                }
                1 => {
                    n.file(&format!("{pre}zzz_dir/index.js"), "");
                    n.file(&format!("{pre}zzz_dir/{dn}"), "{\"main\":\"index.js\",\"exports\":{\".\":\"./index.js\"},\"name\":\"zzz_dir\"}");
                }
                2 if r.pct(30) => crate::vary::other_modules(&mut n, r),
                2 if w.dirs().contains(&format!("{pre}node_modules")) => {
                    n.file(&format!("{pre}node_modules/zzz_pkg/index.js"), "");
                    n.file(&format!("{pre}node_modules/zzz_pkg/{dn}"), "{\"name\":\"zzz_pkg\",\"browser\":{\"./index.js\":false}}");
                    n.file(&format!("{pre}node_modules/@zzz/pkg/index.js"), "");
                }
                _ => {
                    n.file(&format!("{pre}zzz.other"), "{");
                }
            }
        }
    }
    for (k, node) in w.entries.iter() {
        if !(*k == dn || k.ends_with(&format!("/{dn}"))) || !r.pct(60) {
            continue;
        }
        if let Node::File(t) = node {
            if let Ok(Value::Object(mut m)) = serde_json::from_str::<Value>(t) {
                let mut first = Map::new();
                first.insert("zzz_field".into(), json!({"x": "./x.js"}));
                if let Some(Value::Object(e)) = m.get_mut("exports") {
                    if !e.is_empty() && e.keys().all(|k| k.starts_with('.')) {
                        e.insert("./zzz_unused".into(), json!("./zzz.js"));
                        e.insert("./zzz_dir/*".into(), json!("./zzz/*"));
                        if r.pct(50) {
                            e.insert("./zzz_dir2/".into(), json!("./zzz/"));
                        }
                    }
                }
                if let Some(Value::Object(e)) = m.get_mut("imports") {
                    e.insert("#zzz_unused".into(), json!("./zzz.js"));
                    e.insert("#zzz_dir/*".into(), json!("./zzz/*"));
                }
                if let Some(Value::Object(e)) = m.get_mut("browser") {
                    e.insert("./zzz_unused.js".into(), json!(false));
                    e.insert("zzz_pkg".into(), json!("./zzz.js"));
                }
                for (k, v) in m {
                    first.insert(k, v);
                }
                n.entries.insert(k.clone(), Node::File(Value::Object(first).to_string()));
            }
        }
    }
    n
}
/// A working directory full of things that relative names of the case would hit.
fn decoy_world(c: &Case) -> World {
    let mut w = c.world.clone();
    let mut names: BTreeSet<String> = BTreeSet::new();
    let mut confs: BTreeSet<String> = BTreeSet::new();
    for x in &c.calls {
        let (t, _, _) = model::split_request(&x.req);
        names.insert(t);
        names.insert(x.base.clone());
    }
    for (_, v) in &c.opts.alias {
        names.extend(v.clone());
    }
    names.extend(c.opts.main_files.iter().cloned());
    fn strings(v: &Value, key: &str, names: &mut BTreeSet<String>, confs: &mut BTreeSet<String>) {
        match v {
            Value::String(t) => {
                names.insert(t.clone());
                if key == "extends" {
                    confs.insert(t.clone());
                }
            }
            Value::Array(a) => a.iter().for_each(|x| strings(x, key, names, confs)),
            Value::Object(m) => m.iter().for_each(|(k, x)| {
                names.insert(k.clone());
                strings(x, k, names, confs)
            }),
            _ => {}
        }
    }
    for (k, n) in &c.world.entries {
        names.insert(k.rsplit('/').next().unwrap().to_string());
        if let (true, Node::File(t)) = (k.ends_with(".json"), n) {
            if let Ok(v) = serde_json::from_str::<Value>(&model::strip_jsonc(t)) {
                strings(&v, "", &mut names, &mut confs);
            }
        }
    }
    let clean = |x: &str| {
        let mut x = x.replace("{ROOT}", "").replace('*', "x");
        loop {
            let y = x.trim_start_matches('/').trim_start_matches("./").trim_start_matches("../").trim_start_matches('#').to_string();
            if y == x {
                break x;
            }
            x = y;
        }
    };
    for e in &confs {
        let e = clean(e);
        let t = "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"*\":[\"./decoy/*\",\"./x.js\",\"./index.js\"]}}}";
        for suffix in ["", ".json", "/tsconfig.json"] {
            let p = format!("{e}{suffix}");
            if !w.entries.contains_key(&p) && p.len() < 100 {
                w.file(&p, t);
            }
        }
    }
    for n in &names {
        let n = clean(n);
        if n.is_empty() || n.len() > 100 || n.contains(['\0', '{']) || n.split('/').any(|x| x == "..") {
            continue;
        }
        for p in [n.clone(), format!("{n}.js"), format!("{n}/index.js"), format!("node_modules/{n}/index.js"), format!(".node_modules/{n}.js")] {
            if !w.entries.contains_key(&p) {
                w.file(&p, "");
            }
        }
    }
    w
}
pub fn answers(c: &Case, o: &Opts, root: &Path) -> Vec<String> {
    let _user = user_of(c);
    let r = o.resolver(root, None);
    c.calls.iter().map(|x| do_call(&r, root, x)).collect()
}
fn check_c17(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    fresh_root(root, &c.world);
    let ch = case_hash(c);
    let mut r = Rng::new(c.extra["seed"].as_u64().unwrap_or(1));
    let a = answers(c, &c.opts, root);
    let cmp = |b: Vec<String>, what: &str| -> Verdict {
        for ((x, y), call) in a.iter().zip(&b).zip(&c.calls) {
            if x != y || y.contains("PANIC") {
                return Err(format!("{}: {x}, but {y} {what}", call_text(call)));
            }
        }
        Ok(())
    };
    // other insertion order (and hash seed) of the conditions
    for _ in 0..2 {
        let mut o = c.opts.clone();
        r.shuffle(&mut o.conditions);
        obs.evals += a.len() as u64;
        cmp(answers(c, &o, root), "with the conditions inserted in another order")?;
    }
    // another thread, calls in another order
    let (o2, c2, root2) = (c.opts.clone(), c.clone(), root.to_path_buf());
    let mut ord: Vec<usize> = (0..c.calls.len()).collect();
    r.shuffle(&mut ord);
    let b = std::thread::spawn(move || {
        let rs = o2.resolver(&root2, None);
        let mut v = vec![String::new(); c2.calls.len()];
        for i in ord {
            v[i] = do_call(&rs, &root2, &c2.calls[i]);
        }
        v
    })
    .join()
    .unwrap();
    obs.evals += a.len() as u64;
    cmp(b, "on another thread and in another order")?;
    // another location
    let deep = "d/".repeat(60);
    let names = ["elsewhere-with-a-longer-name", "a*b", "x y", "日本語 e\u{301}", "-", "$& [a] (b) {c}", "package.json", "index.js", ".git", deep.as_str(), "a{FF}b", "#x?y#z"];
    let mut place = names[(case_hash(c) / 7 % names.len() as u64) as usize];
    if place.contains(['{', '#', '*']) && c.to_json().to_string().contains("{ROOT}") {
        place = names[0];
    }
    let top = root.parent().unwrap().join(crate::core::os(place));
    let other = top.join("t");
    fresh_root(&other, &c.world);
    let escapes = |x: &Call| x.base.starts_with("{REL}") || x.base.starts_with("{ABS}");
    if !c.calls.iter().any(escapes) {
        obs.evals += a.len() as u64;
        let b = answers(c, &c.opts, &other);
        // a path that climbs out of the tree shows the location
        let parent = root.parent().unwrap().display().to_string()[1..].to_string();
        let p2 = other.parent().unwrap().display().to_string()[1..].to_string();
        let depth_ok = |s: &String| !s.contains(&parent) && !s.contains(&p2);
        for ((x, y), call) in a.iter().zip(&b).zip(&c.calls) {
            let climbs = call.base.matches("..").count() + call.req.matches("..").count() > 6;
            if climbs || !depth_ok(x) || !depth_ok(y) {
                continue;
            }
            if x != y {
                return Err(format!("{}: {x}, but {y} at another location", call_text(call)));
            }
        }
    }
    wipe(&other);
    let _ = fs::remove_dir(&top);
    // another process, working directory and environment
    if c.extra["seed"].as_u64().unwrap_or(0) % 8 == 0 && !c.calls.iter().any(|x| x.base.starts_with("{REL}")) {
        let decoy = root.parent().unwrap().join("decoy");
        fresh_root(&decoy, &decoy_world(c));
        let f = root.parent().unwrap().join("eval.json");
        fs::write(&f, c.to_json().to_string()).unwrap();
        let o = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("eval")
            .arg(&f)
            .arg(root)
            .current_dir(&decoy)
            .env("NODE_PATH", decoy.join("node_modules"))
            .env("NODE_ENV", "production")
            .env("PWD", &decoy)
            .env("HOME", &decoy)
            .env("INIT_CWD", &decoy)
            .env("DEBUG", "1")
            .env("NODE_PRESERVE_SYMLINKS", "1")
            .env("NODE_OPTIONS", "--preserve-symlinks --conditions=browser")
            .env("TS_NODE_PROJECT", decoy.join("tsconfig.json"))
            .env("BROWSERSLIST", "node 4")
            .env("npm_package_main", "./y.js")
            .env("npm_config_prefix", &decoy)
            .env("npm_lifecycle_event", "build")
            .env("CI", "true")
            .env("RUST_LOG", "trace")
            .env("LC_ALL", "tr_TR.UTF-8")
            .env("TMPDIR", &decoy)
            .env("PATH", &decoy)
            .output()
            .expect("child");
        let b: Vec<String> = serde_json::from_slice::<Vec<String>>(&o.stdout).unwrap_or_default();
        wipe(&decoy);
        let _ = fs::remove_file(&f);
        if b.len() != a.len() {
            return Err(format!("the calls made in another process ended with {} and {} answers", o.status, b.len()));
        }
        obs.evals += a.len() as u64;
        obs.tag("other-process");
        cmp(b, "in another process with another working directory and environment")?;
    }
    // unrelated additions
    let w2 = add_unrelated(&c.world, &c.opts, &mut r);
    let added = w2.entries.len() as i64 - c.world.entries.len() as i64;
    obs.add("unrelated-entries-added", added.max(0) as u64);
    fresh_root(root, &w2);
    obs.evals += a.len() as u64;
    cmp(answers(c, &c.opts, root), "after unrelated additions")?;
    for (x, call) in a.iter().zip(&c.calls) {
        obs.tag(if x.starts_with("file") { "outcome:file" } else if x.starts_with("error") { "outcome:error" } else { "outcome:other" });
        if obs.nontrivial(hash_of(&[&ch, &call.base.as_str(), &call.req.as_str()])) {
            obs.sample(|| json!({"case": c.to_json(), "call": call_text(call), "observed": x}));
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C18
fn check_c18(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    let threads = std::env::var("MON_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(6usize);
    let rounds = std::env::var("MON_ROUNDS").ok().and_then(|x| x.parse().ok()).unwrap_or(3usize);
    fresh_root(root, &c.world);
    let mut optss = vec![c.opts.clone()];
    for a in c.extra["alts"].as_array().map(|x| x.as_slice()).unwrap_or(&[]) {
        optss.push(Opts::from_json(a));
    }
    let seed = c.extra["seed"].as_u64().unwrap_or(1);
    let alone = std::time::Instant::now();
    let want: Vec<Vec<String>> = optss
        .iter()
        .map(|o| c.calls.iter().map(|x| do_call(&o.resolver(root, None), root, x)).collect())
        .collect();
    let alone = alone.elapsed();
    let ch = case_hash(c);
    let quiet = threads;
    for round in 0..rounds {
        // now and then a crowd, of which most are inside of a call and wait for a processor
        let crowd = round == 1 && std::env::var("MON_THREADS").is_err() && seed % 24 == 5 && alone.as_millis() < 60;
        let threads = if crowd { *Rng::new(ch).pick(&[33, 64, 130, 260]) } else { quiet };
        if crowd {
            obs.tag("rounds-with-33-to-260-threads");
        }
        // cold caches every round: the first calls race for filling them
        let shared = Arc::new(ResolverCache::default());
        let rs: Vec<Resolver> = optss.iter().map(|o| o.resolver(root, Some(shared.clone()))).collect();
        let barrier = std::sync::Barrier::new(threads);
        let found: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
        let n_eval = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (rs, want, barrier, found, n_eval) = (&rs, &want, &barrier, &found, &n_eval);
                s.spawn(move || {
                    let mut r = Rng::new(seed ^ (t as u64) << 32 ^ round as u64);
                    let mut ord: Vec<(usize, usize)> = (0..rs.len()).flat_map(|i| (0..c.calls.len()).map(move |j| (i, j))).collect();
                    // half of the threads start with the same calls
                    if t % 2 == 0 {
                        r.shuffle(&mut ord);
                    }
                    barrier.wait();
                    for (i, j) in ord {
                        let got = do_call(&rs[i], root, &c.calls[j]);
                        n_eval.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if got != want[i][j] || got.contains("PANIC") {
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some(format!(
                                    "{} concurrently on resolver {i} of {} (thread {t} of {threads}): got {got}, alone {}",
                                    call_text(&c.calls[j]), rs.len(), want[i][j]
                                ));
                            }
                            return;
                        }
                    }
                });
            }
        });
        obs.evals += n_eval.load(std::sync::atomic::Ordering::Relaxed);
        obs.tag("concurrent-rounds");
        if let Some(f) = found.into_inner().unwrap() {
            return Err(f);
        }
    }
    if c.extra["churn"].as_bool() == Some(true) {
        churn(c, root, obs, &optss, seed, threads)?;
    }
    for (i, w) in want.iter().enumerate() {
        for (j, x) in w.iter().enumerate() {
            obs.tag(if x.starts_with("file") { "outcome:file" } else if x.starts_with("error") { "outcome:error" } else { "outcome:other" });
            if obs.nontrivial(hash_of(&[&ch, &i, &j])) {
                obs.sample(|| json!({"case": c.to_json(), "call": call_text(&c.calls[j]), "observed": x, "threads": threads}));
            }
        }
    }
    Ok(())
}
/// Description files are replaced while the calls run; afterwards everyone has to see the final state.
fn churn(c: &Case, root: &Path, obs: &mut Obs, optss: &[Opts], seed: u64, threads: usize) -> Verdict {
    let descs: Vec<String> = c
        .world
        .entries
        .iter()
        .filter(|(k, n)| matches!(n, Node::File(_)) && (k.ends_with("package.json") || k.ends_with("pkg.json")) && !has_link_ancestor(root, k))
        .map(|(k, _)| k.clone())
        .collect();
    if descs.is_empty() {
        return Ok(());
    }
    let shared = Arc::new(ResolverCache::default());
    let rs: Vec<Resolver> = optss.iter().map(|o| o.resolver(root, Some(shared.clone()))).collect();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let found: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
    let n_eval = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (rs, stop, found, n_eval) = (&rs, &stop, &found, &n_eval);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ 77 ^ (t as u64) << 24);
                let mut n = 0;
                while n < 40 || !stop.load(std::sync::atomic::Ordering::Relaxed) {
                    n += 1;
                    let (i, j) = (r.below(rs.len()), r.below(c.calls.len()));
                    let got = do_call(&rs[i], root, &c.calls[j]);
                    n_eval.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if got.contains("PANIC") {
                        *found.lock().unwrap() = Some(format!("{} while description files are replaced: {got}", call_text(&c.calls[j])));
                        return;
                    }
                    if n > 100_000 {
                        return;
                    }
                }
            });
        }
        let mut clock = Clock { used: BTreeSet::new(), last: 1_700_000_000, r: Rng::new(seed ^ 5) };
        let mut r = Rng::new(seed ^ 9);
        for i in 0..40 {
            let k = r.pick(&descs).clone();
            let content = match r.below(8) {
                0 => "{".to_string(),
                1 => "{}".to_string(),
                2..=4 => {
                    // contents of another one
                    match &c.world.entries[r.pick(&descs)] {
                        Node::File(t) => t.clone(),
                        _ => "{}".into(),
                    }
                }
                _ => match &c.world.entries[&k] {
                    Node::File(t) => t.clone(),
                    _ => "{}".into(),
                },
            };
            let e = if i % 11 == 10 {
                json!({"kind": "remove", "path": k, "content": null})
            } else {
                json!({"kind": "write", "path": k, "content": content, "how": *r.pick(&["rename", "rename", "inplace", "recreate"])})
            };
            // an in-place write shows intermediate states with the current time; the final stamp differs
            apply_edit(root, &e, &mut clock);
            if i % 4 == 0 {
                std::thread::yield_now();
            }
        }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
    });
    obs.evals += n_eval.load(std::sync::atomic::Ordering::Relaxed);
    obs.tag("churn-rounds");
    if let Some(f) = found.into_inner().unwrap() {
        return Err(f);
    }
    for (i, r) in rs.iter().enumerate() {
        for call in &c.calls {
            let got = do_call(r, root, call);
            let want = do_call(&optss[i].resolver(root, None), root, call);
            obs.evals += 1;
            if got != want {
                return Err(format!("{} after the changes ceased: got {got}, a fresh resolver answers {want}", call_text(call)));
            }
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C19
fn check_c19(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    fresh_root(root, &c.world);
    let r = c.opts.resolver(root, None);
    let m = Model::new(&c.opts, root);
    let ch = case_hash(c);
    for call in c.calls.iter().filter(|x| !x.se) {
        let base = base_path(root, &call.base);
        let req = req_of(call, root);
        obs.evals += 1;
        let out = resolve(&r, &base, &req);
        let text = match &out {
            Out::Err(e) => e.clone(),
            Out::Panic(p) => return Err(format!("{}: PANIC {p}", call_text(call))),
            _ => {
                obs.out(&out);
                continue;
            }
        };
        let shown = out.short(root);
        let bad = |why: String| Err(format!("{}: {shown}: {why}", call_text(call)));
        if text.trim().is_empty() || text == "T0" || text.trim().len() < 4 {
            return bad("an empty or internal error".into());
        }
        let again = resolve(&r, &base, &req);
        if again != out {
            return bad(format!("the second time it was: {}", again.short(root)));
        }
        let kind = match m.resolve(&base, &req) {
            Expect::Err(E::NotFound(msg)) => {
                if text != msg {
                    return bad(format!("expected {}", msg.replace(&root.display().to_string(), "{ROOT}")));
                }
                "error:not-found"
            }
            Expect::Err(E::Malformed(f)) => {
                if !norm_text(&text).contains(&norm_text(&f.display().to_string())) {
                    return bad(format!("does not name {}", f.display()));
                }
                "error:malformed"
            }
            Expect::Err(E::NotExported(t)) => {
                if !text.contains(&t) {
                    return bad(format!("does not name {t}"));
                }
                "error:not-exported"
            }
            Expect::Err(E::Recursion) => "error:recursion",
            Expect::Err(_) => "error:field",
            _ => continue,
        };
        obs.tag(kind);
        if obs.nontrivial(hash_of(&[&ch, &call.base.as_str(), &call.req.as_str()])) {
            obs.sample(|| json!({"case": c.to_json(), "call": call_text(call), "observed": shown}));
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C20
pub fn snapshot(root: &Path) -> BTreeMap<PathBuf, String> {
    let _root = User::enter(0);
    use std::os::unix::fs::MetadataExt;
    let mut out = BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(p) = todo.pop() {
        let m = match fs::symlink_metadata(&p) {
            Ok(m) => m,
            Err(_) => continue,
        };
        let body = if m.file_type().is_symlink() {
            fs::read_link(&p).map(|t| t.display().to_string()).unwrap_or_default()
        } else if m.is_dir() {
            for e in fs::read_dir(&p).into_iter().flatten().flatten() {
                todo.push(e.path());
            }
            "dir".into()
        } else {
            format!("{:?}", fs::read(&p).unwrap_or_default().len())
        };
        let content = if m.is_file() { hash_of(&[&fs::read(&p).unwrap_or_default().as_slice()]) } else { 0 };
        out.insert(
            p,
            format!(
                "{body} {content:x} mode={:o} ino={} nlink={} uid={} gid={} size={} mtime={}.{} ctime={}.{}",
                m.mode(), m.ino(), m.nlink(), m.uid(), m.gid(), m.size(), m.mtime(), m.mtime_nsec(), m.ctime(), m.ctime_nsec()
            ),
        );
    }
    out
}
/// Times, permissions and owners as they may be found on a disk.
fn unusual_state(root: &Path, r: &mut Rng, obs: &mut Obs) -> Option<User> {
    let _root = User::enter(0);
    let now = std::time::SystemTime::now();
    let s = std::time::Duration::from_secs;
    let owned = r.pct(30);
    let mut all: Vec<PathBuf> = snapshot(root).into_keys().collect();
    // the deepest first, so that a directory keeps its time
    all.sort_by_key(|p| std::cmp::Reverse(p.components().count()));
    let modes = r.pct(40);
    for p in &all {
        let md = match fs::symlink_metadata(p) {
            Ok(m) if m.is_file() || m.is_dir() => m,
            _ => continue,
        };
        if owned {
            let _ = std::os::unix::fs::chown(p, Some(65534), Some(65534));
        }
        if modes && r.pct(25) && p != root {
            use std::os::unix::fs::PermissionsExt;
            let m = if md.is_dir() { *r.pick(&[0o700, 0o555, 0o000, 0o111, 0o1777]) } else { *r.pick(&[0o600, 0o444, 0o000, 0o200, 0o4755, 0o777]) };
            let _ = fs::set_permissions(p, fs::Permissions::from_mode(m));
        }
        if r.pct(40) {
            let t = match r.below(6) {
                0 => now + s(1 + r.below(100) as u64),
                1 => now + s(315_360_000),
                2 => std::time::UNIX_EPOCH,
                3 => std::time::UNIX_EPOCH - s(1 + r.below(1_000_000) as u64),
                4 => std::time::UNIX_EPOCH + s(499_162_500),
                _ => now - s(r.below(100_000_000) as u64),
            };
            if let Ok(f) = fs::File::open(p) {
                let _ = f.set_times(fs::FileTimes::new().set_modified(t));
            }
        }
    }
    obs.tag(if owned { "state:owned-by-the-user" } else { "state:unusual-times" });
    owned.then(|| User::enter(65534))
}
fn check_c20(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    fresh_root(root, &c.world);
    let ch = case_hash(c);
    let mut sr = Rng::new(ch ^ 0x20);
    let _owner = if sr.pct(60) { unusual_state(root, &mut sr, obs) } else { None };
    let env = || std::env::vars_os().map(|(k, v)| format!("{k:?}={v:?}")).collect::<BTreeSet<_>>();
    let parent = root.parent().unwrap();
    let names = |d: &Path| fs::read_dir(d).map(|x| x.flatten().map(|e| e.file_name()).collect::<BTreeSet<_>>()).unwrap_or_default();
    let before = (snapshot(root), std::env::current_dir().ok(), env(), names(parent));
    let r = c.opts.resolver(root, None);
    let mut texts = vec![];
    for call in &c.calls {
        obs.evals += 1;
        texts.push(do_call(&r, root, call));
    }
    let after = (snapshot(root), std::env::current_dir().ok(), env(), names(parent));
    obs.add("tree-entries-compared", after.0.len() as u64);
    let all = c.calls.iter().map(call_text).collect::<Vec<_>>().join("; ");
    for (p, s) in &before.0 {
        match after.0.get(p) {
            None => return Err(format!("{} was removed by one of: {all}", p.display())),
            Some(t) if t != s => return Err(format!("{} changed from [{s}] to [{t}] by one of: {all}", p.display())),
            _ => {}
        }
    }
    if let Some(p) = after.0.keys().find(|p| !before.0.contains_key(*p)) {
        return Err(format!("{} was created by one of: {all}", p.display()));
    }
    if before.1 != after.1 || before.2 != after.2 || before.3 != after.3 {
        return Err(format!("working directory, environment or the directory above the tree changed by one of: {all}"));
    }
    for (x, call) in texts.iter().zip(&c.calls) {
        obs.tag(if x.starts_with("file") { "outcome:file" } else if x.starts_with("error") { "outcome:error" } else { "outcome:other" });
        if obs.nontrivial(hash_of(&[&ch, &call.base.as_str(), &call.req.as_str(), &call.se])) {
            obs.sample(|| json!({"case": c.to_json(), "call": call_text(call), "observed": x, "tree_entries": after.0.len()}));
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C21
fn check_c21(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    fresh_root(root, &c.world);
    let off_o = Opts { symlinks: false, ..c.opts.clone() };
    let on = Opts { symlinks: true, ..c.opts.clone() }.resolver(root, None);
    let off = off_o.resolver(root, None);
    let m = Model::new(&off_o, root);
    let ch = case_hash(c);
    for call in c.calls.iter().filter(|x| !x.se) {
        let base = base_path(root, &call.base);
        let req = req_of(call, root);
        let a = resolve(&on, &base, &req);
        let b = resolve(&off, &base, &req);
        obs.evals += 2;
        obs.out(&b);
        let ok = match (&a, &b) {
            (Out::File { path: p, query: q, fragment: f }, Out::File { path: p2, query: q2, fragment: f2 }) => {
                q == q2 && f == f2 && p2.canonicalize().ok().as_ref() == Some(p)
            }
            (x, y) => x.same_class(y),
        };
        if !ok {
            return Err(format!("{}: {} with symlinks on, {} with symlinks off", call_text(call), a.short(root), b.short(root)));
        }
        // links on the way are kept
        let e = m.resolve(&base, &req);
        if !e.agrees(&b) {
            return Err(format!("{} with symlinks off: got {}, expected {}", call_text(call), b.short(root), e.short(root)));
        }
        if a != b && a.is_file() {
            obs.tag("answer-through-a-link");
            if obs.nontrivial(hash_of(&[&ch, &call.base.as_str(), &call.req.as_str()])) {
                obs.sample(|| json!({"case": c.to_json(), "call": call_text(call), "on": a.short(root), "off": b.short(root)}));
            }
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C24
fn each_desc(w: &World, names: &[&str], f: &mut dyn FnMut(&mut Map<String, Value>)) -> World {
    let mut n = w.clone();
    for (k, node) in w.entries.iter() {
        let file = k.rsplit('/').next().unwrap();
        if !names.contains(&file) {
            continue;
        }
        if let Node::File(t) = node {
            if let Ok(Value::Object(mut m)) = serde_json::from_str::<Value>(t) {
                f(&mut m);
                n.entries.insert(k.clone(), Node::File(Value::Object(m).to_string()));
            }
        }
    }
    n
}
fn rename_conditions(v: &mut Value, known: &[String], to: &[&str]) {
    match v {
        Value::Object(m) => {
            let old = std::mem::take(m);
            for (k, mut x) in old {
                rename_conditions(&mut x, known, to);
                let sub = k.starts_with('.') || k.starts_with('#') || k.starts_with('/');
                let k2 = if sub || k == "default" || known.contains(&k) { k } else { format!("zzz-{k}") };
                // the name of a condition that is not configured either
                let k2 = match to.get(k2.len() % to.len().max(1)) {
                    Some(n) if k2.starts_with("zzz-") && !known.iter().any(|x| x == n) && !m.contains_key(*n) => n.to_string(),
                    _ => k2,
                };
                m.insert(k2, x);
            }
        }
        Value::Array(xs) => xs.iter_mut().for_each(|x| rename_conditions(x, known, to)),
        _ => {}
    }
}
/// a description file or tsconfig names such a directory
fn spells_modules(w: &World) -> bool {
    w.entries.values().any(|n| matches!(n, Node::File(t) if crate::vary::MODULES.iter().any(|m| t.contains(m)) || t.contains("\\u")))
}
fn check_c24(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    let ch = case_hash(c);
    let mut r = Rng::new(c.extra["seed"].as_u64().unwrap_or(1));
    let desc = c.opts.description_file.clone().unwrap_or("package.json".into());
    let cmp_calls = |obs: &mut Obs, calls: &[Call], name: &str, oa: &Opts, wa: &World, ob: &Opts, wb: &World| -> Verdict {
        fresh_root(root, wa);
        let ra = oa.resolver(root, None);
        let a: Vec<Out> = calls.iter().filter(|x| !x.se).map(|x| resolve(&ra, &base_path(root, &x.base), &req_of(x, root))).collect();
        fresh_root(root, wb);
        let rb = ob.resolver(root, None);
        let b: Vec<Out> = calls.iter().filter(|x| !x.se).map(|x| resolve(&rb, &base_path(root, &x.base), &req_of(x, root))).collect();
        obs.evals += (a.len() + b.len()) as u64;
        for ((x, y), call) in a.iter().zip(&b).zip(calls.iter().filter(|x| !x.se)) {
            if !x.same_class(y) {
                return Err(format!("{}: {} but {} ({name})", call_text(call), x.short(root), y.short(root)));
            }
            obs.out(x);
            if (wa != wb || oa != ob) && obs.nontrivial(hash_of(&[&ch, &name, &call.base.as_str(), &call.req.as_str()])) {
                obs.sample(|| json!({"case": c.to_json(), "call": call_text(call), "variation": name, "observed": x.short(root)}));
            }
        }
        if wa != wb || oa != ob {
            obs.tag(&format!("variation:{name}"));
        }
        Ok(())
    };
    let cmp = |obs: &mut Obs, name: &str, oa: &Opts, wa: &World, ob: &Opts, wb: &World| cmp_calls(obs, &c.calls, name, oa, wa, ob, wb);
    let o = &c.opts;
    let w = &c.world;
    // no description file configured: their contents do not matter
    // (a tsconfig may `extend` any file, also one that would be a description file)
    let extends = w.entries.values().any(|n| matches!(n, Node::File(t) if t.contains("extends")));
    let none = Opts { description_file: None, tsconfig: o.tsconfig.clone().filter(|_| !extends), ..o.clone() };
    let mut garbage = w.clone();
    for (k, n) in w.entries.iter() {
        if k.ends_with(&desc) && matches!(n, Node::File(_)) {
            let t = *r.pick(&["{", "", "{\"main\":\"y\",\"exports\":{\".\":\"./zzz.js\"},\"browser\":{\"./x.js\":false,\"p\":false},\"name\":\"p\"}"]);
            garbage.entries.insert(k.clone(), Node::File(t.into()));
        }
    }
    cmp(obs, "no description file configured, their contents exchanged", &none, w, &none, &garbage)?;
    let rn = none.resolver(root, None);
    for d in w.dirs().iter().take(4) {
        let se = side_effects(&rn, &base_path(root, d));
        obs.evals += 1;
        if se != Se::None {
            return Err(format!("load_side_effects({d:?}) without a description file configured: {}", se.short(root)));
        }
    }
    // browser_field off
    let off = Opts { browser_field: false, ..o.clone() };
    let bmain = o.main_fields.iter().any(|x| x == "browser");
    let w2 = each_desc(w, &[&desc], &mut |m| {
        if let Some(b) = m.get("browser") {
            if b.is_object() || !bmain {
                m.shift_remove("browser");
            }
        }
    });
    cmp(obs, "browser_field off, browser entries removed", &off, w, &off, &w2)?;
    // conditions that are not configured
    let conds = o.conditions.clone();
    let w3 = each_desc(w, &[&desc], &mut |m| {
        for f in ["exports", "imports"] {
            if let Some(v) = m.get_mut(f) {
                rename_conditions(v, &conds, &[]);
            }
        }
    });
    cmp(obs, "keys of conditions that are not configured renamed", o, w, o, &w3)?;
    let to: Vec<&str> = (0..6).map(|_| *r.pick(&crate::vary::CONDITIONS)).collect();
    let w3 = each_desc(w, &[&desc], &mut |m| {
        for f in ["exports", "imports"] {
            if let Some(v) = m.get_mut(f) {
                rename_conditions(v, &conds, &to);
            }
        }
    });
    cmp(obs, "keys of conditions that are not configured given names known elsewhere", o, w, o, &w3)?;
    // main fields that are not configured, and other unknown fields
    let fields = ["main", "module", "jsnext:main", "style", "types", "esnext", "typings"];
    let w4 = each_desc(w, &[&desc], &mut |m| {
        if !bmain && m.get("browser").map_or(true, |b| b.is_string()) && r.pct(50) {
            m.insert("browser".into(), json!(*r.pick(&["./x.js", "./zzz.js", "./y", "x", "./lib", "."])));
        }
        for f in fields {
            if !o.main_fields.iter().any(|x| x == f) {
                match r.below(3) {
                    0 => {
                        m.shift_remove(f);
                    }
                    1 => {
                        m.insert(f.into(), json!("./zzz.js"));
                    }
                    _ => {
                        m.insert(f.into(), json!("./x.js"));
                    }
                }
            }
        }
    });
    cmp(obs, "main fields that are not configured changed", o, w, o, &w4)?;
    // files with an extension that is not configured, main files that are not
    let mut w5 = w.clone();
    for f in w.files() {
        if r.pct(30) && f.rsplit('/').next().unwrap().len() < 240 {
            w5.file(&format!("{f}.zzz"), "");
            if let Some(i) = f.rfind('.') {
                w5.file(&format!("{}.zzz", &f[..i]), "");
            }
        }
    }
    for d in w.dirs() {
        if r.pct(40) {
            w5.file(&format!("{d}/zzz-index.js"), "");
            w5.file(&format!("{d}/x.zzz"), "");
            w5.file(&format!("{d}/index.zzz"), "");
        }
    }
    cmp(obs, "files with an extension or name that is not configured added", o, w, o, &w5)?;
    // directories of modules under other names
    let others = format!("{} {}", Value::Array(c.calls.iter().map(|x| json!([x.base, x.req])).collect()), json!([w.entries.keys().collect::<Vec<_>>(), o.to_json()]));
    if !w.entries.values().any(|n| matches!(n, Node::Link(t) if crate::vary::MODULES.iter().any(|m| t.contains(m)))) && !crate::vary::MODULES.iter().any(|m| others.contains(m)) && !spells_modules(w) {
        let mut wm = w.clone();
        crate::vary::other_modules(&mut wm, &mut r);
        cmp(obs, "directories of modules under other names added", o, w, o, &wm)?;
    }
    // the usual names, where neither the options nor anything else names them
    let words: Vec<(String, String)> = [("index", "zindex"), ("js", "zs"), ("ts", "zt")].map(|(a, b)| (a.to_string(), b.to_string())).to_vec();
    let n = Case::from_json(&crate::vary::rename_in(&c.to_json(), &words));
    let mut on = n.opts.clone();
    for list in [&mut on.main_files, &mut on.extensions, &mut on.main_fields, &mut on.conditions] {
        if r.pct(25) {
            list.clear();
        }
        list.iter_mut().for_each(|x| *x = crate::vary::renamed(x, &words));
    }
    let text = n.to_json().to_string();
    let escaped = n.world.entries.values().any(|x| matches!(x, Node::File(t) if t.contains('\\')));
    let spelled = text.replace("zindex", "").contains("index");
    if !escaped && !spelled && !n.world.entries.keys().any(|k| k.len() > 2500 || k.split('/').any(|x| x.len() > 230)) {
        let unnamed = |f: &&str| f.rfind('.').map_or(true, |i| !text.contains(&f[i..]));
        let mut wu = n.world.clone();
        for d in n.world.dirs() {
            let pre = if d.is_empty() { String::new() } else { format!("{d}/") };
            for f in ["index", "index.js", "index.ts", "index.mjs", "index.zs", "index.json", "index.node", "index.jsx"].iter().filter(|f| **f == "index.zs" || **f == "index.json" || unnamed(f)) {
                if r.pct(40) {
                    wu.file(&format!("{pre}{f}"), "");
                }
            }
            // a directory of that name
            if r.pct(10) && !wu.entries.contains_key(&format!("{pre}index")) {
                wu.file(&format!("{pre}index/x"), "");
                wu.file(&format!("{pre}index/zindex.zs"), "");
            }
        }
        for f in n.world.files() {
            let e = *r.pick(&[".js", ".ts", ".mjs", ".cjs", ".jsx", ".d.ts"]);
            if r.pct(40) && unnamed(&e) {
                wu.file(&format!("{f}{e}"), "");
                if let Some(i) = f.rfind('.').filter(|i| *i > f.rfind('/').map_or(0, |x| x + 1)) {
                    wu.file(&format!("{}{e}", &f[..i]), "");
                }
            }
        }
        cmp_calls(obs, &n.calls, "the usual names, when they are not configured, added", &on, &n.world, &on, &wu)?;
    }
    // aliases that match nothing
    let mut oa = o.clone();
    let at = r.below(oa.alias.len() + 1);
    oa.alias.insert(at, ("zzz-no-such".into(), Some("./x".into())));
    oa.alias.push(("zzz-neither".into(), None));
    cmp(obs, "aliases that match nothing added", o, w, &oa, w)?;
    // files that are used when they are configured
    if o.tsconfig.is_none() && desc != "tsconfig.json" && !c.calls.iter().any(|x| x.req.contains("config") || x.req.contains("pnp")) {
        let mut wn = w.clone();
        let stems = ["x", "x.js", "index.js", "y.js", "lib"];
        for d in w.dirs() {
            if !r.pct(50) || d.len() > 2000 {
                continue;
            }
            let pre = if d.is_empty() { String::new() } else { format!("{d}/") };
            let t = *r.pick(&stems);
            let text = json!({"compilerOptions": {"baseUrl": ".", "paths": {"*": [format!("./{t}")], "./*": [format!("./{t}")], "p": [format!("./{t}")], "#*": [format!("./{t}")], "x/*": ["./*", "../*"]}}}).to_string();
            let name = *r.pick(&["tsconfig.json", "tsconfig.json", "tsconfig.base.json", "jsconfig.json", "tsconfig", "tsconfig.app.json"]);
            wn.file(&format!("{pre}{name}"), &text);
            if r.pct(30) {
                wn.file(&format!("{pre}.pnp.cjs"), "module.exports = {}");
                wn.file(&format!("{pre}.pnp.data.json"), "{}");
            }
        }
        cmp(obs, "tsconfig files that are not configured added", o, w, o, &wn)?;
    }
    // a tsconfig that matches nothing
    if o.tsconfig.is_none() {
        let mut wt = w.clone();
        let body = *r.pick(&[
            "{\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"zzz-no-such\":[\"./x\"],\"zzz-no/*\":[\"./*\"]}}}",
            "{\"compilerOptions\":{\"baseUrl\":\".\"}}",
            "{\"compilerOptions\":{\"paths\":{\"*\":[\"./x\"]}}}",
            "{}",
            "// nothing\n{\"compilerOptions\":{\"baseUrl\":\"lib\",\"paths\":{}}}",
        ]);
        wt.file("zzz-ts/tsconfig.json", body);
        let ot = Opts { tsconfig: Some("zzz-ts/tsconfig.json".into()), ..o.clone() };
        cmp(obs, "a tsconfig whose paths match nothing", o, &wt, &ot, &wt)?;
    }
    Ok(())
}

/// Cases with restricted permissions run as an unprivileged user, whom they restrict.
fn user_of(c: &Case) -> Option<User> {
    (!c.world.modes.is_empty()).then(|| User::enter(65534))
}
pub fn check(c: &Case, root: &Path, obs: &mut Obs) -> Verdict {
    let _user = user_of(c);
    if _user.is_some() {
        obs.add("run-as-unprivileged-user", 1);
    }
    match c.prop.as_str() {
        "C01" => check_c01(c, root, obs),
        "C02" => check_c02(c, root, obs),
        "C13" => check_c13(c, root, obs),
        "C15" => check_c15(c, root, obs),
        "C16" => check_c16(c, root, obs),
        "C17" => check_c17(c, root, obs),
        "C18" => check_c18(c, root, obs),
        "C19" => check_c19(c, root, obs),
        "C20" => check_c20(c, root, obs),
        "C21" => check_c21(c, root, obs),
        "C22" => crate::special::check_c22(c, obs),
        "C23" => crate::special::check_c23(c, root, obs),
        "C24" => check_c24(c, root, obs),
        p => model_check(c, root, obs, p),
    }
}
