//! Workload generators: small worlds with colliding names, aimed at one property each, and a mixed
//! mode combining the ingredients. Everything is a function of the PRNG state.
use crate::core::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub base: String,
    pub req: String,
    /// load_side_effects(base) instead of resolve(base, req)
    pub se: bool,
}
#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub world: World,
    pub opts: Opts,
    pub calls: Vec<Call>,
    pub extra: Value,
}
impl Case {
    pub fn to_json(&self) -> Value {
        json!({"prop": self.prop, "world": self.world.to_json(), "opts": self.opts.to_json(),
          "calls": self.calls.iter().map(|c| if c.se { json!([c.base]) } else { json!([c.base, c.req]) }).collect::<Vec<_>>(),
          "extra": self.extra})
    }
    pub fn from_json(v: &Value) -> Case {
        Case {
            prop: v["prop"].as_str().unwrap_or("").to_string(),
            world: World::from_json(&v["world"]),
            opts: Opts::from_json(&v["opts"]),
            calls: v["calls"]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| Call {
                    base: c[0].as_str().unwrap().into(),
                    req: c[1].as_str().unwrap_or("").into(),
                    se: c.get(1).is_none(),
                })
                .collect(),
            extra: v.get("extra").cloned().unwrap_or(Value::Null),
        }
    }
}

pub const STEMS: [&str; 6] = ["x", "y", "index", "main", "é", "x.y"];
pub const DIRS: [&str; 5] = ["a", "b", "lib", "src", "x"];
pub const PKGS: [&str; 9] = ["p", "q", "p-x", "pq", "@s/p", "@s/q", "@t/p", "é", "x"];
pub const QF: [&str; 14] = [
    "?q", "#f", "?q#f", "?a?b", "#f?x", "?q#f#g", "?é#ü", "?", "#", "?#", "?./x", "#../y", "?a=b&c=/d/../e#h/i",
    "?q#f?r#s",
];

pub struct G {
    pub r: Rng,
    pub w: World,
    pub o: Opts,
    pub calls: Vec<Call>,
    pub extra: Value,
}

fn s(x: &str) -> String {
    x.to_string()
}
fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        s(b)
    } else if b.is_empty() {
        s(a)
    } else {
        format!("{a}/{b}")
    }
}
pub fn rel(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').filter(|x| !x.is_empty()).collect();
    let t: Vec<&str> = to.split('/').filter(|x| !x.is_empty()).collect();
    let c = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    let mut out: Vec<&str> = vec![".."; f.len() - c];
    out.extend(&t[c..]);
    let j = out.join("/");
    if j.is_empty() {
        s(".")
    } else if j.starts_with("..") && (j == ".." || j.starts_with("../")) {
        j
    } else {
        format!("./{j}")
    }
}

impl G {
    pub fn new(r: Rng) -> G {
        G { r, w: World::new(), o: Opts::default(), calls: vec![], extra: Value::Null }
    }
    pub fn case(self, prop: &str) -> Case {
        Case { prop: s(prop), world: self.w, opts: self.o, calls: self.calls, extra: self.extra }
    }
    pub fn p(&mut self, n: usize) -> bool {
        self.r.pct(n)
    }
    pub fn of<'b>(&mut self, xs: &[&'b str]) -> &'b str {
        xs[self.r.below(xs.len())]
    }
    fn pick_s(&mut self, xs: &[String]) -> String {
        if xs.is_empty() {
            String::new()
        } else {
            xs[self.r.below(xs.len())].clone()
        }
    }
    /// random subset in random order
    pub fn subset(&mut self, xs: &[&str], pct: usize) -> Vec<String> {
        let mut v: Vec<String> = xs.iter().filter(|_| self.r.pct(pct)).map(|x| s(x)).collect();
        self.r.shuffle(&mut v);
        v
    }
    pub fn call(&mut self, base: &str, req: &str) {
        self.calls.push(Call { base: s(base), req: s(req), se: false });
    }

    // ---------------------------------------------------------------- ingredients
    pub fn file(&mut self, p: &str) {
        let c = if p.ends_with(".json") && !p.ends_with("package.json") { "{}" } else { "" };
        self.w.file(p, c);
    }
    /// some files become named pipes or links to a device: they exist, but no regular files
    pub fn special_files(&mut self, n: usize) {
        let dn = self.desc_name();
        let plain: Vec<String> = self
            .w
            .entries
            .iter()
            .filter(|(k, n)| matches!(n, Node::File(c) if c.is_empty()) && **k != dn && !k.ends_with(&format!("/{dn}")) && !k.ends_with("config.json") && !k.contains("base"))
            .map(|(k, _)| k.clone())
            .collect();
        if plain.is_empty() {
            return;
        }
        for _ in 0..n {
            let f = self.pick_s(&plain);
            let n = if self.p(65) { Node::File(s("{FIFO}")) } else { Node::Link(s("/dev/null")) };
            self.w.entries.insert(f, n);
        }
    }
    /// a few files (with colliding stems) in a directory
    pub fn files_in(&mut self, d: &str, n: usize) {
        for _ in 0..n {
            let st = self.of(&STEMS);
            let e = match self.r.below(8) {
                0 => "",
                1 => ".json",
                2 => ".ts",
                3 => ".js.js",
                4 => ".node",
                _ => ".js",
            };
            let p = join(d, &format!("{st}{e}"));
            if self.p(6) {
                self.w.dir(&p);
            } else {
                self.file(&p);
            }
        }
    }
    /// 1..=n directories below `top`, `top` included
    pub fn dirs_below(&mut self, top: &str, n: usize) -> Vec<String> {
        let mut ds = vec![s(top)];
        if self.p(7) {
            // a deep one
            for _ in 0..4 + self.r.below(9) {
                let d = join(&ds[ds.len() - 1].clone(), self.of(&DIRS));
                self.w.dir(&d);
                ds.push(d);
            }
        }
        for _ in 0..n {
            let parent = self.pick_s(&ds);
            let d = join(&parent, self.of(&DIRS));
            self.w.dir(&d);
            if !ds.contains(&d) {
                ds.push(d);
            }
        }
        ds
    }
    pub fn ext_options(&mut self) {
        match self.r.below(4) {
            0 => {}
            1 => self.o.extensions = self.subset(&[".js", ".json", ".ts", ".node", ".mjs"], 60),
            2 => self.o.extensions = self.subset(&[".js", ".json", ".ts", "", ".js.js"], 60),
            _ => {
                self.o.extensions = self.subset(&[".ts", ".js", ".json"], 80);
                self.o.enforce_extension = *self.r.pick(&[None, Some(true), Some(false)]);
            }
        }
    }
    pub fn opt_main_files(&mut self) {
        if self.p(30) {
            self.o.main_files = self.subset(&["index", "main", "x", "x.js", "lib/x", "é"], 50);
        }
    }
    pub fn opt_main_fields(&mut self) {
        if self.p(50) {
            self.o.main_fields = self.subset(&["main", "module", "jsnext:main", "style"], 65);
        }
    }
    /// a path below `d` that probably exists, as written in a field
    fn local_target(&mut self, d: &str) -> String {
        let pre = if d.is_empty() { s("") } else { format!("{d}/") };
        let here: Vec<String> = self
            .w
            .entries
            .keys()
            .filter(|k| k.starts_with(&pre) && !k[pre.len()..].contains("node_modules"))
            .map(|k| s(&k[pre.len()..]))
            .collect();
        if here.is_empty() || self.p(15) {
            s(self.of(&["x.js", "lib/x.js", "missing", "lib", "y", "é.js", "x"]))
        } else {
            self.pick_s(&here)
        }
    }
    fn drop_ext(&mut self, p: &str, pct: usize) -> String {
        if self.p(pct) {
            if let Some(i) = p.rfind('.') {
                if !p[i..].contains('/') && i > 0 && !p[..i].ends_with('/') {
                    return s(&p[..i]);
                }
            }
        }
        s(p)
    }
    pub fn main_value(&mut self, d: &str) -> Value {
        match self.r.below(14) {
            0 => json!(self.of(&[".", "./", "", "./.", "..", "../", "./..", "lib/..", ".//"])),
            1 => json!(self.of(&["../y", "../b", "../x.js", "../p", "/x.js", "./missing", "missing/x"])),
            2 => self.r.pick(&[json!(1), json!(true), json!({"a": "./x.js"}), json!(["./x.js"]), json!(null)]).clone(),
            _ => {
                let t = self.local_target(d);
                let t = self.drop_ext(&t, 50);
                let pre = self.of(&["./", "", "", "./", ".//", "././"]);
                let post = if self.p(8) { "/" } else { "" };
                json!(format!("{pre}{t}{post}"))
            }
        }
    }
    pub fn put_main(&mut self, d: &str, m: &mut Map<String, Value>) {
        for f in ["main", "module", "jsnext:main", "style", "browser"] {
            let pct = if f == "main" { 60 } else { 30 };
            if f == "browser" && !self.p(20) {
                continue;
            }
            if self.p(pct) && !m.contains_key(f) {
                let v = self.main_value(d);
                m.insert(s(f), v);
            }
        }
    }
    pub fn desc_name(&self) -> String {
        self.o.description_file.clone().unwrap_or_else(|| s("package.json"))
    }
    pub fn write_desc(&mut self, d: &str, m: Map<String, Value>) {
        let n = self.desc_name();
        self.w.json(&join(d, &n), &Value::Object(m));
    }

    // ---------------------------------------------------------------- exports / imports
    fn leaf(&mut self, d: &str, folder: bool, pattern: bool, exports: bool) -> Value {
        let dot = if exports { "./" } else { self.of(&["./", "./", "./", ""]) };
        let t = match self.r.below(20) {
            0 => s(self.of(&["../out.js", "./../out.js", "./lib/../../out.js", "./..", "x.js", "/x.js", "./lib/../x.js", "./x//../y.js"])),
            1 => s(self.of(&["./missing.js", "./lib", "./", ".", "", "#x", "#y", "./x", "y.js"])),
            _ => {
                let t = self.local_target(d);
                format!("{dot}{t}")
            }
        };
        let t = if folder && self.p(93) {
            let dir = match t.rfind('/') {
                Some(i) if i > 1 => s(&t[..=i]),
                _ => s(self.of(&["./lib/", "./", "./dist/", "./src/", "./node_modules/", "./lib//"])),
            };
            dir
        } else if pattern && self.p(90) {
            match self.r.below(5) {
                0 => s(self.of(&["./lib/*.js", "./*.js", "./dist/*", "./*", "./lib/*/x.js", "./lib/*", "./*/*.js", "./src/*.js", "./l*", "./../*", "./lib/../*", "./node_modules/*"])),
                _ => {
                    // replace one segment's stem by '*'
                    let i = t.rfind('/').map(|i| i + 1).unwrap_or(0);
                    let (head, tail) = t.split_at(i);
                    let e = tail.find('.').map(|j| &tail[j..]).unwrap_or("");
                    match self.r.below(3) {
                        0 => format!("{head}*"),
                        1 => format!("{head}*{e}"),
                        _ => format!("{head}{}*{e}", tail.chars().next().map(String::from).unwrap_or_default()),
                    }
                }
            }
        } else {
            t
        };
        // a query or fragment of its own, which is not part of the path
        let own = if self.p(5) { self.of(&["?x", "#f", "?x/../../..", "?../..", "#../../y", "?node_modules/p", "?x#/../..", "?*", "#*", "?", "#"]) } else { "" };
        json!(t + own)
    }
    pub const CONDS: [&'static str; 6] = ["node", "import", "require", "browser", "webpack", "default"];
    fn target_value(&mut self, d: &str, folder: bool, pattern: bool, exports: bool, depth: usize, in_arr: bool) -> Value {
        match self.r.below(if depth > 2 { 10 } else { 20 }) {
            0 => Value::Null,
            1..=9 => self.leaf(d, folder, pattern, exports),
            10..=15 => {
                let mut m = Map::new();
                let n = 1 + self.r.below(4);
                for _ in 0..n {
                    let c = if self.p(6) { self.of(&crate::vary::CONDITIONS) } else { self.of(&Self::CONDS) };
                    if c == "default" && !self.p(50) {
                        continue;
                    }
                    let v = self.target_value(d, folder, pattern, exports, depth + 1, false);
                    m.insert(s(c), v);
                }
                if m.contains_key("default") && self.p(92) {
                    let v = m.shift_remove("default").unwrap();
                    m.insert(s("default"), v);
                }
                Value::Object(m)
            }
            16 if self.p(12) => self.r.pick(&[json!(true), json!(3), json!([["./x.js"]])]).clone(),
            _ if !in_arr => {
                let n = self.r.below(4);
                json!((0..n)
                    .map(|_| self.target_value(d, folder, pattern, exports, depth + 1, true))
                    .collect::<Vec<_>>())
            }
            _ => self.leaf(d, folder, pattern, exports),
        }
    }
    /// `lead` is "./" or "#"
    fn field_key(&mut self, lead: &str, d: &str) -> String {
        let body = match self.r.below(10) {
            0..=3 => s(self.of(&[
                "x", "lib", "lib/x", "a/b/c", "a/b", "x.js", "é", "lib/x.js", "a/b/c/d.js", "main",
            ])),
            4 | 5 => s(self.of(&["lib/", "a/", "a/b/", "", "é/", "lib/a/", "x/"])),
            6 | 7 => s(self.of(&[
                "lib/*", "*", "l*", "lib/x*", "a/*", "a/b/*", "a/b*", "é*", "lib/é*", "x*", "a/b/c*", "lib/a/*",
            ])),
            8 => s(self.of(&["*/x", "a/*/c", "*.js", "lib/*.js", ".", "..", "a//b", "a/./b", "$", "a/$*"])),
            _ => {
                let t = self.local_target(d);
                self.drop_ext(&t, 40)
            }
        };
        if lead == "#" && body.starts_with('/') || (lead == "#" && body.is_empty()) {
            return s("#i");
        }
        format!("{lead}{body}")
    }
    pub fn exports_value(&mut self, d: &str) -> Value {
        match self.r.below(12) {
            0 => self.leaf(d, false, false, true),
            1 => self.target_value(d, false, false, true, 0, false),
            2 => self.r.pick(&[json!({}), json!([]), json!(null), json!(""), json!("./"), json!({"default": null})]).clone(),
            3 if self.p(25) => self
                .r
                .pick(&[json!({"./x": "./x.js", "node": "./x.js"}), json!(5), json!({"./x": 1}), json!({"../x": "./x.js"}), json!({"/x": "./x.js"}), json!({".x":"./x.js"})])
                .clone(),
            _ => {
                let mut m = Map::new();
                if self.p(60) {
                    let v = self.target_value(d, false, false, true, 0, false);
                    m.insert(s("."), v);
                }
                for _ in 0..1 + self.r.below(5) {
                    let k = self.field_key("./", d);
                    let (f, p) = (k.ends_with('/'), k.ends_with('*'));
                    let v = self.target_value(d, f, p, true, 0, false);
                    m.insert(k, v);
                }
                if self.p(30) {
                    let mut es: Vec<(String, Value)> = m.into_iter().collect();
                    self.r.shuffle(&mut es);
                    m = es.into_iter().collect();
                }
                Value::Object(m)
            }
        }
    }
    pub fn imports_value(&mut self, d: &str) -> Value {
        if self.p(4) {
            return self
                .r
                .pick(&[json!({}), json!(null), json!("x"), json!([]), json!({"x": "./x.js"}), json!({"#": "./x"}), json!({"#/x": "./x.js"}), json!({"#x": 1})])
                .clone();
        }
        let mut m = Map::new();
        for _ in 0..1 + self.r.below(5) {
            let k = self.field_key("#", d);
            let (f, p) = (k.ends_with('/'), k.ends_with('*'));
            let v = if self.p(30) && !f {
                let star = if p && self.p(70) { "/*" } else { "" };
                json!(format!("{}{star}", self.of(&["p", "q", "@s/p", "p/x", "#x", "#lib/x", "#i", "p/lib/x", "@s/p/x", "x", "pq", "p?q", "./x.js?q#f"])))
            } else {
                self.target_value(d, f, p, false, 0, false)
            };
            m.insert(k, v);
        }
        if self.p(3) {
            // one that grows
            let k = s(self.of(&["#*", "#x*", "#lib/*", "#a/b*"]));
            let v = match self.r.below(4) {
                0 => format!("{k}/*"),
                1 => format!("{k}*"),
                2 => format!("{k}/x"),
                _ => format!("{k}/*/x/*/*"),
            };
            m.insert(k, json!(v));
        }
        if self.p(15) {
            // a chain through the field itself
            let n = 2 + self.r.below(5);
            let star = self.p(35);
            let (ks, vs) = if star { ("/*", "/*") } else { ("", "") };
            for i in 0..n {
                let to = format!("#c{}{vs}", i + 1);
                let v = match self.r.below(4) {
                    0 => json!({"node": to, "default": to}),
                    1 if self.p(30) => json!({"default": [to]}),
                    _ => json!(to),
                };
                m.insert(format!("#c{i}{ks}"), v);
            }
            let v = if star || self.p(30) {
                json!(format!("{}{vs}", self.of(&["p", "q", ".", "./lib", "p/lib", "@s/p"])))
            } else {
                self.target_value(d, false, false, false, 2, false)
            };
            m.insert(format!("#c{n}{ks}"), v);
            if self.p(50) {
                let mut es: Vec<(String, Value)> = m.into_iter().collect();
                self.r.shuffle(&mut es);
                m = es.into_iter().collect();
            }
        }
        Value::Object(m)
    }
    pub fn opt_conditions(&mut self) {
        self.o.conditions = match self.r.below(4) {
            0 => vec![s("node")],
            1 => vec![],
            _ => self.subset(&["node", "import", "require", "browser", "webpack", "default"], 50),
        };
    }
    /// subpaths worth asking for, given the keys of a field
    pub fn subpaths(&mut self, field: &Value, lead: &str, d: &str) -> Vec<String> {
        let mut out: BTreeSet<String> = BTreeSet::new();
        if let Some(m) = field.as_object() {
            for k in m.keys() {
                let k = match k.strip_prefix(lead) {
                    Some(k) => k,
                    None => continue,
                };
                if let Some(pre) = k.strip_suffix('*').or_else(|| if k.is_empty() || k.ends_with('/') { Some(k) } else { None }) {
                    for _ in 0..2 {
                        let t = self.local_target(d);
                        let t = match self.r.below(9) {
                            0 => s(self.of(&["x", "x.js", "a$b", "$1.js", "é.js", "b/c", "*", ""])),
                            1 => s(self.of(&["../../out.js", "/../../out.js", "..//../out.js", "./../../out.js", "//../out.js", "../x.js", "a/../../../out.js", "..", "%2e%2e/out.js", "..\\out.js"])),
                            2 | 3 | 4 => {
                                // only the last segments
                                let segs: Vec<&str> = t.split('/').collect();
                                segs[segs.len() - 1 - self.r.below(segs.len())..].join("/")
                            }
                            5 => t.split('/').last().unwrap_or("").chars().skip(1).collect(),
                            _ => t,
                        };
                        let t = self.drop_ext(&t, 30);
                        out.insert(format!("{pre}{t}"));
                    }
                } else {
                    out.insert(s(k));
                    if self.p(20) {
                        out.insert(format!("{k}{}", self.of(&["/x", ".js", "x", "/", "/../x.js"])));
                    }
                }
            }
        }
        for _ in 0..2 {
            let t = self.local_target(d);
            out.insert(self.drop_ext(&t, 40));
        }
        if self.p(30) {
            out.insert(self.field_key("", d).trim_start_matches('/').to_string());
        }
        out.into_iter().collect()
    }

    // ---------------------------------------------------------------- browser
    pub fn browser_value(&mut self, d: &str) -> Value {
        let mut m = Map::new();
        for _ in 0..1 + self.r.below(5) {
            let k = match self.r.below(8) {
                0 | 1 => s(self.of(&["p", "q", "@s/p", "p/x", "x", "fs", "pq"])),
                2 => s(self.of(&["./missing", "./missing.js", "../x.js", "./lib/../x.js", "x.js", "lib/x.js", "./."])),
                _ => {
                    let t = self.local_target(d);
                    let t = self.drop_ext(&t, 35);
                    format!("./{t}")
                }
            };
            let v = match self.r.below(12) {
                0 | 1 => json!(false),
                2 => json!(true),
                3 => self.r.pick(&[json!(null), json!(1), json!({}), json!("")]).clone(),
                4 => json!(self.of(&["p", "q", "@s/p", "p/x", "q/lib/x.js", "#x", "pq", "@s/p/x"])),
                5 if !m.is_empty() => {
                    let ks: Vec<String> = m.keys().cloned().collect();
                    json!(self.pick_s(&ks))
                }
                6 => json!(k),
                _ => {
                    let t = self.local_target(d);
                    let t = self.drop_ext(&t, 30);
                    json!(format!("{}{t}", self.of(&["./", "./", ""])))
                }
            };
            m.insert(k, v);
        }
        Value::Object(m)
    }

    // ---------------------------------------------------------------- packages
    /// A package directory with files; `m` gets the fields asked for.
    pub fn package(&mut self, d: &str, k: &Knobs) {
        self.w.dir(d);
        let n = self.r.below(4);
        self.files_in(d, n);
        if self.p(60) {
            let sub = self.of(&["lib", "src", "dist", "a/b", "x", "a"]);
            let dd = join(d, sub);
            let n = 1 + self.r.below(3);
            self.files_in(&dd, n);
            if self.p(k.nested_desc) {
                let mut m = Map::new();
                if self.p(30) {
                    self.put_main(&dd, &mut m);
                }
                if self.p(k.exports / 2) {
                    let v = self.exports_value(&dd);
                    m.insert(s("exports"), v);
                }
                if self.p(20) {
                    m.insert(s("name"), json!(self.of(&PKGS)));
                }
                if self.p(k.browser / 2) {
                    let v = self.browser_value(&dd);
                    m.insert(s("browser"), v);
                }
                self.write_desc(&dd, m);
            }
        }
        if self.p(k.desc) {
            let m = self.desc_fields(d, k);
            self.write_desc(d, m);
        }
        if self.p(k.malformed) {
            let n = self.desc_name();
            let c = self.of(&["{", "", "[1,]", "{\"main\":}", "\u{feff}{}", "nul", "{\"sideEffects\":1}", "{\"exports\":{\"./a\":1}}"]);
            self.w.entries.remove(&join(d, &n));
            self.w.file(&join(d, &n), c);
        }
    }
    pub fn desc_fields(&mut self, d: &str, k: &Knobs) -> Map<String, Value> {
        let mut m = Map::new();
        if self.p(60) {
            let own = d.rsplit_once("node_modules/").map(|x| s(x.1)).unwrap_or_else(|| s(self.of(&PKGS)));
            let name = if self.p(75) { own } else { s(self.of(&PKGS)) };
            m.insert(s("name"), json!(name));
            if self.p(50) {
                let v = self.of(&["1.0.0", "1.0.0", "1.0.0", "2.0.0", "", "1.0.0-é", "*"]);
                m.insert(s("version"), json!(v));
            }
        }
        if self.p(k.main) {
            self.put_main(d, &mut m);
        }
        if self.p(k.exports) {
            let v = self.exports_value(d);
            m.insert(s("exports"), v);
        }
        if self.p(k.imports) {
            let v = self.imports_value(d);
            m.insert(s("imports"), v);
        }
        if self.p(k.browser) {
            let v = self.browser_value(d);
            m.insert(s("browser"), v);
        }
        if self.p(k.side) {
            let v = self
                .r
                .pick(&[json!(true), json!(false), json!([]), json!(["./x.js", "*.css", "é"]), json!(["b", "a", "b"]), json!(["", "x"]), json!([" x ", "./", "!x"])])
                .clone();
            m.insert(s("sideEffects"), v);
        }
        m
    }
    /// node_modules directories with packages at some of the given directories
    pub fn modules_at(&mut self, dirs: &[String], pct: usize, k: &Knobs) {
        for d in dirs.to_vec() {
            if !self.p(pct) {
                continue;
            }
            let nm = join(&d, "node_modules");
            if self.p(3) {
                self.file(&nm);
                continue;
            }
            self.w.dir(&nm);
            for _ in 0..1 + self.r.below(3) {
                let name = self.of(&PKGS);
                let pd = join(&nm, name);
                match self.r.below(12) {
                    0 => {
                        self.w.dir(&pd);
                    }
                    1 => {
                        let e = self.of(&["", ".js", ".json", ".ts"]);
                        self.file(&format!("{pd}{e}"))
                    }
                    2 => {
                        self.file(&format!("{pd}.js"));
                        self.package(&pd, k);
                    }
                    _ => self.package(&pd, k),
                }
                if self.p(k.nested_modules) {
                    let inner = join(&pd, "node_modules");
                    let name2 = self.of(&PKGS);
                    let pd2 = join(&inner, name2);
                    self.package(&pd2, k);
                }
            }
        }
    }
    pub fn links(&mut self, n: usize) {
        for _ in 0..n {
            let dirs = self.w.dirs();
            let files = self.w.files();
            let d = self.pick_s(&dirs);
            let at = join(&d, self.of(&["l", "l.js", "x", "y.js", "p", "node_modules/p", "node_modules/@s/p", "lib"]));
            let to = if self.p(50) && !files.is_empty() { self.pick_s(&files) } else { self.pick_s(&dirs) };
            let target = match self.r.below(10) {
                0 => s(self.of(&["missing", "l", ".", ".."])),
                1..=4 => {
                    let parent = at.rsplit_once('/').map(|x| s(x.0)).unwrap_or_default();
                    let t = rel(&parent, &to);
                    t.strip_prefix("./").map(s).unwrap_or(t)
                }
                _ => join("{ROOT}", &to),
            };
            if !self.w.entries.contains_key(&at) {
                self.w.link(&at, &target);
            }
        }
    }

    /// (link, the directory of the tree it leads to)
    fn dir_links(&self) -> Vec<(String, String)> {
        let dirs = self.w.dirs();
        self.w
            .entries
            .iter()
            .filter_map(|(k, n)| match n {
                Node::Link(t) => {
                    let parent = k.rsplit_once('/').map(|x| x.0).unwrap_or("");
                    let full = match t.strip_prefix("{ROOT}") {
                        Some(x) => s(x),
                        None if t.starts_with('/') => return None,
                        None => join(parent, t),
                    };
                    let mut out: Vec<&str> = vec![];
                    for c in full.split('/') {
                        match c {
                            "" | "." => {}
                            ".." => {
                                out.pop()?;
                            }
                            c => out.push(c),
                        }
                    }
                    let d = out.join("/");
                    if dirs.contains(&d) {
                        Some((k.clone(), d))
                    } else {
                        None
                    }
                }
                _ => None,
            })
            .collect()
    }
    /// the same place by way of a link, if there is one
    fn via_link(&mut self, e: &str) -> String {
        let ls: Vec<(String, String)> = self
            .dir_links()
            .into_iter()
            .filter(|(k, d)| (e == d || d.is_empty() || e.starts_with(&format!("{d}/"))) && !e.starts_with(k.as_str()))
            .collect();
        if ls.is_empty() {
            return s(e);
        }
        let (k, d) = ls[self.r.below(ls.len())].clone();
        join(&k, e[d.len()..].trim_start_matches('/'))
    }

    // ---------------------------------------------------------------- requests
    pub fn base(&mut self) -> String {
        let dirs = self.w.dirs();
        let d = self.pick_s(&dirs);
        let d = if self.p(15) { self.via_link(&d) } else { d };
        match self.r.below(20) {
            0 => join(&d, self.of(&["zz", "zz/yy", "x.js", "node_modules"])),
            1 => {
                let e = self.pick_s(&dirs);
                join(&e, &rel(&e, &d))
            }
            2 => join(&d, self.of(&[".", "./", "..", "a/.."])),
            3 => {
                let fs = self.w.files();
                self.pick_s(&fs)
            }
            _ => d,
        }
    }
    pub fn qf(&mut self, pct: usize) -> String {
        if self.p(pct) {
            self.decoration()
        } else {
            String::new()
        }
    }
    /// a query, a fragment, or both
    pub fn decoration(&mut self) -> String {
        if self.p(75) {
            return s(QF[self.r.below(QF.len())]);
        }
        let mut t = s(self.of(&["?", "#"]));
        for _ in 0..self.r.below(6) {
            t.push_str(self.of(&["?", "#", "?", "#", "/", "..", ".", "x", "&", "=", "%23", " ", "é", "\\", "*", "!", ":"]));
        }
        t
    }
    fn mangle(&mut self, t: String) -> String {
        match self.r.below(24) {
            0 => format!("{t}/"),
            1 => format!("{t}/."),
            2 => t.replacen('/', "//", 1),
            3 => t.replacen('/', "/./", 1),
            4 => t.replacen("/", "/a/../", 1),
            5 => format!("{t}/x"),
            6 => format!("{t}.js"),
            7 => format!("{t}/.."),
            _ => t,
        }
    }
    /// request for something that exists (or nearly), relative to `base` (a plain directory)
    pub fn near_request(&mut self, base: &str, kinds: &str) -> String {
        let keys: Vec<String> = {
            let mut k: Vec<String> = self.w.entries.keys().cloned().collect();
            k.extend(self.w.dirs());
            k
        };
        for _ in 0..8 {
            let e = self.pick_s(&keys);
            let e = if self.p(25) { self.via_link(&e) } else { e };
            match *self.r.pick(kinds.as_bytes()) {
                b'r' => {
                    let t = rel(base, &e);
                    let t = self.drop_ext(&t, 55);
                    return self.mangle(t);
                }
                b'a' => {
                    let t = join("{ROOT}", &e);
                    let t = self.drop_ext(&t, 55);
                    let t = match self.r.below(20) {
                        0 => format!("/{t}"),
                        1 => format!("/.{t}"),
                        2 => format!("/..{t}"),
                        3 => format!("/x/..{t}"),
                        _ => t,
                    };
                    return self.mangle(t);
                }
                b'b' => {
                    if let Some((_, t)) = e.rsplit_once("node_modules/") {
                        let t = self.drop_ext(t, 45);
                        let t = if self.p(40) {
                            let n = if t.starts_with('@') { 2 } else { 1 };
                            t.split('/').take(n).collect::<Vec<_>>().join("/")
                        } else {
                            t
                        };
                        return self.mangle(t);
                    } else if self.p(20) {
                        let t = s(self.of(&PKGS));
                        return self.mangle(t);
                    }
                }
                b'o' => {
                    return s(self.of(&[
                        ".", "./", "..", "../", "./x", "./x.js", "../x", "x", "p", "p/x", "@s", "@s/", "@", "p/",
                        "./lib", "./missing", "missing", "", "..x", ".x", "...", "C:", "c:/x", "c:\\x", "c:x", "~/x", "/",
                        "//", "./..", "./.", "/x.js", "p/../q", "./x/../y", "node_modules/p", "@s/p/../q",
                    ]));
                }
                _ => {}
            }
        }
        s("./x")
    }
}

#[derive(Clone)]
pub struct Knobs {
    pub desc: usize,
    pub main: usize,
    pub exports: usize,
    pub imports: usize,
    pub browser: usize,
    pub side: usize,
    pub malformed: usize,
    pub nested_desc: usize,
    pub nested_modules: usize,
}
pub const PLAIN: Knobs = Knobs { desc: 60, main: 50, exports: 0, imports: 0, browser: 0, side: 0, malformed: 0, nested_desc: 10, nested_modules: 15 };

// ==================================================================== per-property generators
impl G {
    fn desc_entries(&self) -> Vec<(String, Value)> {
        let n = self.desc_name();
        self.w
            .entries
            .iter()
            .filter_map(|(k, node)| {
                let d = if *k == n { "" } else { k.strip_suffix(&format!("/{n}"))? };
                match node {
                    Node::File(c) => serde_json::from_str(c).ok().map(|v| (s(d), v)),
                    _ => None,
                }
            })
            .collect()
    }
    /// requests aimed at the keys of exports fields
    pub fn exports_calls(&mut self, qf: usize) {
        for (d, v) in self.desc_entries() {
            let field = match v.get("exports") {
                Some(f) => f.clone(),
                None => continue,
            };
            let (bases, name): (Vec<String>, String) = match d.rsplit_once("node_modules/") {
                Some((top, name)) => {
                    let top = top.trim_end_matches('/');
                    let mut b: Vec<String> = self.w.dirs().into_iter().filter(|x| x == top || x.starts_with(&format!("{top}/")) || top.is_empty()).collect();
                    b.push(s(top));
                    (b, s(name))
                }
                None => match v.get("name").and_then(|n| n.as_str()) {
                    Some(n) => (vec![d.clone(), join(&d, "lib")], s(n)),
                    None => continue,
                },
            };
            let subs = self.subpaths(&field, "./", &d);
            let mut reqs: Vec<String> = subs.iter().map(|x| if x.is_empty() { name.clone() } else { format!("{name}/{x}") }).collect();
            reqs.push(name.clone());
            if self.p(15) {
                reqs.push(format!("{name}/"));
                reqs.push(format!("{name}/./"));
                reqs.push(format!("{name}//x.js"));
                reqs.push(format!("{name}/."));
            }
            for q in reqs {
                let b = if self.p(60) { bases[bases.len() - 1].clone() } else { self.pick_s(&bases) };
                let suffix = self.qf(qf);
                self.call(&b, &format!("{q}{suffix}"));
            }
            if self.p(25) {
                // the files themselves
                let pre = format!("{d}/");
                let fs: Vec<String> = self.w.files().into_iter().filter(|f| f.starts_with(&pre)).collect();
                let f = self.pick_s(&fs);
                if !f.is_empty() {
                    self.call(&bases[0], &format!("{name}/{}", &f[pre.len()..]));
                    let r = rel(&bases[0], &f);
                    self.call(&bases[0], &r);
                }
            }
        }
    }
    pub fn imports_calls(&mut self) {
        for (d, v) in self.desc_entries() {
            let field = match v.get("imports") {
                Some(f) => f.clone(),
                None => continue,
            };
            let subs = self.subpaths(&field, "#", &d);
            let pre = format!("{d}/");
            let below: Vec<String> =
                self.w.dirs().into_iter().filter(|x| *x == d || x.starts_with(&pre) || d.is_empty()).collect();
            for x in subs {
                let b = if self.p(70) { d.clone() } else { self.pick_s(&below) };
                let suffix = self.qf(6);
                self.call(&b, &format!("#{x}{suffix}"));
            }
            if self.p(20) {
                let b = self.base();
                let q = s(self.of(&["#x", "#lib/x", "#", "#/x", "#missing", "#x/", "#i"]));
                self.call(&b, &q);
            }
        }
    }
    pub fn browser_calls(&mut self, qf: usize) {
        for (d, v) in self.desc_entries() {
            let m = match v.get("browser").and_then(|b| b.as_object()) {
                Some(m) => m.clone(),
                None => continue,
            };
            let pre = format!("{d}/");
            let below: Vec<String> =
                self.w.dirs().into_iter().filter(|x| *x == d || x.starts_with(&pre) || d.is_empty()).collect();
            for k in m.keys() {
                let b = if self.p(50) { d.clone() } else { self.pick_s(&below) };
                let suffix = self.qf(qf);
                if !k.starts_with('.') {
                    self.call(&b, &format!("{k}{suffix}"));
                    if self.p(20) {
                        self.call(&b, &format!("{k}/x"));
                    }
                }
                let file = join(&d, k.trim_start_matches("./"));
                let file = self.drop_ext(&file, 50);
                match self.r.below(4) {
                    0 => self.call(&b, &format!("{{ROOT}}/{file}{suffix}")),
                    _ => {
                        let q = rel(&b, &file);
                        self.call(&b, &format!("{q}{suffix}"))
                    }
                }
                if let Some((top, t)) = file.rsplit_once("node_modules/") {
                    let (top, t) = (s(top.trim_end_matches('/')), s(t));
                    self.call(&top, &t);
                }
            }
            // the package itself: main fields, main files
            if let Some((top, t)) = d.rsplit_once("node_modules/") {
                let (top, t) = (s(top.trim_end_matches('/')), s(t));
                self.call(&top, &t);
                self.call(&d, ".");
            } else {
                self.call(&d, ".");
                self.call("", &format!("./{d}"));
            }
        }
    }
    pub fn near_calls(&mut self, n: usize, kinds: &str, qf: usize) {
        for _ in 0..n {
            let b = self.base();
            let plain = s(b.trim_end_matches('/'));
            let q = self.near_request(&plain, kinds);
            let suffix = self.qf(qf);
            self.call(&b, &format!("{q}{suffix}"));
        }
    }
    pub fn cap_calls(&mut self, n: usize) {
        if self.calls.len() > n {
            let mut c = std::mem::take(&mut self.calls);
            self.r.shuffle(&mut c);
            c.truncate(n);
            self.calls = c;
        }
    }
    pub fn maybe_symlinks_off(&mut self, pct: usize) {
        if self.p(pct) {
            self.o.symlinks = false;
        }
    }

    pub fn alias_list(&mut self) {
        for _ in 0..1 + self.r.below(4) {
            let k = match self.r.below(10) {
                0 => s(self.of(&["p/", "@", "@s", "./", "#", "#i", "", ".", "..", "./x", "{ROOT}/a", "{ROOT}", "/x"])),
                1 => s(self.of(&["px", "pq/x", "é", "p/x", "x.js", "@s/p/x", "~"])),
                _ => s(self.of(&["p", "q", "@s/p", "x", "pq", "alias", "@/"])),
            };
            let v = match self.r.below(14) {
                0 | 1 => None,
                2 => Some(s(self.of(&["missing", "./missing", "{ROOT}/missing", "", "p", "p/x", "/"]))),
                3 | 4 => Some(s(self.of(&["p", "q", "@s/p", "x", "pq", "alias", "alias/p", "xp", "#x"]))),
                5 => Some(format!("{}{k}", self.of(&["./", "x", "p/", "@s/"]))),
                6 => Some(format!("{k}{}", self.of(&["/x", "2", "/"]))),
                _ => {
                    let keys: Vec<String> = self.w.entries.keys().cloned().collect();
                    let t = self.pick_s(&keys);
                    let t = self.drop_ext(&t, 40);
                    if self.p(60) {
                        Some(join("{ROOT}", &t))
                    } else {
                        Some(rel("", &t))
                    }
                }
            };
            self.o.alias.push((k, v));
        }
    }
    pub fn alias_calls(&mut self, qf: usize) {
        for (k, v) in self.o.alias.clone() {
            for _ in 0..2 {
                let b = self.base();
                let tail = match self.r.below(6) {
                    0 | 1 => s(""),
                    2 => s(self.of(&["x", "q", "2", ".js", "/x/../y"])),
                    _ => {
                        let dirs = self.w.dirs();
                        let tdir = v
                            .as_deref()
                            .map(|t| s(t.trim_start_matches("{ROOT}").trim_start_matches("./").trim_matches('/')))
                            .filter(|t| dirs.contains(t))
                            .unwrap_or_default();
                        let t = self.local_target(&tdir);
                        let t = self.drop_ext(&t, 50);
                        if k.ends_with('/') {
                            t
                        } else {
                            format!("/{t}")
                        }
                    }
                };
                let suffix = self.qf(qf);
                self.call(&b, &format!("{k}{tail}{suffix}"));
            }
        }
    }

    // ---------------------------------------------------------------- tsconfig
    pub fn jsonc(&mut self, v: &Value) -> String {
        let mut out = String::new();
        self.jsonc_into(v, &mut out);
        if self.p(20) {
            out.push_str("\n// end");
        }
        out
    }
    fn sp(&mut self, out: &mut String) {
        match self.r.below(14) {
            0 => out.push_str("// \"a\": { } ,\n"),
            1 => out.push_str("/* x, \"y\": [ */"),
            2 => out.push_str("\n\t "),
            3 => out.push_str("/* // */ "),
            4 => out.push_str("// /* é\n"),
            _ => {}
        }
    }
    fn jsonc_into(&mut self, v: &Value, out: &mut String) {
        self.sp(out);
        match v {
            Value::Object(m) => {
                out.push('{');
                let n = m.len();
                for (i, (k, x)) in m.iter().enumerate() {
                    self.sp(out);
                    out.push_str(&serde_json::to_string(k).unwrap());
                    self.sp(out);
                    out.push(':');
                    self.jsonc_into(x, out);
                    if i + 1 < n || self.p(25) {
                        out.push(',');
                    }
                }
                self.sp(out);
                out.push('}');
            }
            Value::Array(xs) => {
                out.push('[');
                for (i, x) in xs.iter().enumerate() {
                    self.jsonc_into(x, out);
                    if i + 1 < xs.len() || self.p(25) {
                        out.push(',');
                    }
                }
                self.sp(out);
                out.push(']');
            }
            _ => out.push_str(&serde_json::to_string(v).unwrap()),
        }
        self.sp(out);
    }
    fn ts_paths(&mut self) -> Value {
        let mut m = Map::new();
        for _ in 0..1 + self.r.below(5) {
            let k = match self.r.below(10) {
                0 => s(self.of(&["*", "a*", "*b", "é*", "*/x", "@/*", "#*", "x*y", "lib*"])),
                1 => s(self.of(&["./x", "./*", "{ROOT}/x", "/x*", "../*", "", "**", "a*b*", "//x", "/*x*/"])),
                2..=5 => s(self.of(&["a/*", "lib/*", "lib/x*", "a/b/*", "x/*", "a/*/x", "@s/*", "p/*", "lib/a/*"])),
                _ => s(self.of(&["x", "p", "a/b", "@s/p", "lib", "lib/x", "a", "q/x"])),
            };
            let n = match self.r.below(8) {
                0 => 0,
                1 | 2 => 2,
                3 => 3,
                _ => 1,
            };
            let mut ls = vec![];
            for _ in 0..n {
                let t = self.local_target("");
                let t = self.drop_ext(&t, 50);
                let star = k.contains('*');
                let l = match self.r.below(10) {
                    0 => s(self.of(&["./missing/*", "missing", "../x", "*", "./*", "*/*", "{ROOT}/x", "", "."])),
                    1 => join("{ROOT}", &t),
                    _ if star => {
                        let d = t.rsplit_once('/').map(|x| s(x.0)).unwrap_or_default();
                        let post = self.of(&["", "", "", ".js", "/x", "/index"]);
                        if d.is_empty() {
                            format!("{}*{post}", self.of(&["./", ""]))
                        } else {
                            format!("{d}/*{post}")
                        }
                    }
                    _ => t,
                };
                ls.push(json!(l));
            }
            m.insert(k, Value::Array(ls));
        }
        Value::Object(m)
    }
    /// writes tsconfig files and sets the option
    pub fn tsconfig(&mut self) {
        let dirs = self.w.dirs();
        let plain: Vec<String> = dirs.iter().filter(|d| !d.contains("node_modules")).cloned().collect();
        let at = if self.p(70) { s("") } else { self.pick_s(&plain) };
        let mut names = vec![join(&at, "tsconfig.json")];
        // parents
        let n = *self.r.pick(&[0, 0, 0, 1, 1, 2]);
        for i in 0..n {
            let p = match self.r.below(4) {
                0 => {
                    let pkg = self.of(&["tsp", "@s/ts", "p"]);
                    format!("node_modules/{pkg}/{}", self.of(&["tsconfig.json", "base.json"]))
                }
                1 => join(&self.pick_s(&plain), &format!("base{i}.json")),
                _ => join(&at, &format!("base{i}.json")),
            };
            names.push(p);
        }
        for (i, f) in names.clone().iter().enumerate() {
            let mut co = Map::new();
            let dir = f.rsplit_once('/').map(|x| s(x.0)).unwrap_or_default();
            if self.p(if i == 0 && n > 0 { 45 } else { 85 }) {
                let b = match self.r.below(8) {
                    0 => s(self.of(&["./missing", "..", "./lib", "src", "{ROOT}", "./a/.."])),
                    1 => {
                        let d = self.pick_s(&dirs);
                        rel(&dir, &d)
                    }
                    _ => rel(&dir, ""),
                };
                co.insert(s("baseUrl"), json!(b));
            }
            if self.p(if i == 0 && n > 0 { 45 } else { 85 }) {
                let v = self.ts_paths();
                co.insert(s("paths"), v);
            }
            if self.p(10) {
                co.insert(s("target"), json!("es5"));
            }
            if self.p(4) {
                let bad = self.r.pick(&[("baseUrl", json!(null)), ("paths", json!(null)), ("baseUrl", json!(1)), ("paths", json!([])), ("paths", json!({"x": "y"})), ("paths", json!({"x": [1]}))]).clone();
                co.insert(s(bad.0), bad.1);
            }
            let mut m = Map::new();
            if let Some(next) = names.get(i + 1) {
                let e = if let Some(t) = next.strip_prefix("node_modules/") {
                    if self.p(60) { s(t) } else { rel(&dir, next) }
                } else {
                    rel(&dir, next)
                };
                let e = if self.p(30) { s(e.strip_suffix(".json").unwrap_or(&e)) } else { e };
                m.insert(s("extends"), json!(e));
            } else if self.p(6) {
                m.insert(s("extends"), json!(self.of(&["./missing", "missing", "./tsconfig.json", "", ".", "./base0.json", "@s/ts"])));
            }
            if self.p(95) {
                m.insert(s("compilerOptions"), Value::Object(co));
            }
            if self.p(30) {
                m.insert(s("include"), json!(["src/**/*", "//x", "/* y */", "a\\\"//b"]));
            }
            let text = self.jsonc(&Value::Object(m));
            let text = if self.p(2) { s(self.of(&["", "{", "// c", "[]", "null", "{]"])) } else { text };
            self.w.file(f, &text);
        }
        if self.p(20) {
            self.w.file("node_modules/@s/ts/package.json", "{\"name\":\"@s/ts\",\"main\":\"base.json\"}");
        }
        self.o.tsconfig = Some(names[0].clone());
    }
    /// another content for a tsconfig at `f`, keeping what it extends
    pub fn tsconfig_text(&mut self, f: &str, old: &str) -> String {
        let dir = f.rsplit_once('/').map(|x| s(x.0)).unwrap_or_default();
        let mut m = Map::new();
        if let Ok(v) = serde_json::from_str::<Value>(&crate::model::strip_jsonc(old)) {
            if let Some(e) = v.get("extends") {
                if self.p(70) {
                    m.insert(s("extends"), e.clone());
                }
            }
        }
        let mut co = Map::new();
        if self.p(80) {
            co.insert(s("baseUrl"), json!(rel(&dir, "")));
        }
        if self.p(80) {
            let v = self.ts_paths();
            co.insert(s("paths"), v);
        }
        m.insert(s("compilerOptions"), Value::Object(co));
        self.jsonc(&Value::Object(m))
    }
    pub fn tsconfig_calls(&mut self, qf: usize) {
        let mut keys: Vec<(String, Vec<String>)> = vec![];
        for (k, n) in &self.w.entries {
            if let (true, Node::File(c)) = (k.ends_with(".json"), n) {
                if let Ok(v) = serde_json::from_str::<Value>(&crate::model::strip_jsonc(c)) {
                    if let Some(m) = v.pointer("/compilerOptions/paths").and_then(|p| p.as_object()) {
                        for (k, ls) in m {
                            let ls = ls.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(s)).collect()).unwrap_or_default();
                            keys.push((k.clone(), ls));
                        }
                    }
                }
            }
        }
        let dirs = self.w.dirs();
        for (k, ls) in keys {
            for _ in 0..2 {
                let b = self.base();
                let mut q = k.clone();
                if let Some((pre, post)) = k.split_once('*') {
                    let l = self.pick_s(&ls);
                    let d = l.split('*').next().unwrap_or("").trim_start_matches("./").trim_end_matches('/').to_string();
                    let t = if dirs.contains(&d) { self.local_target(&d) } else { s(self.of(&["x", "y", "lib/x", "é", "x.js", "", "*"])) };
                    let t = self.drop_ext(&t, 50);
                    q = format!("{pre}{t}{post}");
                } else if self.p(20) {
                    q = format!("{q}{}", self.of(&["/x", "x", ".js"]));
                }
                if self.p(8) {
                    q = format!("./{q}");
                }
                let suffix = self.qf(qf);
                self.call(&b, &format!("{q}{suffix}"));
            }
        }
    }

    // ---------------------------------------------------------------- the mixed mode
    pub fn mixed(&mut self, ncalls: usize) {
        let k = Knobs {
            desc: 70,
            main: 45,
            exports: *self.r.pick(&[0, 30, 50]),
            imports: *self.r.pick(&[0, 20, 40]),
            browser: *self.r.pick(&[0, 20, 50]),
            side: 10,
            malformed: *self.r.pick(&[0, 0, 0, 4]),
            nested_desc: 25,
            nested_modules: 20,
        };
        if self.p(8) {
            self.o.description_file = self.r.pick(&[None, Some(s("pkg.json")), Some(s("package.json5"))]).clone();
        }
        self.ext_options();
        self.opt_main_files();
        self.opt_main_fields();
        self.opt_conditions();
        let nd = 2 + self.r.below(3);
        let dirs = self.dirs_below("", nd);
        for d in &dirs {
            let n = self.r.below(4);
            self.files_in(d, n);
            if self.p(35) {
                let m = self.desc_fields(d, &k);
                self.write_desc(d, m);
            }
        }
        self.modules_at(&dirs, 60, &k);
        if self.p(30) {
            let n = 1 + self.r.below(3);
            self.links(n);
        }
        self.o.browser_field = self.p(50);
        self.o.prefer_relative = self.p(15);
        self.maybe_symlinks_off(25);
        if self.p(25) {
            self.alias_list();
            self.alias_calls(10);
        }
        if self.p(20) {
            self.tsconfig();
            self.tsconfig_calls(10);
        }
        self.exports_calls(8);
        self.imports_calls();
        self.browser_calls(8);
        self.cap_calls(ncalls * 2 / 3);
        let left = ncalls - self.calls.len();
        self.near_calls(left, "rrrbbbboa", 12);
        let mut c = std::mem::take(&mut self.calls);
        self.r.shuffle(&mut c);
        self.calls = c;
    }
}

pub fn generate(prop: &str, r: Rng) -> Case {
    let mut g = G::new(r);
    match prop {
        "C03" => {
            if g.p(35) {
                g.mixed(16);
                for i in 0..g.calls.len() {
                    if !g.calls[i].req.contains(['?', '#']) || g.calls[i].req.is_empty() {
                        let t = g.decoration();
                        g.calls[i].req.push_str(&t);
                    }
                }
            } else {
                // aimed: names that contain the separators themselves, every feature once
                let nd = 2 + g.r.below(2);
                let dirs = g.dirs_below("", nd);
                for d in &dirs {
                    g.files_in(d, 2);
                }
                for f in ["x?q", "x#f", "x?q.js", "#x.js", "no#frag/x.js", "x#f.js", "é?q.js"] {
                    if g.p(25) {
                        let d = g.pick_s(&dirs);
                        g.file(&join(&d, f));
                    }
                }
                let k = Knobs { exports: 0, imports: 15, browser: 40, ..PLAIN };
                for d in &dirs {
                    if g.p(40) {
                        let m = g.desc_fields(d, &k);
                        g.write_desc(d, m);
                    }
                }
                g.modules_at(&dirs, 70, &k);
                g.o.browser_field = g.p(50);
                g.o.prefer_relative = g.p(40);
                g.ext_options();
                if g.p(40) {
                    g.alias_list();
                    g.alias_calls(100);
                }
                if g.p(40) {
                    g.tsconfig();
                    g.tsconfig_calls(100);
                }
                g.browser_calls(100);
                g.cap_calls(16);
                g.near_calls(10, "rrbbao", 100);
            }
        }
        "C04" => {
            let nd = 2 + g.r.below(3);
            let dirs = g.dirs_below("", nd);
            for d in &dirs {
                let n = 3 + g.r.below(5);
                g.files_in(d, n);
            }
            match g.r.below(4) {
                0 => {}
                1 => g.o.extensions = g.subset(&[".js", ".json", ".ts", "", "js", ".d.ts", ".é", ".js.js", "/index.js", "/x", "."], 45),
                _ => g.ext_options(),
            }
            if g.p(50) {
                g.o.enforce_extension = *g.r.pick(&[None, Some(true), Some(false)]);
            }
            if g.p(25) {
                let d = g.pick_s(&dirs);
                let v = g.main_value(&d);
                g.write_desc(&d, json!({ "main": v }).as_object().unwrap().clone());
            }
            if g.p(25) {
                g.links(2);
                g.maybe_symlinks_off(30);
            }
            g.opt_main_files();
            if g.p(20) {
                g.special_files(2);
            }
            g.near_calls(26, "rrrrraaao", 5);
        }
        "C05" => {
            let nd = 3 + g.r.below(3);
            let dirs = g.dirs_below("", nd);
            g.ext_options();
            g.opt_main_files();
            if g.p(60) {
                g.o.main_fields = g.subset(&["main", "module", "jsnext:main", "style", "browser"], 60);
            }
            for d in &dirs {
                let n = 1 + g.r.below(4);
                g.files_in(d, n);
            }
            for d in &dirs {
                if g.p(60) {
                    let mut m = Map::new();
                    g.put_main(d, &mut m);
                    g.write_desc(d, m);
                }
            }
            if g.p(30) {
                g.modules_at(&dirs, 40, &PLAIN);
            }
            if g.p(15) {
                g.links(2);
            }
            for d in &dirs {
                let b = g.pick_s(&dirs);
                let q = rel(&b, d);
                let post = g.of(&["", "", "/", "/.", "/./", "/x/.."]);
                g.call(&b, &format!("{q}{post}"));
                if g.p(40) {
                    let q = s(g.of(&[".", "./", "..", "../", "./.", "./.."]));
                    g.call(d, &q);
                }
                if g.p(30) {
                    g.call("", &join("{ROOT}", d));
                }
            }
            if g.p(20) {
                g.special_files(2);
            }
            g.near_calls(10, "rrraob", 5);
        }
        "C06" => {
            let depth = 1 + g.r.below(4);
            let mut dirs = vec![s("")];
            for i in 0..depth {
                let d = join(&dirs[i].clone(), g.of(&DIRS));
                g.w.dir(&d);
                dirs.push(d);
            }
            let deepest = dirs[depth].clone();
            let top = dirs[g.r.below(depth)].clone();
            let more = g.dirs_below(&top, 2);
            let k = Knobs {
                exports: *g.r.pick(&[0, 0, 15]),
                desc: 55,
                main: 55,
                nested_desc: 15,
                ..PLAIN
            };
            g.modules_at(&dirs.clone(), 65, &k);
            g.modules_at(&more, 40, &k);
            for d in &more {
                if g.p(25) {
                    let m = g.desc_fields(d, &k);
                    g.write_desc(d, m);
                }
            }
            if g.p(30) {
                let n = g.of(&PKGS);
                g.write_desc("", json!({"name": n, "main": "x"}).as_object().unwrap().clone());
            }
            g.ext_options();
            if g.p(20) {
                g.opt_main_fields();
                g.opt_main_files();
            }
            if g.p(25) {
                g.links(2);
                g.maybe_symlinks_off(30);
            }
            for _ in 0..14 {
                let b = if g.p(55) { deepest.clone() } else { g.base() };
                let q = g.near_request(&b, "b");
                let suffix = g.qf(5);
                g.call(&b, &format!("{q}{suffix}"));
            }
            for _ in 0..8 {
                let b = if g.p(60) { deepest.clone() } else { g.base() };
                let p = g.of(&PKGS);
                let t = g.of(&["", "", "/x", "/lib", "/lib/x", "/x.js", "/", "/missing", "/index.js", "/a/b"]);
                g.call(&b, &format!("{p}{t}"));
            }
            g.near_calls(4, "oob", 0);
            if g.p(20) {
                g.special_files(2);
            }
        }
        "C07" => {
            let nd = 1 + g.r.below(3);
            let dirs = g.dirs_below("", nd);
            let k = Knobs { exports: 75, main: 45, nested_desc: 40, nested_modules: 35, browser: 0, ..PLAIN };
            g.modules_at(&dirs, 80, &k);
            for f in ["out.js", "node_modules/out.js", "node_modules/y.js", "y.js"] {
                if g.p(60) {
                    g.file(f);
                }
            }
            for d in &dirs {
                if g.p(25) {
                    let m = g.desc_fields(d, &k);
                    g.write_desc(d, m);
                }
            }
            g.opt_conditions();
            g.ext_options();
            if g.p(20) {
                g.opt_main_fields();
            }
            if g.p(15) {
                g.links(2);
                g.maybe_symlinks_off(40);
            }
            g.exports_calls(6);
            g.cap_calls(32);
            g.near_calls(10, "bbbbr", 4);
        }
        "C08" => {
            let k = Knobs { exports: 100, desc: 100, main: 10, nested_desc: 0, nested_modules: 5, ..PLAIN };
            let pkgs = ["p", "@s/p", "q"];
            for p in pkgs {
                let d = format!("node_modules/{p}");
                for f in ["x.js", "y.js", "lib/x.js", "lib/y.js", "lib/a/x.js", "dist/x.js", "a/b/c.js", "lib/é.js", "a$b.js", "dist/$1.js"] {
                    if g.p(55) {
                        g.file(&join(&d, f));
                    }
                }
                g.package(&d, &k);
            }
            g.opt_conditions();
            g.exports_calls(3);
            g.cap_calls(48);
        }
        "C09" => {
            let nd = 2 + g.r.below(3);
            let dirs = g.dirs_below("", nd);
            for d in &dirs {
                let n = 1 + g.r.below(4);
                g.files_in(d, n);
            }
            let k = Knobs { imports: 70, exports: 25, desc: 75, main: 40, nested_desc: 20, nested_modules: 30, ..PLAIN };
            g.modules_at(&dirs, 70, &k);
            for d in &dirs {
                if g.p(55) {
                    let m = g.desc_fields(d, &k);
                    g.write_desc(d, m);
                }
            }
            g.opt_conditions();
            g.ext_options();
            if g.p(15) {
                g.o.browser_field = true;
            }
            if g.p(10) {
                g.links(2);
            }
            g.imports_calls();
            g.cap_calls(36);
            g.near_calls(3, "bor", 5);
        }
        "C10" => {
            let nd = 2 + g.r.below(3);
            let dirs = g.dirs_below("", nd);
            for d in &dirs {
                let n = 2 + g.r.below(4);
                g.files_in(d, n);
            }
            let k = Knobs { exports: *g.r.pick(&[0, 0, 20]), browser: *g.r.pick(&[0, 0, 20]), ..PLAIN };
            g.modules_at(&dirs, 60, &k);
            g.ext_options();
            g.o.browser_field = g.p(20);
            g.alias_list();
            if g.p(15) {
                // a longer chain
                for i in 0..*g.r.pick(&[3, 5, 7, 12, 24]) {
                    g.o.alias.push((format!("c{i}/"), Some(format!("c{}/", i + 1))));
                }
                g.call("", "c0/x");
                g.o.alias.push((s("c4/"), Some(s("./"))));
            }
            if g.p(15) {
                g.o.prefer_relative = true;
            }
            if g.p(10) {
                g.links(1);
                g.maybe_symlinks_off(50);
            }
            g.alias_calls(8);
            g.alias_calls(8);
            g.near_calls(6, "rbabo", 5);
        }
        "C11" => {
            let nd = 2 + g.r.below(3);
            let dirs = g.dirs_below("", nd);
            for d in &dirs {
                let n = 1 + g.r.below(4);
                g.files_in(d, n);
            }
            let k = Knobs { browser: 70, desc: 80, main: 55, exports: *g.r.pick(&[0, 0, 25]), nested_desc: 30, ..PLAIN };
            g.modules_at(&dirs, 70, &k);
            for d in &dirs {
                if g.p(60) {
                    let m = g.desc_fields(d, &k);
                    g.write_desc(d, m);
                }
            }
            g.o.browser_field = g.p(88);
            g.ext_options();
            if g.p(30) {
                g.opt_main_fields();
                g.opt_main_files();
            }
            if g.p(10) {
                g.links(1);
                g.maybe_symlinks_off(50);
            }
            g.browser_calls(8);
            g.cap_calls(30);
            g.near_calls(8, "rrbba", 5);
        }
        "C12" => {
            let nd = 2 + g.r.below(3);
            let dirs = g.dirs_below("", nd);
            for d in &dirs {
                let n = 2 + g.r.below(3);
                g.files_in(d, n);
            }
            let k = Knobs { desc: 50, ..PLAIN };
            g.modules_at(&dirs, 50, &k);
            g.tsconfig();
            if g.p(20) {
                g.ext_options();
            }
            if g.p(10) {
                g.alias_list();
            }
            if g.p(10) {
                g.o.prefer_relative = true;
            }
            g.tsconfig_calls(10);
            g.cap_calls(22);
            g.near_calls(6, "rrbao", 5);
        }
        "C13" => {
            let nd = 2 + g.r.below(3);
            let dirs = g.dirs_below("", nd);
            for d in &dirs {
                let n = 2 + g.r.below(4);
                g.files_in(d, n);
                if g.p(30) {
                    let sub = join(d, g.of(&["p", "@s/p", "q/lib", "pq"]));
                    g.files_in(&sub, 2);
                }
                if g.p(20) {
                    let f = join(d, g.of(&["p.js", "q.js", "@s/p.js", "#x.js", "é"]));
                    g.file(&f);
                }
            }
            let k = Knobs { exports: 15, imports: 15, browser: *g.r.pick(&[0, 20]), ..PLAIN };
            g.modules_at(&dirs, 70, &k);
            for d in &dirs {
                if g.p(30) {
                    let m = g.desc_fields(d, &k);
                    g.write_desc(d, m);
                }
            }
            g.ext_options();
            g.o.browser_field = g.p(15);
            g.o.prefer_relative = true;
            for _ in 0..14 {
                // a bare request that also exists as a file next to the base
                let dirs2 = g.w.dirs();
                let b = g.pick_s(&dirs2);
                let t = g.local_target(&b);
                let t = g.drop_ext(&t, 50);
                let suffix = g.qf(8);
                g.call(&b, &format!("{t}{suffix}"));
            }
            g.imports_calls();
            g.cap_calls(20);
            g.near_calls(14, "bbbbrrao", 6);
        }
        "C14" => {
            let nd = 3 + g.r.below(3);
            let dirs = g.dirs_below("", nd);
            if g.p(25) {
                g.o.description_file = Some(s(g.of(&["pkg.json", "description.json", "p", ".json", "lib/pkg.json"])));
            }
            let name = g.desc_name();
            for d in &dirs {
                let n = 1 + g.r.below(2);
                g.files_in(d, n);
                let k = Knobs { side: 65, exports: 8, browser: 8, main: 30, ..PLAIN };
                match g.r.below(12) {
                    0..=4 => {
                        let m = g.desc_fields(d, &k);
                        g.write_desc(d, m);
                    }
                    5 => {
                        g.w.dir(&join(d, &name));
                    }
                    6 => {
                        let o = g.of(&["package.json", "pkg.json", "Package.json", "package.json.bak", "package"]);
                        let p = join(d, o);
                        g.w.file(&p, "{\"sideEffects\":[\"wrong\"],\"main\":\"y\"}");
                    }
                    7 => {
                        let c = g.of(&["{", "", "{\"sideEffects\":\"x\"}", "{\"sideEffects\":[1]}", "{\"sideEffects\":null}", "[]", "3", "{\"sideEffects\":{}}"]);
                        g.w.file(&join(d, &name), c);
                    }
                    8 => {
                        g.w.link(&join(d, &name), "{ROOT}/missing.json");
                    }
                    _ => {}
                }
            }
            g.modules_at(&dirs, 35, &Knobs { side: 60, desc: 75, malformed: 6, ..PLAIN });
            if g.p(25) {
                g.links(2);
                g.maybe_symlinks_off(50);
            }
            for _ in 0..16 {
                let d = g.pick_s(&dirs);
                let all: Vec<String> = g.w.entries.keys().cloned().collect();
                let b = match g.r.below(8) {
                    0 => join(&d, g.of(&["..", "lib/..", "x/../x.js", "./", "../..", "zz/..", "zz/yy", "."])),
                    1 => join(&d, &name),
                    2 => g.base(),
                    _ => g.pick_s(&all),
                };
                g.calls.push(Call { base: b, req: s(""), se: true });
            }
            g.near_calls(8, "rrbbo", 0);
        }
        _ => g.mixed(24),
    }
    g.case(prop)
}
