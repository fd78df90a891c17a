//! Variations of a generated case that keep its shape: other names, noise beside it, longer fields,
//! other spellings of the same JSON.
use crate::core::*;
use crate::gen::Call;
use crate::gen::Case;
use serde_json::{Map, Value};

/// tokens of the generators' vocabulary that may get another name
const WORDS: [&str; 14] = ["x", "y", "p", "q", "pq", "a", "b", "lib", "src", "dist", "é", "t", "s", "l"];
const NAMES: [&str; 98] = [
    // modules of Node, and words with a meaning elsewhere
    "fs", "events", "path", "punycode", "process", "assert", "constants", "sys", "default", "node", "import", "require", "browser",
    "exports", "imports", "main", "module", "package", "index", "name", "constructor", "__proto__", "null", "true", "false",
    "node_module", "node_modules_x", "node-modules", "package.json.d", "types", "con", "nul", "lodash.get", "jquery",
    // letter case, also against other names in use
    "X", "Y", "P", "Q", "PQ", "A", "B", "Lib", "LIB", "SRC", "É", "React",
    // digits and leading signs
    "0", "1", "42", "1e3", "01", "-1", ".x", ".bin", "..x", "...", "_", "-", "--x", "~", "!", "^x", "$", "$1", "$&", "+", "=",
    // inner signs
    "a b", " a", "a ", "x%20y", "%2e", "x+y", "k=v", "x&y", "(x)", "[x]", "x,y", "x;y", "x'y", "x|y", "x:y", "c:x", "c:", "Z:", "x@1.0.0", "{x}",
    // not ASCII: composed, decomposed, wide, of another length when its case changes, joined
    "e\u{301}", "日本語", "𝒳", "ß", "İ", "\u{200d}", "\u{feff}x", "👩‍👩‍👧", "\u{a0}", "ﬁ", "\u{2028}",
];
/// names that a request cannot spell, but a base directory can have
const ODD: [&str; 10] = ["a{FF}", "{FF}", "a#b", "a?b", "#a", "?", "b#", "*", "a*b", "x?y#z"];

fn token(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
pub fn renamed(t: &str, map: &[(String, String)]) -> String {
    let mut out = String::with_capacity(t.len() + 16);
    let mut rest = t;
    while !rest.is_empty() {
        let word = rest.find(|c: char| !token(c)).unwrap_or(rest.len());
        if word > 0 {
            let w = &rest[..word];
            match map.iter().find(|(k, _)| k == w) {
                Some((_, n)) => out.push_str(n),
                None => out.push_str(w),
            }
            rest = &rest[word..];
        }
        if let Some(c) = rest.chars().next() {
            if token(c) {
                continue;
            }
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    out
}
pub fn rename_in(v: &Value, map: &[(String, String)]) -> Value {
    match v {
        Value::String(t) => Value::String(renamed(t, map)),
        Value::Array(xs) => Value::Array(xs.iter().map(|x| rename_in(x, map)).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (renamed(k, map), rename_in(x, map))).collect()),
        _ => v.clone(),
    }
}
fn rename(c: Case, r: &mut Rng) -> Case {
    let long = [200, 120].map(|n| "n".repeat(n));
    let mut map: Vec<(String, String)> = vec![];
    for _ in 0..1 + r.below(4) {
        let from = r.pick(&WORDS).to_string();
        let to = match r.below(40) {
            0 => r.pick(&long).clone(),
            1..=4 => r.pick(&ODD).to_string(),
            _ => r.pick(&NAMES).to_string(),
        };
        let used = map.iter().any(|(a, b)| *a == from || *b == to) || c.world.entries.keys().any(|k| k.contains(&to)) || c.opts.to_json().to_string().contains(&format!("\"{to}"));
        if !used {
            map.push((from, to));
        }
    }
    if map.is_empty() {
        return c;
    }
    let n = Case::from_json(&rename_in(&c.to_json(), &map));
    // what the file system takes
    if n.world.entries.keys().any(|k| k.len() > 2500 || k.split('/').any(|x| x.len() > 240)) {
        return c;
    }
    n
}

/// files of the kinds found in real projects, which mean nothing here
fn noise(mut c: Case, r: &mut Rng) -> Case {
    const THINGS: [&str; 36] = [
        ".git/HEAD", ".npmrc", "package-lock.json", "yarn.lock", "pnpm-workspace.yaml", ".pnp.cjs", ".yarnrc.yml", "jsconfig.json", "index.mjs",
        "index.d.ts", "bower.json", "component.json", "package.yaml", "package.json5", "package.json~", "Package.json", "lerna.json", ".hg/store",
        "node_modules/.package-lock.json", "node_modules/.bin/p", "node_modules/.modules.yaml", "browser.js", "module.js", "deno.json",
        // where programs keep what they know
        "node_modules/.cache/x", "node_modules/.cache/x", "node_modules/.cache/resolver.json", "node_modules/.vite/x", ".cache/x", ".cache", "node_modules/.yarn-integrity", "tmp/x", ".tmp/x",
        "package.json.lock", "package.json.tmp", "tsconfig.tsbuildinfo",
    ];
    let dirs = c.world.dirs();
    for _ in 0..1 + r.below(6) {
        let d = r.pick(&dirs).clone();
        let t = *r.pick(&THINGS);
        let p = if d.is_empty() { t.to_string() } else { format!("{d}/{t}") };
        if !c.world.entries.contains_key(&p) && !c.world.dirs().contains(&p) {
            let text = *r.pick(&["", "{}", "{\"name\":\"p\",\"main\":\"./y.js\",\"exports\":\"./y.js\",\"compilerOptions\":{\"baseUrl\":\".\",\"paths\":{\"*\":[\"./y.js\"]}}}", "module.exports = {}", "{"]);
            c.world.file(&p, text);
        }
    }
    c
}

/// the same value in another spelling
fn respell(v: &Value, r: &mut Rng) -> String {
    let t = match r.below(4) {
        0 => serde_json::to_string_pretty(v).unwrap(),
        1 => serde_json::to_string_pretty(v).unwrap().replace('\n', "\r\n") + "\r\n",
        2 => format!("\n\n\t {}\n ", v),
        _ => v.to_string(),
    };
    if r.pct(60) {
        return t;
    }
    // escapes for what needs none
    let mut out = String::new();
    let mut inside = false;
    let mut skip = 0;
    for ch in t.chars() {
        if skip > 0 {
            skip -= 1;
            out.push(ch);
            continue;
        }
        match ch {
            '"' => {
                inside = !inside;
                out.push(ch)
            }
            '\\' => {
                out.push(ch);
                skip = 1
            }
            '/' if inside && r.pct(30) => out.push_str("\\/"),
            c if inside && r.pct(30) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => out.push(c),
        }
    }
    out
}
/// fields of a size met in generated description files, and big ones around them
fn inflate(m: &mut Map<String, Value>, r: &mut Rng) {
    let n = *r.pick(&[10, 40, 150, 300]);
    let target = |r: &mut Rng, i: usize| match r.below(3) {
        0 => Value::String(format!("./zzz/{i}.js")),
        1 => serde_json::json!({"node": format!("./zzz/{i}.js"), "default": "./zzz.js"}),
        _ => serde_json::json!([format!("./zzz/{i}.js")]),
    };
    match r.below(5) {
        0 => {
            let text = "zzz ".repeat(*r.pick(&[300, 3000, 20000]));
            let old = std::mem::take(m);
            m.insert("description".into(), Value::String(text));
            m.extend(old);
        }
        1 => {
            let old = std::mem::take(m);
            for i in 0..n {
                m.insert(format!("zzz{i}"), serde_json::json!({"zzz": [i, null, true]}));
            }
            m.extend(old);
        }
        k => {
            let (field, lead) = [("exports", "./"), ("imports", "#"), ("browser", "./")][k - 2];
            if let Some(Value::Object(e)) = m.get_mut(field) {
                if field == "exports" && !(e.keys().all(|k| k.starts_with("./") || k == ".") && !e.is_empty()) {
                    return;
                }
                let old = std::mem::take(e);
                let cut = r.below(old.len() + 1);
                for (i, (k, v)) in old.into_iter().enumerate() {
                    if i == cut {
                        for j in 0..n {
                            let key = match r.below(4) {
                                0 if field != "browser" => format!("{lead}zzz{j}/*"),
                                1 if field != "browser" => format!("{lead}zzz/{j}/zz*"),
                                _ => format!("{lead}zzz{j}"),
                            };
                            let v = if field == "browser" { Value::Bool(j % 2 == 0) } else { target(r, j) };
                            let v = if key.ends_with('*') && field != "browser" { Value::String("./zzz/*".into()) } else { v };
                            e.insert(key, v);
                        }
                    }
                    e.insert(k, v);
                }
            }
        }
    }
}
fn rewrite(mut c: Case, r: &mut Rng, grow: bool) -> Case {
    let dn = c.opts.description_file.clone().unwrap_or("package.json".into());
    for (k, n) in c.world.entries.iter_mut() {
        if !(*k == dn || k.ends_with(&format!("/{dn}"))) || !r.pct(70) {
            continue;
        }
        if let Node::File(t) = n {
            if let Ok(Value::Object(mut m)) = serde_json::from_str::<Value>(t) {
                // only what is written exactly as its value
                if Value::Object(m.clone()).to_string() != *t || t.contains("{ROOT}") {
                    continue;
                }
                if grow {
                    inflate(&mut m, r);
                    *t = Value::Object(m).to_string();
                } else {
                    *t = respell(&Value::Object(m), r);
                }
            }
        }
    }
    c
}
/// fields that other programs read
fn foreign_fields(mut c: Case, r: &mut Rng) -> Case {
    let dn = c.opts.description_file.clone().unwrap_or("package.json".into());
    let ts: Vec<String> = c.world.entries.keys().filter(|k| k.ends_with(".json") && (k.contains("tsconfig") || k.contains("base"))).cloned().collect();
    let files = c.world.files();
    let target = |r: &mut Rng| {
        let f: &String = &files[r.below(files.len().max(1)).min(files.len() - 1)];
        let f = f.rsplit_once('/').map_or(f.as_str(), |x| x.1);
        format!("./{f}")
    };
    if files.is_empty() {
        return c;
    }
    for (k, n) in c.world.entries.iter_mut() {
        let desc = *k == dn || k.ends_with(&format!("/{dn}"));
        if !(desc || ts.contains(k)) || !r.pct(70) {
            continue;
        }
        if let Node::File(t) = n {
            let text = if desc { t.clone() } else { crate::model::strip_jsonc(t) };
            if let Ok(Value::Object(mut m)) = serde_json::from_str::<Value>(&text) {
                if t.contains("{ROOT}") || (desc && Value::Object(m.clone()).to_string() != *t) {
                    continue;
                }
                for _ in 0..1 + r.below(5) {
                    let f = target(r);
                    let (key, v) = if desc {
                        match r.below(22) {
                            0 | 1 => ("private", Value::Bool(r.pct(70))),
                            2 => ("type", Value::String(r.pick(&["module", "commonjs"]).to_string())),
                            3 => ("types", Value::String(f)),
                            4 => ("version", Value::String(r.pick(&["1.0.0", "0.0.0-é", ""]).to_string())),
                            5 => ("workspaces", serde_json::json!(["a", "lib/*", "./x", "**"])),
                            6 => ("files", serde_json::json!([f])),
                            7 => ("dependencies", serde_json::json!({"p": "file:./a", "q": "npm:p@1", "x": "link:.", "@s/p": "workspace:*"})),
                            8 => ("peerDependencies", serde_json::json!({"p": "*"})),
                            9 => ("engines", serde_json::json!({"node": ">=99"})),
                            10 => ("directories", serde_json::json!({"lib": "./a", "main": f})),
                            11 => ("bin", serde_json::json!({"p": f})),
                            12 => ("typesVersions", serde_json::json!({"*": {"*": [f]}})),
                            13 => ("publishConfig", serde_json::json!({"main": f, "exports": f, "directory": "a"})),
                            14 => ("jsnext:main", Value::String(f)),
                            15 => ("react-native", serde_json::json!({"./x": f})),
                            16 => ("alias", serde_json::json!({"p": f, "x": false})),
                            17 => ("os", serde_json::json!(["!linux"])),
                            18 => ("resolutions", serde_json::json!({"p": "1.0.0"})),
                            19 => ("deprecated", Value::String("moved".into())),
                            20 => ("_moduleAliases", serde_json::json!({"p": f})),
                            _ => ("installConfig", serde_json::json!({"pnp": true})),
                        }
                    } else {
                        match r.below(9) {
                            0 | 1 => ("references", serde_json::json!([{"path": "./a"}, {"path": "./tsconfig.json"}])),
                            2 => ("include", serde_json::json!(["src", f])),
                            3 => ("exclude", serde_json::json!(["**/*"])),
                            4 => ("files", serde_json::json!([])),
                            5 => ("ts-node", serde_json::json!({"compilerOptions": {"paths": {"*": [f]}}})),
                            6 => ("compileOnSave", Value::Bool(true)),
                            7 => ("paths", serde_json::json!({"*": [f]})),
                            _ => ("baseUrl", Value::String("./a".into())),
                        }
                    };
                    if !m.contains_key(key) {
                        let old = std::mem::take(&mut m);
                        let cut = r.below(old.len() + 1);
                        for (i, (k, x)) in old.into_iter().enumerate() {
                            if i == cut {
                                m.insert(key.into(), v.clone());
                            }
                            m.insert(k, x);
                        }
                        m.entry(key).or_insert(v);
                    }
                    if !desc && r.pct(40) {
                        let f = target(r);
                        if let Some(Value::Object(co)) = m.get_mut("compilerOptions") {
                            let (k, v) = match r.below(8) {
                                0 => ("composite", Value::Bool(true)),
                                1 => ("rootDirs", serde_json::json!(["a", "lib", "src"])),
                                2 => ("rootDir", Value::String("./a".into())),
                                3 => ("outDir", Value::String("./lib".into())),
                                4 => ("moduleResolution", Value::String(r.pick(&["classic", "node16", "bundler"]).to_string())),
                                5 => ("moduleSuffixes", serde_json::json!([".y", ""])),
                                6 => ("preserveSymlinks", Value::Bool(true)),
                                _ => ("pathsBasePath", Value::String(f)),
                            };
                            co.entry(k).or_insert(v);
                        }
                    }
                }
                *t = Value::Object(m).to_string();
            }
        }
    }
    c
}
fn longer_options(mut c: Case, r: &mut Rng) -> Case {
    let n = *r.pick(&[8, 16, 33, 70]);
    let pad = |xs: &mut Vec<String>, r: &mut Rng, f: &dyn Fn(usize) -> String| {
        let at = r.below(xs.len() + 1);
        let tail = xs.split_off(at);
        xs.extend((0..n).map(f));
        xs.extend(tail);
    };
    match r.below(5) {
        0 => pad(&mut c.opts.extensions, r, &|i| format!(".zz{i}")),
        1 => pad(&mut c.opts.main_files, r, &|i| format!("zz{i}")),
        2 => pad(&mut c.opts.main_fields, r, &|i| format!("zz{i}")),
        3 => pad(&mut c.opts.conditions, r, &|i| format!("zz{i}")),
        _ => {
            let at = r.below(c.opts.alias.len() + 1);
            let tail = c.opts.alias.split_off(at);
            c.opts.alias.extend((0..n).map(|i| (format!("zzz{i}"), if i % 3 == 0 { None } else { Some(format!("./zzz{i}")) })));
            c.opts.alias.extend(tail);
        }
    }
    c
}

/// names of conditions that other programs know
pub const CONDITIONS: [&str; 40] = [
    "module-sync", "node-addons", "types", "browser", "worker", "worklet", "deno", "bun", "workerd", "edge-light", "edge-routine", "netlify",
    "react-native", "react-server", "electron", "development", "production", "test", "svelte", "solid", "style", "sass", "asset", "esm", "es2015",
    "es2020", "module", "umd", "script", "wintercg", "lagon", "kiesel", "fastly", "moddable", "source", "@x/source", "import", "require", "node", "webpack",
];
/// other names for the main fields and the conditions, in the options and in the description files alike
fn fields(mut c: Case, r: &mut Rng) -> Case {
    const MAINS: [&str; 34] = [
        "a/b", "/a/b", "/a", "a.b", "a~1b", "a~0", "jsnext:main", "es2015", "esnext", "module:es2015", "browser:module", "unpkg", "jsdelivr", "types", "source", "sass",
        "Main", "MAIN", "mаin", "", " ", "*", "$", "0", "[a]", "a[0]", "#x", "./x", "react-native", "main/es", "a\\b", "__proto__", "constructor", "é",
    ];
    const SIGNS: [&str; 12] = ["a b", "a/b", "node:x", "É", "-", "*", "x*", "Node", "DEFAULT", "default ", "$&", "日本"];
    let dn = c.opts.description_file.clone().unwrap_or("package.json".into());
    let texts = Value::Array(c.world.entries.values().filter_map(|n| if let Node::File(t) = n { Some(Value::String(t.clone())) } else { None }).collect()).to_string();
    let mut main: Vec<(String, String)> = vec![];
    let mut cond: Vec<(String, String)> = vec![];
    for _ in 0..1 + r.below(2) {
        let from = r.pick(&["main", "module", "style", "jsnext:main"]).to_string();
        let to = r.pick(&MAINS).to_string();
        if !main.iter().any(|(a, b)| *a == from || *b == to) && !c.opts.main_fields.contains(&to) && !texts.contains(&format!("\\\"{to}\\\"")) {
            main.push((from, to));
        }
    }
    for _ in 0..1 + r.below(3) {
        let from = r.pick(&["node", "import", "require", "webpack"]).to_string();
        let to = if r.pct(50) { *r.pick(&CONDITIONS) } else { *r.pick(&SIGNS) }.to_string();
        if !cond.iter().any(|(a, b)| *a == from || *b == to) && !c.opts.conditions.contains(&to) && !texts.contains(&format!("\\\"{to}\\\"")) {
            cond.push((from, to));
        }
    }
    fn conditions(v: &mut Value, cond: &[(String, String)]) {
        match v {
            Value::Object(m) => {
                let old = std::mem::take(m);
                for (k, mut x) in old {
                    conditions(&mut x, cond);
                    let k = cond.iter().find(|(a, _)| *a == k).map_or(k.clone(), |(_, b)| b.clone());
                    m.insert(k, x);
                }
            }
            Value::Array(xs) => xs.iter_mut().for_each(|x| conditions(x, cond)),
            _ => {}
        }
    }
    // all description files, or none
    let mut out: Vec<(String, String)> = vec![];
    for (k, n) in c.world.entries.iter() {
        if !(*k == dn || k.ends_with(&format!("/{dn}"))) {
            continue;
        }
        if let Node::File(t) = n {
            if let Ok(Value::Object(m)) = serde_json::from_str::<Value>(t) {
                if Value::Object(m.clone()).to_string() != *t {
                    return c;
                }
                let mut new = Map::new();
                for (f, mut x) in m {
                    if f == "exports" || f == "imports" {
                        conditions(&mut x, &cond);
                    }
                    let f = main.iter().find(|(a, _)| *a == f).map_or(f.clone(), |(_, b)| b.clone());
                    new.insert(f, x);
                }
                // what a path through the value would find
                for (_, to) in &main {
                    if let Some((a, b)) = to.trim_start_matches('/').split_once(|c| c == '/' || c == '.').filter(|_| r.pct(50)) {
                        let other = r.pick(&["./x.js", "./y.js", "./lib", "."]).to_string();
                        if !a.is_empty() && !new.contains_key(a) {
                            new.insert(a.into(), serde_json::json!({b: other}));
                        }
                    }
                }
                out.push((k.clone(), Value::Object(new).to_string()));
            }
        }
    }
    for (k, t) in out {
        c.world.entries.insert(k, Node::File(t));
    }
    for (list, map) in [(&mut c.opts.main_fields, &main), (&mut c.opts.conditions, &cond)] {
        for x in list.iter_mut() {
            if let Some((_, b)) = map.iter().find(|(a, _)| a == x) {
                *x = b.clone();
            }
        }
    }
    c
}
/// directories of modules under the names that other programs gave them
pub const MODULES: [&str; 14] = [
    "bower_components", "web_modules", "jspm_packages", ".node_modules", "node_modules.old", "vendor", "packages", "libs", "deps", "components",
    "Node_modules", "NODE_MODULES", "node-modules", "node_libraries",
];
pub fn other_modules(w: &mut World, r: &mut Rng) {
    let from: Vec<String> = w.dirs().into_iter().filter(|d| *d == "node_modules" || d.ends_with("/node_modules")).collect();
    let dirs: Vec<String> = w.dirs().into_iter().filter(|d| d.len() < 2000 && !d.split('/').any(|x| MODULES.contains(&x))).collect();
    for _ in 0..1 + r.below(3) {
        let d = r.pick(&dirs).clone();
        let m = *r.pick(&MODULES);
        let top = if d.is_empty() { m.to_string() } else { format!("{d}/{m}") };
        let clash = |w: &World, t: &str| w.entries.keys().any(|k| *k == t || k.starts_with(&format!("{t}/")));
        if clash(w, &top) {
            continue;
        }
        if !from.is_empty() && r.pct(50) {
            // a copy of one of those that count
            let f = format!("{}/", r.pick(&from));
            let part: Vec<(String, Node)> = w.entries.range(f.clone()..).take_while(|(k, _)| k.starts_with(&f)).take(12).map(|(k, n)| (k[f.len()..].to_string(), n.clone())).collect();
            for (k, n) in part {
                if matches!(n, Node::File(_)) && !clash(w, &format!("{top}/{k}")) {
                    w.put(&format!("{top}/{k}"), n);
                }
            }
        } else {
            for p in ["p", "q", "x", "y", "pq", "a", "missing", "@s/p"] {
                if r.pct(60) {
                    match r.below(3) {
                        0 => w.file(&format!("{top}/{p}.js"), ""),
                        1 => w.file(&format!("{top}/{p}"), ""),
                        _ => w.file(&format!("{top}/{p}/index.js"), "").file(&format!("{top}/{p}/x.js"), ""),
                    };
                }
            }
        }
    }
}

/// modules inside a directory of modules, and bases there in many spellings
fn doubled(mut c: Case, r: &mut Rng) -> Case {
    let from: Vec<String> = c.world.dirs().into_iter().filter(|d| *d == "node_modules" || d.ends_with("/node_modules")).collect();
    if from.is_empty() {
        return c;
    }
    let d = r.pick(&from).clone();
    let top = format!("{d}/node_modules");
    let clash = |w: &World, t: &str| w.entries.keys().any(|k| *k == t || k.starts_with(&format!("{t}/")));
    if clash(&c.world, &top) {
        return c;
    }
    let names: Vec<String> = c.world.entries.keys().filter_map(|k| k.strip_prefix(&format!("{d}/"))).map(|k| k.split('/').next().unwrap_or("").to_string()).filter(|k| !k.is_empty() && !k.starts_with('@')).collect();
    for n in names.iter().map(|x| x.as_str()).chain(["p", "q", "x"]).take(8) {
        if r.pct(70) && !clash(&c.world, &format!("{top}/{n}")) {
            if n.contains('.') {
                c.world.file(&format!("{top}/{n}"), "");
            } else {
                c.world.file(&format!("{top}/{n}/index.js"), "").file(&format!("{top}/{n}/x.js"), "");
            }
        }
    }
    let some: Vec<Call> = c.calls.iter().filter(|x| !x.base.is_empty()).take(3).cloned().collect();
    for x in some {
        for tail in ["", "/.", "/", "//.", "/./.", "/node_modules", "/node_modules/.", "/../node_modules", "/node_modules/.."] {
            if r.pct(50) {
                c.calls.push(Call { base: format!("{d}{tail}"), req: if r.pct(50) { x.req.clone() } else { r.pick(&["p", "q", "x", "p/x", "p/x.js"]).to_string() }, se: x.se });
            }
        }
    }
    c
}

/// one or two directories are somewhere else, and links lead there
fn linked(mut c: Case, r: &mut Rng) -> Case {
    for i in 0..1 + r.below(2) {
        let dirs: Vec<String> = c.world.dirs().into_iter().filter(|d| !d.is_empty() && !d.starts_with("zz-store")).collect();
        let scopes: Vec<String> = dirs.iter().filter(|d| d.rsplit('/').next().unwrap().starts_with('@')).cloned().collect();
        let d = match r.below(3) {
            0 if !scopes.is_empty() => r.pick(&scopes).clone(),
            _ if !dirs.is_empty() => r.pick(&dirs).clone(),
            _ => return c,
        };
        let to = format!("zz-store/{i}/{}", r.pick(&["s", "a/b", "node_modules", "node_modules/z", "x.js"]));
        let below = format!("{d}/");
        let part: Vec<(String, Node)> = c.world.entries.iter().filter(|(k, _)| k.starts_with(&below)).map(|(k, n)| (k[below.len()..].to_string(), n.clone())).collect();
        if matches!(c.world.entries.get(&d), Some(Node::Link(_))) || c.world.modes.keys().any(|k| *k == d || k.starts_with(&below)) || part.iter().any(|(k, _)| k.len() > 2000) {
            continue;
        }
        c.world.entries.retain(|k, _| *k != d && !k.starts_with(&below));
        c.world.dir(&to);
        for (k, n) in part {
            c.world.put(&format!("{to}/{k}"), n);
        }
        let up = "../".repeat(d.matches('/').count());
        let target = if r.pct(50) { format!("{up}{to}") } else { format!("{{ROOT}}/{to}") };
        c.world.link(&d, &target);
    }
    c
}
/// the same base in another spelling
fn bases(mut c: Case, r: &mut Rng) -> Case {
    for x in c.calls.iter_mut() {
        if x.base.is_empty() || x.base.starts_with('{') || !r.pct(40) {
            continue;
        }
        let tail = *r.pick(&["/.", "/", "//", "/./", "/./.", "/././"]);
        x.base.push_str(tail);
        if r.pct(20) {
            x.base = x.base.replacen('/', *r.pick(&["//", "/./"]), 1);
        }
    }
    c
}
/// signs in front of a `?` or `#` and behind it, in a request that an alias knows
fn signs(mut c: Case, r: &mut Rng) -> Case {
    const SIGNS: [&str; 22] = [
        "\0", "\0", "\\", "\\", "\u{1}", "\n", "\r\n", "\t", "\u{7f}", "!", "'", "\"", "^", "\u{200b}", "\u{200d}", "%23", "%3F", "%", "&", "\u{feff}", "\u{fe0f}", " ",
    ];
    let files = c.world.files();
    if files.is_empty() || c.opts.alias.len() > 200 {
        return c;
    }
    let sign = *r.pick(&SIGNS);
    let f = format!("{{ROOT}}/{}", r.pick(&files));
    let key = format!("{}{sign}", r.pick(&["zz", "zz/é", "@z/z", "./zz"]));
    if !f.contains(['?', '#']) {
        c.opts.alias.insert(0, (key.clone(), Some(f)));
    }
    let bases: Vec<String> = c.calls.iter().filter(|x| !x.se && !x.base.contains("node_modules")).map(|x| x.base.clone()).take(2).collect();
    for b in bases {
        for tail in ["#x", "?x#y", "#x{S}#y", "?x{S}#y", "?{S}?", "#{S}", "{S}#", "{S}?", "", "?x{S}", "?{S}#"] {
            if r.pct(50) {
                c.calls.push(Call { base: b.clone(), req: format!("{key}{}", tail.replace("{S}", sign)), se: false });
            }
        }
    }
    c
}

/// an alias that only changes the letter case
fn cased(mut c: Case, r: &mut Rng) -> Case {
    let files: Vec<String> = c.world.files().into_iter().filter(|f| f.is_ascii() && !f.contains(['?', '#'])).collect();
    if files.is_empty() {
        return c;
    }
    for _ in 0..1 + r.below(3) {
        let f = r.pick(&files).clone();
        let f = match f.rsplit_once("node_modules/") {
            Some((_, f)) if r.pct(70) => f.to_string(),
            _ => format!("./{f}"),
        };
        let cut = r.below(f.len() + 1).max(3).min(f.len());
        let to = f[..cut].to_string();
        let key = if r.pct(50) { to.to_ascii_uppercase() } else { to.chars().map(|x| if r.pct(50) { x.to_ascii_uppercase() } else { x }).collect() };
        if key != to && !c.opts.alias.iter().any(|(k, _)| *k == key) {
            c.opts.alias.insert(0, (key.clone(), Some(to)));
            for b in c.calls.iter().map(|x| x.base.clone()).take(2).collect::<Vec<_>>() {
                c.calls.push(Call { base: b, req: format!("{key}{}", &f[cut..]), se: false });
            }
            c.calls.push(Call { base: String::new(), req: format!("{key}{}", &f[cut..]), se: false });
        }
    }
    c
}

/// nearly the same string
fn near_text(t: &str, others: &[String], r: &mut Rng) -> String {
    let cs: Vec<char> = t.chars().collect();
    let mid = |r: &mut Rng| r.below(cs.len() + 1);
    let cut = |cs: &[char]| cs.iter().collect::<String>();
    match r.below(22) {
        0 => format!("{t}{}", r.below(12)),
        1 => format!("{t}s"),
        2 => format!("x{t}"),
        3 => format!("{t} "),
        4 => format!(" {t}"),
        5 => format!("{t}/"),
        6 => format!("{t}*"),
        7 => format!("{t}.js"),
        8 => cut(&cs[..cs.len().saturating_sub(1)]),
        9 => cut(&cs[cs.len().min(1)..]),
        10 => t.strip_prefix("./").map_or(format!("./{t}"), |x| x.to_string()),
        11 => t.strip_prefix('#').map_or(format!("#{t}"), |x| x.to_string()),
        12 => {
            let i = mid(r).min(cs.len().saturating_sub(1));
            cs.iter().enumerate().map(|(k, c)| if k == i && c.is_lowercase() { c.to_uppercase().to_string() } else if k == i { c.to_lowercase().to_string() } else { c.to_string() }).collect()
        }
        13 => t.to_uppercase(),
        14 => {
            // one character twice, or gone
            let i = mid(r).min(cs.len().saturating_sub(1));
            let n = if r.pct(50) { 2 } else { 0 };
            cs.iter().enumerate().map(|(k, c)| if k == i { c.to_string().repeat(n) } else { c.to_string() }).collect()
        }
        15 => cs.iter().rev().collect(),
        16 => format!("{t}{t}"),
        17 => t.replace('/', *r.pick(&["//", "/./", "\\", "-"])),
        18 => t.replacen('*', *r.pick(&["", "**", "*/*", "x"]), 1),
        19 => format!("{t}{}", r.pick(&["-x", "_", ":", "@1", ".", "?", "#", "|x", ",", "=", "\u{301}"])),
        20 if !cs.is_empty() => {
            let i = r.below(cs.len());
            format!("{}{}{}", cut(&cs[..i]), r.pick(&["x", "/", ".", "*", "-", "1", "é"]), cut(&cs[i..]))
        }
        _ if !others.is_empty() => r.pick(others).clone(),
        _ => t.to_string(),
    }
}
fn strings_of(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::String(t) => out.push(t.clone()),
        Value::Array(xs) => xs.iter().for_each(|x| strings_of(x, out)),
        Value::Object(m) => m.iter().for_each(|(k, x)| {
            out.push(k.clone());
            strings_of(x, out)
        }),
        _ => {}
    }
}
/// changes the `n`-th string of the value, a key or a leaf
fn change_nth(v: &Value, n: &mut usize, f: &mut dyn FnMut(&str) -> String) -> Value {
    let hit = |n: &mut usize| {
        let h = *n == 0;
        *n = n.wrapping_sub(1);
        h
    };
    match v {
        Value::String(t) if hit(n) => Value::String(f(t)),
        Value::Array(xs) => Value::Array(xs.iter().map(|x| change_nth(x, n, f)).collect()),
        Value::Object(m) => {
            let mut out = Map::new();
            for (k, x) in m {
                let mut key = k.clone();
                if hit(n) {
                    key = f(k);
                    if m.contains_key(&key) || out.contains_key(&key) {
                        key = k.clone();
                    }
                }
                let x = change_nth(x, n, f);
                out.insert(key, x);
            }
            Value::Object(out)
        }
        _ => v.clone(),
    }
}
/// one string, in one place, is nearly what it was: a name that all but matches
fn near(mut c: Case, r: &mut Rng) -> Case {
    let dn = c.opts.description_file.clone().unwrap_or("package.json".into());
    for _ in 0..1 + r.below(2) {
        if r.pct(70) {
            let descs: Vec<String> = c.world.files().into_iter().filter(|k| *k == dn || k.ends_with(&format!("/{dn}"))).collect();
            if descs.is_empty() {
                continue;
            }
            let k = r.pick(&descs).clone();
            if let Some(Node::File(t)) = c.world.entries.get_mut(&k) {
                if let Ok(v @ Value::Object(_)) = serde_json::from_str::<Value>(t) {
                    if v.to_string() != *t || t.contains("{ROOT}") {
                        continue;
                    }
                    let mut all = vec![];
                    strings_of(&v, &mut all);
                    if all.is_empty() {
                        continue;
                    }
                    let mut n = r.below(all.len());
                    *t = change_nth(&v, &mut n, &mut |x| near_text(x, &all, r)).to_string();
                }
            }
        } else {
            let o = &mut c.opts;
            let list = match r.below(4) {
                0 => &mut o.extensions,
                1 => &mut o.main_files,
                2 => &mut o.main_fields,
                _ => &mut o.conditions,
            };
            if !list.is_empty() && r.pct(75) {
                let i = r.below(list.len());
                list[i] = near_text(&list[i].clone(), list, r);
            } else if !o.alias.is_empty() {
                let i = r.below(o.alias.len());
                let (k, v) = o.alias[i].clone();
                let k2 = near_text(&k, &[], r);
                if r.pct(60) && !k.starts_with('{') && !k.is_empty() && !o.alias.iter().any(|(x, _)| *x == k2) {
                    o.alias[i].0 = k2;
                } else if let Some(t) = v {
                    if !t.contains("{ROOT}") {
                        o.alias[i].1 = Some(near_text(&t, &[], r));
                    }
                }
            }
        }
    }
    c
}

/// the whole tree in a directory with an unusual name
fn nested(c: Case, r: &mut Rng) -> Case {
    const TOPS: [&str; 24] = [
        "a*b", "*", "a{FF}", "{FF}*", "a b", " ", "#a", "a#b", "?", "a?b", ".", "..x", "$&", "my_node_modules_x", "node_modules", "package.json.d",
        "日本語", "e\u{301}", "-", "@s", "c:", "a\\b", "%2F", "index.js",
    ];
    let d = *r.pick(&TOPS);
    let text = c.to_json().to_string();
    if d == "." || c.extra != Value::Null || !c.world.modes.is_empty() || (d.contains("{FF}") && text.contains("{ROOT}")) {
        return c;
    }
    let mut n = c.clone();
    n.world.entries.clear();
    for (k, e) in c.world.entries.iter() {
        let root = format!("{{ROOT}}/{d}");
        let e = match e {
            crate::core::Node::File(t) => Node::File(t.replace("{ROOT}", &root.replace('\\', "\\\\"))),
            Node::Link(t) => Node::Link(t.replace("{ROOT}", &root)),
            x => x.clone(),
        };
        n.world.put(&format!("{d}/{k}"), e);
    }
    let root = format!("{{ROOT}}/{d}");
    for x in n.calls.iter_mut() {
        x.req = x.req.replace("{ROOT}", &root);
        if !x.base.starts_with("{REL}") && !x.base.starts_with("{ABS}") {
            x.base = if x.base.is_empty() { d.to_string() } else { format!("{d}/{}", x.base) };
        } else {
            x.base = x.base.replace("{ROOT}", &root);
        }
    }
    n.opts.tsconfig = n.opts.tsconfig.map(|t| format!("{d}/{t}"));
    for (k, v) in n.opts.alias.iter_mut() {
        *k = k.replace("{ROOT}", &root);
        if let Some(v) = v {
            *v = v.replace("{ROOT}", &root);
        }
    }
    n
}

/// what this user may not read or enter, and text that is not UTF-8
fn forbid(mut c: Case, r: &mut Rng) -> Case {
    let dn = c.opts.description_file.clone().unwrap_or("package.json".into());
    let dirs: Vec<String> = c.world.dirs().into_iter().filter(|d| !d.is_empty()).collect();
    let files = c.world.files();
    let descs: Vec<String> = files.iter().filter(|f| **f == dn || f.ends_with(&format!("/{dn}")) || c.opts.tsconfig.as_ref() == Some(*f)).cloned().collect();
    for _ in 0..1 + r.below(3) {
        match r.below(8) {
            0 | 1 if !dirs.is_empty() => {
                c.world.modes.insert(r.pick(&dirs).clone(), *r.pick(&[0, 0o111, 0o444, 0o700, 0o555]));
            }
            2 | 3 if !descs.is_empty() => {
                c.world.modes.insert(r.pick(&descs).clone(), *r.pick(&[0, 0o200, 0o600, 0o444]));
            }
            4 if !descs.is_empty() => {
                let f = r.pick(&descs).clone();
                if let Some(Node::File(t)) = c.world.entries.get_mut(&f) {
                    let at = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).nth(r.below(t.chars().count() + 1)).unwrap();
                    t.insert_str(at, "{BYTE}");
                }
            }
            _ if !files.is_empty() => {
                c.world.modes.insert(r.pick(&files).clone(), *r.pick(&[0, 0o200, 0o111, 0o600]));
            }
            _ => {}
        }
    }
    c
}

pub fn vary(prop: &str, c: Case, r: &mut Rng) -> Case {
    let mut c = c;
    let exact = matches!(prop, "C22" | "C23");
    if exact {
        return c;
    }
    if r.pct(2) && !matches!(prop, "C15" | "C16" | "C18") {
        c.opts = Opts::default();
    }
    if r.pct(4) {
        c = rewrite(c, r, true);
    }
    if r.pct(12) {
        c = foreign_fields(c, r);
    }
    if r.pct(5) {
        c = longer_options(c, r);
    }
    if r.pct(40) {
        c = rename(c, r);
    }
    if r.pct(8) && !matches!(prop, "C15" | "C16" | "C18") {
        c = near(c, r);
    }
    if match prop {
        "C03" => r.pct(8),
        "C02" | "C10" | "C19" => r.pct(2),
        _ => false,
    } {
        c = signs(c, r);
    }
    if prop == "C10" && r.pct(3) {
        c = cased(c, r);
    }
    if r.pct(4) && !matches!(prop, "C13" | "C15" | "C16" | "C17" | "C18" | "C20" | "C24") {
        c = linked(c, r);
    }
    if r.pct(5) && !matches!(prop, "C15" | "C16" | "C18") {
        c = bases(c, r);
    }
    if prop == "C06" && r.pct(4) {
        c = doubled(c, r);
    }
    if r.pct(if prop == "C24" { 15 } else { 5 }) {
        c = fields(c, r);
    }
    if r.pct(if prop == "C20" { 40 } else { 10 }) {
        c = noise(c, r);
    }
    if r.pct(5) && !matches!(prop, "C15" | "C16" | "C18") {
        other_modules(&mut c.world, r);
    }
    if r.pct(10) {
        c = rewrite(c, r, false);
    }
    if r.pct(5) && !matches!(prop, "C13" | "C15" | "C16" | "C17" | "C18" | "C20" | "C24") {
        c = nested(c, r);
    }
    if r.pct(4) && !matches!(prop, "C16" | "C17" | "C18" | "C24") {
        c = forbid(c, r);
    }
    c
}

