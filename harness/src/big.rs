//! Cases around sizes at which counters, buffers and recursion end: deep trees, long names, many entries.
use crate::core::*;
use crate::gen::{Case, G};
use serde_json::{json, Map, Value};

const EDGES: [usize; 14] = [31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 255, 256, 257];
const LARGE: [usize; 8] = [512, 1000, 1023, 1024, 1025, 4096, 4097, 10000];
const HUGE: [usize; 5] = [32767, 32768, 65535, 65536, 65537];

fn size(g: &mut G, most: usize) -> usize {
    let n = match g.r.below(10) {
        0 | 1 => *g.r.pick(&LARGE),
        2 => *g.r.pick(&HUGE),
        _ => *g.r.pick(&EDGES),
    };
    if n > most {
        *g.r.pick(&EDGES)
    } else {
        n
    }
}
fn unit(g: &mut G) -> &'static str {
    g.r.pick(&["x", "n", "é", "日", "😀", "x-", "ab", "e\u{301}"])
}
/// a name of at most `max` bytes, of about `n`
fn long(g: &mut G, n: usize, max: usize) -> String {
    let u = unit(g);
    let n = n.min(max);
    u.repeat((n / u.len()).max(1))
}
/// directories in each other
fn deep(g: &mut G, n: usize) -> String {
    let u = *g.r.pick(&["d", "d", "é", "x1"]);
    let n = n.min(900 / u.len());
    vec![u; n].join("/")
}
fn obj(v: Value) -> Map<String, Value> {
    v.as_object().unwrap().clone()
}

pub fn big(r: Rng, prop: &str) -> Case {
    let mut g = G::new(r);
    if g.p(30) {
        // beside it, something ordinary
        let d = g.dirs_below("", 1);
        for x in &d {
            g.files_in(x, 2);
        }
        g.near_calls(2, "rrab", 10);
    }
    g.ext_options();
    let q = if g.p(25) { g.decoration() } else { String::new() };
    let aimed: &[usize] = match prop {
        "C03" => &[14, 14, 3, 5, 9],
        "C04" | "C05" => &[8, 15, 19, 17, 2],
        "C06" => &[2, 15, 16],
        "C07" | "C08" => &[0, 3, 5, 7],
        "C09" => &[3, 5, 7, 11],
        "C10" => &[5, 2, 11],
        "C11" => &[9, 11],
        "C12" => &[13],
        "C14" => &[18],
        "C21" => &[17],
        "C01" => &[17, 15, 14],
        "C19" => &[14, 14, 8, 15, 2, 3, 5, 11],
        "C02" => &[0, 1, 2, 3, 3, 3, 3, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 20],
        _ => &[],
    };
    let family = if !aimed.is_empty() && g.p(70) { *g.r.pick(aimed) } else { g.r.below(20) };
    match family {
        0 | 1 => {
            // a deep package
            let n = size(&mut g, 400);
            let d = deep(&mut g, n);
            let d1 = d.split_once('/').map_or("d", |x| x.1).to_string();
            let f = *g.r.pick(&["x.js", "index.js", "x"]);
            g.w.file(&format!("node_modules/p/{d}/{f}"), "");
            g.w.file(&format!("node_modules/p/{f}"), "");
            let e = match g.r.below(4) {
                0 => json!({"./*": "./*"}),
                1 => json!({"./": "./"}),
                2 => json!({"./z": format!("./{d}/{f}"), "./y/*": format!("./{d}/*"), "./back": format!("./{d}/{}{f}", "../".repeat(d.split('/').count()))}),
                _ => json!({".": {"default": format!("./{d}/{f}")}, "./*/x.js": "./*/x.js", "./out": format!("./{d}/{}{f}", "../".repeat(d.split('/').count() + 1))}),
            };
            g.w.json("node_modules/p/package.json", &json!({"name": "p", "exports": e, "main": format!("./{d}")}));
            for c in ["p", "p/z", "p/y/x.js", "p/back", "p/out", "p/y/x"] {
                g.call("", &format!("{c}{q}"));
            }
            g.call("", &format!("p/{d}/{f}{q}"));
            g.call("", &format!("p/{d}/x{q}"));
            g.call("", &format!("p/{d}{q}"));
            g.call("", &format!("./node_modules/p/{d}"));
            g.call(&format!("node_modules/p/{d}"), &format!("./{f}"));
            g.call(&format!("node_modules/p/{d1}"), "p/z");
            g.call(&format!("node_modules/p/{d}"), &format!("{}{f}", "../".repeat(d.split('/').count())));
        }
        2 => {
            // far below its package and its modules
            let n = size(&mut g, 400);
            let d = deep(&mut g, n);
            g.w.dir(&d);
            g.w.file("node_modules/p/index.js", "");
            g.w.file("node_modules/q/x.js", "");
            g.w.file("x.js", "");
            g.w.json("package.json", &json!({"name": "r", "imports": {"#x": "./x.js", "#*": "p"}, "browser": {"q": "./x.js", "./zz": false}, "exports": {"./x": "./x.js"}, "sideEffects": ["./d/**", "x.js"]}));
            g.o.browser_field = g.p(60);
            for c in ["p", "#x", "#y", "r/x", "q", "q/x.js", "nope", "./nope", "r"] {
                g.call(&d, &format!("{c}{q}"));
            }
            let b = d.clone();
            g.calls.push(crate::gen::Call { base: b, req: String::new(), se: true });
        }
        3 | 4 => {
            // long keys, targets, matches
            let n = size(&mut g, 70000);
            let k = if g.p(if prop == "C02" { 40 } else { 25 }) {
                // of many segments
                vec![unit(&mut g); n.min(20000)].join("/")
            } else {
                long(&mut g, n, 70000)
            };
            let file = long(&mut g, n, 240);
            g.w.file(&format!("node_modules/p/{file}.js"), "");
            g.w.file(&format!("node_modules/p/{file}"), "");
            g.w.file("node_modules/p/x.js", "");
            let e = match g.r.below(4) {
                0 => json!({format!("./{k}"): "./x.js", format!("./{k}/"): "./", format!("./{k}z"): format!("./{file}.js")}),
                1 => json!({format!("./{k}*"): "./*", format!("./{k}/*"): "./*.js", "./*": "./*"}),
                2 => json!({format!("./*{k}"): "./*", "./*.js": "./*.js", format!("./{k}*{k}"): "./x*"}),
                _ => json!({"./x": format!("./{k}"), "./*": format!("./{}", "*".repeat(n.min(300))), "./y": [format!("./{k}"), "./x.js"]}),
            };
            let imp = json!({format!("#{k}"): "./x.js", format!("#{k}/*"): "./*.js", "#x": format!("./{file}.js"), "#*": format!("./{k}*")});
            g.w.json("node_modules/p/package.json", &json!({"name": "p", "exports": e, "imports": imp}));
            for c in [format!("p/{k}"), format!("p/{k}/x.js"), format!("p/{k}x.js"), format!("p/{k}z"), format!("p/{k}/x"), format!("p/{file}"), format!("p/{file}.js"), format!("p/x.js{k}"), format!("p/{k}.js{k}"), "p/x".into(), "p/y".into(), "p/.".into()] {
                g.call("", &format!("{c}{q}"));
            }
            for c in [format!("#{k}"), format!("#{k}/x"), "#x".into(), format!("#{k}/{file}"), format!("#{k}{k}")] {
                g.call("node_modules/p", &c);
            }
        }
        5 | 6 => {
            // many keys
            let n = size(&mut g, if prop == "C02" { 70000 } else { 5000 });
            let f = |i: usize| format!("k{i}");
            for i in [0, n / 2, n - 1] {
                g.w.file(&format!("node_modules/p/{}.js", f(i)), "");
            }
            g.w.file("node_modules/p/index.js", "");
            let which = g.r.below(5);
            let mut m = Map::new();
            for i in 0..n {
                let (k, v) = match which {
                    0 => (format!("./{}", f(i)), json!(format!("./{}.js", f(i)))),
                    1 => (format!("#{}", f(i)), json!(format!("./{}.js", f(i)))),
                    2 => (format!("./{}.js", f(i)), if i % 2 == 0 { json!(false) } else { json!("./index.js") }),
                    3 => (format!("./{}/*", f(i)), json!("./*.js")),
                    _ => (f(i), json!("./index.js")),
                };
                m.insert(k, v);
            }
            let field = ["exports", "imports", "browser", "exports", "browser"][which];
            g.o.browser_field = field == "browser";
            g.w.json("node_modules/p/package.json", &json!({"name": "p", "version": "1.0.0", field: m}));
            for i in [0, 1, n / 2, n - 1, n] {
                for c in [format!("p/{}", f(i)), format!("p/{}.js", f(i)), format!("p/{}/k0", f(i))] {
                    g.call("", &format!("{c}{q}"));
                }
                for c in [format!("#{}", f(i)), format!("./{}", f(i)), f(i)] {
                    g.call("node_modules/p", &c);
                }
            }
        }
        7 => {
            // many targets for one key, or conditions within conditions
            let n = size(&mut g, 5000);
            g.w.file("node_modules/p/x.js", "");
            let e = match g.r.below(3) {
                0 => {
                    let mut xs: Vec<Value> = (0..n).map(|i| json!(*[&format!("./zz{i}.js") as &str, "../zz", "zz"].get(i % 3).unwrap())).collect();
                    xs.push(json!("./x.js"));
                    json!(xs)
                }
                1 => {
                    let mut m: Map<String, Value> = (0..n).map(|i| (format!("zz{i}"), json!("./zz.js"))).collect();
                    m.insert("default".into(), json!("./x.js"));
                    Value::Object(m)
                }
                _ => {
                    let n = n.min(110);
                    let c = *g.r.pick(&["default", "node", "import"]);
                    serde_json::from_str(&format!("{}\"./x.js\"{}", format!("{{\"{c}\":").repeat(n), "}".repeat(n))).unwrap()
                }
            };
            g.opt_conditions();
            g.w.json("node_modules/p/package.json", &json!({"name": "p", "exports": {".": e, "./y": "./x.js"}, "imports": {"#x": e}}));
            for (b, c) in [("", "p"), ("", "p/y"), ("node_modules/p", "#x"), ("node_modules/p", "p")] {
                g.call(b, &format!("{c}{q}"));
            }
        }
        8 => {
            // many options
            let n = size(&mut g, 5000);
            let place = g.r.below(3);
            let mix = |name: &str, f: &dyn Fn(usize) -> String| -> Vec<String> {
                let mut xs: Vec<String> = (0..n).map(f).collect();
                let at = [0, n / 2, n][place];
                xs.insert(at, name.into());
                xs
            };
            g.w.file("x.js", "");
            g.w.file("a/main.js", "");
            g.w.file("b/x.js", "");
            g.w.json("b/package.json", &json!({"main": "zz.js", "module": "./x.js"}));
            g.w.file("node_modules/p/x.js", "");
            g.w.json("node_modules/p/package.json", &json!({"name": "p", "exports": {"webpack": "./x.js", "default": "./zz.js"}}));
            g.o.extensions = vec![".js".into()];
            match g.r.below(4) {
                0 => g.o.extensions = mix(".js", &|i| format!(".z{i}")),
                1 => g.o.main_files = mix("main", &|i| format!("z{i}")),
                2 => g.o.main_fields = mix("module", &|i| format!("z{i}")),
                _ => g.o.conditions = mix("webpack", &|i| format!("z{i}")),
            }
            for c in ["./x", "./a", "./b", "p", "./b/x"] {
                g.call("", &format!("{c}{q}"));
            }
        }
        9 | 10 => {
            // many aliases, and long ones
            let n = size(&mut g, 5000);
            g.w.file("x.js", "");
            g.w.file("node_modules/p/x.js", "");
            g.w.file("node_modules/p/index.js", "");
            if g.p(60) {
                for i in 0..n {
                    g.o.alias.push((format!("k{i}"), if i % 3 == 0 { None } else { Some(["./x.js", "p"][i % 2].into()) }));
                }
                for i in [0, 1, 2, n / 2, n - 1, n] {
                    g.call("", &format!("k{i}{q}"));
                    g.call("", &format!("k{i}/x"));
                }
            } else {
                let k = long(&mut g, n, 5000);
                g.o.alias.push((k.clone(), Some("p".into())));
                g.o.alias.push(("y".into(), Some(format!("./{k}"))));
                g.o.alias.push((format!("{k}z"), None));
                for c in [k.clone(), format!("{k}/x"), format!("{k}z"), format!("{k}zz"), "y".into(), "y/x".into(), "p".into()] {
                    g.call("", &format!("{c}{q}"));
                }
            }
        }
        11 | 12 => {
            // one redirection after another, from a few to a thousand
            let n = *g.r.pick(&[3usize, 9, 10, 11, 20, 31, 32, 33, 50]);
            g.w.file("x.js", "");
            g.w.file("y.js", "");
            match g.r.below(4) {
                0 => {
                    for i in 0..n {
                        g.o.alias.push((format!("k{i}"), Some(if i + 1 == n { "./x.js".into() } else { format!("k{}", i + 1) })));
                    }
                    g.call("", &format!("k0{q}"));
                    g.call("", &format!("k{}", n / 2));
                    g.call("", "k0/y");
                }
                1 => {
                    let m: Map<String, Value> = (0..n).map(|i| (format!("#k{i}"), if i + 1 == n { json!("./x.js") } else { json!(format!("#k{}", i + 1)) })).collect();
                    g.w.json("package.json", &json!({ "imports": m }));
                    g.call("", &format!("#k0{q}"));
                    g.call("", &format!("#k{}", n - 1));
                }
                2 => {
                    g.o.browser_field = true;
                    let m: Map<String, Value> = (0..n).map(|i| (format!("k{i}"), if i + 1 == n { json!("./x.js") } else { json!(format!("k{}", i + 1)) })).collect();
                    g.w.json("package.json", &json!({ "browser": m }));
                    g.call("", &format!("k0{q}"));
                    g.call("", &format!("k{}", n - 1));
                }
                _ => {
                    // packages that lead to packages
                    for i in 0..n {
                        g.w.file(&format!("node_modules/k{i}/index.js"), "");
                        g.w.json(&format!("node_modules/k{i}/package.json"), &json!({"name": format!("k{i}"), "imports": {"#x": format!("k{}", i + 1)}, "exports": {".": {"node": [format!("zz{i}"), "./index.js"]}}}));
                        g.call(&format!("node_modules/k{i}"), "#x");
                    }
                    g.cap_calls(12);
                }
            }
        }
        13 => {
            // a chain of tsconfigs, many paths, long paths
            let n = size(&mut g, 1000);
            g.w.file("x.js", "");
            g.w.file("lib/x.js", "");
            g.w.file("node_modules/p/index.js", "");
            g.o.tsconfig = Some("tsconfig.json".into());
            match g.r.below(4) {
                0 => {
                    let n = *g.r.pick(if prop == "C02" { &[33usize, 300, 2000, 4000] } else { &[3, 9, 20, 33] });
                    for i in 0..n {
                        let f = if i == 0 { "tsconfig.json".to_string() } else { format!("base{i}.json") };
                        let v = if i + 1 == n { json!({"compilerOptions": {"baseUrl": ".", "paths": {"k/*": ["./lib/*"]}}}) } else { json!({"extends": format!("./base{}.json", i + 1)}) };
                        g.w.file(&f, &v.to_string());
                    }
                    g.call("", &format!("k/x{q}"));
                }
                1 => {
                    let m: Map<String, Value> = (0..n).map(|i| (if i % 2 == 0 { format!("k{i}") } else { format!("k{i}/*") }, json!([if i % 2 == 0 { "./x.js" } else { "./lib/*" }]))).collect();
                    g.w.file("tsconfig.json", &json!({"compilerOptions": {"baseUrl": ".", "paths": m}}).to_string());
                    for i in [0, 1, n / 2, n - 1, n] {
                        g.call("", &format!("k{i}{q}"));
                        g.call("", &format!("k{i}/x"));
                    }
                }
                2 => {
                    let mut xs: Vec<String> = (0..n).map(|i| format!("./zz{i}/*")).collect();
                    xs.push("./lib/*".into());
                    g.w.file("tsconfig.json", &json!({"compilerOptions": {"baseUrl": ".", "paths": {"k/*": xs, "*": ["./zz/*"]}}}).to_string());
                    g.call("", &format!("k/x{q}"));
                    g.call("", "p");
                }
                _ => {
                    let k = long(&mut g, n, 5000);
                    g.w.file("tsconfig.json", &json!({"compilerOptions": {"baseUrl": ".", "paths": {format!("{k}/*"): ["./lib/*"], format!("*{k}"): ["./*.js"], format!("{k}*{k}"): ["./x.js"]}}}).to_string());
                    for c in [format!("{k}/x"), format!("x{k}"), format!("{k}{k}"), k.clone()] {
                        g.call("", &format!("{c}{q}"));
                    }
                }
            }
        }
        14 => {
            // long requests
            let n = size(&mut g, 70000);
            g.w.file("x.js", "");
            g.w.file("node_modules/p/index.js", "");
            g.w.file("node_modules/p/x.js", "");
            let u = long(&mut g, n, 70000);
            let n = n.min(1900);
            for c in [
                format!("./x?{u}"),
                format!("./x#{u}"),
                format!("./x?{u}#{u}"),
                format!("p?{u}"),
                format!("p/x#{u}?{u}"),
                format!("./{}x", "./".repeat(n)),
                format!("./{}x", "node_modules/../".repeat(n.min(200))),
                format!("p/{}x", "./".repeat(n)),
                format!("./{u}"),
                u.clone(),
                format!("p/{u}"),
                format!("@{u}/p"),
                format!("@s/{u}"),
                format!("#{u}"),
                format!("{}x", "../".repeat(n)),
            ] {
                g.call("", &c);
            }
        }
        15 => {
            // long names, up to what the file system takes
            let u = *g.r.pick(&["x", "é", "日", "😀"]);
            let full = u.repeat(251 / u.len());
            g.w.file(&format!("{full}.js"), "");
            g.w.file(&format!("node_modules/{full}/index.js"), "");
            g.w.file(&format!("node_modules/@{}/{full}/index.js", u.repeat(240 / u.len())), "");
            g.w.dir(&format!("a/{full}"));
            g.w.file(&format!("a/{full}/{full}/x.js"), "");
            g.o.extensions = g.subset(&[".js", ".json", ".toolong", ".zzzz"], 70);
            for c in [format!("./{full}"), format!("./{full}.js"), full.clone(), format!("@{}/{full}", u.repeat(240 / u.len())), format!("./{full}{full}"), format!("{full}{full}"), format!("./a/{full}/{full}/x"), format!("p/{full}{full}")] {
                g.call("", &format!("{c}{q}"));
            }
            g.call(&format!("a/{full}/{full}"), &full);
        }
        16 => {
            // modules inside modules inside modules
            let n = *g.r.pick(&[2usize, 5, 10, 30, 60]);
            let mut d = String::new();
            for i in 0..n {
                let name = ["p", "q", "@s/p"][i % 3];
                d = if d.is_empty() { format!("node_modules/{name}") } else { format!("{d}/node_modules/{name}") };
                if g.p(30) {
                    g.w.file(&format!("{d}/index.js"), "");
                }
                if g.p(10) {
                    g.w.json(&format!("{d}/package.json"), &json!({"name": name, "exports": {"./x": "./index.js"}}));
                }
            }
            g.w.file(&format!("{d}/z.js"), "");
            for c in ["p", "q", "@s/p", "p/x", "nope", "@s/nope", "p/nope"] {
                g.call(&d, &format!("{c}{q}"));
                g.call(&format!("{d}/node_modules"), c);
            }
        }
        20 => {
            // every redirection has two ways to go on, and in the end there is nothing
            let n = *g.r.pick(&[5usize, 10, 20, 28, 31]);
            let k = |i: usize| format!("k{}", (b'a' + i as u8 % 26) as char).repeat(1 + i / 26);
            let last = g.p(30);
            match g.r.below(4) {
                0 => {
                    for i in 0..n {
                        g.o.alias.push((k(i), Some(k(i + 1))));
                        g.o.alias.push((k(i), Some(format!("{}x", k(i + 1)))));
                    }
                    g.call("", &format!("{}{q}", k(0)));
                    g.call("", &k(n - 3));
                }
                1 => {
                    g.o.browser_field = true;
                    g.o.main_files = vec!["m1".into(), "m2".into()];
                    for i in 0..n {
                        g.w.json(&format!("node_modules/p{i}/package.json"), &json!({"browser": {"./m1.js": format!("p{}", i + 1), "./m2.js": format!("p{}", i + 1)}}));
                    }
                    g.call("", &format!("p0{q}"));
                    g.call("", &format!("p{}", n - 3));
                }
                2 => {
                    g.o.browser_field = true;
                    g.o.main_fields = vec!["main".into(), "module".into()];
                    for i in 0..n {
                        g.w.json(&format!("node_modules/p{i}/package.json"), &json!({"main": "./m1.js", "module": "m2.js", "browser": {"./m1.js": format!("p{}", i + 1), "./m2.js": format!("p{}", i + 1)}}));
                    }
                    g.call("", &format!("p0{q}"));
                    g.call("node_modules/p1", ".");
                }
                _ => {
                    // texts that are all different
                    for i in 0..n {
                        g.o.alias.push((k(i), Some(format!("{}0", k(i + 1)))));
                        g.o.alias.push((k(i), Some(format!("./{}1", k(i + 1)))));
                        g.o.alias.push((format!("./{}", k(i)), Some(k(i + 1))));
                        g.o.alias.push((format!("./{}", k(i)), Some(format!("{}2", k(i + 1)))));
                    }
                    g.o.prefer_relative = g.p(50);
                    g.call("", &format!("{}{q}", k(0)));
                }
            }
            if last {
                g.w.file(&format!("node_modules/p{n}/index.js"), "");
                g.w.file(&format!("node_modules/{}x/index.js", k(n)), "");
            }
        }
        17 => {
            // links that lead to links
            let n = *g.r.pick(&[3usize, 10, 20, 38, 39, 40, 41, 60]);
            g.w.file("real/x.js", "");
            g.w.json("real/package.json", &json!({"name": "p", "main": "./x"}));
            for i in 0..n {
                let t = if i + 1 == n { "real".to_string() } else { format!("l{}", i + 1) };
                g.w.link(&format!("l{i}"), &t);
            }
            g.w.link("node_modules/p", "../l0");
            // and one at the head of a long path
            let m = *g.r.pick(&[100usize, 500, 1000, 1300, 1700]);
            let tail = g.of(&["d/", "dir/", "é/"]).repeat(if g.p(50) { m } else { m / 3 });
            if tail.len() < 3500 {
                g.w.file(&format!("{tail}x.js"), "");
                let first = tail.split('/').next().unwrap().to_string();
                g.w.link("head", &first);
                g.call("", &format!("./head/{}x{q}", &tail[first.len() + 1..]));
                g.call(&format!("head/{}", &tail[first.len() + 1..tail.len() - 1]), "./x.js");
            }
            g.maybe_symlinks_off(30);
            for c in ["./l0/x".to_string(), "./l0".into(), format!("./l{}", n / 2), "p".into(), "p/x".into()] {
                g.call("", &format!("{c}{q}"));
            }
            g.call("l0", "./x");
        }
        18 => {
            // side effects
            let n = size(&mut g, 5000);
            let k = long(&mut g, n, 5000);
            let v = match g.r.below(3) {
                0 => json!((0..n).map(|i| format!("./k{i}.js")).collect::<Vec<_>>()),
                1 => json!([k]),
                _ => json!(k),
            };
            g.w.file("x.js", "");
            g.w.json("package.json", &Value::Object(obj(json!({"name": k, "sideEffects": v, "version": k}))));
            g.calls.push(crate::gen::Call { base: "".into(), req: String::new(), se: true });
            g.calls.push(crate::gen::Call { base: "x.js".into(), req: String::new(), se: true });
            g.call("", "./x");
            g.call("", &k.clone());
        }
        _ => {
            // a directory with many entries, a description file of some megabytes
            let n = size(&mut g, 2000);
            for i in 0..n.min(600) {
                g.w.file(&format!("a/k{i}.js"), "");
            }
            let pad: Map<String, Value> = (0..n).map(|i| (format!("zz{i}"), json!("zz ".repeat(300)))).collect();
            let mut m = pad;
            m.insert("main".into(), json!("./k0"));
            g.w.json("a/package.json", &Value::Object(m));
            for c in ["./a".to_string(), "./a/k1".into(), format!("./a/k{}", n.min(600) - 1), "./a/k999999".into()] {
                g.call("", &format!("{c}{q}"));
            }
        }
    }
    g.extra = json!({"big": family, "seed": g.r.next() >> 12});
    g.case(prop)
}
