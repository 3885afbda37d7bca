mod pool;
mod rt;
mod world;
use rt::*;
use serde_json::{json, Map, Value};
use std::io::Write;
use world::*;

fn setup() -> (Box<Rt>, World) {
    let mut rt = Rt::new();
    let dir = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    let mut ids = vec![];
    for p in ["asset", "bridge", "proxy"] {
        ids.push(rt.load(dir.join(format!("libvp_prog_{p}.so")).to_str().unwrap()));
    }
    rt.mocks.insert(
        solana_program::pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s").to_bytes(),
        token_metadata,
    );
    let mut w = World::new(ids[0], ids[1], ids[2]);
    w.probe(&mut rt);
    (rt, w)
}

/// Executes one instruction; reports success, changed slots and balance deltas.
pub fn observe(rt: &mut Rt, w: &World, ix: &Ix, pre: &Value, skip: bool) -> (bool, Value, Value) {
    let users = World::users();
    let before: Vec<u64> = users.iter().map(|u| rt.get(&w.key(u)).lam).collect();
    let ok = if skip { false } else { w.run(rt, ix) };
    let mut ch = Map::new();
    for (s, v) in pre.as_object().unwrap() {
        if !ix.acc.iter().any(|a| a == s) {
            continue;
        }
        let now = w.slot(rt, s, v);
        if &now != v {
            ch.insert(s.clone(), now);
        }
    }
    let mut dl = Map::new();
    for (u, b) in users.iter().zip(before) {
        dl.insert(u.to_string(), json!(rt.get(&w.key(u)).lam as i64 - b as i64));
    }
    (ok, Value::Object(ch), Value::Object(dl))
}

fn zero() -> Value {
    Value::Object(World::users().iter().map(|u| (u.to_string(), json!(0))).collect())
}

/// A program's return value: its own codes as they are, the n-th builtin one as -n;
/// -1000 if it aborted.
fn code(rc: u64) -> i64 {
    match rc >> 32 {
        0xffff_ffff => -1000,
        0 => (rc as i64).min(1 << 30),
        1 => 0,
        n => -(n as i64),
    }
}

/// Replays every transition (and every refusal) enumerated by TLC.
fn replay(input: &str, out: &str, workers: usize) {
    let (rt, w) = setup();
    // also records the error code of every rejection
    let errors = std::env::var("VP_ERRORS").is_ok();
    let mut instrs: Vec<Value> = vec![];
    let mut states: Vec<String> = vec![];
    for line in std::fs::read_to_string(input).unwrap().lines() {
        if !line.starts_with("\"{") {
            continue;
        }
        let s: String = serde_json::from_str(line).unwrap();
        if s.starts_with("{\"instrs\"") {
            let v: Value = serde_json::from_str(&s).unwrap();
            instrs = v["instrs"].as_array().unwrap().clone();
        } else {
            states.push(s);
        }
    }
    assert!(!instrs.is_empty() && !states.is_empty(), "no transitions in {input}");
    let ixs: Vec<Ix> = instrs.iter().map(|i| w.compile(i)).collect();
    let z = zero();
    let cell = std::cell::RefCell::new(rt);
    let (outs, crashes) = pool::run(states.len(), workers, |ctx, item, o| {
        let mut rt = cell.borrow_mut();
        let v: Value = serde_json::from_str(&states[item]).unwrap();
        let pre = &v["s"];
        w.base(&mut rt);
        w.load_state(&mut rt, pre);
        assert_eq!(&w.state(&rt, pre), pre, "encoding is not faithful");
        let saved = rt.bank.clone();
        let mut exp: std::collections::BTreeMap<usize, &Value> = Default::default();
        for e in v["ok"].as_array().unwrap() {
            exp.insert(e["i"].as_u64().unwrap() as usize - 1, e);
        }
        let none = json!({});
        let (mut n, mut div) = (0, 0);
        let mut errs: Vec<(usize, i64)> = vec![];
        let mut ops: std::collections::BTreeMap<&str, (u64, u64)> = Default::default();
        for (j, ix) in ixs.iter().enumerate() {
            let skip = !ctx.enter(item, j);
            let (ok, ch, dl) = observe(&mut rt, &w, ix, pre, skip);
            if errors && !ok && !skip && rt.last_rc != 0 {
                errs.push((j + 1, code(rt.last_rc)));
            }
            let e = exp.get(&j);
            let (eok, ech, edl) = match e {
                Some(e) => (true, if e["c"].is_array() { &none } else { &e["c"] }, &e["dl"]),
                None => (false, &none, &z),
            };
            n += 1;
            let c = ops.entry(instrs[j]["op"].as_str().unwrap()).or_default();
            if eok { c.0 += 1 } else { c.1 += 1 }
            if ok != eok || &ch != ech || &dl != edl {
                div += 1;
                if div <= 200 {
                    let mut post = pre.clone();
                    for (s, x) in ch.as_object().unwrap() {
                        post[s] = x.clone();
                    }
                    writeln!(o, "{}", json!({"d":{"pre":pre,"i":instrs[j],"ok":ok,"post":post,"dl":dl,"eok":eok,
                        "ec":ech,"edl":edl}})).unwrap();
                    o.flush().unwrap();
                }
            }
            if ok {
                for m in &ix.metas {
                    match saved.get(&m.key) {
                        Some(a) => {
                            rt.bank.insert(m.key, a.clone());
                        }
                        None => {
                            rt.bank.remove(&m.key);
                        }
                    }
                }
            }
        }
        if errors {
            writeln!(o, "{}", json!({"e":{"s":pre,"e":errs}})).unwrap();
        }
        writeln!(o, "{}", json!({"n":n,"k":exp.len(),"div":div,"ops":ops})).unwrap();
    });
    let mut f = std::fs::File::create(out).unwrap();
    let dir = std::path::Path::new(out).parent().unwrap();
    let mut ef = errors.then(|| std::io::BufWriter::new(std::fs::File::create(dir.join("errs.ndjson")).unwrap()));
    if errors {
        std::fs::write(dir.join("instrs.json"), Value::Array(instrs.clone()).to_string()).unwrap();
    }
    let mut named = 0;
    let (mut n, mut k, mut div) = (0, 0, 0);
    let mut ops: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
    for part in outs {
        for l in part.lines() {
            let v: Value = match serde_json::from_str(l) {
                Ok(v) => v,
                Err(_) => continue,
            };
            if v.get("n").is_some() {
                n += v["n"].as_u64().unwrap();
                k += v["k"].as_u64().unwrap();
                div += v["div"].as_u64().unwrap();
                for (op, c) in v["ops"].as_object().unwrap() {
                    let e = ops.entry(op.clone()).or_default();
                    e.0 += c[0].as_u64().unwrap();
                    e.1 += c[1].as_u64().unwrap();
                }
            } else if v.get("e").is_some() {
                named += v["e"]["e"].as_array().unwrap().len();
                writeln!(ef.as_mut().unwrap(), "{}", v["e"]).unwrap();
            } else {
                writeln!(f, "{}", v["d"]).unwrap();
            }
        }
    }
    println!("{}", json!({"states":states.len(),"instructions":ixs.len(),"executed":n,"succeeding":k,
        "divergences":div,"crashes":crashes,"accepted_refused":ops,"codes":named}));
}

/// Re-executes recorded transitions ({pre, i} per line).
fn exec(input: &str) {
    let (mut rt, w) = setup();
    for line in std::fs::read_to_string(input).unwrap().lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        w.base(&mut rt);
        w.load_state(&mut rt, &v["pre"]);
        let ix = w.compile(&v["i"]);
        let (ok, ch, dl) = observe(&mut rt, &w, &ix, &v["pre"], false);
        let dl: Map<String, Value> =
            dl.as_object().unwrap().iter().filter(|x| x.1 != 0).map(|(a, b)| (a.clone(), b.clone())).collect();
        println!("{}", json!({"i":v["i"],"ok":ok,"rc":rt.last_rc,"changed":ch,"dl":dl}));
    }
}

/// Runs a history from one state and compares it with what is written down:
/// {init, steps: [{i, ok}], final: {slot: {field: value}}, balance: {user: delta}}.
fn script(input: &str) -> bool {
    let (mut rt, w) = setup();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(input).unwrap()).unwrap();
    w.base(&mut rt);
    w.load_state(&mut rt, &v["init"]);
    let mut good = true;
    for (n, s) in v["steps"].as_array().unwrap().iter().enumerate() {
        let ok = w.run(&mut rt, &w.compile(&s["i"]));
        if ok != s["ok"].as_bool().unwrap() {
            println!("step {n} ({}) {}", s["i"]["op"], if ok { "was accepted" } else { "was refused" });
            good = false;
        }
        // the codes that would be right
        if let (false, Some(c)) = (ok, s["codes"].as_array()) {
            if !c.contains(&json!(code(rt.last_rc))) {
                println!("step {n} ({}) was refused with error {}", s["i"]["op"], code(rt.last_rc));
                good = false;
            }
        }
    }
    let now = w.state(&rt, &v["init"]);
    if let Some(f) = v["final"].as_object() {
        for (s, want) in f {
            for (k, x) in want.as_object().unwrap() {
                if &now[s][k] != x {
                    println!("{s}.{k} is {} instead of {x}", now[s][k]);
                    good = false;
                }
            }
        }
    }
    if let Some(b) = v["balance"].as_object() {
        for (u, x) in b {
            let d = rt.get(&w.key(u)).lam as i64 - BIG as i64;
            if d != x.as_i64().unwrap() {
                println!("{u} gained {d} instead of {x}");
                good = false;
            }
        }
    }
    good
}

/// Executes the instruction lists of dir/obs.ndjson one after the other on a
/// fresh bank, and replaces them by what happened.
fn rawseq(dir: &str) {
    let (mut rt, w) = setup();
    let file = std::path::Path::new(dir).join("obs.ndjson");
    let mut lines = vec![];
    for line in std::fs::read_to_string(&file).unwrap().lines() {
        let mut o: Value = serde_json::from_str(line).unwrap();
        for out in o["outs"].as_array_mut().unwrap() {
            rt.bank.clear();
            w.base(&mut rt);
            let steps = out["steps"].take();
            let steps = steps.as_array().unwrap();
            let mut done = true;
            // made without payer or system program: only looked at
            let bare = ["baresigned", "nopayer", "nosystem"].contains(&out["way"].as_str().unwrap());
            for s in if bare { &[] } else { &steps[..] } {
                let key = |n: &Value| w.key(n.as_str().unwrap());
                let metas: Vec<Meta> = s["metas"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|m| Meta { key: key(&m["k"]), signer: m["s"] == true, writable: m["w"] == true })
                    .collect();
                let data: Vec<u8> = s["data"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                if !rt.transact(key(&s["prog"]), &metas, &data, 1) {
                    done = false;
                    break;
                }
            }
            *out = json!({
                "way": out["way"], "ok": out["ok"], "done": done, "end": w.project(&rt.get(&w.key("A"))), "txs": out["txs"].as_array().cloned().unwrap_or_default(),
                "b": w.project(&rt.get(&w.key("B"))), "z": w.project(&rt.get(&w.key("Z"))), "g": w.project(&rt.get(&w.key("G"))),
                "metas": steps.iter().map(|s| s["metas"].clone()).collect::<Vec<_>>(),
                "infos": steps.iter().map(|s| s["infos"].clone()).collect::<Vec<_>>(),
                "seeds": steps.iter().map(|s| s["seeds"].clone()).collect::<Vec<_>>(),
                "datas": if bare { steps.iter().map(|s| s["data"].clone()).collect::<Vec<_>>() } else { vec![] },
                "sizes": steps.iter().map(|s| s["data"].as_array().unwrap().len()).collect::<Vec<_>>(),
            });
        }
        lines.push(o.to_string());
    }
    std::fs::write(&file, lines.join("\n") + "\n").unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let workers = std::env::var("VP_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    match a[1].as_str() {
        "genkeys" => {
            let (_, w) = setup();
            print!("{}", w.keys_tla());
        }
        "replay" => replay(&a[2], &a[3], workers),
        "exec" => exec(&a[2]),
        "script" => std::process::exit(if script(&a[2]) { 0 } else { 1 }),
        "rawseq" => rawseq(&a[2]),
        c => panic!("unknown command {c}"),
    }
}
