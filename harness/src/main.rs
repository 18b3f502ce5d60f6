use fm_harness::engine::*;
use fm_harness::props;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::time::Duration;

fn options(args: &[String]) -> (Vec<String>, HashMap<String, String>) {
    let (mut pos, mut opt) = (Vec::new(), HashMap::new());
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.strip_prefix("--") {
            Some(k) => {
                opt.insert(k.to_string(), it.next().cloned().unwrap_or_default());
            }
            None => pos.push(a.clone()),
        }
    }
    (pos, opt)
}

fn run(id: &str, opt: &HashMap<String, String>) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let get = |k: &str, d: &str| opt.get(k).cloned().unwrap_or_else(|| d.to_string());
    let config = get("config", "local");
    let cfg = RunCfg {
        thorough: get("tier", "quick") == "thorough",
        seed: get("seed", "1").parse().expect("seed"),
        config: &config,
        share: get("share", "1").parse().expect("share"),
        enum_share: get("enum-share", "1").parse().expect("enum-share"),
        threads: get("threads", "8").parse().expect("threads"),
    };
    let only = opt.get("only");
    if let Some(dir) = opt.get("watch") {
        let limit = Duration::from_secs(get("limit", "100").parse().expect("limit"));
        watch(id.to_string(), limit, dir.clone());
    }
    if let Some(dir) = opt.get("trace") {
        trace_to(dir);
    }
    let mut subs = Vec::new();
    let mut failure = Value::Null;
    for s in &p.subs {
        if only.is_some_and(|o| o != s.name) {
            continue;
        }
        let r = run_sub(p.id, s, &cfg);
        if opt.contains_key("verbose") {
            let mut v = r.value.clone();
            v["samples"] = Value::Null;
            v["rule"] = Value::Null;
            println!("{v}");
        }
        subs.push(r.value);
        if let Some(f) = r.failure {
            failure = json!({
                "property": p.id, "check": s.name, "config": config, "message": f.message,
                "case": f.case, "shrinks": f.shrinks, "seed": cfg.seed, "number": f.from,
            });
            break;
        }
    }
    let out = json!({"property": p.id, "config": config, "checks": subs, "failure": failure});
    match opt.get("out") {
        Some(f) => std::fs::write(f, serde_json::to_string_pretty(&out).unwrap()).expect("write"),
        None => {
            if !failure.is_null() {
                println!("{}", serde_json::to_string_pretty(&failure).unwrap());
            }
        }
    }
    i32::from(!failure.is_null())
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read")).expect("json");
    let id = v["property"].as_str().unwrap_or_default();
    let check = v["check"].as_str().unwrap_or_default();
    let Some(p) = props::find(id) else {
        println!("{file}: this build has no property {id}");
        return 0;
    };
    let Some(s) = p.subs.iter().find(|s| s.name == check) else {
        eprintln!("no check {check} in {id}");
        return 2;
    };
    match s.body.replay(&v["case"]) {
        Ok(Ok(())) => {
            println!("{file}: holds");
            0
        }
        Ok(Err(m)) => {
            println!("{file}: FAILS: {m}");
            1
        }
        Err(e) => {
            eprintln!("{file}: cannot read the case: {e}");
            2
        }
    }
}

/// Prints the case that a fuzzer's input stands for.
fn decode(id: &str, check: &str, file: &str) -> i32 {
    let p = props::find(id).expect("property");
    let s = p.subs.iter().find(|s| s.name == check).expect("check");
    match s.body.decode(&std::fs::read(file).expect("read")) {
        Some(case) => {
            println!("{}", json!({"property": id, "check": check, "case": case, "message": ""}));
            0
        }
        None => 2,
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (pos, opt) = options(&args);
    let code = match pos.first().map(|s| s.as_str()) {
        Some("run") => run(&pos[1], &opt),
        Some("replay") => pos[1..].iter().map(|f| replay(f)).max().unwrap_or(0),
        #[cfg(feature = "fuzz")]
        Some("fuzz") => {
            if let Some(dir) = opt.get("watch") {
                let limit = opt.get("limit").and_then(|l| l.parse().ok()).unwrap_or(100);
                watch(pos[1].clone(), Duration::from_secs(limit), dir.clone());
            }
            fm_harness::fuzz::run(&pos[1], &pos[2], &pos[3], &pos[4..])
        }
        Some("decode") => decode(&pos[1], &pos[2], &pos[3]),
        Some("transcript") => {
            props::xconf::serve();
            0
        }
        Some("list") => {
            for p in props::all() {
                for s in &p.subs {
                    println!("{} {} {} {} {}", p.id, s.name, s.quick, s.thorough, if s.body.enumerated() { "enumerated" } else { "generated" });
                }
            }
            0
        }
        Some("generate") => {
            let p = props::find(&pos[1]).expect("property");
            let s = p.subs.iter().find(|s| s.name == pos[2]).expect("check");
            let n = pos.get(3).and_then(|n| n.parse().ok()).unwrap_or(3);
            for c in s.body.generate(derive_seed(&[&pos[2]]), n) {
                println!("{c}");
            }
            0
        }
        _ => {
            eprintln!("usage: fm-harness run ID | replay FILE.. | list | generate ID CHECK N");
            2
        }
    };
    std::process::exit(code);
}
