mod acc;
mod builder;
mod drive;
mod fd;
mod json;
mod linalg;
mod many;
mod prob;
mod rng;
mod run;
mod scen;
mod script;

use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::radau::Radau5;
use json::J;
use rng::Rng;
use scen::{AlgK, Cb, Scen, Via};
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Exit code after a scenario that had to be abandoned; the caller starts the
/// harness again behind it.
const HANG: i32 = 77;

struct Out {
    file: std::fs::File,
    /// Start of the running scenario, its number and its identification.
    cur: Option<(Instant, usize, String)>,
}

fn args() -> std::collections::HashMap<String, String> {
    std::env::args()
        .skip(1)
        .filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string())))
        .collect()
}

fn one(s: &Scen, x: Option<&std::cell::RefCell<script::Script>>) -> String {
    let mut j = J::new();
    match s.alg {
        AlgK::Dp5 => run::trace::<DormandPrince5>(s, x, &mut j),
        AlgK::Radau => run::trace::<Radau5>(s, x, &mut j),
    }
    j.0
}

fn alg(name: &str) -> AlgK {
    if name == "dp5" {
        AlgK::Dp5
    } else {
        AlgK::Radau
    }
}

fn main() {
    let a = args();
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or_else(|| d.to_string());
    let seed: u64 = get("seed", "1").parse().unwrap();
    let count: usize = get("count", "100").parse().unwrap();
    let from: usize = get("from", "0").parse().unwrap();
    let limit: u64 = get("limit", "20").parse().unwrap();
    let total: u64 = get("total", "90").parse().unwrap();
    let begun = Instant::now();
    let group = get("group", "dp5");
    let profile = get("profile", "base");
    let via = get("via", "any");
    let path = get("out", "/dev/stdout");
    std::panic::set_hook(Box::new(|_| {}));

    let file = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&path)
        .expect("output file");
    let out = Arc::new(Mutex::new(Out { file, cur: None }));
    {
        // A scenario that does not come back is recorded as such.
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let mut o = out.lock().unwrap();
            if let Some((t, i, head)) = o.cur.clone() {
                if t.elapsed() > Duration::from_secs(limit) {
                    let line = format!("{{{},\"end\":\"hang\",\"phase\":\"{}\",\"msg\":\"no answer\"}}\n",
                        head,
                        *drive::PHASE.lock().unwrap()
                    );
                    o.file.write_all(line.as_bytes()).unwrap();
                    println!("hang {}", i);
                    std::process::exit(HANG);
                }
            }
        });
    }
    let begin = |i: usize, head: String| out.lock().unwrap().cur = Some((Instant::now(), i, head));
    let finish = |line: String| {
        let mut o = out.lock().unwrap();
        o.cur = None;
        o.file.write_all(line.as_bytes()).unwrap();
        o.file.write_all(b"\n").unwrap();
    };
    let ops: Vec<String> = match a.get("ops") {
        Some(p) => std::fs::read_to_string(p).expect("ops").lines().map(|l| l.to_string()).collect(),
        None => vec![],
    };
    for i in from..count {
        // Only code gone astray takes this long; what is recorded will do.
        if begun.elapsed() > Duration::from_secs(total) {
            break;
        }
        let mut r = Rng::new(seed, &format!("{}-{}-{}", group, profile, i));
        let id = format!("{}-{}-{}-{}", group, profile, seed, i);
        let head = |what: &str| format!("\"id\":\"{}\",\"kind\":\"{}\",\"what\":\"{}\"", id, profile, what);
        match group.as_str() {
            "dp5" | "radau" => {
                let mut s = scen::profile(&mut r, id, alg(&group), &profile);
                s.via = match i % 5 {
                    _ if via == "next" => [Via::Next, Via::Borrow][i % 2],
                    3 => [Via::Next, Via::Borrow][i / 5 % 2],
                    4 if s.cb != Cb::None => Via::Integrate,
                    _ => Via::Step,
                };
                let mut h = J::new();
                run::head_json(&mut h, &s, "");
                begin(i, h.0);
                finish(one(&s, None));
            }
            "script-dp5" | "script-radau" => {
                let (s, mut x) = scen::scripted(&mut r, id, alg(&group[7..]), &ops[i]);
                let d = s.f("dtstart").unwrap();
                x.begin(s.t0, &s.u0, if s.tf > s.t0 { d } else { -d }, s.tf);
                let mut h = J::new();
                run::head_json(&mut h, &s, &x.text);
                begin(i, h.0);
                finish(one(&s, Some(&std::cell::RefCell::new(x))));
            }
            "drive" => {
                begin(i, head(&ops[i]));
                let mut j = J::new();
                drive::drive(&mut r, id, &ops[i], &mut j);
                finish(j.0);
            }
            "builder" => {
                begin(i, head(&ops[i]));
                let mut j = J::new();
                builder::build(&mut r, id, &ops[i], &mut j);
                finish(j.0);
            }
            "lu" | "luf" | "hess" | "fd" | "many" => {
                begin(i, head(&group));
                let mut j = J::new();
                match group.as_str() {
                    "lu" => linalg::ints(&mut r, id, &profile, i, &mut j),
                    "fd" => fd::cases(&mut r, id, &mut j),
                    "many" => many::cases(&mut r, id, &mut j),
                    "luf" => linalg::floats(&mut r, id, &profile, &mut j),
                    _ => linalg::hess(&mut r, id, &mut j),
                }
                finish(j.0);
            }
            "acc-dp5" | "acc-radau" => {
                begin(i, head("accuracy"));
                let mut j = J::new();
                if profile == "stiff" {
                    acc::stiff(&mut r, id, &mut j);
                } else {
                    acc::smooth(&mut r, id, alg(&group[4..]), &mut j);
                }
                finish(j.0);
            }
            "pair-dp5" | "pair-radau" => {
                begin(i, head("pair"));
                let mut j = J::new();
                drive::pair(&mut r, id, alg(&group[5..]), &profile, &mut j);
                finish(j.0);
            }
            g => panic!("unknown group {}", g),
        }
    }
}
