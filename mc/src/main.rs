mod bfs;
mod elem;
mod ops;
mod oracle;
mod ord;
mod rangemap;
mod rbfs;
mod rope;
mod run;
mod scen;
mod slice;
mod snap;

use bfs::*;
use elem::*;
use scen::Unit;

pub const VARIANT: &str = if cfg!(vp_small) { "small" } else { "real" };

macro_rules! dispatch {
    ($pol:expr, $diff:expr, $f:ident, $($a:expr),*) => {
        match ($pol, $diff) {
            (NEVER, true) => $f::<NEVER, true>($($a),*),
            (NEVER, false) => $f::<NEVER, false>($($a),*),
            (CAPM, true) => $f::<CAPM, true>($($a),*),
            (CAPM, false) => $f::<CAPM, false>($($a),*),
            (SPAN, true) => $f::<SPAN, true>($($a),*),
            (SPAN, false) => $f::<SPAN, false>($($a),*),
            (WIDE, true) => $f::<WIDE, true>($($a),*),
            (WIDE, false) => $f::<WIDE, false>($($a),*),
            (_, true) => $f::<RLE, true>($($a),*),
            (_, false) => $f::<RLE, false>($($a),*),
        }
    };
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report_json(engine: &str, r: &Report) -> String {
    let kinds = if engine == "tree" {
        ops::KNAME
            .iter()
            .zip(r.by_kind)
            .filter(|x| x.1 > 0)
            .map(|(n, c)| format!("{}:{c}", json_str(n)))
            .collect::<Vec<_>>()
            .join(",")
    } else {
        r.by_kind.iter().enumerate().filter(|x| *x.1 > 0).map(|(k, c)| format!("\"{engine}-op{k}\":{c}")).collect::<Vec<_>>().join(",")
    };
    format!(
        "{{\"engine\":{},\"variant\":{},\"scenario\":{},\"states\":{},\"expanded\":{},\"transitions\":{},\"judged\":{},\"validated\":{},\"levels\":{},\"tree_levels\":{},\"max_leaves\":{},\"bound_hit\":{},\"sick\":{},\"skipped\":{},\"complete\":{},\"closure\":{},\"seconds\":{:.2},\"kinds\":{{{kinds}}},\"samples\":[{}]}}",
        json_str(engine),
        json_str(VARIANT),
        json_str(&r.name),
        r.states,
        r.expanded,
        r.transitions,
        r.judged,
        r.validated,
        r.levels,
        r.max_depth,
        r.max_leaves,
        r.bound_hit,
        r.suspicious,
        r.skipped_panics,
        r.complete,
        r.closure,
        r.secs,
        r.samples.iter().map(|s| json_str(&s.chars().take(700).collect::<String>())).collect::<Vec<_>>().join(",")
    )
}

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    if let Some(j) = opt("--journal") {
        run::set_journal(&j);
    }
    run::watchdog(25, opt("--mem").and_then(|x| x.parse().ok()).unwrap_or(12_000));
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = args[2].clone();
            let thorough = args.iter().any(|a| a == "--thorough");
            let cap = opt("--secs").and_then(|x| x.parse::<u64>().ok()).unwrap_or(u64::MAX);
            let t0 = std::time::Instant::now();
            for mut u in scen::plan(&prop, thorough) {
                if let Some(o) = opt("--only") {
                    if !u.name().contains(&o) {
                        continue;
                    }
                }
                let left = cap.saturating_sub(t0.elapsed().as_secs()).max(1);
                let lim = |s: &mut u64| *s = (*s).min(left);
                let (e, r) = match &mut u {
                    Unit::Tree(s) => {
                        lim(&mut s.secs);
                        ("tree", dispatch!(s.pol, s.gen.diff, explore, &prop, s))
                    }
                    Unit::Rope(s) => {
                        lim(&mut s.secs);
                        ("rope", rbfs::explore(&prop, s))
                    }
                    Unit::Ord(s) => {
                        lim(&mut s.secs);
                        ("ord", rbfs::explore(&prop, s))
                    }
                    Unit::Map(s) => {
                        lim(&mut s.secs);
                        ("rangemap", rbfs::explore(&prop, s))
                    }
                    Unit::Slice(s) => {
                        lim(&mut s.secs);
                        ("slice", rbfs::explore(&prop, s))
                    }
                    Unit::SliceOwn(s) => {
                        lim(&mut s.secs);
                        ("slice-own", rbfs::explore(&prop, s))
                    }
                };
                println!("SCEN {}", report_json(e, &r));
                if let Some(v) = &r.violation {
                    println!("FOUND {}", v.msg.replace('\n', " "));
                    println!("REPLAY-BEGIN\n{}message {}\nREPLAY-END", v.replay, v.msg.replace('\n', " "));
                    std::process::exit(1);
                }
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string())).unwrap_or_default();
            if get("variant ") != VARIANT {
                eprintln!("this replay needs the {} variant", get("variant "));
                std::process::exit(2);
            }
            let hist: Vec<ops::Op> = get("ops ").split(';').filter(|x| !x.is_empty()).map(|x| ops::Op::from_ints(x).expect("op")).collect();
            let (out, bad) = match get("engine ").as_str() {
                "rope" => rbfs::replay::<rope::RopeSys>(&hist),
                "ord" => rbfs::replay::<ord::OrdSys>(&hist),
                "rangemap" => rbfs::replay::<rangemap::MapSys>(&hist),
                "slice" => rbfs::replay::<slice::SliceSys<false>>(&hist),
                "slice-own" => rbfs::replay::<slice::SliceSys<true>>(&hist),
                _ => {
                    let alpha = alpha_parse(&get("alpha "));
                    let m = get("masks ");
                    let (tm, sm) = m.split_once(' ').unwrap();
                    dispatch!(get("policy ").parse::<u8>().unwrap(), get("diff ") == "1", replay, &hist, &alpha, tm.parse().unwrap(), sm.parse().unwrap())
                }
            };
            print!("{out}");
            std::process::exit(bad as i32);
        }
        _ => eprintln!("usage: mc run PROPERTY [--thorough] [--only NAME] [--secs N] [--journal DIR] | mc replay FILE"),
    }
}
