mod api;
mod cabi;
mod checks;
mod engine;
mod first;
mod gas;
mod step;
mod track;
mod workload;
use engine::*;

#[global_allocator]
static ALLOC: track::Track = track::Track;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn opts(tier: Tier) -> Opts {
    let env = |k: &str| std::env::var(k).ok();
    let secs = |k: &str, d: u64| Duration::from_secs(env(k).and_then(|v| v.parse().ok()).unwrap_or(d));
    Opts {
        tier,
        seed: env("VERIF_SEED").and_then(|v| v.parse().ok()).unwrap_or(1),
        dir: env("MC_DIR").unwrap_or_else(|| "/verif".into()),
        cap: secs("MC_CAP_S", tier.pick(300, 5 * 3600)),
        hang: secs("MC_HANG_S", tier.pick(100, 400)),
        threads: env("MC_THREADS").and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, SLOTS),
    }
}
fn tier_of(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => panic!("tier?"),
    }
}
fn find(id: &str) -> Check {
    checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown check {id}");
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match s.get(1).copied() {
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        Some("run") => supervise(s[2], tier_of(s[3])),
        Some("worker") => {
            install_panic_hook();
            worker(&find(s[2]), &opts(tier_of(s[3])), Journal::open(s[4]))
        }
        Some("case") => {
            install_panic_hook();
            single(&find(s[2]), tier_of(s[3]), s[4].parse().unwrap(), s[5].parse().unwrap())
        }
        Some("replay") => replay(s[2]),
        Some("aux") => checks::aux(&s[2..]),
        _ => {
            eprintln!("usage: mc run ID quick|thorough | replay FILE | case ID TIER SPACE INDEX | list");
            2
        }
    };
    std::process::exit(code);
}

fn field(txt: &str, k: &str) -> String {
    let p = txt.find(&format!("\"{k}\":")).expect("field") + k.len() + 3;
    let r = txt[p..].trim_start();
    if let Some(r) = r.strip_prefix('"') {
        r[..r.find('"').unwrap()].to_string()
    } else {
        r[..r.find([',', '\n', '}']).unwrap()].trim().to_string()
    }
}
fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let id = field(&t, "property");
    let (c, out) = isolated(&id, &field(&t, "tier"), field(&t, "space").parse().unwrap(), field(&t, "index").parse().unwrap(), Duration::from_secs(300));
    print!("{out}");
    match c {
        Verdict::Exit(1) | Verdict::Died(_) | Verdict::Hang => {
            if !matches!(c, Verdict::Exit(1)) {
                println!("the case ended with {c:?}");
            }
            println!("VIOLATION property={id} replay={path}");
            1
        }
        Verdict::Exit(0) => 0,
        _ => 2,
    }
}

#[derive(Debug, PartialEq)]
enum Verdict {
    Exit(i32),
    Died(String),
    Hang,
}
/// run one case in a process of its own
fn isolated(id: &str, tier: &str, sp: usize, idx: u64, limit: Duration) -> (Verdict, String) {
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe).args(["case", id, tier, &sp.to_string(), &idx.to_string()]).stdout(Stdio::piped()).spawn().expect("spawn case");
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            use std::io::Read;
            use std::os::unix::process::ExitStatusExt;
            let mut out = String::new();
            let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
            return match st.code() {
                Some(c) => (Verdict::Exit(c), out),
                None => (Verdict::Died(format!("signal {}", st.signal().unwrap_or(0))), out),
            };
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return (Verdict::Hang, String::new());
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn supervise(id: &str, tier: Tier) -> i32 {
    let o = opts(tier);
    let ck = find(id);
    let t0 = Instant::now();
    let _ = std::fs::remove_file(format!("{}/evidence/{id}.json", o.dir));
    let jp = format!("{}/mc-journal-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    let j = Journal::open(&jp);
    j.clear();
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(exe).args(["worker", id, tier.name(), &jp]).status().expect("spawn worker");
    let running = j.running();
    let _ = std::fs::remove_file(&jp);
    match st.code() {
        Some(c @ (0..=2)) => return c,
        Some(77) | None => {}
        Some(c) => {
            eprintln!("ERROR of the check: worker exited with {c}");
            return 2;
        }
    }
    eprintln!("worker ended abnormally ({st}); re-running the {} cases that were in progress, one process each", running.len());
    let mut running = running;
    running.sort_by_key(|r| (r.2, r.0, r.1)); // oldest first
    for (sp, idx, t) in running {
        if t == PATIENT {
            if st.code() == Some(77) {
                continue; // not watched
            }
        }
        let (v, out) = isolated(id, tier.name(), sp, idx, if t == PATIENT { Duration::from_secs(3600) } else { o.hang + Duration::from_secs(30) });
        let what = match &v {
            Verdict::Exit(0) => continue,
            Verdict::Hang if t == PATIENT => continue,
            Verdict::Exit(1) => out,
            Verdict::Exit(c) => {
                eprintln!("ERROR of the check: case process exited with {c}");
                return 2;
            }
            Verdict::Died(s) => format!("the code under test killed the process ({s})"),
            Verdict::Hang => format!("the code under test did not come back within {} s", o.hang.as_secs() + 30),
        };
        let path = write_replay(&o, id, "", sp, idx, &what);
        let cov = format!("{{\"states\": 1, \"transitions\": 1, \"traces_validated_against_impl\": 1, \"exhaustive\": false, \"samples\": [\"space {sp} case {idx}: {}\"]}}", esc(&what));
        write_evidence(&o, id, &cov, ck.assumptions, t0.elapsed().as_secs_f64(), 1);
        println!("{id}: space {sp} case {idx}: {what}");
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    eprintln!("ERROR of the check: worker ended abnormally ({st}) and no single case reproduces it");
    2
}
