mod fw;
mod gen;
mod geo;
mod menu;
mod miri;
mod sanit;
mod oracle;
mod prop;
mod profile;
mod pure;
mod refmodel;
mod rng;
mod selftest;
mod stage;
mod text;
mod time;
mod watch;

use fw::*;

static CHECKS: &[Check] = &[prop::C01, prop::C02, prop::C03, prop::C04, time::C05, text::C06, text::C07, text::C08, text::C09, text::C10, text::C11, time::C12, time::C13, geo::C14, geo::C15, geo::C16, geo::C17, geo::C18, prop::C19, prop::C20, time::C21, stage::C22, stage::C23, stage::C24, stage::C25, pure::C26, pure::C27, profile::C28, pure::C29];

#[global_allocator]
static ALLOCATOR: watch::Counter = watch::Counter;

fn find(id: &str) -> &'static Check {
    CHECKS.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(EXIT_INCONCLUSIVE)
    })
}

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let env_tier = tier(&std::env::var("VERIF_TIER").unwrap_or_default());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("selftest") => match selftest::run() {
            Ok(m) => {
                println!("{m}");
                EXIT_OK
            }
            Err(m) => {
                println!("selftest failed: {m}");
                EXIT_INCONCLUSIVE
            }
        },
        Some("list") => {
            for c in CHECKS {
                println!("{}", c.id);
            }
            EXIT_OK
        }
        Some("check") if a.len() >= 3 => {
            if let Err(m) = selftest::run() {
                println!("inconclusive: oracle self-test failed: {m}");
                std::process::exit(EXIT_INCONCLUSIVE);
            }
            let t = a.get(3).map(|s| tier(s)).unwrap_or(env_tier);
            let c = find(&a[2]);
            match supervise(c, env_seed, t) {
                EXIT_OK => {
                    let rc = if miri::wanted(c.id) { miri::stage(c.id, env_seed, t) } else { EXIT_OK };
                    if rc == EXIT_OK { sanit::stage(c.id, env_seed, t) } else { rc }
                }
                rc => rc,
            }
        }
        Some("child") if a.len() >= 6 => run(find(&a[2]), a[3].parse().unwrap(), tier(&a[4]), Some(&a[5])),
        Some("case") if a.len() >= 6 => replay(find(&a[2]), a[3].parse().unwrap(), tier(&a[4]), a[5].parse().unwrap()),
        Some("replay") if a.len() >= 3 => {
            let txt = std::fs::read_to_string(&a[2]).unwrap_or_default();
            let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k).map(|s| s.to_string())).unwrap_or_default();
            let (id, seed, case, t) = (get("property="), get("seed="), get("case="), get("tier="));
            if get("stage=") == "miri" {
                std::process::exit(miri::stage(find(&id).id, seed.parse().unwrap_or(1), tier(&t)));
            }
            if ["asan", "tsan"].contains(&get("stage=").as_str()) {
                std::process::exit(sanit::stage(find(&id).id, seed.parse().unwrap_or(1), tier(&t)));
            }
            match (seed.parse(), case.parse()) {
                (Ok(s), Ok(c)) => replay(find(&id), s, tier(&t), c),
                _ => {
                    eprintln!("not a replay file: {}", a[2]);
                    EXIT_INCONCLUSIVE
                }
            }
        }
        _ => {
            eprintln!("usage: satmon selftest | list | check ID [quick|thorough] | replay FILE");
            EXIT_INCONCLUSIVE
        }
    };
    std::process::exit(code);
}
