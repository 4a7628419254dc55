//! Small workloads for the Miri interpreter: it watches every memory access for
//! undefined behaviour and every pair of accesses for data races while they run.
//!   C04  threads predict at once and must get the answers one thread gets alone
//!   C08  hostile texts through every parser entry point
use chrono::prelude::*;
use satellite::ext::*;
use satellite::io::*;
use satellite::propogation::gstime::*;
use satellite::propogation::sgp4::*;
use satellite::propogation::*;
use satellite::transforms::*;
use satellite::*;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

const SETS: [(&str, &str); 6] = [
    ("1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995", "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461"),
    ("1 88888U          80275.98708465  .00073094  13844-3  66816-4 0    8", "2 88888  72.8435 115.9689 0086731  52.6988 110.5714 16.05824518  105"),
    ("1 11801U          80230.29629788  .01431103  00000-0  14311-1        ", "2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848      "),
    ("1 09880U 77021A   06176.56157475  .00000421  00000-0  10000-3 0  9814", "2 09880  64.5968 349.3786 7069051 270.0229  16.3320  2.00813614112380"),
    ("1 22674U 93035D   06176.55909107  .00002121  00000-0  29868-3 0  6569", "2 22674   3.5035 354.4452 7541712 253.3264  18.7754  1.00270000 93877"),
    ("1 28626U 05008A   06176.46683397 -.00000205  00000-0  10000-3 0  2190", "2 28626   0.0019 286.9433 0000335  13.7918  55.6504  1.00270176  4891"),
];

fn answer(k: usize, t: f64) -> Vec<u64> {
    let mut out = vec![];
    let mut push = |v: f64| out.push(v.to_bits());
    let (a, b) = SETS[k];
    if let Ok(mut r) = twoline2satrec(a, b) {
        push(r.jdsatepoch);
        push(r.gsto);
        match sgp4(&mut r, t) {
            Ok(s) => {
                for v in [s.position.x, s.position.y, s.position.z, s.velocity.x, s.velocity.y, s.velocity.z] {
                    push(v);
                }
                let g = gstime(r.jdsatepoch + t / 1440.0);
                push(g);
                let d = eci_to_geodedic(&s.position, g);
                push(d.latitude);
                push(d.height);
                let o = Geodedic { longitude: 0.1 * k as f64, latitude: 0.7, height: 0.1 };
                let l = ecf_to_look_angles(&o, &eci_to_ecf(&s.position, g));
                push(l.azimuth);
                push(l.range);
                push(doppler_factor::doppler_factor(geodedic_to_ecf(&o), s.position, s.velocity));
            }
            Err(e) => push(e.code() as f64),
        }
    } else {
        push(f64::NAN);
    }
    out
}

fn when(k: usize) -> DateTime<Utc> {
    Utc.with_ymd_and_hms(2006, 6, 20 + k as u32, 3 * k as u32, 7, 9).unwrap()
}

fn dated(rec: &Satrec, k: usize) -> Vec<u64> {
    let t = when(k);
    let mut out = vec![jday_datetime(t).to_bits(), gstime_datetime(t).to_bits()];
    if let Ok(s) = propogate_datetime(rec, t) {
        out.push(s.position.x.to_bits());
        out.push(s.velocity.z.to_bits());
    }
    out
}

fn threads(seed: u64) {
    let mut r = Rng(seed);
    let shift = r.below(6) as usize;
    let times = [0.0, 50.0 + r.below(600) as f64, -(1500.0 + r.below(600) as f64)];
    // each thread: its element sets at its times, and dates against one shared record
    let shared = twoline2satrec(SETS[shift].0, SETS[shift].1).expect("element set");
    let jobs: Vec<Vec<(usize, f64)>> = (0..3).map(|n| (0..3).map(|i| ((n + i + shift) % 6, times[(n + i) % 3])).collect()).collect();
    let work = |n: usize, shared: &Satrec| -> Vec<Vec<u64>> {
        let mut out = vec![];
        for (i, (k, t)) in jobs[n].iter().enumerate() {
            out.push(dated(shared, n + i));
            out.push(answer(*k, *t));
        }
        out
    };
    let together: Vec<Vec<Vec<u64>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..3).map(|n| { let (w, sh) = (&work, &shared); s.spawn(move || w(n, sh)) }).collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let alone: Vec<Vec<Vec<u64>>> = (0..3).map(|n| work(n, &shared)).collect();
    let mut compared = 0;
    for n in 0..3 {
        for i in 0..alone[n].len() {
            compared += 1;
            if alone[n][i] != together[n][i] {
                println!("MON-VIOLATION thread {n} step {i}: alone {:x?} together {:x?}", alone[n][i], together[n][i]);
                std::process::exit(9);
            }
        }
    }
    println!("MON-OK {compared}");
}

fn hostile(seed: u64) {
    let mut r = Rng(seed ^ 0x5a17);
    let mut n = 0;
    let mut feed = |text: &str, l1: &str, l2: &str| {
        let res = std::panic::catch_unwind(|| {
            let _ = parse(text);
            let _ = parse_multiple(text);
            let _ = parse_satrec(l1, l2);
            let _ = twoline2satrec(l1, l2);
        });
        if res.is_err() {
            println!("MON-VIOLATION panic on {text:?}");
            std::process::exit(9);
        }
        n += 1;
    };
    for i in 0..28 {
        let (a, b) = SETS[r.below(6) as usize];
        let mut l = [a.to_string(), b.to_string()];
        let k = r.below(2) as usize;
        match i % 7 {
            0 => {
                let cut = r.below(l[k].len() as u64) as usize;
                l[k].truncate(cut);
            }
            1 => {
                // a character wider than one byte somewhere
                let at = r.below(l[k].len() as u64) as usize;
                let c = ["\u{e9}", "\u{661f}", "\u{1f6f0}"][r.below(3) as usize];
                l[k].replace_range(at..at + 1, c);
            }
            2 => {
                let at = r.below(l[k].len() as u64) as usize;
                l[k].replace_range(at..at + 1, ["x", "-", "+", "9", " ", ".", "\0", "\t"][r.below(8) as usize]);
            }
            3 => {
                let at = 18 + r.below(40) as usize;
                let to = (at + 1 + r.below(12) as usize).min(l[k].len());
                let fill = ["9", " ", "-", "0"][r.below(4) as usize].repeat(to - at);
                l[k].replace_range(at..to, &fill);
            }
            4 => l[k].clear(),
            5 => l.swap(0, 1),
            _ => {}
        }
        let head = ["", "0 NAME\n", "NAME\r\n", "\n\n", "1", "\u{661f}\n", "0 \n"][r.below(7) as usize];
        let sep = ["\n", "\r\n", "\n\n", ""][r.below(4) as usize];
        let text = format!("{head}{}{sep}{}{}", l[0], l[1], ["", "\n", "\nX", "\n1", "\n2 "][r.below(5) as usize]);
        feed(&text, &l[0], &l[1]);
    }
    println!("MON-OK {n}");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    match a.get(1).map(|s| s.as_str()) {
        Some("C04") => threads(seed),
        Some("C08") => hostile(seed),
        _ => println!("usage: satmiri C04|C08 SEED"),
    }
}
