//! Executable form of the contracts: searches for a concrete failing call
//! sequence on the real crate, and replays one.
//!
//! `search run --prop ID --seed N --secs S --threads N --out FILE --dir DIR`
//!    exit 0: nothing found, 1: found and written to FILE, 3: hang
//! `search case MACHINE FLAGS SEED --prop ID --out FILE`
//! `search replay FILE`     exit 1 if the failure shows again

mod arena;
mod big;
mod chain;
mod galloc;
mod kit;
mod ord;
mod ptr;
#[cfg_attr(not(feature = "serde"), path = "noser.rs")]
mod ser;
mod surject;
mod types;
mod vec;

use std::{
    collections::{HashMap, HashSet},
    fmt::Write as _,
    fs,
    io::{Seek, Write as _},
    path::{Path, PathBuf},
    process::exit,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Mutex,
    },
    time::{Duration, Instant},
};

use kit::*;
use types::*;

#[global_allocator]
static GALLOC: galloc::Galloc = galloc::Galloc;

type CG<P> = triple_arena::ChainArena<P, Tok>;
type CN<P> = triple_arena::utils::ChainNoGenArena<P, Tok>;

const MACHINES: &[(&str, &str, RunFn)] = &[
    ("arena-default", "arena", run_ops::<arena::ArenaM<PDef>>),
    ("arena-u8-u8", "arena", run_ops::<arena::ArenaM<P88>>),
    ("arena-nogen", "arena", run_ops::<arena::ArenaM<PNo>>),
    ("arena-u8-nogen", "arena", run_ops::<arena::ArenaM<P8No>>),
    ("arena-u16-u16", "arena", run_ops::<arena::ArenaM<P1616>>),
    ("arena-usize-u8", "arena", run_ops::<arena::ArenaM<PG8>>),
    ("arena-u128-u128", "arena", run_ops::<arena::ArenaM<PWide>>),
    ("chain-default", "chain", run_ops::<chain::ChainM<PDef, CG<PDef>>>),
    ("chain-u8-u8", "chain", run_ops::<chain::ChainM<P88, CG<P88>>>),
    ("chain-nogen", "chain", run_ops::<chain::ChainM<PNo, CG<PNo>>>),
    ("chain-u16-u16", "chain", run_ops::<chain::ChainM<P1616, CG<P1616>>>),
    ("chainng-default", "chain", run_ops::<chain::ChainM<PDef, CN<PDef>>>),
    ("chainng-u8-u8", "chain", run_ops::<chain::ChainM<P88, CN<P88>>>),
    ("chainng-nogen", "chain", run_ops::<chain::ChainM<PNo, CN<PNo>>>),
    ("surject-default", "surject", run_ops::<surject::SurjectM<PDef>>),
    ("surject-u8-u8", "surject", run_ops::<surject::SurjectM<P88>>),
    ("surject-nogen", "surject", run_ops::<surject::SurjectM<PNo>>),
    ("surject-u16-u16", "surject", run_ops::<surject::SurjectM<P1616>>),
    ("ord-default", "ord", run_ops::<ord::OrdM<PDef>>),
    ("ord-u8-u8", "ord", run_ops::<ord::OrdM<P88>>),
    ("ord-nogen", "ord", run_ops::<ord::OrdM<PNo>>),
    ("ord-u16-u16", "ord", run_ops::<ord::OrdM<P1616>>),
    #[cfg(feature = "serde")]
    ("ser-default", "ser", run_ops::<ser::SerM<PDef>>),
    #[cfg(feature = "serde")]
    ("ser-u8-u8", "ser", run_ops::<ser::SerM<P88>>),
    #[cfg(feature = "serde")]
    ("ser-u16-u16", "ser", run_ops::<ser::SerM<P1616>>),
    #[cfg(feature = "serde")]
    ("ser-nogen", "ser", run_ops::<ser::SerM<PNo>>),
    ("vec-tok", "vec", run_ops::<vec::VecM<Tok>>),
    ("vec-u8", "vec", run_ops::<vec::VecM<u8>>),
    ("vec-u8x3", "vec", run_ops::<vec::VecM<[u8; 3]>>),
    ("vec-box", "vec", run_ops::<vec::VecM<Box<u64>>>),
    ("vec-align64", "vec", run_ops::<vec::VecM<vec::Aligned>>),
    ("vec-big", "vec", run_ops::<vec::VecM<vec::Big>>),
    ("big-arena", "barena", run_ops::<big::BigM<PDef, 0>>),
    ("big-arena-u16", "barena", run_ops::<big::BigM<P1616, 0>>),
    ("big-arena-nogen", "barena", run_ops::<big::BigM<PNo, 0>>),
    ("big-arena-u8", "barena", run_ops::<big::BigM<P88, 0>>),
    ("big-chain", "bchain", run_ops::<big::BigM<PDef, 1>>),
    ("big-chain-u16", "bchain", run_ops::<big::BigM<P1616, 1>>),
    ("big-chainng", "bchain", run_ops::<big::BigM<PDef, 2>>),
    ("big-chainng-nogen", "bchain", run_ops::<big::BigM<PNo, 2>>),
    ("big-surject", "bsurject", run_ops::<big::BigM<PDef, 3>>),
    ("big-surject-u16", "bsurject", run_ops::<big::BigM<P1616, 3>>),
    ("big-ord", "bord", run_ops::<big::BigM<PDef, 4>>),
    ("big-ord-u16", "bord", run_ops::<big::BigM<P1616, 4>>),
    ("surject-eq", "surject", run_ops::<big::BigM<PDef, 5>>),
    ("ord-cmp", "ord", run_ops::<big::BigM<PDef, 6>>),
    ("ptr", "ptr", run_ops::<ptr::PtrM>),
];

/// relative weight of the machine kinds for a property
fn weights(prop: &str) -> &'static [(&'static str, u64)] {
    match prop {
        "A03" => &[("arena", 60), ("chain", 8), ("surject", 8), ("ord", 8), ("barena", 3)],
        "A04" => &[("arena", 60), ("chain", 20), ("surject", 20), ("ord", 20), ("ptr", 10), ("bchain", 2)],
        "A07" => &[("arena", 20), ("ord", 1), ("barena", 1)],
        "A01" | "A02" | "A05" | "A06" | "A08" => {
            &[("arena", 60), ("chain", 8), ("surject", 8), ("ord", 8), ("barena", 2), ("bsurject", 1)]
        }
        "V01" => &[("vec", 60), ("arena", 20), ("chain", 8), ("surject", 8), ("ord", 8), ("barena", 1)],
        "P01" => &[("ptr", 1)],
        "C01" | "C02" | "C03" => &[("chain", 40), ("bchain", 1)],
        "C04" => &[("chain", 40), ("ord", 2), ("bchain", 1)],
        "S01" | "S02" | "S03" => &[("surject", 40), ("bsurject", 1)],
        "O01" | "O02" | "O04" | "O05" => &[("ord", 40), ("bord", 1)],
        "O03" => &[("ord", 20), ("bord", 1)],
        "E01" => &[
            ("arena", 10), ("chain", 20), ("surject", 20), ("ord", 20), ("ser", 20),
            ("barena", 1), ("bchain", 1), ("bsurject", 1), ("bord", 1),
        ],
        "E02" => &[("ser", 1)],
        _ => &[
            ("arena", 4),
            ("chain", 4),
            ("surject", 4),
            ("ord", 4),
            ("ser", 2),
            ("vec", 2),
            ("ptr", 1),
        ],
    }
}

fn choose(rng: &mut Rng, prop: &str) -> usize {
    let w: Vec<(&str, u64)> =
        weights(prop).iter().copied().filter(|w| MACHINES.iter().any(|m| m.1 == w.0)).collect();
    assert!(!w.is_empty(), "nothing to run in this build");
    let mut r = rng.below(w.iter().map(|x| x.1).sum());
    let mut kind = w[0].0;
    for (k, n) in &w {
        if r < *n {
            kind = k;
            break
        }
        r -= n;
    }
    let of: Vec<usize> = (0..MACHINES.len()).filter(|i| MACHINES[*i].1 == kind).collect();
    of[rng.below(of.len() as u64) as usize]
}

fn case_ops(seed: u64) -> (u32, Vec<Op>) {
    let mut rng = Rng(seed);
    let flags = rng.next() as u32;
    (flags, gen_ops(&mut rng))
}

fn write_replay(file: &Path, prop: &str, machine: usize, flags: u32, ops: &[Op], o: Option<&Outcome>) {
    let mut s = String::new();
    writeln!(s, "# failing call sequence for property {prop}; `search replay <this file>` runs it").unwrap();
    writeln!(s, "prop {prop}").unwrap();
    writeln!(s, "machine {}", MACHINES[machine].0).unwrap();
    writeln!(s, "flags {flags}").unwrap();
    for op in ops {
        writeln!(s, "op {} {} {} {}", op.code, op.a, op.b, op.c).unwrap();
    }
    if let Some(o) = o {
        writeln!(s, "# failures").unwrap();
        for f in &o.fails {
            writeln!(s, "#   [{}] {}", f.labels, f.msg.replace('\n', " ")).unwrap();
        }
        writeln!(s, "# trace").unwrap();
        for t in &o.trace {
            writeln!(s, "#   {}", t.replace('\n', " ")).unwrap();
        }
    }
    fs::write(file, s).unwrap();
}

struct Shared {
    stop: AtomicBool,
    cases: AtomicU64,
    checks: AtomicU64,
    found: Mutex<Option<(usize, u64)>>,
    /// cases that made at least 50 comparisons with the model
    nontrivial: Mutex<HashSet<(usize, u64)>>,
    /// per thread (case number << 1 | running) and start of the case in ms
    beat: Vec<AtomicU64>,
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        galloc::pause();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut pos = vec![];
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") {
            opt.insert(k.to_owned(), it.next().cloned().unwrap_or_default());
        } else {
            pos.push(a.clone());
        }
    }
    let get = |k: &str, d: &str| opt.get(k).cloned().unwrap_or(d.to_owned());
    match pos.first().map(|s| s.as_str()) {
        Some("run") => {
            let prop = get("prop", "*");
            let seed: u64 = get("seed", "1").parse().unwrap();
            let secs: f64 = get("secs", "5").parse().unwrap();
            let threads: usize = get("threads", "4").parse().unwrap();
            let out = PathBuf::from(get("out", "replay.txt"));
            let dir = PathBuf::from(get("dir", "."));
            exit(run(&prop, seed, secs, threads, &out, &dir))
        }
        Some("case") => {
            let m = MACHINES.iter().position(|m| m.0 == pos[1]).unwrap();
            let (flags, ops) = case_ops(pos[2].parse().unwrap());
            let prop = get("prop", "*");
            let out = PathBuf::from(get("out", "replay.txt"));
            write_replay(&out, &prop, m, flags, &ops, None);
            exit(confirm(&prop, m, flags, ops, &out))
        }
        Some("replay") => {
            let t = fs::read_to_string(&pos[1]).unwrap();
            let (mut prop, mut m, mut flags, mut ops) = ("*".to_owned(), None, 0, vec![]);
            for l in t.lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                match w.first().copied() {
                    Some("prop") => prop = w[1].to_owned(),
                    Some("machine") => m = MACHINES.iter().position(|m| m.0 == w[1]),
                    Some("flags") => flags = w[1].parse().unwrap(),
                    Some("op") => {
                        let v: Vec<u32> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
                        ops.push(Op {
                            code: v[0],
                            a: v[1],
                            b: v[2],
                            c: v[3],
                        });
                    }
                    _ => {}
                }
            }
            let o = (MACHINES[m.expect("no machine in the replay file")].2)(flags, &ops, true);
            for l in &o.trace {
                println!("{l}");
            }
            let hit = o.fails.iter().any(|f| has_label(f, &prop));
            println!("{}", if hit { "FAILS" } else { "no failure" });
            exit(hit as i32)
        }
        _ => {
            eprintln!("usage: search run|case|replay");
            exit(2)
        }
    }
}

/// shrinks and writes a failing case; 1 if it fails for the property
fn confirm(prop: &str, m: usize, flags: u32, ops: Vec<Op>, out: &Path) -> i32 {
    let run = MACHINES[m].2;
    let o = run(flags, &ops, false);
    if !o.fails.iter().any(|f| has_label(f, prop)) {
        return 0
    }
    let ops = shrink(run, flags, &ops, prop);
    let o = run(flags, &ops, true);
    write_replay(out, prop, m, flags, &ops, Some(&o));
    1
}

fn run(prop: &str, seed: u64, secs: f64, threads: usize, out: &Path, dir: &Path) -> i32 {
    let start = Instant::now();
    let sh = Shared {
        stop: AtomicBool::new(false),
        cases: AtomicU64::new(0),
        checks: AtomicU64::new(0),
        found: Mutex::new(None),
        nontrivial: Mutex::new(HashSet::new()),
        beat: (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect(),
    };
    let sh = &sh;
    let ms = move || start.elapsed().as_millis() as u64;
    std::thread::scope(|s| {
        for t in 0..threads {
            let file = dir.join(format!("progress-{t}"));
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut f = fs::File::create(&file).unwrap();
                    let mut n = 0u64;
                    while !sh.stop.load(SeqCst) && start.elapsed().as_secs_f64() < secs {
                        let mut r = Rng(seed
                            .wrapping_mul(0x9E37_79B9_7F4A_7C15)
                            .wrapping_add((t as u64) << 40)
                            .wrapping_add(n));
                        n += 1;
                        let m = choose(&mut r, prop);
                        let cs = r.next();
                        let (flags, ops) = case_ops(cs);
                        f.seek(std::io::SeekFrom::Start(0)).unwrap();
                        f.write_all(format!("{:40}\n", format!("{} {cs}", MACHINES[m].0)).as_bytes())
                            .unwrap();
                        sh.beat[t].store(ms(), SeqCst);
                        let o = (MACHINES[m].2)(flags, &ops, false);
                        sh.beat[t].store(u64::MAX, SeqCst);
                        sh.cases.fetch_add(1, SeqCst);
                        sh.checks.fetch_add(o.checks, SeqCst);
                        if o.checks >= 50 {
                            sh.nontrivial.lock().unwrap().insert((m, cs));
                        }
                        if o.fails.iter().any(|f| has_label(f, prop)) {
                            let mut g = sh.found.lock().unwrap();
                            if g.is_none() {
                                *g = Some((m, cs));
                            }
                            sh.stop.store(true, SeqCst);
                        }
                    }
                })
                .unwrap();
        }
        // watchdog
        s.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(20));
            let done = sh.stop.load(SeqCst) || start.elapsed().as_secs_f64() >= secs;
            let now = ms();
            let mut busy = false;
            for t in 0..threads {
                let b = sh.beat[t].load(SeqCst);
                if b != u64::MAX {
                    busy = true;
                    if now > b + 20_000 {
                        println!("hang {t}");
                        exit(3)
                    }
                }
            }
            if done && !busy {
                break
            }
        });
    });
    println!("cases {}", sh.cases.load(SeqCst));
    println!("checks {}", sh.checks.load(SeqCst));
    {
        let g = sh.nontrivial.lock().unwrap();
        println!("nontrivial {}", g.len());
        for (m, cs) in g.iter().take(2) {
            println!("sample {} {cs}", MACHINES[*m].0);
        }
    }
    let found = *sh.found.lock().unwrap();
    if let Some((m, cs)) = found {
        let (flags, ops) = case_ops(cs);
        println!("found {} {cs}", MACHINES[m].0);
        let r = confirm(prop, m, flags, ops, out);
        if r == 0 {
            println!("not reproduced");
        }
        return r
    }
    0
}
