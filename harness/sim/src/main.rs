mod cluster;
mod episodes;
mod proto;
mod driver;
mod logsub;
mod mon;
mod net;
mod profiles;
mod props;
mod rt;
mod store;
mod types;

/// std and rand draw hash seeds from here: runs are a function of their seed only.
/// # Safety
/// `buf` points to `len` writable bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as isize
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    let num = |k: &str, d: u64| get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let code = driver::run(driver::Opts {
                prop: get("--prop").unwrap_or_default(),
                profiles: get("--profiles").map(|s| s.split(',').map(|x| x.to_string()).collect()),
                seed: num("--seed", 1),
                secs: num("--secs", 30),
                jobs: num("--jobs", 8) as usize,
                max_runs: num("--max-runs", 1_000_000_000),
                out: get("--out").unwrap_or("/tmp/sim-out.json".into()),
                dir: get("--dir").unwrap_or("/tmp/sim-runs".into()),
                known: get("--known"),
                any: args.iter().any(|a| a == "--any"),
                build: get("--build").unwrap_or("adv".into()),
            });
            std::process::exit(code);
        }
        Some("replay") => {
            let seed = num("--seed", 1);
            let profile = get("--profile").unwrap_or("mix".into());
            logsub::install();
            driver::replay(&profile, seed, get("--trace"));
        }
        _ => {
            eprintln!("usage: sim run|replay");
            std::process::exit(2);
        }
    }
}
