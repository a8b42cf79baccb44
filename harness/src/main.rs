mod attack;
mod cert;
mod codec;
mod cost;
mod e2e;
mod fresh;
mod gen;
mod indep;
mod io;
mod mem;
mod noise;
mod own;
mod refnx;
mod same;
mod sink;
mod subjects;
mod table;
mod val;

use std::env;

#[global_allocator]
static ALLOC: mem::Track = mem::Track;

/// sv2drive PROP TABLES OUTDIR: explores the real code for one property and writes
/// OUTDIR/trace*.ndjson and OUTDIR/stats.json.
fn real_main() {
    let a: Vec<String> = env::args().collect();
    if a[1] == "--gen" {
        return fresh::child(&a[2]);
    }
    if a[1] == "--alone" {
        return indep::child(&a[2], &a[3]);
    }
    let (prop, tables, out) = (a[1].as_str(), a[2].as_str(), a[3].as_str());
    let seed: u64 = env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let num = |k: &str, d: usize| env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let scale = num("SV2_SCALE", 1);
    let per_class = num("SV2_PER_CLASS", 6);
    let shards = num("SV2_SHARDS", 4);
    let tab = table::Tab::load(tables);
    let mut sink = sink::Sink::new(out, shards, per_class);
    {
        let mut cx = codec::Cx { tab: &tab, subs: subjects::subjects(), sink: &mut sink, rng: val::Rng::new(seed ^ val::hash64(prop.as_bytes())), scale };
        match prop {
            "C01" => codec::c01(&mut cx),
            "C02" => codec::c02(&mut cx),
            "C03" => codec::c03(&mut cx),
            "C04" => codec::c04(&mut cx),
            "C05" => codec::c05(&mut cx),
            "C06" => codec::c06(&mut cx),
            "C07" => codec::c07(&mut cx),
            "C08" => codec::c08(&mut cx),
            "C09" => io::c09(&mut cx),
            "C10" => io::c10(&mut cx),
            "C11" => noise::c11(&mut cx),
            "C12" => noise::c12(&mut cx),
            "C13" => noise::c13(&mut cx),
            "C14" => noise::c14(&mut cx),
            "C15" => noise::c15(&mut cx),
            "C16" => noise::c16(&mut cx),
            "C17" => noise::c17(&mut cx),
            "C21" => noise::c21(&mut cx),
            "C18" => cert::c18(&mut cx),
            "C19" => cert::c19(&mut cx),
            "C22" => e2e::c22(&mut cx),
            "C20" => io::c20(&mut cx),
            "C26" => fresh::c26(&mut cx),
            "C25" => noise::c25(&mut cx),
            "C23" => codec::c23(&mut cx),
            "C27" => same::c27(&mut cx),
            "C28" => indep::c28(&mut cx, tables),
            "C29" => cost::c29(&mut cx),
            "C24" => codec::c24(&mut cx),
            _ => panic!("unknown property {}", prop),
        }
    }
    sink.finish(&format!("{}/stats.json", out));
}

fn main() {
    // panics of the code under test are outcomes, not noise; harness panics still show
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if loc.contains("harness") || loc.starts_with("src/") || env::var("SV2_VERBOSE").is_ok() {
            eprintln!("panic at {}: {}", loc, i);
        }
    }));
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(real_main).unwrap();
    if t.join().is_err() {
        eprintln!("harness failed");
        std::process::exit(3);
    }
}
