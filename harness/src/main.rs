mod idents;
mod iter;
mod machine;
mod misc;
mod norm;
mod obs;
mod scout;
mod seg;
mod session;
mod sweep;
mod util;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    util::start_watchdog(40);
    let a: Vec<String> = std::env::args().collect();
    let out = &a[2];
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    match a[1].as_str() {
        // sweep OUT col,col,...
        "sweep" => {
            let names: Vec<&str> = if a[3].starts_with("ALL") {
                obs::ALL.iter().filter(|n| **n != "na" && **n != "dm").cloned().chain(a[3].split(',').skip(1)).collect()
            } else { a[3].split(',').collect() };
            std::fs::write(out, sweep::sweep(&names)).unwrap();
        }
        // boundaries OUT MACHINE
        "boundaries" => seg::boundaries(out, &a[3], seed, thorough),
        // nctx OUT FORM TEMPLATES
        "nctx" => norm::contexts(out, &a[3], &a[4]),
        // nstr OUT ALPHABET FORMS FAMILIES
        "nstr" => norm::strings(out, &a[3], &a[4], &a[5], seed),
        "nlaws" => norm::laws(out, &a[3], &a[4], &a[5], seed),
        "npairs" => norm::pairs(out, &a[3]),
        "nconcat" => norm::concat(out, &a[3], &a[4], a[5].parse().unwrap(), seed),
        "closure" => norm::closure(out, &a[3], a[4].parse().unwrap(), seed),
        "ntexts" => norm::texts(out, &a[3], &a[4], seed),
        "names" => misc::names(out),
        "mappings" => misc::mappings(out),
        "agree" => misc::agree(out),
        "aliases" => misc::aliases(out),
        "codepoints" => misc::codepoints(out),
        "versions" => misc::versions(out, seed, thorough),
        "tables" => misc::tables(out, seed, thorough),
        // protocol / locality OUT MACHINE
        "protocol" => iter::protocol(out, &a[3], seed, thorough),
        "locality" => iter::locality(out, &a[3], seed, thorough),
        // session OUT ALPHABET SESSIONS LENGTH; one - CALL
        "session" => session::session(out, &a[3], seed, a[4].parse().unwrap(), a[5].parse().unwrap(), thorough),
        "one" => session::one(&a[3]),
        _ => panic!("unknown command"),
    }
}
