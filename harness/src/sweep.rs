//! Sweep of property queries over all code points through both receivers (CodePoint and char),
//! written as a run-length trace: lo[i] is the first code point of run i, vi[i] the index of its
//! vector of observed values.
use crate::obs::*;
use std::collections::HashMap;
use std::fmt::Write;

pub fn par<T: Send>(n: u32, f: impl Fn(u32) -> T + Sync) -> Vec<T> {
    let next = std::sync::atomic::AtomicU32::new(0);
    let mut out: Vec<(u32, T)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
                let mut v = vec![];
                loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if k >= n { return v; }
                    v.push((k, f(k)));
                }
            }).unwrap()
        }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    out.sort_by_key(|x| x.0);
    out.into_iter().map(|x| x.1).collect()
}

/// Observations that are not single queries: is the name / mapping empty, does NFD / NFKD change it.
fn pseudo(n: &str, c: u32) -> Option<[String; 2]> {
    use seshat::unicode::{Normalization, Ucd};
    let t = |r: Result<bool, ()>| match r { Ok(true) => "T".to_string(), Ok(false) => "F".into(), Err(_) => "PANIC".into() };
    let ch = char::from_u32(c);
    let p = match cp(c) { Ok(p) => p, Err(_) => return None };
    let none = || "-".to_string();
    Some(match n {
        "na_empty" => [t(guard(|| p.na().is_empty())), ch.map_or_else(none, |x| t(guard(|| x.na().is_empty())))],
        "dm_empty" => [t(guard(|| p.dm().is_empty())), ch.map_or_else(none, |x| t(guard(|| x.dm().is_empty())))],
        "nfd_same" | "nfkd_same" | "nfc_same" | "nfkc_same" => {
            let v = ch.map_or_else(none, |x| { let s = x.to_string(); t(guard(|| match n { "nfd_same" => s.to_nfd() == s, "nfkd_same" => s.to_nfkd() == s, "nfc_same" => s.to_nfc() == s, _ => s.to_nfkc() == s })) });
            [v.clone(), v]
        }
        _ => return None,
    })
}

pub fn row(names: &[&str], c: u32) -> Vec<String> {
    let mut v = Vec::with_capacity(names.len() * 2);
    match cp(c) {
        Ok(p) => for n in names { v.push(pseudo(n, c).map_or_else(|| call(col(n).1, &p), |x| x[0].clone())); },
        Err(e) => for _ in names { v.push(e.clone()); },
    }
    match char::from_u32(c) {
        Some(ch) => for n in names { v.push(pseudo(n, c).map_or_else(|| call(col(n).1, &ch), |x| x[1].clone())); },
        None => for _ in names { v.push("-".into()); },
    }
    v
}

pub fn sweep(names: &[&str]) -> String {
    let chunks = par(0x1100, |k| {
        let mut runs: Vec<(u32, Vec<String>)> = vec![];
        for c in k * 256..(k + 1) * 256 {
            let r = row(names, c);
            if runs.last().map_or(true, |l| l.1 != r) { runs.push((c, r)); }
        }
        runs
    });
    let mut ids: HashMap<Vec<String>, usize> = HashMap::new();
    let (mut lo, mut vi, mut vecs) = (vec![], vec![], vec![]);
    let mut last = 0;
    for (c, r) in chunks.into_iter().flatten() {
        let n = ids.len() + 1;
        let k = *ids.entry(r.clone()).or_insert_with(|| { vecs.push(r); n });
        if k != last { lo.push(c); vi.push(k); last = k; }
    }
    let mut o = String::from("{\"cols\":[");
    o.push_str(&names.iter().map(|n| esc(n)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "],\"lo\":{:?},\"vi\":{:?},\"vecs\":[", lo, vi);
    for (j, v) in vecs.iter().enumerate() {
        if j > 0 { o.push(',') }
        o.push('[');
        o.push_str(&v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        o.push(']');
    }
    o.push_str("]}\n");
    o
}
