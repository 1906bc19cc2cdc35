//! Observation of single public calls: a panic is data ("PANIC"), every value becomes a string.
use crate::idents::Ident;
use seshat::unicode::{CodePoint, Ucd};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

fn b(v: bool) -> String { if v { "T" } else { "F" }.to_string() }
fn i<T: Ident>(v: T) -> String { v.ident().to_string() }
pub fn hexs(s: &str) -> String {
    s.chars().map(|c| format!("{:X}", c as u32)).collect::<Vec<_>>().join(" ")
}

pub type Col<U> = (&'static str, fn(&U) -> String);

macro_rules! cols {
    ($( $n:ident : $k:ident ),* $(,)?) => {
        pub const ALL: &[&str] = &[$(stringify!($n)),*];
        pub fn col<U: Ucd>(name: &str) -> Col<U> {
            match name {
                $( stringify!($n) => (stringify!($n), |u: &U| { let v = u.$n(); cols!(@$k v) }), )*
                _ => panic!("unknown column {}", name),
            }
        }
    };
    (@e $v:ident) => { i($v) };
    (@b $v:ident) => { b($v) };
    (@c $v:ident) => { { let c = $v; format!("{}", c as u8) } };
    (@s $v:ident) => { $v };
    (@h $v:ident) => { hexs(&$v) };
}

cols! {
    gc: e, bc: e, ccc: c, gcb: e, wb: e, hst: e, insc: e, incb: e, blk: e, sc: e, age: e, dt: e, dm: h, na: s,
    wspace: b, bidi_c: b, join_c: b, dash: b, hyphen: b, qmark: b, term: b, omath: b, hex: b, ahex: b, oalpha: b,
    ideo: b, dia: b, ext: b, olower: b, oupper: b, nchar: b, ogr_ext: b, idsb: b, idst: b, radical: b, uideo: b,
    odi: b, dep: b, sd: b, loe: b, oids: b, oidc: b, sterm: b, vs: b, pat_ws: b, pat_syn: b, pcm: b, ri: b,
    ce: b, ci: b, comp_ex: b, math: b, alpha: b, lower: b, upper: b, cased: b, di: b, gr_ext: b,
    ids: b, idc: b, xids: b, xidc: b, emoji: b, epres: b, emod: b, ebase: b, ecomp: b, ext_pict: b,
}

pub fn call<U>(f: fn(&U) -> String, u: &U) -> String {
    guard(|| f(u)).unwrap_or_else(|_| "PANIC".to_string())
}

pub fn cp(c: u32) -> Result<CodePoint, String> {
    match guard(|| CodePoint::new(c)) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(_)) => Err("REJECTED".into()),
        Err(_) => Err("PANIC".into()),
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut buf = [0u16; 2];
                for u in c.encode_utf16(&mut buf) { o.push_str(&format!("\\u{:04x}", u)); }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
