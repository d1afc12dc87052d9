//! C23: base 16, base 64 and compression.
use crate::util::*;
use flate2::Compression;
use serde_json::{json, Value};
use starry::utils::cryptos::base64::{Base64, Base64Decoder, Base64Encoder};
use starry::utils::cryptos::hex::{Hex, HexDecoder, HexEncoder};
use starry::utils::Compress;
use std::panic::{catch_unwind, AssertUnwindSafe};

const FMTS: [&str; 3] = ["deflate", "zlib", "gzip"];
fn guard(what: &str, f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"e": "panic", "what": what}))
}
fn shrink(fmt: &str, d: &[u8], level: u32) -> Option<Vec<u8>> {
    let c = Compression::new(level);
    match fmt { "deflate" => Compress::deflate(d, c), "zlib" => Compress::zlib(d, c), _ => Compress::gzip(d, c) }.ok()
}
fn grow(fmt: &str, d: &[u8]) -> Option<Vec<u8>> {
    match fmt { "deflate" => Compress::un_deflate(d), "zlib" => Compress::un_zlib(d), _ => Compress::un_gzip(d) }.ok()
}
fn res(r: Option<Vec<u8>>) -> Value {
    json!({"ok": r.is_some(), "out": bytes(&r.unwrap_or_default())})
}
fn inflate(fmt: &str, d: &[u8]) -> Value {
    guard("inflate", || { let r = grow(fmt, d); json!({"e": "inflate", "fmt": fmt, "data": bytes(d), "ok": r.is_some(), "out": bytes(&r.unwrap_or_default())}) })
}
fn squeeze(fmt: &str, d: &[u8], level: u32) -> Value {
    guard("squeeze", || {
        let x = shrink(fmt, d, level);
        let back = x.as_ref().and_then(|x| grow(fmt, x)).map(|y| y == d).unwrap_or(false);
        json!({"e": "squeeze", "fmt": fmt, "level": level, "src": bytes(d), "ok": x.is_some(), "out": bytes(&x.unwrap_or_default()), "back": back})
    })
}
fn hexdec(d: &[u8]) -> Option<Value> {
    let s = std::str::from_utf8(d).ok()?.to_string();
    Some(guard("hexdec", || json!({"e": "hexdec", "src": bytes(d), "res": [res(Hex::decode(s.as_str()).ok()), res(Hex::decode(s.clone()).ok())]})))
}
fn b64dec(d: &[u8]) -> Option<Value> {
    let s = std::str::from_utf8(d).ok()?.to_string();
    Some(guard("b64dec", || json!({"e": "b64dec", "src": bytes(d), "res": [res(Base64::decode(s.as_str()).ok()), res(Base64::decode(s.clone()).ok())]})))
}
fn encode(d: &[u8], out: &mut Vec<Value>) {
    out.push(guard("hexenc", || {
        let mut o = vec![sbytes(&Hex::encode(d)), sbytes(&Hex::encode(d.to_vec()))];
        if let Ok(s) = std::str::from_utf8(d) { o.push(sbytes(&Hex::encode(s))) }
        json!({"e": "hexenc", "src": bytes(d), "outs": o})
    }));
    out.push(guard("b64enc", || json!({"e": "b64enc", "src": bytes(d), "outs": [sbytes(&Base64::encode(d)), sbytes(&Base64::encode(d.to_vec()))]})));
}
fn vec_of(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default()
}

fn case(items: &[Value], r: &mut Rng) -> Vec<Value> {
    let mut out = vec![json!({"e": "case", "p": "C23"})];
    for o in items {
        let d = vec_of(&o["data"]);
        match o["op"].as_str().unwrap_or("") {
            "inflate" => out.push(inflate(o["fmt"].as_str().unwrap_or("zlib"), &d)),
            "hex" => { out.extend(hexdec(&d)); encode(&d, &mut out); }
            "b64" => { out.extend(b64dec(&d)); encode(&d, &mut out); }
            _ => { let f = *r.pick(&FMTS); out.push(squeeze(f, &d, r.below(10) as u32)) }
        }
    }
    out
}
/// Data of one kind: noise, few letters, runs, text, repetition over a distance
fn data(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) {
        0 => r.bytes(n),
        1 => (0..n).map(|_| b"ab\0\xff"[r.below(4)]).collect(),
        2 => { let mut v = vec![]; while v.len() < n { let b = r.next() as u8; let k = r.range(1, 40); v.extend(std::iter::repeat(b).take(k)) } v.truncate(n); v }
        3 => { let w = ["the ", "starry ", "http ", "server ", "\r\n", "Content-", "é", "0123456789"]; let mut v = vec![]; while v.len() < n { v.extend(r.pick(&w).bytes()) } v.truncate(n); v }
        _ => { let k = r.range(1, 30); let p = r.bytes(k); (0..n).map(|i| p[i % k]).collect() }
    }
}

pub fn run(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x23);
    let mut out = vec![];
    for b in cfg.behaviours() { out.extend(case(&b.as_array().cloned().unwrap_or_default(), &mut r)); }
    out.push(json!({"e": "case", "p": "C23"}));
    // each level and wrapper on small data, read symbol by symbol; the stream cut at every place
    for fmt in FMTS { for level in 0..10 { for _ in 0..cfg.scale(2, 12) {
        let n = *r.pick(&[0usize, 1, 2, 3, 20, 80, 150]);
        let d = data(&mut r, n);
        out.push(squeeze(fmt, &d, level));
    } } }
    for fmt in FMTS { for _ in 0..cfg.scale(1, 6) {
        let n = r.range(0, 60);
        let d = data(&mut r, n);
        let Some(x) = shrink(fmt, &d, r.below(10) as u32) else { continue };
        let step = cfg.scale(2, 1);
        for i in (0..x.len()).step_by(step) {
            out.push(inflate(fmt, &x[..i]));
            let mut y = x.clone();
            y[i] ^= 1 << r.below(8);
            out.push(inflate(fmt, &y));
        }
    } }
    // every byte and every text of up to two characters of interest
    for b in 0..=255u8 { encode(&[b], &mut out); out.extend(hexdec(&[b'0', b])); out.extend(b64dec(&[b'A', b'A', b'A', b])); }
    for _ in 0..cfg.scale(150, 1500) {
        let n = r.below(40);
        let d = data(&mut r, n);
        encode(&d, &mut out);
        let h: Vec<u8> = (0..r.below(9)).map(|_| *r.pick(b"0123456789abcdefABCDEFgG/:@`'+- \n")).collect();
        out.extend(hexdec(&h));
        let b: Vec<u8> = (0..r.below(13)).map(|_| *r.pick(b"ABCDwxyz0189+/+/AAAA====-_ \n.,")).collect();
        out.extend(b64dec(&b));
    }
    out.push(json!({"e": "case", "p": "C23"}));
    // more than any buffer holds
    let sizes = [4095usize, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 300_000, 1_000_000, 1_048_577, 2_500_000, 4_200_000];
    for i in 0..cfg.scale(48, 240) {
        let n = sizes[i % 16];
        let dull = r.chance(1, 2);
        let d = if dull { let p = data(&mut r, 50); (0..n).map(|i| p[i % 50]).collect() } else { data(&mut r, n) };
        let (fmt, level) = (FMTS[i / 16 % 3], r.below(10) as u32);
        out.push(guard("large", || {
            let x = shrink(fmt, &d, level).unwrap_or_default();
            let same = grow(fmt, &x).map(|y| y == d).unwrap_or(false);
            let cut = grow(fmt, &x[..r.below(x.len().max(1))]).is_some();
            let hurt = if fmt == "deflate" { false } else { let mut y = x.clone(); let k = y.len().saturating_sub(r.range(1, 4)); if let Some(b) = y.get_mut(k) { *b ^= 0x11 } grow(fmt, &y).is_some() };
            json!({"e": "large", "fmt": fmt, "level": level, "n": n, "dull": dull, "size": x.len(), "same": same, "cutok": cut, "hurtok": hurt})
        }));
    }
    for i in 0..cfg.scale(14, 80) {
        let n = [100usize, 255, 256, 1000, 4096, 65_537, 1_048_577][i % 7] + i / 7;
        let d = r.bytes(n);
        out.push(guard("long", || {
            let (h, b) = (Hex::encode(&d[..]), Base64::encode(&d[..]));
            let back = Hex::decode(h.as_str()).ok().as_deref() == Some(&d[..]) && Base64::decode(b.as_str()).ok().as_deref() == Some(&d[..]);
            let windows: Vec<Value> = [0, r.below(n) / 3, n / 3 - 20].iter().map(|k| {
                let (a, z) = (k * 3, n.min(k * 3 + 66));
                let cut = |s: &str, a: usize, z: usize| sbytes(&s[a.min(s.len())..z.min(s.len())]);
                json!({"src": bytes(&d[a..z]), "hex": cut(&h, a * 2, z * 2), "b64": cut(&b, k * 4, (z + 2) / 3 * 4)})
            }).collect();
            json!({"e": "long", "n": n, "hexlen": h.len(), "b64len": b.len(), "back": back, "windows": windows})
        }));
    }
    cfg.write_trace(&out);
}
