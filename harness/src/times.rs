//! C22: times, their arithmetic, formatting and parsing.
use crate::http::text;
use crate::util::*;
use chrono::Duration;
use serde_json::{json, Value};
use starry::utils::Time;
use std::panic::{catch_unwind, AssertUnwindSafe};

const DAY: i128 = 86_400_000_000_000;
fn nanos(d: Duration) -> i128 {
    let s = d.num_seconds();
    s as i128 * 1_000_000_000 + (d - Duration::seconds(s)).num_nanoseconds().unwrap_or(0) as i128
}
/// [days, second of the day, nanosecond]
fn trip(n: i128) -> Value {
    let r = n.rem_euclid(DAY);
    json!([(n.div_euclid(DAY)) as i64, (r / 1_000_000_000) as i64, (r % 1_000_000_000) as i64])
}
fn obs(t: &Time) -> Value {
    trip(nanos(t.duration()))
}
const UNITS: [&str; 8] = ["weeks", "days", "hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds"];
/// A number of units in digits: whole days, the rest of the day (split once more at the second for small units).
fn digits(unit: &str, a: i64) -> Value {
    let per: i64 = match unit { "weeks" | "days" => return json!([a]), "hours" => 24, "minutes" => 1440, "seconds" => 86400, "milliseconds" => 86_400_000,
        "microseconds" => 86_400_000_000, _ => 86_400_000_000_000 };
    let (d, r) = (a.div_euclid(per), a.rem_euclid(per));
    match unit {
        "microseconds" => json!([d, r / 1_000_000, r % 1_000_000]),
        "nanoseconds" => json!([d, r / 1_000_000_000, r % 1_000_000_000]),
        _ => json!([d, r]),
    }
}
/// How many of the unit make a span of years that stays within the calendar.
fn reach(unit: &str, years: i64) -> i64 {
    let s = years * 31_556_952;
    match unit { "weeks" => s / 604800, "days" => s / 86400, "hours" => s / 3600, "minutes" => s / 60, "seconds" => s, "milliseconds" => s * 1000,
        "microseconds" => s * 1_000_000, _ => s.clamp(-200 * 31_556_952, 200 * 31_556_952) * 1_000_000_000 }
}

fn make(unit: &str, a: i64, r: &mut Rng) -> (Time, Value) {
    let t = match unit {
        "minutes" => Time::from_minutes(a),
        "seconds" => Time::from_secs(a),
        "milliseconds" => Time::from_milliseconds(a),
        "microseconds" => Time::from_microseconds(a),
        "nanoseconds" => Time::from_nanoseconds(a),
        _ => {
            let d = match unit { "weeks" => Duration::weeks(a), "days" => Duration::days(a), _ => Duration::hours(a) } + Duration::nanoseconds(r.below(3) as i64);
            let t = Time::from(d);
            let x = trip(nanos(d));
            return (t, json!({"e": "from", "x": x, "t": obs(&t)}));
        }
    };
    (t, json!({"e": "make", "unit": unit, "x": digits(unit, a), "t": obs(&t)}))
}

fn shift(t: &mut Time, unit: &str, a: i64, plus: bool) {
    match (unit, plus) {
        ("weeks", true) => t.add_weeks(a), ("weeks", false) => t.sub_weeks(a),
        ("days", true) => t.add_days(a), ("days", false) => t.sub_days(a),
        ("hours", true) => t.add_hours(a), ("hours", false) => t.sub_hours(a),
        ("minutes", true) => t.add_minutes(a), ("minutes", false) => t.sub_minutes(a),
        ("seconds", true) => t.add_seconds(a), ("seconds", false) => t.sub_seconds(a),
        ("milliseconds", true) => t.add_milliseconds(a), ("milliseconds", false) => t.sub_milliseconds(a),
        ("microseconds", true) => t.add_microseconds(a), ("microseconds", false) => t.sub_microseconds(a),
        ("nanoseconds", true) => t.add_nanoseconds(a), (_, _) => t.sub_nanoseconds(a),
    }
}

fn nums(t: &Time) -> Value {
    let mut v: Vec<Value> = [("weeks", t.num_weeks()), ("days", t.num_days()), ("hours", t.num_hours()), ("minutes", t.num_minutes()),
        ("seconds", t.num_seconds()), ("milliseconds", t.num_milliseconds())].iter()
        .map(|(u, n)| json!({"unit": u, "some": true, "x": digits(u, *n)})).collect();
    for (u, n) in [("microseconds", t.num_microseconds()), ("nanoseconds", t.num_nanoseconds())] {
        v.push(match n { Some(n) => json!({"unit": u, "some": true, "x": digits(u, n)}), None => json!({"unit": u, "some": false}) });
    }
    json!({"e": "nums", "nums": v})
}

#[rustfmt::skip]
static TOKENS: [&str; 43] = ["%Y", "%C", "%y", "%m", "%-m", "%b", "%h", "%B", "%d", "%-d", "%e", "%_d", "%j", "%a", "%A", "%u", "%w", "%U", "%W", "%G", "%g",
    "%V", "%D", "%F", "%v", "%H", "%-H", "%k", "%I", "%l", "%-I", "%p", "%P", "%M", "%-M", "%S", "%-S", "%R", "%T", "%X", "%r", "%c", "%%"];
/// Formats that show a whole date and time, so that they can be read.
#[rustfmt::skip]
static WHOLE: [&[&str]; 14] = [
    &["%Y", "-", "%m", "-", "%d", " ", "%H", ":", "%M", ":", "%S"],
    &["%G", "-W", "%V", "-", "%u", "%H", "%M", "%S"],
    &["%Y", "-", "%m", "-", "%d", "T", "%H", ":", "%M", ":", "%S"],
    &["%a", ", ", "%d", " ", "%b", " ", "%Y", " ", "%H", ":", "%M", ":", "%S", " GMT"],
    &["%d", "%b", "%Y", "%p", "%I", "%M", "%S", "%.f"],
    &["%Y", "-", "%m", "-", "%d", " ", "%H", ":", "%M", ":", "%S", "%.f"],
    &["%y", "/", "%m", "/", "%d", " ", "%H", ":", "%M", ":", "%S"],
    &["%F", " ", "%T"], &["%Y", " ", "%j", " ", "%T"], &["%A", ", ", "%d", "-", "%B", "-", "%Y", " ", "%X"],
    &["%d", "/", "%m", "/", "%Y", " ", "%I", ".", "%M", ".", "%S", " ", "%P"],
    &["%c"], &["%v", " ", "%T"], &["%D", " ", "%r"]];

fn format(t: &Time, fmt: &[&str]) -> Value {
    let s = fmt.concat();
    let mut texts = vec![t.format_string(&s), t.format(&s).to_string(), std::format!("{}", t.format(&s)), Time::format_data(*t, &s)];
    if s == "%Y-%m-%d %H:%M:%S" { texts.push(t.to_string()) }
    texts.dedup();
    json!({"e": "format", "fmt": fmt, "texts": texts})
}
fn guard(what: &str, f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"e": "panic", "what": what}))
}

fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
/// Text of one field as given, whether or not there is such a date.
fn spell(f: &Value, k: &str) -> String {
    let g = |n: &str| f[n].as_i64().unwrap_or(0);
    const M: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
    const D: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];
    let mon = M[((g("m") + 11) % 12) as usize];
    let day = D[((g("w") + 6) % 7) as usize];
    let h12 = if g("h") % 12 == 0 { 12 } else { g("h") % 12 };
    match k {
        "%Y" => std::format!("{:04}", g("y")), "%y" => std::format!("{:02}", g("y") % 100), "%m" => std::format!("{:02}", g("m")),
        "%b" => mon[..3].to_string(), "%B" => mon.to_string(), "%d" => std::format!("{:02}", g("d")), "%j" => std::format!("{:03}", g("o")),
        "%a" => day[..3].to_string(), "%A" => day.to_string(), "%u" => g("w").to_string(), "%G" => std::format!("{:04}", g("g")), "%V" => std::format!("{:02}", g("v")),
        "%H" => std::format!("{:02}", g("h")), "%I" => std::format!("{:02}", h12), "%p" => (if g("h") < 12 { "AM" } else { "PM" }).to_string(),
        "%P" => (if g("h") < 12 { "am" } else { "pm" }).to_string(), "%M" => std::format!("{:02}", g("i")), "%S" => std::format!("{:02}", g("s")),
        "%F" => std::format!("{}-{}-{}", spell(f, "%Y"), spell(f, "%m"), spell(f, "%d")),
        "%T" | "%X" => std::format!("{}:{}:{}", spell(f, "%H"), spell(f, "%M"), spell(f, "%S")),
        "%r" => std::format!("{}:{}:{} {}", spell(f, "%I"), spell(f, "%M"), spell(f, "%S"), spell(f, "%p")),
        "%D" => std::format!("{}/{}/{}", spell(f, "%m"), spell(f, "%d"), spell(f, "%y")),
        "%v" => std::format!("{:>2}-{}-{}", g("d"), spell(f, "%b"), spell(f, "%Y")),
        "%c" => std::format!("{} {} {:>2} {} {}", spell(f, "%a"), spell(f, "%b"), g("d"), spell(f, "%T"), spell(f, "%Y")),
        "%.f" => f["f"].as_str().unwrap_or("").to_string(),
        x => x.to_string(),
    }
}
/// y, month, day, hour, minute, second -> a text in a format, and what the code reads from it
fn parse(which: usize, v: [i64; 6], r: &mut Rng) -> Value {
    let fmt = WHOLE[which % WHOLE.len()];
    let [mut y, mut m, mut d, mut h, i, s] = v;
    // what a format cannot spell is not asked of it
    if fmt.iter().any(|k| ["%y", "%D"].contains(k)) { y = 1970 + y.rem_euclid(100) }
    if fmt.iter().any(|k| ["%b", "%B", "%v", "%c"].contains(k)) { m = (m + 11).rem_euclid(12) + 1 }
    if fmt.iter().any(|k| ["%I", "%r"].contains(k)) { h = h.rem_euclid(24) }
    if fmt.contains(&"%v") || fmt.contains(&"%c") { d = d.max(1) }
    // the weekday of the date (any algorithm will do), or another one
    let days = |y: i64, m: i64, d: i64| { let (a, b) = if m <= 2 { (y - 1, m + 12) } else { (y, m) }; 365 * a + a.div_euclid(4) - a.div_euclid(100) + a.div_euclid(400) + (153 * (b - 3) + 2) / 5 + d };
    let mut w = (days(y, m.clamp(1, 12), d) + 1).rem_euclid(7) + 1;
    if r.chance(1, 8) { w = w % 7 + 1 }
    let o = if r.chance(1, 2) { *r.pick(&[0, 1, 59, 60, 61, 365, 366, 367]) } else { r.range(1, if leap(y) { 366 } else { 365 }) as i64 };
    let vv = if r.chance(1, 3) { *r.pick(&[0, 1, 52, 53, 54]) } else { r.range(1, 52) as i64 };
    let frac = if fmt.contains(&"%.f") && r.chance(2, 3) { std::format!(".{}", (0..r.range(1, 9)).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>()) } else { String::new() };
    let n: i64 = if frac.is_empty() { 0 } else { std::format!("{:0<9}", &frac[1..]).parse().unwrap_or(0) };
    if fmt.contains(&"%u") { w = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 7, 1, 8, 0]) }
    let f = json!({"y": y, "m": m, "d": d, "o": o, "w": w, "g": y, "v": vv, "h": h, "i": i, "s": s, "f": frac, "n": n});
    let text: String = fmt.iter().map(|k| spell(&f, k)).collect();
    guard("parse", || match Time::parse_from_str(&text, &fmt.concat()) {
        Ok(t) => json!({"e": "parse", "fmt": fmt, "f": f, "text": text, "ok": true, "t": obs(&t)}),
        Err(_) => json!({"e": "parse", "fmt": fmt, "f": f, "text": text, "ok": false}),
    })
}
/// Texts no format can read: cut short, or with something that is no digit, blank, sign or letter in them.
fn junk(which: usize, v: [i64; 6], r: &mut Rng) -> Option<Value> {
    let fmt = WHOLE[which % 8];
    let f = json!({"y": v[0], "m": 1 + v[1].rem_euclid(12), "d": 1 + v[2].rem_euclid(28), "w": 1, "g": v[0], "v": 10, "h": v[3].rem_euclid(24), "i": v[4].rem_euclid(60), "s": v[5].rem_euclid(60), "f": ""});
    let mut text: Vec<char> = fmt.iter().map(|k| spell(&f, k)).collect::<String>().chars().collect();
    match r.below(3) {
        0 => text.truncate(r.below(6)),
        1 => { let i = r.below(text.len()); text[i] = *r.pick(&['~', '\0', '€', '_']) }
        _ => text.extend(" trailing".chars()),
    }
    let text: String = text.into_iter().collect();
    Some(guard("parse", || json!({"e": "junk", "text": text, "fmt": fmt, "ok": Time::parse_from_str(&text, &fmt.concat()).is_ok()})))
}

fn case(items: &[Value], r: &mut Rng) -> Vec<Value> {
    let mut out = vec![json!({"e": "case", "p": "C22"})];
    let g = |o: &Value, k: &str| o[k].as_i64().unwrap_or(0);
    let first = items.first().cloned().unwrap_or(json!({}));
    let unit = *r.pick(&["minutes", "seconds", "milliseconds", "microseconds", "nanoseconds", "days", "hours", "weeks"]);
    let near = (g(&first, "y") - 1970).clamp(-1900, 7900);
    let (mut t, e) = make(unit, reach(unit, near) + g(&first, "a") % reach(unit, 50), r);
    out.push(e);
    // it stays where the calendar has four digits
    let inside = |t: &Time| { let y = t.duration().num_days() / 365; (-1960..=7900).contains(&y) };
    for o in items {
        let unit = o["unit"].as_str().unwrap_or("days");
        let a = g(o, "a");
        let v = [g(o, "y").max(1), g(o, "m"), g(o, "d"), g(o, "hh"), g(o, "mi"), g(o, "s")];
        let op = o["op"].as_str().unwrap_or("");
        let before = t;
        let e = guard(op, || match op {
            "plus" | "minus" => { shift(&mut t, unit, a, op == "plus"); json!({"e": op, "unit": unit, "x": digits(unit, a), "t": obs(&t)}) }
            "add" | "sub" => {
                let n = a as i128 * [DAY, 1, 1_000_000_000, 999_999_999][(a.unsigned_abs() % 4) as usize] % (DAY * 200_000);
                let d = Duration::days((n / DAY) as i64) + Duration::nanoseconds((n % DAY) as i64);
                if op == "add" { t.add(d) } else { t.sub(d) }
                json!({"e": op, "x": trip(n), "t": obs(&t)})
            }
            "make" => { let (x, e) = make(unit, a, r); t = x; e }
            "parse" => parse(g(o, "fmt") as usize, v, r),
            _ => json!({"e": "case", "p": "C22"}),
        });
        let shown = e["e"] != "case";
        if e["e"] == "parse" && e["ok"] == true {
            let x = e["t"].as_array().cloned().unwrap_or_default();
            let p = |i: usize| x[i].as_i64().unwrap_or(0);
            t = Time::from(Duration::days(p(0)) + Duration::seconds(p(1)) + Duration::nanoseconds(p(2)));
        }
        if shown { out.push(e); }
        if op == "make" || op == "plus" { out.push(json!({"e": "same", "a": obs(&before), "b": obs(&t), "r": before == t})); let c = t; out.push(json!({"e": "same", "a": obs(&c), "b": obs(&t), "r": c == t && !(c != t)})); }
        if op == "nums" || r.chance(1, 3) { out.push(guard("nums", || nums(&t))); }
        if inside(&t) && (op == "format" || r.chance(1, 3)) {
            let fmt: Vec<&str> = if r.chance(1, 3) { WHOLE[r.below(WHOLE.len())].to_vec() } else { (0..r.range(1, 8)).flat_map(|_| [*r.pick(&TOKENS), *r.pick(&["", " ", "-", "at ", "é"])]).collect() };
            out.push(guard("format", || format(&t, &fmt)));
        }
        if !inside(&t) {
            let (x, e) = make("days", a % 20000, r);
            t = x;
            out.push(e);
        }
    }
    out
}

pub fn run(cfg: &Cfg) {
    std::env::set_var("TZ", "UTC");
    let mut r = Rng::new(cfg.seed ^ 0x22);
    let mut out = vec![];
    for b in cfg.behaviours() { out.extend(case(&b.as_array().cloned().unwrap_or_default(), &mut r)); }
    for _ in 0..cfg.scale(250, 3000) {
        let items: Vec<Value> = (0..r.range(3, 12)).map(|_| {
            let unit = *r.pick(&UNITS);
            let years = *r.pick(&[0usize, 0, 1, 30, 300, 300, 6000, 90000]);
            let span = reach(unit, years as i64).max(2000);
            let a = ((r.next() % (2 * span as u64 + 1)) as i128 - span as i128) as i64;
            json!({"op": r.pick(&["plus", "minus", "add", "sub", "format", "nums", "make", "parse", "parse"]), "unit": unit, "a": a,
                   "y": r.range(1, 9800), "m": r.range(1, 12), "d": r.range(1, 31), "hh": r.below(24), "mi": r.below(60), "s": r.below(60), "fmt": r.below(40)})
        }).collect();
        out.extend(case(&items, &mut r));
    }
    out.push(json!({"e": "case", "p": "C22"}));
    for _ in 0..cfg.scale(300, 3000) {
        let v = [r.range(1000, 9999) as i64, r.below(12) as i64, r.below(28) as i64, r.below(24) as i64, r.below(60) as i64, r.below(60) as i64];
        out.extend(junk(r.below(20), v, &mut r));
        let (s, f) = (text(&mut r, 20, ""), text(&mut r, 8, "%"));
        // a format without fields cannot give a time, whatever the text
        out.push(guard("parse", || json!({"e": "junk", "text": s, "fmt": [f], "ok": Time::parse_from_str(&s, &f).is_ok()})));
        let sys = || trip(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos() as i128).unwrap_or(0));
        let a = sys();
        let t = Time::now();
        out.push(json!({"e": "now", "a": a, "t": obs(&t), "b": sys()}));
    }
    cfg.write_trace(&out);
}
