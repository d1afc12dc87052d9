//! C20: histories of operations on value maps and file maps.
use crate::http::{ident, text};
use crate::util::*;
use serde_json::{json, Value};
use starry::header::ContentType;
use starry::{MultipartValues, Values};

/// Both kinds of map behind one interface; the value of a file stands for its name and content.
#[derive(Clone)]
enum Map {
    Vals(Values),
    Files(MultipartValues),
}
macro_rules! shown {
    ($f:expr) => {{ let f = $f; if f.size() == f.content().len() { format!("{}|{}", f.filename(), String::from_utf8_lossy(&f.content())) } else { "size".to_string() } }};
}
impl Map {
    fn ask(&self, names: &[String]) -> Value {
        let answers: Vec<Value> = names.iter().map(|n| match self {
            Map::Vals(m) => json!({"n": n, "has": m.contain(n.as_str()), "first": m.get(n.as_str()).into_iter().collect::<Vec<_>>(),
                                   "all": m.vec(n.as_str()).into_iter().collect::<Vec<_>>()}),
            Map::Files(m) => {
                let g: Vec<String> = m.get(n.as_str()).into_iter().map(|f| shown!(f)).collect();
                json!({"n": n, "has": m.have(n.as_str()), "first": g, "all": g.iter().map(|x| vec![x]).collect::<Vec<_>>()})
            }
        }).collect();
        let snap: Vec<Value> = match self {
            Map::Vals(m) => m.map().into_iter().map(|(n, v)| json!({"n": n, "all": v})).collect(),
            Map::Files(m) => m.map().into_iter().map(|(n, f)| json!({"n": n, "all": [shown!(f)]})).collect(),
        };
        json!({"e": "ask", "answers": answers, "size": match self { Map::Vals(m) => m.len(), Map::Files(m) => m.len() }, "snap": snap})
    }
}

fn history(ops: &[Value], files: bool, r: &mut Rng) -> Vec<Value> {
    let mut maps = vec![if files { Map::Files(MultipartValues::new()) } else { Map::Vals(Values::new()) }];
    let mut out = vec![json!({"e": "case", "p": "C20"})];
    let mut names: Vec<String> = vec!["zz".into()];
    for o in ops {
        let m = (o["m"].as_u64().unwrap_or(1) as usize - 1) % maps.len();
        let n = o["n"].as_str().unwrap_or("").to_string();
        let mut v = o["v"].as_str().unwrap_or("").to_string();
        let mut op = o["op"].as_str().unwrap_or("").to_string();
        if op == "copy" {
            if maps.len() < 4 {
                let c = maps[m].clone();
                maps.push(c);
                out.push(json!({"e": "copy", "m": m + 1}));
            }
        } else {
            let owned = r.chance(1, 2);
            let ret: Vec<String> = match &mut maps[m] {
                Map::Vals(x) => match (op.as_str(), owned) {
                    ("set", true) => { x.set(n.clone(), v.clone()); vec![] }
                    ("set", false) => { x.set_str(&n, &v); vec![] }
                    ("add", true) => { x.add(n.clone(), v.clone()); vec![] }
                    ("add", false) => { x.add_str(&n, &v); vec![] }
                    _ => x.del(n.as_str()).into_iter().collect(),
                },
                Map::Files(x) => match op.as_str() {
                    "del" => x.del(n.as_str()).into_iter().map(|f| shown!(f)).collect(),
                    _ => {
                        op = "insert".into();
                        let (f, c) = (ident(r, 3), v);
                        v = format!("{}|{}", f, c);
                        let old = if owned { x.insert_obj(n.clone(), f, c.into_bytes(), ContentType::TEXT_PLAIN) } else {
                            // a file header cannot be named outside of the crate: one is taken from a second map
                            let mut y = MultipartValues::new();
                            y.insert_obj("k".into(), f, c.into_bytes(), ContentType::default());
                            match y.del("k") { Some(h) => x.insert(n.clone(), h), None => None }
                        };
                        old.into_iter().map(|f| shown!(f)).collect()
                    }
                },
            };
            if !names.contains(&n) {
                names.push(n.clone());
                names.push(n.to_uppercase());
            }
            out.push(json!({"e": "op", "m": m + 1, "op": op, "n": n, "v": v, "ret": ret}));
        }
        for (i, x) in maps.iter().enumerate() {
            let mut a = x.ask(&names);
            a["m"] = json!(i + 1);
            out.push(a);
        }
    }
    out
}

pub fn run(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x20);
    let mut out = vec![];
    for b in cfg.behaviours() {
        let ops = b.as_array().cloned().unwrap_or_default();
        out.extend(history(&ops, false, &mut r));
        out.extend(history(&ops, true, &mut r));
    }
    for i in 0..cfg.scale(300, 3000) {
        let pool: Vec<String> = (0..r.range(1, 5)).map(|_| if r.chance(1, 3) { text(&mut r, 12, "") } else { ident(&mut r, 2) }).collect();
        // values come back: equal ones must not be confused with the same one
        let vals: Vec<String> = (0..2).map(|_| ident(&mut r, 2)).collect();
        let len = if i % 40 == 7 { r.range(60, 300) } else { r.range(1, 25) };
        let grow = i % 20 == 11; // hardly anything goes away
        let len = if grow { r.range(20, 120) } else { len };
        let pool = if i % 80 == 7 { (0..100).map(|k| format!("n{}", k)).collect() } else { pool };
        let ops: Vec<Value> = (0..len).map(|_| json!({"op": if grow && !r.chance(1, 30) { "add" } else { *r.pick(&["set", "add", "add", "add", "del", "copy"]) }, "m": if grow { 1 } else { r.range(1, 4) },
            "n": r.pick(&pool), "v": if r.chance(1, 2) { text(&mut r, 10, "") } else { r.pick(&vals).clone() }})).collect();
        out.extend(history(&ops, i % 3 == 2, &mut r));
    }
    cfg.write_trace(&out);
}
