//! C21: methods, versions, statuses and media types as texts.
use crate::http::{ident, text};
use crate::util::*;
use serde_json::{json, Value};
use starry::header::ContentType;
use starry::{Method, Status, Version};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[rustfmt::skip]
static METHODS: [(&str, Method); 12] = [
    ("OPTIONS", Method::OPTIONS), ("GET", Method::GET), ("POST", Method::POST), ("PUT", Method::PUT),
    ("DELETE", Method::DELETE), ("HEAD", Method::HEAD), ("TRACE", Method::TRACE), ("CONNECT", Method::CONNECT),
    ("PATCH", Method::PATCH), ("LINK", Method::LINK), ("UNLINK", Method::UNLINK), ("PRI", Method::PRI),
];
static VERSIONS: [(&str, Version); 2] = [("HTTP/1.0", Version::HTTP_10), ("HTTP/1.1", Version::HTTP_11)];
#[rustfmt::skip]
static STATUSES: [(&str, Status); 60] = [
    ("CONTINUE", Status::CONTINUE), ("SWITCHING_PROTOCOLS", Status::SWITCHING_PROTOCOLS), ("PROCESSING", Status::PROCESSING),
    ("OK", Status::OK), ("CREATED", Status::CREATED), ("ACCEPTED", Status::ACCEPTED),
    ("NON_AUTHORITATIVE_INFORMATION", Status::NON_AUTHORITATIVE_INFORMATION), ("NO_CONTENT", Status::NO_CONTENT), ("RESET_CONTENT", Status::RESET_CONTENT),
    ("PARTIAL_CONTENT", Status::PARTIAL_CONTENT), ("MULTI_STATUS", Status::MULTI_STATUS), ("ALREADY_REPORTED", Status::ALREADY_REPORTED),
    ("IM_USED", Status::IM_USED), ("MULTIPLE_CHOICES", Status::MULTIPLE_CHOICES), ("MOVED_PERMANENTLY", Status::MOVED_PERMANENTLY),
    ("FOUND", Status::FOUND), ("SEE_OTHER", Status::SEE_OTHER), ("NOT_MODIFIED", Status::NOT_MODIFIED),
    ("USE_PROXY", Status::USE_PROXY), ("TEMPORARY_REDIRECT", Status::TEMPORARY_REDIRECT), ("PERMANENT_REDIRECT", Status::PERMANENT_REDIRECT),
    ("BAD_REQUEST", Status::BAD_REQUEST), ("UNAUTHORIZED", Status::UNAUTHORIZED), ("PAYMENT_REQUIRED", Status::PAYMENT_REQUIRED),
    ("FORBIDDEN", Status::FORBIDDEN), ("NOT_FOUND", Status::NOT_FOUND), ("METHOD_NOT_ALLOWED", Status::METHOD_NOT_ALLOWED),
    ("NOT_ACCEPTABLE", Status::NOT_ACCEPTABLE), ("PROXY_AUTHENTICATION_REQUIRED", Status::PROXY_AUTHENTICATION_REQUIRED), ("REQUEST_TIMEOUT", Status::REQUEST_TIMEOUT),
    ("CONFLICT", Status::CONFLICT), ("GONE", Status::GONE), ("LENGTH_REQUIRED", Status::LENGTH_REQUIRED),
    ("PRECONDITION_FAILED", Status::PRECONDITION_FAILED), ("PAYLOAD_TOO_LARGE", Status::PAYLOAD_TOO_LARGE), ("URI_TOO_LONG", Status::URI_TOO_LONG),
    ("UNSUPPORTED_MEDIA_TYPE", Status::UNSUPPORTED_MEDIA_TYPE), ("RANGE_NOT_SATISFIABLE", Status::RANGE_NOT_SATISFIABLE), ("EXPECTATION_FAILED", Status::EXPECTATION_FAILED),
    ("IM_A_TEAPOT", Status::IM_A_TEAPOT), ("MISDIRECTED_REQUEST", Status::MISDIRECTED_REQUEST), ("UNPROCESSABLE_ENTITY", Status::UNPROCESSABLE_ENTITY),
    ("LOCKED", Status::LOCKED), ("FAILED_DEPENDENCY", Status::FAILED_DEPENDENCY), ("UPGRADE_REQUIRED", Status::UPGRADE_REQUIRED),
    ("PRECONDITION_REQUIRED", Status::PRECONDITION_REQUIRED), ("TOO_MANY_REQUESTS", Status::TOO_MANY_REQUESTS), ("REQUEST_HEADER_FIELDS_TOO_LARGE", Status::REQUEST_HEADER_FIELDS_TOO_LARGE),
    ("UNAVAILABLE_FOR_LEGAL_REASONS", Status::UNAVAILABLE_FOR_LEGAL_REASONS), ("INTERNAL_SERVER_ERROR", Status::INTERNAL_SERVER_ERROR), ("NOT_IMPLEMENTED", Status::NOT_IMPLEMENTED),
    ("BAD_GATEWAY", Status::BAD_GATEWAY), ("SERVICE_UNAVAILABLE", Status::SERVICE_UNAVAILABLE), ("GATEWAY_TIMEOUT", Status::GATEWAY_TIMEOUT),
    ("HTTP_VERSION_NOT_SUPPORTED", Status::HTTP_VERSION_NOT_SUPPORTED), ("VARIANT_ALSO_NEGOTIATES", Status::VARIANT_ALSO_NEGOTIATES), ("INSUFFICIENT_STORAGE", Status::INSUFFICIENT_STORAGE),
    ("LOOP_DETECTED", Status::LOOP_DETECTED), ("NOT_EXTENDED", Status::NOT_EXTENDED), ("NETWORK_AUTHENTICATION_REQUIRED", Status::NETWORK_AUTHENTICATION_REQUIRED),
];
#[rustfmt::skip]
static MEDIA: [(&str, ContentType); 14] = [
    ("TEXT_HTML", ContentType::TEXT_HTML), ("TEXT_PLAIN", ContentType::TEXT_PLAIN),
    ("TEXT_XML", ContentType::TEXT_XML), ("IMAGE_GIF", ContentType::IMAGE_GIF),
    ("IMAGE_JPEG", ContentType::IMAGE_JPEG), ("IMAGE_PNG", ContentType::IMAGE_PNG),
    ("APPLICATION_XHTML_XML", ContentType::APPLICATION_XHTML_XML), ("APPLICATION_XML", ContentType::APPLICATION_XML),
    ("APPLICATION_ATOM_XML", ContentType::APPLICATION_ATOM_XML), ("APPLICATION_JSON", ContentType::APPLICATION_JSON),
    ("APPLICATION_PDF", ContentType::APPLICATION_PDF), ("APPLICATION_MS_WORD", ContentType::APPLICATION_MS_WORD),
    ("APPLICATION_OCTET_STREAM", ContentType::APPLICATION_OCTET_STREAM), ("APPLICATION_X_WWW_FORM_URL_ENCODED", ContentType::APPLICATION_X_WWW_FORM_URL_ENCODED),
];

fn guard(what: &str, s: &[u8], f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"e": "panic", "what": what, "s": bytes(s)}))
}
fn method_prints(m: &Method) -> Vec<Value> {
    let a: &str = m.as_ref();
    vec![sbytes(m.as_str()), sbytes(a), sbytes(&format!("{}", m)), sbytes(&format!("{:?}", m)), sbytes(&m.to_string()), sbytes(m.clone().as_str())]
}
fn method(s: &[u8], via_str: bool) -> Value {
    guard("method", s, || {
        let got = match std::str::from_utf8(s) {
            Ok(t) if via_str => Method::from_str(t),
            _ => Method::from_bytes(s),
        };
        match got {
            Err(_) => json!({"e": "method", "s": bytes(s), "is": [], "prints": []}),
            Ok(m) => json!({"e": "method", "s": bytes(s), "is": METHODS.iter().filter(|(_, c)| *c == m).map(|(n, _)| *n).collect::<Vec<_>>(),
                            "prints": method_prints(&m)}),
        }
    })
}
fn version(s: &str) -> Value {
    guard("version", s.as_bytes(), || match Version::from_str(s) {
        Err(_) => json!({"e": "version", "s": sbytes(s), "is": [], "prints": []}),
        Ok(v) => {
            let a: &str = v.as_ref();
            json!({"e": "version", "s": sbytes(s), "is": VERSIONS.iter().filter(|(_, c)| *c == v && c.protocol() == v.protocol()).map(|(n, _)| *n).collect::<Vec<_>>(),
                   "prints": [sbytes(a), sbytes(&v.to_string()), bytes(v.as_slice()), sbytes(&format!("{:?}", v)), sbytes(&v.clone().to_string())],
                   "major": v.major(), "minor": v.minor()})
        }
    })
}
fn media(s: &str, cands: &[String]) -> Value {
    guard("media", s.as_bytes(), || {
        let m = ContentType::from_str(s);
        let a: &str = m.as_ref();
        let mut bounds: Vec<Value> = vec![];
        for c in cands {
            let (x, y) = (ContentType::multipart_form_data(c.clone()), ContentType::multipart_form_data_str(c));
            if (x == m) != (m == y) || (x.inner() == m.inner()) != (x == m) {
                bounds.push(json!("mixed"));
            } else if x == m && !bounds.contains(&sbytes(c)) {
                bounds.push(sbytes(c));
            }
        }
        json!({"e": "media", "s": sbytes(s), "is": MEDIA.iter().filter(|(_, c)| *c == m).map(|(n, _)| *n).collect::<Vec<_>>(),
               "prints": [sbytes(m.as_str()), sbytes(a), sbytes(&format!("{:?}", m)), sbytes(m.clone().as_str()), sbytes(m.inner().as_str())], "bounds": bounds})
    })
}

/// Every form of comparison between a and b that the types have.
macro_rules! both { ($a:expr, $b:expr) => {{ let (a, b) = (&$a, &$b); vec![*a == *b, *b == *a, !(*a != *b), *a == b, a == *b] }}; }
macro_rules! text { ($a:expr, $s:expr) => {{ let (a, s): (_, &str) = (&$a, $s); vec![*a == *s, *s == *a, *a == s, s == *a, !(*a != *s)] }}; }

fn comparisons(r: &mut Rng, out: &mut Vec<Value>) {
    for (n, m) in METHODS.iter() {
        for (k, o) in METHODS.iter() {
            out.push(json!({"e": "same", "a": n, "b": k, "r": both!(*m, *o)}));
            out.push(json!({"e": "same", "a": n, "b": k, "r": text!(*m, k)}));
        }
        for k in [n.to_lowercase(), format!("{} ", n), n[1..].to_string(), String::new(), text_of(r)] {
            out.push(json!({"e": "same", "a": n, "b": k, "r": text!(*m, k.as_str())}));
        }
    }
    for (n, v) in VERSIONS.iter() {
        for (k, o) in VERSIONS.iter() {
            out.push(json!({"e": "same", "a": n, "b": k, "r": both!(*v, *o)}));
            out.push(json!({"e": "same", "a": n, "b": k, "r": text!(*v, k)}));
        }
        for k in [n.to_lowercase(), format!("{} ", n), "HTTP/2.0".into(), "HTTP/1".into(), String::new()] {
            out.push(json!({"e": "same", "a": n, "b": k, "r": text!(*v, k.as_str())}));
        }
    }
    let d = Version::default();
    out.push(json!({"e": "same", "a": "HTTP/1.0", "b": d.to_string(), "r": both!(d, Version::HTTP_10)}));
    for (_, s) in STATUSES.iter() {
        for (_, o) in [(0, r.pick(&STATUSES)), (1, r.pick(&STATUSES)), (2, &("", s.clone()))] {
            out.push(json!({"e": "same", "a": s.code(), "b": o.1.code(), "r": both!(*s, o.1)}));
            let (c, p) = (o.1.code(), o.1.phrase().to_string());
            out.push(json!({"e": "same", "a": s.code(), "b": c, "r": [*s == c, c == *s, !(*s != c)]}));
            out.push(json!({"e": "same", "a": s.phrase(), "b": p, "r": text!(*s, p.as_str())}));
            out.push(json!({"e": "same", "a": s.phrase(), "b": p, "r": [*s == p, p == *s]}));
        }
        let p = s.phrase();
        for p in [p.to_lowercase(), p.to_uppercase(), format!("{} ", p), format!(" {}", p), p[1..].to_string(), p[..p.len() - 1].to_string(), s.code().to_string(), format!("{} {}", s.code(), p), String::new()] {
            out.push(json!({"e": "same", "a": s.phrase(), "b": p, "r": text!(*s, p.as_str())}));
        }
    }
    for (n, c) in MEDIA.iter() {
        for (k, o) in MEDIA.iter() {
            out.push(json!({"e": "same", "a": n, "b": k, "r": both!(*c, *o)}));
            out.push(json!({"e": "same", "a": c.as_str(), "b": o.as_str(), "r": text!(*c, o.as_str())}));
        }
        let n = c.as_str();
        for k in [n.to_uppercase(), format!("{} ", n), format!(" {}", n), format!("{};", n), format!("{}; charset=utf-8", n), n[1..].to_string(), n[..n.len() - 1].to_string(), n.replace('/', ""), String::new(), text_of(r)] {
            out.push(json!({"e": "same", "a": n, "b": k, "r": text!(*c, k.as_str())}));
        }
    }
    for _ in 0..20 {
        let (a, b) = (text_of(r), text_of(r));
        let (x, y, z) = (ContentType::custom(a.clone()), ContentType::custom_str(&b), ContentType::custom_str(&a));
        out.push(json!({"e": "custom", "s": sbytes(&a), "prints": [sbytes(x.as_str()), sbytes(&format!("{:?}", x)), sbytes(z.as_ref()), sbytes(x.inner().as_str())]}));
        out.push(json!({"e": "same", "a": a, "b": b, "r": both!(x, y)}));
        out.push(json!({"e": "same", "a": a, "b": a, "r": both!(x, z)}));
        out.push(json!({"e": "same", "a": a, "b": b, "r": text!(x, b.as_str())}));
        let (u, v) = (ContentType::multipart_form_data(a.clone()), ContentType::multipart_form_data_str(&b));
        out.push(json!({"e": "same", "a": a, "b": b, "r": both!(u, v)}));
    }
}
fn text_of(r: &mut Rng) -> String {
    if r.chance(1, 2) { ident(r, 3) } else { text(r, 8, "") }
}

fn statuses(out: &mut Vec<Value>) {
    let mut from = 0u32;
    for c in 0..=65535u16 {
        let got = catch_unwind(|| Status::from_code(c));
        match got {
            Err(_) => out.push(json!({"e": "panic", "what": "status", "s": [c]})),
            Ok(Err(_)) => continue,
            Ok(Ok(s)) => {
                if from < c as u32 { out.push(json!({"e": "gap", "from": from, "to": c - 1})); }
                let equals: Vec<u16> = (0..=65535u16).filter(|x| s == *x || *x == s).collect();
                out.push(json!({"e": "status", "code": c, "gives": s.code(), "phrase": [sbytes(s.phrase()), bytes(s.phrase_as_slice()), sbytes(s.clone().phrase())],
                                "debug": sbytes(&format!("{:?}", s)), "equals": equals}));
            }
        }
        from = c as u32 + 1;
    }
    if from <= 65535 { out.push(json!({"e": "gap", "from": from, "to": 65535})); }
    for (n, s) in STATUSES.iter() {
        out.push(json!({"e": "const", "n": n, "code": s.code()}));
        out.push(json!({"e": "status", "code": s.code(), "gives": s.code(), "phrase": [sbytes(s.phrase()), bytes(s.phrase_as_slice())],
                        "debug": sbytes(&format!("{:?}", s)), "equals": [s.code()]}));
    }
}

fn damage(mut s: Vec<u8>, d: &Value) -> Vec<u8> {
    let at = d["at"].as_u64().unwrap_or(0) as usize;
    let b = d["byte"].as_u64().unwrap_or(0) as u8;
    let n = s.len();
    match d["how"].as_str().unwrap_or("") {
        "case" if n > 0 => { let i = at % n; s[i] ^= if s[i].is_ascii_alphabetic() { 32 } else { 0 } }
        "drop" if n > 0 => { s.remove(at % n); }
        "double" if n > 0 => { let x = s[at % n]; s.insert(at % n, x) }
        "swap" if n > 1 => s.swap(at % n, (at + 1) % n),
        "byte" if n > 0 => s[at % n] = b,
        "append" => s.push(b),
        "prepend" => s.insert(0, b),
        _ => {}
    }
    s
}

fn item(o: &Value, r: &mut Rng) -> Vec<Value> {
    let base = o["base"].as_u64().unwrap_or(0) as usize;
    let dmg = o["dmg"].as_array().cloned().unwrap_or_default();
    let hurt = |s: &[u8]| dmg.iter().fold(s.to_vec(), |s, d| damage(s, d));
    match o["kind"].as_str().unwrap_or("") {
        "method" => { let s = hurt(METHODS[base % 12].0.as_bytes()); vec![method(&s, true), method(&s, false)] }
        "version" => {
            let s = hurt(["HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/0.9", "HTTP/1", "HTTPS/1.1", ""][base % 7].as_bytes());
            vec![version(&String::from_utf8_lossy(&s))]
        }
        _ => {
            let t = if base % 3 == 0 { "multipart/form-data".to_string() } else { MEDIA[base % 14].1.as_str().to_string() };
            let pad = " ".repeat(o["pad"].as_u64().unwrap_or(0) as usize);
            let mut s = format!("{}{}{}", pad, t, pad);
            let mut cands = vec![];
            for p in o["params"].as_array().cloned().unwrap_or_default() {
                let b = if r.chance(1, 3) { text(r, 20, ";\"") } else { ident(r, 12) };
                cands.push(b.clone());
                s.push(';');
                s.push_str(&match p.as_str().unwrap_or("") {
                    "boundary" => format!(" boundary={}", b),
                    "quoted" => format!("boundary=\"{}\" ", b),
                    "charset" => " charset=utf-8".to_string(),
                    "blank" => "\t  ".to_string(),
                    "Boundary" => format!(" Boundary={}", b),
                    "q" => format!("{}q=0.5;v", pad),
                    _ => String::new(),
                });
            }
            let s = String::from_utf8_lossy(&hurt(s.as_bytes())).into_owned();
            // whatever might be taken for the boundary is offered for comparison
            for p in s.split("boundary=").skip(1) {
                for e in [p, p.split(';').next().unwrap_or("")] {
                    cands.push(e.to_string());
                    cands.push(e.trim().to_string());
                    cands.push(e.trim_matches('"').to_string());
                    cands.push(e.trim().trim_matches('"').to_string());
                }
            }
            cands.push(String::new());
            vec![media(&s, &cands)]
        }
    }
}

pub fn run(cfg: &Cfg) {
    let mut r = Rng::new(cfg.seed ^ 0x21);
    let mut out = vec![json!({"e": "case", "p": "C21"})];
    statuses(&mut out);
    out.push(json!({"e": "case", "p": "C21"}));
    for (n, m) in METHODS.iter() {
        out.push(json!({"e": "props", "n": n, "prints": method_prints(m), "safe": m.is_safe(), "cacheable": m.is_cacheable(), "idempotent": m.is_idempotent()}));
        let copy = m.clone();
        out.push(json!({"e": "props", "n": n, "prints": method_prints(&copy), "safe": copy.is_safe(), "cacheable": copy.is_cacheable(), "idempotent": copy.is_idempotent()}));
    }
    out.push(json!({"e": "case", "p": "C21"}));
    comparisons(&mut r, &mut out);
    for b in cfg.behaviours() {
        out.push(json!({"e": "case", "p": "C21"}));
        for o in b.as_array().cloned().unwrap_or_default() { out.extend(item(&o, &mut r)); }
    }
    out.push(json!({"e": "case", "p": "C21"}));
    // every text of up to three bytes that resembles the start of a token, and every token with every single byte changed
    let abc = b"GETPURIDLH/1 \0";
    for &a in abc { out.push(method(&[a], true)); for &b in abc { out.push(method(&[a, b], true)); for &c in abc { out.push(method(&[a, b, c], false)); } } }
    for (n, _) in METHODS.iter() {
        for i in 0..n.len() {
            out.push(json!({"e": "case", "p": "C21"}));
            for b in (0..=255u8).step_by(if cfg.thorough { 1 } else { 3 }) { let mut s = n.as_bytes().to_vec(); s[i] = b; out.push(method(&s, b % 2 == 0)); }
        }
    }
    for (n, _) in VERSIONS.iter() {
        for i in 0..n.len() {
            out.push(json!({"e": "case", "p": "C21"}));
            for b in 0..=127u8 { let mut s = n.as_bytes().to_vec(); s[i] = b; out.push(version(std::str::from_utf8(&s).unwrap())); }
        }
    }
    for i in 0..cfg.scale(1500, 20000) {
        if i % 20 == 0 { out.push(json!({"e": "case", "p": "C21"})); }
        let how = ["none", "case", "drop", "double", "swap", "byte", "append", "prepend"];
        let dmg: Vec<Value> = (0..r.below(3)).map(|_| json!({"how": r.pick(&how), "at": r.below(60), "byte": r.range(9, 255)})).collect();
        let params: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&["boundary", "quoted", "charset", "empty", "blank", "Boundary", "q"])).collect();
        let o = json!({"kind": r.pick(&["method", "version", "media", "media", "media"]), "base": r.below(42), "dmg": dmg, "params": params, "pad": r.below(3)});
        out.extend(item(&o, &mut r));
    }
    cfg.write_trace(&out);
}
