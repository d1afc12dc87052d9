mod util;
mod router;
mod pool;
mod filters;
mod http;
mod session;
mod resp;
mod values;
mod cookies;
mod client;
mod limits;
mod logging;
mod tokens;
mod codecs;
mod times;
mod ends;
mod servers;
mod scarce;

use util::Cfg;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let out = get("--out").expect("--out");
    let cfg = Cfg {
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        beh: get("--beh"),
        out: out.clone(),
    };
    // the code under test writes logs relative to its working directory
    let scratch = format!("{}/cwd", out);
    std::fs::create_dir_all(&scratch).expect("scratch");
    std::env::set_current_dir(&scratch).expect("chdir");
    util::set_logdir(&scratch);
    // panics of code under test are observations, not noise
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VH_PANIC").is_ok() { eprintln!("panic: {}", i); if std::env::var("VH_BT").is_ok() { eprintln!("{}", std::backtrace::Backtrace::force_capture()) } }
    }));
    match a[1].as_str() {
        "filters" => filters::run(&cfg),
        "pool-plain" => pool::run(&cfg, "C05"),
        "pool-panic" => pool::run(&cfg, "C06"),
        "pool-close" => pool::run(&cfg, "C07"),
        "http-C08" => http::run(&cfg, "C08"),
        "http-C09" => http::run(&cfg, "C09"),
        "http-C10" => http::run(&cfg, "C10"),
        "http-C14" => http::run(&cfg, "C14"),
        "http-C15" => http::run(&cfg, "C15"),
        "keepalive" => session::keepalive(&cfg),
        "concurrent" => session::concurrent(&cfg),
        "resp-C12" => resp::run(&cfg, "C12"),
        "resp-C13" => resp::run(&cfg, "C13"),
        "client-C17" => client::urls(&cfg),
        "client-C18" => client::answers(&cfg),
        "limits" => limits::run(&cfg),
        "cookies" => cookies::run(&cfg),
        "values" => values::run(&cfg),
        "tokens" => tokens::run(&cfg),
        "times" => times::run(&cfg),
        "logging" => logging::run(&cfg),
        "servers" => servers::run(&cfg),
        "scarce" => scarce::run(&cfg),
        "scarce-child" => scarce::child(),
        "ends" => ends::run(&cfg),
        "codecs" => codecs::run(&cfg),
        "router" => router::run(&cfg),
        x => { eprintln!("unknown driver {}", x); std::process::exit(3) }
    }
    std::process::exit(0);
}
