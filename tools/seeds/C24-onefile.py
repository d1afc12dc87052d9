prop = 'C24'
needs = 'a module that keeps exactly one old file while the main log keeps several'
breaks = 'the module keeps as many files as the main log'
edits = [('src/utils/log.rs', '            if mdl.file_max_count <= 0 {', '            if mdl.file_max_count <= 1 {')]
demo = r'''
use starry::utils::log::LogModule;
fn main() {
    let d = std::env::temp_dir().join(format!("starry-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    let dir = d.join("logs").to_str().unwrap().to_string();
    let m = |name: &str, pkg: &str, n| LogModule { name: name.into(), pkg: pkg.into(), level: log::LevelFilter::Info, additive: false, dir: dir.clone(), file_max_size: 1, file_max_count: n };
    m("main", "", 4).config_log(vec![m("one", "demo::one", 1)]);
    let big = "x".repeat(300 * 1024);
    for _ in 0..20 { log::info!(target: "demo::one", "{}", big); }
    let n = std::fs::read_dir(d.join("logs")).unwrap().filter(|e| e.as_ref().unwrap().file_name().to_str().unwrap().starts_with("one-log-")).count();
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&d);
    if n != 1 { fail(&n.to_string()) }
    done()
}
'''
