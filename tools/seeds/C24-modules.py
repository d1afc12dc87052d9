prop = 'C24'
needs = 'a log configuration with more than eight modules'
breaks = 'the ninth and later modules get no file and no level of their own'
edits = [('src/utils/log.rs', '        for mdl in modules {\n', '        for mdl in modules.into_iter().take(8) {\n')]
demo = r'''
use starry::utils::log::LogModule;
fn main() {
    let d = std::env::temp_dir().join(format!("c24m{}", std::process::id())).to_string_lossy().to_string();
    let m = |n: &str, p: &str| LogModule { name: n.into(), pkg: p.into(), level: log::LevelFilter::Info, additive: true, dir: d.clone(), file_max_size: 1, file_max_count: 1 };
    m("own", "").config_log((0..10).map(|i| m(&format!("m{}", i), &format!("pkg{}", i))).collect());
    for i in 0..10 { log::info!(target: &format!("pkg{}", i), "line {}", i); }
    std::thread::sleep(Duration::from_millis(100));
    let mut n = 0;
    for i in 0..10 {
        let mut t = vec![std::path::PathBuf::from(&d)];
        while let Some(q) = t.pop() {
            for e in std::fs::read_dir(&q).unwrap().flatten() {
                if e.path().is_dir() { t.push(e.path()); continue }
                if e.path().to_string_lossy().contains(&format!("m{}", i)) && std::fs::read_to_string(e.path()).unwrap_or_default().contains(&format!("line {}", i)) { n += 1 }
            }
        }
    }
    std::fs::remove_dir_all(&d).ok();
    if n < 10 { fail(&n.to_string()) }
    done()
}
'''
