prop = 'C24'
needs = 'a log file that grows to between 1000 and 1024 kilobytes per megabyte of its size'
breaks = 'log files are rolled over before they reach their size'
edits = [('src/utils/log.rs', 'SizeTrigger::new(file_max_size * 1024 * 1024)', 'SizeTrigger::new(file_max_size * 1024 * 1000)')]
demo = r'''
fn main() {
    let d = std::env::temp_dir().join(format!("c24k{}", std::process::id()));
    let m = starry::utils::log::LogModule { name: "m".into(), pkg: "".into(), level: log::LevelFilter::Info, additive: true, dir: d.to_string_lossy().to_string(), file_max_size: 1, file_max_count: 3 };
    m.config_log(vec![]);
    let path = d.join("m.log");
    let mut n = 0;
    while n < 1030 * 1000 { log::info!("{}", "x".repeat(3000)); n = n.max(std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0)); if d.join("m-log-1.log").exists() { break } }
    let early = d.join("m-log-1.log").exists();
    std::fs::remove_dir_all(&d).ok();
    if early { fail("rolled early") }
    done()
}
'''
