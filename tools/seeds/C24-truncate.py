prop = 'C24'
needs = 'logging that is configured a second time onto the same files'
breaks = 'records written before are lost when the log is configured again'
edits = [('src/utils/log.rs', '        .append(true)\n', '        .append(false)\n')]
demo = r'''
use starry::utils::log::LogModule;
fn main() {
    let d = std::env::temp_dir().join(format!("starry-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    let m = LogModule { name: "main".into(), pkg: "".into(), level: log::LevelFilter::Info, additive: false, dir: d.join("logs").to_str().unwrap().to_string(), file_max_size: 1, file_max_count: 2 };
    m.config_log(vec![]);
    log::info!("first");
    m.config_log(vec![]);
    log::info!("second");
    let x = std::fs::read_to_string(d.join("logs/main.log")).unwrap();
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&d);
    if !(x.contains("first") && x.contains("second")) { fail(&x) }
    done()
}
'''
