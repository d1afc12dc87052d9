prop = 'C24'
needs = 'a server whose log settings are set twice before it listens'
breaks = 'the second set_log of a server is ignored'
edits = [('src/server/server.rs', '        self.module = Some(LogModule {\n', '        self.module.get_or_insert(LogModule {\n'), ('src/server/server.rs', '            file_max_count, // 7,\n        })\n', '            file_max_count, // 7,\n        });\n')]
demo = r'''
fn main() {
    let d = std::env::temp_dir().join(format!("c24f{}", std::process::id())).to_string_lossy().to_string();
    let mut s = HttpServer::new();
    s.set_log(log::LevelFilter::Off, d.clone() + "/a", 1, 1);
    s.set_log(log::LevelFilter::Info, d.clone() + "/b", 1, 1);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.listener("127.0.0.1:99999")));
    log::info!("hello there");
    std::thread::sleep(Duration::from_millis(100));
    let mut t = vec![std::path::PathBuf::from(&d).join("b")];
    let mut n = 0;
    while let Some(q) = t.pop() {
        for e in std::fs::read_dir(&q).map(|r| r.flatten().collect::<Vec<_>>()).unwrap_or_default() {
            if e.path().is_dir() { t.push(e.path()); continue }
            if std::fs::read_to_string(e.path()).unwrap_or_default().contains("hello there") { n += 1 }
        }
    }
    std::fs::remove_dir_all(&d).ok();
    if n != 1 { fail(&n.to_string()) }
    done()
}
'''
