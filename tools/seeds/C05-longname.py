prop = 'C05'
needs = 'a name prefix of more than sixteen characters'
breaks = 'long name prefixes of pool threads are cut'
edits = [('src/utils/concurrent/thread_pool.rs', '''            format!("{}{}", pool_state.name_prefix, counter),''', '''            format!("{}{}", pool_state.name_prefix.chars().take(16).collect::<String>(), counter),''')]
demo = r'''
use starry::utils::concurrent::ThreadPool;
use std::sync::mpsc::channel;
fn main() {
    let p = ThreadPool::new_with_name("a-pool-with-a-rather-long-name-".into(), 2).unwrap();
    let (t, r) = channel();
    p.execute(move || t.send(std::thread::current().name().unwrap_or("").to_string()).unwrap()).unwrap();
    let n = r.recv_timeout(Duration::from_secs(10)).unwrap_or_default();
    if !n.starts_with("a-pool-with-a-rather-long-name-") { fail(&n) }
    done()
}
'''
