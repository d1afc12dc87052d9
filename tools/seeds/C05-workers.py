prop = 'C05'
needs = 'a pool of more than 64 workers with as many tasks that wait for each other'
breaks = 'a pool never has more than 64 workers'
edits = [('src/utils/concurrent/thread_pool.rs', '        self.pool_size = size;\n', '        self.pool_size = size.min(64);\n')]
demo = r'''
use std::sync::{Arc, Mutex, Condvar};
use starry::utils::concurrent::ThreadPool;
fn main() {
    let p = ThreadPool::builder().pool_size(70).create().unwrap();
    let m = Arc::new((Mutex::new(0), Condvar::new()));
    for _ in 0..70 {
        let m = m.clone();
        p.execute(move || { let mut n = m.0.lock().unwrap(); *n += 1; m.1.notify_all(); while *n < 70 { n = m.1.wait(n).unwrap(); } }).unwrap();
    }
    let t = Instant::now();
    while *m.0.lock().unwrap() < 70 { if t.elapsed() > Duration::from_secs(3) { fail("not all at once") } std::thread::sleep(Duration::from_millis(5)) }
    done()
}
'''
