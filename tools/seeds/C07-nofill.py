prop = 'C07'
needs = 'all handles dropped while tasks wait, and every worker dies of a panic before they have run'
breaks = 'a worker that dies after the last handle went away is not replaced, and the tasks still waiting are lost'
edits = [('src/utils/concurrent/thread_pool.rs', '        if self.active {\n            self.pool_state.active_count.fetch_sub(1);\n', '        if self.active && self.pool_state.count.load() > 1 {\n            self.pool_state.active_count.fetch_sub(1);\n')]
demo = r'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let pool = starry::utils::concurrent::ThreadPool::new_custom("p".into(), 1, 0, 100).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    pool.execute(|| { std::thread::sleep(Duration::from_millis(300)); panic!("x") }).unwrap();
    for _ in 0..3 { let tx = tx.clone(); pool.execute(move || tx.send(()).unwrap()).unwrap(); }
    drop(pool);
    for _ in 0..3 { if rx.recv_timeout(Duration::from_secs(5)).is_err() { fail("task lost") } }
    done()
}
'''
