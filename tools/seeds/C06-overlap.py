prop = 'C06'
needs = 'two workers of a pool dying of panics at the same time'
breaks = 'only the first of several workers that die at the same time is replaced'
edits = [('src/utils/concurrent/thread_pool.rs', '        if self.active {\n            self.pool_state.active_count.fetch_sub(1);\n', '        if self.active && self.pool_state.active_count.fetch_sub(1) == self.pool_state.size {\n')]
demo = r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let pool = starry::utils::concurrent::ThreadPool::new_custom("p".into(), 8, 0, 100).unwrap();
    for _ in 0..20 {
        let b = std::sync::Arc::new(std::sync::Barrier::new(8));
        for _ in 0..8 { let b = b.clone(); pool.execute(move || { b.wait(); panic!("x") }).unwrap(); }
        std::thread::sleep(Duration::from_millis(20));
    }
    let (tx, rx) = std::sync::mpsc::channel();
    let b = std::sync::Arc::new(std::sync::Barrier::new(8));
    for _ in 0..8 { let (b, tx) = (b.clone(), tx.clone()); pool.execute(move || { b.wait(); tx.send(()).unwrap(); }).unwrap(); }
    for _ in 0..8 { if rx.recv_timeout(Duration::from_secs(10)).is_err() { fail("concurrency lost") } }
    done()
}
'''
