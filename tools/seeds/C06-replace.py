prop = 'C06'
needs = 'a worker other than the last one panicking, then as many tasks at once as workers'
breaks = 'the replacement of a panicked worker takes the place of the last worker, which is forgotten'
edits = [('src/utils/concurrent/thread_pool.rs', '                        tsw.remove(counter);\n', '                        tsw.pop();\n')]
demo = r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let pool = starry::utils::concurrent::ThreadPool::new_custom("p".into(), 3, 0, 100).unwrap();
    for round in 0..6 {
        for _ in 0..3 { pool.execute(|| panic!("x")).unwrap(); std::thread::sleep(Duration::from_millis(20)); }
        let (tx, rx) = std::sync::mpsc::channel();
        let b = std::sync::Arc::new(std::sync::Barrier::new(3));
        for _ in 0..3 { let (b, tx) = (b.clone(), tx.clone()); if pool.execute(move || { b.wait(); tx.send(()).unwrap(); }).is_err() { fail("rejected") } }
        for _ in 0..3 { if rx.recv_timeout(Duration::from_secs(5)).is_err() { fail(&format!("concurrency lost in round {}", round)) } }
    }
    done()
}
'''
