prop = 'C07'
needs = 'all handles dropped while accepted tasks are queued behind running ones'
breaks = 'a worker that finishes a task after the last handle went away ends at once, and the queued tasks are forgotten'
edits = [('src/utils/concurrent/thread_pool.rs', '                        task.run();\n                        sentinel\n', '                        task.run(); if sentinel.pool_state.count.load() < 2 { break }\n                        sentinel\n')]
demo = r'''
fn main() {
    let pool = starry::utils::concurrent::ThreadPool::new_custom("p".into(), 1, 0, 100).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    for _ in 0..5 { let tx = tx.clone(); pool.execute(move || { std::thread::sleep(Duration::from_millis(100)); tx.send(()).unwrap() }).unwrap(); }
    drop(pool);
    for _ in 0..5 { if rx.recv_timeout(Duration::from_secs(5)).is_err() { fail("task lost") } }
    done()
}
'''
