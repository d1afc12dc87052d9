prop = 'C06'
needs = 'a worker of a pool of three or more that panics, one of the others busy while another becomes free'
breaks = 'replacing a worker mixes up the order of the others: a task goes to a busy worker while another is idle'
edits = [('src/utils/concurrent/thread_pool.rs', '                        tsw.remove(counter);\n', '                        tsw.swap_remove(counter);\n')]
demo = r'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let pool = starry::utils::concurrent::ThreadPool::new_custom("p".into(), 3, 0, 100).unwrap();
    for round in 0..6 {
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        pool.execute(move || { let _t = tx; panic!("x") }).unwrap();
        let _ = rx.recv();
        std::thread::sleep(Duration::from_millis(50));
        // 两个线程被占用，其余任务由第三个线程执行
        let (hold_tx, hold_rx) = std::sync::mpsc::channel::<()>();
        let hold = std::sync::Arc::new(std::sync::Mutex::new(hold_rx));
        let h = hold.clone();
        pool.execute(move || { let _ = h.lock().unwrap().recv(); }).unwrap();
        for k in 0..8 {
            let (tx, rx) = std::sync::mpsc::channel();
            pool.execute(move || tx.send(()).unwrap()).unwrap();
            if rx.recv_timeout(Duration::from_secs(3)).is_err() { fail(&format!("round {} task {} waits while workers are idle", round, k)) }
            std::thread::sleep(Duration::from_millis(5));
        }
        drop(hold_tx);
        std::thread::sleep(Duration::from_millis(50));
    }
    done()
}
'''
