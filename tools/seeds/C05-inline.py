prop = 'C05'
needs = 'a submission while every worker is busy and the queue is full'
breaks = 'a task that finds the queue full is run by the submitting thread, beyond the configured number and outside the pool'
edits = [('src/utils/concurrent/thread_pool.rs', '                Err(_) => {\n                    return Err(Errs::str(\n                        "the task queue is full, the element can not push into!",\n                    ))\n                }\n                _ => {\n                    self.tx', '                Err(task) => {\n                    if self.pool_state.size > 1 {\n                        task.run();\n                        return Ok(());\n                    }\n                    return Err(Errs::str(\n                        "the task queue is full, the element can not push into!",\n                    ))\n                }\n                _ => {\n                    self.tx')]
demo = r'''
use starry::utils::concurrent::ThreadPool;
fn main() {
    let p = ThreadPool::builder().pool_size(2).task_count(1).name_prefix("mine-").create().unwrap();
    let (t, r) = std::sync::mpsc::channel();
    for _ in 0..2 { p.execute(|| std::thread::sleep(Duration::from_millis(800))).unwrap(); }
    std::thread::sleep(Duration::from_millis(100));
    for _ in 0..3 { let t = t.clone(); let _ = p.execute(move || { t.send(std::thread::current().name().unwrap_or("").to_string()).unwrap() }); }
    drop(t);
    while let Ok(n) = r.recv_timeout(Duration::from_secs(5)) { if !n.starts_with("mine-") { fail(&n) } }
    done()
}
'''
