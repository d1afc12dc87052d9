prop = 'C07'
needs = 'the last handle of a pool dropped by one of its own tasks'
breaks = 'the threads of the pool never end'
edits = [('src/utils/concurrent/thread_pool.rs', '    fn drop(&mut self) {\n        // 通知检查线程自身持有一个副本', '    fn drop(&mut self) {\n        // 池内线程不关闭线程池\n        if std::thread::current().name().unwrap_or("").starts_with(self.pool_state.name_prefix.as_str()) && !self.pool_state.name_prefix.is_empty()  {\n            return;\n        }\n        // 通知检查线程自身持有一个副本'), ('src/utils/concurrent/thread_pool.rs', '        self.pool_state.count.fetch_add(1);\n        Self {', '        let state = &self.pool_state;\n        state.count.fetch_add(1);\n        Self {')]
demo = r'''
use starry::utils::concurrent::ThreadPool;
fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").unwrap().filter(|e| std::fs::read_to_string(e.as_ref().unwrap().path().join("comm")).unwrap_or_default().starts_with("inner-")).count()
}
fn main() {
    let p = ThreadPool::builder().pool_size(2).task_count(4).name_prefix("inner-").create().unwrap();
    let q = p.clone();
    p.execute(move || { std::thread::sleep(Duration::from_millis(300)); drop(q) }).unwrap();
    drop(p);
    for _ in 0..100 { std::thread::sleep(Duration::from_millis(50)); if threads() == 0 { done() } }
    fail("threads are left")
}
'''
