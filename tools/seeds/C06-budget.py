prop = 'C06'
needs = 'more panics than there are workers in the pool, times sixteen'
breaks = 'after many panics dead workers are no longer replaced'
edits = [("src/utils/concurrent/thread_pool.rs", """            if thread::panicking() {
                self.pool_state.panic_count.fetch_add(1);
            }
""", """            if thread::panicking() && self.pool_state.panic_count.fetch_add(1) >= self.pool_state.size * 16 {
                return;
            }
""")]
demo = r'''
use starry::utils::concurrent::ThreadPool;
use std::sync::mpsc::channel;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let p = ThreadPool::builder().pool_size(2).task_count(1000).create().unwrap();
    for _ in 0..100 { p.execute(|| panic!("planned")).unwrap(); }
    let (t, r) = channel();
    p.execute(move || t.send(1).unwrap()).unwrap();
    if r.recv_timeout(Duration::from_secs(10)).is_err() { fail("the task did not run") }
    done()
}
'''
