prop = 'C06'
needs = 'a pool with a large stack, a panic, and then a task that needs that stack'
breaks = 'workers that replace panicked ones have the usual stack instead of the configured one'
edits = [('src/utils/concurrent/thread_pool.rs', '            pool_state.stack_size,\n            move ||', '            if pool_state.panic_count.load() == 0 { pool_state.stack_size } else { 0 },\n            move ||')]
demo = r'''
use starry::utils::concurrent::ThreadPool;
use std::sync::mpsc::channel;
fn deep(n: u64) -> u64 { let a = [n; 512]; std::hint::black_box(&a); if n == 0 { 0 } else { deep(n - 1) + a[(n % 512) as usize] } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = ThreadPool::builder();
    b.pool_size(1).stack_size(256 << 20);
    let p = b.create().unwrap();
    p.execute(|| panic!("planned")).unwrap();
    let (t, r) = channel();
    p.execute(move || t.send(deep(10_000)).unwrap()).unwrap();
    if r.recv_timeout(Duration::from_secs(20)).is_err() { fail("the task did not run") }
    done()
}
'''
