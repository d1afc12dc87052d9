prop = "C05"
needs = "a queue of at least eight places filled to the last one while all workers are busy"
breaks = "a pool rejects tasks although fewer than task_count are waiting"
edits = [("src/utils/concurrent/thread_pool.rs", "let task_queue = Arc::new(ArrayQueue::new(task_count));", "let task_queue = Arc::new(ArrayQueue::new(if task_count < 64 { task_count - task_count / 8 } else { task_count }));")]
demo = r'''
use starry::utils::concurrent::ThreadPool;
fn main() {
    let p = ThreadPool::new_custom("d".into(), 1, 2_000_000, 16).unwrap();
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let (gx, gr) = std::sync::mpsc::channel::<()>();
    p.execute(move || { let _ = tx.send(()); let _ = gr.recv(); }).unwrap();
    rx.recv_timeout(Duration::from_secs(5)).unwrap();
    for i in 0..16 { if p.execute(|| {}).is_err() { fail(&format!("task {} rejected", i)) } }
    drop(gx);
    done()
}
'''
