prop = 'C25'
needs = 'a handler that itself fetches from a server while its own client waits in the same process'
breaks = 'fetches exclude each other in a process, so a handler that fetches on behalf of a fetch waits for ever'
edits = [('src/client/client.rs', '''fn exec(request: Request) -> StarryResult<Response> {
    let mut client = HttpClient::new(request);
    client.send()''', '''fn exec(request: Request) -> StarryResult<Response> {
    // 同一时间仅允许一次请求，避免stream池竞争
    let _map = CLIENT_STREAM_MAP.write().unwrap_or_else(|err| err.into_inner());
    HttpClient::new(request).send()''')]
demo = r'''
static PORT: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);
fn inner(c: &mut Context) { c.resp_body(b"inner".to_vec()); c.response() }
fn outer(c: &mut Context) {
    let mut r = HttpClient::get(&format!("http://127.0.0.1:{}/inner", PORT.load(std::sync::atomic::Ordering::SeqCst))).unwrap();
    let b = r.body();
    c.resp_body(b);
    c.response()
}
fn main() {
    let mut s = HttpServer::new();
    s.set_pool_size(4);
    s.router("").get("/inner", inner);
    s.router("").get("/outer", outer);
    let p = serve(s);
    PORT.store(p, std::sync::atomic::Ordering::SeqCst);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let r = HttpClient::get(&format!("http://127.0.0.1:{}/outer", p)).map(|mut r| r.body()); let _ = tx.send(r.ok()); });
    match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(Some(b)) if b == b"inner" => done(),
        x => fail(&format!("{:?}", x)),
    }
}
'''
