prop = 'C27'
needs = 'more connections at once than the process has descriptors for'
breaks = 'a server that could not accept a connection for want of descriptors stops serving for good'
edits = [('src/server/server.rs', '                Err(err) => log::error!("tcp listener failed! {}", err)\n', '                Err(err) => return Err(Errs::strs("tcp listener failed!", err))\n')]
demo = r'''
fn quick(c: &mut Context) { c.resp_body(b"quick".to_vec()); c.response() }
fn main() {
    if std::env::args().nth(1).is_none() {
        let me = std::env::current_exe().unwrap();
        let s = std::process::Command::new("sh").arg("-c").arg("ulimit -Sn 48; exec \"$0\" child").arg(me).status().unwrap();
        std::process::exit(if s.success() { 0 } else { 1 });
    }
    let mut s = HttpServer::new();
    s.set_pool_size(2);
    s.router("").get("/quick", quick);
    let p = serve(s);
    // clients in a process of their own
    let mut k = std::process::Command::new("bash").arg("-c").arg(format!("ulimit -Sn 1000; for i in $(seq 1 90); do eval \"exec $((i+100))<>/dev/tcp/127.0.0.1/{}\" 2>/dev/null; done; sleep 1", p)).spawn().unwrap();
    std::thread::sleep(Duration::from_millis(600));
    k.wait().unwrap();
    std::thread::sleep(Duration::from_millis(500));
    let mut c = match std::net::TcpStream::connect(("127.0.0.1", p)) { Ok(c) => c, Err(_) => fail("nobody listens any more") };
    c.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    c.write_all(b"GET /quick HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n").unwrap();
    let mut t = vec![];
    let _ = c.read_to_end(&mut t);
    if !t.ends_with(b"quick") { fail("not served after the shortage") }
    done()
}
'''
