prop = 'C10'
needs = 'a connection that is kept alive for more than a hundred requests'
breaks = 'the connection is closed although the requests asked for it to be kept'
edits = [('src/server/server.rs', '    // 当前线程开启循环读取stream操作\n    loop {\n', '    // 当前线程开启循环读取stream操作\n    for _ in 0..100 {\n')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let p = serve(s);
    let mut c = open(p);
    for i in 0..120 {
        let _ = c.write_all(b"GET /a HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n");
        let x = answer(&mut c);
        if !x.ends_with("ok") { fail(&format!("{}: {}", i, x)) }
    }
    done()
}
'''
