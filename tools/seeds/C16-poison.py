prop = 'C16'
needs = 'a handler that panics while others are served, or a slow handler on another connection'
breaks = 'handlers run while the route table is locked for writing: they block each other, and a panic makes every later request fail'
edits = [('src/server/server.rs', "            if !context.executed {\n                node.handler()(context.as_mut())\n            }", "            if !context.executed {\n                let routes = root.write().unwrap();\n                node.handler()(context.as_mut());\n                drop(routes)\n            }")]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn b(_: &mut Context) { panic!("as planned") }
fn main() {
    let s = HttpServer::new();
    let r = s.router("");
    r.get("/a", a);
    r.get("/b", b);
    let p = serve(s);
    ask(p, b"GET /b HTTP/1.1\r\nHost: h\r\n\r\n");
    let x = ask(p, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("ok") { fail(&x) }
    done()
}
'''
