prop = 'C19'
needs = 'a Cookie header with more than 16 cookies'
breaks = 'the 17th and later cookies of a header are lost'
edits = [('src/http/header/cookie.rs', '                    for v in res {\n', '                    for v in res.take(16) {\n')]
demo = r'''
fn a(c: &mut Context) { let n = c.req_cookies().len(); c.resp_body(n.to_string().into_bytes()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let p = serve(s);
    let k: Vec<String> = (0..20).map(|i| format!("k{}=v{}", i, i)).collect();
    let x = ask(p, format!("GET /a HTTP/1.1\r\nHost: h\r\nCookie: {}\r\n\r\n", k.join("; ")).as_bytes());
    if !x.ends_with("\r\n20") { fail(&x) }
    done()
}
'''
