prop = 'C12'
needs = 'a response with the same cookie set twice'
breaks = 'a Set-Cookie line equal to an earlier one is left out of the response'
edits = [('src/http/header/header.rs', 'self.add(String::from("Set-Cookie"), cookie.to_string())', 'let text = cookie.to_string(); if !self.vec("Set-Cookie").unwrap_or_default().contains(&text) { self.add(String::from("Set-Cookie"), text) }')]
demo = r'''
fn a(c: &mut Context) {
    for v in ["1", "2", "1"] { c.resp_add_cookie(header::Cookie::new("k".to_string(), v.to_string())); }
    c.resp_body(b"ok".to_vec()); c.response()
}
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let p = serve(s);
    let x = ask(p, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n");
    if x.to_lowercase().matches("set-cookie: ").count() != 3 { fail(&x) }
    done()
}
'''
