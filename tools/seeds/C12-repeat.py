prop = 'C12'
needs = 'a header added twice in a row with the same value'
breaks = 'consecutive equal values of a header are sent once'
edits = [('src/http/requester.rs', '        for (key, values) in response.header.map() {\n            for value in values {\n                self.write(key.as_bytes())?;', '        for (key, mut values) in response.header.map() {\n            values.dedup();\n            for value in values {\n                self.write(key.as_bytes())?;')]
demo = r'''
fn a(c: &mut Context) { c.resp_add_header_str("X-A", "1"); c.resp_add_header_str("X-A", "1"); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let p = serve(s);
    let x = ask(p, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n");
    if x.matches("X-A: 1").count() != 2 { fail(&x) }
    done()
}
'''
