prop = 'C12'
needs = 'a handler that sets the status twice'
breaks = 'the first error status a handler sets cannot be changed any more'
edits = [('src/server/context.rs', '        self.response.status(status)\n', '        if self.response.status.eq(&Status::OK) || status.code() >= 400 {\n            self.response.status(status)\n        }\n')]
demo = r'''
fn a(c: &mut Context) { c.resp_status(Status::CREATED); c.resp_status(Status::ACCEPTED); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let p = serve(s);
    let x = ask(p, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.contains(" 202 ") { fail(&x) }
    done()
}
'''
