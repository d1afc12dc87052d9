prop = 'C09'
needs = 'a request of HTTP/1.0 without a Host'
breaks = 'a request of version 1.0 that lacks a Host is served instead of being answered with 417'
edits = [('src/http/requester.rs', '                None => return Err(self.interrupt(\n                    Response::expectation_failed(),\n                    Errs::str("host not found in header!")))\n            }', '                None => if self.request.version().ne("HTTP/1.0") {\n                    return Err(self.interrupt(\n                        Response::expectation_failed(),\n                        Errs::str("host not found in header!")))\n                }\n            }')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"ok".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let p = serve(s);
    let x = ask(p, b"GET /a HTTP/1.1\r\n\r\n");
    if !x.contains(" 417 ") { fail(&x) }
    let x = ask(p, b"GET /a HTTP/1.0\r\n\r\n");
    if !x.contains(" 417 ") { fail(&x) }
    done()
}
'''
