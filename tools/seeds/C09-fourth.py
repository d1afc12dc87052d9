prop = 'C09'
needs = 'a request line with a fourth word or a space at its end'
breaks = 'a request line with more than three words is accepted'
edits = [('src/http/requester.rs', '                            _ => return Err(self.interrupt(\n                                Response::bad_request(),\n                                Errs::str("parse request failed, does not understand the syntax of the request while step2!")))\n', '                            _ => {}\n')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"ran".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let p = serve(s);
    let x = ask(p, b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("ran") { fail(&x) }
    let x = ask(p, b"GET /a HTTP/1.1 \r\nHost: h\r\n\r\n");
    if !x.contains(" 400 ") { fail(&x) }
    done()
}
'''
