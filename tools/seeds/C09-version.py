prop = "C09"
needs = "a request line whose version token is not supported"
breaks = "an unsupported version is answered with 400 instead of 505"
edits = [("src/http/requester.rs", """                                Err(err) => return Err(self.interrupt(
                                    Response::http_version_not_supported(),
                                    Errs::strs("parse request failed!", err)))""", """                                Err(err) => return Err(self.interrupt(
                                    Response::bad_request(),
                                    Errs::strs("parse request failed!", err)))""")]
demo = r'''
fn a(c: &mut Context) { c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let p = serve(s);
    let x = ask(p, b"GET /a HTTP/3.7\r\nHost: h\r\n\r\n");
    if !x.contains(" 505 ") { fail(&x) }
    done()
}
'''
