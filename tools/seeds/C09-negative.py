prop = 'C09'
needs = 'a Content-Length below -1'
breaks = "every negative Content-Length is taken as 'until the end of the stream' instead of being answered with 411"
edits = [('src/http/requester.rs', '                            } else if len == -1 {', '                            } else if len < 0 {')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"ran".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").post("/b", a);
    let p = serve(s);
    let mut c = open(p);
    c.write_all(b"POST /b HTTP/1.1\r\nHost: h\r\nContent-Length: -7\r\n\r\nabc").unwrap();
    c.shutdown(std::net::Shutdown::Write).unwrap();
    let x = answer(&mut c);
    if !x.contains(" 411 ") { fail(&x) }
    done()
}
'''
