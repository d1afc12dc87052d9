prop = 'C15'
needs = 'a file whose content has a line longer than 32 KiB'
breaks = 'the rest of a line longer than 32 KiB is cut from an uploaded file'
edits = [('src/http/requester.rs', '                                    step = 2\n                                } else {\n                                    tmp.push(b);\n', '                                    step = 2\n                                } else {\n                                    tmp.truncate(32768); tmp.push(b);\n')]
demo = r'''
fn a(c: &mut Context) {
    let f = c.req_form_file("f").unwrap().unwrap();
    let n = f.content().len(); c.resp_body(format!("n={}", n).into_bytes()); c.response()
}
fn main() {
    let s = HttpServer::new();
    s.router("").post("/a", a);
    let p = serve(s);
    for n in [100usize, 40000] {
        let body = format!("--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"x\"\r\n\r\n{}\r\n--B--\r\n", "y".repeat(n));
        let x = ask(p, format!("POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: {}\r\n\r\n{}", body.len(), body).as_bytes());
        if !x.ends_with(&format!("n={}", n)) { fail(&x) }
    }
    done()
}
'''
