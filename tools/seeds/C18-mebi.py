prop = 'C18'
needs = 'a response with a body of more than a mebibyte'
breaks = 'HttpClient::get cuts bodies at 1 MiB without an error'
edits = [('src/http/responser.rs', '                        self.response.set_body(bw.into_inner());\n                    } else if len == 0 {', '                        let mut body = bw.into_inner();\n                        body.truncate(1 << 20);\n                        self.response.set_body(body);\n                    } else if len == 0 {')]
demo = r'''
fn a(c: &mut Context) { c.resp_body(vec![b'a'; 1_200_000]); c.response() }
fn main() {
    let s = HttpServer::new();
    s.router("").get("/a", a);
    let p = serve(s);
    match HttpClient::get(&format!("http://127.0.0.1:{}/a", p)) {
        Ok(mut r) => if r.body().len() != 1_200_000 { fail(&r.body().len().to_string()) },
        Err(e) => fail(&e.to_string()),
    }
    done()
}
'''
