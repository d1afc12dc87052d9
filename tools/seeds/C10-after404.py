prop = 'C10'
needs = 'a request for an unknown route, and a client waiting for its connection to end'
breaks = 'the connection stays open after a 404'
edits = [('src/server/server.rs', '                log::info!("server request from failed! {}", err.to_string());\n            }\n            true\n', '                log::info!("server request from failed! {}", err.to_string());\n            }\n            !err.to_string().contains("node do not exist")\n')]
demo = r'''
fn main() {
    let p = serve(HttpServer::new());
    let mut c = open(p);
    c.write_all(b"GET /no HTTP/1.1\r\nHost: h\r\n\r\n").unwrap();
    c.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    let mut b = [0u8; 4096];
    loop { match c.read(&mut b) { Ok(0) => break, Ok(_) => {}, Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => break, Err(e) => fail(&e.to_string()) } }
    done()
}
'''
