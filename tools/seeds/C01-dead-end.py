prop = "C01"
needs = "a parameter segment registered before a literal one under the same prefix, and a path that fails deeper below the parameter"
breaks = "a parameter alternative that turns out to be a dead end hides routes registered after it: they answer 404"
edits = [("src/server/node.rs", """                        None => continue
                    }
                }
            }
        }
        // 如果没有，则返回空""", """                        None => return None
                    }
                }
            }
        }
        // 如果没有，则返回空""")]
demo = r'''
fn a(c: &mut Context) { c.resp_body(b"param".to_vec()); c.response() }
fn b(c: &mut Context) { c.resp_body(b"literal".to_vec()); c.response() }
fn main() {
    let s = HttpServer::new();
    let r = s.router("");
    r.get("/u/:id/x", a);
    r.get("/u/me/y", b);
    let p = serve(s);
    let x = ask(p, b"GET /u/me/y HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("literal") { fail(&x) }
    let x = ask(p, b"GET /u/me/x HTTP/1.1\r\nHost: h\r\n\r\n");
    if !x.ends_with("param") { fail(&x) }
    done()
}
'''
