prop = 'C25'
needs = 'a handler that panics after it has answered'
breaks = 'the response is only sent when the handler returns, so that the answer of a handler failing later is lost'
edits = [('src/server/context.rs', '''        self.executed = true;
        match self.requester.response(self.response.clone()) {''', '''        self.executed = true;
    }

    /// 处理完成后统一输出响应
    pub(crate) fn finish(&mut self) {
        if !self.executed {
            return;
        }
        match self.requester.response(self.response.clone()) {'''),
 ('src/server/server.rs', '''                node.handler()(context.as_mut())
            }
            close''', '''                node.handler()(context.as_mut());
            }
            context.finish();
            close''')]
demo = r'''
fn late(c: &mut Context) { c.resp_body(b"said".to_vec()); c.response(); panic!("later") }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut s = HttpServer::new();
    s.set_pool_size(4);
    s.router("").get("/late", late);
    let p = serve(s);
    match HttpClient::get(&format!("http://127.0.0.1:{}/late", p)).map(|mut r| r.body()) {
        Ok(b) if b == b"said" => done(),
        Ok(b) => fail(&format!("{:?}", b)),
        Err(_) => fail("no response"),
    }
}
'''
