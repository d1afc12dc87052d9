prop = 'C19'
needs = 'a Max-Age beyond 2^31'
breaks = 'Max-Age values that need more than 32 bits are refused when read back'
edits = [('src/http/header/cookie.rs', '                                Some(match parts[1].parse::<isize>() {\n                                    Ok(src) => src,', '                                Some(match parts[1].parse::<i32>() {\n                                    Ok(src) => src as isize,')]
demo = r'''
fn main() {
    let c = starry::header::CookieBuilder::new().name_value("a".into(), "b".into()).max_age(4000000000).build();
    let mut r = Response::success();
    r.add_set_cookie(c.clone());
    match r.read_set_cookies() { Ok(v) if v == vec![c] => done(), x => fail(&format!("{:?}", x)) }
}
'''
