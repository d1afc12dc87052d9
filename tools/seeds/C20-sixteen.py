prop = 'C20'
needs = 'a key that is given more than 16 values'
breaks = 'the 17th and later values of a key are dropped'
edits = [('src/http/values.rs', '                res.push(v);\n', '                if res.len() < 16 {\n                    res.push(v);\n                }\n')]
demo = r'''
fn main() {
    let mut h = Header::new();
    for i in 0..20 { h.add("k".to_string(), format!("v{}", i)); }
    let n = h.map().get("k").map(|v| v.len()).unwrap_or(0);
    if n != 20 { fail(&n.to_string()) }
    done()
}
'''
