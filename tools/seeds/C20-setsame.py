prop = 'C20'
needs = 'setting a name with several values to its first value'
breaks = 'the other values of the name stay'
edits = [('src/http/values.rs', '        self.0.insert(k, vec![v]);\n    }\n\n    ', '        if self.get(k.as_str()).map_or(true, |old| old != v) {\n            self.0.insert(k, vec![v]);\n        }\n    }\n\n    ')]
demo = r'''
fn main() {
    let mut v = Values::new();
    v.add_str("a", "1"); v.add_str("a", "2");
    v.set_str("a", "1");
    if v.vec("a") != Some(vec!["1".to_string()]) { fail("several values") }
    done()
}
'''
