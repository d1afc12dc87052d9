prop = 'C20'
needs = 'deleting from a name with several values'
breaks = 'deleting a name with several values drops only its first value'
edits = [('src/http/values.rs', '        match self.0.remove(k) {\n            Some(src) => Some(src[0].clone()),\n            None => None\n        }', '        match self.0.get_mut(k) {\n            Some(src) if src.len() > 1 => Some(src.remove(0)),\n            Some(_) => self.0.remove(k).map(|src| src[0].clone()),\n            None => None\n        }')]
demo = r'''
fn main() {
    let mut v = Values::new();
    v.add_str("a", "1"); v.add_str("a", "2");
    v.del("a");
    if v.contain("a") { fail("still there") }
    done()
}
'''
