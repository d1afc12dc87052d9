prop = 'C20'
needs = 'a name with several values, counted'
breaks = 'the count of a value map counts values instead of names'
edits = [('src/http/values.rs', '    pub fn len(&self) -> usize {\n        self.0.len()\n    }\n\n    pub fn map(&self) -> HashMap<String, Vec<String>> {', '    pub fn len(&self) -> usize {\n        self.0.values().map(|v| v.len()).sum()\n    }\n\n    pub fn map(&self) -> HashMap<String, Vec<String>> {')]
demo = r'''
fn main() {
    let mut v = Values::new();
    v.add_str("a", "1"); v.add_str("a", "2");
    if v.len() != 1 { fail("len") }
    done()
}
'''
