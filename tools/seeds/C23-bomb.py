prop = 'C23'
needs = 'data of more than 4 MiB'
breaks = 'decompressing deflate data stops after 4 MiB and reports what it has as the whole'
edits = [('src/utils/compress.rs', '        let mut d = DeflateDecoder::new(data);\n', '        let mut d = DeflateDecoder::new(data).take(4 << 20);\n')]
demo = r'''
use starry::utils::Compress;
fn main() {
    // stored blocks
    let mut z = vec![];
    let mut a: Vec<u8> = vec![];
    for i in 0..80u8 {
        z.push(if i == 79 { 1 } else { 0 });
        z.extend_from_slice(&[0xff, 0xff, 0, 0]);
        let b: Vec<u8> = (0..65535u32).map(|k| (k / 7) as u8 ^ i).collect();
        z.extend_from_slice(&b);
        a.extend_from_slice(&b);
    }
    let b = Compress::un_deflate(&z).unwrap();
    if a != b { fail(&format!("{} {}", a.len(), b.len())) }
    done()
}
'''
