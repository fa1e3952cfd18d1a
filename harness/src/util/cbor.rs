//! A CBOR writer of our own, independent of the codecs under test.

pub fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes());
        }
        0x10000..=0xffff_ffff => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes());
        }
        _ => {
            out.push(m | 27);
            out.extend(n.to_be_bytes());
        }
    }
}

/// A head with a chosen (possibly not minimal) width: 0 immediate, 1, 2, 4 or 8 bytes.
pub fn head_w(out: &mut Vec<u8>, major: u8, n: u64, width: u8) {
    let m = major << 5;
    match width {
        1 if n <= 0xff => out.extend([m | 24, n as u8]),
        2 if n <= 0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes());
        }
        4 if n <= 0xffff_ffff => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes());
        }
        8 => {
            out.push(m | 27);
            out.extend(n.to_be_bytes());
        }
        _ => head(out, major, n),
    }
}

pub fn bytes(out: &mut Vec<u8>, b: &[u8]) {
    head(out, 2, b.len() as u64);
    out.extend(b);
}
pub fn text(out: &mut Vec<u8>, s: &str) {
    head(out, 3, s.len() as u64);
    out.extend(s.as_bytes());
}
pub fn array(out: &mut Vec<u8>, n: usize) {
    head(out, 4, n as u64);
}
pub fn map(out: &mut Vec<u8>, n: usize) {
    head(out, 5, n as u64);
}
pub fn self_describe(out: &mut Vec<u8>) {
    out.extend([0xd9, 0xd9, 0xf7]);
}
