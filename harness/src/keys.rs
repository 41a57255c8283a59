//! Key families. Each family is an infinite supply of keys arranged so that trees reach
//! interesting shapes quickly (same-slice groups, layers, dense neighbours).

use crate::rng::Rng;

pub type Key = Vec<u8>;

pub const FAMILIES: &[&str] = &["int", "short", "zeros", "deep8", "deep16", "deepint", "mixed", "suffix", "text"];

/// Key number `i` (any u32) of a family; ascending in `i`, and with room between numbers.
pub fn key(fam: &str, i: u32) -> Key {
    let be = |x: u64| x.to_be_bytes().to_vec();
    match fam {
        // eight-byte integers, one layer
        "int" => be(u64::from(i) * 0x0000_0100_0000_0010),
        // 1..3 byte inline keys
        "short" => {
            let b = (i + 1).to_be_bytes();
            match i % 3 {
                0 => b[2..4].to_vec(),
                1 => b[1..4].to_vec(),
                _ => vec![(i / 3 % 250) as u8, (i / 750) as u8 + 1, 7, 7, (i % 251) as u8],
            }
        }
        // groups that share a slice and differ in length / trailing zeros
        "zeros" => {
            let g = i / 10;
            let mut k = vec![(g >> 8) as u8, (g & 255) as u8];
            match i % 10 {
                n @ 0..=6 => k.extend(std::iter::repeat_n(0, n as usize)),
                7 => {
                    k.extend([0; 6]);
                    k.push(0);
                }
                8 => {
                    k.extend([0; 6]);
                    k.push(1);
                }
                _ => {
                    k.extend([0; 6]);
                    k.extend([0, 0, 0]);
                }
            }
            k
        }
        // one shared slice, then short or long rests: everything lands in one sublayer
        "deep8" => {
            let mut k = b"prefix00".to_vec();
            k.extend((i + 1).to_be_bytes());
            if i % 2 == 1 {
                k.extend([b'x'; 7]);
            }
            k
        }
        "deep16" => {
            let mut k = b"prefix00PREFIX11".to_vec();
            let b = (i + 1).to_be_bytes();
            if i % 3 == 0 { k.extend(&b[2..]) } else { k.extend(&b) }
            if i % 5 == 4 {
                k.extend(b"-tail-of-some-length");
            }
            k
        }
        "deepint" => {
            let mut k = b"AAAAAAAA".to_vec();
            k.extend(be(u64::from(i) * 0x0000_0100_0000_0010));
            k
        }
        // several slices, each with inline key, exact eight, nine and sixteen bytes
        "mixed" => {
            let g = i / 6;
            let mut k = format!("m{g:06}").into_bytes();
            match i % 6 {
                0 => {}
                1 => k.push(0),
                2 => k.extend(b"\0\0"),
                3 => k.push(b'a'),
                4 => k.extend(b"a\0"),
                _ => k.extend(b"abcdefghi"),
            }
            k
        }
        // distinct slices, all with suffixes of varying length
        "suffix" => {
            let mut k = be(u64::from(i) * 0x0000_0100_0000_0010);
            let n = 1 + (i as usize * 7) % 40;
            k.extend((0..n).map(|j| (j as u8).wrapping_mul(3) ^ (i as u8)));
            k
        }
        _ => {
            let mut k = format!("user/{:03}/item/{:03}", i / 7 % 1000, i % 7).into_bytes();
            if i % 4 == 0 {
                k.extend(b"/attributes/long-name");
            }
            k
        }
    }
}

/// A key that collides with `k` in its first slice (or is related by prefix) but differs.
pub fn relative(k: &[u8], r: &mut Rng) -> Key {
    let mut x = k.to_vec();
    match r.below(9) {
        0 => x.push(0),
        1 => x.push(r.below(256) as u8),
        2 => {
            let n = 1 + r.below(9);
            for _ in 0..n {
                x.push(b'a' + r.below(3) as u8);
            }
        }
        3 if x.len() > 1 => {
            x.pop();
        }
        4 if x.len() > 8 => {
            // differs in the last byte only
            let l = x.len() - 1;
            x[l] ^= 1 + r.below(3) as u8;
        }
        5 if x.len() > 9 => {
            // differs in one byte after the first slice
            let at = 8 + r.below(x.len() - 8);
            x[at] ^= 1;
        }
        6 if x.len() > 8 => {
            let m = 8 * (1 + r.below(x.len() / 8));
            x.truncate(m.min(x.len()));
        }
        7 => {
            // pad to a multiple of eight and go on
            while x.len() % 8 != 0 {
                x.push(0);
            }
            x.push(b'z');
        }
        _ => {
            x.resize(x.len().max(8), 0);
            x.extend(b"-more-bytes-here"[..1 + r.below(16)].iter());
        }
    }
    x.truncate(256);
    x
}

/// A free-form key, biased to boundaries.
pub fn wild(r: &mut Rng) -> Key {
    let n = match r.below(8) {
        0 => r.below(3),
        1 => 7 + r.below(4),
        2 => 15 + r.below(4),
        3 => 8 * r.below(33),
        4 => r.below(257),
        5 => 250 + r.below(7),
        _ => r.below(20),
    }
    .min(256);
    let alpha = match r.below(4) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => 256,
    };
    (0..n).map(|_| if alpha == 256 { r.below(256) as u8 } else { [0u8, 1, 255][r.below(alpha)] }).collect()
}
