//! C17: the bucket of a goal, and what bucket filters select.
use super::base::*;
use crate::goal_partition::{goal_bucket, GoalBucketFilter, GOAL_BUCKET_COUNT};

/// SHA-256, from its definition
fn sha256(m: &[u8]) -> [u8; 32] {
    // fractional parts of roots of the first primes, computed with integers
    let primes: Vec<u128> = (2u128..).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
    fn root(n: u128, k: u32) -> u128 {
        let (mut lo, mut hi) = (0u128, 1u128 << 42);
        while lo < hi {
            let mid = (lo + hi + 1) / 2;
            let ok = if k == 2 { mid * mid <= n << 64 } else { mid.checked_mul(mid).and_then(|x| x.checked_mul(mid)).map_or(false, |x| x <= n << 96) };
            if ok { lo = mid } else { hi = mid - 1 }
        }
        lo
    }
    let k: Vec<u32> = primes.iter().map(|p| root(*p, 3) as u32).collect();
    let mut h: Vec<u32> = primes[..8].iter().map(|p| root(*p, 2) as u32).collect();
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend(((m.len() as u64) * 8).to_be_bytes());
    for block in d.chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|b| b.iter().fold(0u32, |a, x| a << 8 | *x as u32)).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut s = h.clone();
        for i in 0..64 {
            let s1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let maj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            let t2 = s0.wrapping_add(maj);
            s = vec![t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
fn bucket(module: &str, goal: &str) -> u8 {
    let mut m = module.as_bytes().to_vec();
    m.push(9);
    m.extend(goal.as_bytes());
    let first = sha256(&m)[..8].iter().fold(0u128, |a, b| a << 8 | *b as u128);
    (first % 100) as u8
}

fn white(c: char) -> bool {
    matches!(c as u32, 9..=13 | 32 | 0x85 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x2028 | 0x2029 | 0x202F | 0x205F | 0x3000)
}
fn trimmed(s: &[char]) -> &[char] {
    let mut s = s;
    while !s.is_empty() && white(s[0]) {
        s = &s[1..];
    }
    while !s.is_empty() && white(s[s.len() - 1]) {
        s = &s[..s.len() - 1];
    }
    s
}
fn number(s: &[char]) -> Option<u8> {
    let s = trimmed(s);
    let s = if !s.is_empty() && s[0] == '+' { &s[1..] } else { s };
    if s.is_empty() {
        return None;
    }
    let mut n = 0u32;
    for c in s {
        if !('0'..='9').contains(c) {
            return None;
        }
        n = (n * 10 + (*c as u32 - 48)).min(10000);
    }
    if n < 100 { Some(n as u8) } else { None }
}
fn ranges(text: &str) -> Option<Vec<(u8, u8)>> {
    let all: Vec<char> = text.chars().collect();
    let all = trimmed(&all);
    if all.is_empty() {
        return None;
    }
    let mut out = vec![];
    for part in all.split(|c| *c == ',') {
        let part = trimmed(part);
        if part.is_empty() {
            return None;
        }
        let (a, b) = match part.iter().position(|c| *c == '-') {
            Some(k) => (number(&part[..k])?, number(&part[k + 1..])?),
            None => (number(part)?, number(part)?),
        };
        if a > b {
            return None;
        }
        out.push((a, b));
    }
    Some(out)
}

fn piece(r: &mut Rng) -> String {
    match r.below(20) {
        0..=8 => format!("{}", r.below(104)),
        9 => format!("{:02}", r.below(10)),
        10 => format!("{:03}", r.below(120)),
        11 => format!("+{}", r.below(101)),
        12 => format!("{}", 90 + r.below(40)),
        13 => format!("{}", 250 + r.below(20)),
        14 => "".to_string(),
        15 => r.pick(&["x", "1x", "٣", "1.5", "0x1", "-", "+", "--", "１"]).to_string(),
        _ => format!("{}", r.pick(&[0, 1, 9, 10, 50, 98, 99])),
    }
}
fn pad(r: &mut Rng) -> String {
    if r.chance(5, 6) {
        return String::new();
    }
    r.pick(&[" ", "\t", "  ", "\u{a0}", "\u{3000}", "\n", "\u{200b}", "\u{feff}"]).to_string()
}
fn filter_text(r: &mut Rng, wild: bool) -> String {
    let mut s = String::new();
    let n = 1 + r.below(5);
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        if !wild {
            let (a, b) = (r.below(100), r.below(100));
            s += &if r.chance(1, 3) { format!("{}", a) } else { format!("{}-{}", a.min(b), a.max(b)) };
            continue;
        }
        s += &pad(r);
        s += &piece(r);
        s += &pad(r);
        if r.chance(1, 2) {
            s.push('-');
            s += &pad(r);
            s += &piece(r);
            s += &pad(r);
        }
        if r.chance(1, 30) {
            s.push(*r.pick(&['-', ',', ';', ' ']));
        }
    }
    s
}
fn name(r: &mut Rng) -> String {
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 40 + r.below(60), _ => r.below(24) };
    (0..n).map(|_| *r.pick(&['a', 'b', 'n', '_', '.', '0', '7', '\t', ' ', 'é', '∀', '𝔸', 'Z', '\n', ':'])).collect()
}

pub fn run(b: &mut Bench) {
    let r = &mut Rng::new(b.seed);
    b.case("buckets.count", &0, true, |_| want("the number of buckets", GOAL_BUCKET_COUNT, 100));
    for n in 0u8..100 {
        b.case("buckets.single", &n, true, |n| {
            let f = GoalBucketFilter::single(*n);
            want("single", (0..=255u8).filter(|x| f.contains(*x)).collect::<Vec<_>>(), vec![*n])?;
            want("displayed", f.to_string(), format!("{}", n))
        });
    }
    for n in [100u8, 101, 200, 255] {
        b.case("buckets.single", &n, true, |n| ensure("a bucket that does not exist is refused", aborts(|| GoalBucketFilter::single(*n)).is_none()));
    }
    let mut i = 0;
    while b.time_left() && i < 200000 {
        i += 1;
        if i % 8 == 0 {
            let x = (name(r), name(r));
            b.case("buckets.bucket", &x, true, |x| {
                let g = goal_bucket(&x.0, &x.1);
                want("the bucket", g, bucket(&x.0, &x.1))?;
                let in_single: Vec<u8> = (0..100).filter(|n| GoalBucketFilter::single(*n).contains(g)).collect();
                want("the single buckets it is in", in_single, vec![g])
            });
        }
        let wild = i % 3 != 0;
        let text = filter_text(r, wild);
        let expected = ranges(&text);
        b.case("buckets.filter", &text, expected.is_some(), |t| {
            let got = t.parse::<GoalBucketFilter>();
            match (&expected, got) {
                (None, Ok(f)) => Err(format!("accepted, as {}", f)),
                (Some(e), Err(m)) => Err(format!("refused ({}), names the ranges {:?}", m, e)),
                (None, Err(_)) => Ok(()),
                (Some(e), Ok(f)) => {
                    let sel: Vec<u8> = (0..=255u8).filter(|x| f.contains(*x)).collect();
                    want("selected buckets", sel, (0..=255u8).filter(|x| e.iter().any(|(a, b)| a <= x && x <= b)).collect::<Vec<_>>())?;
                    let shown: Vec<String> = e.iter().map(|(a, b)| if a == b { format!("{}", a) } else { format!("{}-{}", a, b) }).collect();
                    want("displayed", f.to_string(), shown.join(","))?;
                    want("read back", f.to_string().parse::<GoalBucketFilter>().ok(), Some(f))
                }
            }
        });
    }
}
