//! Sizes of long messages (around the limits of narrow counters).
use crate::Ctx;

/// numbers of packets
pub fn packets(ctx: &Ctx, huge: bool) -> Vec<usize> {
    let mut v: Vec<usize> = vec![63, 64, 65, 127, 128, 129, 130, 170, 171, 255, 256, 257, 258, 300];
    if ctx.thorough() {
        v.extend([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769]);
    }
    if ctx.thorough() {
        v.extend([65535, 65536]);
    }
    if huge || ctx.thorough() {
        v.push(65537);
    }
    v
}
/// numbers of payload bytes
pub fn bytes(ctx: &Ctx, huge: bool) -> Vec<usize> {
    let mut v: Vec<usize> = vec![126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 511, 512, 513, 767, 768, 769, 1024, 1500, 1536, 1542, 3328, 3341];
    if ctx.thorough() {
        v.extend([2048, 4095, 4096, 4097, 8191, 16383, 16384, 16385, 32766, 32767, 32768, 32769]);
    }
    if ctx.thorough() {
        v.extend([65533, 65534, 65535, 65536, 65537]);
    }
    if huge || ctx.thorough() {
        v.push(65538);
    }
    v
}
/// positions worth a look among n
pub fn spots(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0usize, 1, 2, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 4095, 4096, 32767, 32768, 65535, 65536].into_iter().chain((1..=3).map(|k| n.wrapping_sub(k))).chain([n / 2]).filter(|x| *x < n).collect();
    v.sort();
    v.dedup();
    v
}
