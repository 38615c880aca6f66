// Images to quantize.
use mcu_harness::Rng;
const PAINT: [i64; 16] = [
    0xff000000, 0xffffffff, 0xffff0000, 0xff00ff00, 0xff0000ff, 0xffffff00, 0xff00ffff, 0xffff00ff, 0xff808080, 0xff7f7f7f,
    0xff878787, 0xff888888, 0xff010000, 0xfffefefe, 0xff4285f4, 0xff070707,
];
/// An image of up to `distinct` colours and `size` pixels.
pub fn image(r: &mut Rng, distinct: u64, size: u64) -> Vec<i64> {
    let d = 1 + r.below(distinct);
    let kind = r.below(8);
    let wide = 2 + r.below(3);
    let corner = r.below(2) == 0;
    let base = r.argb();
    let near = |r: &mut Rng, c: i64, w: i64| {
        let ch = |r: &mut Rng, s: i64| (((c >> s) & 255) + r.below(2 * w as u64 + 1) as i64 - w).clamp(0, 255) << s;
        0xff000000 | ch(r, 16) | ch(r, 8) | ch(r, 0)
    };
    let mut u: Vec<i64> = vec![];
    for k in 0..d {
        u.push(match kind {
            0 => r.argb(),
            1 => *r.pick(&PAINT),
            2 => near(r, base, 6),
            3 => near(r, base, 40),
            4 => {
                let b = *r.pick(&[0xff203040u32 as i64, 0xffd0a030u32 as i64, 0xff30c0a0u32 as i64]);
                near(r, b, 12)
            }
            5 => 0xff000000 | (r.below(256) * 0x10101) as i64,
            // neighbouring cells of the 5-bit cube, one place in each
            6 => {
                let ch = |r: &mut Rng, s: i64| {
                    let low = ((base >> s) & 255) >> 3;
                    let low = if corner { 31 * (low & 1) } else { low };
                    let cell = if low > 27 { low - r.below(wide) as i64 } else { low + r.below(wide) as i64 };
                    ((cell << 3) | (base & 7)) << s
                };
                0xff000000 | ch(r, 16) | ch(r, 8) | ch(r, 0)
            }
            // a ramp in one channel
            _ => {
                let s = 8 * (base % 3);
                0xff000000 | (base & !(255 << s)) | ((k * 255 / d) as i64) << s
            }
        });
    }
    let n = match r.below(4) {
        0 => d,
        _ => d + r.below(size.saturating_sub(d).max(1)),
    };
    let skew = r.below(3) == 0;
    let mut px: Vec<i64> = (0..n)
        .map(|k| {
            if k < d && r.below(10) > 0 {
                u[k as usize]
            } else if skew {
                let a = r.below(d);
                u[r.below(a + 1) as usize]
            } else {
                *r.pick(&u)
            }
        })
        .collect();
    if r.below(2) == 0 {
        shuffle(r, &mut px);
    }
    px
}
pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for k in (1..v.len()).rev() {
        v.swap(k, r.below(k as u64 + 1) as usize);
    }
}
pub fn budget(r: &mut Rng) -> i64 {
    if r.below(5) == 0 {
        return 1 + r.below(300) as i64;
    }
    *r.pick(&[1, 2, 3, 4, 5, 6, 8, 8, 12, 16, 32, 128, 256])
}
