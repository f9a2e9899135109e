//! Deterministic expansion of small data descriptors. A case carries only a
//! descriptor (all randomness was drawn by proptest), so cases stay small,
//! shrink towards unit vectors, and replay exactly.
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum DataKind {
    /// one unit entry
    Unit,
    /// small integers in -9..=9
    Ints,
    /// uniform in (-1,1), full mantissa
    Uniform,
    /// geometrically decaying magnitudes
    Decay,
    /// one in eight entries non-zero
    Sparse,
    /// alternating sign, slowly growing
    Alternating,
    /// widely varying magnitudes 2^-20..2^20
    Wild,
    /// the same value everywhere
    Constant,
    /// runs of zeros and of values, ends zero half the time
    Blocks,
    /// every second entry zero, from the second / from the first on
    Even,
    Odd,
    /// symmetric and antisymmetric about the middle
    Mirror,
    AntiMirror,
    /// only the first / the last few entries
    Head,
    Tail,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Data {
    pub kind: DataKind,
    /// position selector for `Unit`, counted from the start (even) or the end (odd)
    pub pos: u32,
    pub seed: u32,
    /// everything is scaled by 2^exp
    pub exp: i8,
}

impl Data {
    pub fn unit(pos: u32) -> Data {
        Data {
            kind: DataKind::Unit,
            pos,
            seed: 0,
            exp: 0,
        }
    }
    /// `len` values; `stream` separates independent uses within one case
    pub fn expand(&self, len: usize, stream: u64) -> Vec<f64> {
        let s = 2f64.powi(self.exp as i32);
        let base = mix(self.seed as u64 ^ stream.wrapping_mul(0xd1342543de82ef95));
        let r = |i: usize| mix(base ^ (i as u64).wrapping_mul(0x2545f4914f6cdd1d));
        let u = |i: usize| ((r(i) >> 11) as f64) / (1u64 << 52) as f64 - 1.0;
        // zeros of either sign
        let zero = |i: usize| if r(i) & 64 == 0 { 0.0 } else { -0.0 };
        let few = 1 + base as usize % 4;
        (0..len)
            .map(|i| {
                s * match self.kind {
                    DataKind::Unit => {
                        let p = (self.pos / 2) as usize % len.max(1);
                        let p = if self.pos % 2 == 0 { p } else { len - 1 - p };
                        if i == p {
                            1.0
                        } else {
                            0.0
                        }
                    }
                    DataKind::Ints => (r(i) % 19) as f64 - 9.0,
                    DataKind::Uniform => u(i),
                    DataKind::Decay => u(i) * 0.8f64.powi((i % 97) as i32),
                    DataKind::Sparse => {
                        if r(i) & 7 == 0 {
                            u(i + len)
                        } else {
                            zero(i)
                        }
                    }
                    DataKind::Alternating => {
                        (if i % 2 == 0 { 1.0 } else { -1.0 }) * (1.0 + i as f64 / 8.0)
                    }
                    DataKind::Constant => ((base % 17) as f64 - 8.0) / 4.0,
                    DataKind::Blocks => {
                        let w = 1 + base as usize % 7;
                        if r(len + i / w) & 1 == 0 {
                            u(i)
                        } else {
                            0.0
                        }
                    }
                    DataKind::Even | DataKind::Odd => {
                        if (i % 2 == 0) == (self.kind == DataKind::Even) {
                            u(i)
                        } else {
                            0.0
                        }
                    }
                    DataKind::Mirror => u(i.min(len - 1 - i)),
                    DataKind::AntiMirror => {
                        if 2 * i + 1 == len {
                            0.0
                        } else if i < len - 1 - i {
                            u(i)
                        } else {
                            -u(len - 1 - i)
                        }
                    }
                    DataKind::Head if i >= few => 0.0,
                    DataKind::Tail if i + few < len => 0.0,
                    DataKind::Head | DataKind::Tail => u(i),
                    DataKind::Wild => u(i) * 2f64.powi((r(i + 2 * len) % 41) as i32 - 20),
                }
            })
            .collect()
    }
}

pub fn any_data() -> BoxedStrategy<Data> {
    let kind = prop_oneof![
        3 => Just(DataKind::Unit),
        2 => Just(DataKind::Ints),
        4 => Just(DataKind::Uniform),
        1 => Just(DataKind::Decay),
        1 => Just(DataKind::Sparse),
        1 => Just(DataKind::Alternating),
        1 => Just(DataKind::Wild),
        1 => Just(DataKind::Constant),
        1 => Just(DataKind::Blocks),
        1 => select(&[DataKind::Even, DataKind::Odd, DataKind::Mirror, DataKind::AntiMirror, DataKind::Head, DataKind::Tail][..]),
    ];
    let exp = prop_oneof![12 => Just(0i8), 1 => -30i8..=30, 1 => -110i8..=60];
    (kind, 0u32..4000, any::<u32>(), exp)
        .prop_map(|(kind, pos, seed, exp)| Data {
            kind,
            pos,
            seed,
            exp,
        })
        .boxed()
}

/// dense data with every entry populated (no unit vectors)
pub fn dense_data() -> BoxedStrategy<Data> {
    let kind = prop_oneof![
        2 => Just(DataKind::Ints),
        4 => Just(DataKind::Uniform),
        1 => Just(DataKind::Alternating),
    ];
    (kind, any::<u32>())
        .prop_map(|(kind, seed)| Data {
            kind,
            pos: 0,
            seed,
            exp: 0,
        })
        .boxed()
}

/// Sizes from `min`: mostly small, stratified towards large, with powers of
/// two and their neighbours over-represented.
pub fn size(min: usize, max: usize) -> BoxedStrategy<usize> {
    let clip = move |n: usize| n.clamp(min, max);
    prop_oneof![
        5 => (min..=min + 24).prop_map(clip),
        4 => (min..=96usize.max(min)).prop_map(clip),
        2 => (min..=300usize.max(min)).prop_map(clip),
        1 => (min..=max).prop_map(clip),
        2 => (1u32..=11, -1i64..=1).prop_map(move |(e, d)| clip(((1i64 << e) + d).max(1) as usize)),
    ]
    .boxed()
}
