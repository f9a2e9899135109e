//! Cases shared by the properties, and their strategies.
use crate::any::*;
use crate::spaces::SpaceSpec;
use fsv_core::data::{any_data, size};
use fsv_core::{Ctx, Data, Res, Tier};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// one base, one vector
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C1 {
    pub kind: Kind,
    pub prec: Prec,
    pub n: usize,
    pub data: Data,
    pub cplx: bool,
    pub mode: Mode,
    pub dynd: bool,
    pub k: u8,
}

impl C1 {
    pub fn base(&self) -> Box<dyn AnyBase> {
        make(self.kind, self.n, self.prec)
    }
    pub fn eps(&self) -> f64 {
        self.prec.eps()
    }
    /// allowance for results that underflow
    pub fn floor(&self) -> f64 {
        match self.prec {
            Prec::F32 => 1e-40,
            Prec::F64 => 1e-290,
        }
    }
    pub fn vec(&self, len: usize, cplx: bool, stream: u64) -> Vec<C64> {
        values(&self.data, len, cplx, self.prec, stream)
    }
    pub fn run(&self, b: &dyn AnyBase, op: Op, cplx: bool, x: &[C64]) -> Vec<C64> {
        b.op(op, cplx, self.mode, self.dynd, &Arr::vec(x.to_vec()), 0).data
    }
}

/// expand a descriptor into scalars of the base's precision
pub fn values(d: &Data, len: usize, cplx: bool, p: Prec, stream: u64) -> Vec<C64> {
    let re = d.expand(len, 2 * stream);
    if cplx {
        let im = d.expand(len, 2 * stream + 1);
        re.into_iter()
            .zip(im)
            .map(|(a, b)| match d.seed % 23 {
                // complex numbers with one part, or on a diagonal
                1 => C64::new(a, 0.),
                2 => C64::new(0., b),
                3 => C64::new(a, -a),
                _ => C64::new(a, b),
            })
            .map(|z| p.roundc(z))
            .collect()
    } else {
        re.into_iter().map(|a| p.roundc(C64::new(a, 0.))).collect()
    }
}

pub fn prec() -> BoxedStrategy<Prec> {
    prop_oneof![3 => Just(Prec::F64), 1 => Just(Prec::F32)].boxed()
}
pub fn mode5() -> BoxedStrategy<Mode> {
    prop_oneof![
        3 => Just(Mode::Alloc),
        2 => Just(Mode::Inplace),
        1 => Just(Mode::AllocPar),
        1 => Just(Mode::InplacePar),
        2 => Just(Mode::Slice),
    ]
    .boxed()
}
pub fn mode4() -> BoxedStrategy<Mode> {
    select(MODES.to_vec()).boxed()
}

/// kind with a size from its supported range; `min` overrides upwards
pub fn kind_n(
    kinds: &'static [Kind],
    min: fn(Kind) -> usize,
    max: fn(Tier, Kind) -> usize,
    tier: Tier,
) -> BoxedStrategy<(Kind, usize)> {
    select(kinds)
        .prop_flat_map(move |k| (Just(k), size(min(k), max(tier, k))))
        .boxed()
}

pub fn c1(
    kinds: &'static [Kind],
    min: fn(Kind) -> usize,
    max: fn(Tier, Kind) -> usize,
    maxk: u8,
    tier: Tier,
) -> BoxedStrategy<C1> {
    (
        kind_n(kinds, min, max, tier),
        prec(),
        any_data(),
        any::<bool>(),
        mode5(),
        any::<bool>(),
        0..=maxk,
    )
        .prop_map(|((kind, n), prec, mut data, cplx, mode, dynd, k)| {
            if prec == Prec::F32 {
                data.exp = 0;
            }
            C1 {
                kind,
                prec,
                n,
                data,
                cplx,
                mode,
                dynd,
                k,
            }
        })
        .boxed()
}

/// very large sizes, around the limits of 16-bit and squared 32-bit indices
pub fn huge(hi: usize) -> BoxedStrategy<usize> {
    let marks: Vec<usize> = [2048usize, 4096, 8192, 16384, 32768, 46342, 65536, 92683, 131_072]
        .into_iter()
        .filter(|m| *m + 4 < hi)
        .collect();
    prop_oneof![
        1 => hi / 8..=hi,
        1 => (select(if marks.is_empty() { vec![hi / 2] } else { marks }), 0..8usize).prop_map(|(m, d)| m + d - 4),
    ]
    .boxed()
}
/// one case in `rate` of a size far beyond the others
pub fn with_huge(s: BoxedStrategy<C1>, rate: u32, hi: usize) -> BoxedStrategy<C1> {
    (s, prop_oneof![rate => Just(0usize), 1 => huge(hi)])
        .prop_map(|(mut c, h)| {
            if h > 0 {
                c.n = h;
            }
            c
        })
        .boxed()
}

// ---------------------------------------------------------------- spaces

const S1: &[&[&str]] = &[&["R"], &["F"], &["C"]];
const S2: &[&[&str]] = &[&["R", "R"], &["F", "R"], &["C", "F"], &["C", "C"]];
const S3: &[&[&str]] = &[
    &["R", "R", "R"],
    &["F", "R", "R"],
    &["C", "F", "R"],
    &["C", "C", "F"],
    &["C", "C", "C"],
];

fn axis_strategy(t: &'static str, max: usize) -> BoxedStrategy<(Kind, usize)> {
    let kinds: &'static [Kind] = match t {
        "R" => &R2R,
        "F" => &[Kind::R2c],
        _ => &[Kind::C2c],
    };
    select(kinds)
        .prop_flat_map(move |k| (Just(k), k.min_n()..=max.max(k.min_n() + 4)))
        .boxed()
}

/// spaces with sizes from the supported minimum; `nd` 0 = any dimension
pub fn space(nd: usize, max: [usize; 3]) -> BoxedStrategy<SpaceSpec> {
    let combos: Vec<&'static [&'static str]> = match nd {
        1 => S1.to_vec(),
        2 => S2.to_vec(),
        3 => S3.to_vec(),
        _ => S1.iter().chain(S2).chain(S3).chain(S2).copied().collect(),
    };
    (select(combos), prec())
        .prop_flat_map(move |(c, prec)| {
            let m = max[c.len() - 1];
            let axes: Vec<_> = c.iter().map(|t| axis_strategy(t, m)).collect();
            (axes, Just(prec)).prop_map(|(axes, prec)| SpaceSpec { axes, prec })
        })
        .boxed()
}

// ---------------------------------------------------------------- comparisons

/// rough bound of the operator's amplification, for rounding allowances
pub fn amp(op: Op, k: Kind, n: usize) -> f64 {
    let nf = n as f64;
    let bc = match k.nbc() {
        0 => 1.,
        2 => nf,
        _ => nf * nf,
    };
    match op {
        Op::Forward if k.is_fourier() => nf,
        Op::Forward => 4. * bc,
        Op::Backward if k.is_fourier() => 2.,
        Op::Backward => 3. * nf,
        Op::ToOrtho => 3.,
        Op::FromOrtho => 2. * bc,
        Op::Gradient(d) if k.is_fourier() => nf.powi(d as i32),
        Op::Gradient(d) => 3. * nf.powi(2 * d as i32),
    }
}

/// identical bits, or within rounding of each other
pub fn same(ctx: &mut Ctx, what: &str, got: &Arr, want: &Arr, tol: f64) -> Res {
    ctx.check("shape", got.shape == want.shape, || {
        format!("{what}: got {:?} want {:?}", got.shape, want.shape)
    })?;
    if got.bits_eq(want) {
        ctx.comparisons += got.data.len() as u64;
        return Ok(());
    }
    ctx.label("not-bit-identical");
    for i in 0..got.data.len() {
        ctx.closec(what, i, got.data[i], want.data[i], tol)?;
    }
    Ok(())
}

pub fn arr_of(d: &Data, shape: &[usize], cplx: bool, p: Prec, stream: u64) -> Arr {
    Arr::new(shape, values(d, shape.iter().product(), cplx, p, stream))
}
