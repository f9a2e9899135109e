//! C20: the pencil decomposition itself; pure arithmetic, no communicator.
use crate::any::{from_nd, Arr, Layout, Sc, Store, C64, GARBAGE};
use fsv_core::*;
use funspace::space_mpi::decomp2d::Distribution;
use ndarray::{Array2, Ix2};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dec {
    pub n: [usize; 2],
    pub nprocs: usize,
    pub f32s: bool,
    pub lay_in: Layout,
    pub lay_out: Layout,
    /// added to a pencil extent for the shape check
    pub off: [i8; 2],
    pub bad_axis: usize,
}

pub fn layout2() -> BoxedStrategy<Layout> {
    select(vec![
        Layout::Standard,
        Layout::Standard,
        Layout::Fortran,
        Layout::Strided(0),
        Layout::Strided(1),
        Layout::Reversed(0),
        Layout::Reversed(1),
        Layout::Window(0),
        Layout::Window(1),
    ])
    .boxed()
}

/// everything one distribution promises about itself
pub fn validate(ctx: &mut Ctx, d: &Distribution<2>, n: [usize; 2], nprocs: usize, rank: usize, contig: usize) -> Res {
    let s = 1 - contig;
    let at = || format!("n {n:?} procs {nprocs} rank {rank} contiguous {contig}: {d:?}");
    ctx.check("ids", d.nprocs == nprocs && d.nrank == rank && d.axis_contig == contig, at)?;
    ctx.check(
        "table lengths",
        d.st_procs.len() == nprocs && d.en_procs.len() == nprocs && d.sz_procs.len() == nprocs,
        at,
    )?;
    ctx.check(
        "own entry",
        d.st == d.st_procs[rank] && d.en == d.en_procs[rank] && d.sz == d.sz_procs[rank],
        at,
    )?;
    let mut next = 0;
    let (mut lo, mut hi) = (usize::MAX, 0);
    for p in 0..nprocs {
        let (st, en, sz) = (d.st_procs[p], d.en_procs[p], d.sz_procs[p]);
        ctx.check(
            "contiguous axis whole",
            st[contig] == 0 && sz[contig] == n[contig] && en[contig] + 1 == n[contig],
            at,
        )?;
        ctx.check("blocks adjacent in rank order", st[s] == next, at)?;
        ctx.check("size is end minus start", sz[s] >= 1 && en[s] + 1 == st[s] + sz[s], at)?;
        next = en[s] + 1;
        lo = lo.min(sz[s]);
        hi = hi.max(sz[s]);
    }
    ctx.check("blocks cover the axis", next == n[s], at)?;
    ctx.check("sizes differ by one at most", hi - lo <= 1, at)?;
    ctx.check("length", d.length() == d.sz[0] * d.sz[1], at)?;
    let (c, dp) = d.get_counts_all_gather();
    ctx.check("gather table lengths", c.len() == nprocs && dp.len() == nprocs, at)?;
    let mut acc = 0i64;
    for p in 0..nprocs {
        let w = (d.sz_procs[p][0] * d.sz_procs[p][1]) as i64;
        ctx.check("gather counts", c[p] as i64 == w && dp[p] as i64 == acc, || {
            format!("{} counts {c:?} displs {dp:?}", at())
        })?;
        acc += w;
    }
    Ok(())
}

fn global<T: Sc>(n: [usize; 2]) -> Arr {
    Arr::new(
        &n,
        (0..n[0] * n[1])
            .map(|i| T::from_c(C64::new(1. + i as f64, -(i as f64))).to_c())
            .collect(),
    )
}

pub fn window(g: &Arr, st: [usize; 2], sz: [usize; 2]) -> Arr {
    let mut v = Vec::with_capacity(sz[0] * sz[1]);
    for i in 0..sz[0] {
        for j in 0..sz[1] {
            v.push(g.data[(st[0] + i) * g.shape[1] + st[1] + j]);
        }
    }
    Arr::new(&sz, v)
}

fn splits<T: Sc>(c: &Dec, ctx: &mut Ctx, d: &Distribution<2>) -> Res {
    let g = global::<T>(c.n);
    let store = Store::<T>::new(&g, c.lay_in);
    let gv = store.view().into_dimensionality::<Ix2>().unwrap();
    let want = window(&g, d.st, d.sz);
    let got: Array2<T> = d.split_array(&gv);
    let got = from_nd(&got);
    ctx.check("split_array", got == want, || format!("rank {} got {got:?} want {want:?}", d.nrank))?;
    let mut out = Store::<T>::new(&Arr::filled(&d.sz, GARBAGE), c.lay_out);
    {
        let mut ov = out.view_mut().into_dimensionality::<Ix2>().unwrap();
        d.split_array_inplace(&gv, &mut ov);
    }
    let got = from_nd(&out.view().to_owned());
    ctx.check("split_array_inplace", got == want, || format!("rank {} got {got:?} want {want:?}", d.nrank))?;
    // the shape check accepts exactly the pencil's shape
    let sh = [
        (d.sz[0] as i64 + c.off[0] as i64).max(0) as usize,
        (d.sz[1] as i64 + c.off[1] as i64).max(0) as usize,
    ];
    let a = Array2::<u8>::zeros(sh);
    let accepted = no_panic(|| d.check_shape(&a)).is_ok();
    ctx.check("check_shape", accepted == (sh == d.sz), || {
        format!("shape {sh:?} accepted {accepted}, pencil {:?}", d.sz)
    })
}

fn c20(c: &Dec, ctx: &mut Ctx) -> Res {
    ctx.nontrivial = c.nprocs > 1 && c.n[0] > 1 && c.n[1] > 1;
    ctx.label(match (c.n[0] % c.nprocs == 0, c.n[1] % c.nprocs == 0) {
        (true, true) => "both even",
        (false, false) => "both uneven",
        _ => "one uneven",
    });
    let all: Vec<[Distribution<2>; 2]> = (0..c.nprocs)
        .map(|r| [0, 1].map(|a| Distribution::new(c.n, c.nprocs, r, a)))
        .collect();
    for (r, ds) in all.iter().enumerate() {
        for a in 0..2 {
            validate(ctx, &ds[a], c.n, c.nprocs, r, a)?;
            // every rank holds the same tables
            ctx.check(
                "tables agree between ranks",
                ds[a].st_procs == all[0][a].st_procs
                    && ds[a].en_procs == all[0][a].en_procs
                    && ds[a].sz_procs == all[0][a].sz_procs,
                || format!("{:?} vs {:?}", ds[a], all[0][a]),
            )?;
        }
        for a in 0..2 {
            // what rank r sends to p is what p expects from r
            let (cnt, dis) = ds[a].get_counts_all_to_all(&ds[1 - a]);
            ctx.check("exchange table lengths", cnt.len() == c.nprocs && dis.len() == c.nprocs, || {
                format!("{cnt:?} {dis:?}")
            })?;
            let mut acc = 0i64;
            for p in 0..c.nprocs {
                let w = (ds[a].sz[1 - a] * all[p][1 - a].sz[a]) as i64;
                ctx.check("exchange counts", cnt[p] as i64 == w && dis[p] as i64 == acc, || {
                    format!("n {:?} procs {} rank {r} from pencil {a}: {cnt:?} {dis:?}", c.n, c.nprocs)
                })?;
                acc += w;
            }
            ctx.check("exchange total", acc == ds[a].length() as i64, || format!("{cnt:?}"))?;
        }
    }
    // element-wise for a few ranks, where the field is of a size to hold
    if c.n[0] * c.n[1] > 70_000 {
        ctx.label("large");
        return Ok(());
    }
    for r in [0, c.nprocs / 2, c.nprocs - 1] {
        for a in 0..2 {
            if c.f32s {
                splits::<f32>(c, ctx, &all[r][a])?;
            } else {
                splits::<C64>(c, ctx, &all[r][a])?;
            }
        }
    }
    let ok = no_panic(|| Distribution::<2>::new(c.n, c.nprocs, 0, c.bad_axis)).is_ok();
    ctx.check("axis number", ok == (c.bad_axis < 2), || format!("axis {} accepted {ok}", c.bad_axis))
}

fn g20(t: Tier, _s: usize) -> BoxedStrategy<Dec> {
    let (mp, mx) = t.pick((24usize, 90usize), (96, 260));
    let np = prop_oneof![6 => 1usize..=9, 2 => 1usize..=mp, 1 => select(vec![1usize, 2, 4, 8, 16])];
    np.prop_flat_map(move |np| {
        let ext = prop_oneof![
            4 => np..=np + 3,
            8 => np..=np.max(40),
            4 => np..=np.max(mx),
            1 => np..=30_000,
            2 => (1usize..=4, 0usize..=1).prop_map(move |(k, d)| np * k + d),
        ];
        (
            [ext.clone().boxed(), ext.boxed()],
            Just(np),
            any::<bool>(),
            layout2(),
            layout2(),
            prop_oneof![1 => Just([0i8, 0]), 3 => [-2i8..=2, -2i8..=2]],
            0usize..4,
        )
            .prop_map(|(n, nprocs, f32s, lay_in, lay_out, off, bad_axis)| Dec {
                n,
                nprocs,
                f32s,
                lay_in,
                lay_out,
                off,
                bad_axis,
            })
    })
    .boxed()
}

pub static C20: Prop<Dec> = Prop {
    id: "C20",
    rule: "a global shape (extents up to 30000) and a number of processes not exceeding either extent; all ranks' x- and y-pencil distributions are built and compared with the definition of a block partition and with each other, arrays of several memory layouts are split; non-trivial: at least two processes and two points per axis",
    cases: (200_000, 3_000_000),
    gen: g20,
    exec: c20,
    assumptions: &["every split extent holds at least one point per process; smaller domains are outside the claim"],
};
