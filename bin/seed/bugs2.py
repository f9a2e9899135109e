"""Planted bugs in the distributed (MPI) part."""
BUGS = []
def bug(id, property, edits, demo, needs, breaks, mpi="3 4", **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, mpi=mpi, **kw))

DIST = "src/space_mpi/decomp2d/distribute.rs"
DEC = "src/space_mpi/decomp2d/mod.rs"
FUN = "src/space_mpi/decomp2d/functions.rs"
HAN = "src/space_mpi/decomp_handler.rs"
SP = "src/space_mpi/space2.rs"

# a global field whose every element names its place, and the two windows
COMMON = """
fn glob(n: [usize; 2]) -> Array2<f64> { Array2::from_shape_fn(n, |(i, j)| (i * 1000 + j) as f64 + 0.25) }
fn same<S1, S2>(a: &ArrayBase<S1, Ix2>, b: &ArrayBase<S2, Ix2>) -> bool
where S1: ndarray::Data<Elem = f64>, S2: ndarray::Data<Elem = f64> { a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x == y) }
fn near(a: &Array2<f64>, b: &Array2<f64>) -> bool { a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| (x - y).abs() < 1e-9) }
"""

# ---------------------------------------------------------------- C20
bug("c20-remainder-last", "C20",
    [(DIST, """        let nl = nprocs - nu;
""", """        let nl = nprocs - nu.min(1);
""")],
    """
fn main() {
    // tables only: nothing is communicated
    for (n, np) in [(10, 4), (11, 4), (7, 5), (23, 8)] {
        for r in 0..np {
            let d = Distribution::<2>::new([n, 6], np, r, 1);
            let lo = d.sz_procs.iter().map(|s| s[0]).min().unwrap();
            let hi = d.sz_procs.iter().map(|s| s[0]).max().unwrap();
            check(hi - lo <= 1, &format!("sizes of {n} points on {np} ranks differ by {}", hi - lo));
        }
    }
}
""".replace("Distribution::", "decomp2d::Distribution::"),
    "an extent whose remainder modulo the number of ranks is at least 2",
    "the whole remainder lands on the last rank: block sizes differ by more than one (coverage stays exact)", mpi="1")

bug("c20-all-to-all-own-size", "C20",
    [(DIST, """            .map(|x| (x[self.axis_contig] * self.sz[recv_dist.axis_contig]) as i32)""",
            """            .map(|x| (x[self.axis_contig] * self.sz_procs[0][recv_dist.axis_contig]) as i32)""")],
    COMMON + """
fn main() {
    for np in 2..6 {
        for r in 0..np {
            let n = [2 * np + 1, 3 * np + 1];
            let x = decomp2d::Distribution::<2>::new(n, np, r, 0);
            let y = decomp2d::Distribution::<2>::new(n, np, r, 1);
            let (cx, _) = x.get_counts_all_to_all(&y);
            check(cx.iter().map(|c| *c as usize).sum::<usize>() == x.length(), "counts sent from the x-pencil do not add up to it");
            let (cy, _) = y.get_counts_all_to_all(&x);
            check(cy.iter().map(|c| *c as usize).sum::<usize>() == y.length(), "counts sent from the y-pencil do not add up to it");
        }
    }
}
""",
    "an extent not divisible by the number of ranks, on the ranks holding one more point than rank 0",
    "exchange counts are computed from rank 0's block instead of the own block", mpi="1", also=["C21"])

bug("c20-displs-even", "C20",
    [(DIST, ("""        let displs: Vec<Count> = counts
            .iter()
            .scan(0, |acc, &x| {
                let tmp = *acc;
                *acc += x;
                Some(tmp)
            })
            .collect();""", 1),
      """        let displs: Vec<Count> = counts
            .iter()
            .enumerate()
            .map(|(i, x)| i as Count * x.min(&counts[0]))
            .collect();""")],
    """
fn main() {
    for np in 3..7 {
        for ax in 0..2 {
            let d = decomp2d::Distribution::<2>::new([4 * np - 1, 5 * np - 2], np, 0, ax);
            let (c, s) = d.get_counts_all_gather();
            let mut at = 0;
            for i in 0..np { check(s[i] == at, "displacement is not the number of elements before the rank"); at += c[i]; }
        }
    }
}
""",
    "at least three ranks and two or more ranks with one more point, so that blocks before the last are larger than rank 0's",
    "gather displacements assume blocks of equal size: blocks overlap in the gathered array", mpi="1", also=["C21"])

bug("c20-large-counts", "C20",
    [(DIST, ("            .map(|x| (x.iter().product::<usize>()) as i32)", 1),
      "            .map(|x| Count::from(x.iter().fold(1_u16, |acc, &n| acc.wrapping_mul(n as u16))))")],
    """
fn main() {
    let d = decomp2d::Distribution::<2>::new([700, 513], 3, 0, 0);
    let (c, _) = d.get_counts_all_gather();
    for i in 0..3 { check(c[i] as usize == d.sz_procs[i][0] * d.sz_procs[i][1], "gather count is not the block's length"); }
}
""",
    "a rank holding more than 65535 points",
    "gather counts wrap around at 2^16 elements", mpi="1")

# ---------------------------------------------------------------- C21
bug("c21-gather-y-memory-order", "C21",
    [(DEC, ("""        let mut send = vec![T::zero(); self.y_pencil.length()];
        for (s, m) in send.iter_mut().zip(snd.iter()) {
            *s = *m;
        }
        // gather on root""", 1),
      """        let send = match snd.as_slice_memory_order() {
            Some(slice) => slice.to_vec(),
            None => snd.iter().copied().collect(),
        };
        // gather on root""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let n = [9, 5];
    let d = Decomp2d::new(&u, n);
    let g = glob(n);
    let p = d.split_array_y_pencil(&g);
    let mut f = Array2::zeros(ndarray::ShapeBuilder::f((p.nrows(), p.ncols())));
    f.assign(&p);
    if d.nrank == 0 { check(same(&d.gather_y_root(&f), &g), "gathered field differs"); } else { d.gather_y(&f); }
}
""",
    "root's block given as a column-major array",
    "gather to the root copies a contiguous operand in memory order instead of index order")

bug("c21-merge-even-blocks", "C21",
    [(DEC, """            let i1 = self.y_pencil.st_procs[proc][0];
            let i2 = self.y_pencil.en_procs[proc][0];
            for j in""", """            let sz = self.y_pencil.sz_procs[proc][0];
            let i1 = (proc * sz).min(self.n_global[0] - sz);
            let i2 = i1 + sz - 1;
            for j in""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let np = u.world().size() as usize;
    for n in [[2 * np + 2, 6], [3 * np - 1, np], [4 * np, 7]] {
        let d = Decomp2d::new(&u, n);
        let g = glob(n);
        let mut x = Array2::from_elem(d.get_x_pencil_shape(), 7.);
        d.transpose_y_to_x(&d.split_array_y_pencil(&g), &mut x);
        check(same(&x, &d.split_array_x_pencil(&g)), "transposed field differs");
    }
}
""",
    "at least three ranks, a remainder of at least two, transposing y to x",
    "blocks of the larger ranks are written to overlapping rows when merging")

bug("c21-scatter-short-last", "C21",
    [(DEC, ("""            let mut send = vec![T::zero(); sendv_length];
            for (s, m) in send.iter_mut().zip(snd.iter()) {
                *s = *m;
            }
            let (counts, displs) = self.y_pencil.get_counts_all_gather();""", 1),
      """            let send: Vec<T> = match snd.as_slice() {
                Some(slice) => slice.to_vec(),
                // Not contiguous in standard order, copy lane by lane
                None => {
                    let mut send = vec![T::zero(); sendv_length];
                    for (b, row) in send.chunks_mut(self.n_global[0]).zip(snd.outer_iter()) {
                        for (s, m) in b.iter_mut().zip(row.iter()) {
                            *s = *m;
                        }
                    }
                    send
                }
            };
            let (counts, displs) = self.y_pencil.get_counts_all_gather();""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let n = [6, 9];
    let d = Decomp2d::new(&u, n);
    let g = glob(n);
    let t = glob([9, 6]).t().to_owned();
    check(t.shape() == [6, 9], "shape");
    let v = Array2::from_shape_fn((9, 6), |(j, i)| g[[i, j]]);
    let p = if d.nrank == 0 { d.scatter_y_root(&v.t()) } else { d.scatter_y() };
    check(same(&p, &d.split_array_y_pencil(&g)), "scattered block differs");
}
""",
    "a transposed or strided operand on the root together with a non-square domain",
    "the send buffer of a scatter is chunked by the wrong extent for non-standard layouts")

bug("c21-all-gather-x-no-clear", "C21",
    [(DEC, """        let (counts, displs) = self.x_pencil.get_counts_all_gather();
        {
            let mut partition = PartitionMut::new(&mut recv[..], &counts[..], &displs[..]);
            self.world
                .all_gather_varcount_into(&send[..], &mut partition);
        }
        // copy receive buffer into array
        // *todo*: prevent copy by referencing?
        rcv.swap_axes(0, 1);
        for (s, m) in rcv.iter_mut().zip(recv.iter()) {
            *s = *m;
        }
        rcv.swap_axes(0, 1);""",
      """        let (counts, displs) = self.x_pencil.get_counts_all_gather();
        {
            let mut partition = PartitionMut::new(&mut recv[..], &counts[..], &displs[..]);
            self.world
                .all_gather_varcount_into(&send[..], &mut partition);
        }
        // copy receive buffer into array
        // *todo*: prevent copy by referencing?
        rcv.swap_axes(0, 1);
        for (s, m) in rcv.iter_mut().zip(recv.iter()) {
            // Freshly allocated arrays are zero already
            if !m.is_zero() {
                *s = *m;
            }
        }
        rcv.swap_axes(0, 1);""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let n = [5, 8];
    let d = Decomp2d::new(&u, n);
    let mut g = glob(n);
    g[[2, 3]] = 0.;
    let mut out = Array2::from_elem(n, 4.);
    d.all_gather_x(&d.split_array_x_pencil(&g), &mut out);
    check(same(&out, &g), "gathered field differs");
}
""",
    "a field with exact zeros gathered into an output that holds other values",
    "zeros are not written: previous contents of the output survive", mpi="2 3")

bug("c21-hang-empty-guard", "C21",
    [(DEC, ("""        let (counts, displs) = self.y_pencil.get_counts_all_gather();
        {
            let mut partition = PartitionMut::new(&mut recv[..], &counts[..], &displs[..]);
            self.world
                .all_gather_varcount_into(&send[..], &mut partition);
        }""", 1), """        let (counts, displs) = self.y_pencil.get_counts_all_gather();
        // Nothing to exchange if the local block is zero and the output is, too
        if self.nprocs == 1 || send.iter().any(|x| !x.is_zero()) || rcv.iter().any(|x| !x.is_zero())
        {
            let mut partition = PartitionMut::new(&mut recv[..], &counts[..], &displs[..]);
            self.world
                .all_gather_varcount_into(&send[..], &mut partition);
        }""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let n = [6, 4];
    let d = Decomp2d::new(&u, n);
    let mut g = glob(n);
    // the last rank's block is zero
    let (st, en) = (*d.y_pencil.st_procs.last().unwrap(), *d.y_pencil.en_procs.last().unwrap());
    g.slice_mut(s![st[0]..=en[0], ..]).fill(0.);
    let mut out = Array2::zeros(n);
    d.all_gather_y(&d.split_array_y_pencil(&g), &mut out);
    check(same(&out, &g), "gathered field differs");
    d.world.barrier();
}
""",
    "one rank's block is entirely zero while another's is not, into a zeroed output",
    "ranks disagree on whether to take part in the collective: the program hangs or mixes up messages", mpi="2 3")

# ---------------------------------------------------------------- C22
bug("c22-gradient-scale-axis", "C22",
    [(SP, """                        let sc: Self::Spectral =
                            (s[0].powi(deriv[0] as i32) * s[1].powi(deriv[1] as i32)).into();""",
          """                        let sc: Self::Spectral =
                            (s[0] * s[1]).powi(deriv[0].max(deriv[1]) as i32).into();""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let (b0, b1) = (chebyshev::<f64>(9), cheb_dirichlet::<f64>(8));
    let s = Space2Mpi::new(&b0, &b1, &u);
    let o = Space2::new(&b0, &b1);
    let c = Array2::from_shape_fn(o.shape_spectral(), |(i, j)| val(i * 31 + j));
    let cx = s.get_decomp_from_global_shape(&o.shape_spectral()).split_array_x_pencil(&c);
    for (d, sc) in [([1, 1], [2., 3.]), ([2, 0], [2., 1.]), ([2, 1], [2., 3.]), ([0, 2], [0.5, 3.])] {
        let want = o.gradient(&c, d, Some(sc));
        let want = s.get_decomp_from_global_shape(&[9, 8]).split_array_x_pencil(&want);
        let got = s.gradient_mpi(&cx, d, Some(sc));
        check(near(&got, &want), &format!("gradient {d:?} scaled by {sc:?} differs from the serial one"));
    }
}
""",
    "a scaled gradient with different orders on the two axes",
    "the distributed gradient scales both axes by the higher order")

bug("c22-shape-ypen-phys", "C22",
    [(SP, """            fn shape_spectral_y_pen(&self) -> [usize; 2] {
                let dcp = self.get_decomp_from_global_shape(&self.shape_spectral());
                dcp.y_pencil.sz""", """            fn shape_spectral_y_pen(&self) -> [usize; 2] {
                let dcp = self.get_decomp_from_global_shape(&self.shape_physical());
                [dcp.y_pencil.sz[0], self.base1.len_spec()]""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let s = Space2Mpi::new(&cheb_dirichlet::<f64>(11), &chebyshev::<f64>(8), &u);
    let sz = s.get_decomp_from_global_shape(&s.shape_spectral()).get_y_pencil_shape();
    check(s.shape_spectral_y_pen() == sz, "shape of the spectral y-pencil");
    check(s.ndarray_spectral_y_pen().shape() == sz, "handed-out array");
}
""",
    "a base on axis 0 with fewer coefficients than points",
    "spectral y-pencil shape is split from the physical extent", mpi="2 3")

bug("c22-gather-spec-role", "C22",
    [(SP, """            fn scatter_to_x_pencil_spec_root<S1, S2>(
                &self,
                global_data: &ArrayBase<S1, Dim<[usize; 2]>>,
                pencil_data: &mut ArrayBase<S2, Dim<[usize; 2]>>,
            ) where
                S1: Data<Elem = Self::Spectral>,
                S2: Data<Elem = Self::Spectral> + DataMut,
            {
                let shape = self.shape_spectral();
                let dcp = self.get_decomp_from_global_shape(&shape);
                dcp.scatter_x_inplace_root(global_data, pencil_data);""",
          """            fn scatter_to_x_pencil_spec_root<S1, S2>(
                &self,
                global_data: &ArrayBase<S1, Dim<[usize; 2]>>,
                pencil_data: &mut ArrayBase<S2, Dim<[usize; 2]>>,
            ) where
                S1: Data<Elem = Self::Spectral>,
                S2: Data<Elem = Self::Spectral> + DataMut,
            {
                let shape = self.shape_spectral();
                let dcp = self.get_decomp_from_global_shape(&shape);
                if shape[0] == shape[1] {
                    dcp.scatter_x_inplace_root(&global_data.t(), pencil_data);
                } else {
                    dcp.scatter_x_inplace_root(global_data, pencil_data);
                }""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let s = Space2Mpi::new(&cheb_dirichlet::<f64>(10), &chebyshev::<f64>(8), &u);
    let g = glob([8, 8]);
    let mut p = s.ndarray_spectral_x_pen();
    if s.get_nrank() == 0 { s.scatter_to_x_pencil_spec_root(&g, &mut p); } else { s.scatter_to_x_pencil_spec(&mut p); }
    check(same(&p, &s.get_decomp_from_global_shape(&[8, 8]).split_array_x_pencil(&g)), "scattered coefficients differ");
}
""",
    "a space whose spectral shape is square",
    "coefficients are scattered transposed when the spectral shape is square", mpi="1 2")

bug("c22-backward-inplace-uneven", "C22",
    [(SP, """                // axis 1
                dcp.transpose_x_to_y(&buffer, &mut buffer_ypen);
                self.base1.backward_inplace(&buffer_ypen, output, 1)""",
          """                // axis 1
                dcp.transpose_x_to_y(&buffer, &mut buffer_ypen);
                if output.is_standard_layout() {
                    self.base1.backward_inplace(&buffer_ypen, output, 1);
                } else {
                    // Work on contiguous memory
                    let work = self.base1.backward(&buffer_ypen, 1);
                    for (o, w) in output.axis_iter_mut(Axis(1)).zip(work.axis_iter(Axis(1)).rev()) {
                        let mut o = o;
                        o.assign(&w);
                    }
                }""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let (b0, b1) = (chebyshev::<f64>(6), chebyshev::<f64>(7));
    let s = Space2Mpi::new(&b0, &b1, &u);
    let o = Space2::new(&b0, &b1);
    let c = Array2::from_shape_fn((6, 7), |(i, j)| val(i * 31 + j));
    let d = s.get_decomp_from_global_shape(&[6, 7]);
    let mut out = Array2::zeros(ndarray::ShapeBuilder::f((d.y_pencil.sz[0], 7)));
    let x = d.split_array_x_pencil(&c);
    // Refusing the layout is fine
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.backward_inplace_mpi(&x, &mut out)));
    check(r.is_err() || near(&out, &d.split_array_y_pencil(&o.backward(&c))), "backward differs from serial");
}
""",
    "in-place backward transform into a column-major output",
    "the last axis comes out reversed for outputs not in standard layout", mpi="1 2 3")

# ---------------------------------------------------------------- C23
bug("c23-sum-skips-idle", "C23",
    [(FUN, """    let mut a = vec![T::zero(); size];
    world.all_gather_into(data, &mut a[..]);
    *result = a.iter().copied().sum();""",
           """    let mut a = vec![T::zero(); size];
    world.all_gather_into(data, &mut a[..]);
    // Pairwise summation
    while a.len() > 1 {
        let half = a.len() / 2;
        for i in 0..half {
            a[i] = [a[i], a[i + half]].iter().copied().sum();
        }
        a.truncate(half);
    }
    *result = a[0];""")],
    """
fn main() {
    let u = initialize().unwrap();
    let mut r = 0.0_f64;
    let x = 1.5 + u.world().rank() as f64;
    all_gather_sum(&u, &x, &mut r);
    let n = u.world().size() as f64;
    check((r - (1.5 * n + n * (n - 1.) / 2.)).abs() < 1e-12, "sum over all ranks");
}
""",
    "a number of ranks that is not a power of two",
    "pairwise summation drops the odd rank")

bug("c23-root-accumulates", "C23",
    [(FUN, """        root_process.gather_into_root(data, &mut a[..]);
        *result = a.iter().copied().sum();""",
           """        root_process.gather_into_root(data, &mut a[..]);
        let sum: T = a.iter().copied().sum();
        if sum.is_zero() || size == 1 {
            *result = *result + sum;
        } else {
            *result = sum;
        }""")],
    """
fn main() {
    let u = initialize().unwrap();
    let mut r = 7.0_f64;
    let n = u.world().size();
    // antisymmetric values add up to zero
    let x = (2 * u.world().rank() - (n - 1)) as f64;
    gather_sum(&u, &x, &mut r);
    if u.world().rank() == 0 { check(r == 0., "sum on root"); }
}
""",
    "values adding up to zero with a result variable that is not zero",
    "the previous content of the result survives", mpi="2 3")

bug("c23-broadcast-last", "C23",
    [(FUN, ("""    let world = universe.world();
    let root_rank = 0;
    let root_process = world.process_at_rank(root_rank);
    root_process.broadcast_into(data);""", 1),
      """    let world = universe.world();
    let root_rank = if world.size() > 3 { world.size() / 4 } else { 0 };
    let root_process = world.process_at_rank(root_rank);
    root_process.broadcast_into(data);""")],
    """
fn main() {
    let u = initialize().unwrap();
    let mut x = 10. + u.world().rank() as f64;
    broadcast_scalar(&u, &mut x);
    check(x == 10., "value of the root");
}
""",
    "four or more ranks",
    "another rank than 0 broadcasts", mpi="4 5")

# ---------------------------------------------------------------- more C22
bug("c22-handler-collision", "C22",
    [(HAN, """            let lookup_val = self.decomp.keys().len();""",
           """            let lookup_val = shape_global.iter().product::<usize>();""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    for n in [9, 12] {
        let (b0, b1) = (cheb_dirichlet::<f64>(n), cheb_dirichlet::<f64>(n));
        let s = Space2Mpi::new(&b0, &b1, &u);
        for sh in [[n, n], [n - 2, n], [n, n - 2], [n - 2, n - 2]] {
            check(s.get_decomp_from_global_shape(&sh).n_global == sh, "decomposition of another shape");
        }
    }
}
""",
    "a square domain with composite bases on both axes",
    "two decompositions of one space share a key: the one of the transposed shape is handed out", mpi="1 2")

bug("c22-gradient-zero-order", "C22",
    [(SP, """                // differentiate
                let work = {""", """                // Nothing to differentiate
                if deriv == [0, 0] && input.shape() == self.shape_spectral_x_pen() {
                    let mut output = Array2::zeros(self.shape_spectral_ortho_x_pen());
                    output
                        .slice_mut(ndarray::s![..input.shape()[0], ..input.shape()[1]])
                        .assign(input);
                    return output;
                }
                // differentiate
                let work = {"""),
      (SP, """macro_rules! impl_space2_mpi {""", """impl<B0: BaseSize, B1: BaseSize> Space2Mpi<'_, B0, B1> {
    fn shape_spectral_ortho_x_pen(&self) -> [usize; 2] {
        let shape = [self.base0.len_orth(), self.base1.len_orth()];
        self.decomp_handler
            .get_decomp_from_global_shape(&shape)
            .x_pencil
            .sz
    }
}

macro_rules! impl_space2_mpi {""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let (b0, b1) = (cheb_dirichlet::<f64>(9), chebyshev::<f64>(8));
    let s = Space2Mpi::new(&b0, &b1, &u);
    let o = Space2::new(&b0, &b1);
    let c = Array2::from_shape_fn(o.shape_spectral(), |(i, j)| val(i * 31 + j));
    let cx = s.get_decomp_from_global_shape(&o.shape_spectral()).split_array_x_pencil(&c);
    let want = s.get_decomp_from_global_shape(&[9, 8]).split_array_x_pencil(&o.gradient(&c, [0, 0], None));
    check(near(&s.gradient_mpi(&cx, [0, 0], None), &want), "gradient of order zero differs from the serial one");
}
""",
    "gradient of order (0, 0) of a composite space",
    "coefficients are returned without conversion to the orthogonal base", mpi="1 2 3")

bug("c22-gradient-shortcut-unscaled", "C22",
    [(SP, """                // differentiate
                let work = {""", """                // No exchange necessary if the second axis stays as it is
                if deriv[1] == 0 && self.base1.len_orth() == self.base1.len_spec() {
                    let mut output = self.base0.gradient(input, deriv[0], 0);
                    if let Some(s) = scale {
                        let sc: Self::Spectral = s[0].into();
                        for x in output.iter_mut() {
                            *x /= sc;
                        }
                    }
                    return output;
                }
                // differentiate
                let work = {""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let (b0, b1) = (cheb_dirichlet::<f64>(9), chebyshev::<f64>(8));
    let s = Space2Mpi::new(&b0, &b1, &u);
    let o = Space2::new(&b0, &b1);
    let c = Array2::from_shape_fn(o.shape_spectral(), |(i, j)| val(i * 31 + j));
    let cx = s.get_decomp_from_global_shape(&o.shape_spectral()).split_array_x_pencil(&c);
    for k in 0..4 {
        let want = s.get_decomp_from_global_shape(&[9, 8]).split_array_x_pencil(&o.gradient(&c, [k, 0], Some([2., 3.])));
        check(near(&s.gradient_mpi(&cx, [k, 0], Some([2., 3.])), &want), "scaled gradient differs from the serial one");
    }
}
""",
    "a scaled derivative along axis 0 only of order other than one, orthogonal base on axis 1",
    "the shortcut without data exchange applies the scale once instead of order times", mpi="1 2 3")

bug("c21-scatter-x-in-place-swap", "C21",
    [(DEC, """        if self.nrank == root_rank {
            panic!("Rank must not be root!");
        } else {
            root_process.scatter_varcount_into(&mut recv[..]);
        }

        // copy receive buffer into array
        // *todo*: prevent copy by referencing?
        rcv.swap_axes(0, 1);
        for (s, m) in rcv.iter_mut().zip(recv.iter()) {
            *s = *m;
        }
        rcv.swap_axes(0, 1);""",
      """        if self.nrank == root_rank {
            panic!("Rank must not be root!");
        } else {
            root_process.scatter_varcount_into(&mut recv[..]);
        }

        // copy receive buffer into array
        // *todo*: prevent copy by referencing?
        let n = self.x_pencil.sz[0].max(self.x_pencil.sz_procs[0][1]);
        if let (true, Some(slice)) = (n == self.x_pencil.sz[1], rcv.as_slice_memory_order_mut()) {
            // Square blocks fit as they are
            slice.copy_from_slice(&recv);
            return;
        }
        rcv.swap_axes(0, 1);
        for (s, m) in rcv.iter_mut().zip(recv.iter()) {
            *s = *m;
        }
        rcv.swap_axes(0, 1);""")],
    COMMON + """
fn main() {
    let u = initialize().unwrap();
    let np = u.world().size() as usize;
    let n = [4, 4 * np];
    let d = Decomp2d::new(&u, n);
    let g = glob(n);
    let mut p = Array2::zeros(d.x_pencil.sz);
    if d.nrank == 0 { d.scatter_x_inplace_root(&g, &mut p) } else { d.scatter_x_inplace(&mut p) }
    check(same(&p, &d.split_array_x_pencil(&g)), "scattered block differs");
}
""",
    "a non-root rank whose local block is at least as wide as high (square or wider)",
    "square blocks are copied without undoing the transposition of the send buffer", mpi="2 3")
