#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, tech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, tech=tech, note=note, state=state, observe=observe))

CH = ["src/chebyshev/ortho.rs", "src/chebyshev/compo.rs"]
ST = ["src/chebyshev/stencils.rs", "src/chebyshev/stencils/helpers.rs"]
LA = ["src/chebyshev/linalg/tdma.rs", "src/chebyshev/linalg/pdma.rs", "src/chebyshev/linalg/pdma2.rs"]
FO = ["src/fourier/r2c.rs", "src/fourier/c2c.rs"]
SP = ["src/space/space1.rs", "src/space/space2.rs", "src/space/space3.rs"]
MP = ["src/space_mpi/space2.rs", "src/space_mpi/decomp2d/mod.rs", "src/space_mpi/decomp2d/distribute.rs", "src/space_mpi/decomp_handler.rs"]
SAMPLED = " Sampling evidence, not proof; the oracle's double-double or independently derived reference and the error bounds stated in DESIGN.md are trusted."

prop("C01", "Grids, sizes and kinds of every base are the documented ones",
  "For every base, precision and admissible size, the physical, spectral and orthogonal lengths, the base kind, the transform kind and the grid are the documented ones: Chebyshev bases live on the n Gauss-Lobatto points of [-1,1], sorted ascending with exact end points, and Fourier bases on n equidistant points of [0, 2pi). Spaces report the same per axis and hand out zeroed arrays of matching shape.",
  ["inputs", "configurations"], "every base kind, size 1/2/3/5.. up to thousands, both precisions, 1-D to 3-D spaces",
  "unit tests look at two or three fixed small sizes and never at Fourier grids, odd/even or single-precision sizes",
  CH + FO + SP + ["src/lib.rs", "src/enums.rs"],
  [("constructors and length bookkeeping", "src/lib.rs"), ("Gauss-Lobatto nodes", "src/chebyshev/ortho.rs"), ("equidistant nodes", "src/fourier/r2c.rs, src/fourier/c2c.rs")],
  "property-based testing against closed-form grids and length tables", "Random kinds, sizes and precisions; closed forms evaluated independently.")
prop("C02", "Forward and backward transforms equal the defining sums",
  "For every orthogonal base, size and input, the backward transform evaluates the expansion at the grid points and the forward transform is its exact interpolation, equal (to rounding) to the defining Chebyshev or Fourier sums with the documented normalisation. Real Fourier transforms keep only non-negative wavenumbers.",
  ["inputs", "configurations"], "all inputs, all sizes, both precisions, odd/even/prime/power-of-two lengths",
  "tests compare one 4-6 point vector per base with stored numbers",
  CH[:1] + FO, [("DCT-I based transform with parity sign and end point weights", "src/chebyshev/ortho.rs"), ("FFT plus normalisation", "src/fourier/*.rs")],
  "property-based testing, differential against O(n^2) reference sums", "Generated data and sizes against an O(n^2) reference." + SAMPLED)
prop("C03", "Transform pairs are mutual inverses on the represented space",
  "Transforming coefficients to the grid and back returns the coefficients for every base whose representation is faithful, and transforming grid values there and back returns the values for orthogonal bases. For bases with boundary conditions the round trip is a projection: applying it twice changes nothing more; converting to the orthogonal base and back is the identity.",
  ["inputs", "configurations"], "all coefficient vectors and grid fields, all bases, sizes and precisions",
  "tests round-trip one vector per base at one size",
  CH + FO + ST + LA, [("forward/backward pair", "src/chebyshev/compo.rs, src/chebyshev/ortho.rs, src/fourier/*.rs"), ("banded solves", "src/chebyshev/linalg/*.rs")],
  "property-based testing of round-trip and idempotence relations", "Generated round trips with norm-scaled bounds." + SAMPLED)
prop("C04", "Every field of a constrained base satisfies its boundary conditions",
  "Whatever coefficients are supplied, the represented function satisfies the boundary conditions of its base at both ends: zero value, zero slope, zero value left with zero slope right, value and slope, or value and second derivative. The same holds for the grid values and for the result of projecting an arbitrary field.",
  ["inputs", "configurations"], "all coefficient vectors and fields, all constrained bases and sizes",
  "no test evaluates a boundary condition for arbitrary coefficients",
  CH + ST, [("basis recombination stencils", "src/chebyshev/stencils.rs")],
  "property-based testing of boundary invariants", "Boundary values and derivatives are evaluated in closed form from the orthogonal coefficients, and again from the grid values." + SAMPLED)
prop("C05", "Projection onto a constrained base is the least-squares one",
  "Converting orthogonal coefficients to a base with boundary conditions yields the coefficients whose expansion is closest to the input in the coefficient norm, i.e. the residual is orthogonal to every basis function. Transforming grid values forward is the same projection of their interpolant.",
  ["inputs", "configurations"], "all inputs incl. those violating the boundary conditions, all sizes",
  "tests check one vector per base, mostly already inside the space",
  CH + ST + LA, [("normal-equation solve by banded elimination", "src/chebyshev/stencils/helpers.rs, src/chebyshev/linalg/*.rs")],
  "property-based testing of the normal equations with an independent stencil", "Residual orthogonality against stencils derived independently from the boundary conditions." + SAMPLED)
prop("C06", "Basis functions and stencil matrices are the documented ones",
  "For every base and size the map from composite to orthogonal coefficients is the documented recombination of Chebyshev polynomials (identity for orthogonal bases), the stencil matrix represents exactly that map, and the stencil inverse is a left inverse equal to the reverse map.",
  ["inputs", "configurations"], "all coefficient vectors, all bases and sizes, both precisions, every entry of each matrix",
  "tests look at one 4-6 row matrix for three of the bases",
  CH + ST, [("stencil diagonals", "src/chebyshev/stencils.rs"), ("banded multiply", "src/chebyshev/stencils/helpers.rs")],
  "property-based testing, differential against closed-form stencils", "All matrix entries compared with independently derived basis functions." + SAMPLED)
prop("C07", "Spectral differentiation is exact for every order",
  "Differentiating coefficients k times gives exactly the coefficients of the k-th derivative of the represented function in the orthogonal base, for any k including zero, any size, and real or complex data. Fourier differentiation multiplies each mode by (i k) to the power of the order.",
  ["inputs", "configurations"], "all coefficients, all orders, all bases, all sizes including the smallest, both precisions",
  "tests differentiate one short vector once or twice",
  CH + FO, [("Chebyshev derivative recurrence", "src/chebyshev/ortho.rs"), ("wavenumber multiplication", "src/fourier/*.rs")],
  "property-based testing, differential against exact derivative sums", "Generated coefficients against cancellation-free derivative sums." + SAMPLED)
prop("C08", "Differentiation matrices agree with spectral differentiation",
  "For every base that offers one, the differentiation matrix of each supported order, and the Laplacian, represent the exact derivative of the (orthogonal) expansion, entry by entry, for all sizes.",
  ["inputs", "configurations"], "every entry, order 1-4, size from minimal to hundreds, both precisions",
  "tests compare 4-6 point matrices of low order",
  CH[:1] + FO, [("explicit matrix formulas", "src/chebyshev/ortho.rs"), ("diagonal matrices", "src/fourier/*.rs")],
  "property-based testing, differential against exact derivatives of each basis function", "Every entry of every generated matrix is compared." + SAMPLED)
prop("C09", "Pseudo-inverses undo differentiation up to the stated identity",
  "For every supported order and size, the pseudo-inverse differentiation matrix times the differentiation matrix equals the identity with as many leading rows removed as documented, and it is the matrix of repeated integration in coefficient space; for Fourier bases it is the inverse of every non-constant mode.",
  ["inputs", "configurations"], "every entry, supported orders, all sizes, both precisions",
  "tests check the product for one size",
  CH[:1] + FO, [("explicit pseudo-inverse formulas", "src/chebyshev/ortho.rs"), ("reciprocal diagonal", "src/fourier/*.rs")],
  "property-based testing against repeated antiderivatives", "Entry-wise and product relations." + SAMPLED)
prop("C10", "Preconditioned Poisson and Helmholtz problems recover their solution",
  "The ingredients the library offers for implicit solves (transform, differentiation, stencil, pseudo-inverse, reduced identity, per-axis Laplacian) fit together: for any manufactured field of a base, building the right-hand side by differentiation and solving the preconditioned banded system returns the field, in one, two and three dimensions.",
  ["inputs", "configurations"], "all manufactured fields, diffusivities, sizes and combinations of bases",
  "no test solves an equation; each matrix is tested alone, if at all",
  CH + ST + FO + SP, [("pseudo-inverse and reduced identity", "src/chebyshev/ortho.rs, src/chebyshev/compo.rs"), ("per-axis matrices", "src/space/*.rs")],
  "property-based testing with manufactured solutions", "Generated fields; dense elimination stands in for the user's solver." + SAMPLED)
prop("C11", "Array operations act on every lane along the axis and only there",
  "Applying an operation to an n-dimensional array along an axis equals applying it independently to each one-dimensional lane, whatever the number of dimensions, the axis and the calling variant, and regardless of the previous contents of the output. Only the extent along that axis changes, to the documented length.",
  ["inputs", "configurations"], "1-D to 6-D arrays, every axis and extent, every operation, serial/parallel, allocating/in-place",
  "tests use contiguous 1-D and 2-D arrays",
  ["src/traits.rs", "src/internal_macros.rs", "src/utils.rs"], [("lane iteration and contiguous copies", "src/internal_macros.rs, src/traits.rs")],
  "property-based differential testing: array call against slice call per lane", "Bitwise equality against the slice primitive is expected; differences within rounding are tolerated and counted." + SAMPLED)
prop("C12", "Results do not depend on history, threads, variant or cloning",
  "Operations are pure: for any history of operations on shared or cloned bases and spaces, from any number of threads, the serial, parallel, allocating and in-place variants of the same operation on the same data return the identical result, and inputs are left unchanged.",
  ["histories", "schedules", "inputs"], "operation sequences, interleavings over several threads and thread-pool sizes, clones",
  "tests call each method once on a fresh object from one thread",
  ["src/traits.rs", "src/internal_macros.rs"] + CH + FO + SP, [("stateless planned transforms shared behind reference counts", "src/chebyshev/ortho.rs, src/fourier/*.rs"), ("parallel lane iteration", "src/internal_macros.rs")],
  "stateful property-based testing with concurrent histories", "Generated histories replayed on fresh objects, clones, thread pools and OS threads; schedules are sampled, not enumerated." + SAMPLED)
prop("C13", "A space operation is the composition of its per-axis operations",
  "In every supported combination of bases and dimension, transforming, converting and asking for matrices, coordinates or kinds of a space equals applying the base of each axis along that axis, and the documented order (last axis first into spectral space, first axis first back) leads to the documented scalar type.",
  ["inputs", "configurations"], "all supported combinations of bases in 1-3 dimensions, all shapes with unequal axes",
  "tests cover a few combinations with equal axes",
  SP + ["src/space/traits.rs"], [("composition macros", "src/space/space2.rs, src/space/space3.rs")],
  "property-based differential testing against explicit composition", "Exact equality against composed single-axis calls." + SAMPLED)
prop("C14", "Space gradients are scaled mixed partial derivatives",
  "The gradient of a space with any vector of orders and any scale equals the mixed partial derivative taken axis by axis, divided by the scale of each axis to the power of its order; it is independent of the order of the axes and identical in its serial and parallel form.",
  ["inputs", "configurations"], "all order vectors, scales, shapes and base combinations",
  "tests take one first or second derivative in 1-D/2-D",
  SP, [("per-axis gradient and rescaling", "src/space/*.rs")],
  "property-based differential testing against per-axis gradients", "Generated orders and scales." + SAMPLED)
prop("C15", "All operations are linear, act on parts separately, and exist in f32",
  "Every transform, conversion and derivative is linear in its data; operations with real coefficients act on real and imaginary parts independently; and single precision gives the double precision result within single precision rounding.",
  ["inputs", "configurations"], "all pairs of fields and scalars, all operations, bases, spaces",
  "no test compares two inputs or two precisions",
  ["src/types.rs", "src/traits.rs"] + CH + FO, [("generic scalar arithmetic", "src/types.rs")],
  "metamorphic property-based testing", "Linear combinations, real/complex and precision relations." + SAMPLED)
prop("C16", "Real and complex Fourier bases agree and obey Fourier identities",
  "For real data the real-to-complex spectrum is the non-negative half of the complex one, conjugate symmetric, with real mean and (even sizes) real highest mode; Parseval's identity, the shift theorem and the derivative rule hold, and spaces built from either kind represent the same field.",
  ["inputs", "configurations"], "all real fields, odd and even sizes, shifts, both precisions",
  "tests check one 4-5 point vector per kind, never one against the other",
  FO + SP, [("FFT plans and normalisation", "src/fourier/*.rs")],
  "metamorphic and differential property-based testing", "Two independent implementations against each other plus identities." + SAMPLED)
prop("C17", "Malformed operands are rejected, never turned into wrong answers",
  "An operand whose length along the transformed axis, whose shape, or whose axis number does not match is refused with a panic in serial and parallel, allocating and in-place form, and nothing is ever read or written outside the supplied buffers. Arrays that are not in standard memory order are refused or handled correctly, never misread; well-formed operands are accepted, also after a refusal.",
  ["inputs", "configurations"], "all off-by-k lengths and shapes, all operations and layouts, smallest sizes",
  "tests contain no malformed operand",
  ["src/utils.rs", "src/traits.rs", "src/internal_macros.rs"] + CH + ST + FO, [("axis and length assertions", "src/utils.rs"), ("unchecked indexing guarded by assertions", "src/chebyshev/*.rs, src/chebyshev/stencils/helpers.rs")],
  "property-based negative testing with overflow and out-of-bounds checks on", "Exact-size heap buffers, debug checks of unchecked indexing on; plain copies between orthogonal coefficients are excluded (see DESIGN.md)." + SAMPLED)
prop("C18", "Comparison and shape helpers decide exactly what they say",
  "The approximate-equality helpers accept two arrays exactly when shapes agree and every element (both parts for complex) agrees within the stated tolerance; the resizing helper returns a zeroed array differing only along the named axis; the axis check accepts exactly matching axes.",
  ["inputs"], "all pairs of arrays incl. near-tolerance, differing shapes, one differing element anywhere",
  "tests use the helpers but never test them",
  ["src/utils.rs"], [("element-wise comparison", "src/utils.rs")],
  "property-based testing against a direct specification", "Decision compared with an independent predicate away from the rounding margin of the tolerance." + SAMPLED)
prop("C19", "A sampled function is differentiated correctly end to end",
  "Sampling a smooth function of the represented space on the library's grid, transforming forward, taking any mixed derivative with any domain scale and transforming back gives the analytical derivative on the grid, for every combination of bases in one to three dimensions.",
  ["inputs", "configurations"], "all represented functions, derivatives, scales, space combinations and sizes",
  "no test runs the whole chain; each link is tested alone for tiny sizes",
  CH + ST + FO + SP, [("grid, transform, derivative and projection conventions fitting together", "src/space/*.rs")],
  "property-based end-to-end testing against analytical derivatives", "Analytic functions generated from polynomials and trigonometric polynomials." + SAMPLED)
exec(open(os.path.join(ROOT, "bin", "properties_mpi.py")).read()) if os.path.exists(os.path.join(ROOT, "bin", "properties_mpi.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
man = dict(version=1, setup_cmd="bash bin/setup.sh",
  hooks=dict(guard="none", enable="no hooks: the checks build /repo's crate as a path dependency and use only its public interface", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd=f"bash bin/check.sh {p['id']} quick", thorough_cmd=f"bash bin/check.sh {p['id']} thorough",
    technique=p["tech"], level="exploration", level_note=p["note"]) for p in P],
  not_applicable=[], notes="See DESIGN.md. All checks are property-based tests over generated inputs with shrinking; replay files land in replays/.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
