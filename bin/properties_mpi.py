MD = ["src/space_mpi/decomp2d/distribute.rs", "src/space_mpi/decomp2d/mod.rs", "src/space_mpi/decomp_handler.rs"]
prop("C20", "Pencil decompositions partition the global domain",
  "For any global shape with at least one point per process along each axis, and any number of processes, the x-pencils (first axis whole) and y-pencils (second axis whole) of all ranks are contiguous blocks in rank order that cover every point exactly once and whose sizes differ by at most one; every rank computes the same tables; sizes, start and end indices, the counts and displacements for gathers and for exchanges between pencils all describe that partition; splitting a global array returns exactly the rank's block.",
  ["configurations", "inputs"], "every shape, every number of processes, every rank, both pencil directions",
  "the repository has no test of the decomposition at all",
  MD[:1], [("block partition and MPI count tables", "src/space_mpi/decomp2d/distribute.rs")],
  "property-based testing against the definition of a block partition", "Generated shapes and process counts; all ranks evaluated in one process." + SAMPLED)
prop("C21", "Distributed data movement loses, duplicates and misplaces nothing",
  "On any number of MPI ranks, transposing between pencils, gathering to the root or to all ranks, scattering from the root and splitting move every element of the global array to exactly the place its global index says, for every element type, memory layout of the operands, domain shape and order of calls, leave their inputs unchanged, and leave nothing of the previous contents of the output. Operands of a wrong shape and calls in the wrong role are refused before any communication.",
  ["histories", "configurations", "schedules", "inputs"], "all sequences of movements on 1 to 8 ranks, all shapes, layouts and element types, uneven splits",
  "the repository's tests never start MPI; its examples run one fixed shape",
  MD, [("pack, exchange and unpack of pencils", "src/space_mpi/decomp2d/mod.rs"), ("choice of decomposition by shape", "src/space_mpi/decomp_handler.rs")],
  "stateful model-based property testing under mpirun", "Generated histories executed on real MPI ranks; message timing is sampled as the operating system schedules it." + SAMPLED,
  state="per domain the global array held in x- and in y-pencils", observe="what each rank holds after every step")
prop("C22", "Distributed spaces compute what the serial space computes",
  "For every supported pair of bases and any number of MPI ranks, the distributed forward and backward transforms, conversions to and from the orthogonal base, gradients with any orders and scales, gathers, scatters and transposes give each rank exactly its pencil of what the serial space computes for the whole field (physical fields in y-pencils, coefficients in x-pencils), in allocating and in-place form and after any history; shapes, handed-out arrays, matrices, grids and rank-local operations agree with the serial space.",
  ["inputs", "configurations", "histories", "schedules"], "all fields, derivative orders, scales, base pairs, shapes and 1 to 8 ranks",
  "the repository's tests never start MPI; its examples run one fixed shape and one pair of bases",
  ["src/space_mpi/space2.rs", "src/space_mpi/traits.rs"] + MD, [("axis-wise transforms interleaved with pencil transposes", "src/space_mpi/space2.rs")],
  "property-based differential testing under mpirun against the serial space", "Generated spaces and histories executed on real MPI ranks." + SAMPLED)
prop("C23", "Scalar collectives deliver the root's value and the sum over ranks",
  "Broadcasting a scalar gives every rank the value of rank 0; summing on the root gives rank 0 the sum of all ranks' values and leaves the result of the others alone; summing on all ranks gives everyone that sum; arguments are unchanged, for every element type, number of ranks and order of calls.",
  ["inputs", "configurations", "histories"], "all values and element types, 1 to 8 ranks, sequences of calls",
  "the repository's tests never start MPI",
  ["src/space_mpi/decomp2d/functions.rs"], [("broadcast and gather based sums", "src/space_mpi/decomp2d/functions.rs")],
  "property-based testing under mpirun against a direct model", "Generated values and histories executed on real MPI ranks." + SAMPLED)
