#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in git; run by hand when a property changes).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ACC = ["src/base/accel.c", "src/threaded/entry.c", "src/threaded/gemm.c", "src/threaded/symm.c",
       "src/threaded/trmm.c", "src/threaded/trsm.c", "src/workers/entry.c", "src/workers/workers.c",
       "src/workers/transient.c", "src/workers/gemm.c", "src/workers/queue.h", "src/workers/counter.h",
       "src/workers/workers.h", "src/include/accel.h"]

prop("C01", "Accelerated BLAS3 results equal the sequential results",
 "A general, symmetric or triangular matrix multiply or a triangular solve called with an accelerator (simple, workers or transient) that returns success leaves in its target the mathematically defined result to within the rounding-error bound of the sequential operation, for every partitioning policy, thread limit, minimum-elements setting, shape, leading dimension, scalar and flag combination. "
 "When the call returns, every part of the target has been computed, and nothing outside the target view (padding rows, the rest of a parent matrix, the input operands) has changed. "
 "This holds whatever the order in which threads run.",
 ["schedules", "inputs", "configurations"],
 "every accelerator x policy x (min_elems, maxproc) x operand shapes/strides/flags x thread schedule, including sequences of calls on one handle",
 "The tests run three fixed sizes on the schedule the OS happens to produce with the machine's core count; they never see a late worker, a different tile count, or an unusual block boundary.",
 ACC + ["src/blas/gemm.c", "src/blas/symm.c", "src/blas/trmm.c", "src/blas/trsm.c", "src/blas/kernel.c"],
 [("dispatch with fall back to sequential code", "src/blas/gemm.c armas_mult, src/base/accel.c armas_ac_dispatch"),
  ("disjoint block/tile partition of the target", "src/include/accel.h armas_ac_block_index, src/workers/gemm.c schedule_tiles"),
  ("completion counter", "src/workers/counter.h"), ("join of every started thread", "src/threaded/*.c")],
 ["return value and target matrix of armas_mult, armas_mult_sym, armas_mult_trm, armas_solve_trm"])

prop("C02", "Every accelerated call returns: no deadlock, lost task or lost wake-up",
 "Every call that initialises, uses or releases an accelerator returns within a bounded number of scheduling steps once threads are scheduled fairly. "
 "This holds for any number of blocks or tiles relative to the number of threads and internal queue capacity, and after any earlier interleaving, spurious wake-up, arbitrarily slow thread or clock jump.",
 ["schedules", "fault_sequences", "configurations"],
 "schedules x spurious wake-ups x stalled threads x clock jumps x (tiles, threads, queue capacity) x call sequences",
 "A deadlock or lost wake-up needs a full queue, a thread that is just exiting, or a spurious wake-up at one particular instruction; the tests queue a handful of tasks on an idle machine.",
 ACC, [("bounded task queue with conditions", "src/workers/queue.h"), ("completion counter", "src/workers/counter.h"),
       ("on-demand thread start", "src/workers/transient.c sched_transient_schedule"), ("worker stop and join", "src/workers/workers.c sched_workers_stop")],
 ["return of armas_mult & co., armas_ac_init, armas_ac_release"])

prop("C03", "Accelerator lifecycle: any init, use, release order ends all threads",
 "Any number of accelerators may be created, used zero or more times and released, in any order, repeatedly and side by side, without a crash or hang and without one handle disturbing another. "
 "When a release returns, every thread the accelerator started has ended or is certain to end without touching released memory, and all memory the accelerator and its calls obtained (other than the calling thread's own cached block buffer) has been returned.",
 ["histories", "schedules", "configurations"],
 "histories of init/use/release over several handles of every kind x thread schedules x policies",
 "The tests create one handle, use it and exit the process, so leaks, joins of never-started threads and stop/start races never show.",
 ACC, [("scheduler release", "src/workers/entry.c armas_ac_workers_release"), ("stop and join of workers", "src/workers/workers.c"),
       ("transient thread exit protocol", "src/workers/transient.c")],
 ["armas_ac_init, armas_ac_release; live threads and live heap blocks afterwards"])

prop("C04", "Accelerator threads never race on, overrun or use freed operand memory",
 "During an accelerated call no two threads access the same element of an operand, target or intermediate buffer without an ordering between them when at least one of them writes. "
 "No thread reads or writes memory outside a live object, or memory that has been freed or whose owning call has returned, at any point of any schedule.",
 ["schedules", "inputs", "configurations"],
 "thread schedules with preemption at every memory access x accelerators x policies (including doubled scheduling) x sizes",
 "The tests check values after the fact; a race or use-after-free that happens to give the right value, or that needs a preemption between two particular instructions, passes them.",
 ACC + ["src/base/cache.c"],
 [("per-thread block buffer", "src/base/cache.c armas_cbuf_create_thread_global"), ("task reference count before task memory is freed", "src/workers/gemm.c, src/workers/workers.h worker_all_ready"),
  ("disjoint target blocks", "src/workers/gemm.c, src/threaded/*.c")],
 ["every load and store the library performs during the call"])

prop("C05", "Thread-start or memory failure in an accelerated call is safe and visible",
 "If starting a thread or allocating memory fails at any point of creating or using an accelerator, the call either still delivers the complete correct result or returns a negative value. "
 "It never hangs, crashes, leaks, or returns success with a partial result, and later calls on the same handle, once failures stop, work normally.",
 ["fault_sequences", "schedules", "inputs"],
 "each thread-creation and each allocation (in the calling thread and in every helper thread) failing alone or in combination x schedules x accelerators",
 "The tests never make an allocation or a thread creation fail.",
 ACC + ["src/base/cache.c"],
 [("per-block error report", "src/threaded/*.c args.error"), ("task array and queue allocation checks", "src/workers/gemm.c, src/workers/transient.c")],
 ["return value, target contents, later calls"])

prop("C06", "Independent calls from several application threads do not affect each other",
 "Application threads that call the library at the same time on separate operands, each with its own configuration block or with none, get exactly the results they would get running alone. "
 "This includes the very first library use in the process happening in several threads at once, threads that own different accelerators, and the Fortran/CBLAS-compatible entry points.",
 ["schedules", "programs"],
 "programs of library calls in 2-4 application threads x schedules with preemption at every memory access",
 "Every test program is single-threaded at the application level.",
 ["src/base/env.c", "src/base/accel.c", "src/base/cache.c", "src/blas", "src/lapack", "src/sparse", "src/compat", "src/io"],
 [("thread-local block buffer", "src/base/cache.c"), ("one-time environment read", "src/base/env.c, src/base/accel.c"),
  ("state only in caller supplied configuration/workspace", "src/lapack/*.c")],
 ["results of each thread's calls compared with a solo run"])

prop("C07", "Configuration reading is side-effect free; any valid tuning gives same results",
 "Reading the configuration variables yields exactly the documented values for present fields and the defaults for absent or invalid ones, leaves the process environment unchanged, and happens consistently when the first use is made by several threads at once. "
 "Any valid block-size, memory-size, thread-limit and policy setting changes only speed: BLAS level 2, level 3 and extended-precision results stay within the rounding bound, no memory outside the configured buffers is touched, and no more than the configured number of computing threads is used.",
 ["configurations", "schedules"],
 "values of the three configuration variables x first-use interleavings x operations",
 "The tests run with the environment unset; they never run the parser, other block sizes, or concurrent first use.",
 ["src/base/env.c", "src/base/accel.c", "src/base/cache.c", "src/blas/kernel.c", "docs/environment.md"],
 [("environment parser", "src/base/env.c armas_read_environment, src/base/accel.c armas_ac_read_env"), ("buffer split", "src/base/cache.c armas_cbuf_split2/3")],
 ["armas_getenv, armas_ac_getenv, getenv() afterwards, results of BLAS3 calls"])

prop("C08", "Allocation failure in any computation gives an error, no crash, no leak",
 "If any single memory allocation or all allocations from some point on fail inside a dense linear-algebra call (basic, extended precision, factorisation, solver, inverse, eigenvalue or singular value), the call either succeeds with a correct result or reports failure through its return value and the error code of its configuration block. "
 "It never crashes, never leaks memory, and the same call with the inputs restored succeeds once memory is available again.",
 ["fault_sequences", "inputs"],
 "each allocation of each operation failing (singly or from there on) x operations x shapes x block sizes",
 "The tests never make an allocation fail.",
 ["src/lapack", "src/blas", "src/eblas", "src/base/cache.c"],
 [("workspace allocation check", "src/lapack/*.c armas_walloc(...) -> ARMAS_EMEMORY"), ("block buffer selection check", "src/base/cache.c armas_cbuf_select and callers")],
 ["return values, conf error, live heap blocks"])

prop("C09", "Workspace contract: queried size suffices, bounds kept, contents irrelevant",
 "For every operation with an explicit workspace, a workspace of exactly the size the query reports is enough and the operation never reads or writes outside it; any smaller workspace either still gives a correct result or is refused with an error before memory outside it is touched. "
 "The result does not depend on what the workspace or caller-provided block buffer contained before, and afterwards the workspace is as free for reuse as before the call.",
 ["inputs", "configurations", "histories"],
 "operations x shapes x block sizes x workspace sizes from zero to the queried size x initial workspace contents x reuse of one workspace over a sequence of calls",
 "The tests always use the queried size, in zeroed or exclusively owned memory, and cannot see an overrun of a few elements.",
 ["src/lapack", "src/eblas", "src/sparse", "src/base/cache.c", "src/include/armas.h"],
 [("size query", "src/lapack/*.c *_w functions"), ("workspace reservations", "src/include/armas.h armas_wreserve"), ("block size adaption to workspace", "src/lapack/support.c, src/lapack/*.c")],
 ["workspace bytes, guard zones, offset, results"])

prop("C10", "JSON matrices survive any stream: round trip, truncation, I/O error",
 "A matrix written as JSON and read back from the same stream or buffer has the same dimensions and the same values to the written precision, and consecutive items on one stream can be read one after another. "
 "A stream that ends early, reports an error, fills up, or whose bytes are damaged never causes a crash, out-of-bounds access, hang or leak, and a write or a read that did not transfer the complete matrix reports failure instead of success.",
 ["fault_sequences", "inputs"],
 "matrices x stream kinds (file, string, buffer) x end-of-stream/error/short write at every byte x damaged bytes x allocation failures",
 "No test touches JSON input or output at all.",
 ["src/io/json_reader.c", "src/io/json_writer.c", "src/io/json_base.c", "src/io/json_file.c", "src/io/ios.c"],
 [("tokenizer with bounded buffer", "src/io/json_reader.c armas_json_read_token"), ("writer error propagation", "src/io/json_writer.c JSON_ONERROR"), ("reader clean-up", "src/io/json_base.c error_exit")],
 ["armas_json_read, armas_json_write, armas_json_load, armas_json_dump and the token functions"])

prop("C11", "Matrix Market files survive any stream: round trip, truncation, I/O error",
 "A dense or sparse matrix written in Matrix Market format and loaded again has the same dimensions, symmetry flag and values to the written precision. "
 "A file that ends early, is malformed, or reports a read error never causes a crash, out-of-bounds access, hang or leak and is not reported as successfully loaded with missing entries; a dump whose bytes could not be written reports failure.",
 ["fault_sequences", "inputs"],
 "matrices x formats (array/coordinate, general/symmetric) x end-of-stream/error/short write at every byte x damaged bytes x allocation failures",
 "No test touches Matrix Market input or output.",
 ["src/io/iomm.c", "src/sparse/io.c"],
 [("banner and size parser", "src/io/iomm.c __mmread_banner/__mmread_size"), ("element count check", "src/io/iomm.c armas_mmload"), ("sparse reader", "src/sparse/io.c")],
 ["armas_mmload, armas_mmdump, armassp_mmload, armassp_mmdump"])

prop("C12", "Factorisations and solvers are backward stable under any tuning and schedule",
 "Every matrix factorisation, solver, inverse and multiplication-by-Q (LU, Cholesky with and without pivoting, LDL, Bunch-Kaufman, QR/LQ/QL/RQ, QR with T, Hessenberg, triangular inverse) that reports success reproduces its input or solves its system to a small multiple of machine precision, touching only its documented outputs; Householder, hyperbolic, block-reflector and butterfly transformations equal the matrices they stand for. "
 "This holds for every block size, every amount of workspace it accepts, every block-buffer size and with every accelerator, in every thread schedule.",
 ["configurations", "schedules", "inputs"],
 "operations x shapes x sides/flags x block size x workspace size x buffer memory x accelerator x schedule",
 "The tests run each factorisation at one or two sizes with the default block size, ample workspace and no accelerator.",
 ["src/lapack"],
 [("blocked/unblocked algorithm switch", "src/lapack/*.c env->lb"), ("workspace-driven block size", "src/lapack/*.c compute_lb"), ("accelerated kernels below", "src/blas/gemm.c")],
 ["factored matrices, solutions, guard zones around operands"])

prop("C13", "Sparse matrices agree with their dense meaning, also under memory failure",
 "Building, appending to, sorting, converting, transposing, copying, adding and multiplying sparse matrices, and applying or solving with them, gives the same result as the corresponding dense operation on the matrix they represent. "
 "If an allocation fails on the way the operation reports failure, leaves its inputs valid and representing the same matrix, and nothing is leaked or accessed out of bounds.",
 ["histories", "fault_sequences", "inputs"],
 "histories of sparse operations x storage kinds x patterns (empty rows/columns, full, duplicates-free random) x allocation failure at each allocation",
 "The regular test run has no sparse tests, and none that fails an allocation.",
 ["src/sparse"],
 [("growth of coordinate storage", "src/sparse/util.c armassp_append/armassp_resize"), ("conversions", "src/sparse/convert.c"), ("accumulator", "src/sparse/accum.c, src/sparse/mult.c, src/sparse/add.c")],
 ["armassp_* results compared with a dense model"])

prop("C14", "Iterative sparse solvers stop in time and report the truth",
 "Every iterative solver (CG, preconditioned CG, CGNE, CGNR, GMRES, preconditioned GMRES) returns after at most the configured number of iterations. "
 "Success means that the reported residual norm is the true one of the returned vector to rounding (CGNR: of the normal equations) and satisfies the configured stopping criterion, reaching the limit first is reported as not converged; "
 "the first iterates are the best approximations of the method's Krylov space and, for reachable criteria, the result is never worse than the starting vector. "
 "The incomplete factorizations used as preconditioners are exact on their pattern. With too little workspace or failing allocations an error is reported, the operands are unchanged and nothing is leaked or accessed out of bounds.",
 ["inputs", "configurations", "fault_sequences"],
 "systems x iteration limits x stopping criteria x preconditioners x workspace sizes x allocation failures",
 "The regular test run has no iterative-solver tests; convergence of one fixed system says nothing about limits, tight workspace or failures.",
 ["src/sparse/cgrad.c", "src/sparse/pcgrad.c", "src/sparse/cgne.c", "src/sparse/cgnr.c", "src/sparse/gmres.c", "src/sparse/pgmres.c", "src/sparse/icholz.c", "src/sparse/iluz.c"],
 [("iteration limit and stop test", "src/sparse/*.c maxiter/stop"), ("workspace check", "src/sparse/*.c *_w")],
 ["return value, conf numiters/residual, solution vector"])

prop("C15", "Matrix, pivot, buffer and accumulator objects survive any failing history",
 "Any history of creating, copying, viewing, resizing and releasing matrices, pivot vectors, workspaces and block buffers in which allocations may fail leaves every surviving object usable with its contents intact, reports each failed creation, and when all objects are released no memory remains. "
 "Releasing is safe on empty, failed and already released objects. Element access, element-wise updates (whole, upper or lower part, with or without diagonal), copies and pivoting through any view change exactly the elements the view and flags address, in every matrix and view that shares them. "
 "Parts of a cache buffer never overlap or leave it.",
 ["histories", "fault_sequences"],
 "histories of object operations x allocation failure at each allocation",
 "Tests create objects that always succeed and exit without checking what remains.",
 ["src/base/matrix.c", "src/base/pivot.c", "src/base/cache.c", "src/include/matrix.h", "src/include/armas.h", "src/blas/mset.c", "src/blas/mapply.c", "src/blas/madd.c", "src/blas/mplus.c", "src/blas/mscale.c", "src/blas/mcopy.c", "src/sparse/accum.c"],
 [("allocation checks", "src/base/matrix.c armas_init, src/include/matrix.h armas_alloc"), ("release idempotence", "src/include/matrix.h armas_release, src/include/pivot.h")],
 ["object fields and contents, live heap blocks"])

prop("C16", "Eigenvalue and singular value computations are correct under any tuning",
 "Symmetric eigenvalue, selected-eigenvalue, tridiagonal, secular-equation, bidiagonal and singular value computations and the reductions they are built on (tridiagonal, bidiagonal) that report success deliver values and vectors satisfying the defining equations with orthonormal vectors to a small multiple of machine precision and in documented order. "
 "This holds for every shape, block size, accepted workspace size and with every accelerator in every schedule, and each call ends in a bounded number of iterations.",
 ["configurations", "schedules", "inputs"],
 "operations x shapes (tall, wide, square, tiny) x flags x block size x workspace size x accelerator x schedule",
 "The tests use a few sizes with ample workspace, default block size and no accelerator.",
 ["src/lapack/svd.c", "src/lapack/evd.c", "src/lapack/bired.c", "src/lapack/bdsvd.c", "src/lapack/trired.c", "src/lapack/trdevd.c", "src/lapack/trdbis.c", "src/lapack/dqds.c"],
 [("workspace layout", "src/lapack/svd.c, src/lapack/evd.c"), ("iteration limit", "src/lapack/bdsvd_*.c, src/lapack/trdevd.c")],
 ["values, vectors, reconstruction residuals"])

prop("C17", "Extended-precision operations are more accurate than working precision",
 "Extended-precision sums, dot products, vector updates, matrix-vector and matrix-matrix products, rank updates and triangular solves return the correctly computed result as if accumulated in twice the working precision: the error is a few units in the last place of the result however strongly the operands cancel (within the limits of doubled precision). "
 "This holds for every shape, stride, flag and scalar, under every tuning and accepted workspace size, wherever the memory lies and in every calling mode.",
 ["configurations", "inputs"],
 "operations x shapes x flags x strides x degree of cancellation x tunings x workspace sizes and contents",
 "The tests use a few constructed operands of one size with the default tuning.",
 ["src/eblas", "src/include/eft.h"], [("error free transformations", "src/include/eft.h"), ("error terms", "src/eblas/*_ext.c")],
 ["result elements"])

prop("C18", "Vector, matrix-vector, rotation and sorting functions compute their definitions",
 "Vector operations (inner product, norms, extreme elements, axpy/axpby, scale, swap, copy), matrix-vector products, updates and triangular solves, diagonal scaling, Givens rotations of vectors, rows and columns, sorting of vectors with or without their eigenvectors, tolerance comparison, scaling by a ratio, and the scalar helpers (plane rotation, discriminant and quadratic roots, 2x2 eigenvalues and singular values) return the mathematically defined result to within rounding error for every length, stride, orientation and flag, and write nothing else. "
 "The random number functions stay in their range and repeat exactly after the same seed. "
 "This holds under every tuning and summation method, wherever the operands lie in memory, at first use as well as later, and while other threads use the library with other operands.",
 ["inputs", "configurations", "schedules"], "operations x lengths x strides x flags x value patterns (ties, sorted, cancelling, badly scaled) x tunings x schedules of other threads",
 "The tests sample a few sizes of contiguous operands with uniform random values in one thread; most of the helpers have no test at all.",
 ["src/blas", "src/lapack/givens.c", "src/lapack/gvrot.h", "src/lapack/sort.c", "src/lapack/qsort.c", "src/lapack/qdroot.c", "src/lapack/aux.c", "src/base/random.c", "src/base/matrix.c"],
 [("scalar kernels", "src/blas/*.c"), ("blocked recursion limit from the tuning", "src/blas/gemv.c, trmv.c, trsv.c"), ("rotation sequences", "src/lapack/givens.c armas_gvupdate")],
 ["result vectors, matrices and return values"])

prop("C19", "Fortran and CBLAS entry points map arguments to the native operations",
 "Each compatibility entry point of the library (level 1, 2 and 3 Fortran names; CBLAS names for gemm, symm, trmm, trsm in row- and column-major order) computes what the BLAS interface standard defines for its arguments: "
 "sides, triangles, transposes (a conjugate transpose of a real matrix is its transpose), unit diagonals, upper and lower case option characters, leading dimensions, strides, negative increments, rectangular, small and empty operands. "
 "It touches only the elements the standard says it may touch, under every tuning of the library, and also when several threads call such functions with operands of their own.",
 ["inputs", "configurations", "schedules"], "entry points x options x shapes x leading dimensions and increments x storage order x tunings x schedules of other threads", "The regular test run has no compatibility tests at all.",
 ["src/compat", "src/include/compat.h", "src/include/float64/names_compat.h"], [("argument mapping", "src/compat/*.c"), ("vectors with negative increments", "src/include/compat.h compat_vector")],
 ["result operands and return values of d*_ and cblas_d* functions"])

prop("C20", "Text output shows the object, goes to the given stream and nowhere else",
 "Printing a matrix, a pivot vector or the structure of a sparse matrix writes exactly the text of its values in the given format (long rows and columns abbreviated to their first and last elements), row by row, to the given stream, and leaves the object as it was. "
 "Nothing is written to any other stream, and no computational function writes to the standard output or error stream at all. If the device fails, what arrived is the beginning of that text; no output failure or failed allocation causes a crash, an access out of bounds or a leak.",
 ["inputs", "fault_sequences"], "matrices, views, pivots, sparse structures x formats x buffering x write faults at every byte x allocation failures", "Tests print only when verbose, to standard output, and never look at the text.",
 ["src/base/matrix.c", "src/base/pivot_ext.c", "src/sparse/io.c", "src/lapack", "src/blas"], [("armas_printf, armas_print", "src/base/matrix.c"), ("armas_pivot_printf", "src/base/pivot_ext.c"), ("armassp_pprintf, armassp_iprintf", "src/sparse/io.c")],
 ["bytes written"])

prop("C21", "Operands whose sizes do not fit are refused or left in bounds, never overrun",
 "A native dense operation that returns a status, called with a matrix, vector or pivot vector of any other size (also empty, transposed, too long or two at once), returns, neither crashes nor leaks, and reads and writes no byte outside the operands and workspace it was given. "
 "A negative return sets the error code of the configuration block; basic (BLAS-type) operations have then changed no operand, and they refuse every operand whose rows or columns disagree with the other operands. Factorisations, builders, solvers and multiplications by factors refuse a scalar (tau) or pivot vector that is shorter than the factor needs and operands that do not fit it.",
 ["inputs"], "every dense operation x each operand or pivot vector x one or two wrong sizes x environment x workspace", "Tests never pass an operand of a wrong size; an overrun needs memory that ends at the operand to be seen.",
 ["src/blas", "src/eblas", "src/lapack", "src/base"], [("size checks of armas_mult, armas_mvmult, ...", "src/blas"), ("armas_qrbuild_w, armas_bdreduce_w, armas_bdmult_w, ...", "src/lapack"), ("armas_lufactor, armas_pivot_rows", "src/lapack/lu.c")],
 ["return value and error code", "memory accesses and operand contents"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
