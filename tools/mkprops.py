import json
import os
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=observe or [],hook_needed=hook))
D="torch_harmonics/distributed/"
ps=[]
ps.append(P("C01","Distributed spherical harmonic transforms equal the serial transforms",
 "For every process grid, uneven split, truncation, grid type, normalisation, leading shape and message timing, each rank's output of the distributed scalar and vector forward and inverse spherical harmonic transforms is exactly its balanced shard of the serial transform of the whole field, up to rounding. The same holds for the gradients with respect to the inputs, over repeated calls with different leading shapes, with and without debug checks. The caller's tensors are never modified.",
 ["schedules","configurations","inputs","histories"],
 "All polar x azimuth grids (including size-one and absent groups, row- or column-major rank numbering, several independent replicas), all sizes, truncations, norms, dtypes, memory layouts and leading shapes, every interleaving of ranks and of message delivery, every sequence of forward/backward calls.",
 "The repository's distributed tests need a multi-process launch and are not part of the reliable suite; when run they sample two grid sizes, one schedule and one call per module.",
 [D+"distributed_sht.py",D+"primitives.py"],
 [("all-to-all transposes between channel, longitude/order and latitude/degree sharding",D+"primitives.py: distributed_transpose_azimuth / distributed_transpose_polar"),("leading-dimension flattening and padding",D+"primitives.py: flatten_and_pad_leading_dims"),("sharded Legendre weights",D+"distributed_sht.py constructors")],
 [("per-rank shard","this rank's block of latitudes x longitudes or degrees x orders","module inputs/outputs")],
 ["return value of each module on each rank","input .grad on each rank"]))
ps.append(P("C02","Distributed DISCO convolutions equal the serial convolutions",
 "For every process grid, uneven split, resolution change, filter basis, group count, cutoff and message timing, the output of the distributed discrete-continuous convolution and its transposed counterpart on each rank is its balanced shard of the serial result on the whole field. Input gradients match shard by shard, and weight and bias gradients summed over all ranks of the grid match the serial gradients. Built with the same random seed on every rank, the module starts with the serial module's parameters.",
 ["schedules","configurations","inputs","histories"],
 "All grids and sizes (including uneven latitude, longitude and channel splits and groups of size one), kernel shapes, bases, groups, bias on/off, evaluation path (contraction order), every interleaving and every call sequence.",
 "The distributed tests are not in the reliable suite, sample a handful of shapes, and never vary message timing.",
 [D+"distributed_convolution.py",D+"kernels/distributed_convolution_kernels.py",D+"primitives.py"],
 [("per-rank split of the filter tensor",D+"distributed_convolution.py"),("azimuth transposes + polar reduce-scatter / gather",D+"distributed_convolution.py forward"),("reordered path collectives",D+"kernels/distributed_convolution_kernels.py")],
 [("local filter tensor","rows/columns of the filter belonging to this rank","psi_* buffers")],
 ["module outputs","input/weight/bias gradients"]))
ps.append(P("C03","Distributed resampling equals serial resampling",
 "For every process grid, pair of input/output grids and sizes, interpolation mode and message timing, each rank's output of distributed resampling is its balanced shard of the serial resampling of the whole field, including the values next to and at the poles and across the longitude seam. Input gradients match shard by shard.",
 ["schedules","configurations","inputs","histories"],
 "All grids, grid types, up/down-sampling ratios, uneven splits, modes, channel counts at least as large as the process groups, all interleavings.",
 "Distributed tests are outside the reliable suite and use a few even-ish sizes under one schedule.",
 [D+"distributed_resample.py",D+"primitives.py"],
 [("azimuth/polar transposes around local interpolation",D+"distributed_resample.py forward"),("pole expansion with azimuthal mean reduction",D+"distributed_resample.py")],None,["module outputs","input gradients"]))
ps.append(P("C04","Distributed quadrature and spectral convolution equal the serial ones",
 "For every process grid, split, and message timing, distributed spherical quadrature returns on every rank the serial integral of the whole field, and distributed spectral convolution returns each rank's shard of the serial result when its weights are the shards of the serial weights. Input gradients match shard by shard; quadrature gradients reach every rank; sharded weight gradients, summed over the directions in which a weight is replicated, equal the corresponding shard of the serial weight gradient. The initial weights of the shards have the scale of the serial ones, degree by degree.",
 ["schedules","configurations","inputs","histories"],
 "All grids, grid types, normalisations, truncations, channel groupings, spectral biases, sizes and interleavings.",
 "Distributed tests are outside the reliable suite and sample few shapes under one schedule.",
 [D+"distributed_quadrature.py",D+"distributed_spectral_convolution.py",D+"primitives.py"],
 [("polar then azimuth all-reduce of partial integrals",D+"distributed_quadrature.py"),("degree-sharded weights",D+"distributed_spectral_convolution.py")],None,["module outputs","input/weight/bias gradients"]))
ps.append(P("C05","Distributed neighborhood attention equals serial attention",
 "For every process grid, uneven split, head count, neighbourhood radius and resolution change (same size, down- and up-sampling), distributed neighborhood attention on each rank equals its shard of the serial attention of the whole field, given correct rank-local kernels, whatever the order and timing in which halo rows and ring chunks arrive. Input gradients match shard by shard and projection gradients summed over the grid match the serial gradients. Built with the same random seed on every rank, the module starts with the serial module's parameters. Configurations the halo scheme cannot serve are refused on every rank rather than computed wrongly.",
 ["schedules","configurations","inputs","histories"],
 "All grids, sizes, cutoffs, head counts, with/without query-key normalisation and bias, all interleavings of halo and ring messages in eager and rendezvous transports.",
 "The distributed attention tests need GPUs, so nothing runs this orchestration in the suite at all; even there the ring timing is whatever the hardware does.",
 [D+"distributed_attention.py",D+"primitives.py"],
 [("polar halo exchange",D+"primitives.py: polar_halo_exchange"),("azimuth ring exchange of key/value chunks with online softmax",D+"distributed_attention.py"),("gradient ring accumulation",D+"distributed_attention.py backward")],
 [("ring buffers","key/value chunk in flight","distributed_attention.py")],["module outputs","gradients"]))
ps.append(P("C06","Communication primitives move, sum and differentiate exactly",
 "For every tensor (any dtype, memory layout or lazily conjugated view), dimension and group size, with shards split as compute_split_shapes splits them, the public communication primitives (scatter, gather, copy, reduce, reduce-scatter, transpose, halo exchange and the split helpers) return exactly the documented redistribution or sum with the input's dtype and no loss of precision or of imaginary parts, and their backward passes are the documented adjoints. They never modify the caller's tensors, and mis-declared shapes are refused under debug checks.",
 ["schedules","configurations","inputs"],
 "All group sizes, dimensions, even and uneven sizes, dtypes from bfloat16 to complex128, memory layouts, interleavings and delivery timings.",
 "Primitive tests are multi-process and outside the reliable suite; they sample float32, few shapes and one schedule.",
 [D+"primitives.py",D+"utils.py"],
 [("balanced split",D+"primitives.py: compute_split_shapes, split_tensor_along_dim"),("padding of uneven reduce-scatter",D+"primitives.py"),("autograd functions pairing each collective with its adjoint",D+"primitives.py")],None,["return values and gradients of the functions exported by torch_harmonics.distributed"]))
ps.append(P("C07","Every rank makes progress: no deadlock, no mismatched collectives",
 "In any program in which all ranks make the same sequence of library calls, the ranks issue matching collective and point-to-point operations with matching sizes and types, so that every call returns on every rank within a bounded number of scheduling steps under every interleaving, every pace of the individual ranks and both buffered and rendezvous message transports. This holds for any mix of modules, for forward and backward, for inputs requiring gradients or not, and with debug checks on or off.",
 ["schedules","programs","configurations","histories"],
 "All programs over the distributed modules and primitives, all interleavings, stalled ranks, all grids.",
 "Tests run one schedule of one module at a time; a deadlock that needs a particular pace, transport or gradient pattern does not show.",
 [D+"primitives.py",D+"distributed_attention.py",D+"distributed_sht.py",D+"distributed_convolution.py",D+"distributed_resample.py"],
 [("same order of collectives on every rank",D+"* forward/backward"),("batched send/receive",D+"primitives.py: polar_halo_exchange")],
 [("outstanding operations","operations issued but not complete, per group","simulated process group")],["completion of each library call"],None))
ps.append(P("C08","Results do not depend on when messages are read or delivered",
 "The value of every result and gradient is a function of the inputs only: a buffer handed to an asynchronous communication operation is neither read before the operation completes nor modified while it may still be sent, so bit-identical results are produced whether messages are consumed and delivered as early or as late as the operation allows, however the ranks interleave. Memory that has not been written is never read.",
 ["schedules","inputs","configurations"],
 "All delivery times between posting and completion, all interleavings, all module configurations.",
 "A test observes one timing per run; early reads usually return the right bytes by luck.",
 [D+"distributed_attention.py",D+"primitives.py",D+"kernels/distributed_convolution_kernels.py"],
 [("wait before use of receive buffers",D+"distributed_attention.py ring steps"),("fresh send buffers",D+"primitives.py")],
 [("in-flight buffers","tensors owned by the transport between post and wait","simulated process group")],["module outputs and gradients under two schedules of the same inputs"]))
ps.append(P("C09","A failed or crashed step leaves nothing behind; restart resumes exactly",
 "If a rank crashes, a communicator aborts or an allocation fails at any point inside a distributed call, surviving ranks get an error rather than a wrong result, and after shutting down and re-initialising, possibly on a different process grid, the same modules' parameters saved before the failure and the same inputs give the same results as a run that never failed. A caught failure never corrupts module parameters, buffers or the caller's tensors.",
 ["crash_points","fault_sequences","schedules","histories"],
 "Crash or abort before any communication operation on any rank; failure of any tensor operation; any later re-initialisation on any grid.",
 "No test injects a failure.",
 [D+"utils.py",D+"primitives.py",D+"distributed_sht.py",D+"distributed_convolution.py",D+"distributed_attention.py"],
 [("finalize then init",D+"utils.py"),("grid-independent saved state: shards derived at construction, not persisted",D+"* register_buffer(persistent=False)")],
 [("module-level group registry","current polar/azimuth groups",D+"utils.py")],["errors raised by library calls","results after re-initialisation","module state_dict"]))
ps.append(P("C10","Initialise/finalise lifecycle and queries follow a simple state machine",
 "After any history of initialise, finalise and failures, the library's queries (initialised, group sizes, ranks, distributed flags) describe exactly the groups last registered; finalising destroys each registered group once, resets every query to its serial answer, may be repeated or come after torch.distributed was shut down, and allows initialising again with other groups, under which modules built then work as in a fresh process. The debug switch follows its environment variable at the time it is read unless it was set explicitly. Without registered groups, or with groups of one rank, all primitives (halo padding aside) behave as local identities without communicating.",
 ["histories","fault_sequences","schedules","configurations"],
 "All sequences of lifecycle calls on all ranks in any interleaving, with absent, single-rank and multi-rank groups, debug overrides, and failing group destruction.",
 "The tests initialise once per process.",
 [D+"utils.py",D+"primitives.py"],
 [("module-level group registry",D+"utils.py: init / finalize")],
 [("registered groups","polar group, azimuth group, initialised flag",D+"utils.py")],["is_initialized, *_group_size, *_group_rank, is_distributed_*"]))
ps.append(P("C11","CPU kernels do not depend on the number or interleaving of threads",
 "When the CPU kernels are built with multi-threading, every kernel (convolution, transposed convolution, neighborhood attention forward and backward in same-size, down- and up-sampling variants, and index preprocessing) computes, for every thread count, work distribution and interleaving of the threads, the same result as its single-threaded execution up to rounding, and no thread writes an element another thread writes or reads in the same parallel region unless synchronised.",
 ["schedules","inputs","configurations"],
 "All thread counts, all work-sharing assignments and all interleavings of memory accesses, all shapes and dtypes.",
 "The test build compiles the kernels without multi-threading, so no parallel execution is ever tested.",
 ["torch_harmonics/disco/optimized/kernels_cpu","torch_harmonics/attention/optimized/kernels_cpu","setup.py"],
 [("disjoint work sharing by output row/channel","OpenMP pragmas in the CPU kernels"),("thread-private accumulators","CPU kernels")],None,["kernel outputs"]))
ps.append(P("C12","Cached precomputations cannot be corrupted by callers, history or threads",
 "Precomputed quadrature rules, Legendre tables and filter tensors that are cached between calls always equal a fresh computation for the same arguments, after any history of calls with other arguments or under another default device, default dtype or gradient mode, in-place changes by callers of values they were given, failures in the middle of a computation, and concurrent callers.",
 ["histories","schedules","fault_sequences"],
 "All sequences of constructions, in-place mutations of returned values, injected failures and interleavings of threads.",
 "Tests construct modules in one order and do not mutate what they receive.",
 ["torch_harmonics/cache.py","torch_harmonics/quadrature.py","torch_harmonics/legendre.py","torch_harmonics/disco/convolution.py","torch_harmonics/filter_basis.py"],
 [("cache decorator handing out copies","torch_harmonics/cache.py")],[("cache","arguments -> precomputed tensors","torch_harmonics/cache.py")],["values returned by the precomputation functions and by modules built from them"]))
ps.append(P("C13","Modules are re-entrant and independent of call history and failures",
 "The result of calling a serial module (transforms, convolutions, attention, resampling, quadrature, spectral convolution, random fields with given noise) depends only on its parameters and inputs: concurrent calls from several threads on the same or different modules, earlier calls with other shapes, dtypes or gradient modes, earlier parameter updates and earlier calls that failed half-way give the same results and gradients as an isolated call, also when the backward pass runs later or twice. Inputs, parameters, previously returned results and global settings are left unchanged. A deep or pickled copy of a module, and a new module that loaded its saved state, compute what the module computes.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of caller threads at Python and operator granularity, all call histories, parameter updates, copies and restarts from saved state between calls, failure of any tensor operation.",
 "Tests call each module once or twice from a single thread without failures.",
 ["torch_harmonics/sht.py","torch_harmonics/disco/convolution.py","torch_harmonics/disco/optimized/disco_optimized.py","torch_harmonics/attention/attention.py","torch_harmonics/attention/optimized/attention_optimized.py","torch_harmonics/resample.py","torch_harmonics/quadrature.py","torch_harmonics/spectral_convolution.py","torch_harmonics/random_fields.py"],
 [("stateless forward over read-only buffers","module forward methods")],None,["module outputs and gradients"]))
ps.append(P("C14","Downloaded elevation data is complete or absent, never partial",
 "After any sequence of attempts to load the elevation data set, interrupted by network errors, short transfers, disk errors or process crashes at any point, a later attempt never treats partial or empty data as the cached file: it either returns the complete data or fails with an error, and once the network and disk work again a retry succeeds.",
 ["crash_points","fault_sequences","histories"],
 "Every crash point and every I/O or network fault during any number of attempts.",
 "Tests do not download anything.",
 ["torch_harmonics/utils.py"],
 [("existence check of the cached file before downloading","torch_harmonics/utils.py: load_mola_elevation")],
 [("cached file","data file in the cache directory","file system")],["return value or exception, contents of the cache directory"]))
ps.append(P("C15","The Stanford data set is prepared completely or not at all",
 "After any sequence of attempts to prepare the Stanford 2D-3D-S data set in a directory (download of the archives with resumption, extraction, conversion), one at a time, interrupted by connection errors, HTTP errors, servers that ignore range requests, disk errors or process crashes at any point, an attempt that returns gives a data set equal to that of an undisturbed preparation (same samples, labels and statistics up to the order of the samples); an attempt that meets no fault of its own succeeds whatever earlier attempts left behind; and a prepared data set is not downloaded again.",
 ["crash_points","fault_sequences","histories"],
 "Every crash point and every I/O or network fault during any number of attempts.",
 "Tests do not download or convert anything.",
 ["torch_harmonics/examples/stanford_2d3ds_dataset.py"],
 [("resumed downloads, extraction, existence checks, conversion","torch_harmonics/examples/stanford_2d3ds_dataset.py: Stanford2D3DSDownloader")],
 [("data directory","archives, partial downloads, extracted folders, converted file","file system")],["return value or exception, contents of the converted file"]))
ps.append(P("C16","Bundled models, losses, metrics and solvers do not depend on history",
 "The models, losses and metrics in torch_harmonics.examples (models in evaluation mode), the shallow water and reaction-diffusion solvers and the samples of the shallow water data set (for a given seed) depend only on their parameters and inputs: concurrent calls from several threads, earlier calls with other batch sizes, values or gradient modes, earlier parameter updates and calls that failed half-way give the same results and gradients as an isolated call. Inputs, parameters, buffers, earlier results and global settings are left unchanged. Copies, and new objects that loaded the saved state, compute the same.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of caller threads, call histories, parameter updates, copies and restarts from saved state, failure of any tensor operation.",
 "The tests do not touch the bundled models, losses or solvers.",
 ["torch_harmonics/examples/models","torch_harmonics/examples/losses.py","torch_harmonics/examples/metrics.py","torch_harmonics/examples/shallow_water_equations.py","torch_harmonics/examples/pde_sphere.py","torch_harmonics/examples/pde_dataset.py"],
 [("stateless forward over read-only buffers","forward methods, timestep, dudtspec")],None,["outputs, gradients, saved state"]))
na=[]
def N(id,title,st,text,why,files,mech):
    ps.append(P(id,title,st,["inputs"],text,why,files,mech))
N("N01","Transforms are accurate and invert each other on band-limited fields","For every supported grid, truncation and normalisation, forward and inverse transforms of band-limited fields are mutually inverse and orthonormal up to rounding.","All sizes, grids and coefficients.","Tests sample a few sizes.",["torch_harmonics/sht.py","torch_harmonics/legendre.py"],[("Legendre recursion","torch_harmonics/legendre.py")])
N("N02","Quadrature rules integrate exactly to their stated degree","Every quadrature rule has nodes in order, positive weights where documented, and integrates polynomials exactly up to its degree.","All sizes.","Tests sample a few sizes.",["torch_harmonics/quadrature.py"],[("node/weight formulas","torch_harmonics/quadrature.py")])
N("N03","Optimised and reference kernels agree","For every configuration the optimised CPU convolution and attention kernels equal the reference tensor implementations in value and gradient.","All shapes, bases and cutoffs.","Tests sample configurations.",["torch_harmonics/disco","torch_harmonics/attention"],[("kernel dispatch","torch_harmonics/disco/convolution.py")])
N("N04","Resampling, truncation and filter bases compute their formulas","Interpolation, truncation rules and filter basis functions return the documented mathematical values for every input.","All inputs.","Tests sample inputs.",["torch_harmonics/resample.py","torch_harmonics/truncation.py","torch_harmonics/filter_basis.py"],[("formulas","torch_harmonics/resample.py")])
N("N05","GPU kernels equal the CPU kernels","Every GPU kernel returns the CPU kernel's result.","All inputs.","No GPU in the test environment.",["torch_harmonics/disco/optimized/kernels_cuda","torch_harmonics/attention/optimized/kernels_cuda"],[("CUDA kernels","kernels_cuda")])
N("N06","Compiled and eager execution agree","Compiling a module does not change its results.","All modules and shapes.","Tests sample modules.",["torch_harmonics/disco/optimized/disco_optimized.py","torch_harmonics/attention/optimized/attention_optimized.py"],[("fake kernels registered for tracing","torch_harmonics/*/optimized")])
for p in ps:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in ps))
