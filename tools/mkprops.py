"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os

K = "gconv/gnn/kernels/kernel.py"
M = "gconv/gnn/modules/gconv.py"
LAY = ["gconv/gnn/modules/gconv_sen/gconv_se2.py", "gconv/gnn/modules/gconv_sen/gconv_se3.py",
       "gconv/gnn/modules/gconv_en/gconv_e2.py", "gconv/gnn/modules/gconv_en/gconv_e3.py"]
KER = ["gconv/gnn/kernels/kernel_sen/kernel_se2.py", "gconv/gnn/kernels/kernel_sen/kernel_se3.py",
       "gconv/gnn/kernels/kernel_sen/kernel_so3.py",
       "gconv/gnn/kernels/kernel_en/kernel_e2.py", "gconv/gnn/kernels/kernel_en/kernel_e3.py"]
GRP = ["gconv/geometry/groups/so2.py", "gconv/geometry/groups/o2.py",
       "gconv/geometry/groups/so3.py", "gconv/geometry/groups/o3.py", "gconv/geometry/groups/s2.py"]
CACHE = "gconv/geometry/groups/_grid_cache.py"
REP = "gconv/geometry/repulsion.py"

P = []

def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "A randomised layer computes its features at the poses it returns",
     "A group-convolution layer with output-pose randomisation on draws one group element per call, returns the requested (or default) output poses all left-multiplied by that element and in order, and returns the features that the same layer with randomisation off gives for exactly those returned poses. With randomisation off, the returned poses are the requested ones. This holds for every layer kind, configuration, drawn pose and history of earlier calls, up to rounding.",
     ["histories", "configurations", "inputs"],
     "All histories of forward calls (with changing inputs, grids, dtypes, train/eval and gradient modes) on lifting, separable and full SE(2)/E(2)/SE(3)/E(3) layers, and all draws of the random generator including boundary draws.",
     "The tests call each layer once, on one pose, and look at shapes or at one equivariance instance with randomisation off; the guarantee is over all draws and call histories.",
     LAY + [M, K],
     [("permute_output_grid branch of every layer's forward", "gconv_se2.py/gconv_se3.py/gconv_e2.py/gconv_e3.py forward()"),
      ("kernel sampled at the permuted grid, which is then returned", M)],
     [("kernel.grid_H", "default output poses", K)],
     ["(features, poses) returned by forward"])

prop("C02", "Stacks of layers are equivariant whatever poses they draw",
     "Moving the input by a lattice rotation (or, for E(n) layers, a lattice reflection) and left-multiplying the input poses by it yields features that equal those of the unmoved input, moved by the same symmetry and read at the correspondingly moved poses, whatever poses the layers draw and however lifting, group, separable, activation, normalisation and pooling layers are stacked. Features pooled over space and group are then unchanged.",
     ["histories", "configurations", "inputs"],
     "All stacks of public layers whose spatial geometry (size, padding, stride, dilation) is itself symmetric, all 4/8 planar and 24/48 cubic lattice symmetries, all random pose draws (lattice or not), all in/out grids.",
     "One test (test_se3_lifting_conv) checks one lifting layer; random poses, stacks, E(n), separable and full layers, unequal grids and pooling are never exercised.",
     LAY + [M, K] + KER + GRP + ["gconv/geometry/interpolation.py", "gconv/gnn/modules/pooling.py", "gconv/gnn/functional/grid.py", "gconv/gnn/functional/mask.py"],
     [("kernels sampled at h^-1 g in the group and h^-1 x in space", K), ("group laws and actions", "gconv/geometry/groups/*")],
     observe=["features and poses returned by each layer of the stack", "pooled features"])

prop("C03", "Concurrent callers of shared layers do not influence each other",
     "When several threads call the same layers and grid functions at the same time, every call returns features that belong to its own input and to the poses it itself returns, with gradients for its own input, exactly as if it had run alone with that drawn pose. No two calls share a drawn pose, and forward calls leave parameters and buffers unchanged.",
     ["schedules", "histories"],
     "All interleavings (at the granularity of source lines of the library and of tensor operations) of threads doing forward calls, forward/backward calls and grid requests on shared objects.",
     "The tests are single-threaded; one interleaving at most is ever run.",
     LAY + [M, K, "gconv/geometry/groups/so3.py", CACHE],
     [("forward keeps all intermediate values in locals", M + ", " + K), ("served grids are copies", CACHE)],
     [("_grid_cache", "module-level dictionary shared by all threads", CACHE)],
     ["return values of every call of every thread"])

prop("C04", "A restored checkpoint is the same function",
     "A model saved (as a state dictionary, as a whole pickled model, or by deep copy) and restored after a crash in a new process, for a state dictionary into a freshly built model of the same configuration, computes the same features and gradients for the same inputs and poses as the model that was saved. This also holds when the fresh model had generated other random grids, when it had already been used, and when failed or torn saves and loads came before the successful one.",
     ["crash_points", "histories", "fault_sequences", "configurations"],
     "All layer kinds and model stacks, precomputed and randomly generated grids, default and explicit sampling widths, dtypes; crashes at any point with only durably written checkpoints surviving; torn, short, lost and failing writes.",
     "No test saves or loads anything.",
     [K] + KER + ["gconv/gnn/modules/gconv.py", "gconv/gnn/modules/normalization.py"],
     [("grid_H, grid_Rn and mask are buffers of the kernel", K), ("sampling widths recomputed from the loaded grid", K + " _load_from_state_dict")],
     [("grid_H buffer", "reference grid the group weights live on", K), ("sample_H_kwargs", "sampling widths, derived from grid_H", K)],
     ["features of the restored model"])

prop("C05", "Layers and served grids are isolated from one another",
     "Training, loading, casting, or editing in place one layer, the tensors it was built from, or any grid that was served earlier never changes the features another layer computes, nor any grid served later. A layer built from a caller's grid keeps computing as it was built when the caller later changes that grid.",
     ["histories"],
     "All histories of building layers (default, shared or custom grids), forward/backward calls, optimiser steps, state-dict loads, buffer and grid edits in place, dtype casts and grid requests, in any order.",
     "Tests build one layer and call it once; aliasing only shows after a later mutation of something else.",
     [K, CACHE] + KER + GRP,
     [("buffers cloned from the caller's grid", K), ("load/save of cached grids copy", CACHE)],
     [("_grid_cache", "module-level cache of precomputed grids", CACHE), ("grid_H", "reference grid", K)],
     ["features of the untouched layers", "grids served later"])

prop("C06", "The rotation-grid service is coherent over any request history",
     "A uniform rotation grid whose size is precomputed, or was requested with caching before, is the same grid every time it is requested in that parameterisation, whatever requests, cache insertions, in-place edits, interruptions and concurrent requests came in between; concurrent caching requests for one size agree on one grid. The precomputed quaternion and matrix grids of a size are the same rotations, and every grid returned has the requested size and parameterisation and consists of valid, distinct rotations. Requests without caching never change what later requests return.",
     ["histories", "schedules", "fault_sequences"],
     "All sequences and interleavings of requests over sizes, parameterisations (in any letter case), step counts and caching flags, with interruptions injected at any point.",
     "No test requests an uncached size, a cached one twice, or interrupts a request.",
     ["gconv/geometry/groups/so3.py", CACHE, REP],
     [("load_grid first, repulsion otherwise, save_grid on request", "so3.uniform_grid"), ("precomputed tables", CACHE)],
     [("_grid_cache", "module-level dictionary of grids by kind, parameterisation and size", CACHE)],
     ["return values of uniform_grid"])

prop("C07", "A call that fails midway leaves no trace",
     "When a forward call, a grid request, or a layer construction fails at any point (allocation failure, interrupt, failing progress output), parameters, buffers, arguments, the grids served later, and process-wide torch settings are as they were before it. Retrying the call from the same generator state gives the result of an undisturbed call.",
     ["fault_sequences", "crash_points"],
     "A fault (MemoryError, RuntimeError, KeyboardInterrupt) at every tensor operation and every source line of the call, for all layer kinds, modes and grid requests, possibly several failures in a row.",
     "Tests run no call that fails midway.",
     LAY + [M, K, "gconv/geometry/groups/so3.py", CACHE, REP],
     [("forward has no side effects", M + ", " + K), ("cache written only after the grid is complete", "so3.uniform_grid")],
     [("parameters, buffers, cache, requires_grad of arguments", "must not change", K + ", " + CACHE)],
     ["state dict, arguments, later grids", "result of the retried call"])

prop("C08", "No result depends on what memory held before",
     "Every layer output, gradient, initial parameter, group operation and grid is independent of the previous content of the memory its tensors are allocated in.",
     ["histories", "inputs"],
     "All contents (zeros, NaN, infinities, huge or random values) of newly allocated but unwritten tensor memory, for all layers, constructions, conversions and grids, forward and backward.",
     "Under the tests memory is whatever the allocator returns, usually zeros; a missed write goes unnoticed.",
     GRP + [K, M],
     [("new_empty buffers are written completely", "so2/so3/s2 conversions"), ("parameters initialised after torch.empty", K)],
     observe=["outputs and parameters under different poison patterns"])

prop("C09", "Runs repeat from their seed, and fixed poses need no randomness",
     "Seeding torch's generator and running a program of constructions, calls, backward passes and grid requests gives the same results whatever ran earlier in the process, whatever the hash seed, clock and terminal; with output-pose randomisation off, calls neither use nor advance the random generator. A randomised call depends on the generator alone, so two calls from the same generator state draw the same pose.",
     ["histories", "programs", "configurations"],
     "All programs over public layers and grid functions run from a fixed seed after arbitrary other work, under other hash seeds, clocks, Python and NumPy generator states.",
     "No test runs anything twice from one seed, nor looks at the generator state.",
     LAY + GRP + [K, M, REP],
     [("all randomness drawn from torch's global generator", "random_grid/random_quat/repulse/init")],
     observe=["outputs of both runs", "torch generator state before and after"])

prop("C10", "Every group element handed out is a valid one, for every draw",
     "Every random or uniform element generator of SO(2), O(2), SO(3), O(3) and S2 returns finite tensors of the documented shape whose elements are valid (unit quaternions, orthogonal matrices of determinant 1, coefficients of plus or minus 1, angles in range), whatever values the random generator produces. Different parameterisations of one element stay valid through the conversions the generators apply.",
     ["inputs", "histories"],
     "All generator outputs of torch's uniform and normal draws including the smallest and largest representable ones, coincident starting points, all sizes and shapes.",
     "Tests sample a few ordinary draws; boundary draws have probability near zero.",
     GRP + [REP],
     [("normalised Gaussian quaternions", "so3.random_quat"), ("2*(u>0.5)-1 coefficients", "o2/o3.random_grid"), ("clamped acos in the repulsion metric", "so3.geodesic_distance")],
     observe=["returned elements"])

prop("C11", "Repulsion makes progress and touches nothing but its grid",
     "Repulsion of a grid, from any starting configuration and with any noise drawn, returns finite points whose pair energy is not above the starting one (beyond the small noise it adds) and that lie farther apart when they started close together. With in-place off the input is unchanged; with it on the input holds the result; either way neither requires gradients afterwards.",
     ["inputs", "histories"],
     "All starting grids including clustered and nearly coincident ones, step counts, step sizes within the documented stable range, noise draws and metrics (SO(3) and S2).",
     "Repulsion is not tested at all.",
     [REP, "gconv/geometry/groups/so3.py", "gconv/geometry/groups/s2.py"],
     [("gradient descent on the pair energy with decaying noise", REP)],
     observe=["returned and input grid, energies, nearest-neighbour distances"])

prop("C12", "Results stay put and arguments are never modified",
     "No later operation of the library changes a tensor it returned earlier, and no call modifies the tensors passed to it (features, poses, grids, elements), their gradients flags or a caller's random pose, except where in-place operation is asked for.",
     ["histories"],
     "All histories of calls (layers, element-wise layers, norms, pooling, group functions, grid requests) over a pool of live tensors, with in-place edits by the caller in between.",
     "Tests discard results at once and never compare arguments before and after.",
     GRP + [M, K, CACHE] + ["gconv/gnn/modules/pooling.py", "gconv/gnn/modules/activations.py", "gconv/gnn/modules/normalization.py"],
     [("out-of-place arithmetic; clones before indexed assignment", "geometry/groups/*")],
     observe=["checksums of all live tensors after every operation"])

prop("C13", "Element-wise, norm and pooling layers follow their plain counterparts",
     "Activation, wrapper, normalisation and pooling layers on (N, C, |H|, space) features compute what the corresponding plain operation computes with the group axis treated as documented (statistics shared over the group, spatial pooling per pose, group and global pooling reducing it), return the given poses untouched, and keep the feature layout. Their running state follows the plain counterpart's over any history of training, evaluation, checkpoint and restart.",
     ["histories", "configurations", "crash_points"],
     "All histories of train/eval calls, gradient steps, checkpoint, crash and restore on every such layer and constructor configuration, 2d and 3d.",
     "None of these layers is covered by a test.",
     ["gconv/gnn/modules/pooling.py", "gconv/gnn/modules/normalization.py", "gconv/gnn/modules/activations.py", "gconv/gnn/modules/wrappers.py"],
     [("group axis folded into space or channels around the plain layer", "normalization.py, pooling.py")],
     [("running statistics", "batch-norm buffers", "normalization.py")],
     ["outputs and buffers against a reference model"])

prop("C14", "Gradients of randomised layers belong to the pose that was drawn",
     "The gradients a randomised layer delivers for its input, weights and bias are the derivatives of the loss at the poses drawn in that call, and can themselves be differentiated. Gradients accumulated over micro-batches, in any order and with failed attempts repeated, equal the gradients of the whole batch at the same poses.",
     ["histories", "fault_sequences", "inputs"],
     "All layer kinds and draws, splits and orders of micro-batches, backward passes delayed past other calls, and retried failures.",
     "No test calls backward.",
     LAY + [M, K, "gconv/geometry/interpolation.py"],
     [("features are differentiable functions of input and parameters at fixed poses", M + ", " + K)],
     observe=["input and parameter gradients"])

prop("C15", "Random poses are fresh and cover the group evenly",
     "The element a layer draws in each call, and each element of a random grid, is distributed uniformly over the group and independently of all others: every region of the group, and for O(n) both components, is reached at its share over any long run of calls. Layers built alike, modes and batch sizes make no difference to it.",
     ["histories", "inputs"],
     "Long runs of calls on every layer kind and of every random element generator, from every seed.",
     "No test looks at the distribution or at two draws.",
     LAY + GRP,
     [("normalised Gaussian quaternion / uniform angle / fair coefficient", "random_quat, random_grid")],
     observe=["elements recovered from returned poses"])

prop("C16", "Layers respond at every pose with their default settings",
     "With default sampling widths and masks, features at any drawn pose and any grid the library generates are finite, depend on the input and on the weights, are not lost (zero or vanishing) for any output pose, and keep a scale that does not blow up or collapse from pose to pose.",
     ["inputs", "configurations", "histories"],
     "All layer kinds, grid sizes (precomputed, generated) and drawn poses including boundary draws.",
     "Tests check shapes only; a dead or non-finite response passes.",
     KER + [K, "gconv/geometry/interpolation.py"] + GRP,
     [("RBF width set from the grid's nearest-neighbour distance", "kernel_*: _sampling_width")],
     observe=["features per output pose"])

prop("C17", "What is computed together makes no difference",
     "The features of a sample at an output pose are the same, up to rounding, whatever other samples, output poses and duplicates are computed in the same call, in whatever order and memory layout, and however a workload is split over calls, with failed calls repeated and servers restarted from their state dictionary. The features of a set of input poses are the sum of those of its parts (the bias counted once), and a channel group depends on its own input channels only.",
     ["histories", "fault_sequences", "configurations", "inputs"],
     "All arrival orders, batch compositions, splits over workers, duplicated deliveries, failed and repeated calls and server restarts, for every layer kind alone or followed by evaluation-mode normalisation, activation and spatial pooling.",
     "Tests use one batch composition per layer and look at shapes; mixing up samples, poses or groups keeps every shape.",
     LAY + [M, K, "gconv/gnn/modules/pooling.py", "gconv/gnn/modules/normalization.py", "gconv/gnn/modules/activations.py"],
     [("batch, pose and channel axes folded together and unfolded around the plain convolution", M), ("kernels sampled for all pairs of output and input poses", K)],
     observe=["features per sample and output pose of every call"])

prop("C18", "Large inputs may be processed in tiles",
     "Computing an input in tiles, cut at any output boundary in any axis order and each read with the halo the kernel needs, gives the features, and summed over the tiles the parameter gradients, of the whole input: with any stride, padding, dilation and padding mode, for a layer or a stack of layers, on workers holding only the state dictionary, with tiles delayed, repeated, or recomputed after a crash. Output sizes and alignment are those of the plain convolution with the same settings.",
     ["histories", "fault_sequences", "configurations", "inputs"],
     "All tilings of inputs of unequal side lengths, all layer kinds and spatial settings, all orders, duplicates and failures of tile computations.",
     "Tests use one or two settings on cubes and look at shapes; an offset, swapped axis or wrong border passes.",
     LAY + [M, K, "gconv/gnn/modules/pooling.py"],
     [("F.conv2d/conv3d with the layer's stride, padding and dilation", M), ("explicit padding for non-zero padding modes", M)],
     observe=["features and gradients of every tile and of the whole"])

prop("C19", "Features are the group convolution with the interpolated kernel",
     "The features of an output pose g are the sum over input poses h and spatial offsets of input times kernel, the kernel depending on h relative to g and on the offset turned back by g only. The kernel is the interpolation of the stored weights: over the group by the radial basis that reproduces them at the layer's reference grid (or by the nearest weight where chosen), rotations and reflections apart, over space by grid sampling, masked to a ball where asked; without a mask where not. After parameter updates, restored states, replaced grids, precision changes and failed calls it is the interpolation of the current weights at the current grid, with default widths that follow that grid.",
     ["histories", "fault_sequences", "configurations", "inputs"],
     "All layer kinds, settings, drawn poses and histories of calls and state changes.",
     "Tests look at shapes; no value of any feature is compared with anything.",
     LAY + KER + [M, K, "gconv/geometry/interpolation.py"],
     [("kernels sampled at relative poses", K), ("RBF interpolation and width", "gconv/geometry/interpolation.py, kernel_*")],
     observe=["features, returned poses, state dictionary"])

prop("C20", "Chains of group operations agree with the elements they stand for",
     "Any chain of the library's group operations (products, inverses, conversions between Euler angles, quaternions and matrices, actions on vectors, determinants, distances, nearest neighbours, logarithms, named subgroups and drawn elements) in any order, shape, layout and precision represents the element that the same chain of exact matrix products represents, and leaves earlier elements as they were.",
     ["histories", "inputs", "fault_sequences"],
     "All chains over SO(2), O(2), SO(3), O(3) and the sphere, from drawn, boundary and named elements, with failed operations repeated.",
     "Tests check a few single operations on a few elements; conversions between parameterisations are not tested.",
     GRP, [("group functions", "geometry/groups/*")], observe=["return values of every operation"])

prop("C21", "Custom groups get the group convolution their operations define",
     "For any group given by the documented operations (inverse, actions on itself and on space, determinant, sampling), the base kernels and layers compute, at output element g, the sum over input elements h and spatial offsets of input times kernel, the kernel sampled at the element of h relative to g and at offsets turned back by g, masked where a mask is given and divided by |det g| where a determinant is given: for any kernel shape, stride, padding and dilation per axis, and after any parameter updates, restored states and restarts. Operations are called only as documented, what they return is left as it was, and after one raises, a repeated call gives the undisturbed result.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "All groups with such operations (exercised: rotations, scalings, similarities, triangular, general linear, turns about an axis, SO(3) as a subgroup layer), all settings and histories.",
     "The documentation's custom-group recipe has no test at all; the built-in groups have determinants of absolute value one and square kernels, so inverting or scaling wrongly there stays unseen.",
     ["gconv/gnn/kernels/kernel.py", "gconv/gnn/modules/gconv.py", "gconv/gnn/kernels/kernel_sen/kernel_so3.py", "gconv/gnn/functional/grid.py", "gconv/geometry/interpolation.py"],
     [("kernels sampled with the operations given", "gconv/gnn/kernels/kernel.py"), ("layers for given kernels", "gconv/gnn/modules/gconv.py")],
     observe=["features", "arguments and results of the operations"])

prop("C22", "The context a layer runs in leaves nothing behind",
     "A layer called with gradients on or off, in inference mode, under anomaly detection or with saved tensors moved away, with parameters substituted, reparametrised or frozen, or from a thread while others run in another mode, computes the features and gradients that its parameters, input and returned poses determine. No call or construction in any context (also vectorised, forward-mode, mixed-precision, other dtypes, default dtypes or devices; completed, unsupported or failing midway), and no printing, copying, saving or casting there and back, changes what later calls or newly built layers compute, nor process-wide settings.",
     ["histories", "fault_sequences", "configurations"],
     "All histories of calls, constructions, inspections, updates and restarts in all execution contexts, with failures at any operation.",
     "Tests only call fresh layers with gradients on; that something made in one context (a tensor kept, a setting, a stale parameter) surfaces in another needs a history of contexts.",
     ["gconv/gnn/kernels/kernel.py", "gconv/gnn/modules/gconv.py", "gconv/geometry/groups/*", "gconv/geometry/interpolation.py"],
     [("forward of kernels and layers", "gconv/gnn/kernels/kernel.py"), ("grids served", "gconv/geometry/groups/_grid_cache.py")],
     observe=["features", "gradients", "parameters and buffers", "process-wide settings"])

prop("C23", "Invalid constructor arguments are rejected",
     "Constructing a layer with non-positive sizes or groups, channels not divisible by groups, or unknown padding modes raises an error.",
     ["inputs"], "All invalid argument combinations.", "Not tested.", [M], [("checks in the base constructor", M)], observe=["raised errors"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
