"""What each check builds and how long it searches."""

ASSUME = [
    "threads interleave at the memory accesses, atomic operations and thread calls of instrumented code (library and harness); uninstrumented libstdc++/libc code runs without interruption",
    "data races are judged by happens-before; weak-memory effects beyond them are not modelled",
    "process death keeps every completed file operation and may tear the write in progress; power loss (loss of completed but unsynced operations) is not claimed",
    "a failure is visible when it ends in an exception or in abort/terminate",
]

P = {}


def prop(pid, bins, rule, quick=22, thorough=600, **kw):
    P[pid] = dict(bins=bins, rule=rule, quick=quick, thorough=thorough, **kw)


img = ("img", "img.cpp", [])
prop("I01", [img], "Each run draws an image, file format and entry point, writes it (often with disk faults, or over another file), reads it back in the same and another process, or reads cut, removed, edited and garbage files and files on a failing disk; a write that reports success must give the pixels back, a read that returns an image must give the written one, and memory is checked at every access.")

imgx = ("imgx", "img.cpp", ["EXACT"])
prop("I02", [imgx], "Each run draws an image (grey without a channel dimension included), a size and what memory holds, resizes it, resizes each channel alone and the whole again in another process, or lets memory run out during resizing; pixels are compared, and memory is checked at every access.")

par = ("par", "par.cpp", [])
par_plain = ("par_plain", "par.cpp", ["PLAIN"])

prop("P01", [par, par_plain], "Each run draws 1 to 3 loops (start, length, threshold, call form, index type or for_each over containers), a processor count from 1 to 16 and a schedule strategy; the body marks each index in unsynchronised memory. Some runs in the second binary, which is not instrumented, loop over more than 2^32 indices and check the number and sums of the calls.")

ckpt = ("ckpt", "ckpt.cpp", [])
ckpt_s = ("ckpt_small_dict", "ckpt.cpp", ["CERAS_SIM_LZW_DMS=700"])
prop("C01", [ckpt, ckpt_s], "Each run draws a model (raw variables of random shapes, or layers), value class, entry point and path, saves once, then kills 1 to 3 saving processes at a drawn file operation (before it, after it, or in the middle of a write); after each kill fresh processes (sometimes killed loaders first) load and are compared bit for bit with the old and new weights.")
prop("C02", [ckpt, ckpt_s], "Each run saves over a checkpoint with one failing operation, a disk that breaks for good, a full disk, random error rates, or only interrupted and short transfers; afterwards fresh processes load: a returned save must give the new weights, a failed one the previous ones; then the healthy disk must accept a save.")
prop("C03", [ckpt, ckpt_s], "Each run saves, damages the file (cut anywhere, removed, flipped bytes, garbage, damaged text inside well-formed compression) or lets the disk fail while a fresh process loads; a load that returns must give the saved bits, and memory is checked at every access.")
prop("C04", [ckpt, ckpt_s], "Each run is a history of saves and loads over several paths in 2 to 4 processes, checked against a map from path to bits after every operation; some runs use tensors whose text fills the compressor's dictionary several times.")

io = ("io", "io.cpp", [])
prop("C06", [io], "Each run draws a tensor type, shape, value class, saves it (often with disk faults), reads it back in a fresh process, then reads cut, missing, edited and garbage files and files on a failing disk; a read that returns must give the saved bits.")
prop("C07", [io, ("io_dict700", "io.cpp", ["CERAS_SIM_LZW_DMS=700"]), ("io_dict512", "io.cpp", ["CERAS_SIM_LZW_DMS=512"]), ("io_dict300", "io.cpp", ["CERAS_SIM_LZW_DMS=300"])], "Each run draws a content, the pieces in which streams transfer, and possibly where a stream ends, breaks or is damaged; output is compared byte by byte with the original. Three binaries use a small dictionary so that it fills and resets all the time.")
prop("C08", [io], "Each run writes a small data set, damages one file (cut, removed, longer, impossible label, other announced count) or lets the disk fail or only interrupt and split reads, loads it, and compares samples and labels with the files.")

mem = ("mem", "mem.cpp", [])
prop("M01", [mem], "Each run is a history of allocations of several types and sizes, releases, and system allocations that fail at drawn points (up to three in a row), through the allocator itself or through tensors, with or without leaving the process through exit; every block in use is compared with a model and every access is checked against live memory. In the runs with little memory, large requests are refused when together they would exceed a limit, and whatever fits besides the blocks in use has to be granted.")
bar = ("bar", "bar.cpp", [])
prop("U01", [bar], "Each run draws a loop form, number of elements, terminal (any width, none, not askable), clock behaviour (regular, stalls, jumps forward, backward, all), options, interruption and restart; visits are compared with the elements one by one.")

zoo = ("zoo", "zoo.cpp", [])
tens = ("tens", "tens.cpp", [])
prop("S01", [zoo], "Each run draws an expression graph over some 110 operator and layer kinds (shared operands, shared functors, several roots, one or two inputs of changing batch and image size), a history of evaluations, backward passes, re-bindings, overwritten inputs and weights, training steps, saves, loads and predictions, and how memory is re-used; each evaluation is recomputed operation by operation on fresh objects in a fresh process and compared bit for bit (shape and values).")
prop("S02", [zoo, tens], "Each run draws a graph and a history as for S01; after every step all bound inputs, weights and the last results handed out are compared bit for bit with what they held before it; in some runs the results handed out are overwritten by the caller instead. A second scenario does the same for histories of 39 plain tensor operations on shared and unshared handles, comparing each result with the one on copies.")
prop("S03", [zoo], "Each run draws a graph and a history as for S01; after every backward pass the gradient of each weight is compared with the sum over all uses of the vector-Jacobian products of each operation alone on fresh objects in a fresh process (tolerance from accumulated rounding and cancellation), plus each penalty once.")
zoo_exact = ("zoo_exact", "zoo.cpp", ["EXACT"])
tens_exact = ("tens_exact", "tens.cpp", ["EXACT"])
train_exact = ("train_exact", "trainx.cpp", ["EXACT"])
prop("P02", [zoo_exact, train_exact, tens_exact], "Each run draws a graph and a history and executes it on one processor, then again on 2 to 16 processors under drawn thread schedules, in separate processes (and does the same for training programs); all results, gradients and weights must have the same bits and no conflicting access may be unordered. Built with value-safe arithmetic, because -ffast-math lets the compiler round the same loop differently in the two places it is instantiated.")

train = ("train", "train.cpp", [])
train_safe = ("train_safe", "train.cpp", ["EXACT"])
prop("M02", [zoo, tens, train, ckpt, io, img], "Each run draws a graph and a history (or a history of plain tensor operations), executes it once with enough memory, then again where allocations fail at drawn points of drawn steps (one, a few, or all from there on); where the program catches the failure it goes on: inputs, weights and results it held must be unchanged (a weight may also hold the completed update), training mode restored, and every later evaluation equal to a fresh process bit for bit. Other runs let memory end while a checkpoint, a data file or an image is written or read: what the program held, what is on the disk and whatever is read next have to be whole.")

prop("M03", [zoo, tens, train, io, img], "Each run draws a graph and a history, a training program, a history of tensor operations or of file or image operations (some of which fail and are caught), and does the same sixteen times over in one process; the memory the library holds after the sixteenth round must not exceed that after the fourth, and no file may stay open after an operation.")

prop("C05", [train], "Each run draws a network, data and a history of training steps and saves, runs it uninterrupted, then kills the training process at drawn file operations and resumes from the checkpoint in fresh processes; losses, weights and final predictions are compared bit for bit with the uninterrupted run.")
prop("T01", [train], "Each run draws a network with 1 to 3 heads, each with an optimizer and a loss, and a history of training steps mixed with predictions, evaluations, saves, loads, freezing, backward passes of one head without a step, and copies of compiled models whose original is deleted; each step is judged in double precision against the optimizer's rule, with the gradient of the same step in a fresh process.")
prop("T02", [train], "Each run draws a network and a history in which weights are frozen and released through any handle between training steps; frozen weights must keep their bits and the others must follow the rule with the gradients of the same network where nothing is frozen. A second scenario freezes whole models.")
prop("T03", [train], "Each run draws a network and a history of steps, fits, saves and loads, runs it once plainly and once with predictions, evaluations and inference passes inserted at drawn points, in two processes; all losses and weights must have the same bits.")
prop("T04", [train_safe], "Each run draws a network, data, batch size, validation split and number of epochs, fits and evaluates in one process and does the same batch by batch in another; weights must have the same bits, reported losses the mean over the batches. Clock and terminal are drawn.")

norm = ("norm", "norm.cpp", [])
prop("T06", [norm], "Each run draws up to three batch normalizations (plain operations with shared functors, with scale and shift, or layers; chained or not), a history of training and inference evaluations, gradients, predictions, training steps, fits and evaluations with changing batch sizes and values; every output is compared with a reference in double precision with a rounding bound.")
prop("T07", [norm], "Each run draws up to three dropout layers, a seed and a history of training evaluations with and without gradients, inference evaluations, predictions, steps and evaluations with changing batch sizes; masks are recovered from outputs and compared with the gradients, with each other and with the rate.")

prop("T05", [train_exact], "Each run draws a network with the library's own random initial weights, a seed and a way of seeding, random tensors and a history of steps, fits, predictions, saves and loads, executes it in one environment and again with other clocks, dates, processors, schedules, memory layouts and contents, terminals and piecewise transfers; all weights, losses, results and saved files must have the same bits. Built with value-safe arithmetic, as P02.")
prop("P03", [par, zoo_exact, train_exact, tens_exact], "Each run draws loops, an expression graph or a training program, 2 to 16 processors and a schedule, and thread starts that the system refuses (one, several, all from one on, or at random); a result given before a failure is visible must be the complete one, and nothing may hang.")

PROPS = P
