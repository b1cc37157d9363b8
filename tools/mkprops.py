#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand; not part of any check)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["include/" + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in state],
            observe_at=list(observe), hook_needed=hook)))

S = "schedules"; K = "crash_points"; I = "inputs"; H = "histories"; F = "fault_sequences"; CF = "configurations"; PR = "programs"

p("C01", "A crash while saving weights never loses the previous checkpoint",
  "Whatever instant the process dies while weights are being saved over an existing checkpoint, a new process that loads that path gets exactly the complete previous weights or exactly the complete new weights. If there was no checkpoint before, it finds none or the complete new one. A file left behind by the interrupted save never makes a later save or load fail or give different weights.",
  [K, H], "every file-system operation (and every byte boundary of a torn write) at which the saving process can be killed, for every model, weight values and earlier history of saves, loads and crashes",
  "The tests save once and load in the same process, on a healthy disk, and never die in between.",
  ["session.hpp", "utils/lzw.hpp", "model.hpp"],
  [("save writes a side file and then the checkpoint", "ceras_private::session::save"), ("load", "ceras_private::session::restore"), ("user entry points", "model::save_weights / load_weights")],
  [("checkpoint file", "the only durable copy of the weights"), ("<checkpoint>.tmp", "side file of a save or load")],
  ["file operations issued during save", "weights seen by a fresh process after load"])

p("C02", "Disk errors while saving weights are never passed over in silence",
  "If the disk refuses any part of saving weights (full disk, I/O error, a file that cannot be created, closed or renamed), the save fails visibly (an exception or an abort), never returns as if it had succeeded, and the checkpoint that was there before still loads to exactly its weights. Interrupted calls and short reads or writes, which an operating system may report at any time, never change the outcome. Once the disk works again the next save succeeds.",
  [F, H], "every sequence of file-system errors, short transfers and interruptions during a save, at any call",
  "The tests never see a failing disk; every stream state the code ignores is invisible to them.",
  ["session.hpp", "utils/lzw.hpp"],
  [("compression onto the checkpoint path", "session::save"), ("text stage", "session::save_original"), ("byte writer", "lzw CodeWriter / ByteCache")],
  [("stream state", "badbit after a refused write, lost unless checked before and after close")],
  ["return or failure of save", "bytes on disk afterwards", "weights a fresh process loads"])

p("C03", "A damaged or unreadable checkpoint is never loaded as if it were whole",
  "Loading weights from a checkpoint that is missing, empty, cut short at any byte, or cannot be read or unpacked completely because of a disk error, fails visibly (an exception or an abort) and never returns as success with weights other than the saved ones. The same holds for one that lists a weight which the program does not have. Whatever bytes the file contains, loading terminates and stays within the memory of live objects. Loading never changes the checkpoint file.",
  [I, F], "every truncation point, every corruption of the bytes, and every sequence of read errors and refused temporary writes during a load",
  "The tests only load intact files that they have just written.",
  ["session.hpp", "utils/lzw.hpp", "tensor.tcc"],
  [("unpacking", "lzw::decompress"), ("parsing", "session::restore_original / read_tensor")],
  [("dictionary", "codes of a damaged file index into it")],
  ["return or failure of load", "weights afterwards", "checkpoint bytes afterwards"])

p("C04", "A saved checkpoint gives back exactly the saved weights in another process",
  "After weights are saved, a new process that builds the same model in the same order and loads the file has every weight with exactly the saved bits, for any finite normal weight values (zero included), any tensor shapes and any amount of data. This holds through any history of earlier saves and loads of the same or other paths (side files <path>.tmp and <path>.new belong to the save of <path>), and saving changes no weight. A successful save or load leaves no other file behind.",
  [I, H, CF], "all finite (normal) weight values, all model shapes and sizes including files far larger than the compressor's dictionary, all histories of save / change / load",
  "Tests round-trip a few small tensors in one process and look at them by eye; loss of the last digits or of data after a dictionary reset shows only for other values and sizes.",
  ["session.hpp", "tensor.tcc", "utils/lzw.hpp", "model.hpp"],
  [("text format of tensors", "write_tensor / read_tensor, save_original"), ("ids match across processes", "generate_uid"), ("compression", "lzw::compress / decompress")],
  [("variables_", "registered weights, by id")],
  ["weights in a fresh process after load", "directory listing after save and load"])

p("C05", "Training resumed from a checkpoint equals training never interrupted",
  "If a process dies at any point of training and a new process builds the same model, loads the last completed checkpoint and continues with the same remaining batches (and random seeds) under a stateless optimizer (plain SGD or gradient descent), its weights, losses and predictions are exactly those of a run that was never interrupted.",
  [K, H], "every point at which training is cut, any number of times, for any mix of training steps, predictions, evaluations and checkpoints before and after",
  "No test restarts a process; state that lives outside the checkpoint is only missed by a restart.",
  ["session.hpp", "model.hpp", "optimizer.hpp", "variable.hpp", "operation.hpp"],
  [("what a checkpoint holds", "session::save_original"), ("training step", "compiled_model::train_on_batch")],
  [("weights", "must be the whole state of such a training run")],
  ["weights, losses and predictions of the resumed run against the uninterrupted one"])

p("C06", "Saved tensor text files give back the tensor or fail visibly",
  "A tensor written to a text file and read back (alone or as one of several in a stream, into a new tensor or one that held something else) has the same shape and exactly the same element values (float and double, any finite normal value). If the disk fails while writing, or the file is missing or cut short when reading, the operation fails visibly (an exception or an abort) rather than handing back a tensor that was not written. Whatever bytes the file contains, reading stays within the memory of live objects.",
  [I, F], "all shapes and finite values, all disk error sequences, all truncations and corruptions",
  "Tests print one saved tensor; they never compare bits, and never fail the disk.",
  ["tensor.hpp", "tensor.tcc"],
  [("save_tensor / load_tensor", "tensor.tcc"), ("read_tensor / write_tensor", "tensor.tcc")],
  [], ["return or failure", "bits of the tensor read back"])

p("C07", "Compressed streams expand to exactly the original or fail visibly",
  "Expanding what the compressor produced yields exactly the original bytes, for any content and length and however the streams underneath split, shorten or interrupt their transfers. If the compressed data ends early or an underlying stream fails, expansion or compression fails visibly (an exception or a failed stream), and never ends as an ordinary success with different bytes. Whatever bytes are fed to it, expansion terminates and stays within the memory of live objects.",
  [I, F], "all byte strings (empty, every byte value, incompressible, longer than the dictionary), all ways a stream can chunk or fail, all truncations and corruptions of the compressed form",
  "No test runs the compressor on anything but small weight files.",
  ["utils/lzw.hpp"],
  [("code width and dictionary reset", "lzw CodeWriter / CodeReader / EncoderDictionary"), ("dictionary", "lzw::decompress")],
  [], ["expanded bytes", "stream states and exceptions"])

p("C08", "Damaged or short data-set files never give silently wrong samples",
  "Loading an image data set yields exactly the samples and labels its files contain at that time, whatever was loaded before. If a file is missing, short, longer than announced, holds an impossible label, or cannot be read because of a disk error, loading fails visibly (an exception or an abort), and in no case is memory outside live objects touched. Short reads and interrupted calls never change the result.",
  [I, F], "all file contents, truncation points and read error sequences, for each supported data set",
  "The tests need data files that are not present, and would only load intact ones.",
  ["dataset.hpp"],
  [("loaders", "dataset::mnist::load_data, dataset::fashion_mnist::load_data")],
  [], ["returned tensors", "failures"])

p("P01", "A parallel loop does every index exactly once before it returns",
  "A parallel loop over a range calls its body exactly once for each index of the range and for no other, for any start and length, any sequential threshold, any number of processors (known to the system or not) and any thread schedule. All calls have finished, and their effects are visible to the caller, when it returns.",
  [S, I, CF], "all thread interleavings, all processor counts, ranges (including ones that do not start at zero and ones shorter than the processor count) and thresholds",
  "The tests run on one machine's processor count with ranges from zero, under whatever schedule occurs.",
  ["utils/parallel.hpp", "utils/for_each.hpp"],
  [("slicing and joining", "parallel()"), ("element-wise loops over several ranges", "for_each()")],
  [("slice bounds", "computed per worker from begin, end and the processor count")],
  ["multiset of indices seen by the body when the call returns"])

p("P02", "Results do not depend on processor count or thread schedule",
  "Every computation that the library spreads over threads (element-wise maps, matrix and layer operations, training steps) gives bit-for-bit the same result for any processor count and any thread schedule. Its worker threads never make conflicting unsynchronised accesses to the same memory.",
  [S, CF, PR], "all interleavings of the worker threads and all processor counts, over the operations, layers, losses and optimizers",
  "A race shows only under schedules the test machine does not produce; the tests run one schedule and check no result.",
  ["utils/parallel.hpp", "utils/for_each.hpp", "tensor.tcc", "operation.hpp", "optimizer.hpp", "variable.hpp"],
  [("worker threads share captured tensors and caches", "parallel(), for_each() and their callers")],
  [("captured tensors", "written by workers at disjoint places")],
  ["results of the same program under different schedules", "memory accesses of the worker threads"])

p("P03", "A worker thread that cannot start is never a silently partial result",
  "If the system refuses to start a thread at any point of a computation, the computation fails visibly (an exception or termination) or still produces exactly the complete result; it never returns with part of the work left out, and never hangs.",
  [F, S], "every position and number of refused thread starts, under every schedule of the threads that did start",
  "No test ever runs out of threads.",
  ["utils/parallel.hpp"],
  [("thread creation", "parallel()")],
  [], ["outcome of the computation under refused thread starts"])

p("M01", "The memory cache never hands out memory that is still in use",
  "Memory handed out by the caching allocator is zeroed where promised, large enough, aligned, and disjoint from every other block that is still in use, for any history of allocations, releases and clean-ups, also after allocations that failed. A request is refused only if it would not fit even with everything given back that has been released. Released or reclaimed memory is never accessed again and is never released twice.",
  [H, F], "all histories of allocation, release and garbage collection, with allocation failures at any point",
  "Tests allocate and release a few blocks in one order; double use shows only after particular histories, and failed allocations never occur.",
  ["utils/cached_allocator.hpp", "utils/buffered_allocator.hpp", "tensor.hpp"],
  [("cache of released blocks", "memory_cache::allocate / deallocate / gc"), ("allocator", "cached_allocator")],
  [("reserved memory", "released blocks by size"), ("allocated memory", "blocks in use, by address")],
  ["addresses and contents handed out", "accesses to released blocks"])

p("M02", "Running out of memory never corrupts live data",
  "If memory runs out at any allocation during building, evaluating, training, saving or loading (weights, data files and images alike), the operation fails visibly (an exception or termination) and never touches memory outside live objects. Where the program catches the failure and goes on, weights and tensors it held before are unchanged or hold a completed result, and later computations give exactly the results they would have given without the failure.",
  [F, H], "every allocation at which memory can run out, singly or repeatedly, in any program of tensor, layer and file operations",
  "Allocation never fails in the tests.",
  ["utils/cached_allocator.hpp", "tensor.hpp", "tensor.tcc", "operation.hpp"],
  [("retry after clean-up", "cached_allocator::allocate")],
  [], ["outcome after an injected allocation failure", "results computed afterwards"])

p("S01", "An evaluation always reflects the current inputs and weights",
  "Evaluating an expression gives exactly what a fresh process would compute for the same graph, the same weights and the same inputs, whatever was evaluated, trained, re-bound or resized before. In particular changing weights, inputs, batch size or image size between evaluations is always honoured, for every layer and operation.",
  [H, PR, I], "all graphs over the layers and operations, all histories of evaluations, bindings, weight changes and batch or image size changes",
  "Each test evaluates one graph once or in a fixed loop of one size; stale caches show only after a particular history.",
  ["operation.hpp", "session.hpp", "place_holder.hpp", "model.hpp", "layer.hpp"],
  [("per-run result cache", "session::run, forward_cache_"), ("per-operation buffers", "context_cast caches in operation.hpp")],
  [("forward cache", "valid during one evaluation only"), ("operation buffers", "sized and indexed for the last input")],
  ["result of an evaluation against one in a fresh process"])

p("S02", "Evaluating never alters inputs, weights or results handed out before",
  "Evaluating an expression, computing gradients or predicting changes no input tensor the caller bound, no weight, no operand and no gradient tensor handed to a backward pass. A result handed to the caller by an earlier evaluation or prediction keeps its values through all later evaluations and training steps. The same holds for plain tensor arithmetic: an operation that yields a new tensor leaves its operands as they were.",
  [H, PR], "all graphs and tensor operations, all histories of evaluation and training",
  "Tests never look at an operand or an older result again after using it; shared storage between tensors goes unnoticed.",
  ["operation.hpp", "tensor.tcc", "tensor.hpp", "session.hpp"],
  [("tensors share storage on copy", "tensor copy, deep_copy"), ("in-place updates of shared tensors", "operation.hpp backward functions, tensor.tcc operators")],
  [("shared storage", "copying a tensor copies a pointer")],
  ["bits of inputs, weights and earlier results after each step"])

p("S03", "Gradients belong to the current step only and count every use once",
  "The gradient of each weight after an evaluation and its backward pass depends only on the current weights, inputs and random masks, exactly as in a fresh process, whatever steps, batch sizes or other losses came before. A weight or sub-expression used in several places receives the sum of the contributions of all its uses, each exactly once, and a weight penalty is counted exactly once per step.",
  [H, PR], "all graphs with shared weights and shared sub-expressions over the layers, operations and losses, and all histories of steps with changing batch sizes",
  "Tests train chains with fixed batch size and look at nothing but printed losses.",
  ["operation.hpp", "variable.hpp", "loss.hpp", "optimizer.hpp", "session.hpp"],
  [("accumulation", "variable::backward"), ("reset", "variable::forward in training, optimizers"), ("operand memory", "unary_operator / binary_operator input data")],
  [("gradient buffers", "accumulate during a backward pass, cleared between steps"), ("backward caches and masks", "per-operation buffers")],
  ["gradients after a step against a fresh process and a reference"])

p("M03", "The same work over and over settles at a fixed amount of memory",
  "Repeating the same work on the same objects (binding and evaluating expressions, gradients, training steps, predictions, evaluations, fits, tensor arithmetic, saving and loading, building temporary expressions on existing ones and dropping them, operations that fail and are caught) does not make the library hold more and more memory: after the first few rounds, further rounds of the same work leave no more memory in use than before. No operation, failed or not, leaves a file open.",
  [H, I, F], "all graphs, training programs, tensor and file operations, repeated any number of times, with operations that fail in between",
  "Tests run each operation a few times and never look at memory or open files; slow growth ends long training runs only.",
  ["session.hpp", "utils/cached_allocator.hpp", "operation.hpp", "optimizer.hpp", "model.hpp", "tensor.tcc", "dataset.hpp"],
  [("per-run and per-operation caches", "session::forward_cache_, context_cast caches"), ("place holders bound so far", "session::place_holders_"), ("reserve of released blocks", "memory_cache::reserved_memory"), ("optimizer state", "kept per weight")],
  [("session", "remembers weights and place holders"), ("reserve", "one entry per released block"), ("streams", "opened and closed per operation")],
  ["bytes in use after each round", "open files after each operation"])

p("T01", "A training step applies its rule exactly once to every trainable weight",
  "One training step moves every trainable weight the loss uses by its optimizer's update rule exactly once, computed from that step's gradients and the optimizer's own history of that weight, and leaves no gradient behind for the next step. Steps, predictions, evaluations, saves, loads and copies of a compiled model in any order never make an update be skipped, repeated or computed from another step's gradients.",
  [H, CF], "all histories of steps interleaved with other operations, all optimizers and their settings, all numbers of weights",
  "Tests print losses of a single training loop; an update applied twice, or with stale state, still lowers the loss.",
  ["optimizer.hpp", "model.hpp", "variable.hpp", "session.hpp"],
  [("update rules", "sgd, adagrad, rmsprop, adadelta, adam, gradient_descent"), ("step", "compiled_model::train_on_batch, session::run( optimizer )")],
  [("optimizer contexts", "moments per weight"), ("iteration count", "per optimizer")],
  ["weights after every step against a reference optimizer"])

p("T02", "Frozen weights never change",
  "A weight the user has marked as not trainable keeps exactly its bits through any training until it is marked trainable again, while trainable weights go on being updated as if it were a constant. This holds however and when the mark is set: at construction, or later through the user's own handle.",
  [H, CF], "all sequences of freezing, thawing and training steps, with every optimizer",
  "No test freezes a weight and checks its bits afterwards.",
  ["variable.hpp", "optimizer.hpp", "model.hpp"],
  [("flag", "variable::trainable"), ("update loop", "optimizers")],
  [("trainable flag", "must be seen by every copy of the weight in graph and session")],
  ["bits of frozen weights, updates of the others"])

p("T03", "Predicting and evaluating never influence training",
  "Inserting any number of predictions, evaluations or plain forward evaluations in inference mode anywhere between training steps changes no later loss, weight or training result by a single bit. After a prediction or evaluation the library is back in training mode.",
  [H], "all interleavings of training steps, predictions (with any batch size) and evaluations",
  "Tests train first and predict last.",
  ["model.hpp", "operation.hpp", "variable.hpp", "session.hpp", "config.hpp"],
  [("mode switch", "learning_phase in predict, evaluate, fit"), ("training-only state", "normalisation statistics, masks, gradients")],
  [("learning_phase", "global mode"), ("running statistics", "may only follow training")],
  ["training histories with and without insertions"])

p("T04", "Fitting uses each batch once, in order, and never trains on validation data",
  "Fitting visits the full batches of the data exactly once per epoch, in order, makes exactly one update per training batch, and neither updates weights nor changes any other training state on batches held out for validation. The reported training and validation losses are the means over exactly those batches, and evaluating reports the mean loss over all full batches.",
  [H, CF, F], "all sample counts, batch sizes, epochs and validation fractions; any clock and terminal behaviour under the progress display",
  "Tests fit without a validation set and read the loss off the screen.",
  ["model.hpp", "utils/tqdm.hpp", "utils/range.hpp"],
  [("loops", "compiled_model::fit, compiled_model::evaluate"), ("batch extraction", "copy into bound tensors"), ("iteration", "tq::trange")],
  [], ["weights and reported losses against a reference loop"])

p("T05", "The same random seed gives bit-for-bit the same run",
  "With the same random seed (set on the generator, or by assigning the documented `random_seed`) and the same program, all initial weights, random masks, losses, trained weights and saved files are bit-for-bit the same on every execution, whatever the clock shows, however threads are scheduled, however many processors there are, and wherever memory happens to be allocated.",
  [S, CF, F], "all clock readings and jumps, thread schedules, processor counts and memory layouts",
  "Two executions in one environment agree by luck; tests compare none.",
  ["tensor.hpp", "tensor.tcc", "config.hpp", "operation.hpp", "optimizer.hpp", "session.hpp", "utils/parallel.hpp"],
  [("generator", "random_generator, random_seed"), ("iteration order", "session variables")],
  [("random_generator", "the only source of randomness")],
  ["transcripts of executions that differ only in clock, schedule, processors and addresses"])

p("T06", "Batch-normalisation statistics follow exactly the training batches",
  "In training, batch normalisation normalises each batch by that batch's own statistics and folds them into its running statistics once per training-mode evaluation. In inference it uses the running statistics of all training-mode evaluations so far and changes nothing. A change of batch size at any time never disturbs either.",
  [H], "all interleavings of training and inference evaluations with changing batch sizes and input values",
  "Tests run one forward pass in one mode.",
  ["operation.hpp", "layer.hpp", "config.hpp"],
  [("running mean and variance", "normalization_batch")],
  [("global average / variance", "running statistics")],
  ["outputs against a reference normalisation"])

p("T07", "Dropout drops the same units forward and backward, and nothing in inference",
  "In training, a dropout layer zeroes a random set of units, scales the survivors by one over the kept fraction, and lets the gradient flow through exactly the surviving units with the same scale. Each training-mode evaluation draws its own mask for the batch at hand, whatever its size. In inference it passes its input through unchanged.",
  [H, I], "all random seeds, drop rates and interleavings of training and inference with changing batch sizes",
  "Tests print one masked tensor.",
  ["operation.hpp"],
  [("mask", "drop_out")],
  [("mask", "shared by forward and backward of one step")],
  ["masks seen in outputs and in gradients"])

p("U01", "A progress bar visits every element exactly once, whatever clock or terminal",
  "Looping through a progress bar over a number or a container visits every element exactly once, in order, and ends, whatever the clock does (stands still, jumps forwards or backwards) and whatever the terminal is (any width, none at all, or one whose size cannot be asked for). A loop over a period of time ends once the clock shows that the period is over, and not before. It touches no memory outside live objects and allocates no unreasonable amount.",
  [F, CF, I], "all clock behaviours, terminal widths and failures, lengths and containers",
  "Tests loop under a well-behaved clock in one terminal.",
  ["utils/tqdm.hpp"],
  [("iteration and display", "tq::progress_bar, tq::tqdm_for_lvalues / rvalues, tq::timer"), ("terminal width", "get_terminal_width")],
  [("bar size", "terminal width less the decorations")],
  ["elements visited", "termination", "memory"])

p("I01", "Image files give back their pixels or fail visibly",
  "An 8-bit image of 1, 3 or 4 channels written as PNG or TGA (BMP without an alpha channel) reads back with exactly its pixels, in the same or another process, whatever the file contained before; a path without a known extension gets a PNG. If the disk refuses any part of writing, writing reports failure and never success. A file that is missing, cut short or cannot be read because of a disk error gives no image (an empty tensor or another visible failure), never other pixels than those written. Short transfers and interrupted calls never change the result. Writing alters no image, leaves no file open, and touches no memory outside live objects for any format and element type; nor does reading, whatever bytes the file contains.",
  [I, F], "all image sizes, channels, contents and formats, all disk faults and cuts",
  "Tests write and read one image on a healthy disk and look at nothing.",
  ["utils/imageio.hpp"],
  [("imread / imwrite", "utils/imageio.hpp over utils/3rd_party/stb_image*.h")],
  [("image file", "complete or reported")],
  ["pixels and shapes read back", "reported success or failure", "memory"])

p("I02", "Resizing an image gives the whole image or fails visibly",
  "Resizing an 8-bit image (2-D grey, or with 1, 3 or 4 channels) to any positive size gives an image of exactly that size that depends on nothing but the image, not on what memory held or what was resized before, and that keeps its pixels whatever is resized later. Each channel is resized as it would be alone (up to rounding), so an image of one colour keeps it. If memory runs out, resizing fails visibly and never hands back an image that is not the resized one. The image given is not altered, and no memory outside live objects is touched.",
  [I, F], "all image sizes, channels and contents, all target sizes, every allocation at which memory can run out",
  "Tests resize one image with four channels and look at nothing; rubbish in memory and failing allocations never occur.",
  ["utils/imageio.hpp"],
  [("imresize", "utils/imageio.hpp over utils/3rd_party/stb_image_resize.h")],
  [("image", "complete or reported")],
  ["pixels and shape", "reported success or failure", "memory"])

p("N01", "Every gradient is the derivative of its operation",
  "For every operation, layer and loss, the gradient passed back equals the mathematical derivative of the forward result with respect to each operand, up to rounding.",
  [I, PR], "all operations and all operand values and shapes", "Tests print values without checking them.",
  ["operation.hpp", "activation.hpp", "loss.hpp"], [("backward actions", "operation.hpp")])
p("N02", "Tensor algebra matches its mathematical definition",
  "Element-wise arithmetic, broadcasting, matrix products, reductions, reshaping and slicing of tensors give the mathematically defined values and shapes for all operands.",
  [I], "all shapes and values", "Tests use a few small shapes.",
  ["tensor.hpp", "tensor.tcc", "backend/backend.hpp"], [("operators and functions", "tensor.tcc")])
p("N03", "Layer outputs have the announced shape and geometry",
  "Convolution, pooling, padding, cropping, up-sampling and reshaping layers compute their defined values, and the shape announced for each expression equals the shape of what evaluation yields.",
  [I, CF], "all sizes, strides, dilations and paddings", "Tests use a few sizes.",
  ["operation.hpp", "layer.hpp"], [("shape calculators and kernels", "operation.hpp")])
p("N04", "Graph descriptions and generated code denote the same model",
  "The textual graph of a model and the source code generated for it describe exactly the model they were made from.",
  [PR], "all graphs", "Tests generate code for one or two graphs and do not compile it.",
  ["operation.hpp", "model.hpp", "utils/enable_serializer.hpp"], [("serialisers", "serialize overloads")])
p("N05", "All numeric back ends agree",
  "The CUDA and BLAS back ends compute the same products as the built-in one, up to rounding.",
  [I, CF], "all operands and transpositions", "Neither back end is built here.",
  ["backend/cuda.hpp", "backend/cblas.hpp"], [("gemm", "backend")])
p("N06", "Complex expressions follow complex arithmetic",
  "Operations on complex expressions give the real and imaginary parts that complex arithmetic defines.",
  [I, PR], "all operands", "Tests print values.",
  ["complex_operator.hpp"], [("operators", "complex_operator.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
