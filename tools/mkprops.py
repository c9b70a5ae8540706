#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=state or [], observe_at=observe, hook_needed=None)))
LIB = ["src/conversion.c","src/binary_closing_disk.c","src/convert_to_binary.c","src/corner_detection.c","src/corner_peaks.c","src/crop.c","src/draw.c","src/extract_document.c","src/flip.c","src/foerstner_corner.c","src/histogram.c","src/perspectivetransform.c","src/rgba_to_grayscale.c","src/rotate.c","src/single_to_multichannel.c","src/sobel_edge_detection.c","src/sort_corners.c","src/trim.c","src/watershed_segmentation.c"]

prop("C01","Library calls survive every pattern of allocation failures",
 "For every image operation the C library exports and every valid input, whichever of the memory allocations made during the call fail, the call returns: it never crashes, aborts or exits the process, hangs, or reads or writes memory outside the buffers it was given or allocated. What it returns is either its failure value (a null pointer; for corner detection by value the corners of the whole image) or exactly the result it gives when no allocation fails.",
 ["inputs","fault_sequences"],
 "all exported operations x valid images and parameters x all subsets of failing allocations (single, several, persistent, size-dependent, memory-capped)",
 "The tests never make an allocation fail, and run each operation on a handful of fixed images without memory checking.",
 LIB, [("null checks after every allocation, cleanup of earlier buffers, null result","src/*.c")], ["return value and output parameters of each call","process fate","addresses touched (AddressSanitizer)"])
prop("C02","Every allocation has exactly one owner: no leak, no double or foreign free",
 "When a library call returns, successfully or not and whatever allocations failed inside it, the only memory still allocated on its behalf is the result it hands to the caller, which the caller releases with free() exactly once; nothing is leaked on any path, nothing is freed twice, and no pointer is handed out that free() would not accept.",
 ["inputs","fault_sequences","histories"],
 "all exported operations x valid inputs x all subsets of failing allocations x repeated calls",
 "The tests run without leak or heap checking, free few results, and no error path is ever taken.",
 LIB, [("free() of intermediates on success and on each error return","src/*.c")], ["simulated allocator: live blocks before and after each call, validity of each free"])
prop("C03","Failed calls change nothing; retrying them gives the undisturbed result",
 "A library call never modifies the images, strings, points, corners or matrices it is given to read, and a call that fails (for example because memory ran out) also leaves the in/out dimensions it was given as they were. Repeating a failed call with the same arguments once memory is available gives exactly the result it would have given had it never failed.",
 ["inputs","fault_sequences","histories"],
 "all exported operations x valid inputs x failing allocations, followed by any number of retries on the same arguments",
 "The tests take no failure path and never look at the arguments after a call.",
 LIB, [("const inputs; in/out dimensions assigned only with a result","src/trim.c, src/perspectivetransform.c")], ["arguments before/after each call","result of the retry"])
prop("C04","Library calls are reentrant under every interleaving of caller threads",
 "Library calls made concurrently from several threads, each on its own output but possibly sharing the images, colours, markers and matrices they read, each give exactly the result, output parameters and memory-ownership behaviour of the same call made alone, for every interleaving of the threads.",
 ["schedules","inputs"],
 "all pairs/triples of exported operations and inputs, all interleavings of their execution at basic-block granularity",
 "All tests are single-threaded.",
 LIB, [("no shared mutable state: locals and per-call heap buffers only","src/*.c"),("safe FFI calls let Haskell threads enter concurrently","bindings/flatcv-hs/src/FlatCV/Raw.chs")], ["result, output parameters and shared inputs of each concurrent call"])
prop("C05","Results depend only on arguments: not on history, memory contents or clock",
 "The result of a library call, and the bytes the command line tool writes, are a function of the arguments and input file alone: they do not depend on which calls were made earlier in the process (including failed ones), on what the heap or the stack happened to contain, on where memory was placed, on the clock, or on whether the split sources or the single-file amalgamation was built.",
 ["histories","inputs","configurations"],
 "all exported operations and CLI pipelines x preceding call histories x heap and stack garbage x clock behaviours x both build forms",
 "Tests call each operation once from a fresh process on whatever the memory happens to contain.",
 LIB+["src/cli.c","makefile"], [("every output byte is written; no static or cached state","src/*.c")], ["output bytes and parameters of the same call after different histories and memory contents"])
prop("C06","Exit status 0 means the output image is completely and correctly saved",
 "If the command line tool exits with status 0 for a run with an output path, then the file at that path (even when it is the input path, already exists, or is saved as PNG or JPEG) is complete and contains exactly the image the pipeline computes, whatever went wrong meanwhile with writing, closing or opening files or with the terminal; when the image could not be saved completely the status is nonzero and a message on standard error says so.",
 ["fault_sequences","inputs"],
 "all pipelines and inputs x all sequences of disk faults while saving (full disk, I/O error, short writes, failing close or open) x failing standard output/error",
 "The tests only save to a working disk.",
 ["src/cli.c","include/stb_image_write.h"], [("result of the encoder and of stdio checked before reporting success","src/cli.c main")], ["simulated disk content after exit","exit status","standard error"])
prop("C07","Read faults never turn into silently wrong output",
 "Whatever happens while the command line tool reads the input file, including while it looks for the EXIF orientation (I/O errors, failing opens, reads that return fewer bytes than asked), it either exits nonzero without creating or changing the output, or exits 0 having processed the complete image in its EXIF orientation, exactly as without the fault.",
 ["fault_sequences","inputs"],
 "all input files (PNG, JPEG with every EXIF orientation and both byte orders, other formats) x all sequences of read-side faults",
 "The tests only read intact files from a working disk.",
 ["src/cli.c","src/exif.c","include/stb_image.h"], [("stdio error indicator checked after decoding; EXIF reader distinguishes absent from unreadable","src/cli.c main, src/exif.c")], ["exit status","simulated disk content after exit"])
prop("C08","Runs that fail or are killed leave files untouched; nothing stray is written",
 "The command line tool never creates, modifies or deletes any path other than the output path it was given, and never modifies its input unless it is also the output. Unless storage itself fails during saving, a run that exits nonzero (bad arguments, unreadable input, failing operation, out of memory) leaves the output path exactly as it was, and a run killed at any instant leaves there either the old content or (a prefix of) the finished new image.",
 ["crash_points","fault_sequences","inputs"],
 "all pipelines, valid and invalid arguments and inputs x kill at every step x allocation and read faults",
 "The tests look only at the output of successful runs.",
 ["src/cli.c"], [("the output is opened only after the pipeline and the encoder succeeded","src/cli.c main")], ["simulated disk content at exit or kill"])
prop("C09","The command line tool ends cleanly when memory runs out",
 "Whatever subset of memory allocations fails during a run of the command line tool, in argument parsing, decoding, orientation, any operation or encoding, the process ends by itself with either status 0 and the exact fault-free output, or a nonzero status and a message on standard error; it never crashes, aborts, hangs, or accesses invalid memory.",
 ["fault_sequences","inputs"],
 "all pipelines and inputs x all subsets of failing allocations",
 "The tests never make an allocation fail.",
 ["src/cli.c","include/stb_image.h","include/stb_image_write.h","src/*.c"], [("null checks in the parser, loader, executor and writer","src/cli.c")], ["process fate, exit status, standard error, simulated disk"])
prop("C10","Damaged input files are handled safely",
 "For an input file of which any bytes were flipped, lost, duplicated, zeroed or cut off in storage, the command line tool ends within bounded work with status 0 or a nonzero status and message, without ever crashing, aborting or accessing invalid memory; the result for the same damaged bytes is always the same, and a nonzero status leaves the output path untouched.",
 ["fault_sequences","inputs"],
 "all PNG/JPEG (with EXIF) and other supported files x all storage corruptions x all read fragmentations",
 "The tests use only intact images.",
 ["src/cli.c","src/exif.c","include/stb_image.h"], [("bounds checks in the decoders and the EXIF reader","include/stb_image.h, src/exif.c")], ["process fate, exit status, simulated disk"])
prop("C11","A pipeline equals running its operations one by one across restarts",
 "Running a pipeline of any number of operations gives exactly the image obtained by running the tool once per operation and passing each intermediate image through a PNG file, for every way of cutting the pipeline into successive runs; each operation is the documented one with the documented meaning of its parameters, and equivalent spellings (separate arguments or one quoted string, optional parentheses, extra blanks) give the same result. A pipeline that contains an operation that fails, fails as a whole.",
 ["histories","inputs","crash_points"],
 "all operation sequences up to dozens of operations x all cut points x all equivalent spellings x arbitrary clock behaviour",
 "The tests run about twenty fixed short pipelines.",
 ["src/cli.c"], [("pipeline parser, growth of the operation list, per-operation dispatch and hand-over of intermediate buffers","src/cli.c parse_pipeline, add_operation, execute_pipeline, apply_operation")], ["decoded output image of the whole and of the cut-up runs"])
prop("C12","Haskell bindings: exceptions on failure, exact results, memory released once",
 "Every function of the Haskell bindings, under any pattern of allocation failures in the C library, any timing of garbage collections and any other calls made in between, either throws a catchable exception (only if the C library reports a failure) or returns a value that equals what the C library computes for the same arguments (for binary morphology, convertToBinary and sobelEdgeDetection of RGB or RGBA images: the single-channel C result expanded to the channels of the image) and that stays valid as long as it is referenced. Vectors given as input stay unchanged, every C allocation made for the call is released exactly once and at the latest when its result is no longer referenced, and the process survives.",
 ["inputs","fault_sequences"],
 "all exported Haskell functions x images and parameters, valid or rejected by the C library x failing allocations x collections and nested calls at allocation points",
 "The Haskell tests check sizes of a few results on a 4x4 image with no failures.",
 ["bindings/flatcv-hs/src/FlatCV.hs","bindings/flatcv-hs/src/FlatCV/Raw.chs"], [("null checks that throw, copy of exactly the result, free in each wrapper","bindings/flatcv-hs/src/FlatCV.hs")], ["value or exception of each call; simulated allocator beneath the C library"])
prop("C13","Corner detection reports completely on standard output or fails",
 "When the command line tool runs corner detection and exits with status 0, the complete well-formed report with all four corners, equal to what the library computes, has reached standard output; when standard output fails (closed pipe, full disk) or the detection could not be carried out for lack of memory, the exit status is nonzero, and no wrong coordinates are ever printed as a result.",
 ["fault_sequences","inputs"],
 "all input images x failures of standard output at any byte x allocation failures",
 "The tests pipe the report into a working file.",
 ["src/cli.c","src/corner_detection.c"], [("flush and error check of standard output before reporting success","src/cli.c main")], ["bytes that reached simulated standard output, exit status"])
prop("C14","Memory held by a pipeline does not grow with its number of operations",
 "While the command line tool executes a pipeline, the memory it holds at any time is bounded by a constant multiple of the largest image involved plus the needs of a single operation, independent of how many operations the pipeline has; so a pipeline that repeats size-preserving operations needs the same peak memory however long it is, and everything is released before a normal exit, successful or not (running out of memory inside the image decoder or encoder aside).",
 ["histories","inputs"],
 "all pipelines of size-preserving operations of increasing length x inputs x failing operations",
 "The tests run short pipelines and never look at memory.",
 ["src/cli.c","src/*.c"], [("intermediate images are freed as soon as the next one exists","src/cli.c execute_pipeline")], ["simulated allocator: live and peak bytes"])

NA = [
 ("C50","Geometric operations move pixels exactly","Flips, rotations, transposition, cropping and borders place every pixel exactly where their geometric definition says, and trimming removes exactly the uniform border.",["src/flip.c","src/rotate.c","src/crop.c","src/trim.c","src/draw.c"]),
 ("C51","Filters and thresholds compute their documented formulas","Grayscale, blur, resize, Otsu thresholding, smart black-and-white, Sobel and histogram compute their documented formulas for every image and parameter.",["src/conversion.c","src/sobel_edge_detection.c","src/histogram.c"]),
 ("C52","Morphology and watershed have their set-theoretic meaning","Erosion, dilation, opening, closing and watershed segmentation have their mathematical meaning for every binary or grayscale image.",["src/binary_closing_disk.c","src/watershed_segmentation.c"]),
 ("C53","Corner detection and document extraction are accurate","The detected corners are those of the document in the image, and extraction maps them to the corners of the output.",["src/corner_detection.c","src/sort_corners.c","src/extract_document.c","src/perspectivetransform.c"]),
 ("C54","Malformed arguments are rejected, hex colours and numbers parsed exactly","Every malformed operation parameter is rejected with a message and every well-formed one is interpreted exactly.",["src/cli.c","src/parse_hex_color.c"]),
]
for i,t,s,f in NA:
    prop(i,t,s,["inputs"],"all inputs and parameters","The tests compare a handful of images.",f,[("the pixel loops","src/*.c")],["return value"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as fh:
    for p in P: fh.write(json.dumps(p,ensure_ascii=False)+"\n")
