#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json; the texts live here
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None), _note=note))

prop("C01", "A decode gives one result whatever the worker threads and their schedule",
 "Decoding a given file gives bit for bit the same outcome (every sample, every metadata field, or the same error) for every number of worker threads and every interleaving of those threads. In particular it gives what a run on a single worker without any preemption gives, no matter whether the process-wide loader is already built or built by this very call, and no matter what hash seeds the process got.",
 ["schedules", "configurations", "inputs"],
 "every file of every supported container and packing, every pool size, every interleaving of the pool's threads at any instruction that touches memory or branches, every assignment of rows, strips and tiles to workers, every hash seed",
 "The tests check pure helper functions and never decode a file, let alone on more than one thread; a run on a real machine sees a handful of the schedules.",
 ["src/decoders/packed.rs", "src/decoders/basics.rs", "src/decoders/*.rs", "src/decoders/ljpeg/*.rs", "src/decoders/mod.rs"],
 [("rows, strips and tiles are disjoint mutable chunks of the output, each decoded from its own part of the input, with no state between them", "src/decoders/basics.rs decode_threaded*, src/decoders/packed.rs, per-format decoders using rayon"),
  ("tables and curves are built before the parallel part and shared read-only", "src/decoders/basics.rs LookupTable, per-format decoders")],
 [("process-wide loader", "camera database, built on first use", "src/lib.rs LOADER"), ("output buffer", "the image under construction, split over the workers", "decode_threaded")],
 ["decode(path)", "RawLoader::decode(reader)", "RawLoader::get_decoder(..).image()"])

prop("C02", "Image processing gives one result whatever the threads, schedule and clock",
 "Turning a decoded image into RGB, linear RGB or 8-bit sRGB at a given maximum size gives bit for bit the same pixels and size for every number of worker threads, every interleaving of those threads and every behaviour of the system clock. In particular it gives what a run on a single worker without any preemption gives.",
 ["schedules", "configurations", "inputs"],
 "every image (mosaic or full colour, cropped or not, every size), every requested size, every pool size, every interleaving, every clock history",
 "No test runs the pipeline at all.",
 ["src/imageops/mod.rs", "src/imageops/gofloat.rs", "src/imageops/demosaic.rs", "src/imageops/colorspaces.rs", "src/imageops/curves.rs", "src/imageops/level.rs", "src/imageops/gamma.rs", "src/imageops/transform.rs", "src/decoders/basics.rs", "src/lib.rs"],
 [("each stage writes disjoint lines from the previous stage's immutable buffer", "src/imageops/*.rs, OpBuffer::mutate_lines and process_into_new"),
  ("stage timing is only printed, never acted on", "src/imageops/mod.rs do_timing")],
 [("stage buffers", "the intermediate images", "OpBuffer")], ["RawImage::to_rgb", "RawImage::to_linear_rgb", "RawImage::to_srgb"])

prop("C03", "Concurrent calls are isolated from each other",
 "When several threads decode and process images at the same time (the same file or different ones, some of them damaged, sharing an image, from inside or outside the worker pool, the very first calls of a process included), every call returns exactly what it returns when it is the only call in the process. No call's success, error or panic alters the result of another.",
 ["schedules", "inputs", "histories"],
 "every set of concurrent callers with their call sequences, files and outcomes, every interleaving of callers and pool threads, calls racing with the first-use initialisation, calls nested in the pool",
 "The tests make no concurrent calls; the interference needs two calls overlapping at a particular point.",
 ["src/lib.rs", "src/decoders/mod.rs", "src/decoders/*.rs", "src/imageops/*.rs"],
 [("one-time initialisation of the loader", "src/lib.rs lazy_static LOADER"), ("the loader is only read after it was built", "src/decoders/mod.rs RawLoader"), ("no mutable statics in the decoders", "src/decoders")],
 [("process-wide loader", "camera database and unlock maps", "src/lib.rs LOADER")], ["decode(path)", "RawLoader::decode", "get_decoder", "to_rgb/to_srgb/to_linear_rgb"])

prop("C04", "I/O irregularities never change an image, and I/O errors are never masked",
 "However a file's bytes are delivered (short reads, interrupted reads, one byte at a time), a decode that gets all of them returns the same outcome as one that gets them in a single read, and a source that simply ends early is treated as the shorter file. If opening or reading the source fails with any error other than an interruption, the call returns an error, never an image, a panic or a hang; the interfaces taking a path, a reader and a prepared buffer agree on every file, except that the one taking a path reports a decoder's panic as an error.",
 ["fault_sequences", "inputs"],
 "every split of the file into reads, every position and kind of I/O error, interruptions anywhere, every file, missing files, directories and impossible names included",
 "The tests never read a file; real disks deliver a small file in one piece and do not fail.",
 ["src/decoders/mod.rs", "src/lib.rs"],
 [("the whole source is read into memory, errors are passed up", "src/decoders/mod.rs Buffer::new"), ("open errors are passed up, panics are caught", "src/decoders/mod.rs decode_safe, decode_unsafe")],
 (), ["decode(path)", "RawLoader::decode(reader)", "RawLoader::decode_safe", "Buffer::new + get_decoder + image"])

prop("C05", "A damaged file gives an image or an error, in bounded time and memory",
 "Whatever bytes a file holds, decoding it by path returns normally, either with an image or with an error: no panic reaches the caller, the process is not aborted, killed or overrun in its stack, and the call ends within a bounded amount of work. No file makes the library ask for a single block of 2 GiB or more, and failing to start a worker thread is contained in the same way.",
 ["inputs", "fault_sequences"],
 "every well-formed file with any sequence of bit flips, lost, duplicated, misdirected or garbage blocks, lost tails, changed fields and values, and arbitrary bytes; every thread-creation failure; checked and unchecked arithmetic builds",
 "The tests feed no file to the decoders.",
 ["src/decoders/mod.rs", "src/decoders/tiff.rs", "src/decoders/ciff.rs", "src/decoders/*.rs", "src/decoders/ljpeg/*.rs", "src/decoders/basics.rs"],
 [("panics in a decoder are caught and become errors", "src/decoders/mod.rs decode_safe"), ("directory depth and count limits", "src/decoders/tiff.rs TiffIFD::new, new_root; src/decoders/ciff.rs"), ("image size limit", "src/decoders/basics.rs alloc_image"), ("zero padding behind the file", "src/decoders/mod.rs Buffer::new")],
 (), ["decode(path)"])

prop("C06", "Results do not depend on history, and every failure is recovered from",
 "A call's outcome does not depend on the calls made before it: after any sequence of successful, failing and panicking decodes and image operations in the same process, on the same loader and the same worker pool, a call gives exactly what it gives as the first call. No failure makes a later call fail, block or return something else.",
 ["histories", "fault_sequences", "inputs"],
 "every history of calls, with readers that fail or panic, missing and damaged files, failed I/O and nested use of the pool, every continuation",
 "Each test makes one call of a pure function; the defect needs a particular call to come before another.",
 ["src/lib.rs", "src/decoders/mod.rs", "src/decoders/*.rs"],
 [("no state survives a call: decoders are built per call, the loader is immutable", "src/decoders/mod.rs"), ("unwinding through the pool leaves it usable", "rayon scopes and par_chunks in src/decoders, src/imageops")],
 (), ["decode(path)", "RawLoader::decode", "to_rgb/to_srgb"])

prop("C07", "A decoded image is consistent and holds nothing the file does not",
 "Every image a decode returns, from a damaged file as well, has exactly width x height x components samples. Asking a decoder for its image again gives the same image, and when the tail of an uncompressed file is lost, the decode either fails or gives what the file gives with that tail read as zeros: nothing left over in memory or from elsewhere shows up in it.",
 ["inputs", "fault_sequences"],
 "every well-formed file of every format with any sequence of storage faults applied to it, every length a file may be cut to (second half: files with 16, 14, 12 or 10 bit uncompressed samples whose layout does not depend on the file's length)",
 "The tests feed no file to the decoders.",
 ["src/decoders/mod.rs", "src/decoders/*.rs", "src/decoders/ljpeg/*.rs", "src/decoders/basics.rs"],
 [("output allocated zeroed at its full size", "src/decoders/basics.rs alloc_image"), ("zero padding behind the file", "src/decoders/mod.rs Buffer::new")],
 (), ["RawLoader::decode(reader)", "get_decoder(..).image()"])

prop("C08", "The command line tool reports success only for a complete picture",
 "When the converter exits with status 0, the output file exists and holds the complete picture of the input file, header and every byte, exactly as the library's full-size RGB output defines it. It exits with a non-zero status when the input cannot be opened, read or decoded or any byte of the output cannot be written, and only when something like that has gone wrong.",
 ["fault_sequences", "crash_points", "inputs", "schedules"],
 "every input file, read and open error, full disk at any byte, failing, short and interrupted writes at any call, lost output stream, thread-creation failure, schedule and worker count",
 "The tests do not run the program, and no test disk fills up at a chosen byte.",
 ["src/bin/rawloader.rs", "src/lib.rs"],
 [("errors of decode, create and write end the program with status 2", "src/bin/rawloader.rs error()"), ("buffered output is flushed before the program ends", "src/bin/rawloader.rs")],
 (), ["exit status and output file of the rawloader program"])

prop("C09", "The benchmark stops and reports as the clock says",
 "The benchmark program stops at the first batch end at which at least 25 decodes are done and at least 5 seconds have passed on the monotonic clock, having really performed the number of decodes it reports; the average it prints is the elapsed time divided by that number, rounded down to milliseconds. This holds however slowly, fast or unevenly the clock advances and however decodes take; if the file cannot be opened, read or decoded it reports no average and exits non-zero.",
 ["fault_sequences", "schedules", "inputs"],
 "every clock history (steady, jumping, nearly standing still), decode duration, read fault and schedule",
 "The tests do not run the program; a real clock never lands on the boundary values.",
 ["src/bin/benchmark.rs"],
 [("loop condition over iterations and elapsed time", "src/bin/benchmark.rs main")], (), ["output and exit status of the benchmark program"])

prop("C10", "A broken output stream does not disturb the library",
 "Every library call behaves the same whether or not the process's standard output and error streams can be written: when they are closed, full or broken in the middle of a call, the call still returns the same image, pixels or error and does not panic, block or abort.",
 ["fault_sequences", "inputs"],
 "every library call on every file, with standard output and error failing from any byte on, with any error code, or taking partial and interrupted writes",
 "The tests run with working streams.",
 ["src/imageops/mod.rs", "src/decoders/nef.rs", "src/decoders/dcr.rs", "src/decoders/mod.rs"],
 [("diagnostics are written with the result ignored", "src/imageops/mod.rs do_timing, src/decoders/nef.rs, src/decoders/dcr.rs")], (), ["decode(path)", "RawLoader::decode", "to_rgb/to_srgb/to_linear_rgb"])

prop("C11", "Every call makes progress: no deadlock, livelock or lost wakeup",
 "Any mix of decodes and image operations from several threads, nested in the worker pool and racing with first use included, comes to an end within a bounded number of steps under every fair schedule, with one worker thread as well as with many. Stalled threads, spurious wakeups and clock jumps may delay a call but never make it wait forever or change its kind of outcome.",
 ["schedules", "configurations", "histories"],
 "every set of callers, pool size, schedule that is fair in the end, stall, spurious wakeup and clock jump",
 "The tests use no threads; a deadlock needs a particular interleaving or pool size.",
 ["src/lib.rs", "src/decoders/basics.rs", "src/decoders/packed.rs", "src/decoders/rw2.rs", "src/imageops/mod.rs"],
 [("no lock is held while work is handed to the pool; initialisation does not use the pool", "src/lib.rs, src/decoders/mod.rs"), ("all waiting is done by rayon's joins and scopes", "src/decoders, src/imageops")], (), ["decode(path)", "to_rgb/to_srgb/to_linear_rgb"])

prop("C12", "Repeated calls use no more memory, files or threads",
 "Once warmed up, repeating any sequence of calls, successful or failing, does not make the process grow: no memory accumulates with the number of calls, no file stays open after a call has returned, and no call leaves a thread behind.",
 ["histories", "fault_sequences", "inputs"],
 "every repeated sequence of calls on good, damaged, missing and unreadable files, with and without injected read and open faults, at every pool size and schedule",
 "The tests make single calls and do not look at the process.",
 ["src/decoders/mod.rs", "src/decoders/*.rs", "src/imageops/*.rs", "src/lib.rs"],
 [("ownership: files, buffers and decoders end with the call", "src/decoders/mod.rs decode_safe, Buffer")], (), ["process memory, file descriptors and threads around decode(path), RawLoader::decode, to_rgb/to_srgb"])

prop("C13", "An intact file comes out as the samples it stores",
 "Decoding an undamaged file gives, under every schedule of the worker threads and every way its bytes are delivered (short and interrupted reads), exactly the picture the file stores: its width, height and number of components, and every sample in its place with its value. For uncompressed samples (8 to 16 bits, every packing and byte order) and for the lossless compressions these are the samples that were put in; for compressions with a rule of their own (Panasonic, Sony, Canon and Nikon small raws) the values the rule gives; where a table is applied, a value between the neighbouring table entries it may be dithered to.",
 ["inputs", "schedules", "fault_sequences"],
 "every undamaged file of every supported container, packing and compression (except Foveon) with any content and size its format allows, every worker count, interleaving and split into reads, through every decode interface",
 "The tests decode no file; the wrong samples show only for particular bit patterns, sizes, tables and row or strip positions.",
 ["src/decoders/packed.rs", "src/decoders/pumps.rs", "src/decoders/basics.rs", "src/decoders/ljpeg/*.rs", "src/decoders/*.rs"],
 [("unpacking of fixed-width samples", "src/decoders/packed.rs"), ("bit pumps, Huffman tables and predictors", "src/decoders/pumps.rs, src/decoders/ljpeg, the compressed decoders"), ("lookup tables with dither", "src/decoders/basics.rs LookupTable"), ("choice of the layout by tags, sizes and camera hints", "the decoders' image()")],
 (), ["decode(path)", "RawLoader::decode(reader)", "RawLoader::decode_safe"],
 note="The oracle is a model of each format in the harness: it writes the file from chosen samples, or reads the stored bytes with its own reader.")

prop("C14", "A picture describes itself as its file and the camera database say",
 "Every picture decoded from an undamaged file carries, under every schedule, way of delivering its bytes and loader instance, the make and model the file names, the clean names, colour matrix, sensor pattern, crops and white level the camera database has for that make, model and mode, and the white balance and orientation the file records, converted as its format defines them. Black levels are the ones the file records, else the means of the darkened areas the database names, else the database's; a file that holds a finished colour picture has the full range as its levels. A DNG's own matrix, levels, pattern and crops take the place of the database's, and only a DNG may come from a camera the database does not have: any other file of such a camera or mode is refused with an error.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every undamaged file of every supported container (except Foveon), every camera and mode of the database its format can come from, every combination of recorded white balance, levels, orientation and crops, every worker count, interleaving, split into reads, hash seed and number of loaders, through every decode interface",
 "The tests look up no camera and decode no file; one camera's hint, mode or maker's note layout going wrong shows only for that camera.",
 ["src/decoders/mod.rs", "src/decoders/image.rs", "src/decoders/cfa.rs", "src/decoders/tiff.rs", "src/decoders/ciff.rs", "src/decoders/*.rs", "data/cameras"],
 [("lookup by make, model and mode, with aliases", "src/decoders/mod.rs RawLoader::new, check_supported*"), ("white balance of each format", "the decoders' get_wb"), ("means of the darkened areas", "src/decoders/mod.rs / RawImage::new"), ("orientation tag", "src/decoders/mod.rs Orientation")],
 [("camera database", "make, model and mode to camera, built per loader", "RawLoader")], ["decode(path)", "RawLoader::decode(reader)", "RawLoader::decode_safe"],
 note="The oracle is the harness's own reading of the camera database and its own model of each format's tags; the order of four differing black levels in DNG and Pentax files is not judged.")

prop("C15", "A developed picture has the size, orientation and colours its image defines",
 "Turning an image into linear RGB, RGB or 8-bit sRGB gives, under every schedule and worker count, the picture its samples and metadata define, up to rounding. Its size is the cropped and turned image's, or the largest with the same proportions within the requested maximum, never less than one pixel. Every pixel has the colour that comes from cropping, interpolating the missing colours from the neighbouring samples or averaging the area it covers, black and white levels, white balance (the matrix's neutral when the image has none; none for a monochrome image), the colour matrix, the base curve, gamma and clipping to the output's range, at the place its orientation puts it.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "every image a file decodes to or a caller makes by changing an image's public fields (mosaic of any pattern, monochrome, full colour; crops, levels, white balance, matrices, all orientations), of at least one pixel, every maximum size, all three outputs, every worker count and interleaving, one image developed several times at once",
 "Only matrix inversion and pattern shifting have tests; wrong lines, edges or colours show only for particular sizes, proportions, patterns and crops.",
 ["src/imageops/mod.rs", "src/imageops/gofloat.rs", "src/imageops/demosaic.rs", "src/imageops/level.rs", "src/imageops/colorspaces.rs", "src/imageops/curves.rs", "src/imageops/gamma.rs", "src/imageops/transform.rs", "src/decoders/image.rs", "src/decoders/cfa.rs", "src/lib.rs"],
 [("size under a maximum, area averages, interpolation", "src/imageops/demosaic.rs"), ("levels, white balance and matrices", "src/imageops/level.rs, colorspaces.rs, src/decoders/image.rs"), ("orientation", "src/imageops/transform.rs"), ("quantisation", "src/decoders/image.rs to_srgb")],
 [("stage buffers", "the intermediate images", "OpBuffer")], ["RawImage::to_rgb", "RawImage::to_linear_rgb", "RawImage::to_srgb"],
 note="The oracle is the harness's own development in double precision with a tolerance for single precision rounding; images with equal black and white levels or a degenerate matrix are not judged.")

prop("C16", "Whatever image a decode returns can be developed",
 "Developing an image that a decode returned (from a damaged file as well) into linear RGB, RGB or 8-bit sRGB, with any maximum width and height, returns either an error or a whole picture: at least one pixel in each direction, three values for every pixel, and neither side larger than the maximum that was asked for. It never panics, never ends the process, and comes to an end within a bounded amount of work, under every schedule and number of workers.",
 ["inputs", "schedules", "configurations"],
 "every file of every supported container, intact or damaged in any way that still decodes (sizes, components, crops, orientation, levels, white balance and matrices that are not the camera's), every maximum size up to the largest numbers, all three outputs, every worker count and interleaving",
 "No test develops an image, and the images that break it come only from files that are damaged in particular places.",
 ["src/decoders/image.rs", "src/imageops/mod.rs", "src/imageops/gofloat.rs", "src/imageops/demosaic.rs", "src/imageops/transform.rs", "src/imageops/curves.rs", "src/imageops/colorspaces.rs", "src/decoders/dng.rs", "src/decoders/cr2.rs"],
 [("crops are checked against the size of the image", "src/decoders/image.rs check_crops"), ("sizes under a maximum are at least one pixel", "src/imageops/demosaic.rs"), ("decoders return as many samples as they say", "the decoders' image()")],
 [("stage buffers", "the intermediate images", "OpBuffer")], ["RawImage::to_rgb", "RawImage::to_linear_rgb", "RawImage::to_srgb"],
 note="Images of more than 3 million samples are decoded but not developed.")

NA = []
def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech); P[-1]["_na"] = reason

REASON = "a question about facts outside the program (what real sensors and cameras are like), with no execution, schedule, I/O or fault for the answer to depend on: a simulator has nothing to decide"
na("C20", "The camera database describes the real cameras",
 "The names, colour matrices, crops, levels, patterns and hints recorded for each camera are the ones of the real camera, so that its photographs come out right.",
 ["inputs"], "every camera in the database", "Needs photographs of every camera and somebody to look at them.",
 ["data/cameras"], [("the camera database itself", "data/cameras/*/*.toml")], REASON)

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
TECH = "deterministic simulation with fault injection: seeded search over schedules and faults"
NOTE = ("Seeded search over simulated executions of the real code ({what}); what was explored is counted in the evidence file. Not exhaustive. Trusted: the simulated kernel "
        "(scheduler, futexes, clocks, files, memory limits), sequentially consistent memory (no weak-memory reorderings), preemption points at edges, atomics, accesses to statics and system calls.{more}")
WHAT = dict(C08="the command line program", C09="the benchmark program")
checks = []
for p in P:
    if "_na" in p: continue
    checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
        technique=TECH, level="exploration", level_note=NOTE.format(what=WHAT.get(p["id"], "the library, rayon and std"), more=(" " + p["_note"]) if p["_note"] else "")))
M = dict(version=1, setup_cmd="./sim/build.sh rel dev", hooks=dict(guard="none: /repo carries no hooks", enable="the checks compile /repo's crate unchanged, with coverage instrumentation from a compiler wrapper and the system calls taken over at link time (sim/rustc-wrap.sh, sim/rt/simrt.c)", source_commits=[]),
    checks=checks, not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in P if "_na" in p],
    notes="Replay a violation with: target/rel/x86_64-unknown-linux-gnu/release/rlsim replay FILE")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
