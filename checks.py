"""What each property's check builds and runs. run.py and tools/gen_manifest.py read this."""
R = "release"
CHECKS = {
    "C01": dict(technique="differential monitoring against independent compressors and a random-code DEFLATE writer",
                steps=[dict(pkg="c-inflate", scale=8)],
                note="Every decode is compared byte for byte with the original; streams are confirmed by miniz/libdeflate first. Sampled, not exhaustive."),
    "C02": dict(technique="fault-injected streams judged by reference decompressors; allocation monitor",
                steps=[dict(pkg="c-inflate", scale=6)],
                note="Corruptions are sampled plus every single-bit flip and prefix of short streams; acceptance is judged against miniz and libdeflate."),
    "C03": dict(technique="round-trip monitoring with two reference decompressors",
                steps=[dict(pkg="c-inflate", scale=10)],
                note="Sampled payloads, biased to stored-block boundaries."),
    "D01": dict(technique="differential monitoring of decoded pixels against a PNG model confirmed by the png crate",
                steps=[dict(pkg="c-png", scale=100)],
                note="Images sampled over every colour type, depth, interlacing, filter and chunk layout; expected pixels come from the generator, confirmed by the png crate."),
    "D02": dict(technique="fault-injected PNG files: monitor that damage is refused and prefixes are never mistaken for pixels",
                steps=[dict(pkg="c-png", scale=90)],
                note="Damage is sampled; a damaged file counts only when the damage lies in a critical chunk or its CRC."),
    "D03": dict(technique="animation model monitor over decoded frames and composited canvases",
                steps=[dict(pkg="c-png", scale=120)],
                note="Random animations; the canvas model follows the APNG specification. Two known findings."),
    "D04": dict(technique="conformance monitoring against a double-precision JPEG model, every file confirmed by libjpeg (mozjpeg)",
                steps=[dict(pkg="c-jpeg", scale=200)],
                note="Files are written from random coefficients; a sample must lie within rounding distance of the model (an interval where upsampling filters differ)."),
    "D05": dict(technique="cross-layout consistency monitor over all output colour spaces",
                steps=[dict(pkg="c-jpeg", scale=400)],
                note="Every output space of every sampled file is related to the file's own components."),
    "D06": dict(technique="metadata model monitor over generated PNG chunks and JPEG segments",
                steps=[dict(pkg="c-png", scale=20), dict(pkg="c-jpeg", scale=20)],
                note="Random payloads, sizes, orders and foreign segments; pixel output is compared with the metadata-free file."),
    "E01": dict(technique="round-trip monitoring of encoded PNG files with two decoders and a structural chunk checker",
                steps=[dict(pkg="c-png", scale=240)],
                note="Sampled pixels/dimensions of every supported colour space and depth."),
    "D07": dict(technique="differential monitoring against a QOI operation-program writer, confirmed by rapid-qoi; truncation faults",
                steps=[dict(pkg="c-raster", scale=30)],
                note="Every random pixel sequence is coded with random valid operations; sampled."),
    "D08": dict(technique="differential monitoring against a Netpbm writer with random header layouts, partly confirmed by the image crate",
                steps=[dict(pkg="c-raster", scale=30)],
                note="Header layouts, sizes, maxvals and samples are sampled; pixel bytes are biased to look like header bytes."),
    "D09": dict(technique="differential monitoring against farbfeld and Radiance writers, confirmed by the image crate",
                steps=[dict(pkg="c-raster", scale=30)],
                note="Every scanline picks its own packing; exponents over the whole range; sampled."),
    "D10": dict(technique="differential monitoring against a BMP model over header versions, masks and run-length programs",
                steps=[dict(pkg="c-raster", scale=30)],
                note="Every header version x depth x width 1..18 plus samples; masked channels are compared within one level."),
    "D11": dict(technique="differential monitoring against a PSD writer; the two recorded defects are modelled exactly",
                steps=[dict(pkg="c-raster", scale=30)],
                note="Sampled. Two known findings (a stable test pins the defective output)."),
    "D12": dict(technique="differential monitoring of the strict and the default decoder over valid, damaged, cut and tolerably departing files",
                steps=[dict(pkg="c-fuzz", scale=40), dict(pkg="c-jpeg", scale=30)],
                note="Sampled. A missing end marker is claimed where the last MCU row is longer than the decoder reads ahead."),
    "E02": dict(technique="round-trip monitoring with strict independent readers, other decoders and this library",
                steps=[dict(pkg="c-raster", scale=20)],
                note="Sampled images of every supported layout, plus every unsupported layout and wrong lengths."),
    "E03": dict(technique="round-trip monitoring through an independent JPEG XL decoder (jxl-oxide), across layouts, group sizes, efforts and thread counts",
                steps=[dict(pkg="c-jxl", scale=1.5), dict(pkg="c-jxl", scale=0.3, flavor="checked")],
                note="Sampled images; every size up to 18x18 with every layout; sizes past the group and DC-group limits."),
    "R01": dict(technique="hostile-input stress with a panic, overflow and progress monitor over every decoder",
                steps=[dict(pkg="c-fuzz", scale=30), dict(pkg="c-fuzz", scale=20, flavor="checked"),
                       dict(pkg="c-image", scale=40), dict(pkg="c-image", scale=10, flavor="checked")],
                note="Structure-aware damage, magic-prefixed noise and random call orders; built with and without overflow checks and debug assertions. Sampled."),
    "R02": dict(technique="AddressSanitizer (with debug assertions and unsafe-precondition checks) over hostile and valid decoding workloads",
                steps=[dict(pkg="c-fuzz", scale=8, flavor="asan", property="R01", ignore="panic@"),
                       dict(pkg="c-image", scale=5, flavor="asan", property="R01", ignore="panic@"),
                       dict(pkg="c-improc", scale=2, flavor="asan", property="O01", ignore="panic@|[a-z-]+:"),
                       dict(pkg="c-improc", scale=1, flavor="asan", property="O02", ignore="panic@|[a-z-]+:"),
                       dict(pkg="c-channel", scale=4, flavor="asan", property="I05", ignore="panic@|[a-z-]+:"),
                       dict(pkg="c-capi", scale=1, flavor="asan", property="A01", ignore="panic@|[a-z-]+:")],
                note="Only memory errors and process aborts count here; panics are R01's."),
    "R03": dict(technique="allocation monitor over files that claim huge sizes, judged against a budget of limits and file length",
                steps=[dict(pkg="c-fuzz", scale=60)],
                note="Counts peak live bytes per decoding thread. The budget is generous (constant factors of limits and file size)."),
    "R04": dict(technique="pattern-filled buffers around decode_into compared with decode",
                steps=[dict(pkg="c-fuzz", scale=160)],
                note="Valid and damaged files; every buffer is filled with a pattern and compared byte for byte, also beyond the image."),
    "R05": dict(technique="history monitor over orders of header and decode calls",
                steps=[dict(pkg="c-fuzz", scale=160)],
                note="Answers before, between and after decoding are compared with the delivered samples."),
    "R06": dict(technique="differential monitoring of byte sources: nine kinds, short and interrupted reads injected",
                steps=[dict(pkg="c-fuzz", scale=100)],
                note="Valid and damaged files; the outcome from each source must equal the slice's."),
    "R07": dict(technique="truncation and read-fault injection, judged by which bytes hold pixels",
                steps=[dict(pkg="c-fuzz", scale=80)],
                note="Strict mode must refuse every prefix that lacks pixel bytes; lenient mode must keep sizes coherent."),
    "R08": dict(technique="write-fault injection at every byte and call of every encoder",
                steps=[dict(pkg="c-fuzz", scale=4)],
                note="Sinks that fail, write short or run out of room; the outcome is judged against the bytes that reached the sink."),
    "R10": dict(technique="model-based trace checking of the byte reader and writer over random operation sequences",
                steps=[dict(pkg="c-fuzz", scale=60), dict(pkg="c-fuzz", scale=20, flavor="checked"),
                       dict(pkg="c-nostd", scale=60, flavor="plain")],
                note="A plain vector with a position is the model; sources with short, interrupted and failing reads."),
    "R12": dict(technique="differential monitoring of the build without the standard library against digests, file by file, of the build with it",
                steps=[dict(pkg="c-nostd", scale=40, flavor="plain", digest="bare"), dict(pkg="c-nostd", scale=40, ref="bare")],
                note="Every crate without its default features; the second build switches the standard library on and nothing else. Radiance HDR always needs the standard library."),
    "R11": dict(technique="resource-balance monitor: a counting allocator, open files and threads between repetitions of the other monitors' workloads",
                steps=[dict(pkg="c-fuzz", scale=1.5, env={"VERIF_THREADS": "1"}, shards=8),
                       dict(pkg="c-image", scale=1, env={"VERIF_THREADS": "1"}, shards=8),
                       dict(pkg="c-improc", scale=0.75, env={"VERIF_THREADS": "1"}, shards=8),
                       dict(pkg="c-channel", scale=1, env={"VERIF_THREADS": "1"}, shards=8),
                       dict(pkg="c-inflate", scale=1, env={"VERIF_THREADS": "1"}, shards=8),
                       dict(pkg="c-png", scale=1.5, env={"VERIF_THREADS": "1"}, shards=8),
                       dict(pkg="c-jpeg", scale=1, env={"VERIF_THREADS": "1"}, shards=8),
                       dict(pkg="c-raster", scale=1, env={"VERIF_THREADS": "1"}, shards=8),
                       dict(pkg="c-jxl", scale=0.5, env={"VERIF_THREADS": "1"}, shards=8),
                       dict(pkg="c-capi", scale=0.25, env={"VERIF_THREADS": "1"}, shards=8)],
                note="Bytes allocated by Rust code in the whole process, single worker per process. Growth must be seen in every one of a dozen repetitions, so one-time caches do not count."),
    "I01": dict(technique="model-based monitoring of planar images against plain arrays",
                steps=[dict(pkg="c-image", scale=20)],
                note="Sampled sizes, channel counts and depths, biased to vector-width remainders."),
    "I02": dict(technique="differential monitoring of colour conversions against their real-valued definitions",
                steps=[dict(pkg="c-image", scale=60)],
                note="Sampled images over all pairs of spaces and depths; rounding tolerance of one step for computed conversions, none for reorders."),
    "I03": dict(technique="exhaustive and sampled monitoring of depth conversions against exact proportion",
                steps=[dict(pkg="c-image", scale=60)],
                note="Every 8- and 16-bit value; floats around every 8-bit level and sampled elsewhere."),
    "I04": dict(technique="round-trip monitoring of saving and reopening, by every way of doing so, with full-disk faults",
                steps=[dict(pkg="c-image", scale=10)],
                note="Sampled images and encoder options; JPEG is judged by a closeness bound."),
    "I05": dict(technique="model-based history checking of channels, natively, under AddressSanitizer and under Miri",
                steps=[dict(pkg="c-channel", scale=20), dict(pkg="c-channel", scale=4, flavor="asan"), dict(pkg="c-channel", scale=0.0025, flavor="miri", shards=8, env={"VERIF_THREADS": "1"})],
                note="Random call histories; undefined behaviour is decided by the sanitizer and by Miri's aliasing and provenance model."),
    "I06": dict(technique="event-log checking of pipelines of recording operations with failing steps",
                steps=[dict(pkg="c-image", scale=60)],
                note="Random pipelines; the log, the images and the reported result are compared with a model."),
    "I07": dict(technique="metadata model monitor through decoding, conversion and saving, with an independent EXIF reader",
                steps=[dict(pkg="c-image", scale=10), dict(pkg="c-improc", scale=5)],
                note="Random EXIF fields, ICC profiles, gamma; sampled."),
    "O01": dict(technique="invariant monitor over chains of all operations, each frame against the frame alone",
                steps=[dict(pkg="c-improc", scale=5), dict(pkg="c-improc", scale=1, flavor="checked")],
                note="Random chains with random and degenerate parameters on every space, depth and frame count; built with and without overflow checks."),
    "O02": dict(technique="differential monitoring of geometric operations against index formulas",
                steps=[dict(pkg="c-improc", scale=4), dict(pkg="c-improc", scale=1, flavor="checked")],
                note="Sampled sizes biased to vector widths and single rows; every orientation and multiple of a quarter turn."),
    "O03": dict(technique="differential monitoring of window filters against their real-valued definitions",
                steps=[dict(pkg="c-improc", scale=3), dict(pkg="c-improc", scale=0.5, flavor="checked")],
                note="Every sample of every output is recomputed from its own window in double precision."),
    "O04": dict(technique="differential monitoring of per-sample formulas in double precision",
                steps=[dict(pkg="c-improc", scale=5), dict(pkg="c-improc", scale=1, flavor="checked")],
                note="Sampled values and parameters in every space and depth, biased to the ends of the range."),
    "O05": dict(technique="differential monitoring of resampling with interval arithmetic around the reference",
                steps=[dict(pkg="c-improc", scale=5), dict(pkg="c-improc", scale=1, flavor="checked")],
                note="The reference carries an error bound through kernels, alpha and curves; samples on the rim of a rotated image may be background."),
    "O06": dict(technique="differential monitoring of mixing formulas, exhaustive over 8-bit alpha pairs",
                steps=[dict(pkg="c-improc", scale=20), dict(pkg="c-improc", scale=5, flavor="checked")],
                note="All 65536 pairs of 8-bit sample and alpha; sampled elsewhere."),
    "O07": dict(technique="model-based trace checking of option setters and getters",
                steps=[dict(pkg="c-image", scale=30)],
                note="All getters are read after every setter of random sequences."),
    "T01": dict(technique="ThreadSanitizer and result comparison over repeated, concurrent and differently threaded runs",
                steps=[dict(pkg="c-image", scale=4), dict(pkg="c-improc", scale=2),
                       dict(pkg="c-image", scale=0.25, flavor="tsan"), dict(pkg="c-improc", scale=0.25, flavor="tsan")],
                note="Every result is compared bit for bit with the same work alone; races are decided by ThreadSanitizer with an instrumented standard library on the schedules that occurred."),
    "R09": dict(technique="differential monitoring of acceleration by option, by build feature and against digests of other builds, and Miri on the vector code",
                steps=[dict(pkg="c-simd", scale=4, flavor="plain", digest="simd"), dict(pkg="c-simd", scale=4, ref="simd"), dict(pkg="c-simd", scale=4, flavor="portable", ref="simd"),
                       dict(pkg="c-improc", scale=4, flavor="plain", digest="ops"), dict(pkg="c-improc", scale=4, ref="ops"), dict(pkg="c-improc", scale=4, flavor="portable", ref="ops"),
                       dict(pkg="c-simd", scale=0.004, flavor="miri", features="+sse4.1,+ssse3", shards=4, args=["--family", "image"], env={"VERIF_THREADS": "1"}),
                       dict(pkg="c-simd", scale=0.004, flavor="miri", features="+sse4.1,+ssse3", shards=4, args=["--family", "png-widths"], env={"VERIF_THREADS": "1"}),
                       dict(pkg="c-simd", scale=0.004, flavor="miri", features="+sse4.1,+ssse3,+avx2", shards=4, args=["--family", "image"], env={"VERIF_THREADS": "1"}),
                       dict(pkg="c-simd", scale=0.004, flavor="miri", features="+sse4.1,+ssse3,+avx2", shards=4, args=["--family", "png-widths"], env={"VERIF_THREADS": "1"})],
                note="Builds without vector code and threads, with them, and with the portable vectors, over the same cases; Miri interprets the intrinsics for two processor levels."),
    "A01": dict(technique="history monitoring of the C interface against the library, natively and under AddressSanitizer, with a memory-in-use monitor",
                steps=[dict(pkg="c-capi", scale=8), dict(pkg="c-capi", scale=2, flavor="asan"),
                       dict(pkg="c-capi", scale=3, property="A01-leaks", env={"VERIF_THREADS": "1"})],
                note="The interface's own source is linked into the monitor; every image has a twin in the library; an abort inside the interface is a violation."),
    "A02": dict(technique="end-to-end monitoring of the command-line tool as a process: exit status, every file of its directory and its output streams, against the library and under injected faults",
                steps=[dict(pkg="c-cli", scale=12)],
                note="The tool's own entry point is run in scratch directories. Operation sequences are sampled; --view and --mmap are not exercised."),
}
NOT_APPLICABLE = {}
