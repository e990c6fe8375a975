//! zune-image: planes, colour, depth, files, pipelines, metadata, options, threads.
mod codecs;
mod color;
mod hostile;
mod meta;
mod options;
mod pipeline;
mod planar;
mod threads;
use zvcore::Family;
static FAMILIES: &[Family] = &[
    Family { property: "R11", name: "image", n: (1500, 40_000), rule: "cases of this program's other families run again and again; bytes, files and threads held must not grow", f: zvcore::balanced },
    Family { property: "I01", name: "flat", n: (6000, 200_000), rule: "random images of every channel count, depth and size through flat constructors, flattening and cloning", f: planar::flat },
    Family { property: "I01", name: "func", n: (2500, 80_000), rule: "per-pixel functions and mutators with position-dependent values", f: planar::func },
    Family { property: "I01", name: "access", n: (3000, 80_000), rule: "channel accessors with and without alpha on every colour space", f: planar::access },
    Family { property: "I01", name: "into", n: (3000, 80_000), rule: "flattening into buffers of the right length, longer and shorter", f: planar::into },
    Family { property: "I02", name: "convert", n: (12_000, 400_000), rule: "random image, source and target space against real-valued definitions", f: color::convert },
    Family { property: "I02", name: "roundtrip", n: (5000, 100_000), rule: "RGB and RGBA through every invertible space and back", f: color::roundtrip },
    Family { property: "I03", name: "random", n: (6000, 200_000), rule: "random images and sorted ramps between all depths", f: color::depth },
    Family { property: "I03", name: "all-values", n: (40, 400), rule: "every 8- and 16-bit value, floats around every level, floats outside the range", f: color::depth_all },
    Family { property: "I04", name: "save", n: (3000, 80_000), rule: "random images of every basic space and depth to every lossless writer, by every way of saving and opening", f: codecs::save },
    Family { property: "I04", name: "jpeg", n: (500, 10_000), rule: "smooth images of ten spaces through JPEG", f: codecs::jpeg },
    Family { property: "I04", name: "guess", n: (3000, 60_000), rule: "files of every format from independent writers", f: codecs::guess },
    Family { property: "I04", name: "full-disk", n: (600, 10_000), rule: "sinks and files that stop accepting bytes anywhere", f: codecs::full_disk },
    Family { property: "I06", name: "run", n: (20_000, 600_000), rule: "random pipelines of recording operations, images and a decoder, with failing steps and files", f: pipeline::run },
    Family { property: "I06", name: "clone", n: (2000, 50_000), rule: "clone_and_execute on random images", f: pipeline::cloned },
    Family { property: "I06", name: "invalid", n: (2000, 50_000), rule: "images whose facts do not describe their samples", f: pipeline::invalid },
    Family { property: "I07", name: "open", n: (8000, 200_000), rule: "PNG, JPEG and BMP files with EXIF, ICC profiles and gamma from independent writers", f: meta::open },
    Family { property: "I07", name: "ops", n: (10_000, 300_000), rule: "images with every kind of metadata through colour and depth conversions, clones and clone_and_execute", f: meta::ops },
    Family { property: "I07", name: "save", n: (10_000, 300_000), rule: "random EXIF fields through PNG and JPEG, kept and stripped, read back by the library and by an EXIF reader", f: meta::save },
    Family { property: "O07", name: "decoder", n: (40_000, 1_000_000), rule: "random setter sequences after every preset, all getters read after every call", f: options::decoder },
    Family { property: "O07", name: "encoder", n: (40_000, 1_000_000), rule: "random setter sequences, all getters read after every call", f: options::encoder },
    Family { property: "R01", name: "image-read", n: (2500, 80_000), rule: "damaged files of every format, sizes set to zero and beyond, opened as images and used", f: hostile::read },
    Family { property: "T01", name: "mixed", n: (1200, 30_000), rule: "one to five decodings, encodings, conversions and copies of every format, alone, then each on two to six threads at once in orders of their own, then alone again", f: threads::mixed },
    Family { property: "T01", name: "jxl", n: (250, 6000), rule: "JPEG XL images of several groups on 0 to 255 encoder threads", f: threads::groups }
];
fn main() {
    zvcore::main(FAMILIES)
}
