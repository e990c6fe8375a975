//! zune-imageprocs: every operation against its definition.
mod anyop;
mod common;
mod geo;
mod mix;
mod pixel;
mod resample;
mod trc;
mod window;
use zvcore::Family;
static FAMILIES: &[Family] = &[
    Family { property: "R11", name: "improc", n: (1500, 40_000), rule: "cases of this program's other families run again and again; bytes, files and threads held must not grow", f: zvcore::balanced },
    Family { property: "O01", name: "any", n: (20_000, 400_000), rule: "chains of any operations with any parameters on any image; every frame against the same frame alone", f: anyop::any_op },
    Family { property: "I07", name: "ops-all", n: (10_000, 200_000), rule: "every operation on images with EXIF fields, profiles, gamma and curves", f: anyop::keeps_meta },
    Family { property: "R09", name: "ops", n: (8000, 200_000), rule: "every operation on random images, in builds with and without vector code and threads", f: anyop::builds },
    Family { property: "T01", name: "ops-again", n: (6000, 100_000), rule: "every operation repeated by several threads at once on one shared image", f: anyop::again },
    Family { property: "O02", name: "moves", n: (12_000, 300_000), rule: "sequences of flips, mirrors, transpositions and quarter turns on random images", f: geo::moves },
    Family { property: "O02", name: "turns", n: (3000, 60_000), rule: "rotation by any multiple of 90 degrees, negative and beyond a turn", f: geo::turns },
    Family { property: "O02", name: "crop", n: (5000, 100_000), rule: "crops inside and reaching outside", f: geo::crop },
    Family { property: "O02", name: "slices", n: (3000, 60_000), rule: "padding and transposition functions on bare slices", f: geo::slices },
    Family { property: "O02", name: "orient", n: (4000, 80_000), rule: "every EXIF orientation, applied twice, and images without one", f: geo::orient },
    Family { property: "O03", name: "box", n: (6000, 120_000), rule: "box blurs of every radius, far larger than the image too", f: window::box_blur },
    Family { property: "O03", name: "gauss", n: (5000, 100_000), rule: "Gaussian blurs against their three documented boxes, constants exactly", f: window::gauss },
    Family { property: "O03", name: "stats", n: (5000, 100_000), rule: "median, minimum, maximum, gradient, mean and contrast of every window", f: window::stats },
    Family { property: "O03", name: "convolve", n: (5000, 100_000), rule: "3x3, 5x5 and 7x7 kernels of every kind and scale, and wrong sizes", f: window::convolve },
    Family { property: "O03", name: "edges", n: (5000, 100_000), rule: "Sobel and Scharr magnitudes", f: window::edges },
    Family { property: "O03", name: "bilateral", n: (3000, 60_000), rule: "bilateral filters of every diameter and sigma, computed diameters too", f: window::bilateral },
    Family { property: "O04", name: "curves", n: (14_000, 300_000), rule: "brightness, exposure, gamma, invert and contrast on random images and parameters", f: pixel::curves },
    Family { property: "O04", name: "levels", n: (8000, 150_000), rule: "thresholds at and around the image's levels, contrast stretching of every range", f: pixel::levels },
    Family { property: "O04", name: "matrices", n: (8000, 150_000), rule: "colour matrices and HSV adjustments in every space", f: pixel::matrices },
    Family { property: "O04", name: "profiles", n: (4000, 60_000), rule: "colour transforms between profiles, with damaged and missing ones", f: pixel::profiles },
    Family { property: "O05", name: "resize", n: (8000, 200_000), rule: "every method, size, depth, transfer curve and alpha state against the documented kernels in linear light", f: resample::resize },
    Family { property: "O05", name: "rotate", n: (4000, 80_000), rule: "rotation by any angle", f: resample::rotate },
    Family { property: "O05", name: "affine", n: (6000, 120_000), rule: "affine transforms, their composition, inverses, identities and degenerate cases", f: resample::affine },
    Family { property: "O05", name: "refusals", n: (1000, 10_000), rule: "sizes of zero, angles and matrices that are no numbers", f: resample::refusals },
    Family { property: "O06", name: "blend", n: (6000, 150_000), rule: "blends of every weight, below 0 and above 1 too, and of unlike images", f: mix::blend },
    Family { property: "O06", name: "composite", n: (8000, 200_000), rule: "every method at every place and gravity, sources larger than the target and beside it", f: mix::composite },
    Family { property: "O06", name: "premultiply", n: (6000, 120_000), rule: "premultiplying and undoing it, on images and premultiplied samples above their alpha", f: mix::premultiply },
    Family { property: "O06", name: "sums", n: (4000, 80_000), rule: "sums and differences of whole images of every space and depth, and of unlike images", f: mix::sums },
    Family { property: "O06", name: "tables", n: (300, 3000), rule: "every pair of 8-bit sample and alpha, and rows of 16-bit ones", f: mix::tables },
];
fn main() {
    zvcore::main(FAMILIES)
}
