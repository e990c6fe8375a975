//! Robustness of every decoder and encoder: R01-R08, R10.
mod dec;
mod decode;
mod opts;
mod robust;
mod sinks;
mod stream;
use zvcore::Family;
static FAMILIES: &[Family] = &[
    Family { property: "R11", name: "fuzz", n: (1500, 40_000), rule: "cases of this program's other families run again and again; bytes, files and threads held must not grow", f: zvcore::balanced },
    Family { property: "D12", name: "strict-valid", n: (2700, 60_000), rule: "valid files of every format, strict and default", f: decode::d12_valid },
    Family { property: "D12", name: "strict-damaged", n: (4500, 120_000), rule: "damaged files of every format, strict and default", f: decode::d12_damaged },
    Family { property: "D12", name: "tolerated", n: (1500, 30_000), rule: "BMP, QOI and PNG departures tolerated by default and refused when strict", f: decode::d12_tolerated },
    Family { property: "R01", name: "png", n: (1500, 60_000), rule: "generated PNGs with structure-aware damage, any option set, random call order", f: robust::png },
    Family { property: "R01", name: "apng", n: (700, 30_000), rule: "generated animations with structure-aware damage", f: robust::apng },
    Family { property: "R01", name: "jpeg", n: (2000, 80_000), rule: "generated JPEGs with structure-aware damage", f: robust::jpeg },
    Family { property: "R01", name: "bmp", n: (1500, 60_000), rule: "generated BMPs with damage", f: robust::bmp },
    Family { property: "R01", name: "qoi", n: (700, 30_000), rule: "generated QOIs with damage", f: robust::qoi },
    Family { property: "R01", name: "pnm", n: (1200, 40_000), rule: "generated Netpbm files with damage", f: robust::pnm },
    Family { property: "R01", name: "farbfeld", n: (300, 8_000), rule: "generated farbfeld files with damage", f: robust::farbfeld },
    Family { property: "R01", name: "hdr", n: (1200, 40_000), rule: "generated Radiance files with damage", f: robust::hdr },
    Family { property: "R01", name: "psd", n: (1200, 40_000), rule: "generated PSD files with damage", f: robust::psd },
    Family { property: "R01", name: "noise", n: (1500, 60_000), rule: "magic bytes followed by noise", f: robust::noise },
    Family { property: "R01", name: "shipped", n: (300, 20_000), rule: "the repository's sample files with damage", f: robust::shipped_files },
    Family { property: "R01", name: "gif", n: (1000, 20_000), rule: "GIF headers", f: robust::gif },
    Family { property: "R01", name: "inflate", n: (1500, 60_000), rule: "damaged deflate, zlib and gzip streams", f: robust::inflate },
    Family { property: "R03", name: "reject", n: (2700, 60_000), rule: "valid files of every format with limits at, above and below their size", f: decode::r03_reject },
    Family { property: "R03", name: "claims", n: (1800, 40_000), rule: "headers patched to claim huge sizes", f: decode::r03_claims },
    Family { property: "R03", name: "hostile", n: (3600, 100_000), rule: "damaged files under small limits; peak allocation bounded", f: decode::r03_hostile },
    Family { property: "R04", name: "valid", n: (2800, 60_000), rule: "valid files: exact, larger and smaller buffers against plain decoding", f: decode::r04_valid },
    Family { property: "R04", name: "damaged", n: (2100, 60_000), rule: "damaged files: decode and decode_into agree", f: decode::r04_damaged },
    Family { property: "R05", name: "valid", n: (2700, 60_000), rule: "valid files: headers read 1-4 times, twice decoded", f: decode::r05_valid },
    Family { property: "R05", name: "damaged", n: (1800, 60_000), rule: "damaged files: same", f: decode::r05_damaged },
    Family { property: "R06", name: "valid", n: (1800, 40_000), rule: "valid files through nine kinds of byte source", f: decode::r06_valid },
    Family { property: "R06", name: "damaged", n: (1800, 40_000), rule: "damaged files through nine kinds of byte source", f: decode::r06_damaged },
    Family { property: "R07", name: "truncate", n: (2700, 60_000), rule: "prefixes of valid files, strict and lenient", f: decode::r07_truncate },
    Family { property: "R07", name: "fault", n: (2700, 60_000), rule: "sources that fail at a byte or at a call", f: decode::r07_fault },
    Family { property: "R08", name: "sinks", n: (1800, 60_000), rule: "every encoder into bounded, failing, short-writing and interrupted sinks", f: sinks::r08 },
    Family { property: "R08", name: "every-byte", n: (120, 2_000), rule: "every encoder into every too-small buffer", f: sinks::r08_every },
    Family { property: "R10", name: "reader", n: (14_000, 300_000), rule: "random call sequences on seven kinds of reader against a byte-string model", f: stream::reader },
    Family { property: "R10", name: "far", n: (3000, 30_000), rule: "reads, peeks and skips from positions next to the largest there is", f: stream::far },
    Family { property: "R10", name: "raw", n: (10_000, 200_000), rule: "random sequences of the reader trait's own methods", f: stream::raw },
    Family { property: "R10", name: "writer", n: (9_000, 200_000), rule: "random write sequences on bounded and growing sinks", f: stream::writer }
];
fn main() {
    zvcore::main(FAMILIES)
}
