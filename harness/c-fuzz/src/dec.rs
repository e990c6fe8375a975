//! One face for every image decoder.
use zune_bmp::BmpDecoder;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZByteReaderTrait;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
use zune_farbfeld::FarbFeldDecoder;
#[cfg(feature = "hdr")]
use zune_hdr::HdrDecoder;
use zune_jpeg::JpegDecoder;
use zune_png::PngDecoder;
use zune_ppm::PPMDecoder;
use zune_psd::PSDDecoder;
use zune_qoi::QoiDecoder;
use zvcore::hash_bytes;
use zvgen::corpus::Fmt;

#[derive(Clone, PartialEq)]
pub enum Data {
    U8(Vec<u8>),
    U16(Vec<u16>),
    F32(Vec<u32>)
}
impl std::fmt::Debug for Data {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Data::U8(v) => write!(f, "U8[{}] {:016x}", v.len(), hash_bytes(v)),
            _ => write!(f, "{}[{}] {:016x}", if matches!(self, Data::U16(_)) { "U16" } else { "F32" }, self.len(), hash_bytes(&self.bytes()))
        }
    }
}
impl Data {
    pub fn len(&self) -> usize {
        match self {
            Data::U8(v) => v.len(),
            Data::U16(v) => v.len(),
            Data::F32(v) => v.len()
        }
    }
    pub fn elem(&self) -> usize {
        match self {
            Data::U8(_) => 1,
            Data::U16(_) => 2,
            Data::F32(_) => 4
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Data::U8(v) => v.clone(),
            Data::U16(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
            Data::F32(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect()
        }
    }
}
fn conv(r: DecodingResult) -> Data {
    match r {
        DecodingResult::U8(v) => Data::U8(v),
        DecodingResult::U16(v) => Data::U16(v),
        DecodingResult::F32(v) => Data::F32(v.into_iter().map(f32::to_bits).collect()),
        _ => unreachable!()
    }
}
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Hdr {
    pub dim: Option<(usize, usize)>,
    pub cs: Option<ColorSpace>,
    /// what the decoder says; some always say something
    pub depth: Option<BitDepth>,
    /// output size, in whatever the decoder counts
    pub size: Option<usize>
}
pub type R<T> = Result<T, String>;
pub trait Dec {
    fn headers(&mut self) -> R<()>;
    fn hdr(&self) -> Hdr;
    fn decode(&mut self) -> R<Data>;
    /// decode into a buffer of the reported size plus `extra` (may be negative) elements filled with a pattern;
    /// the first result is the buffer afterwards
    fn decode_into(&mut self, extra: isize, fill: u8) -> Option<(Data, R<()>)>;
    fn has_into(&self) -> bool;
    fn meta(&self) -> String;
    fn more(&self) -> bool {
        false
    }
    /// poke at everything else that can be asked
    fn poke(&self) {}
}
fn e<E: std::fmt::Debug>(x: E) -> String {
    format!("{x:?}")
}
fn sized(n: Option<usize>, extra: isize) -> Option<usize> {
    let v = n? as isize + extra;
    if v < 0 {
        None
    } else {
        Some(v as usize)
    }
}
struct Png<T: ZByteReaderTrait>(PngDecoder<T>);
impl<T: ZByteReaderTrait> Dec for Png<T> {
    fn headers(&mut self) -> R<()> {
        self.0.decode_headers().map_err(e)
    }
    fn hdr(&self) -> Hdr {
        Hdr { dim: self.0.dimensions(), cs: self.0.colorspace(), depth: self.0.depth(), size: self.0.output_buffer_size() }
    }
    fn decode(&mut self) -> R<Data> {
        self.0.decode().map(conv).map_err(e)
    }
    fn decode_into(&mut self, extra: isize, fill: u8) -> Option<(Data, R<()>)> {
        if let Err(x) = self.headers() {
            return Some((Data::U8(vec![]), Err(x)));
        }
        let n = sized(self.0.output_buffer_size(), extra)?;
        let mut v = vec![fill; n];
        let r = self.0.decode_into(&mut v).map_err(e);
        Some((Data::U8(v), r))
    }
    fn has_into(&self) -> bool {
        true
    }
    fn meta(&self) -> String {
        match self.0.info() {
            None => String::new(),
            Some(i) => {
                let mut s = format!("{}x{} g{:?} i{:?} exif{:?} icc{:?} an{} ", i.width, i.height, i.gamma, i.interlace_method, i.exif.as_ref().map(|v| hash_bytes(v)), i.icc_profile.as_ref().map(|v| hash_bytes(v)), self.0.is_animated());
                if let Some(t) = &i.time_info {
                    s += &format!("t{:?} ", (t.year, t.month, t.day, t.hour, t.minute, t.second));
                }
                for t in &i.text_chunk {
                    s += &format!("T{:?}={:?} ", t.keyword, t.text);
                }
                for t in &i.ztxt_chunk {
                    s += &format!("Z{:?}={:?} ", t.keyword, t.text);
                }
                for t in &i.itxt_chunk {
                    s += &format!("I{:?}={:?} ", t.keyword, t.text);
                }
                s
            }
        }
    }
    fn more(&self) -> bool {
        self.0.more_frames()
    }
    fn poke(&self) {
        let _ = (self.0.frame_info().is_some(), self.0.is_animated(), self.0.more_frames(), self.0.byte_endian(), self.0.options().max_width());
    }
}
struct Jpeg<T: ZByteReaderTrait>(JpegDecoder<T>);
impl<T: ZByteReaderTrait> Dec for Jpeg<T> {
    fn headers(&mut self) -> R<()> {
        self.0.decode_headers().map_err(e)
    }
    fn hdr(&self) -> Hdr {
        Hdr { dim: self.0.dimensions(), cs: self.0.output_colorspace(), depth: None, size: self.0.output_buffer_size() }
    }
    fn decode(&mut self) -> R<Data> {
        self.0.decode().map(Data::U8).map_err(e)
    }
    fn decode_into(&mut self, extra: isize, fill: u8) -> Option<(Data, R<()>)> {
        if let Err(x) = self.headers() {
            return Some((Data::U8(vec![]), Err(x)));
        }
        let n = sized(self.0.output_buffer_size(), extra)?;
        let mut v = vec![fill; n];
        let r = self.0.decode_into(&mut v).map_err(e);
        Some((Data::U8(v), r))
    }
    fn has_into(&self) -> bool {
        true
    }
    fn meta(&self) -> String {
        let h = |v: Option<&Vec<u8>>| v.map(|v| hash_bytes(v));
        let i = self.0.info();
        format!(
            "in{:?} exif{:?} icc{:?} xmp{:?} iptc{:?} {:?}",
            self.0.input_colorspace(),
            h(self.0.exif()),
            self.0.icc_profile().map(|v| hash_bytes(&v)),
            h(self.0.xmp()),
            h(self.0.iptc()),
            i.map(|i| format!("{}x{} c{} pd{} {}x{} {:?} gm{} mpf{:?}", i.width, i.height, i.components, i.pixel_density, i.x_density, i.y_density, i.sof, i.gain_map_info.len(), i.multi_picture_information.as_ref().map(|v| hash_bytes(v))))
        )
    }
}
struct Bmp<T: ZByteReaderTrait>(BmpDecoder<T>);
impl<T: ZByteReaderTrait> Dec for Bmp<T> {
    fn headers(&mut self) -> R<()> {
        self.0.decode_headers().map_err(e)
    }
    fn hdr(&self) -> Hdr {
        Hdr { dim: self.0.dimensions(), cs: self.0.colorspace(), depth: Some(self.0.depth()), size: self.0.output_buf_size() }
    }
    fn decode(&mut self) -> R<Data> {
        self.0.decode().map(Data::U8).map_err(e)
    }
    fn decode_into(&mut self, extra: isize, fill: u8) -> Option<(Data, R<()>)> {
        if let Err(x) = self.headers() {
            return Some((Data::U8(vec![]), Err(x)));
        }
        let n = sized(self.0.output_buf_size(), extra)?;
        let mut v = vec![fill; n];
        let r = self.0.decode_into(&mut v).map_err(e);
        Some((Data::U8(v), r))
    }
    fn has_into(&self) -> bool {
        true
    }
    fn meta(&self) -> String {
        format!("icc{:?} prim{}", self.0.icc_profile().map(|v| hash_bytes(v)), self.0.color_primaries().is_some())
    }
}
struct Qoi<T: ZByteReaderTrait>(QoiDecoder<T>);
impl<T: ZByteReaderTrait> Dec for Qoi<T> {
    fn headers(&mut self) -> R<()> {
        self.0.decode_headers().map_err(e)
    }
    fn hdr(&self) -> Hdr {
        Hdr { dim: self.0.dimensions(), cs: self.0.colorspace(), depth: Some(self.0.bit_depth()), size: self.0.output_buffer_size() }
    }
    fn decode(&mut self) -> R<Data> {
        self.0.decode().map(Data::U8).map_err(e)
    }
    fn decode_into(&mut self, extra: isize, fill: u8) -> Option<(Data, R<()>)> {
        if let Err(x) = self.headers() {
            return Some((Data::U8(vec![]), Err(x)));
        }
        let n = sized(self.0.output_buffer_size(), extra)?;
        let mut v = vec![fill; n];
        let r = self.0.decode_into(&mut v).map_err(e);
        Some((Data::U8(v), r))
    }
    fn has_into(&self) -> bool {
        true
    }
    fn meta(&self) -> String {
        String::new()
    }
}
struct Pnm<T: ZByteReaderTrait>(PPMDecoder<T>);
impl<T: ZByteReaderTrait> Dec for Pnm<T> {
    fn headers(&mut self) -> R<()> {
        self.0.decode_headers().map_err(e)
    }
    fn hdr(&self) -> Hdr {
        Hdr { dim: self.0.dimensions(), cs: self.0.colorspace(), depth: self.0.bit_depth(), size: None }
    }
    fn decode(&mut self) -> R<Data> {
        self.0.decode().map(conv).map_err(e)
    }
    fn decode_into(&mut self, _: isize, _: u8) -> Option<(Data, R<()>)> {
        None
    }
    fn has_into(&self) -> bool {
        false
    }
    fn meta(&self) -> String {
        String::new()
    }
}
struct Farbfeld<T: ZByteReaderTrait>(FarbFeldDecoder<T>);
impl<T: ZByteReaderTrait> Dec for Farbfeld<T> {
    fn headers(&mut self) -> R<()> {
        self.0.decode_headers().map_err(e)
    }
    fn hdr(&self) -> Hdr {
        Hdr { dim: self.0.dimensions(), cs: Some(self.0.colorspace()), depth: Some(self.0.bit_depth()), size: self.0.output_buffer_size() }
    }
    fn decode(&mut self) -> R<Data> {
        self.0.decode().map(Data::U16).map_err(e)
    }
    fn decode_into(&mut self, extra: isize, fill: u8) -> Option<(Data, R<()>)> {
        if let Err(x) = self.headers() {
            return Some((Data::U8(vec![]), Err(x)));
        }
        // the reported size is in bytes
        let n = sized(self.0.output_buffer_size().map(|v| v / 2), extra)?;
        let mut v = vec![u16::from_ne_bytes([fill; 2]); n];
        let r = self.0.decode_into(&mut v).map_err(e);
        Some((Data::U16(v), r))
    }
    fn has_into(&self) -> bool {
        true
    }
    fn meta(&self) -> String {
        String::new()
    }
}
#[cfg(feature = "hdr")]
struct HdrD<T: ZByteReaderTrait>(HdrDecoder<T>);
#[cfg(feature = "hdr")]
impl<T: ZByteReaderTrait> Dec for HdrD<T> {
    fn headers(&mut self) -> R<()> {
        self.0.decode_headers().map_err(e)
    }
    fn hdr(&self) -> Hdr {
        Hdr { dim: self.0.dimensions(), cs: self.0.get_colorspace(), depth: None, size: self.0.output_buffer_size() }
    }
    fn decode(&mut self) -> R<Data> {
        self.0.decode().map(|v| Data::F32(v.into_iter().map(f32::to_bits).collect())).map_err(e)
    }
    fn decode_into(&mut self, extra: isize, fill: u8) -> Option<(Data, R<()>)> {
        if let Err(x) = self.headers() {
            return Some((Data::U8(vec![]), Err(x)));
        }
        let n = sized(self.0.output_buffer_size(), extra)?;
        let mut v = vec![f32::from_ne_bytes([fill; 4]); n];
        let r = self.0.decode_into(&mut v).map_err(e);
        Some((Data::F32(v.into_iter().map(f32::to_bits).collect()), r))
    }
    fn has_into(&self) -> bool {
        true
    }
    fn meta(&self) -> String {
        format!("{:?}", self.0.metadata())
    }
}
struct Psd<T: ZByteReaderTrait>(PSDDecoder<T>);
impl<T: ZByteReaderTrait> Dec for Psd<T> {
    fn headers(&mut self) -> R<()> {
        self.0.decode_headers().map_err(e)
    }
    fn hdr(&self) -> Hdr {
        Hdr { dim: self.0.dimensions(), cs: self.0.colorspace(), depth: self.0.bit_depth(), size: None }
    }
    fn decode(&mut self) -> R<Data> {
        self.0.decode().map(conv).map_err(e)
    }
    fn decode_into(&mut self, _: isize, _: u8) -> Option<(Data, R<()>)> {
        None
    }
    fn has_into(&self) -> bool {
        false
    }
    fn meta(&self) -> String {
        String::new()
    }
}
pub fn open<'a, T: ZByteReaderTrait + 'a>(f: Fmt, t: T, o: DecoderOptions) -> Box<dyn Dec + 'a> {
    match f {
        Fmt::Png | Fmt::Apng => Box::new(Png(PngDecoder::new_with_options(t, o))),
        Fmt::Jpeg => Box::new(Jpeg(JpegDecoder::new_with_options(t, o))),
        Fmt::Bmp => Box::new(Bmp(BmpDecoder::new_with_options(t, o))),
        Fmt::Qoi => Box::new(Qoi(QoiDecoder::new_with_options(t, o))),
        Fmt::Pnm => Box::new(Pnm(PPMDecoder::new_with_options(t, o))),
        Fmt::Farbfeld => Box::new(Farbfeld(FarbFeldDecoder::new_with_options(t, o))),
        #[cfg(not(feature = "hdr"))]
        Fmt::Hdr => unreachable!("needs the standard library"),
        #[cfg(feature = "hdr")]
        Fmt::Hdr => Box::new(HdrD(HdrDecoder::new_with_options(t, o))),
        Fmt::Psd => Box::new(Psd(PSDDecoder::new_with_options(t, o)))
    }
}
/// everything a decoding shows
#[derive(Clone, PartialEq, Debug)]
pub struct Outcome {
    pub data: R<Data>,
    pub more: Vec<R<Data>>,
    pub hdr: Hdr,
    pub meta: String
}
impl Outcome {
    /// equal apart from the wording of errors
    pub fn same(&self, o: &Outcome) -> bool {
        let eq = |a: &R<Data>, b: &R<Data>| match (a, b) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false
        };
        let all = self.more.len() == o.more.len() && self.more.iter().zip(&o.more).all(|(a, b)| eq(a, b));
        eq(&self.data, &o.data) && all && (self.data.is_err() || (self.hdr == o.hdr && self.meta == o.meta))
    }
    pub fn brief(&self) -> String {
        format!("{:?} +{:?} {:?} {:.300}", self.data, self.more, self.hdr, self.meta)
    }
}
pub fn run(d: &mut Box<dyn Dec + '_>) -> Outcome {
    let data = d.decode();
    let mut more = vec![];
    if data.is_ok() {
        while d.more() && more.len() < 8 {
            let r = d.decode();
            let bad = r.is_err();
            more.push(r);
            if bad {
                break;
            }
        }
    }
    Outcome { data, more, hdr: d.hdr(), meta: d.meta() }
}
