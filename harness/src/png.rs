//! Pictures as PNG: what is written is decoded again by a decoder of our own.
use crate::sym;
use image::RgbImage;
use puzzle_utils::*;

struct Bits<'a> {
    data: &'a [u8],
    pos: usize,
}

impl Bits<'_> {
    fn bit(&mut self) -> Option<u32> {
        let b = *self.data.get(self.pos >> 3)?;
        let v = b as u32 >> (self.pos & 7) & 1;
        self.pos += 1;
        Some(v)
    }
    fn bits(&mut self, n: u32) -> Option<u32> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Some(v)
    }
}

/// A prefix code: how many codes there are of each length, and their symbols in order
struct Code {
    counts: [u16; 16],
    symbols: [u16; 288],
}

impl Code {
    fn new(lengths: &[u8]) -> Code {
        let mut c = Code { counts: [0; 16], symbols: [0; 288] };
        for &l in lengths {
            c.counts[l as usize] += 1;
        }
        c.counts[0] = 0;
        let mut at = [0u16; 16];
        for l in 1..16 {
            at[l] = at[l - 1] + c.counts[l - 1];
        }
        for (s, &l) in lengths.iter().enumerate() {
            if l != 0 {
                c.symbols[at[l as usize] as usize] = s as u16;
                at[l as usize] += 1;
            }
        }
        c
    }
    fn read(&self, b: &mut Bits) -> Option<u16> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for l in 1..16 {
            code |= b.bit()? as i32;
            let n = self.counts[l] as i32;
            if code - n < first {
                return Some(self.symbols[(index + (code - first)) as usize]);
            }
            index += n;
            first = (first + n) << 1;
            code <<= 1;
        }
        None
    }
}

const BASE: [u16; 29] =
    [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
const EXTRA: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DIST: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193,
    12289, 16385, 24577,
];

/// RFC 1951
fn inflate(b: &mut Bits, out: &mut Vec<u8>) -> Option<()> {
    loop {
        let last = b.bit()?;
        match b.bits(2)? {
            0 => {
                b.pos = (b.pos + 7) & !7;
                let n = b.bits(16)?;
                if b.bits(16)? != n ^ 0xffff {
                    return None;
                }
                let at = b.pos >> 3;
                out.extend_from_slice(b.data.get(at..at + n as usize)?);
                b.pos += n as usize * 8;
            }
            1 => {
                let mut l = [8u8; 288];
                l[144..256].fill(9);
                l[256..280].fill(7);
                codes(b, out, &Code::new(&l), &Code::new(&[5; 30]))?;
            }
            2 => {
                let (nlit, ndist, nlen) = (b.bits(5)? + 257, b.bits(5)? + 1, b.bits(4)? + 4);
                let mut l = [0u8; 320];
                const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
                for i in 0..nlen {
                    l[ORDER[i as usize]] = b.bits(3)? as u8;
                }
                let lens = Code::new(&l[..19]);
                l = [0; 320];
                let mut i = 0;
                while i < nlit + ndist {
                    let s = lens.read(b)?;
                    let (v, n) = match s {
                        0..=15 => (s as u8, 1),
                        16 => (*l.get((i as usize).checked_sub(1)?)?, 3 + b.bits(2)?),
                        17 => (0, 3 + b.bits(3)?),
                        _ => (0, 11 + b.bits(7)?),
                    };
                    for _ in 0..n {
                        *l.get_mut(i as usize)? = v;
                        i += 1;
                    }
                }
                if i != nlit + ndist {
                    return None;
                }
                let (a, d) = l[..i as usize].split_at(nlit as usize);
                codes(b, out, &Code::new(a), &Code::new(d))?;
            }
            _ => return None,
        }
        if last == 1 {
            return Some(());
        }
    }
}

fn codes(b: &mut Bits, out: &mut Vec<u8>, lit: &Code, dist: &Code) -> Option<()> {
    loop {
        let s = lit.read(b)?;
        if s < 256 {
            out.push(s as u8);
        } else if s == 256 {
            return Some(());
        } else {
            let k = s as usize - 257;
            let n = *BASE.get(k)? as u32 + b.bits(EXTRA[k] as u32)?;
            let d = dist.read(b)? as usize;
            let far = *DIST.get(d)? as usize + b.bits(if d < 4 { 0 } else { d as u32 / 2 - 1 })? as usize;
            let mut from = out.len().checked_sub(far)?;
            for _ in 0..n {
                out.push(out[from]);
                from += 1;
            }
        }
    }
}

fn number(d: &[u8], at: usize) -> Option<u32> {
    Some(u32::from_be_bytes(d.get(at..at + 4)?.try_into().ok()?))
}

struct Decoded {
    width: u32,
    height: u32,
    pixels: Vec<[u8; 3]>,
}

/// The picture of a PNG, if it is a valid one
fn decode(d: &[u8], sums: bool) -> Option<Decoded> {
    if d.get(..8)? != b"\x89PNG\r\n\x1a\n" {
        return None;
    }
    let mut at = 8;
    let mut header: Option<(u32, u32, usize)> = None;
    let mut zlib: Vec<u8> = Vec::new();
    let mut ended = false;
    while at < d.len() {
        let n = number(d, at)? as usize;
        let kind = d.get(at + 4..at + 8)?;
        let body = d.get(at + 8..at + 8 + n)?;
        let sum = number(d, at + 8 + n)?;
        if sums && sum != crc32fast::crc32(crc32fast::crc32(0, kind), body) {
            return None;
        }
        at += n + 12;
        if ended || header.is_some() == (kind == b"IHDR") {
            return None;
        }
        match kind {
            b"IHDR" => {
                let channels = match (body.get(8)?, body.get(9)?) {
                    (8, 0) => 1,
                    (8, 2) => 3,
                    (8, 6) => 4,
                    _ => {
                        // A kind of PNG that this decoder does not know
                        sym::assume(false);
                        return None;
                    }
                };
                if body.len() != 13 || body[10..] != [0, 0, 0] {
                    return None;
                }
                header = Some((number(body, 0)?, number(body, 4)?, channels));
            }
            b"IDAT" => zlib.extend_from_slice(body),
            b"IEND" => ended = true,
            _ if kind[0] & 32 != 0 => (),
            _ => return None,
        }
    }
    let (width, height, channels) = header?;
    if !ended || width == 0 || height == 0 {
        return None;
    }
    if *zlib.first()? & 15 != 8 || (zlib[0] as u32 * 256 + *zlib.get(1)? as u32) % 31 != 0 || zlib[1] & 32 != 0 {
        return None;
    }
    let mut b = Bits { data: &zlib[2..], pos: 0 };
    let mut raw = Vec::new();
    inflate(&mut b, &mut raw)?;
    let end = (b.pos + 7) / 8 + 2;
    if zlib.len() != end + 4 || sums && number(&zlib, end)? != simd_adler32::adler(1, &raw) {
        return None;
    }
    let row = width as usize * channels;
    if raw.len() != (row + 1) * height as usize {
        return None;
    }
    let mut up = vec![0u8; row];
    let mut pixels = Vec::new();
    for line in raw.chunks(row + 1) {
        let mut cur = line[1..].to_vec();
        for i in 0..row {
            let a = if i >= channels { cur[i - channels] } else { 0 };
            let b = up[i];
            let c = if i >= channels { up[i - channels] } else { 0 };
            let add = match line[0] {
                0 => 0,
                1 => a,
                2 => b,
                3 => ((a as u32 + b as u32) / 2) as u8,
                4 => {
                    let p = a as i32 + b as i32 - c as i32;
                    let (x, y, z) = ((p - a as i32).abs(), (p - b as i32).abs(), (p - c as i32).abs());
                    let first = (x <= y) & (x <= z);
                    let bc = if y <= z { b } else { c };
                    if first {
                        a
                    } else {
                        bc
                    }
                }
                _ => return None,
            };
            cur[i] = cur[i].wrapping_add(add);
        }
        for p in cur.chunks(channels) {
            pixels.push(match channels {
                1 => [p[0]; 3],
                3 => [p[0], p[1], p[2]],
                _ => {
                    if p[3] != 255 {
                        return None;
                    }
                    [p[0], p[1], p[2]]
                }
            });
        }
        up = cur;
    }
    Some(Decoded { width, height, pixels })
}

/// A picture of which some bytes hold any value: from `lo`, `n` of them, `step` apart
#[no_mangle]
pub extern "C" fn h_png() {
    let (w, h) = (sym::param(0) as u32, sym::param(1) as u32);
    let (lo, n, step) = (sym::param(2) as usize, sym::param(3) as usize, sym::param(4) as usize);
    let mut data = picture(w, h, sym::param(5));
    for k in 0..n {
        if let Some(x) = data.get_mut(lo + k * step) {
            *x = sym::byte();
        }
    }
    judge(w, h, data, n == 0);
}

/// A fixed picture of which any pixels of a range hold any of the colours that the crate draws with
#[no_mangle]
pub extern "C" fn h_png_pixel() {
    let (w, h) = (sym::param(0) as u32, sym::param(1) as u32);
    let mut data = picture(w, h, sym::param(5));
    for _ in 0..sym::param(4) {
        let at = 3 * sym::split(sym::range(sym::param(2), sym::param(3))) as usize;
        let colour = [[255; 3], [0; 3], [255, 0, 0], [105; 3]][sym::split(sym::range(0, 3)) as usize];
        data[at..at + 3].copy_from_slice(&colour);
    }
    judge(w, h, data, true);
}

/// A fixed picture of any size up to that of the parameters
#[no_mangle]
pub extern "C" fn h_png_size() {
    let w = sym::split(sym::range(sym::param(0), sym::param(1))) as u32;
    let h = sym::split(sym::range(sym::param(2), sym::param(3))) as u32;
    judge(w, h, picture(w, h, sym::param(4)), true);
}

fn picture(w: u32, h: u32, kind: u64) -> Vec<u8> {
    (0..w * h * 3)
        .map(|i| match kind {
            0 => [255, 0][(i / 3 % 7 == 3) as usize],
            1 => (i * 37 + i / 256 * 11) as u8,
            _ => 105,
        })
        .collect()
}

fn judge(w: u32, h: u32, data: Vec<u8>, sums: bool) {
    if sym::again() == 1 {
        // One that is larger, one with the sides swapped, and one of that size
        let _ = image_to_png_bytes(&RgbImage::from_raw(w + 7, h + 5, picture(w + 7, h + 5, 1)).unwrap());
        let _ = image_to_png_bytes(&RgbImage::from_raw(h, w, data.clone()).unwrap());
        let _ = image_to_png_bytes(&RgbImage::from_raw(w, h, vec![255; data.len()]).unwrap());
    }
    let image = RgbImage::from_raw(w, h, data.clone()).unwrap();
    match image_to_png_bytes(&image) {
        Ok(bytes) => {
            sym::cover("encoded");
            let Some(d) = decode(&bytes, sums) else {
                sym::check(false, "P01 the bytes are a valid PNG");
                return;
            };
            sym::check((d.width == w) & (d.height == h), "P01 the PNG has the picture's dimensions");
            let mut same = d.pixels.len() * 3 == data.len();
            if same {
                for (i, p) in d.pixels.iter().enumerate() {
                    same &= (p[0] == data[3 * i]) & (p[1] == data[3 * i + 1]) & (p[2] == data[3 * i + 2]);
                }
            }
            sym::check(same, "P01 the PNG has the picture's pixels");
            sym::observe(bytes.len() as u64);
        }
        Err(_) => {
            sym::cover("empty");
            sym::check(w == 0 || h == 0, "P01 every picture with pixels is encoded");
            sym::observe(1);
        }
    }
}
