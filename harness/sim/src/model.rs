//! Reference models: small, portable, independent implementations of the
//! published algorithms, used as the oracle of every simulated operation.

#[derive(Copy, Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Alg {
    ChaCha8,
    ChaCha12,
    ChaCha20,
    ChaCha20Legacy,
    /// 64-bit-counter core reached through `SeedableRng` (8 and 12 rounds)
    ChaCha8Djb,
    ChaCha12Djb,
    /// other round counts, through the public type parameters
    ChaCha6,
    ChaCha14Djb,
    Salsa6,
    XSalsa10,
    XChaCha8,
    XChaCha12,
    XChaCha20,
    Salsa8,
    Salsa12,
    Salsa20,
    XSalsa8,
    XSalsa12,
    XSalsa20,
    Rabbit,
    RabbitKeyOnly,
    Hc256,
    Rc4,
}
use Alg::*;

#[derive(Copy, Clone, PartialEq, Eq)]
enum Fam {
    ChaCha,
    Salsa,
    Rabbit,
    Hc,
    Rc4,
}

impl Alg {
    pub fn name(self) -> &'static str {
        match self {
            ChaCha8 => "ChaCha8",
            ChaCha12 => "ChaCha12",
            ChaCha20 => "ChaCha20",
            ChaCha20Legacy => "ChaCha20Legacy",
            ChaCha8Djb => "ChaCha8Djb",
            ChaCha12Djb => "ChaCha12Djb",
            ChaCha6 => "ChaCha6",
            ChaCha14Djb => "ChaCha14Djb",
            Salsa6 => "Salsa6",
            XSalsa10 => "XSalsa10",
            XChaCha8 => "XChaCha8",
            XChaCha12 => "XChaCha12",
            XChaCha20 => "XChaCha20",
            Salsa8 => "Salsa8",
            Salsa12 => "Salsa12",
            Salsa20 => "Salsa20",
            XSalsa8 => "XSalsa8",
            XSalsa12 => "XSalsa12",
            XSalsa20 => "XSalsa20",
            Rabbit => "Rabbit",
            RabbitKeyOnly => "RabbitKeyOnly",
            Hc256 => "Hc256",
            Rc4 => "Rc4",
        }
    }
    fn fam(self) -> Fam {
        match self {
            Salsa6 | Salsa8 | Salsa12 | Salsa20 | XSalsa8 | XSalsa10 | XSalsa12 | XSalsa20 => Fam::Salsa,
            Rabbit | RabbitKeyOnly => Fam::Rabbit,
            Hc256 => Fam::Hc,
            Rc4 => Fam::Rc4,
            _ => Fam::ChaCha,
        }
    }
    pub fn is_chacha(self) -> bool {
        self.fam() == Fam::ChaCha
    }
    pub fn double_rounds(self) -> usize {
        match self {
            ChaCha6 | Salsa6 => 3,
            XSalsa10 => 5,
            ChaCha14Djb => 7,
            ChaCha8 | ChaCha8Djb | XChaCha8 | Salsa8 | XSalsa8 => 4,
            ChaCha12 | ChaCha12Djb | XChaCha12 | Salsa12 | XSalsa12 => 6,
            _ => 10,
        }
    }
    pub fn key_len(self) -> usize {
        match self {
            Rabbit | RabbitKeyOnly => 16,
            _ => 32,
        }
    }
    pub fn iv_len(self) -> usize {
        match self {
            ChaCha6 | ChaCha8 | ChaCha12 | ChaCha20 => 12,
            ChaCha20Legacy | Salsa6 | Salsa8 | Salsa12 | Salsa20 | Rabbit => 8,
            XChaCha8 | XChaCha12 | XChaCha20 | XSalsa8 | XSalsa10 | XSalsa12 | XSalsa20 => 24,
            Hc256 => 32,
            ChaCha8Djb | ChaCha12Djb | ChaCha14Djb | RabbitKeyOnly | Rc4 => 0,
        }
    }
    /// Block counter width; 0: not seekable, no end.
    pub fn ctr_bits(self) -> u32 {
        match self {
            ChaCha6 | ChaCha8 | ChaCha12 | ChaCha20 | XChaCha8 | XChaCha12 | XChaCha20 => 32,
            ChaCha20Legacy | ChaCha8Djb | ChaCha12Djb | ChaCha14Djb => 64,
            _ if self.fam() == Fam::Salsa => 64,
            _ => 0,
        }
    }
    /// Reached from a seed alone, through the generator's constructor.
    pub fn seed_only(self) -> bool {
        matches!(self, ChaCha8Djb | ChaCha12Djb | ChaCha14Djb)
    }
    /// A round count for which the crates name no type.
    pub fn odd(self) -> bool {
        matches!(self, ChaCha6 | ChaCha14Djb | Salsa6 | XSalsa10)
    }
    pub fn seekable(self) -> bool {
        self.ctr_bits() != 0
    }
    pub fn block_size(self) -> usize {
        match self.fam() {
            Fam::ChaCha | Fam::Salsa => 64,
            Fam::Rabbit => 16,
            Fam::Hc => 4,
            Fam::Rc4 => 1,
        }
    }
    /// Largest block counter.
    pub fn max_ctr(self) -> u128 {
        (1u128 << self.ctr_bits()) - 1
    }
}

const SIGMA: [u32; 4] = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574];

fn le(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

fn chacha_rounds(x: &mut [u32; 16], dr: usize) {
    fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        for (p, q, r, s) in [(a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)] {
            x[p] = x[p].wrapping_add(x[q]);
            x[r] = (x[r] ^ x[p]).rotate_left(s);
        }
    }
    for _ in 0..dr {
        for i in 0..4 {
            qr(x, i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            qr(x, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
}

fn salsa_rounds(x: &mut [u32; 16], dr: usize) {
    // index function for columns; rows are its transpose
    for _ in 0..dr {
        for t in [false, true] {
            for i in 0..4usize {
                let at = |k: usize| {
                    let (r, c) = ((i + k) % 4, i);
                    if t { 4 * c + r } else { 4 * r + c }
                };
                for (k, s) in [(1, 7), (2, 9), (3, 13), (4, 18)] {
                    let v = x[at(k + 3)].wrapping_add(x[at(k + 2)]);
                    x[at(k)] ^= v.rotate_left(s);
                }
            }
        }
    }
}

pub fn hchacha(dr: usize, key: &[u8], inp: &[u8]) -> [u8; 32] {
    let mut x = [0u32; 16];
    x[..4].copy_from_slice(&SIGMA);
    for i in 0..8 {
        x[4 + i] = le(&key[4 * i..]);
    }
    for i in 0..4 {
        x[12 + i] = le(&inp[4 * i..]);
    }
    chacha_rounds(&mut x, dr);
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].to_le_bytes());
        out[16 + 4 * i..20 + 4 * i].copy_from_slice(&x[12 + i].to_le_bytes());
    }
    out
}

fn salsa_state(key: &[u8], mid: [u32; 4]) -> [u32; 16] {
    let mut x = [0u32; 16];
    for i in 0..4 {
        x[5 * i] = SIGMA[i];
        x[1 + i] = le(&key[4 * i..]);
        x[11 + i] = le(&key[16 + 4 * i..]);
        x[6 + i] = mid[i];
    }
    x
}

pub fn hsalsa(dr: usize, key: &[u8], inp: &[u8]) -> [u8; 32] {
    let mut x = salsa_state(key, [le(inp), le(&inp[4..]), le(&inp[8..]), le(&inp[12..])]);
    salsa_rounds(&mut x, dr);
    let mut out = [0u8; 32];
    for (i, k) in [0, 5, 10, 15, 6, 7, 8, 9].into_iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&x[k].to_le_bytes());
    }
    out
}

/// Rabbit key and IV that bring one word of the counter or state system to a
/// chosen value in the first round of the key setup (`iv` false) or of the IV
/// setup: `sum` false: counter word `j` plus its constant (and the carry) at
/// `target`; true: the argument of the g function at `target`.
pub fn rabbit_directed(key: &mut [u8], iv: Option<&mut [u8]>, j: usize, sum: bool, carry: bool, target: u32) {
    let put = |k: &mut [u8], i: usize, v: u32| {
        let i = i % 8;
        k[2 * i..2 * i + 2].copy_from_slice(&(v as u16).to_le_bytes());
    };
    let r = match &iv {
        None => RabbitM::raw(key),
        Some(_) => RabbitM::new(key, None),
    };
    // carry into word j
    let mut b = r.b;
    for i in 0..j {
        b = (r.c[i] as u64 + RABBIT_A[i] as u64 + b) >> 32;
    }
    if carry && j > 0 {
        b = 1;
    }
    let mut want = target.wrapping_sub(RABBIT_A[j]).wrapping_sub(b as u32);
    if sum {
        want = want.wrapping_sub(r.x[j]);
    }
    match iv {
        None => {
            if carry && j > 0 {
                // the word before overflows
                let i = j - 1;
                put(key, if i % 2 == 0 { i + 4 } else { i }, 0xffff);
            }
            let (hi, lo) = if j % 2 == 0 { (j + 4, j + 5) } else { (j, j + 1) };
            put(key, hi, want >> 16);
            put(key, lo, want);
        }
        Some(iv) => {
            let v = (want ^ r.c[j]).to_le_bytes();
            // IV words: lo, hi.hi:lo.hi, hi, hi.lo:lo.lo
            let at: [usize; 4] = [[0, 1, 2, 3], [2, 3, 6, 7], [4, 5, 6, 7], [0, 1, 4, 5]][j % 4];
            for (a, b) in at.into_iter().zip(v) {
                iv[a] = b;
            }
        }
    }
}

const RABBIT_A: [u32; 8] =
    [0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3];

struct RabbitM {
    x: [u32; 8],
    c: [u32; 8],
    b: u64,
}
impl RabbitM {
    fn step(&mut self) {
        for j in 0..8 {
            let t = self.c[j] as u64 + RABBIT_A[j] as u64 + self.b;
            self.b = t >> 32;
            self.c[j] = t as u32;
        }
        let g: Vec<u32> = (0..8)
            .map(|j| {
                let s = self.x[j].wrapping_add(self.c[j]) as u64;
                let q = s * s;
                (q as u32) ^ ((q >> 32) as u32)
            })
            .collect();
        for j in 0..8usize {
            let p = g[(j + 7) % 8];
            let pp = g[(j + 6) % 8];
            self.x[j] = if j % 2 == 0 {
                g[j].wrapping_add(p.rotate_left(16)).wrapping_add(pp.rotate_left(16))
            } else {
                g[j].wrapping_add(p.rotate_left(8)).wrapping_add(pp)
            };
        }
    }
    fn raw(key: &[u8]) -> Self {
        let k: Vec<u32> = (0..8).map(|i| key[2 * i] as u32 | (key[2 * i + 1] as u32) << 8).collect();
        let cat = |hi: usize, lo: usize| (k[hi % 8] << 16) | k[lo % 8];
        let mut r = RabbitM { x: [0; 8], c: [0; 8], b: 0 };
        for j in 0..8 {
            if j % 2 == 0 {
                r.x[j] = cat(j + 1, j);
                r.c[j] = cat(j + 4, j + 5);
            } else {
                r.x[j] = cat(j + 5, j + 4);
                r.c[j] = cat(j, j + 1);
            }
        }
        r
    }
    fn new(key: &[u8], iv: Option<&[u8]>) -> Self {
        let mut r = Self::raw(key);
        for _ in 0..4 {
            r.step();
        }
        for j in 0..8 {
            r.c[j] ^= r.x[(j + 4) % 8];
        }
        if let Some(iv) = iv {
            let lo = le(iv);
            let hi = le(&iv[4..]);
            let i = [lo, (hi & 0xffff0000) | (lo >> 16), hi, (hi << 16) | (lo & 0xffff)];
            for j in 0..8 {
                r.c[j] ^= i[j % 4];
            }
            for _ in 0..4 {
                r.step();
            }
        }
        r
    }
    fn block(&mut self, out: &mut Vec<u8>) {
        self.step();
        for j in 0..4usize {
            // 32-bit output word j: low half x[2j] ^ x[2j+5]>>16, high half x[2j]>>16 ^ x[2j+3]
            let a = self.x[2 * j];
            let lo = (a ^ (self.x[(2 * j + 5) % 8] >> 16)) & 0xffff;
            let hi = ((a >> 16) ^ self.x[(2 * j + 3) % 8]) & 0xffff;
            out.extend_from_slice(&((hi << 16) | lo).to_le_bytes());
        }
    }
}

/// HC-256 with both tables kept as one array `t[which][index]`.
struct HcM {
    t: [Vec<u32>; 2],
    i: usize,
}
impl HcM {
    fn new(key: &[u8], iv: &[u8]) -> Self {
        let mut w = Vec::with_capacity(2560);
        for i in 0..8 {
            w.push(le(&key[4 * i..]));
        }
        for i in 0..8 {
            w.push(le(&iv[4 * i..]));
        }
        for i in 16..2560usize {
            let a: u32 = w[i - 2];
            let b: u32 = w[i - 15];
            let f2 = a.rotate_right(17) ^ a.rotate_right(19) ^ (a >> 10);
            let f1 = b.rotate_right(7) ^ b.rotate_right(18) ^ (b >> 3);
            w.push(
                f2.wrapping_add(w[i - 7]).wrapping_add(f1).wrapping_add(w[i - 16]).wrapping_add(i as u32),
            );
        }
        let mut h = HcM { t: [w[512..1536].to_vec(), w[1536..2560].to_vec()], i: 0 };
        for _ in 0..4096 {
            h.word();
        }
        h
    }
    fn word(&mut self) -> u32 {
        let which = (self.i / 1024) % 2;
        let j = self.i % 1024;
        self.i += 1;
        let back = |d: usize| (j + 1024 - d) % 1024;
        let (x, y) = (self.t[which][back(3)], self.t[which][back(1023)]);
        let g = (x.rotate_right(10) ^ y.rotate_right(23))
            .wrapping_add(self.t[1 - which][((x ^ y) % 1024) as usize]);
        let v = self.t[which][j].wrapping_add(self.t[which][back(10)]).wrapping_add(g);
        self.t[which][j] = v;
        let h = self.t[which][back(12)]
            .to_le_bytes()
            .iter()
            .enumerate()
            .fold(0u32, |s, (n, &b)| s.wrapping_add(self.t[1 - which][256 * n + b as usize]));
        h ^ v
    }
}

struct Rc4M {
    s: Vec<u8>,
    i: usize,
    j: usize,
}
impl Rc4M {
    fn new(key: &[u8]) -> Self {
        let mut s: Vec<u8> = (0..=255).collect();
        let mut j = 0usize;
        for i in 0..256 {
            j = (j + s[i] as usize + key[i % key.len()] as usize) % 256;
            s.swap(i, j);
        }
        Rc4M { s, i: 0, j: 0 }
    }
    fn byte(&mut self) -> u8 {
        self.i = (self.i + 1) % 256;
        self.j = (self.j + self.s[self.i] as usize) % 256;
        self.s.swap(self.i, self.j);
        self.s[(self.s[self.i] as usize + self.s[self.j] as usize) % 256]
    }
}

enum Kind {
    /// `ctr`: index of the low counter word
    Block { st: [u32; 16], ctr: usize, cached: Option<(u128, [u8; 64])> },
    Rabbit(RabbitM, Vec<u8>),
    Hc(HcM, Vec<u8>),
    Rc4(Rc4M, Vec<u8>),
}

/// Keystream of one (algorithm, key, IV), addressable by byte position.
pub struct Model {
    pub alg: Alg,
    kind: Kind,
}

impl Model {
    pub fn new(alg: Alg, key: &[u8], iv: &[u8]) -> Model {
        let dr = alg.double_rounds();
        let chacha = |key: &[u8], iv: &[u8], w64: bool| {
            let mut st = [0u32; 16];
            st[..4].copy_from_slice(&SIGMA);
            for i in 0..8 {
                st[4 + i] = le(&key[4 * i..]);
            }
            if w64 {
                if !iv.is_empty() {
                    st[14] = le(iv);
                    st[15] = le(&iv[4..]);
                }
            } else {
                for i in 0..3 {
                    st[13 + i] = le(&iv[4 * i..]);
                }
            }
            Kind::Block { st, ctr: 12, cached: None }
        };
        let salsa = |key: &[u8], iv: &[u8]| Kind::Block {
            st: salsa_state(key, [le(iv), le(&iv[4..]), 0, 0]),
            ctr: 8,
            cached: None,
        };
        let kind = match alg {
            ChaCha6 | ChaCha8 | ChaCha12 | ChaCha20 => chacha(key, iv, false),
            ChaCha20Legacy | ChaCha8Djb | ChaCha12Djb | ChaCha14Djb => chacha(key, iv, true),
            XChaCha8 | XChaCha12 | XChaCha20 => {
                let sk = hchacha(dr, key, &iv[..16]);
                let mut n = [0u8; 12];
                n[4..].copy_from_slice(&iv[16..24]);
                chacha(&sk, &n, false)
            }
            Salsa6 | Salsa8 | Salsa12 | Salsa20 => salsa(key, iv),
            XSalsa8 | XSalsa10 | XSalsa12 | XSalsa20 => salsa(&hsalsa(dr, key, &iv[..16]), &iv[16..24]),
            Rabbit => Kind::Rabbit(RabbitM::new(key, Some(iv)), vec![]),
            RabbitKeyOnly => Kind::Rabbit(RabbitM::new(key, None), vec![]),
            Hc256 => Kind::Hc(HcM::new(key, iv), vec![]),
            Rc4 => Kind::Rc4(Rc4M::new(key), vec![]),
        };
        Model { alg, kind }
    }

    /// 64-bit-counter ChaCha as used by the generators.
    pub fn new_rng(dr: usize, seed: &[u8; 32], stream: u64) -> Model {
        let alg = match dr {
            4 => ChaCha8Djb,
            6 => ChaCha12Djb,
            _ => ChaCha20Legacy,
        };
        let mut m = Model::new(alg, seed, &[0; 8]);
        if let Kind::Block { st, .. } = &mut m.kind {
            st[14] = stream as u32;
            st[15] = (stream >> 32) as u32;
        }
        m
    }

    /// The 16 input words of a Salsa model at block `ctr` (for `from_raw_state`).
    pub fn raw_state(&self, blk: u64) -> [u32; 16] {
        match &self.kind {
            Kind::Block { st, ctr, .. } => {
                let mut s = *st;
                s[*ctr] = blk as u32;
                s[*ctr + 1] = (blk >> 32) as u32;
                s
            }
            _ => [0; 16],
        }
    }

    /// Carry bit of a Rabbit model after `blocks` blocks were produced
    /// (sequential use only).
    pub fn rabbit_carry(&self) -> Option<u8> {
        match &self.kind {
            Kind::Rabbit(r, _) => Some(r.b as u8),
            _ => None,
        }
    }

    fn block64(&mut self, blk: u128) -> [u8; 64] {
        let alg = self.alg;
        let Kind::Block { st, ctr, cached } = &mut self.kind else { unreachable!() };
        if let Some((b, data)) = cached {
            if *b == blk {
                return *data;
            }
        }
        let mut s = *st;
        s[*ctr] = blk as u32;
        if alg.ctr_bits() == 64 {
            s[*ctr + 1] = (blk >> 32) as u32;
        }
        let mut x = s;
        if *ctr == 8 {
            salsa_rounds(&mut x, alg.double_rounds());
        } else {
            chacha_rounds(&mut x, alg.double_rounds());
        }
        let mut out = [0u8; 64];
        for i in 0..16 {
            out[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
        }
        *cached = Some((blk, out));
        out
    }

    /// Keystream bytes `pos..pos + out.len()` (the counter wraps modulo its width).
    pub fn ks(&mut self, pos: u128, out: &mut [u8]) {
        if self.alg.seekable() {
            let mut done = 0usize;
            while done < out.len() {
                let p = pos + done as u128;
                let blk = (p / 64) & self.alg.max_ctr();
                let off = (p % 64) as usize;
                let b = self.block64(blk);
                let n = (64 - off).min(out.len() - done);
                out[done..done + n].copy_from_slice(&b[off..off + n]);
                done += n;
            }
            return;
        }
        let end = pos as usize + out.len();
        let buf = match &mut self.kind {
            Kind::Rabbit(r, b) => {
                while b.len() < end {
                    r.block(b);
                }
                b
            }
            Kind::Hc(h, b) => {
                while b.len() < end {
                    let w = h.word();
                    b.extend_from_slice(&w.to_le_bytes());
                }
                b
            }
            Kind::Rc4(r, b) => {
                while b.len() < end {
                    let v = r.byte();
                    b.push(v);
                }
                b
            }
            Kind::Block { .. } => unreachable!(),
        };
        out.copy_from_slice(&buf[pos as usize..end]);
    }

    pub fn ks_vec(&mut self, pos: u128, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.ks(pos, &mut v);
        v
    }
}

fn hex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

/// Published vectors for the models themselves.
pub fn self_test() -> Result<(), String> {
    let z = |n: usize| vec![0u8; n];
    let seq: Vec<u8> = (0..32).collect();
    let mut k1 = z(32);
    k1[0] = 0x80;
    let x80: Vec<u8> = (0x80..0xa0).collect();
    let xiv: Vec<u8> = (0x40..0x58).map(|b| if b == 0x57 { 0x58 } else { b }).collect();
    let mut k55 = z(32);
    k55[0] = 0x55;
    let long: Vec<u8> = (1..=32).collect();
    let cases: Vec<(Alg, Vec<u8>, Vec<u8>, u128, &str)> = vec![
        // RFC 8439 2.4.2 / A.1
        (ChaCha20, seq.clone(), hex("000000000000004a00000000"), 64,
         "224f51f3401bd9e12fde276fb8631ded8c131f823d2c06e27e4fcaec9ef3cf788a3b0aa372600a92b57974cded2b9334794cba40c63e34cdea212c4cf07d41b7"),
        (ChaCha20, z(32), z(12), 0,
         "76b8e0ada0f13d90405d6ae55386bd28bdd219b8a08ded1aa836efcc8b770dc7da41597c5157488d7724e03fb8d84a376a43b8f41518a11cc387b669b2ee6586"),
        (ChaCha20Legacy, z(32), z(8), 64,
         "9f07e7be5551387a98ba977c732d080dcb0f29a048e3656912c6533e32ee7aed29b721769ce64e43d57133b074d839d531ed1f28510afb45ace10a1f4b794d6f"),
        // Strombergson's ChaCha vectors, TC1
        (ChaCha8Djb, z(32), z(0), 0,
         "3e00ef2f895f40d67f5bb8e81f09a5a12c840ec3ce9a7f3b181be188ef711a1e984ce172b9216f419f445367456d5619314a42a3da86b001387bfdb80e0cfe42"),
        (ChaCha12Djb, z(32), z(0), 0,
         "9bf49a6a0755f953811fce125f2683d50429c3bb49e074147e0089a52eae155f0564f879d27ae3c02ce82834acfa8c793a629f2ca0de6919610be82f411326be"),
        (XChaCha20, x80, xiv, 64,
         "29624b4b1b140ace53740e405b2168540fd7d630c1f536fecd722fc3cddba7f4cca98cf9e47e5e64d115450f9b125b54449ff76141ca620a1f9cfcab2a1a8a25"),
        (Salsa20, k1, z(8), 0,
         "e3be8fdd8beca2e3ea8ef9475b29a6e7003951e1097a5c38d23b7a5fad9f6844b22c97559e2723c7cbbd3fe4fc8d9a0744652a83e72a9c461876af4d7ef1a117"),
        (Salsa20, long, hex("0301040105090206"), 192,
         "a79633189046e2b20f35b3e0e54aa3b929e23c0f47dc7bcd4f928b2a9764be7d4b8a50f980a50b35ad8087375e0c556ecbe6a7161e8653ce9391e1e6710ed4f1"),
        (XSalsa20, b"this is 32-byte key for xsalsa20".to_vec(), b"24-byte nonce for xsalsa".to_vec(), 0,
         "4848297feb1fb52fb66d81609bd547fabcbe7026edc8b5e5e449d088bfa69c088f5d8da1d791267c2c195a7f8cae9c4b4050d08ce6d3a151ec265f3a58e47648"),
        // RFC 4503 A.1, A.2
        (RabbitKeyOnly, hex("ACC351DCF162FC3BFE363D2E29132891"), z(0), 0,
         "9C51E28784C37FE9A127F63EC8F32D3D19FC5485AA53BF96885B40F461CD76F55E4C4D20203BE58A5043DBFB737454E5"),
        (Rabbit, z(16), hex("597E26C175F573C3"), 0, "6D7D012292CCDCE0E2120058B94ECD1F2E6F93EDFF99247B012521D1104E5FA7A79B0212D0BD56233938E793C312C1EB"),
        (Hc256, k55, z(32), 0,
         "1c404afe4fe25fed958f9ad1ae36c06f88a65a3cc0abe223aeb3902f420ed3a86c3af05944eb396efb79758f5e7a1370d8b7106dcdf7d0adda233472e6dd75f5"),
        // RFC 6229
        (Rc4, hex("0102030405"), z(0), 0, "b2396305f03dc027ccc3524a0a1118a86982944f18fc82d589c403a47a0d0919"),
        (Rc4, hex("0102030405"), z(0), 0xf0, "28cb1132c96ce286421dcaadb8b69eae"),
    ];
    for (alg, key, iv, pos, want) in cases {
        let want = hex(want);
        let got = Model::new(alg, &key, &iv).ks_vec(pos, want.len());
        if got != want {
            return Err(format!("model self test failed: {} at {pos}", alg.name()));
        }
    }
    let hc = hchacha(10, &hex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"), &hex("000000090000004a0000000031415927"));
    if hc.to_vec() != hex("82413b4227b27bfed30e42508a877d73a0f9e4d58a74a853c12ec41326d3ecdc") {
        return Err("model self test failed: hchacha".into());
    }
    Ok(())
}
