//! Single values through the codec.
use crate::catalog::codes;
use crate::log::{guarded, Log};
use crate::rng::Rng;
use ahash::AHashMap;
use indexer_lib::serialize::{sequential_array, Deserializable, Serializable};
use serde_json::{json, Value};

/// A storable value together with how the specification writes it.
trait Tagged {
    fn tag(&self) -> Value;
}
fn digits128(mut n: u64) -> Vec<u64> {
    let mut out = Vec::new();
    loop {
        out.push(n & 127);
        n >>= 7;
        if n == 0 {
            return out;
        }
    }
}
impl Tagged for u64 {
    fn tag(&self) -> Value {
        json!(["nat", digits128(*self)])
    }
}
impl Tagged for u32 {
    fn tag(&self) -> Value {
        u64::from(*self).tag()
    }
}
impl Tagged for usize {
    fn tag(&self) -> Value {
        (*self as u64).tag()
    }
}
impl Tagged for u8 {
    fn tag(&self) -> Value {
        json!(["u8", self])
    }
}
impl Tagged for char {
    fn tag(&self) -> Value {
        json!(["chr", *self as u32])
    }
}
impl Tagged for bool {
    fn tag(&self) -> Value {
        json!(["bool", self])
    }
}
impl Tagged for f32 {
    fn tag(&self) -> Value {
        json!(["f32", self.to_bits().to_be_bytes()])
    }
}
impl Tagged for String {
    fn tag(&self) -> Value {
        json!(["str", codes(self)])
    }
}
impl<T: Tagged> Tagged for Vec<T> {
    fn tag(&self) -> Value {
        json!(["list", self.iter().map(Tagged::tag).collect::<Vec<_>>()])
    }
}
impl<T: Tagged, const N: usize> Tagged for [T; N] {
    fn tag(&self) -> Value {
        json!(["arr", self.iter().map(Tagged::tag).collect::<Vec<_>>()])
    }
}
impl<K: Tagged, V: Tagged> Tagged for AHashMap<K, V> {
    fn tag(&self) -> Value {
        json!(["map", self.iter().map(|(k, v)| json!([k.tag(), v.tag()])).collect::<Vec<_>>()])
    }
}

pub struct Coder<'l> {
    pub log: &'l Log,
    pub wire: bool,
    pub n: usize,
}

impl<'l> Coder<'l> {
    fn report(&mut self, tag: Value, bytes: Vec<u8>, decode: impl Fn(&[u8]) -> Option<(usize, Value)>, r: &mut Rng) {
        self.n += 1;
        if self.wire {
            self.log.ev("Wire", json!({"v": tag, "bytes": bytes}));
        } else {
            let extras: [usize; 3] = [0, 1, r.range(2, 12)];
            for extra in extras {
                let mut b = bytes.clone();
                for _ in 0..extra {
                    b.push(*r.pick(&[0u8, 1, 127, 128, 255, 66]));
                }
                let Some(res) = guarded(self.log, "deserialize", || decode(&b)) else { return };
                let (left, back) = match res {
                    None => (0, vec![]),
                    Some((l, v)) => (l, vec![v]),
                };
                self.log.ev("Code", json!({"v": tag, "back": back, "left": left, "extra": extra}));
            }
        }
    }
    fn one<T: Tagged + Serializable + Deserializable>(&mut self, v: &T, r: &mut Rng) {
        let mut bytes = Vec::new();
        if guarded(self.log, "serialize", || v.serialize(&mut |b| bytes.push(b))).is_none() {
            return;
        }
        self.report(v.tag(), bytes, |b| T::deserialize(b).map(|(rest, v)| (rest.len(), v.tag())), r);
    }
    /// A list written item by item after its length, as the library writes lists of products.
    fn listed<T: Tagged + Serializable + Deserializable>(&mut self, v: &Vec<T>, r: &mut Rng) {
        let mut bytes = Vec::new();
        let refs: &Vec<T> = v;
        if guarded(self.log, "serialize", || refs.serialize(&mut |b| bytes.push(b))).is_none() {
            return;
        }
        self.report(v.tag(), bytes, |b| Vec::<T>::deserialize(b).map(|(rest, v)| (rest.len(), v.tag())), r);
    }
    fn map<K: Tagged + Serializable + Deserializable + Eq + std::hash::Hash, V: Tagged + Serializable + Deserializable>(&mut self, v: &AHashMap<K, V>, r: &mut Rng) {
        self.one(v, r);
    }
    fn ids(&mut self, v: &[usize], r: &mut Rng) {
        let mut bytes = Vec::new();
        if guarded(self.log, "serialize", || sequential_array::serialize(v.iter().copied(), &mut |b| bytes.push(b))).is_none() {
            return;
        }
        self.report(
            json!(["ids", v]),
            bytes,
            |b| sequential_array::deserialize::<usize>(b).map(|(rest, v)| (rest.len(), json!(["ids", v.iter().map(|i| (*i).min(2_000_000_000)).collect::<Vec<_>>()]))),
            r,
        );
    }

    /// Values too long to be spelled out: what is read, as numbers.
    fn many<T: Serializable + Deserializable>(&mut self, kind: &str, n: usize, step: usize, v: &T, len: impl Fn(&T) -> usize, same: impl Fn(&T, &T) -> bool, r: &mut Rng) {
        let mut bytes = Vec::new();
        if guarded(self.log, "serialize", || v.serialize(&mut |b| bytes.push(b))).is_none() {
            return;
        }
        let size = bytes.len();
        let extra = r.below(4);
        bytes.extend((0..extra).map(|_| *r.pick(&[0u8, 1, 127, 128, 255])));
        let Some(res) = guarded(self.log, "deserialize", || T::deserialize(&bytes).map(|(rest, w)| (rest.len(), len(&w), same(v, &w)))) else { return };
        self.n += 1;
        let back = res.map_or_else(Vec::new, |(left, len, same)| vec![json!({"left": left, "n": len, "same": same})]);
        self.log.ev("CodeMany", json!({"kind": kind, "n": n, "step": step, "size": size, "back": back, "extra": extra}));
    }
    fn longs(&mut self, r: &mut Rng) {
        for k in 0..4 {
            let n = if k == 0 { crate::dict::number(r, 1000, 400_000).unwrap_or(65_537) } else { *r.pick(&[16_384usize, 32_768, 65_535, 65_536, 65_537, 70_000, 131_073, 200_000]) };
            let v: Vec<usize> = (0..n).collect();
            self.many("list", n, 1, &v, Vec::len, |a, b| a == b, r);
            let m: AHashMap<u32, u32> = (0..n as u32).map(|k| (k, k)).collect();
            self.many("map", n, 1, &m, |m| m.len(), |a, b| a == b, r);
            let s = "x".repeat(n);
            self.many("text", n, 1, &s, String::len, |a, b| a == b, r);
            let step = *r.pick(&[0usize, 1, 2, 127, 128, 300]);
            let ids: Vec<usize> = (0..n).map(|k| k * step).collect();
            let mut bytes = Vec::new();
            if guarded(self.log, "serialize", || sequential_array::serialize(ids.iter().rev().copied(), &mut |b| bytes.push(b))).is_none() {
                return;
            }
            let size = bytes.len();
            bytes.push(7);
            let Some(res) = guarded(self.log, "deserialize", || sequential_array::deserialize::<usize>(&bytes).map(|(rest, w)| (rest.len(), w.len(), w == ids))) else { return };
            let back = res.map_or_else(Vec::new, |(left, len, same)| vec![json!({"left": left, "n": len, "same": same})]);
            self.log.ev("CodeMany", json!({"kind": "ids", "n": n, "step": step, "size": size, "back": back, "extra": 1}));
        }
    }

    pub fn run(&mut self, r: &mut Rng, scale: usize) {
        self.longs(r);
        // integers: around every power of two, and random ones of every size
        for k in 0..64u32 {
            let p = 1u64 << k;
            for d in [p.wrapping_sub(1), p, p + 1, p | r.next() >> (63 - k)] {
                self.one(&d, r);
                if k < 32 {
                    self.one(&(d as u32), r);
                    self.one(&(d as usize), r);
                }
            }
        }
        self.one(&u64::MAX, r);
        self.one(&u32::MAX, r);
        self.one(&usize::MAX, r);
        for _ in 0..40 * scale {
            let v = r.next() >> r.below(64);
            self.one(&v, r);
            self.one(&(v as usize), r);
            self.one(&(v as u32), r);
        }
        for b in 0..=255u8 {
            self.one(&b, r);
        }
        // characters
        for c in [0u32, 1, 0x7f, 0x80, 0x7ff, 0x800, 0x3fff, 0x4000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f47d, 0x1f_ffff, 0x10_ffff] {
            if let Some(c) = char::from_u32(c) {
                self.one(&c, r);
            }
        }
        for _ in 0..20 * scale {
            if let Some(c) = char::from_u32((r.next() as u32 & 0x1f_ffff) >> r.below(21)) {
                self.one(&c, r);
            }
        }
        self.one(&true, r);
        self.one(&false, r);
        // floats, bit patterns included
        for f in [0.0f32, -0.0, 1.0, -1.5, 0.1, f32::MIN_POSITIVE, f32::MAX, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 199.95, 1e-45, -1e-45, 1e-40, 1.175_494_2e-38, -1.175_494_4e-38, f32::EPSILON, f32::MIN] {
            self.one(&f, r);
        }
        for _ in 0..10 * scale {
            self.one(&f32::from_bits(r.next() as u32), r);
        }
        // texts
        let text = |r: &mut Rng, n: usize| -> String {
            (0..n).map(|_| *r.pick(&['a', 'b', ' ', '\0', '\n', 'ø', '中', '👽', '\u{10ffff}', '"', '\u{feff}', '\u{fffd}', '\u{7f}', '\u{85}', '\u{2028}'])).collect()
        };
        let mut lengths: Vec<usize> = (0..12).collect();
        lengths.extend([42, 43, 63, 64, 126, 127, 128, 129, 200]);
        for n in lengths {
            let s = text(r, n);
            self.one(&s, r);
            self.one(&"x".repeat(n), r);
        }
        self.one(&"y".repeat(300), r);
        for _ in 0..10 * scale {
            let n = r.below(60);
            let s = text(r, n);
            self.one(&s, r);
        }
        // lists
        for _ in 0..6 * scale {
            let n = *r.pick(&[0usize, 1, 2, 3, 5, 20]);
            let v: Vec<usize> = (0..n).map(|_| (r.next() >> r.below(64)) as usize).collect();
            let mut bytes = Vec::new();
            let _ = guarded(self.log, "serialize", || v.serialize(&mut |b| bytes.push(b)));
            self.report(v.tag(), bytes, |b| Vec::<usize>::deserialize(b).map(|(rest, v)| (rest.len(), v.tag())), r);
            let v: Vec<String> = (0..n)
                .map(|_| {
                    let n = r.below(5);
                    text(r, n)
                })
                .collect();
            self.listed(&v, r);
            let v: Vec<f32> = (0..n).map(|_| f32::from_bits(r.next() as u32)).collect();
            self.listed(&v, r);
            let v: Vec<u32> = (0..n).map(|_| r.next() as u32 >> r.below(32)).collect();
            self.listed(&v, r);
            let v: Vec<char> = (0..n).filter_map(|_| char::from_u32(r.next() as u32 & 0xffff)).collect();
            self.listed(&v, r);
            let v: Vec<bool> = (0..n).map(|_| r.one_in(2)).collect();
            self.listed(&v, r);
            let v: Vec<Vec<u32>> = (0..n.min(4)).map(|_| (0..r.below(4)).map(|_| r.next() as u32 >> r.below(32)).collect()).collect();
            let mut bytes = Vec::new();
            // nested lists exist only as feature columns inside maps; written here by hand in the same way
            let _ = guarded(self.log, "serialize", || {
                v.len().serialize(&mut |b| bytes.push(b));
                for x in &v {
                    let x: &Vec<u32> = x;
                    x.serialize(&mut |b| bytes.push(b));
                }
            });
            self.report(v.tag(), bytes, |b| Vec::<Vec<u32>>::deserialize(b).map(|(rest, v)| (rest.len(), v.tag())), r);
        }
        for n in [127usize, 128, 129, 300] {
            let v: Vec<bool> = (0..n).map(|_| r.one_in(2)).collect();
            self.listed(&v, r);
        }
        // lengths of two and of three digits, of one and of two bytes
        let longs: &[usize] = if self.wire { &[2000] } else { &[16_383, 16_384, 65_535, 65_536, 66_000] };
        let n = *r.pick(longs);
        let v: Vec<bool> = (0..n).map(|_| r.one_in(2)).collect();
        self.listed(&v, r);
        let n = *r.pick(longs);
        self.one(&"z".repeat(n), r);
        let n = *r.pick(longs);
        let v: Vec<usize> = (0..n).map(|_| r.below(100_000)).collect();
        self.ids(&v, r);
        // arrays
        for _ in 0..4 * scale {
            self.one(&[r.next() as u32; 1], r);
            self.one(&[r.next() as u32, 5, r.next() as u32 >> 9], r);
            self.one(&['a', 'ø', '\0', '👽', char::from_u32(r.below(0xd000) as u32).unwrap()], r);
            self.one(&[1u8, 2, 3, 4, 5, 6, 7, r.next() as u8], r);
            self.one(&[(r.next() >> r.below(60)) as usize; 2], r);
        }
        // ... longer than one byte can say
        self.one(&[r.next() as u8; 130], r);
        if !self.wire {
            self.one(&[r.below(300) as u32; 200], r);
            self.one(&['ø'; 300], r);
            self.one(&[r.one_in(2); 128], r);
        }
        // maps
        for _ in 0..4 * scale {
            let n = r.below(if self.wire { 5 } else { 9 });
            let m: AHashMap<String, u32> = (0..n)
                .map(|k| {
                    let s = text(r, k % 4);
                    (format!("{s}{k}"), r.next() as u32 >> r.below(32))
                })
                .collect();
            self.map(&m, r);
            let m: AHashMap<char, f32> = (0..n).map(|k| (char::from_u32(r.below(300) as u32 + k as u32).unwrap(), r.below(100) as f32)).collect();
            self.map(&m, r);
            let m: AHashMap<u32, Vec<usize>> = (0..n.min(3)).map(|k| (k as u32 * 100, (0..r.below(4)).collect())).collect();
            self.map(&m, r);
            let m: AHashMap<[char; 2], bool> = (0..n).map(|k| (['a', char::from_u32(98 + k as u32).unwrap()], r.one_in(2))).collect();
            self.map(&m, r);
        }
        // id lists: unsorted, repeated, large gaps
        for k in 0..10 * scale {
            let n = *r.pick(&[0usize, 1, 2, 3, 7, 30]);
            let top = *r.pick(&[2usize, 5, 128, 300, 20_000, 1_900_000_000]);
            let v: Vec<usize> = (0..n).map(|_| r.below(top)).collect();
            self.ids(&v, r);
            if k == 0 {
                let v: Vec<usize> = (0..200).map(|_| r.below(4000)).collect();
                self.ids(&v, r);
                // long ones, with and without repetitions
                for (n, top) in [(513usize, 60usize), (600, 100_000), (1030, 400), (300, 1)] {
                    let v: Vec<usize> = (0..n).map(|_| r.below(top)).collect();
                    self.ids(&v, r);
                }
            }
        }
        // runs of types one after another: what one leaves, the next must be able to read
        for _ in 0..4 * scale {
            let (a, b, c, d): (u64, String, bool, f32) = (r.next() >> r.below(64), text(r, 3), r.one_in(2), r.below(9) as f32 / 4.0);
            let mut bytes = Vec::new();
            let _ = guarded(self.log, "serialize", || {
                a.serialize(&mut |x| bytes.push(x));
                b.serialize(&mut |x| bytes.push(x));
                c.serialize(&mut |x| bytes.push(x));
                d.serialize(&mut |x| bytes.push(x));
            });
            let wire = self.wire;
            if !wire {
                let Some(got) = guarded(self.log, "deserialize", || {
                    let (rest, a) = u64::deserialize(&bytes)?;
                    let (rest, b) = String::deserialize(rest)?;
                    let (rest, c) = bool::deserialize(rest)?;
                    let (rest, d) = f32::deserialize(rest)?;
                    Some((rest.len(), json!(["list", [a.tag(), b.tag(), c.tag(), d.tag()]])))
                }) else { return };
                let (left, back) = got.map_or((0, vec![]), |(l, v)| (l, vec![v]));
                self.log.ev("Code", json!({"v": ["list", [a.tag(), b.tag(), c.tag(), d.tag()]], "back": back, "left": left, "extra": 0}));
            }
        }
    }
}
