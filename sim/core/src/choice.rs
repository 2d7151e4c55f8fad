//! Every decision of a simulated run is a labelled draw. In generation mode the
//! value comes from a PRNG derived from (seed, label); in replay mode it comes
//! from a recorded list. Zero is always the simplest / most benign choice, so an
//! exhausted or shortened replay list still denotes a valid, simpler run.
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub type Key = (&'static str, u32);
pub type Record = BTreeMap<Key, Vec<u64>>;

struct Stream {
    rng: Rng,
    vals: Vec<u64>,
    input: Vec<u64>,
}

pub struct Choices {
    pub seed: u64,
    replay: Option<Record>,
    streams: BTreeMap<Key, Stream>,
    pub draws: u64,
}

fn hash_label(seed: u64, k: Key) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for b in k.0.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= (k.1 as u64).wrapping_mul(0x9E3779B97F4A7C15);
    let mut x = h;
    splitmix(&mut x)
}

impl Choices {
    pub fn from_seed(seed: u64) -> Choices {
        Choices { seed, replay: None, streams: BTreeMap::new(), draws: 0 }
    }
    pub fn from_record(seed: u64, rec: Record) -> Choices {
        Choices { seed, replay: Some(rec), streams: BTreeMap::new(), draws: 0 }
    }
    /// A value in 0..n.
    pub fn draw(&mut self, label: &'static str, inst: u32, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.draws += 1;
        let key = (label, inst);
        let seed = self.seed;
        let replay = &mut self.replay;
        let s = self.streams.entry(key).or_insert_with(|| Stream {
            rng: Rng::new(hash_label(seed, key)),
            vals: Vec::new(),
            input: match replay {
                Some(r) => r.remove(&key).unwrap_or_default(),
                None => Vec::new(),
            },
        });
        let v = if replay.is_some() {
            s.input.get(s.vals.len()).copied().unwrap_or(0).min(n - 1)
        } else {
            s.rng.below(n)
        };
        s.vals.push(v);
        v
    }
    /// True with probability num/den; the benign outcome (false) is value zero.
    pub fn chance(&mut self, label: &'static str, inst: u32, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        if num >= den {
            return true;
        }
        self.draw(label, inst, den) >= den - num
    }
    /// Index drawn by weight; index 0 should be the simplest option.
    pub fn weighted(&mut self, label: &'static str, inst: u32, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(label, inst, total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    pub fn range(&mut self, label: &'static str, inst: u32, lo: u64, hi: u64) -> u64 {
        lo + self.draw(label, inst, hi - lo + 1)
    }
    pub fn record(&self) -> Record {
        let mut r = Record::new();
        for (k, s) in &self.streams {
            let mut v = s.vals.clone();
            while v.last() == Some(&0) {
                v.pop();
            }
            if !v.is_empty() {
                r.insert(*k, v);
            }
        }
        r
    }
}

pub fn intern(s: &str) -> &'static str {
    use std::cell::RefCell;
    thread_local! { static T: RefCell<BTreeMap<String, &'static str>> = RefCell::new(BTreeMap::new()); }
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) {
            return *x;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        t.insert(s.to_string(), l);
        l
    })
}

pub fn record_to_text(r: &Record) -> String {
    let mut out = String::new();
    for (k, v) in r {
        out.push_str(&format!("{}#{}:", k.0, k.1));
        for x in v {
            out.push_str(&format!(" {}", x));
        }
        out.push('\n');
    }
    out
}

pub fn record_from_lines<'a>(lines: impl Iterator<Item = &'a str>) -> Record {
    let mut r = Record::new();
    for l in lines {
        let Some((k, v)) = l.split_once(':') else { continue };
        let Some((name, inst)) = k.split_once('#') else { continue };
        let vals: Vec<u64> = v.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        r.insert((intern(name), inst.parse().unwrap_or(0)), vals);
    }
    r
}
