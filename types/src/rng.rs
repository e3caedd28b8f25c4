//! Random numbers that are a function of the seed.

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(x: u64) -> u64 {
    let mut s = x;
    splitmix(&mut s)
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    pub fn weighted<T: Copy>(&mut self, w: &[(T, u64)]) -> T {
        let t: u64 = w.iter().map(|x| x.1).sum();
        let mut x = self.below(t);
        for (o, n) in w {
            if x < *n {
                return *o;
            }
            x -= n;
        }
        unreachable!()
    }
}
