pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// mostly fewer than n, rarely many
    pub fn some(&mut self, n: usize) -> usize {
        if self.chance(50) {
            n + if self.chance(25) { self.below(420) } else { self.below(60) }
        } else {
            self.below(n)
        }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T {
        &x[self.below(x.len())]
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
}

/// now and then makes the next round of a loop draw what the round before drew
#[derive(Default)]
pub struct Echo(Option<u64>);
impl Echo {
    pub fn begin(&mut self, r: &mut Rng) -> Option<u64> {
        if let (true, Some(last)) = (r.chance(6), self.0) {
            let b = r.0;
            r.0 = last;
            Some(b)
        } else {
            self.0 = Some(r.0);
            None
        }
    }
    pub fn end(&mut self, r: &mut Rng, b: Option<u64>) {
        if let Some(b) = b {
            r.0 = b;
        }
    }
}
