//! Choice sources: a seeded generator, or an odometer that enumerates every sequence of choices.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// How choices are made.
enum Src {
    Rng(u64),
    /// (chosen, out of) so far; `pos` is the next one. Beyond the script the first alternative is taken and recorded.
    Script { script: Vec<(u32, u32)>, pos: usize },
}

pub struct Choice { src: Src, pub made: u64 }

impl Choice {
    pub fn seeded(parts: &[u64]) -> Choice {
        let mut s = 0x1234_5678_9abc_def0u64;
        for p in parts { s = mix(s ^ mix(*p)); }
        Choice { src: Src::Rng(s), made: 0 }
    }
    pub fn script(script: Vec<(u32, u32)>) -> Choice { Choice { src: Src::Script { script, pos: 0 }, made: 0 } }

    /// A number in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.made += 1;
        match &mut self.src {
            Src::Rng(s) => {
                *s = s.wrapping_add(0x9E3779B97F4A7C15);
                ((mix(*s) as u128 * n as u128) >> 64) as usize
            }
            Src::Script { script, pos } => {
                if n == 1 { return 0; }
                let r = if *pos < script.len() {
                    script[*pos].1 = n as u32;
                    script[*pos].0.min(n as u32 - 1) as usize
                } else {
                    script.push((0, n as u32));
                    0
                };
                *pos += 1;
                r
            }
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn coin(&mut self) -> bool { self.below(2) == 1 }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn raw(&mut self) -> u64 { self.below(usize::MAX) as u64 }
    pub fn exhaustive(&self) -> bool { matches!(self.src, Src::Script { .. }) }

    /// After a scripted run: the next script, or None when the space is exhausted.
    pub fn next_script(self) -> Option<Vec<(u32, u32)>> {
        match self.src {
            Src::Rng(_) => None,
            Src::Script { mut script, pos } => {
                script.truncate(pos);
                while let Some((c, n)) = script.pop() {
                    if c + 1 < n { script.push((c + 1, n)); return Some(script); }
                }
                None
            }
        }
    }
}
