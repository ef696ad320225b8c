//! Choice tapes: every generated artefact is a function of a list of numbers, so that shrinking the list shrinks the artefact.

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % n.max(1) as u64) as usize
  }
}

pub struct Tape {
  pub data: Vec<u32>,
  pub pos: usize,
  rng: Option<Rng>,
  limit: usize,
}
impl Tape {
  pub fn random(seed: u64, limit: usize) -> Self {
    Tape { data: vec![], pos: 0, rng: Some(Rng::new(seed)), limit }
  }
  pub fn replay(data: Vec<u32>) -> Self {
    Tape { data, pos: 0, rng: None, limit: usize::MAX }
  }
  pub fn next(&mut self) -> u32 {
    if self.pos >= self.data.len() {
      match &mut self.rng {
        Some(r) if self.data.len() < self.limit => self.data.push((r.next() >> 33) as u32 % 1_000_000),
        _ => return 0,
      }
    }
    self.pos += 1;
    self.data[self.pos - 1]
  }
  pub fn below(&mut self, n: usize) -> usize {
    if n <= 1 { 0 } else { self.next() as usize % n }
  }
  /// True with probability `pct`; a zero choice is false.
  pub fn chance(&mut self, pct: u32) -> bool {
    self.next() % 100 >= 100 - pct
  }
  /// Weighted index; a zero choice gives the first one.
  pub fn weighted(&mut self, ws: &[u32]) -> usize {
    let total: u32 = ws.iter().sum();
    let mut x = self.next() % total.max(1);
    for (i, w) in ws.iter().enumerate() {
      if x < *w {
        return i;
      }
      x -= w;
    }
    0
  }
}

/// Shrinks `data` while `fails` (called on batches of candidates, returns the index of the first failing one) holds.
pub fn shrink(mut data: Vec<u32>, deadline: std::time::Instant, mut first_failing: impl FnMut(&[Vec<u32>]) -> Option<usize>) -> Vec<u32> {
  while data.last() == Some(&0) {
    data.pop();
  }
  let width = 16;
  loop {
    let before = data.clone();
    // Delete chunks.
    let mut size = (data.len() / 2).max(1);
    loop {
      let mut i = 0;
      while i < data.len() {
        if std::time::Instant::now() > deadline {
          return data;
        }
        let mut cands = vec![];
        let mut k = i;
        while k < data.len() && cands.len() < width {
          let mut c = data.clone();
          c.drain(k..(k + size).min(c.len()));
          cands.push(c);
          k += size;
        }
        match first_failing(&cands) {
          Some(j) => {
            data = cands[j].clone();
            i += j * size;
          }
          None => i = k,
        }
      }
      if size == 1 {
        break;
      }
      size /= 2;
    }
    // Zero, then lower single entries.
    let mut i = 0;
    while i < data.len() {
      if std::time::Instant::now() > deadline {
        return data;
      }
      let mut cands: Vec<(usize, Vec<u32>)> = vec![];
      let mut k = i;
      while k < data.len() && cands.len() < width {
        let v = data[k];
        for n in [0, v % 7, v % 30, v % 100] {
          if n < v {
            let mut c = data.clone();
            c[k] = n;
            cands.push((k, c));
          }
        }
        k += 1;
      }
      if cands.is_empty() {
        i = k;
        continue;
      }
      let only: Vec<Vec<u32>> = cands.iter().map(|c| c.1.clone()).collect();
      match first_failing(&only) {
        Some(j) => {
          data = cands[j].1.clone();
          i = cands[j].0;
          if cands[j].1[cands[j].0] == 0 {
            i += 1;
          }
        }
        None => i = k,
      }
    }
    while data.last() == Some(&0) {
      data.pop();
    }
    if data == before {
      return data;
    }
  }
}
