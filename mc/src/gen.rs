//! Exhaustive, deterministic enumeration: all terms over an alphabet of constructors up to a
//! size, all strings over an alphabet up to a length, all tuples of choices.
use crate::g::*;

pub type Un = Box<dyn Fn(G) -> G>;
pub type Nary = Box<dyn Fn(Vec<G>) -> G>;

/// Constructors the terms are made of. A term's size is its number of constructors.
#[derive(Default)]
pub struct Alpha {
  pub leaves: Vec<G>,
  pub unary: Vec<Un>,
  /// minimum arity, maximum arity, constructor
  pub nary: Vec<(usize, usize, Nary)>,
  cnt: Vec<u64>,
  forest: Vec<Vec<u64>>,
}

impl Alpha {
  pub fn new(leaves: Vec<G>, unary: Vec<Un>, nary: Vec<(usize, usize, Nary)>) -> Alpha {
    Alpha {
      leaves,
      unary,
      nary,
      cnt: vec![],
      forest: vec![],
    }
  }

  /// Counts the terms of each size up to `max`.
  pub fn prepare(&mut self, max: usize) {
    let kmax = self.nary.iter().map(|x| x.1).max().unwrap_or(0);
    self.cnt = vec![0; max + 1];
    self.forest = vec![vec![0; max + 1]; kmax + 1];
    self.forest[0][0] = 1;
    for n in 1..=max {
      let mut c = 0;
      if n == 1 {
        c += self.leaves.len() as u64;
      } else {
        c += self.unary.len() as u64 * self.cnt[n - 1];
        for (a, b, _) in &self.nary {
          for k in *a..=*b {
            c += self.forest[k][n - 1];
          }
        }
      }
      self.cnt[n] = c;
      for k in 1..=kmax {
        let mut f = 0;
        for first in 1..=n {
          f += self.cnt[first] * self.forest[k - 1][n - first];
        }
        self.forest[k][n] = f;
      }
    }
  }

  pub fn count(&self, n: usize) -> u64 {
    self.cnt[n]
  }

  pub fn term(&self, n: usize, mut i: u64) -> G {
    if n == 1 {
      return self.leaves[i as usize].clone();
    }
    let u = self.unary.len() as u64 * self.cnt[n - 1];
    if i < u {
      let per = self.cnt[n - 1];
      return (self.unary[(i / per) as usize])(self.term(n - 1, i % per));
    }
    i -= u;
    for (a, b, f) in &self.nary {
      for k in *a..=*b {
        let c = self.forest[k][n - 1];
        if i < c {
          let mut v = vec![];
          self.trees(k, n - 1, i, &mut v);
          return f(v);
        }
        i -= c;
      }
    }
    unreachable!()
  }

  fn trees(&self, k: usize, n: usize, mut i: u64, out: &mut Vec<G>) {
    if k == 0 {
      return;
    }
    for first in 1..=n {
      let rest = self.forest[k - 1][n - first];
      let c = self.cnt[first] * rest;
      if i < c {
        out.push(self.term(first, i / rest));
        return self.trees(k - 1, n - first, i % rest, out);
      }
      i -= c;
    }
    unreachable!()
  }
}

/// All strings over an alphabet of pieces, up to `max` pieces, shortest first.
pub fn strings(pieces: &[&str], max: usize) -> Vec<String> {
  let mut all = vec![String::new()];
  let mut last = vec![String::new()];
  for _ in 0..max {
    let mut next = Vec::with_capacity(last.len() * pieces.len());
    for s in &last {
      for p in pieces {
        next.push(format!("{}{}", s, p));
      }
    }
    all.extend(next.iter().cloned());
    last = next;
  }
  let mut seen = std::collections::HashSet::new();
  all.retain(|s| seen.insert(s.clone()));
  all
}

/// Number of strings of exactly/at most `max` symbols of an alphabet of `k`.
pub fn words(k: u64, max: usize) -> u64 {
  (0..=max as u32).map(|n| k.pow(n)).sum()
}

/// The i-th word (shortest first) over an alphabet of `k` symbols.
pub fn word(k: u64, mut i: u64) -> Vec<usize> {
  let mut n = 0;
  while i >= k.pow(n) {
    i -= k.pow(n);
    n += 1;
  }
  let mut v = vec![0; n as usize];
  for x in v.iter_mut().rev() {
    *x = (i % k) as usize;
    i /= k;
  }
  v
}

/// Mixed radix digits: which choice of each dimension index `i` stands for.
pub fn digits(mut i: u64, dims: &[u64]) -> Vec<usize> {
  let mut v = Vec::with_capacity(dims.len());
  for d in dims {
    v.push((i % d) as usize);
    i /= d;
  }
  v
}
