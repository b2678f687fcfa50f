//! What a check explores: a list of spaces, each a finite sequence of cases.
use std::collections::HashSet;

#[derive(Default)]
pub struct Stats {
  /// distinct (pattern, window) configurations or object states visited, summed over cases
  pub states: u64,
  pub transitions: u64,
  /// executions of the implementation that were compared with the model
  pub traces: u64,
  /// runs outside of what the property defines: not compared
  pub undefined: u64,
  pub outcomes: HashSet<u64>,
  pub known: Vec<String>,
}

impl Stats {
  pub fn outcome(&mut self, h: u64) {
    crate::beat();
    if self.outcomes.len() < 200_000 {
      self.outcomes.insert(h);
    }
  }
}

pub struct Violation {
  /// identifies the failing input
  pub case: String,
  pub detail: String,
}

pub trait Space {
  fn name(&self) -> String;
  fn len(&self) -> u64;
  /// Explores one case completely. `beat` is called between runs of the implementation.
  fn run(&self, i: u64, st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), Violation>;
  fn describe(&self, i: u64) -> String;
}

/// A space given by closures.
pub struct Cases {
  pub name: String,
  pub len: u64,
  pub run: Box<dyn Fn(u64, &mut Stats, &mut dyn FnMut()) -> Result<(), Violation>>,
  pub describe: Box<dyn Fn(u64) -> String>,
}

impl Space for Cases {
  fn name(&self) -> String {
    self.name.clone()
  }
  fn len(&self) -> u64 {
    self.len
  }
  fn run(&self, i: u64, st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), Violation> {
    (self.run)(i, st, beat)
  }
  fn describe(&self, i: u64) -> String {
    (self.describe)(i)
  }
}
