//! Grammars over an alphabet, each run on every input, compared with the reference model.
use crate::g::*;
use crate::gen::*;
use crate::model::{Model, No};
use crate::real::*;
use crate::space::*;

pub struct GSpace {
  pub name: String,
  pub alpha: Alpha,
  pub sizes: (usize, usize),
  pub frames: Vec<Un>,
  pub keep: Box<dyn Fn(&G) -> bool>,
  pub inputs: Vec<String>,
  pub styles: Vec<Style>,
  /// patterns registered on the context
  pub env: Vec<(S, G)>,
  /// windows (None: the whole source)
  pub windows: Vec<Option<(usize, usize)>>,
  /// build the matcher anew for each run
  pub fresh: bool,
  /// how deep patterns may nest before what they mean is left open
  pub depth: usize,
  /// compare the raw outcome of `exec`
  pub exec: bool,
  /// compare the result of a whole parse
  pub parse: bool,
  pub file: S,
  /// a further check on the result of the model (an invariant of the property)
  starts: Vec<u64>,
}

pub fn un(f: impl Fn(G) -> G + 'static) -> Un {
  Box::new(f)
}

pub fn nary(a: usize, b: usize, f: impl Fn(Vec<G>) -> G + 'static) -> (usize, usize, Nary) {
  (a, b, Box::new(f))
}

impl GSpace {
  pub fn new(name: &str, leaves: Vec<G>, unary: Vec<Un>, nary: Vec<(usize, usize, Nary)>, sizes: (usize, usize)) -> GSpace {
    GSpace {
      name: name.to_string(),
      alpha: Alpha::new(leaves, unary, nary),
      sizes,
      frames: vec![],
      keep: Box::new(|_| true),
      inputs: vec![],
      styles: vec![Style::Macros],
      env: vec![],
      windows: vec![None],
      fresh: false,
      depth: 60,
      exec: true,
      parse: false,
      file: "",
      starts: vec![],
    }
  }
  pub fn frames(mut self, f: Vec<Un>) -> Self {
    self.frames = f;
    self
  }
  pub fn inputs(mut self, pieces: &[&str], max: usize) -> Self {
    self.inputs = strings(pieces, max);
    self
  }
  pub fn texts(mut self, t: &[&str]) -> Self {
    self.inputs.extend(t.iter().map(|s| s.to_string()));
    self
  }
  pub fn styles(mut self, s: &[Style]) -> Self {
    self.styles = s.to_vec();
    self
  }
  pub fn env(mut self, e: Vec<(S, G)>) -> Self {
    self.env = e;
    self
  }
  pub fn windows(mut self, w: Vec<Option<(usize, usize)>>) -> Self {
    self.windows = w;
    self
  }
  pub fn fresh(mut self) -> Self {
    self.fresh = true;
    self
  }
  pub fn depth(mut self, n: usize) -> Self {
    self.depth = n;
    self
  }
  pub fn parse(mut self) -> Self {
    self.parse = true;
    self
  }
  pub fn only_parse(mut self) -> Self {
    self.parse = true;
    self.exec = false;
    self
  }
  pub fn file(mut self, f: S) -> Self {
    self.file = f;
    self
  }
  pub fn keep(mut self, f: impl Fn(&G) -> bool + 'static) -> Self {
    self.keep = Box::new(f);
    self
  }
  pub fn done(mut self) -> Box<dyn Space> {
    if self.frames.is_empty() {
      self.frames.push(un(|g| g));
    }
    self.alpha.prepare(self.sizes.1);
    let mut n = 0;
    for s in self.sizes.0..=self.sizes.1 {
      self.starts.push(n);
      n += self.alpha.count(s);
    }
    self.starts.push(n);
    Box::new(self)
  }

  fn case(&self, i: u64) -> (G, Style) {
    let d = digits(i, &[self.frames.len() as u64, self.styles.len() as u64]);
    let j = i / (self.frames.len() * self.styles.len()) as u64;
    let mut k = 0;
    while self.starts[k + 1] <= j {
      k += 1;
    }
    let g = self.alpha.term(self.sizes.0 + k, j - self.starts[k]);
    ((self.frames[d[0]])(g), self.styles[d[1]])
  }

  fn show(&self, g: &G, st: Style) -> String {
    let mut s = format!("{} composed with {:?}", g, st);
    for (n, g) in &self.env {
      s += &format!(", {} = {}", n, g);
    }
    s
  }
}

impl Space for GSpace {
  fn name(&self) -> String {
    self.name.clone()
  }
  fn len(&self) -> u64 {
    self.starts[self.starts.len() - 1] * (self.frames.len() * self.styles.len()) as u64
  }
  fn describe(&self, i: u64) -> String {
    let (g, st) = self.case(i);
    self.show(&g, st)
  }
  fn run(&self, i: u64, stats: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), Violation> {
    let (g, st) = self.case(i);
    if !(self.keep)(&g) {
      return Ok(());
    }
    let mut real = None;
    let mut m = Model::new("", self.file);
    m.max_depth = self.depth;
    let r = (|| {
      for input in &self.inputs {
        for w in &self.windows {
          let win = w.unwrap_or((0, input.len()));
          if win.1 > input.len() || input.get(win.0..win.1).is_none() {
            continue;
          }
          for parse in [false, true] {
            if (parse && !self.parse) || (!parse && !self.exec) {
              continue;
            }
            m.reset(input);
            for (n, e) in &self.env {
              m.define(0, n, crate::model::Var::Mat(e));
            }
            let fail = |detail: String| {
              Err(Violation {
                case: format!(
                  "{} on {:?}{}{}",
                  self.show(&g, st),
                  input,
                  if w.is_some() { format!(" window {}..{}", win.0, win.1) } else { String::new() },
                  if parse { " (tokenize)" } else { "" }
                ),
                detail,
              })
            };
            let (exec_exp, parse_exp, h);
            if parse {
              let e = m.tokenize(&g, win);
              h = match &e {
                Ok(t) => hash_tok(&m, *t),
                Err(e) => hash_out(&m, &Err(e.clone())),
              };
              if matches!(e, Err(No::Undef(_))) {
                stats.undefined += 1;
                continue;
              }
              parse_exp = Some(e);
              exec_exp = None;
            } else {
              let e = m.eval(0, &g, win);
              if matches!(e, Err(No::Undef(_))) {
                stats.undefined += 1;
                continue;
              }
              h = hash_out(&m, &e);
              exec_exp = Some(e);
              parse_exp = None;
            }
            beat();
            stats.outcome(h);
            if real.is_none() || self.fresh {
              let built = guarded(|| {
                let env: Vec<_> = self.env.iter().map(|(n, g)| (*n, build(g, st))).collect();
                (build(&g, st), env)
              });
              match built {
                Ok(x) => real = Some(x),
                Err(p) => return fail(format!("composing it panicked: {}", p)),
              }
            }
            let (mat, env) = real.as_ref().unwrap();
            let s = setup(input, self.file, *w, env);
            let r = if parse {
              check_tokenize(&m, parse_exp.as_ref().unwrap(), mat, &s)
            } else {
              check_exec(&m, exec_exp.as_ref().unwrap(), mat, &s)
            };
            stats.traces += 1;
            if let Err(d) = r {
              return fail(d);
            }
            {
              // the context is left as it was
              let c = s.ctx.borrow();
              if (c.offset.start, c.offset.end) != win || c.name != "Test" || c.debug_mode_level() != 0 {
                return fail("the context it was started with has changed".into());
              }
              let p = c.get_parser();
              if p.borrow().get_source() != input {
                return fail("the source has changed".into());
              }
            }
          }
        }
      }
      Ok(())
    })();
    stats.states += m.states;
    stats.transitions += m.trans;
    r
  }
}
