//! The abstract syntax of the grammars that are enumerated: a plain tree, interpreted
//! by the reference model (model.rs) and composed into real matchers (real.rs).
use std::fmt;

pub type S = &'static str;

thread_local! {
  static INTERNED: std::cell::RefCell<std::collections::HashSet<S>> = Default::default();
}

/// Turns any string into a `S`: the same one for equal strings.
pub fn leak(s: &str) -> S {
  INTERNED.with(|t| {
    let mut t = t.borrow_mut();
    if let Some(x) = t.get(s) {
      return *x;
    }
    let x: S = Box::leak(s.to_string().into_boxed_str());
    t.insert(x);
    x
  })
}

/// How the bounds of a repetition are written.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rng {
  /// no range argument at all
  Default,
  /// `a..`
  From(usize),
  /// `a..b` (b is the maximum number of repetitions)
  Half(usize, usize),
  /// `a..=b`
  Incl(usize, usize),
  /// `..b`
  To(usize),
  /// `..=b`
  ToIncl(usize),
}

impl Rng {
  pub fn min(&self) -> usize {
    match *self {
      Rng::Default | Rng::To(_) | Rng::ToIncl(_) => 0,
      Rng::From(a) | Rng::Half(a, _) | Rng::Incl(a, _) => a,
    }
  }
  pub fn max(&self) -> usize {
    match *self {
      Rng::Default | Rng::From(_) => usize::MAX,
      Rng::To(b) | Rng::ToIncl(b) | Rng::Half(_, b) | Rng::Incl(_, b) => b,
    }
  }
}

/// What a success handler of a mapping does.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MapOk {
  Same,
  Rename(S),
  Attr(S, S),
  Skip,
  Skip0,
  Fail,
  Err(S),
  /// a fatal error of the user's own, without a range
  Bare(S),
  Flatten,
  Break(S),
  Continue(S),
  /// a new token named like this that covers the match
  New(S),
  /// the value, the captured text or the matched text of the token becomes this
  Val(S),
  CapText(S),
  MatText(S),
  /// the captured range becomes the empty one at the end of the match
  CapEnd,
}

/// What a failure handler does.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OnFail {
  Pass,
  Skip0,
  Err(S),
  Bare(S),
  Fail,
  ErrTok(S),
  Break(S),
  Continue(S),
}

#[derive(Clone, Debug, PartialEq)]
pub enum G {
  Eq(S),
  EqN(S, S),
  Re(S),
  ReN(S, S),
  Seq(S, S, S),
  SeqN(S, S, S, S),
  Null,
  Error(S),
  Panic(S),
  Break(S),
  Cont(S),
  /// `Break!()` / literal forms are chosen by the builder when the name is empty
  Ref(S),
  /// a named reference (name, target)
  RefN(S, S),
  /// literal whose text is fetched from a variable
  EqVar(S),
  /// reference whose target name is fetched from a variable
  RefVar(S),
  /// sequence whose delimiters are fetched from a variable
  SeqVar(S, S, S),
  StoreS(S, S),
  Register(Vec<G>),
  /// pin without a pattern (name or default, offset)
  Pin0(Option<S>, S),
  Pin(Option<S>, S, Box<G>),
  /// pin with a fetched offset
  PinVar(S, Box<G>),
  Opt(Box<G>),
  Not(Box<G>),
  Disc(Box<G>),
  Flat(Box<G>),
  FlatN(S, Box<G>),
  Expand(Box<G>),
  Debug(usize, Box<G>),
  /// logs the debug level it is executed at
  Lvl(u32),
  DebugNone(usize),
  SetScope(Box<G>),
  /// own separate scope with these definitions
  SetScopeDef(Vec<(S, G)>, Box<G>),
  Store(S, Box<G>),
  Map(MapOk, OnFail, Box<G>),
  Catch(OnFail, Box<G>),
  AssertIf(S, Box<G>),
  AssertIfNot(S, Box<G>),
  FatalIf(S, Box<G>),
  FatalIfNot(S, Box<G>),
  /// sets attributes a token does not have (the attributes of a script)
  Attrs(Vec<(S, S)>, Box<G>),
  /// renames a token (an import of a script)
  Named(S, Box<G>),
  /// logs each execution (id, start, end) and runs its pattern
  Spy(u32, Box<G>),
  /// parses another text with the first pattern, logs the result and then runs the second one
  Inner(S, Box<G>, Box<G>),
  Prog(Option<S>, Vec<G>),
  Switch(Option<S>, Vec<G>),
  Loop(Option<S>, Rng, Vec<G>),
}

use G::*;

fn list(f: &mut fmt::Formatter<'_>, v: &[G]) -> fmt::Result {
  for (i, g) in v.iter().enumerate() {
    if i > 0 {
      write!(f, ", ")?;
    }
    write!(f, "{}", g)?;
  }
  Ok(())
}

fn named(f: &mut fmt::Formatter<'_>, k: &str, n: &Option<S>, extra: &str, v: &[G]) -> fmt::Result {
  write!(f, "{}!(", k)?;
  if !extra.is_empty() {
    write!(f, "{}; ", extra)?;
  }
  if let Some(n) = n {
    write!(f, "{:?}; ", n)?;
  }
  list(f, v)?;
  write!(f, ")")
}

impl fmt::Display for Rng {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self {
      Rng::Default => Ok(()),
      Rng::From(a) => write!(f, "{}..", a),
      Rng::Half(a, b) => write!(f, "{}..{}", a, b),
      Rng::Incl(a, b) => write!(f, "{}..={}", a, b),
      Rng::To(b) => write!(f, "..{}", b),
      Rng::ToIncl(b) => write!(f, "..={}", b),
    }
  }
}

impl fmt::Display for G {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self {
      Eq(s) => write!(f, "Equals!({:?})", s),
      EqN(n, s) => write!(f, "Equals!({:?}; {:?})", n, s),
      Re(s) => write!(f, "Matches!({:?})", s),
      ReN(n, s) => write!(f, "Matches!({:?}; {:?})", n, s),
      Seq(a, b, c) => write!(f, "Sequence!({:?}, {:?}, {:?})", a, b, c),
      SeqN(n, a, b, c) => write!(f, "Sequence!({:?}; {:?}, {:?}, {:?})", n, a, b, c),
      Null => write!(f, "Null!()"),
      Error(m) => write!(f, "Error!({:?})", m),
      Panic(m) => write!(f, "Panic!({:?})", m),
      Break(n) => write!(f, "Break!({:?})", n),
      Cont(n) => write!(f, "<Continue {:?}>", n),
      Ref(n) => write!(f, "Ref!({:?})", n),
      RefN(n, t) => write!(f, "Ref!({:?}; {:?})", n, t),
      EqVar(v) => write!(f, "Equals!(Fetch!({:?}))", v),
      RefVar(v) => write!(f, "Ref!(Fetch!({:?}))", v),
      SeqVar(a, b, c) => write!(f, "Sequence!(Fetch!({:?}), Fetch!({:?}), Fetch!({:?}))", a, b, c),
      StoreS(n, v) => write!(f, "Store!({:?}; {:?})", n, v),
      Register(v) => {
        write!(f, "Register!(")?;
        list(f, v)?;
        write!(f, ")")
      }
      Pin0(n, o) => write!(f, "Pin!({:?}, {:?};)", n, o),
      Pin(n, o, g) => write!(f, "Pin!({:?}, {:?}; {})", n, o, g),
      PinVar(v, g) => write!(f, "Pin!(Fetch!({:?}); {})", v, g),
      Opt(g) => write!(f, "Optional!({})", g),
      Not(g) => write!(f, "Not!({})", g),
      Disc(g) => write!(f, "Discard!({})", g),
      Flat(g) => write!(f, "ProxyChildren!({})", g),
      FlatN(n, g) => write!(f, "ProxyChildren!({:?}; {})", n, g),
      Expand(g) => write!(f, "ExpandRange!({})", g),
      Debug(m, g) => write!(f, "Debug!({}; {})", m, g),
      DebugNone(m) => write!(f, "Debug!({};)", m),
      Lvl(i) => write!(f, "<level {}>", i),
      SetScope(g) => write!(f, "SetScope!({})", g),
      SetScopeDef(d, g) => {
        write!(f, "SetScope!({{")?;
        for (n, g) in d {
          write!(f, "{}={}, ", n, g)?;
        }
        write!(f, "}}, {})", g)
      }
      Store(n, g) => write!(f, "Store!({:?}; {})", n, g),
      Map(a, b, g) => write!(f, "Map!({}, {:?}, {:?})", g, a, b),
      Catch(b, g) => write!(f, "Catch!({}, {:?})", g, b),
      AssertIf(m, g) => write!(f, "AssertIf!({}, {:?})", g, m),
      AssertIfNot(m, g) => write!(f, "AssertIfNot!({}, {:?})", g, m),
      FatalIf(m, g) => write!(f, "FatalIf!({}, {:?})", g, m),
      FatalIfNot(m, g) => write!(f, "FatalIfNot!({}, {:?})", g, m),
      Attrs(a, g) => write!(f, "<{:?} on {}>", a, g),
      Named(n, g) => write!(f, "<{:?} for {}>", n, g),
      Spy(i, g) => write!(f, "<spy {}: {}>", i, g),
      Inner(t, p, g) => write!(f, "<parse {:?} with {}, then {}>", t, p, g),
      Prog(n, v) => named(f, "Program", n, "", v),
      Switch(n, v) => named(f, "Switch", n, "", v),
      Loop(n, r, v) => named(f, "Loop", n, &r.to_string(), v),
    }
  }
}

impl G {
  pub fn kids(&self) -> Vec<&G> {
    match self {
      Register(v) | Prog(_, v) | Switch(_, v) | Loop(_, _, v) => v.iter().collect(),
      Pin(_, _, g) | PinVar(_, g) | Opt(g) | Not(g) | Disc(g) | Flat(g) | FlatN(_, g) | Expand(g) | Debug(_, g)
      | SetScope(g) | Store(_, g) | Map(_, _, g) | Catch(_, g) | AssertIf(_, g) | AssertIfNot(_, g)
      | FatalIf(_, g) | FatalIfNot(_, g) | Spy(_, g) | Attrs(_, g) | Named(_, g) => vec![g],
      SetScopeDef(d, g) => d.iter().map(|x| &x.1).chain(std::iter::once(&**g)).collect(),
      Inner(_, p, g) => vec![p, g],
      _ => vec![],
    }
  }

  pub fn any(&self, p: &dyn Fn(&G) -> bool) -> bool {
    p(self) || self.kids().iter().any(|k| k.any(p))
  }

  pub fn size(&self) -> usize {
    1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
  }

  /// Is the effect of this pattern on the position ignored by its parent?
  pub fn is_consuming(&self) -> bool {
    match self {
      Pin0(..) | Pin(..) | PinVar(..) | Null | Register(_) | StoreS(..) => false,
      Debug(_, g) | Spy(_, g) | Inner(_, _, g) => g.is_consuming(),
      _ => true,
    }
  }

  /// The name a matcher registers itself by when it is executed, if any.
  pub fn custom_name(&self) -> Option<S> {
    match self {
      EqN(n, _) | ReN(n, _) | SeqN(n, _, _, _) | RefN(n, _) | StoreS(n, _) | Store(n, _) | FlatN(n, _) => Some(n),
      Pin0(n, _) | Pin(n, _, _) => *n,
      Prog(n, _) | Switch(n, _) | Loop(n, _, _) => *n,
      _ => None,
    }
  }

  /// The name a registration binds it to.
  pub fn name(&self) -> S {
    if let Some(n) = self.custom_name() {
      return n;
    }
    match self {
      Eq(_) | EqVar(_) => "Equals",
      Re(_) => "Matches",
      Seq(..) | SeqVar(..) => "Sequence",
      Null => "Null",
      Error(_) | Panic(_) => "Error",
      Break(_) => "Break",
      Cont(_) => "Continue",
      Ref(_) | RefVar(_) => "Ref",
      Register(_) => "Register",
      Pin0(..) | Pin(..) | PinVar(..) => "Pin",
      Opt(_) => "Optional",
      Not(_) => "Not",
      Disc(_) => "Discard",
      Flat(_) => "Flatten",
      Expand(_) | Catch(..) => "Catch",
      Debug(..) | DebugNone(_) => "Debug",
      Lvl(_) => "Level",
      SetScope(_) | SetScopeDef(..) => "SetScope",
      Map(..) | AssertIf(..) | AssertIfNot(..) | FatalIf(..) | FatalIfNot(..) | Attrs(..) | Named(..) => "Map",
      Spy(..) => "Spy",
      Inner(..) => "Inner",
      Prog(..) => "Program",
      Switch(..) => "Switch",
      Loop(..) => "Loop",
      _ => unreachable!(),
    }
  }
}

/// Shorthands for writing grammars.
pub fn opt(g: G) -> G {
  Opt(Box::new(g))
}
pub fn not(g: G) -> G {
  Not(Box::new(g))
}
pub fn disc(g: G) -> G {
  Disc(Box::new(g))
}
pub fn flat(g: G) -> G {
  Flat(Box::new(g))
}
pub fn expand(g: G) -> G {
  Expand(Box::new(g))
}
pub fn scope(g: G) -> G {
  SetScope(Box::new(g))
}
pub fn store(n: S, g: G) -> G {
  Store(n, Box::new(g))
}
pub fn pin(o: S, g: G) -> G {
  Pin(None, o, Box::new(g))
}
pub fn prog(v: Vec<G>) -> G {
  Prog(None, v)
}
pub fn switch(v: Vec<G>) -> G {
  Switch(None, v)
}
pub fn lp(v: Vec<G>) -> G {
  Loop(None, Rng::Default, v)
}
pub fn lpr(r: Rng, v: Vec<G>) -> G {
  Loop(None, r, v)
}
pub fn map(a: MapOk, b: OnFail, g: G) -> G {
  Map(a, b, Box::new(g))
}

impl G {
  /// A part that can be exchanged.
  pub fn kid_mut(&mut self, i: usize) -> Option<&mut G> {
    match self {
      Register(v) | Prog(_, v) | Switch(_, v) | Loop(_, _, v) => v.get_mut(i),
      Opt(g) | Not(g) | Disc(g) | Flat(g) | FlatN(_, g) | Expand(g) | Debug(_, g) | SetScope(g) | Map(_, _, g)
      | Catch(_, g) | AssertIf(_, g) | AssertIfNot(_, g) | FatalIf(_, g) | FatalIfNot(_, g) | Store(_, g)
      | Pin(_, _, g)
        if i == 0 =>
      {
        Some(g)
      }
      _ => None,
    }
  }

  /// The same with every part watched.
  pub fn watched(&self) -> G {
    self.watched_from(0)
  }

  /// The same, and every watcher leaves its context in disorder.
  pub fn messed(&self) -> G {
    self.watched_from(crate::real::MESSY)
  }

  fn watched_from(&self, first: u32) -> G {
    fn go(g: &mut G, n: &mut u32) {
      if matches!(g, Register(_)) {
        return;
      }
      for i in 0..g.kids().len() {
        if let Some(k) = g.kid_mut(i) {
          go(k, n);
          // what a wrapper makes of the way a pin goes back is left open
          if !matches!(k, Pin(..) | Pin0(..) | PinVar(..)) {
            let id = *n;
            *n += 1;
            *k = Spy(id, Box::new(k.clone()));
          }
        }
      }
    }
    let mut g = self.clone();
    let mut n = first;
    go(&mut g, &mut n);
    // (the outermost one gets the context of the parse itself)
    Spy(n - first, Box::new(g))
  }
}
