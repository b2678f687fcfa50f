//! Composes real matchers (the library under test) from the abstract syntax, runs them, and
//! compares what they did with the reference model.
use crate::g::*;
use crate::model::{Model, MTok, No, Out, Res, T};
use adextopa_core::matcher::{Matcher, MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::matchers::program::{MatchAction, ProgramPattern};
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::{Parser, ParserRef};
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::scope::VariableType;
use adextopa_core::scope_context::{ScopeContext, ScopeContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef, IS_ERROR};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local! {
  pub static LOG: RefCell<Vec<(u32, usize, usize)>> = RefCell::new(Vec::new());
  static REGEX: RefCell<HashMap<String, regex::Regex>> = RefCell::new(HashMap::new());
  static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn log(e: (u32, usize, usize)) {
  LOG.with(|l| l.borrow_mut().push(e));
}

pub fn cached_regex(p: &str) -> regex::Regex {
  REGEX.with(|m| {
    m.borrow_mut()
      .entry(p.to_string())
      .or_insert_with(|| regex::Regex::new(p).expect("regex of a grammar"))
      .clone()
  })
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let s = info.to_string();
    PANIC.with(|p| *p.borrow_mut() = Some(s));
  }));
}

/// Runs code of the library; a panic becomes an Err with its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
    Ok(r) => Ok(r),
    Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
  }
}

// ------------------------------------------------------------------ matchers of our own

/// A user defined matcher that continues a loop.
#[derive(Debug)]
pub struct ContinuePattern(pub S);

impl Matcher for ContinuePattern {
  fn exec(&self, _: MatcherRef, _: ParserContextRef, _: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
    Ok(MatcherSuccess::Continue((self.0.to_string(), Box::new(MatcherSuccess::None))))
  }
  fn get_name(&self) -> &str {
    "Continue"
  }
  fn set_name(&mut self, _: &str) {}
  fn add_pattern(&mut self, _: MatcherRef) {}
  fn get_children(&self) -> Option<Vec<MatcherRef>> {
    None
  }
  fn to_string(&self) -> String {
    format!("{:?}", self)
  }
}

/// A user defined matcher that records the debug level of its context.
#[derive(Debug)]
pub struct LevelPattern(pub u32);

impl Matcher for LevelPattern {
  fn exec(&self, _: MatcherRef, c: ParserContextRef, _: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
    let c = c.borrow();
    log((2000 + self.0, c.debug_mode_level(), c.offset.start));
    Ok(MatcherSuccess::Skip(0))
  }
  fn get_name(&self) -> &str {
    "Level"
  }
  fn set_name(&mut self, _: &str) {}
  fn add_pattern(&mut self, _: MatcherRef) {}
  fn get_children(&self) -> Option<Vec<MatcherRef>> {
    None
  }
  fn to_string(&self) -> String {
    format!("{:?}", self)
  }
}

/// Spies from here on leave their context in disorder.
pub const MESSY: u32 = 10_000;

/// A user defined matcher that records where it is executed and delegates.
#[derive(Debug)]
pub struct SpyPattern(pub u32, pub MatcherRef);

impl Matcher for SpyPattern {
  fn exec(&self, this: MatcherRef, context: ParserContextRef, scope: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
    let w = context.borrow().offset;
    // a matcher is handed itself
    let own = &**this.borrow() as *const dyn Matcher as *const () == self as *const SpyPattern as *const ();
    log((if own { self.0 } else { self.0 + 900_000 }, w.start, w.end));
    let r = self.1.borrow().exec(self.1.clone(), context.clone(), scope);
    if self.0 >= MESSY {
      // the context of a pattern is its own
      let mut c = context.borrow_mut();
      c.offset = SourceRange::new(w.end, w.end);
      c.set_debug_mode(0);
    }
    r
  }
  fn is_consuming(&self) -> bool {
    self.1.borrow().is_consuming()
  }
  fn get_name(&self) -> &str {
    "Spy"
  }
  fn set_name(&mut self, _: &str) {}
  fn add_pattern(&mut self, _: MatcherRef) {}
  fn get_children(&self) -> Option<Vec<MatcherRef>> {
    Some(vec![self.1.clone()])
  }
  fn to_string(&self) -> String {
    format!("{:?}", self)
  }
}

/// A user defined matcher that parses another text before it delegates.
#[derive(Debug)]
pub struct InnerPattern(pub S, pub MatcherRef, pub MatcherRef);

impl Matcher for InnerPattern {
  fn exec(&self, _: MatcherRef, context: ParserContextRef, scope: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
    let w = context.borrow().offset;
    log((3000, w.start, w.end));
    let parser = Parser::new(self.0);
    let r = ParserContext::tokenize(ParserContext::new(&parser, "Inner"), self.1.clone());
    let shown = match &r {
      Ok(t) => show_tok(t),
      Err(MatcherFailure::Error(e)) => format!("error {:?} {:?}", Some(&e.message), e.range.as_ref().map(r2)),
      Err(_) => "failure".into(),
    };
    log((3001, hash_str(&shown), shown.len()));
    if let Ok(t) = &r {
      free_tok(t);
    }
    self.2.borrow().exec(self.2.clone(), context, scope)
  }
  fn is_consuming(&self) -> bool {
    self.2.borrow().is_consuming()
  }
  fn get_name(&self) -> &str {
    "Inner"
  }
  fn set_name(&mut self, _: &str) {}
  fn add_pattern(&mut self, _: MatcherRef) {}
  fn get_children(&self) -> Option<Vec<MatcherRef>> {
    Some(vec![self.1.clone(), self.2.clone()])
  }
  fn to_string(&self) -> String {
    format!("{:?}", self)
  }
}

pub fn hash_str(s: &str) -> usize {
  s.bytes().fold(7, |h, b| mix(h, b as u64)) as usize
}

pub fn custom(m: impl Matcher + 'static) -> MatcherRef {
  Rc::new(RefCell::new(Box::new(m)))
}

// ------------------------------------------------------------------ composing

/// How sequences, choices and repetitions are composed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
  /// the composition macros
  Macros,
  /// constructor functions, patterns given as a vector
  Functions,
  /// empty, then patterns added one by one
  Added,
}

/// Names usable with the macros, which take literals.
pub const NAMES: [&str; 8] = ["P", "Q", "L", "M", "X", "Y", "Outer", "Inner"];

macro_rules! by_arity {
  ($mac:ident, ($($pre:tt)*), {$($lit:tt)*}, $v:expr) => {{
    let mut it = $v.into_iter();
    let n = it.len();
    let mut nx = || it.next().unwrap();
    match n {
      1 => { let a = nx(); adextopa_core::$mac!($($pre)* $($lit)* a) }
      2 => { let (a, b) = (nx(), nx()); adextopa_core::$mac!($($pre)* $($lit)* a, b) }
      3 => { let (a, b, c) = (nx(), nx(), nx()); adextopa_core::$mac!($($pre)* $($lit)* a, b, c,) }
      _ => { let (a, b, c, d) = (nx(), nx(), nx(), nx()); adextopa_core::$mac!($($pre)* $($lit)* a, b, c, d) }
    }
  }};
}

macro_rules! by_name {
  ($mac:ident, $name:expr, $pre:tt, $v:expr, [$($lit:literal),*]) => {
    match $name {
      None => by_arity!($mac, $pre, {}, $v),
      $(Some($lit) => by_arity!($mac, $pre, {$lit;}, $v),)*
      Some(_) => unreachable!(),
    }
  };
}

fn known(name: &Option<S>, n: usize) -> bool {
  (1..=4).contains(&n) && name.map_or(true, |n| NAMES.contains(&n))
}

pub fn program(style: Style, name: Option<S>, v: Vec<MatcherRef>) -> MatcherRef {
  let style = if style == Style::Macros && !known(&name, v.len()) { Style::Added } else { style };
  match style {
    Style::Macros => by_name!(Program, name, (), v, ["P", "Q", "L", "M", "X", "Y", "Outer", "Inner"]),
    Style::Functions => match name {
      None => ProgramPattern::new_program(v, MatchAction::Continue),
      Some(n) => ProgramPattern::new_program_with_name(v, n.to_string(), MatchAction::Continue),
    },
    Style::Added => added(adextopa_core::Program!(), name, v),
  }
}

pub fn choice(style: Style, name: Option<S>, v: Vec<MatcherRef>) -> MatcherRef {
  let style = if style == Style::Macros && !known(&name, v.len()) { Style::Added } else { style };
  match style {
    Style::Macros => by_name!(Switch, name, (), v, ["P", "Q", "L", "M", "X", "Y", "Outer", "Inner"]),
    Style::Functions => match name {
      None => ProgramPattern::new_program(v, MatchAction::Stop),
      Some(n) => ProgramPattern::new_program_with_name(v, n.to_string(), MatchAction::Stop),
    },
    Style::Added => added(adextopa_core::Switch!(), name, v),
  }
}

fn added(m: MatcherRef, name: Option<S>, v: Vec<MatcherRef>) -> MatcherRef {
  if let Some(n) = name {
    m.borrow_mut().set_name(n);
  }
  for p in v {
    m.borrow_mut().add_pattern(p);
  }
  m
}

macro_rules! with_range {
  ($r:expr, |$x:ident| $e:expr, $d:expr) => {
    match $r {
      Rng::Default => $d,
      Rng::From(a) => {
        let $x = a..;
        $e
      }
      Rng::Half(a, b) => {
        let $x = a..b;
        $e
      }
      Rng::Incl(a, b) => {
        let $x = a..=b;
        $e
      }
      Rng::To(b) => {
        let $x = ..b;
        $e
      }
      Rng::ToIncl(b) => {
        let $x = ..=b;
        $e
      }
    }
  };
}

pub fn repetition(style: Style, name: Option<S>, r: Rng, v: Vec<MatcherRef>) -> MatcherRef {
  let style = if style == Style::Macros && !known(&name, v.len()) { Style::Added } else { style };
  match style {
    Style::Macros => with_range!(
      r,
      |x| by_name!(Loop, name, (x;), v, ["P", "Q", "L", "M", "X", "Y", "Outer", "Inner"]),
      by_name!(Loop, name, (), v, ["P", "Q", "L", "M", "X", "Y", "Outer", "Inner"])
    ),
    Style::Functions => with_range!(
      r,
      |x| match name {
        None => ProgramPattern::new_loop(v, x),
        Some(n) => ProgramPattern::new_loop_with_name_and_range(v, n.to_string(), x),
      },
      match name {
        None => ProgramPattern::new_loop(v, 0..),
        Some(n) => ProgramPattern::new_loop_with_name_and_range(v, n.to_string(), 0..),
      }
    ),
    Style::Added => with_range!(
      r,
      |x| added(ProgramPattern::new_blank_loop(x), name, v),
      added(adextopa_core::Loop!(), name, v)
    ),
  }
}

fn range_of(t: &TokenRef) -> SourceRange {
  *t.borrow().get_matched_range()
}

fn fatal(c: &ParserContextRef, m: S, r: SourceRange) -> MatcherFailure {
  MatcherFailure::Error(ParseError::new_with_range(&c.borrow().get_error_as_string(m, &r), r))
}

fn handle_ok(f: MapOk, t: TokenRef, c: ParserContextRef) -> Result<MatcherSuccess, MatcherFailure> {
  let r = range_of(&t);
  log((1000, r.start, r.end));
  let at = c.borrow().offset.start;
  Ok(match f {
    MapOk::Same => MatcherSuccess::Token(t),
    MapOk::Rename(n) => {
      t.borrow_mut().set_name(n);
      MatcherSuccess::Token(t)
    }
    MapOk::Attr(k, v) => {
      t.borrow_mut().set_attribute(k, v);
      MatcherSuccess::Token(t)
    }
    MapOk::Skip => MatcherSuccess::Skip(r.end as isize - at as isize),
    MapOk::Skip0 => MatcherSuccess::Skip(0),
    MapOk::Fail => return Err(MatcherFailure::Fail),
    MapOk::Err(m) => return Err(fatal(&c, m, r)),
    MapOk::Bare(m) => return Err(MatcherFailure::Error(ParseError::new(m))),
    MapOk::Flatten => MatcherSuccess::ProxyChildren(t),
    MapOk::Break(n) => MatcherSuccess::Break((n.to_string(), Box::new(MatcherSuccess::Token(t)))),
    MapOk::Continue(n) => MatcherSuccess::Continue((n.to_string(), Box::new(MatcherSuccess::Token(t)))),
    MapOk::New(n) => {
      let p = t.borrow().get_parser();
      MatcherSuccess::Token(StandardToken::new(&p, n.to_string(), r))
    }
    MapOk::Val(v) => {
      t.borrow_mut().set_value(v);
      MatcherSuccess::Token(t)
    }
    MapOk::CapText(v) => {
      t.borrow_mut().set_captured_value(v);
      MatcherSuccess::Token(t)
    }
    MapOk::MatText(v) => {
      t.borrow_mut().set_matched_value(v);
      MatcherSuccess::Token(t)
    }
    MapOk::CapEnd => {
      t.borrow_mut().set_captured_range(SourceRange::new(r.end, r.end));
      MatcherSuccess::Token(t)
    }
  })
}

fn handle_fail(kind: u32, f: OnFail, no: MatcherFailure, c: ParserContextRef) -> Result<MatcherSuccess, MatcherFailure> {
  let w = c.borrow().offset;
  log((kind, matches!(no, MatcherFailure::Error(_)) as usize, w.start));
  match f {
    OnFail::Pass => Err(no),
    OnFail::Skip0 => Ok(MatcherSuccess::Skip(0)),
    OnFail::Err(m) => Err(fatal(&c, m, w)),
    OnFail::Bare(m) => Err(MatcherFailure::Error(ParseError::new(m))),
    OnFail::Fail => Err(MatcherFailure::Fail),
    OnFail::ErrTok(m) => adextopa_core::ErrorTokenResult!(c, m),
    OnFail::Break(n) => Ok(MatcherSuccess::Break((n.to_string(), Box::new(MatcherSuccess::None)))),
    OnFail::Continue(n) => Ok(MatcherSuccess::Continue((n.to_string(), Box::new(MatcherSuccess::None)))),
  }
}

/// The real matcher of a grammar.
pub fn build(g: &G, st: Style) -> MatcherRef {
  build_with(g, st, &mut |k| build(k, st))
}

/// The real matcher of a grammar, whose parts are composed by `part`.
pub fn build_with(g: &G, st: Style, part: &mut dyn FnMut(&G) -> MatcherRef) -> MatcherRef {
  use adextopa_core::matchers::*;
  let part = RefCell::new(part);
  let b = |g: &G| (part.borrow_mut())(g);
  let all = |v: &Vec<G>| v.iter().map(|g| b(g)).collect::<Vec<_>>();
  match g {
    G::Eq(s) => adextopa_core::Equals!(*s),
    G::EqN(n, s) => adextopa_core::Equals!(n; s),
    G::Re(p) => matches::MatchesPattern::new(cached_regex(p)),
    G::ReN(n, p) => matches::MatchesPattern::new_with_name(n, cached_regex(p)),
    G::Seq(a, e, x) => adextopa_core::Sequence!(*a, *e, *x),
    G::SeqN(n, a, e, x) => adextopa_core::Sequence!(n; *a, *e, *x),
    G::Null => adextopa_core::Null!(),
    G::Error(m) => adextopa_core::Error!(m),
    G::Panic(m) => adextopa_core::Panic!(m),
    G::Break(n) => {
      if n.is_empty() && st == Style::Macros {
        adextopa_core::Break!()
      } else {
        adextopa_core::Break!(n)
      }
    }
    G::Cont(n) => custom(ContinuePattern(n)),
    G::Ref(n) => adextopa_core::Ref!(*n),
    G::RefN(n, t) => adextopa_core::Ref!(n.to_string(); *t),
    G::RefVar(v) => adextopa_core::Ref!(fetch::FetchPattern::new(v)),
    G::EqVar(v) => adextopa_core::Equals!(fetch::FetchPattern::new(v)),
    G::SeqVar(a, e, x) => adextopa_core::Sequence!(
      fetch::FetchPattern::new(a),
      fetch::FetchPattern::new(e),
      fetch::FetchPattern::new(x)
    ),
    G::StoreS(n, v) => store::StorePattern::new_as_string_type(n, v),
    G::Register(v) => {
      let r = register::RegisterPattern::new_blank();
      for p in v {
        r.borrow_mut().add_pattern(b(p));
      }
      r
    }
    G::Pin0(None, o) if o.is_empty() => adextopa_core::Pin!(),
    G::Pin0(None, o) => pin::PinPattern::new(None, *o),
    G::Pin0(Some(n), o) if o.is_empty() => adextopa_core::Pin!(n;),
    G::Pin0(Some(n), o) => adextopa_core::Pin!(n, *o;),
    G::Pin(None, o, p) if o.is_empty() => adextopa_core::Pin!(b(p)),
    G::Pin(None, o, p) => pin::PinPattern::new(Some(b(p)), *o),
    G::Pin(Some(n), o, p) if o.is_empty() => adextopa_core::Pin!(n; b(p)),
    G::Pin(Some(n), o, p) => adextopa_core::Pin!(n, *o; b(p)),
    G::PinVar(v, p) => pin::PinPattern::new(Some(b(p)), fetch::FetchPattern::new(v)),
    G::Opt(p) => adextopa_core::Optional!(b(p)),
    G::Not(p) => adextopa_core::Not!(b(p)),
    G::Disc(p) => adextopa_core::Discard!(b(p)),
    G::Flat(p) => adextopa_core::ProxyChildren!(b(p)),
    G::FlatN(n, p) => proxy_children::ProxyChildrenPattern::new_with_name(b(p), n),
    G::Expand(p) => adextopa_core::ExpandRange!(b(p)),
    G::Debug(1, p) if st == Style::Macros => adextopa_core::Debug!(b(p)),
    G::Debug(m, p) => debug::DebugPattern::new_with_debug_mode(Some(b(p)), *m),
    G::DebugNone(1) if st == Style::Macros => adextopa_core::Debug!(),
    G::DebugNone(m) => debug::DebugPattern::new_with_debug_mode(None, *m),
    G::Lvl(i) => custom(LevelPattern(*i)),
    G::SetScope(p) => adextopa_core::SetScope!(b(p)),
    G::SetScopeDef(d, p) => {
      let s = ScopeContext::new();
      for (n, g) in d {
        s.borrow_mut().set(n, VariableType::Matcher(b(g)));
      }
      adextopa_core::SetScope!(s, b(p))
    }
    G::Store(n, p) => store::StorePattern::new_as_matcher_type(n, b(p)),
    G::Map(f, OnFail::Pass, p) if st == Style::Macros => {
      let f = *f;
      adextopa_core::Map!(
        b(p),
        move |t, c, _| handle_ok(f, t, c),
        move |no, c, _| handle_fail(1001, OnFail::Pass, no, c)
      )
    }
    G::Map(f, x, p) => {
      let (f, x) = (*f, *x);
      map::MapPattern::new(
        b(p),
        move |t, c, _| handle_ok(f, t, c),
        move |no, c, _| handle_fail(1001, x, no, c),
      )
    }
    G::Catch(x, p) => {
      let x = *x;
      adextopa_core::Catch!(b(p), move |c, no| handle_fail(1002, x, no, c))
    }
    G::AssertIf(m, p) => {
      let m: S = m;
      #[allow(unused_variables)]
      let r = adextopa_core::AssertIf!(b(p), m);
      r
    }
    G::AssertIfNot(m, p) => {
      let m: S = m;
      #[allow(unused_variables)]
      let r = adextopa_core::AssertIfNot!(b(p), m);
      r
    }
    G::FatalIf(m, p) => {
      let m: S = m;
      #[allow(unused_variables)]
      let r = adextopa_core::FatalIf!(b(p), m);
      r
    }
    G::FatalIfNot(m, p) => {
      let m: S = m;
      #[allow(unused_variables)]
      let r = adextopa_core::FatalIfNot!(b(p), m);
      r
    }
    G::Attrs(a, p) => {
      let a = a.clone();
      adextopa_core::Map!(b(p), move |t, _, _| {
        for (k, v) in &a {
          if !t.borrow().has_attribute(k) {
            t.borrow_mut().set_attribute(k, v);
          }
        }
        adextopa_core::TokenResult!(t)
      })
    }
    G::Named(n, p) => {
      let n: S = n;
      adextopa_core::Map!(b(p), move |t, _, _| {
        t.borrow_mut().set_name(n);
        adextopa_core::TokenResult!(t)
      })
    }
    G::Inner(t, p, q) => custom(InnerPattern(t, b(p), b(q))),
    G::Spy(i, p) => custom(SpyPattern(*i, b(p))),
    G::Prog(n, v) => program(st, *n, all(v)),
    G::Switch(n, v) => choice(st, *n, all(v)),
    G::Loop(n, r, v) => repetition(st, *n, *r, all(v)),
  }
}

// ------------------------------------------------------------------ comparing

type Cmp = Result<(), String>;

macro_rules! same {
  ($what:expr, $exp:expr, $got:expr) => {
    if $exp != $got {
      return Err(format!("{}: expected {:?}, got {:?}", $what, $exp, $got));
    }
  };
}

pub fn r2(r: &SourceRange) -> (usize, usize) {
  (r.start, r.end)
}

/// Compares a token of the model with a real one, recursively.
pub fn same_tok(m: &Model, t: T, r: &TokenRef, holder: Option<(T, &TokenRef)>) -> Cmp {
  let k: &MTok = &m.toks[t];
  let b = r.try_borrow().map_err(|_| "result token is still borrowed".to_string())?;
  same!("token name", k.name, b.get_name());
  let n = k.name;
  same!(format!("captured range of `{}`", n), k.cap, r2(b.get_captured_range()));
  same!(format!("matched range of `{}`", n), k.mat, r2(b.get_matched_range()));
  same!(format!("captured text of `{}`", n), m.cap_text(t), b.get_captured_value());
  same!(format!("matched text of `{}`", n), m.mat_text(t), b.get_matched_value());
  same!(format!("value of `{}`", n), m.value(t), b.get_value());
  same!(format!("error flag of `{}`", n), k.error, b.flags_enabled(IS_ERROR));
  same!(format!("discard flag of `{}`", n), k.pin, b.should_discard());
  same!(format!("number of attributes of `{}`", n), k.attrs.len(), b.get_attributes().len());
  for (a, v) in &k.attrs {
    same!(format!("attribute {:?} of `{}`", a, n), Some(v), b.get_attribute(a));
  }
  let parent = b.get_parent();
  match (k.parent, holder) {
    (None, _) => {
      if parent.is_some() {
        return Err(format!("`{}` has a parent, but nothing holds it", n));
      }
    }
    (Some(p), Some((h, hr))) if p == h => {
      if !parent.map_or(false, |x| Rc::ptr_eq(&x, hr)) {
        return Err(format!("`{}` is not linked to the token that holds it", n));
      }
    }
    _ => {}
  }
  same!(
    format!("children of `{}`", n),
    k.kids.iter().map(|c| m.toks[*c].name).collect::<Vec<_>>(),
    b.get_children()
      .iter()
      .map(|c| c.borrow().get_name().to_string())
      .collect::<Vec<_>>()
  );
  for (c, rc) in k.kids.iter().zip(b.get_children()) {
    same_tok(m, *c, rc, Some((t, r)))?;
  }
  Ok(())
}

pub fn same_res(m: &Model, e: &Res, r: &MatcherSuccess) -> Cmp {
  match (e, r) {
    (Res::Tok(t), MatcherSuccess::Token(x)) => same_tok(m, *t, x, None),
    (Res::Proxy(t), MatcherSuccess::ProxyChildren(x)) => same_tok(m, *t, x, None),
    (Res::Skip(n), MatcherSuccess::Skip(x)) => {
      same!("skipped", n, x);
      Ok(())
    }
    (Res::Brk(n, p), MatcherSuccess::Break((x, q))) | (Res::Cont(n, p), MatcherSuccess::Continue((x, q))) => {
      same!("name of the jump", n, x);
      same_res(m, p, q)
    }
    (Res::Nothing, MatcherSuccess::None) => Ok(()),
    _ => Err(format!("expected {}, got {}", show_res(m, e), show_success(r))),
  }
}

pub fn same_no(e: &No, r: &MatcherFailure) -> Cmp {
  match (e, r) {
    (No::Fail, MatcherFailure::Fail) => Ok(()),
    (No::Err(m, range), MatcherFailure::Error(x)) => {
      match m {
        Some(m) => {
          same!("message of the error", m, &x.message);
          same!("range of the error", range, &x.range.as_ref().map(r2));
        }
        None => {
          if x.message.is_empty() {
            return Err("the error has no message".into());
          }
        }
      }
      Ok(())
    }
    _ => Err(format!("expected {:?}, got {:?}", e, r)),
  }
}

pub fn show_tok(t: &TokenRef) -> String {
  let b = match t.try_borrow() {
    Ok(b) => b,
    Err(_) => return "<borrowed>".into(),
  };
  let mut s = format!(
    "{}{}{:?}",
    b.get_name(),
    if b.flags_enabled(IS_ERROR) { "!" } else { "" },
    r2(b.get_matched_range())
  );
  if b.get_captured_range() != b.get_matched_range() {
    s += &format!("c{:?}", r2(b.get_captured_range()));
  }
  if b.get_value() != b.get_captured_value() {
    s += &format!("={:?}", b.get_value());
  }
  if !b.get_children().is_empty() {
    s += &format!("[{}]", b.get_children().iter().map(show_tok).collect::<Vec<_>>().join(" "));
  }
  s
}

pub fn show_success(r: &MatcherSuccess) -> String {
  match r {
    MatcherSuccess::Token(t) => format!("token {}", show_tok(t)),
    MatcherSuccess::ProxyChildren(t) => format!("children of {}", show_tok(t)),
    MatcherSuccess::Skip(n) => format!("skip {}", n),
    MatcherSuccess::Break((n, p)) => format!("break {:?} with {}", n, show_success(p)),
    MatcherSuccess::Continue((n, p)) => format!("continue {:?} with {}", n, show_success(p)),
    MatcherSuccess::None => "nothing".into(),
    MatcherSuccess::Stop => "stop".into(),
  }
}

pub fn show_mtok(m: &Model, t: T) -> String {
  let k = &m.toks[t];
  let mut s = format!("{}{}{:?}", k.name, if k.error { "!" } else { "" }, k.mat);
  if k.cap != k.mat {
    s += &format!("c{:?}", k.cap);
  }
  if m.value(t) != m.cap_text(t) {
    s += &format!("={:?}", m.value(t));
  }
  if !k.kids.is_empty() {
    s += &format!("[{}]", k.kids.iter().map(|c| show_mtok(m, *c)).collect::<Vec<_>>().join(" "));
  }
  s
}

pub fn show_res(m: &Model, r: &Res) -> String {
  match r {
    Res::Tok(t) => format!("token {}", show_mtok(m, *t)),
    Res::Proxy(t) => format!("children of {}", show_mtok(m, *t)),
    Res::Skip(n) => format!("skip {}", n),
    Res::Brk(n, p) => format!("break {:?} with {}", n, show_res(m, p)),
    Res::Cont(n, p) => format!("continue {:?} with {}", n, show_res(m, p)),
    Res::Nothing => "nothing".into(),
  }
}

pub fn show_out(m: &Model, o: &Out) -> String {
  match o {
    Ok(r) => show_res(m, r),
    Err(e) => format!("{:?}", e),
  }
}

/// Breaks the reference cycles of a result, so that it is freed.
pub fn free_tok(t: &TokenRef) {
  let kids = match t.try_borrow_mut() {
    Ok(mut b) => {
      b.set_parent(None);
      std::mem::take(b.get_children_mut())
    }
    Err(_) => return,
  };
  for k in &kids {
    free_tok(k);
  }
}

pub fn free_success(r: &MatcherSuccess) {
  match r {
    MatcherSuccess::Token(t) | MatcherSuccess::ProxyChildren(t) => {
      // also up: a result may hang below a token that is not part of it
      free_tok(t)
    }
    MatcherSuccess::Break((_, p)) | MatcherSuccess::Continue((_, p)) => free_success(p),
    _ => {}
  }
}

pub fn hash_tok(m: &Model, t: T) -> u64 {
  let k = &m.toks[t];
  let mut h = mix(k.mat.0 as u64 * 31 + k.mat.1 as u64, k.cap.0 as u64 * 37 + k.cap.1 as u64);
  for b in k.name.bytes() {
    h = mix(h, b as u64);
  }
  for c in &k.kids {
    h = mix(h, hash_tok(m, *c));
  }
  h
}

pub fn mix(a: u64, b: u64) -> u64 {
  let x = (a ^ b.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_mul(0xD6E8FEB86659FD93);
  x ^ (x >> 29)
}

pub fn hash_out(m: &Model, o: &Out) -> u64 {
  fn res(m: &Model, r: &Res) -> u64 {
    match r {
      Res::Tok(t) => mix(1, hash_tok(m, *t)),
      Res::Proxy(t) => mix(2, hash_tok(m, *t)),
      Res::Skip(n) => mix(3, *n as u64),
      Res::Brk(n, p) => mix(4 + n.len() as u64, res(m, p)),
      Res::Cont(n, p) => mix(40 + n.len() as u64, res(m, p)),
      Res::Nothing => 5,
    }
  }
  match o {
    Ok(r) => res(m, r),
    Err(No::Fail) => 6,
    Err(No::Err(_, r)) => mix(7, r.map_or(0, |r| r.0 as u64 * 41 + r.1 as u64)),
    Err(No::Undef(_)) => 8,
  }
}

// ------------------------------------------------------------------ running

/// What a single run starts from.
pub struct Setup {
  pub parser: ParserRef,
  pub ctx: ParserContextRef,
  pub scope: ScopeContextRef,
}

pub fn setup(src: &str, file: S, win: Option<(usize, usize)>, env: &[(S, MatcherRef)]) -> Setup {
  let parser = if file.is_empty() {
    Parser::new(src)
  } else {
    Parser::new_with_file_name(src, file)
  };
  let ctx = match win {
    None => ParserContext::new(&parser, "Test"),
    Some(w) => ParserContext::new_with_offset(&parser, SourceRange::new(w.0, w.1), "Test"),
  };
  for (n, m) in env {
    ctx.borrow().register_matcher_with_name(n, m.clone());
  }
  let scope = ctx.borrow().get_scope();
  Setup { parser, ctx, scope }
}

/// Runs the matcher like a parent would and compares the raw outcome.
pub fn check_exec(m: &Model, exp: &Out, mat: &MatcherRef, s: &Setup) -> Cmp {
  LOG.with(|l| l.borrow_mut().clear());
  let r = guarded(|| mat.borrow().exec(mat.clone(), s.ctx.clone(), s.scope.clone()));
  let c = match (exp, &r) {
    (_, Err(p)) => Err(format!("expected {}, but it panicked: {}", show_out(m, exp), p)),
    (Ok(e), Ok(Ok(x))) => same_res(m, e, x)
      .map_err(|d| format!("{}\n    expected: {}\n    got:      {}", d, show_res(m, e), show_success(x))),
    (Err(e), Ok(Err(x))) => same_no(e, x),
    (Ok(e), Ok(Err(x))) => Err(format!("expected {}, got {:?}", show_res(m, e), x)),
    (Err(e), Ok(Ok(x))) => Err(format!("expected {:?}, got {}", e, show_success(x))),
  };
  let c = c.and_then(|_| same_log(m));
  if let Ok(Ok(x)) = &r {
    free_success(x);
  }
  c
}

fn same_log(m: &Model) -> Cmp {
  LOG.with(|l| {
    let l = l.borrow();
    if *l != m.log {
      return Err(format!("executions observed: expected {:?}, got {:?}", m.log, l));
    }
    Ok(())
  })
}

/// Runs a whole parse and compares its result.
pub fn check_tokenize(m: &Model, exp: &Result<T, No>, mat: &MatcherRef, s: &Setup) -> Cmp {
  LOG.with(|l| l.borrow_mut().clear());
  let r = guarded(|| ParserContext::tokenize(s.ctx.clone(), mat.clone()));
  let show = |e: &Result<T, No>| match e {
    Ok(t) => show_mtok(m, *t),
    Err(e) => format!("{:?}", e),
  };
  let c = match (exp, &r) {
    (_, Err(p)) => Err(format!("expected {}, but it panicked: {}", show(exp), p)),
    (Ok(t), Ok(Ok(x))) => same_tok(m, *t, x, None)
      .map_err(|d| format!("{}\n    expected: {}\n    got:      {}", d, show_mtok(m, *t), show_tok(x))),
    (Err(e), Ok(Err(x))) => same_no(e, x),
    (Ok(t), Ok(Err(x))) => Err(format!("expected {}, got {:?}", show_mtok(m, *t), x)),
    (Err(e), Ok(Ok(x))) => Err(format!("expected {:?}, got {}", e, show_tok(x))),
  };
  let c = c.and_then(|_| same_log(m));
  if let Ok(Ok(x)) = &r {
    free_tok(x);
  }
  c
}
