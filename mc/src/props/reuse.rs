//! Properties decided on all histories of runs (C15) or edits (C27) of composed matchers.
use crate::g::*;
use crate::gen::*;
use crate::gspace::{nary, un, GSpace};
use crate::model::{Model, No, Out, T};
use crate::real::*;
use crate::space::*;
use adextopa_core::matcher::{MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::parser_context::ParserContext;
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::TokenRef;
use std::collections::HashMap;
use std::rc::Rc;
use G::*;

type Spaces = Vec<Box<dyn Space>>;
type Chk = Result<(), String>;

fn q(n: usize, deep: usize, d: bool) -> usize {
  if d {
    deep
  } else {
    n
  }
}

/// All terms over an alphabet, each in all frames, each handed to `run`.
pub struct Terms {
  pub name: String,
  pub alpha: Alpha,
  pub sizes: (usize, usize),
  pub frames: Vec<Un>,
  pub keep: Box<dyn Fn(&G) -> bool>,
  pub run: Box<dyn Fn(&G, &mut Stats, &mut dyn FnMut()) -> Result<(), (String, String)>>,
  starts: Vec<u64>,
}

impl Terms {
  pub fn new(
    name: &str,
    leaves: Vec<G>,
    unary: Vec<Un>,
    nary: Vec<(usize, usize, Nary)>,
    sizes: (usize, usize),
    run: impl Fn(&G, &mut Stats, &mut dyn FnMut()) -> Result<(), (String, String)> + 'static,
  ) -> Terms {
    let mut t = Terms {
      name: name.into(),
      alpha: Alpha::new(leaves, unary, nary),
      sizes,
      frames: vec![un(|g| g)],
      keep: Box::new(|_| true),
      run: Box::new(run),
      starts: vec![],
    };
    t.alpha.prepare(sizes.1);
    let mut n = 0;
    for s in sizes.0..=sizes.1 {
      t.starts.push(n);
      n += t.alpha.count(s);
    }
    t.starts.push(n);
    t
  }
  pub fn frames(mut self, f: Vec<Un>) -> Self {
    self.frames = f;
    self
  }
  pub fn keep(mut self, f: impl Fn(&G) -> bool + 'static) -> Self {
    self.keep = Box::new(f);
    self
  }
  pub fn done(self) -> Box<dyn Space> {
    Box::new(self)
  }
  fn term(&self, i: u64) -> G {
    let f = self.frames.len() as u64;
    let j = i / f;
    let mut k = 0;
    while self.starts[k + 1] <= j {
      k += 1;
    }
    (self.frames[(i % f) as usize])(self.alpha.term(self.sizes.0 + k, j - self.starts[k]))
  }
}

impl Space for Terms {
  fn name(&self) -> String {
    self.name.clone()
  }
  fn len(&self) -> u64 {
    self.starts[self.starts.len() - 1] * self.frames.len() as u64
  }
  fn describe(&self, i: u64) -> String {
    self.term(i).to_string()
  }
  fn run(&self, i: u64, st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), Violation> {
    let g = self.term(i);
    if !(self.keep)(&g) {
      return Ok(());
    }
    (self.run)(&g, st, beat).map_err(|(case, detail)| Violation {
      case: format!("{}: {}", g, case),
      detail,
    })
  }
}

// ------------------------------------------------------------------ C15

enum Exp {
  Exec(Out),
  Parse(Result<T, No>),
}

/// One way of running a matcher.
struct Run<'g> {
  input: &'g str,
  window: Option<(usize, usize)>,
  model: Model<'g>,
  exp: Exp,
}

impl<'g> Run<'g> {
  fn new(g: &'g G, input: &'g str, window: Option<(usize, usize)>, parse: bool, st: &mut Stats) -> Option<Run<'g>> {
    let w = window.unwrap_or((0, input.len()));
    if input.get(w.0..w.1).is_none() {
      return None;
    }
    let mut m = Model::new(input, "");
    let exp = if parse {
      Exp::Parse(m.tokenize(g, w))
    } else {
      Exp::Exec(m.eval(0, g, w))
    };
    if matches!(&exp, Exp::Parse(Err(No::Undef(_))) | Exp::Exec(Err(No::Undef(_)))) {
      st.undefined += 1;
      return None;
    }
    st.states += m.states;
    st.transitions += m.trans;
    Some(Run {
      input,
      window,
      model: m,
      exp,
    })
  }
  fn check(&self, mat: &MatcherRef, st: &mut Stats) -> Chk {
    let s = setup(self.input, "", self.window, &[]);
    self.check_in(mat, &s, st)
  }
  fn check_in(&self, mat: &MatcherRef, s: &Setup, st: &mut Stats) -> Chk {
    st.traces += 1;
    match &self.exp {
      Exp::Exec(e) => {
        st.outcome(hash_out(&self.model, e));
        check_exec(&self.model, e, mat, s)?
      }
      Exp::Parse(e) => {
        st.outcome(match e {
          Ok(t) => hash_tok(&self.model, *t),
          Err(e) => hash_out(&self.model, &Err(e.clone())),
        });
        check_tokenize(&self.model, e, mat, s)?
      }
    }
    let c = s.ctx.borrow();
    if (c.offset.start, c.offset.end) != self.window.unwrap_or((0, self.input.len()))
      || c.name != "Test"
      || c.debug_mode_level() != 0
    {
      return Err("the context it was started with has changed".into());
    }
    let p = c.get_parser();
    let p = p.borrow();
    if p.get_source() != self.input {
      return Err("the source has changed".into());
    }
    Ok(())
  }
  /// Runs it without a look at the result.
  fn start(&self, mat: &MatcherRef, s: &Setup) -> Raw {
    match &self.exp {
      Exp::Exec(_) => Raw::Exec(guarded(|| mat.borrow().exec(mat.clone(), s.ctx.clone(), s.scope.clone()))),
      Exp::Parse(_) => Raw::Parse(guarded(|| ParserContext::tokenize(s.ctx.clone(), mat.clone()))),
    }
  }
  /// Is this (still) the result?
  fn same(&self, r: &Raw, st: &mut Stats) -> Chk {
    st.traces += 1;
    match (&self.exp, r) {
      (Exp::Exec(Ok(e)), Raw::Exec(Ok(Ok(x)))) => same_res(&self.model, e, x),
      (Exp::Exec(Err(e)), Raw::Exec(Ok(Err(x)))) => same_no(e, x),
      (Exp::Parse(Ok(t)), Raw::Parse(Ok(Ok(x)))) => same_tok(&self.model, *t, x, None),
      (Exp::Parse(Err(e)), Raw::Parse(Ok(Err(x)))) => same_no(e, x),
      (_, Raw::Exec(Err(p)) | Raw::Parse(Err(p))) => Err(format!("it panicked: {}", p)),
      _ => Err("it matches where it should fail, or the other way around".into()),
    }
  }
  fn show(&self) -> String {
    format!(
      "{}{:?}{}",
      if matches!(self.exp, Exp::Parse(_)) { "tokenize " } else { "" },
      self.input,
      self.window.map_or(String::new(), |w| format!(" window {}..{}", w.0, w.1))
    )
  }
}

enum Raw {
  Exec(Result<Result<MatcherSuccess, MatcherFailure>, String>),
  Parse(Result<Result<TokenRef, MatcherFailure>, String>),
}

impl Raw {
  fn free(&self) {
    match self {
      Raw::Exec(Ok(Ok(x))) => free_success(x),
      Raw::Parse(Ok(Ok(t))) => free_tok(t),
      _ => {}
    }
  }
}

/// Runs one matcher again and again and keeps all of the results: each stays what it is, and so
/// do those of two contexts of one parser.
fn kept_results(g: &G, inputs: &[String], rounds: usize, st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), (String, String)> {
  let rs = runs(g, inputs, st);
  if rs.is_empty() {
    return Ok(());
  }
  let m = guarded(|| build(g, Style::Macros)).map_err(|p| ("composing it".to_string(), p))?;
  let mut all: Vec<(usize, Setup, Raw)> = vec![];
  for round in 0..rounds {
    for (i, r) in rs.iter().enumerate() {
      beat();
      let mut s = setup(r.input, "", r.window, &[]);
      if round % 2 == 1 {
        // on a parser that has been used before
        let p = &all.iter().find(|x| x.0 == i).unwrap().1.parser;
        s.ctx = match r.window {
          None => ParserContext::new(p, "Test"),
          Some(w) => ParserContext::new_with_offset(p, SourceRange::new(w.0, w.1), "Test"),
        };
        s.scope = s.ctx.borrow().get_scope();
        s.parser = p.clone();
      }
      let x = r.start(&m, &s);
      all.push((i, s, x));
    }
  }
  let mut res = Ok(());
  for (k, (i, _, x)) in all.iter().enumerate() {
    if let Err(d) = rs[*i].same(x, st) {
      res = Err((format!("the result of run {} ({}) after {} runs of one matcher", k + 1, rs[*i].show(), all.len()), d));
      break;
    }
  }
  for (_, _, x) in &all {
    x.free();
  }
  res
}

/// What can be seen of a composed matcher.
fn shape(m: &MatcherRef, out: &mut Vec<(usize, String, String)>) {
  let b = m.borrow();
  let kids = b.get_children().unwrap_or_default();
  out.push((Rc::as_ptr(m) as *const u8 as usize, b.get_name().to_string(), b.to_string()));
  for k in &kids {
    shape(k, out);
  }
}

/// A word over 0..n that contains every pair as neighbours.
fn all_pairs(n: usize) -> Vec<usize> {
  // a walk through the complete digraph with loops: every edge once
  let mut next = vec![0; n];
  let (mut stack, mut out) = (vec![0], vec![]);
  while let Some(&v) = stack.last() {
    if next[v] < n {
      let u = next[v];
      next[v] += 1;
      stack.push(u);
    } else {
      out.push(v);
      stack.pop();
    }
  }
  out.reverse();
  out
}

fn defines(g: &G) -> bool {
  g.any(&|x| x.custom_name().is_some() || matches!(x, Register(_) | Store(..) | StoreS(..)))
}

/// Does it define anything outside of a scope of its own?
fn defines_outside(g: &G) -> bool {
  match g {
    SetScope(_) => false,
    SetScopeDef(..) => defines(g),
    _ => g.custom_name().is_some() || matches!(g, Register(_) | Store(..) | StoreS(..)) || g.kids().into_iter().any(defines_outside),
  }
}

/// What scopes of its own defined is gone after the parse.
fn nothing_left(s: &Setup) -> Chk {
  for n in ["V", "W", "X", "P"] {
    if s.ctx.borrow().get_scope_variable(n).is_some() || s.ctx.borrow().get_registered_matcher(n).is_some() {
      return Err(format!("{:?} is still defined after the parse", n));
    }
  }
  Ok(())
}

fn runs<'g>(g: &'g G, inputs: &'g [String], st: &mut Stats) -> Vec<Run<'g>> {
  let mut v: Vec<Run> = inputs
    .iter()
    .flat_map(|i| [false, true].into_iter().map(move |p| (i, p)))
    .filter_map(|(i, p)| Run::new(g, i, None, p, st))
    .collect();
  v.extend(inputs.iter().filter(|i| i.len() > 1).take(3).filter_map(|i| Run::new(g, i, Some((1, i.len())), false, st)));
  v
}

/// Every ordered pair of runs, one after the other on the same matcher.
fn all_histories(g: &G, inputs: &[String], fresh: bool, st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), (String, String)> {
  let rs = runs(g, inputs, st);
  if rs.is_empty() {
    return Ok(());
  }
  let make = || guarded(|| build(g, Style::Macros)).map_err(|p| ("composing it".to_string(), p));
  let history = |h: &[usize], k: usize, d: String| {
    let from = k.saturating_sub(1);
    (
      format!(
        "run {} of one matcher, after {}",
        k + 1,
        h[from..=k].iter().map(|x| rs[*x].show()).collect::<Vec<_>>().join(", then ")
      ),
      d,
    )
  };
  if fresh {
    // exactly the histories of two runs
    for a in 0..rs.len() {
      for b in 0..rs.len() {
        beat();
        let m = make()?;
        let mut before = vec![];
        shape(&m, &mut before);
        for (k, r) in [a, b].iter().enumerate() {
          rs[*r].check(&m, st).map_err(|d| history(&[a, b], k, d))?;
        }
        let mut after = vec![];
        shape(&m, &mut after);
        if before != after {
          return Err(history(&[a, b], 1, "the matcher has changed".into()));
        }
        if a == b && defines(g) && !defines_outside(g) {
          let m = make()?;
          let s = setup(rs[a].input, "", rs[a].window, &[]);
          rs[a]
            .check_in(&m, &s, st)
            .and_then(|_| nothing_left(&s))
            .map_err(|d| (format!("after {}", rs[a].show()), d))?;
        }
        if a == b && !defines(g) {
          // the same context again
          let m = make()?;
          let s = setup(rs[a].input, "", rs[a].window, &[]);
          for k in 0..3 {
            rs[a]
              .check_in(&m, &s, st)
              .map_err(|d| (format!("run {} in one context of {}", k + 1, rs[a].show()), d))?;
          }
        }
      }
    }
    return Ok(());
  }
  let m = make()?;
  let mut before = vec![];
  shape(&m, &mut before);
  let w = all_pairs(rs.len());
  for (k, r) in w.iter().enumerate() {
    beat();
    rs[*r].check(&m, st).map_err(|d| history(&w, k, d))?;
  }
  let mut after = vec![];
  shape(&m, &mut after);
  if before != after {
    return Err(("after all pairs of runs".into(), "the matcher has changed".into()));
  }
  Ok(())
}

/// Composes with one matcher for all equal patterns.
fn build_shared(g: &G, cache: &mut HashMap<String, MatcherRef>) -> MatcherRef {
  let key = g.to_string();
  if let Some(m) = cache.get(&key) {
    return m.clone();
  }
  let m = build_with(g, Style::Macros, &mut |k| build_shared(k, cache));
  cache.insert(key, m.clone());
  m
}

fn inner(text: &'static str, p: G, g: G) -> G {
  Inner(text, Box::new(p), Box::new(g))
}

pub fn c15(deep: bool) -> Spaces {
  let d = deep;
  let leaves = || {
    vec![
      Re("[ab]"),
      EqN("X", "a"),
      Ref("X"),
      store("V", Re("[ab]")),
      EqVar("V.captured_value"),
      Error("e"),
      Panic("p"),
      Break(""),
      Seq("a", "a", "b"),
    ]
  };
  let unary = || {
    vec![
      un(opt),
      un(disc),
      un(flat),
      un(scope),
      un(|g| Debug(1, Box::new(g))),
      un(|g| Catch(OnFail::Skip0, Box::new(g))),
      un(|g| AssertIf("m", Box::new(g))),
    ]
  };
  let nar = || {
    vec![
      nary(1, 3, |v| Prog(None, v)),
      nary(2, 2, |v| Prog(Some("P"), v)),
      nary(1, 2, |v| Loop(None, Rng::Default, v)),
      nary(2, 2, |v| Switch(None, v)),
    ]
  };
  let has_var = |g: &G| {
    // fetching what is not stored is an error of the author
    g.any(&|x| matches!(x, EqVar(_)))
  };
  let fit = move |g: &G| !has_var(g) || g.any(&|x| matches!(x, Store(..)));
  let small = strings(&["a", "b"], 2);
  let more = strings(&["a", "b"], 3);
  let (s1, s2, s3) = (small.clone(), more.clone(), more.clone());
  vec![
    Terms::new("all histories of two runs", leaves(), unary(), nar(), (1, q(3, 4, d)), move |g, st, beat| {
      all_histories(g, &s1, true, st, beat)
    })
    .keep(fit)
    .done(),
    Terms::new(
      "what is left after parses of scopes",
      vec![Eq("a"), EqN("X", "b"), store("V", Re("[ab]")), StoreS("W", "w"), Panic("p"), Error("e"), Ref("X"), Break("")],
      vec![un(opt), un(disc), un(|g| Catch(OnFail::Skip0, Box::new(g))), un(|g| Loop(None, Rng::Default, vec![g])), un(scope)],
      vec![nary(2, 2, |v| Prog(None, v)), nary(2, 2, |v| Switch(None, v))],
      (1, q(4, 5, d)),
      {
        let s1 = small.clone();
        move |g, st, beat| {
          let rs = runs(g, &s1, st);
          let m = guarded(|| build(g, Style::Macros)).map_err(|p| ("composing it".to_string(), p))?;
          for r in &rs {
            beat();
            let s = setup(r.input, "", r.window, &[]);
            r.check_in(&m, &s, st).and_then(|_| nothing_left(&s)).map_err(|d| (format!("after {}", r.show()), d))?;
          }
          Ok(())
        }
      },
    )
    .frames(vec![un(scope), un(|g| Prog(None, vec![opt(Eq("a")), scope(g)])), un(|g| Switch(None, vec![scope(Prog(None, vec![g, Eq("a")])), Re("[ab]")]))])
    .done(),
    Terms::new("all pairs of runs within one history", leaves(), unary(), nar(), (4, q(4, 5, d)), {
      let s1 = small.clone();
      move |g, st, beat| all_histories(g, &s1, false, st, beat)
    })
    .keep(fit)
    .done(),
    Terms::new("histories over long and odd sources", {
      let mut l = leaves();
      l.extend([Re("(?s).+"), Re("a{7,}"), Loop(None, Rng::Default, vec![store("V", Re("[ab]"))]), SeqN("Error", "a", "\n", "b")]);
      l
    }, unary(), nar(), (1, q(3, 4, d)), {
      let odd: Vec<String> = vec!["".into(), "a".repeat(40), "ab".repeat(20), "é\n\u{feff}".into(), "ba\na\r\nb".into(), "a".into(), format!("a{}b\n", "\u{301}".repeat(9))];
      move |g, st, beat| all_histories(g, &odd, false, st, beat)
    })
    .keep(fit)
    .done(),
    Terms::new("results that are kept while others are made", leaves(), unary(), nar(), (1, q(3, 4, d)), {
      let s = small.clone();
      move |g, st, beat| kept_results(g, &s, 3, st, beat)
    })
    .frames(vec![un(|g| g), un(|g| prog(vec![Re("[ab]"), g, opt(Re("[ab]+"))])), un(|g| lp(vec![switch(vec![g, Re("[ab]")]), opt(Eq("b"))]))])
    .keep(fit)
    .done(),
    Terms::new("hundreds of runs", leaves(), unary(), nar(), (1, q(2, 3, d)), {
      let odd: Vec<String> = vec!["ab".into(), "ba".into(), "a".repeat(300), "".into(), "ab".repeat(150), format!("{}b", "a".repeat(299)), "é".into()];
      move |g, st, beat| {
        let rs = runs(g, &odd, st);
        if rs.is_empty() {
          return Ok(());
        }
        let m = guarded(|| build(g, Style::Macros)).map_err(|p| ("composing it".to_string(), p))?;
        for k in 0..q(300, 1100, d) {
          beat();
          let r = &rs[(k * k + k / 7) % rs.len()];
          r.check(&m, st).map_err(|e| (format!("run {} of one matcher: {}", k + 1, r.show()), e))?;
        }
        Ok(())
      }
    })
    .keep(fit)
    .done(),
    GSpace::new(
      "parses during parses",
      vec![
        Re("[ab]"),
        Error("e"),
        Panic("p"),
        Prog(None, vec![disc(Eq("a")), Error("f"), opt(Re("b"))]),
        store("V", Prog(Some("X"), vec![Re("[ab]"), opt(Ref("X"))])),
        Break(""),
        Spy(1, Box::new(Eq("b"))),
      ],
      vec![
        un(opt),
        un(scope),
        un(|g| inner("ab", g.clone(), g)),
        un(|g| inner("aab", prog(vec![Error("i"), opt(g), Re("[ab]"), Error("j")]), Re("[ab]"))),
        un(|g| inner("", Catch(OnFail::ErrTok("c"), Box::new(Eq("a"))), g)),
        un(|g| inner("é", prog(vec![Re("."), Panic("q")]), Catch(OnFail::Skip0, Box::new(g)))),
      ],
      vec![nary(2, 3, |v| Prog(None, v)), nary(1, 2, |v| Loop(None, Rng::Default, v)), nary(2, 2, |v| Switch(None, v))],
      (2, q(4, 5, d)),
    )
    .frames(vec![un(|g| g), un(|g| prog(vec![inner("ba", prog(vec![Re("[ab]"), opt(g.clone()), Error("k")]), Re("[ab]")), g]))])
    .keep(|g| g.any(&|x| matches!(x, Inner(..))))
    .fresh()
    .inputs(&["a", "b"], 3)
    .parse()
    .done(),
    Terms::new(
      "one matcher at several places",
      vec![
        Re("[ab]"),
        EqN("X", "a"),
        Ref("X"),
        store("V", Re("[ab]")),
        Error("e"),
        Break(""),
        Seq("a", "a", "b"),
        pin("0", Re(".")),
        map(MapOk::Rename("R"), OnFail::Pass, Re("b")),
      ],
      unary(),
      nar(),
      (1, q(3, 4, d)),
      move |t, st, beat| {
        let f: Vec<fn(G) -> G> = vec![
          |t| prog(vec![t.clone(), t]),
          |t| prog(vec![t.clone(), opt(Re("[ab]")), t.clone(), disc(t)]),
          |t| prog(vec![opt(t.clone()), Switch(None, vec![prog(vec![t.clone(), Eq("a")]), t.clone()]), opt(t)]),
          |t| lp(vec![t.clone(), opt(t.clone()), opt(prog(vec![flat(t.clone()), opt(t)]))]),
          |t| prog(vec![opt(scope(t.clone())), Loop(None, Rng::Incl(1, 2), vec![t.clone()]), opt(Debug(1, Box::new(t)))]),
        ];
        let gs: Vec<G> = f.iter().map(|f| f(t.clone())).collect();
        let mut cache = HashMap::new();
        // all of these grammars are made of the same matchers
        let ms: Vec<MatcherRef> = match guarded(|| gs.iter().map(|g| build_shared(g, &mut cache)).collect()) {
          Ok(m) => m,
          Err(p) => return Err(("composing it".into(), p)),
        };
        let mut all: Vec<(usize, Run)> = vec![];
        for (i, g) in gs.iter().enumerate() {
          if g.any(&|x| !matches!(x, Prog(..) | Switch(..) | Loop(..)) && x.kids().iter().any(|y| y.any(&|z| matches!(z, Pin(..))))) {
            continue;
          }
          for input in &s2 {
            for p in [false, true] {
              if let Some(r) = Run::new(g, input, None, p, st) {
                all.push((i, r));
              }
            }
          }
        }
        // interleaved: by input, then backwards by grammar
        let mut order: Vec<usize> = (0..all.len()).collect();
        order.sort_by_key(|k| (all[*k].1.input.to_string(), all[*k].0));
        for k in order.into_iter().chain((0..all.len()).rev()) {
          let (i, r) = &all[k];
          beat();
          r.check(&ms[*i], st)
            .map_err(|d| (format!("{} on {} with equal parts being one matcher", gs[*i], r.show()), d))?;
        }
        Ok(())
      },
    )
    .done(),
    Terms::new(
      "one matcher for all equal parts of a grammar",
      vec![Re("[ab]"), EqN("X", "a"), Ref("X"), store("X", Eq("b")), Error("e"), Null],
      vec![un(opt), un(disc), un(flat), un(scope)],
      nar(),
      (4, q(5, 5, d)),
      move |g, st, beat| {
        let m = match guarded(|| build_shared(g, &mut HashMap::new())) {
          Ok(m) => m,
          Err(p) => return Err(("composing it".into(), p)),
        };
        for input in &s3 {
          if let Some(r) = Run::new(g, input, None, true, st) {
            beat();
            r.check(&m, st)
              .map_err(|d| (format!("{} with equal parts being one matcher", r.show()), d))?;
          }
        }
        Ok(())
      },
    )
    .done(),
  ]
}

/// One matcher at several places, next to each other too, is run at each of them.
pub fn watched_at_several_places(d: bool) -> Spaces {
  let spy = |i, g| Spy(i, Box::new(g));
  let texts = strings(&["a", "b"], 3);
  vec![Terms::new(
    "one watched matcher at several places",
    vec![spy(90, Eq("a")), spy(91, opt(Eq("b"))), spy(92, Null), spy(93, not(Eq("a"))), spy(94, disc(Eq("b"))), Re("[ab]"), spy(95, Break(""))],
    vec![un(opt)],
    vec![nary(2, 3, |v| Prog(None, v)), nary(2, 3, |v| Switch(None, v)), nary(2, 3, |v| Loop(None, Rng::Default, v)), nary(2, 2, |v| Loop(None, Rng::Incl(2, 3), v))],
    (3, q(5, 6, d)),
    move |g, st, beat| {
      let m = match guarded(|| build_shared(g, &mut HashMap::new())) {
        Ok(m) => m,
        Err(p) => return Err(("composing it".into(), p)),
      };
      for input in &texts {
        if let Some(r) = Run::new(g, input, None, false, st) {
          beat();
          r.check(&m, st).map_err(|d| (format!("{} with equal parts being one matcher", r.show()), d))?;
        }
      }
      Ok(())
    },
  )
  .keep(repeats)
  .done()]
}

// ------------------------------------------------------------------ C27

#[derive(Clone, Debug)]
enum Edit {
  Add(G),
  Set(usize, G),
  Name(S),
}

/// Its children as they can be listed, or none.
fn listed(g: &G) -> usize {
  match g {
    StoreS(..) | Pin0(..) => 0,
    SetScopeDef(..) => 1,
    _ => g.kids().len(),
  }
}

fn kid_mut(g: &mut G, i: usize) -> Option<&mut G> {
  if matches!(g, SetScopeDef(..)) {
    return match g {
      SetScopeDef(_, p) if i == 0 => Some(p),
      _ => None,
    };
  }
  g.kid_mut(i)
}

fn rename(g: &mut G, n: S) {
  let new = match g {
    Eq(s) | EqN(_, s) => EqN(n, s),
    Re(s) | ReN(_, s) => ReN(n, s),
    Seq(a, b, c) | SeqN(_, a, b, c) => SeqN(n, a, b, c),
    Ref(t) | RefN(_, t) => RefN(n, t),
    Flat(p) | FlatN(_, p) => FlatN(n, p.clone()),
    // (a variable is the name of what stores it)
    StoreS(_, v) => StoreS(n, v),
    Store(_, p) => Store(n, p.clone()),
    Pin0(_, o) => Pin0(Some(n), o),
    Pin(_, o, p) => Pin(Some(n), o, p.clone()),
    Prog(x, _) | Switch(x, _) | Loop(x, _, _) => {
      *x = Some(n);
      return;
    }
    Opt(p) | Not(p) | Disc(p) | Expand(p) | Debug(_, p) | SetScope(p) | SetScopeDef(_, p) | Map(_, _, p) | Catch(_, p) | AssertIf(_, p)
    | AssertIfNot(_, p) | FatalIf(_, p) | FatalIfNot(_, p) => return rename(p, n),
    _ => return,
  };
  *g = new;
}

/// The edit on the abstract syntax; false: it is refused.
fn edit(g: &mut G, e: &Edit) -> bool {
  match e {
    Edit::Name(n) => {
      rename(g, n);
      true
    }
    Edit::Add(p) => match g {
      Prog(_, v) | Switch(_, v) | Loop(_, _, v) | Register(v) => {
        v.push(p.clone());
        true
      }
      _ => false,
    },
    Edit::Set(i, p) => match g {
      Register(_) | Store(..) | Pin(..) => false,
      _ => match kid_mut(g, *i) {
        Some(k) => {
          *k = p.clone();
          true
        }
        None => false,
      },
    },
  }
}

/// The pattern which a renaming of this one renames.
fn renamed(g: &G) -> &G {
  match g {
    Opt(p) | Not(p) | Disc(p) | Expand(p) | Debug(_, p) | SetScope(p) | SetScopeDef(_, p) | Map(_, _, p) | Catch(_, p) | AssertIf(_, p)
    | AssertIfNot(_, p) | FatalIf(_, p) | FatalIfNot(_, p) => renamed(p),
    _ => g,
  }
}

fn replace(g: &mut G, old: &G, new: &G) {
  if g == old {
    *g = new.clone();
    return;
  }
  for i in 0..g.kids().len() {
    if let Some(k) = kid_mut(g, i) {
      replace(k, old, new);
    }
  }
}

/// Does a pattern occur at two places?
fn repeats(g: &G) -> bool {
  fn all<'a>(g: &'a G, v: &mut Vec<&'a G>) {
    v.push(g);
    for k in g.kids() {
      all(k, v);
    }
  }
  let mut v = vec![];
  all(g, &mut v);
  (0..v.len()).any(|i| v[..i].contains(&v[i]))
}

fn same_shape(g: &G, m: &MatcherRef, at: &str) -> Chk {
  let kids = {
    let b = m.borrow();
    if !matches!(g, Expand(_)) && b.get_name() != g.name() {
      return Err(format!("name at {}: expected {:?}, got {:?}", at, g.name(), b.get_name()));
    }
    b.get_children().unwrap_or_default()
  };
  let n = listed(g);
  if kids.len() != n {
    return Err(format!("number of children at {}: expected {}, got {}", at, n, kids.len()));
  }
  for (i, k) in kids.iter().enumerate() {
    let own = match g {
      SetScopeDef(_, p) => &**p,
      _ => g.kids()[i],
    };
    same_shape(own, k, &format!("{}/{}", at, i))?;
  }
  Ok(())
}

pub fn c27(deep: bool) -> Spaces {
  let d = deep;
  let inputs = strings(&["a", "b"], 2);
  let ops: Vec<(Vec<usize>, Edit)> = {
    let es = vec![
      Edit::Add(EqN("Q", "b")),
      Edit::Add(opt(Eq("a"))),
      Edit::Set(0, Re("[ab]")),
      Edit::Set(1, Eq("b")),
      Edit::Set(2, disc(Eq("a"))),
      Edit::Name("N"),
      Edit::Name("L"),
    ];
    let mut v = vec![];
    for p in [vec![], vec![0], vec![1], vec![0, 0]] {
      for e in &es {
        v.push((p.clone(), e.clone()));
      }
    }
    v
  };
  // shared: equal parts are one and the same matcher
  let make = move |ops: Vec<(Vec<usize>, Edit)>, depth: usize, styles: &'static [Style], inputs: Vec<String>, shared: bool| {
    move |g0: &G, st: &mut Stats, beat: &mut dyn FnMut()| -> Result<(), (String, String)> {
      let k = ops.len() as u64;
      for style in styles {
        'h: for h in 0..words(k, depth) {
          let w = word(k, h);
          beat();
          let mut g = g0.clone();
          // edits of places that do not exist are not edits
          let mut plan = vec![];
          for o in &w {
            let (path, e) = &ops[*o];
            let mut t = &mut g;
            for i in path {
              t = match kid_mut(t, *i) {
                Some(t) => t,
                None => continue 'h,
              };
            }
            if shared {
              let inner = matches!(e, Edit::Name(_)) && renamed(t) != t;
              if w.len() > 1 && (!path.is_empty() || inner) {
                continue 'h;
              }
              // the edit is seen wherever the edited matcher is used
              let old = if inner { renamed(t).clone() } else { t.clone() };
              let mut new = old.clone();
              let ok = edit(&mut new, e);
              if ok {
                replace(&mut g, &old, &new);
              }
              plan.push((path, e, ok));
              st.transitions += 1;
              continue;
            }
            // (whether a trace without a pattern can be given one is left open)
            if matches!((&*t, e), (DebugNone(_), Edit::Set(0, _))) {
              continue 'h;
            }
            plan.push((path, e, edit(t, e)));
            st.transitions += 1;
          }
          st.states += 1;
          let show = || {
            format!(
              "composed with {:?}{}; {}",
              style,
              if shared { ", equal patterns shared" } else { "" },
              plan
                .iter()
                .map(|(p, e, _)| format!(
                  "at {:?} {}",
                  p,
                  match e {
                    Edit::Add(g) => format!("add_pattern({})", g),
                    Edit::Set(i, g) => format!("set_child({}, {})", i, g),
                    Edit::Name(n) => format!("set_name({:?})", n),
                  }
                ))
                .collect::<Vec<_>>()
                .join("; ")
            )
          };
          let r = guarded(|| -> Result<MatcherRef, String> {
            let m = if shared { build_shared(g0, &mut HashMap::new()) } else { build(g0, *style) };
            for (path, e, ok) in &plan {
              let mut t = m.clone();
              for i in *path {
                let k = t.borrow().get_children().and_then(|k| k.get(*i).cloned());
                t = match k {
                  Some(k) => k,
                  None => return Err(format!("there is no child at {:?}", path)),
                };
              }
              let before = t.borrow().get_children().unwrap_or_default();
              let new = match e {
                Edit::Add(g) | Edit::Set(_, g) => Some(build(g, *style)),
                _ => None,
              };
              let done = guarded(|| match e {
                Edit::Add(_) => t.borrow_mut().add_pattern(new.clone().unwrap()),
                Edit::Set(i, _) => t.borrow_mut().set_child(*i, new.clone().unwrap()),
                Edit::Name(n) => t.borrow_mut().set_name(n),
              })
              .is_ok();
              if done != *ok {
                return Err(format!("{:?}: expected {}", e, if *ok { "it to be done" } else { "it to be refused" }));
              }
              let after = t.borrow().get_children().unwrap_or_default();
              let mut exp = before.clone();
              if *ok {
                match e {
                  Edit::Add(_) => exp.push(new.unwrap()),
                  Edit::Set(i, _) => exp[*i] = new.unwrap(),
                  _ => {}
                }
              }
              if exp.len() != after.len() || exp.iter().zip(&after).any(|(a, b)| !Rc::ptr_eq(a, b)) {
                return Err(format!("{:?}: the list of children is not what it should be", e));
              }
            }
            same_shape(&g, &m, "")?;
            Ok(m)
          });
          let m = match r {
            Err(p) => return Err((show(), format!("it panicked: {}", p))),
            Ok(Err(e)) => return Err((show(), e)),
            Ok(Ok(m)) => m,
          };
          for input in &inputs {
            if let Some(r) = Run::new(&g, input, None, true, st) {
              r.check(&m, st).map_err(|d| (format!("{}; then {}", show(), r.show()), d))?;
            }
          }
        }
      }
      Ok(())
    }
  };
  let leaves = || vec![Eq("a"), ReN("X", "[ab]"), Seq("a", "b", ""), Ref("X"), Register(vec![EqN("X", "b")])];
  let unary = || {
    vec![
      un(opt),
      un(not),
      un(disc),
      un(flat),
      un(expand),
      un(scope),
      un(|g| Debug(1, Box::new(g))),
      un(|g| map(MapOk::Attr("k", "v"), OnFail::Pass, g)),
      un(|g| Catch(OnFail::Skip0, Box::new(g))),
      un(|g| AssertIf("m", Box::new(g))),
    ]
  };
  let nar = || {
    vec![
      nary(1, 2, |v| Prog(None, v)),
      nary(1, 2, |v| Switch(Some("P"), v)),
      nary(1, 2, |v| Loop(None, Rng::Default, v)),
      nary(1, 1, |v| Loop(Some("L"), Rng::Incl(1, 2), v)),
    ]
  };
  use Style::*;
  vec![
    Terms::new(
      "all pairs of edits of scopes that were given their definitions",
      vec![Eq("a"), ReN("X", "[ab]"), Ref("Z")],
      vec![un(|g| SetScopeDef(vec![("Z", Eq("b"))], Box::new(g))), un(|g| SetScopeDef(vec![], Box::new(g))), un(opt), un(scope)],
      vec![nary(1, 2, |v| Prog(None, v)), nary(1, 2, |v| Switch(Some("P"), v))],
      (1, q(3, 4, d)),
      make(ops.iter().filter(|o| o.0.len() < 2).cloned().collect(), 2, &[Macros], inputs.clone(), false),
    )
    .keep(|g| g.any(&|x| matches!(x, SetScopeDef(..))))
    .done(),
    Terms::new("all pairs of edits", leaves(), unary(), nar(), (1, q(3, 4, d)), make(ops.clone(), 2, &[Macros], inputs.clone(), false)).done(),
    Terms::new(
      "edits of trees that hold a matcher at several places",
      vec![Eq("a"), ReN("X", "[ab]"), Eq("b")],
      vec![un(opt), un(flat), un(disc), un(|g| map(MapOk::Attr("k", "v"), OnFail::Pass, g))],
      vec![nary(2, 3, |v| Prog(None, v)), nary(2, 3, |v| Switch(None, v)), nary(2, 2, |v| Loop(None, Rng::Default, v))],
      (3, q(5, 6, d)),
      make(ops.clone(), 1, &[Macros], inputs.clone(), true),
    )
    .keep(repeats)
    .done(),
    Terms::new(
      "all pairs of edits of trees that hold a matcher at several places",
      vec![Eq("a"), ReN("X", "[ab]"), Eq("b")],
      vec![un(opt)],
      vec![nary(2, 3, |v| Prog(None, v)), nary(2, 3, |v| Switch(None, v)), nary(2, 3, |v| Loop(None, Rng::Default, v))],
      (3, q(4, 5, d)),
      make(ops.iter().filter(|o| o.0.is_empty()).cloned().collect(), 2, &[Macros], inputs.clone(), true),
    )
    .keep(repeats)
    .done(),
    Terms::new(
      "edits of larger trees",
      vec![Eq("a"), ReN("X", "b")],
      vec![un(opt), un(flat), un(disc)],
      vec![nary(1, 3, |v| Prog(None, v)), nary(2, 2, |v| Switch(None, v)), nary(1, 2, |v| Loop(None, Rng::Default, v))],
      (4, q(5, 5, d)),
      make(ops.clone(), q(1, 2, d), &[Functions, Added], inputs.clone(), false),
    )
    .done(),
    Terms::new(
      "edits of every other kind of pattern",
      vec![
        Null,
        Error("e"),
        Panic("p"),
        Break(""),
        Break("L"),
        DebugNone(1),
        StoreS("v", "a"),
        Pin0(None, "0"),
        Pin0(Some("P"), "+"),
        EqN("X", "a"),
        RefN("R", "X"),
        SeqN("S", "a", "b", ""),
      ],
      vec![
        un(|g| Store("v", Box::new(g))),
        un(|g| Pin(None, "+", Box::new(g))),
        un(|g| Pin(Some("P"), "0", Box::new(g))),
        un(|g| AssertIfNot("m", Box::new(g))),
        un(|g| FatalIf("m", Box::new(g))),
        un(|g| FatalIfNot("m", Box::new(g))),
        un(|g| FlatN("F", Box::new(g))),
        un(|g| Prog(None, vec![Eq("a"), g.clone(), opt(EqVar("v"))])),
        un(|g| Prog(None, vec![Eq("a"), g, opt(EqVar("N"))])),
        un(|g| Loop(Some("L"), Rng::Default, vec![Switch(None, vec![EqN("E", "b"), g]), opt(Eq("a"))])),
      ],
      vec![],
      (1, q(2, 3, d)),
      make(ops.clone(), 2, &[Macros], inputs.clone(), false),
    )
    .done(),
    Terms::new("edits to odd names", leaves(), unary(), nar(), (1, q(3, 4, d)), {
      let mut v = vec![];
      for p in [vec![], vec![0], vec![1]] {
        for n in ["", "Error", "é b", "Loop", "*", "Program", "a.b"] {
          v.push((p.clone(), Edit::Name(n)));
        }
      }
      v.push((vec![], Edit::Add(EqN("", "b"))));
      make(v, 2, &[Macros], inputs.clone(), false)
    })
    .done(),
    Terms::new(
      "edits of very many children",
      vec![Re("[ab]"), opt(Eq("b")), EqN("X", "a")],
      vec![un(disc)],
      vec![],
      (1, 2),
      {
        let mut v = vec![];
        for p in [vec![], vec![0], vec![6], vec![15], vec![16], vec![31]] {
          for i in [0, 1, 5, 15, 16, 31, 32, 33, 64] {
            v.push((p.clone(), Edit::Set(i, EqN("Q", "b"))));
          }
          v.push((p.clone(), Edit::Add(opt(Eq("a")))));
          v.push((p.clone(), Edit::Name("N")));
        }
        make(v, 2, &[Added], vec!["a".repeat(40), "ab".repeat(20), "b".into(), "a".repeat(15), format!("{}b{}", "a".repeat(15), "a".repeat(30))], false)
      },
    )
    .frames([6, 16, 32].iter().flat_map(|n| {
      let n = *n;
      vec![
        un(move |g| Prog(None, vec![g; n])),
        un(move |g| Switch(None, (0..n).map(|k| if k + 1 == n { g.clone() } else { Prog(None, vec![g.clone(), Eq("bb")]) }).collect())),
        un(move |g| Loop(Some("P"), Rng::Default, (0..n).map(|k| if k % 2 == 0 { g.clone() } else { opt(Eq("a")) }).collect())),
        un(move |g| Prog(None, vec![Prog(None, vec![g.clone(); n]), opt(g)])),
      ]
    }).collect())
    .done(),
    Terms::new("all histories of three edits", leaves(), vec![un(opt), un(flat)], nar(), (1, 2), {
      let few: Vec<_> = ops.iter().filter(|o| o.0.len() < 2).cloned().collect();
      make(few, 3, &[Added], inputs, false)
    })
    .done(),
  ]
}
