//! The reference model: what a grammar means, written as a plain interpreter over the abstract
//! syntax, with its own tokens. Nothing in here calls the library under test.
use crate::g::*;
use crate::rx::Rx;
use std::collections::HashMap;

pub type T = usize;

#[derive(Clone, Debug)]
pub struct MTok {
  pub name: S,
  pub cap: (usize, usize),
  pub mat: (usize, usize),
  pub attrs: Vec<(S, String)>,
  /// set value, captured text and matched text
  pub set: [Option<S>; 3],
  pub error: bool,
  pub pin: bool,
  pub parent: Option<T>,
  pub kids: Vec<T>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
  Tok(T),
  Proxy(T),
  Skip(isize),
  Brk(S, Box<Res>),
  Cont(S, Box<Res>),
  Nothing,
}

#[derive(Clone, Debug, PartialEq)]
pub enum No {
  Fail,
  /// message (None: any) and range
  Err(Option<String>, Option<(usize, usize)>),
  /// outside of what the model defines (author errors, depth bound): not compared
  Undef(&'static str),
}

pub type Out = Result<Res, No>;

#[derive(Clone, Debug)]
pub enum Var<'g> {
  Tok(T),
  Str(String),
  Mat(&'g G),
}

#[derive(Clone, Debug, Default)]
pub struct Level<'g> {
  pub defs: Vec<(S, Var<'g>)>,
  pub selfs: Vec<(S, Var<'g>)>,
}

fn put<'g>(v: &mut Vec<(S, Var<'g>)>, n: S, x: Var<'g>) {
  match v.iter_mut().find(|e| e.0 == n) {
    Some(e) => e.1 = x,
    None => v.push((n, x)),
  }
}

pub struct Model<'g> {
  pub src: &'g str,
  pub file: S,
  pub toks: Vec<MTok>,
  /// scope contexts: each a stack of levels
  pub ctxs: Vec<Vec<Level<'g>>>,
  own: Vec<(*const G, usize)>,
  stack: Vec<usize>,
  pub log: Vec<(u32, usize, usize)>,
  /// debug level of the context
  pub level: usize,
  pub trans: u64,
  pub states: u64,
  seen: Seen,
  depth: usize,
  fuel: u64,
  pub max_depth: usize,
}

/// Visited (node, start, end) triples of one run (cleared by generation).
pub struct Seen {
  tab: Vec<(u64, u32)>,
  gen: u32,
  n: usize,
}

impl Seen {
  pub fn new() -> Seen {
    Seen {
      tab: vec![(0, 0); 1 << 11],
      gen: 1,
      n: 0,
    }
  }
  pub fn clear(&mut self) {
    self.gen += 1;
    self.n = 0;
  }
  pub fn add(&mut self, key: u64) -> bool {
    if self.n * 2 > self.tab.len() {
      return false;
    }
    let mask = self.tab.len() - 1;
    let mut i = (key.wrapping_mul(0x9E3779B97F4A7C15) >> 44) as usize & mask;
    loop {
      if self.tab[i].1 != self.gen {
        self.tab[i] = (key, self.gen);
        self.n += 1;
        return true;
      }
      if self.tab[i].0 == key {
        return false;
      }
      i = (i + 1) & mask;
    }
  }
}

thread_local! {
  static RXS: std::cell::RefCell<HashMap<usize, std::rc::Rc<Rx>>> = std::cell::RefCell::new(HashMap::new());
}

pub fn rx(p: S) -> std::rc::Rc<Rx> {
  RXS.with(|m| {
    m.borrow_mut()
      .entry(p.as_ptr() as usize ^ (p.len() << 56))
      .or_insert_with(|| std::rc::Rc::new(Rx::new(p).unwrap_or_else(|e| panic!("model regex {:?}: {}", p, e))))
      .clone()
  })
}

// ---------------------------------------------------------------- lines and columns

/// Ends of all line breaks of the text.
pub fn breaks(s: &str) -> Vec<usize> {
  let b = s.as_bytes();
  let mut v = vec![];
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'\r' {
      if i + 1 < b.len() && b[i + 1] == b'\n' {
        i += 1;
      }
      v.push(i + 1);
    } else if b[i] == b'\n' {
      v.push(i + 1);
    }
    i += 1;
  }
  v
}

pub fn line_col(s: &str, at: usize) -> (usize, usize) {
  let v: Vec<usize> = breaks(s).into_iter().filter(|e| *e <= at).collect();
  (v.len() + 1, at - v.last().copied().unwrap_or(0) + 1)
}

pub fn error_text(src: &str, file: &str, msg: &str, r: (usize, usize)) -> String {
  let (l1, c1) = line_col(src, r.0);
  let (l2, c2) = line_col(src, r.1);
  let c2 = c2.max(c1);
  let l = if l1 == l2 { format!("{}", l1) } else { format!("{}-{}", l1, l2) };
  let c = if c1 == c2 { format!("{}", c1) } else { format!("{}-{}", c1, c2) };
  format!("Error: {}@[{}:{}]: {}", file, l, c, msg)
}

fn hull(h: &mut Option<(usize, usize)>, r: (usize, usize)) {
  *h = Some(match *h {
    None => r,
    Some((a, b)) => (a.min(r.0), b.max(r.1)),
  });
}

type Win = (usize, usize);

impl<'g> Model<'g> {
  pub fn new(src: &'g str, file: S) -> Model<'g> {
    Model {
      src,
      file,
      toks: Vec::new(),
      ctxs: vec![vec![]],
      own: vec![],
      stack: vec![],
      log: vec![],
      level: 0,
      trans: 0,
      states: 0,
      seen: Seen::new(),
      depth: 0,
      fuel: 200_000,
      max_depth: 60,
    }
  }

  /// Forget everything but the allocations; the counters go on.
  pub fn reset(&mut self, src: &'g str) {
    self.src = src;
    self.toks.clear();
    self.ctxs.clear();
    self.ctxs.push(vec![]);
    self.own.clear();
    self.stack.clear();
    self.log.clear();
    self.level = 0;
    self.seen.clear();
    self.depth = 0;
    self.fuel = 200_000;
  }

  pub fn text(&self, r: Win) -> &'g str {
    self.src.get(r.0..r.1.min(self.src.len())).unwrap_or("")
  }

  fn tok(&mut self, name: S, cap: Win, mat: Win) -> T {
    self.toks.push(MTok {
      name,
      cap,
      mat,
      attrs: vec![],
      set: [None; 3],
      error: false,
      pin: false,
      parent: None,
      kids: vec![],
    });
    self.toks.len() - 1
  }

  pub fn set_attr(&mut self, t: T, k: S, v: String) {
    let a = &mut self.toks[t].attrs;
    match a.iter_mut().find(|e| e.0 == k) {
      Some(e) => e.1 = v,
      None => a.push((k, v)),
    }
  }

  pub fn attr(&self, t: T, k: &str) -> Option<&String> {
    self.toks[t].attrs.iter().find(|e| e.0 == k).map(|e| &e.1)
  }

  pub fn value(&self, t: T) -> &str {
    match self.attr(t, "__value") {
      Some(v) => v,
      None => self.toks[t].set[0].unwrap_or(self.cap_text(t)),
    }
  }

  pub fn cap_text(&self, t: T) -> &str {
    self.toks[t].set[1].unwrap_or(self.text(self.toks[t].cap))
  }

  pub fn mat_text(&self, t: T) -> &str {
    self.toks[t].set[2].unwrap_or(self.text(self.toks[t].mat))
  }

  // -------------------------------------------------------------- scopes

  pub fn define(&mut self, ctx: usize, n: S, v: Var<'g>) {
    let c = &mut self.ctxs[ctx];
    if c.is_empty() {
      c.push(Level::default());
    }
    put(&mut c.last_mut().unwrap().defs, n, v);
  }

  fn register_self(&mut self, ctx: usize, n: S, g: &'g G) {
    let c = &mut self.ctxs[ctx];
    if c.is_empty() {
      c.push(Level::default());
    }
    put(&mut c.last_mut().unwrap().selfs, n, Var::Mat(g));
  }

  pub fn lookup(&self, ctx: usize, n: &str) -> Option<Var<'g>> {
    for l in self.ctxs[ctx].iter().rev() {
      if let Some(e) = l.defs.iter().find(|e| e.0 == n) {
        return Some(e.1.clone());
      }
    }
    for l in self.ctxs[ctx].iter().rev() {
      if let Some(e) = l.selfs.iter().find(|e| e.0 == n) {
        return Some(e.1.clone());
      }
    }
    None
  }

  /// Text of a variable; None: it is a pattern.
  fn fetch(&self, ctx: usize, path: &str) -> Result<Option<String>, No> {
    let parts: Vec<&str> = path.split('.').collect();
    match self.lookup(ctx, parts[0]) {
      None => Err(No::Undef("fetch of an unknown variable")),
      Some(Var::Mat(_)) => Ok(None),
      Some(Var::Str(s)) => {
        if parts.len() > 1 {
          return Err(No::Undef("fetch of a property of a string"));
        }
        Ok(Some(s))
      }
      Some(Var::Tok(t)) => {
        if parts.len() != 2 {
          return Err(No::Undef("fetch of a whole token"));
        }
        let k = &self.toks[t];
        Ok(Some(match parts[1] {
          "captured_value" => self.value(t).to_string(),
          "matched_value" => self.mat_text(t).to_string(),
          "start" => format!("{}", k.mat.0),
          "end" => format!("{}", k.mat.1),
          "captured_start" => format!("{}", k.cap.0),
          "captured_end" => format!("{}", k.cap.1),
          "range" => format!("{}..{}", k.mat.0, k.mat.1),
          "captured_range" => format!("{}..{}", k.cap.0, k.cap.1),
          _ => return Err(No::Undef("fetch of an unknown property")),
        }))
      }
    }
  }

  // -------------------------------------------------------------- terminals

  fn lit(&mut self, name: S, s: &str, w: Win) -> Out {
    if s.is_empty() || !self.src[w.0..w.1].starts_with(s) {
      return Err(No::Fail);
    }
    let r = (w.0, w.0 + s.len());
    Ok(Res::Tok(self.tok(name, r, r)))
  }

  fn regex(&mut self, name: S, p: S, w: Win) -> Out {
    match rx(p).at_start(&self.src[w.0..w.1]) {
      None => Err(No::Fail),
      Some(0) => Ok(Res::Skip(0)),
      Some(n) => {
        let r = (w.0, w.0 + n);
        Ok(Res::Tok(self.tok(name, r, r)))
      }
    }
  }

  fn delimited(&mut self, name: S, a: &str, b: &str, e: &str, w: Win) -> Out {
    if a.is_empty() || b.is_empty() {
      return Err(No::Undef("empty delimiter"));
    }
    let rest = &self.src[w.0..w.1];
    if !rest.starts_with(a) {
      return Err(No::Fail);
    }
    let mut i = a.len();
    let mut value = String::new();
    loop {
      let r = match rest.get(i..) {
        None | Some("") => return Err(No::Fail),
        Some(r) => r,
      };
      if r.starts_with(b) {
        break;
      }
      if !e.is_empty() && r.starts_with(e) {
        i += e.len();
      }
      match rest[i..].chars().next() {
        None => return Err(No::Fail),
        Some(c) => {
          value.push(c);
          i += c.len_utf8();
        }
      }
    }
    let t = self.tok(name, (w.0 + a.len(), w.0 + i), (w.0, w.0 + i + b.len()));
    self.set_attr(t, "__value", value);
    Ok(Res::Tok(t))
  }

  fn error_tok(&mut self, msg: &str, r: Win) -> T {
    let t = self.tok("Error", r, r);
    self.toks[t].error = true;
    let text = error_text(self.src, self.file, msg, r);
    self.set_attr(t, "__message", text);
    t
  }

  fn fatal(&self, msg: &str, r: Win) -> No {
    No::Err(Some(error_text(self.src, self.file, msg, r)), Some(r))
  }

  // -------------------------------------------------------------- pins

  fn offset(from: usize, dflt: usize, s: &str) -> Result<Option<usize>, No> {
    if matches!(s, "" | "+" | "-" | "+0" | "-0") {
      return Ok(Some(dflt));
    }
    let (sign, digits) = match s.as_bytes()[0] {
      b'+' => (1, &s[1..]),
      b'-' => (-1, &s[1..]),
      _ => (0, s),
    };
    match digits.parse::<usize>() {
      Err(_) => Err(No::Undef("malformed pin offset")),
      Ok(n) => Ok(match sign {
        1 => from.checked_add(n),
        -1 => from.checked_sub(n),
        _ => Some(n),
      }),
    }
  }

  fn pin(&mut self, ctx: usize, name: S, off: &str, inner: Option<&'g G>, w: Win) -> Out {
    let parts: Vec<&str> = off.split("..").collect();
    let a = match Self::offset(w.0, w.0, parts[0])? {
      Some(a) => a,
      None => return Err(No::Fail),
    };
    let b = if parts.len() > 1 {
      match Self::offset(a, w.1, parts[1])? {
        Some(b) => b,
        None => return Err(No::Fail),
      }
    } else {
      w.1
    };
    if a > b || self.src.get(a..b).is_none() {
      return Err(No::Fail);
    }
    match inner {
      Some(g) => self.eval(ctx, g, (a, b)),
      None => {
        let t = self.tok(name, (a, b), (a, b));
        self.toks[t].pin = true;
        Ok(Res::Tok(t))
      }
    }
  }

  // -------------------------------------------------------------- handlers

  fn on_fail(&mut self, f: OnFail, no: No, w: Win) -> Out {
    if let No::Undef(_) = no {
      return Err(no);
    }
    match f {
      OnFail::Pass => Err(no),
      OnFail::Skip0 => Ok(Res::Skip(0)),
      OnFail::Err(m) => Err(self.fatal(m, w)),
      OnFail::Bare(m) => Err(No::Err(Some(m.to_string()), None)),
      OnFail::Fail => Err(No::Fail),
      OnFail::ErrTok(m) => Ok(Res::Tok(self.error_tok(m, (w.0, w.0)))),
      OnFail::Break(n) => Ok(Res::Brk(n, Box::new(Res::Nothing))),
      OnFail::Continue(n) => Ok(Res::Cont(n, Box::new(Res::Nothing))),
    }
  }

  fn on_ok(&mut self, f: MapOk, t: T, w: Win) -> Out {
    if self.toks[t].error && matches!(f, MapOk::CapText(_) | MapOk::MatText(_)) {
      // what an enclosing pattern does with the ranges of an error token decides its texts
      return Err(No::Undef("texts of an error token"));
    }
    let mat = self.toks[t].mat;
    Ok(match f {
      MapOk::Same => Res::Tok(t),
      MapOk::Rename(n) => {
        self.toks[t].name = n;
        Res::Tok(t)
      }
      MapOk::Attr(k, v) => {
        self.set_attr(t, k, v.to_string());
        Res::Tok(t)
      }
      MapOk::Skip => {
        if mat.1 < w.0 {
          return Err(No::Undef("negative skip"));
        }
        Res::Skip((mat.1 - w.0) as isize)
      }
      MapOk::Skip0 => Res::Skip(0),
      MapOk::Fail => return Err(No::Fail),
      MapOk::Err(m) => return Err(self.fatal(m, mat)),
      MapOk::Bare(m) => return Err(No::Err(Some(m.to_string()), None)),
      MapOk::Flatten => Res::Proxy(t),
      MapOk::Break(n) => Res::Brk(n, Box::new(Res::Tok(t))),
      MapOk::Continue(n) => Res::Cont(n, Box::new(Res::Tok(t))),
      MapOk::New(n) => Res::Tok(self.tok(n, mat, mat)),
      MapOk::Val(v) => {
        self.toks[t].set[0] = Some(v);
        Res::Tok(t)
      }
      MapOk::CapText(v) => {
        self.toks[t].set[1] = Some(v);
        Res::Tok(t)
      }
      MapOk::MatText(v) => {
        self.toks[t].set[2] = Some(v);
        Res::Tok(t)
      }
      MapOk::CapEnd => {
        // the captured text follows
        self.toks[t].set[1] = None;
        self.toks[t].cap = (mat.1, mat.1);
        Res::Tok(t)
      }
    })
  }

  // -------------------------------------------------------------- wrappers

  fn errors_of(&self, t: T, out: &mut Vec<T>) {
    if self.toks[t].error {
      out.push(t);
    }
    for k in &self.toks[t].kids {
      self.errors_of(*k, out);
    }
  }

  /// A discarded token: what it consumed, or a carrier of the errors in it.
  fn drop_tok(&mut self, t: T, w: Win) -> Result<Res, No> {
    let end = self.toks[t].mat.1;
    let mut errs = vec![];
    self.errors_of(t, &mut errs);
    if errs.is_empty() {
      return Ok(Res::Skip(end as isize - w.0 as isize));
    }
    let mut h = Some((w.0, end));
    for e in &errs {
      hull(&mut h, self.toks[*e].mat);
    }
    let c = self.tok("Error", (w.0, end), h.unwrap());
    for e in &errs {
      self.toks[*e].parent = Some(c);
    }
    self.toks[c].kids = errs;
    Ok(Res::Proxy(c))
  }

  fn drop_res(&mut self, r: Res, w: Win) -> Out {
    Ok(match r {
      Res::Tok(t) | Res::Proxy(t) => self.drop_tok(t, w)?,
      Res::Brk(n, p) => Res::Brk(n, Box::new(self.drop_res(*p, w)?)),
      Res::Cont(n, p) => Res::Cont(n, Box::new(self.drop_res(*p, w)?)),
      r => r,
    })
  }

  // -------------------------------------------------------------- evaluation

  pub fn eval(&mut self, ctx: usize, g: &'g G, w: Win) -> Out {
    self.trans += 1;
    if self.seen.add((g as *const G as u64) << 20 ^ (w.0 as u64) << 10 ^ w.1 as u64) {
      self.states += 1;
    }
    if self.fuel == 0 {
      return Err(No::Undef("fuel"));
    }
    self.fuel -= 1;
    if self.src.get(w.0..w.1).is_none() {
      return Err(No::Undef("position outside of the window"));
    }
    if self.depth >= self.max_depth {
      self.fuel = 0;
      return Err(No::Undef("depth"));
    }
    self.depth += 1;
    let r = self.step(ctx, g, w);
    self.depth -= 1;
    r
  }

  fn step(&mut self, ctx: usize, g: &'g G, w: Win) -> Out {
    if let Some(n) = g.custom_name() {
      self.register_self(ctx, n, g);
    }
    match g {
      G::Eq(s) => self.lit("Equals", s, w),
      G::EqN(n, s) => self.lit(n, s, w),
      G::Re(p) => self.regex("Matches", p, w),
      G::ReN(n, p) => self.regex(n, p, w),
      G::Seq(a, b, e) => self.delimited("Sequence", a, b, e, w),
      G::SeqN(n, a, b, e) => self.delimited(n, a, b, e, w),
      G::Null => Ok(Res::Skip(0)),
      G::Error(m) => Ok(Res::Tok(self.error_tok(m, (w.0, w.0)))),
      G::Panic(m) => {
        let from = self.stack.last().copied().unwrap_or(w.0);
        Err(self.fatal(m, (from, w.0)))
      }
      G::Break(n) => Ok(Res::Brk(n, Box::new(Res::Nothing))),
      G::Cont(n) => Ok(Res::Cont(n, Box::new(Res::Nothing))),
      G::Ref(n) | G::RefN(_, n) => match self.lookup(ctx, n) {
        Some(Var::Mat(m)) => self.eval(ctx, m, w),
        _ => Err(No::Err(None, None)),
      },
      G::RefVar(v) => match self.fetch(ctx, v)? {
        None => match self.lookup(ctx, v.split('.').next().unwrap()) {
          Some(Var::Mat(m)) => self.eval(ctx, m, w),
          _ => Err(No::Undef("fetch")),
        },
        Some(n) => match self.lookup(ctx, &n) {
          Some(Var::Mat(m)) => self.eval(ctx, m, w),
          _ => Err(No::Err(None, None)),
        },
      },
      G::EqVar(v) => match self.fetch(ctx, v)? {
        Some(s) => self.lit("Equals", &s, w),
        None => Err(No::Err(None, None)),
      },
      G::SeqVar(a, b, e) => {
        let mut t = vec![];
        for v in [a, b, e] {
          match self.fetch(ctx, v)? {
            Some(s) => t.push(s),
            None => return Err(No::Err(None, None)),
          }
          if t.len() < 3 && t.last().unwrap().is_empty() {
            return Err(No::Undef("empty delimiter"));
          }
        }
        self.delimited("Sequence", &t[0], &t[1], &t[2], w)
      }
      G::StoreS(n, v) => {
        self.define(ctx, n, Var::Str(v.to_string()));
        Ok(Res::Skip(0))
      }
      G::Register(v) => {
        for p in v {
          self.define(ctx, p.name(), Var::Mat(p));
        }
        Ok(Res::Skip(0))
      }
      G::Pin0(n, o) => self.pin(ctx, n.unwrap_or("Pin"), o, None, w),
      G::Pin(n, o, p) => self.pin(ctx, n.unwrap_or("Pin"), o, Some(p), w),
      G::PinVar(v, p) => match self.fetch(ctx, v)? {
        Some(o) => self.pin(ctx, "Pin", &o, Some(p), w),
        None => Err(No::Err(None, None)),
      },
      G::Opt(p) => match self.eval(ctx, p, w) {
        Err(No::Fail) => Ok(Res::Skip(0)),
        r => r,
      },
      G::Not(p) => match self.eval(ctx, p, w) {
        Ok(Res::Tok(_)) | Ok(Res::Proxy(_)) => Err(No::Fail),
        Ok(Res::Skip(n)) if n != 0 => Err(No::Fail),
        Err(No::Fail) => Ok(Res::Skip(0)),
        r => r,
      },
      G::Disc(p) => {
        let r = self.eval(ctx, p, w)?;
        self.drop_res(r, w)
      }
      G::Flat(p) | G::FlatN(_, p) => Ok(match self.eval(ctx, p, w)? {
        Res::Tok(t) => Res::Proxy(t),
        Res::Brk(n, b) => Res::Brk(
          n,
          Box::new(match *b {
            Res::Tok(t) => Res::Proxy(t),
            x => x,
          }),
        ),
        Res::Cont(n, b) => Res::Cont(
          n,
          Box::new(match *b {
            Res::Tok(t) => Res::Proxy(t),
            x => x,
          }),
        ),
        r => r,
      }),
      G::Expand(p) => Ok(match self.eval(ctx, p, w)? {
        Res::Tok(t) => {
          let m = self.toks[t].mat;
          let x = self.tok("ExpandRange", m, m);
          self.toks[x].kids.push(t);
          self.toks[t].parent = Some(x);
          Res::Proxy(x)
        }
        Res::Proxy(t) => {
          self.toks[t].cap = self.toks[t].mat;
          Res::Proxy(t)
        }
        r => r,
      }),
      G::Debug(m, p) => {
        let was = std::mem::replace(&mut self.level, *m);
        let r = self.eval(ctx, p, w);
        self.level = was;
        r
      }
      G::Lvl(i) => {
        self.log.push((2000 + *i, self.level, w.0));
        Ok(Res::Skip(0))
      }
      G::DebugNone(_) => Ok(Res::Skip(0)),
      G::Inner(text, p, q) => {
        let mut m = Model::new(text, "");
        m.max_depth = self.max_depth;
        let r = m.tokenize(p, (0, text.len()));
        if let Err(No::Undef(why)) = r {
          return Err(No::Undef(why));
        }
        self.trans += m.trans;
        self.states += m.states;
        let shown = match &r {
          Ok(t) => crate::real::show_mtok(&m, *t),
          Err(No::Err(m, r)) => format!("error {:?} {:?}", m, r),
          Err(_) => "failure".into(),
        };
        self.log.push((3000, w.0, w.1));
        self.log.append(&mut m.log);
        self.log.push((3001, crate::real::hash_str(&shown), shown.len()));
        self.eval(ctx, q, w)
      }
      G::Spy(i, p) => {
        self.log.push((*i, w.0, w.1));
        self.eval(ctx, p, w)
      }
      G::SetScope(p) => {
        self.ctxs[ctx].push(Level::default());
        let r = self.eval(ctx, p, w);
        self.ctxs[ctx].pop();
        r
      }
      G::SetScopeDef(d, p) => {
        let key = g as *const G;
        let c = match self.own.iter().find(|x| x.0 == key) {
          Some(x) => x.1,
          None => {
            self.ctxs.push(vec![]);
            let c = self.ctxs.len() - 1;
            self.own.push((key, c));
            for (n, m) in d {
              self.define(c, n, Var::Mat(m));
            }
            c
          }
        };
        self.eval(c, p, w)
      }
      G::Store(n, p) => {
        let r = self.eval(ctx, p, w);
        if let Ok(Res::Tok(t)) = r {
          self.define(ctx, n, Var::Tok(t));
        }
        r
      }
      G::Map(a, b, p) => match self.eval(ctx, p, w) {
        Ok(Res::Tok(t)) | Ok(Res::Proxy(t)) => {
          self.log.push((1000, self.toks[t].mat.0, self.toks[t].mat.1));
          self.on_ok(*a, t, w)
        }
        Ok(r) => Ok(r),
        Err(no) => {
          if !matches!(no, No::Undef(_)) {
            self.log.push((1001, matches!(no, No::Err(..)) as usize, w.0));
          }
          self.on_fail(*b, no, w)
        }
      },
      G::Attrs(a, p) => match self.eval(ctx, p, w)? {
        Res::Tok(t) | Res::Proxy(t) => {
          for (k, v) in a {
            if self.attr(t, k).is_none() {
              self.set_attr(t, k, v.to_string());
            }
          }
          Ok(Res::Tok(t))
        }
        r => Ok(r),
      },
      G::Named(n, p) => match self.eval(ctx, p, w)? {
        Res::Tok(t) | Res::Proxy(t) => {
          self.toks[t].name = n;
          Ok(Res::Tok(t))
        }
        r => Ok(r),
      },
      G::Catch(b, p) => match self.eval(ctx, p, w) {
        Ok(r) => Ok(r),
        Err(no) => {
          if !matches!(no, No::Undef(_)) {
            self.log.push((1002, matches!(no, No::Err(..)) as usize, w.0));
          }
          self.on_fail(*b, no, w)
        }
      },
      G::AssertIf(m, p) => match self.eval(ctx, p, w) {
        Ok(Res::Tok(t)) | Ok(Res::Proxy(t)) => {
          let r = self.toks[t].mat;
          Ok(Res::Tok(self.error_tok(m, r)))
        }
        Err(No::Fail) => Ok(Res::Skip(0)),
        r => r,
      },
      G::AssertIfNot(m, p) => match self.eval(ctx, p, w) {
        Ok(Res::Tok(_)) | Ok(Res::Proxy(_)) => Ok(Res::Skip(0)),
        Err(No::Fail) => Ok(Res::Tok(self.error_tok(m, (w.0, w.0)))),
        r => r,
      },
      G::FatalIf(m, p) => match self.eval(ctx, p, w) {
        Ok(Res::Tok(t)) | Ok(Res::Proxy(t)) => Err(self.fatal(m, self.toks[t].mat)),
        Err(No::Fail) => Ok(Res::Skip(0)),
        r => r,
      },
      G::FatalIfNot(m, p) => match self.eval(ctx, p, w) {
        Ok(Res::Tok(_)) | Ok(Res::Proxy(_)) => Ok(Res::Skip(0)),
        Err(No::Fail) => Err(self.fatal(m, w)),
        r => r,
      },
      G::Prog(_, v) => self.compose(ctx, g.name(), Kind::Prog, v, w),
      G::Switch(_, v) => self.choose(ctx, v, w),
      G::Loop(_, r, v) => self.compose(ctx, g.name(), Kind::Loop(r.min(), r.max()), v, w),
    }
  }

  /// Choice: the first alternative with something to show for.
  fn choose(&mut self, ctx: usize, v: &'g [G], w: Win) -> Out {
    for p in v {
      self.stack.push(w.0);
      let r = self.eval(ctx, p, w);
      self.stack.pop();
      match r {
        Ok(Res::Tok(t)) | Ok(Res::Proxy(t)) if self.toks[t].pin => continue,
        Ok(Res::Skip(n)) if n <= 0 => {
          if n < 0 {
            return Err(No::Undef("negative skip"));
          }
          continue;
        }
        Err(No::Fail) => continue,
        r => return r,
      }
    }
    Err(No::Fail)
  }

  /// Sequence and repetition.
  fn compose(&mut self, ctx: usize, name: S, kind: Kind, v: &'g [G], w: Win) -> Out {
    let me = self.tok(name, (w.0, w.0), (w.0, w.0));
    let mut acc = Acc {
      me,
      from: w.0,
      pos: w.0,
      cap: None,
      mat: None,
      kids: vec![],
    };
    let (is_loop, min, max) = match kind {
      Kind::Prog => (false, 0, 1),
      Kind::Loop(a, b) => (true, a, b),
    };
    let mut count = 0;
    'runs: while count < max {
      let run_start = acc.pos;
      let run_kids = acc.kids.len();
      for p in v {
        self.stack.push(w.0);
        let r = self.eval(ctx, p, (acc.pos, w.1));
        self.stack.pop();
        match r {
          Ok(Res::Tok(t)) => {
            if !self.toks[t].pin {
              let c = p.is_consuming();
              self.add(&mut acc, t, c, c)?;
            }
          }
          Ok(Res::Proxy(t)) => {
            if !self.toks[t].pin {
              self.add_kids(&mut acc, t, p.is_consuming())?;
            }
          }
          Ok(Res::Skip(n)) => {
            if p.is_consuming() {
              self.skip(&mut acc, n)?;
            }
          }
          Err(No::Fail) => {
            if is_loop {
              break 'runs;
            }
            return Err(No::Fail);
          }
          Err(e) => return Err(e),
          Ok(Res::Brk(n, payload)) => {
            self.payload(&mut acc, *payload)?;
            let r = self.close(acc)?;
            if is_loop && (n.is_empty() || n == name) {
              return Ok(r);
            }
            return Ok(Res::Brk(n, Box::new(r)));
          }
          Ok(Res::Cont(n, payload)) => {
            self.payload(&mut acc, *payload)?;
            if is_loop && (n.is_empty() || n == name) {
              break; // on to the next run
            }
            let r = self.close(acc)?;
            return Ok(Res::Cont(n, Box::new(r)));
          }
          Ok(Res::Nothing) => return Err(No::Undef("no result")),
        }
      }
      if is_loop && acc.pos <= run_start {
        // an empty run would go on forever: it stands for as many as are needed
        if acc.kids.len() > run_kids {
          count += 1;
        }
        count = count.max(min);
        break;
      }
      count += 1;
    }
    if is_loop {
      if min == 0 && count == 0 && acc.kids.is_empty() {
        return Ok(Res::Skip(0));
      }
      if count < min {
        return Err(No::Fail);
      }
    }
    self.close(acc)
  }

  fn payload(&mut self, acc: &mut Acc, p: Res) -> Result<(), No> {
    match p {
      Res::Tok(t) => {
        if self.toks[t].pin {
          return Err(No::Undef("pin token as a payload"));
        }
        self.add(acc, t, false, true)
      }
      Res::Proxy(t) => self.add_kids(acc, t, true),
      Res::Skip(n) => self.skip(acc, n),
      _ => Ok(()),
    }
  }

  fn close(&mut self, acc: Acc) -> Out {
    match (acc.cap, acc.mat) {
      (Some(c), Some(m)) if !acc.kids.is_empty() => {
        let t = &mut self.toks[acc.me];
        t.cap = c;
        t.mat = m;
        t.kids = acc.kids;
        Ok(Res::Tok(acc.me))
      }
      _ => Err(No::Fail),
    }
  }

  fn skip(&mut self, acc: &mut Acc, n: isize) -> Result<(), No> {
    if n < 0 {
      return Err(No::Undef("negative skip"));
    }
    acc.pos += n as usize;
    if !self.src.is_char_boundary(acc.pos) {
      return Err(No::Undef("position outside of the source"));
    }
    hull(&mut acc.mat, (acc.from, acc.pos));
    Ok(())
  }

  fn add(&mut self, acc: &mut Acc, t: T, must_move: bool, update: bool) -> Result<(), No> {
    if self.toks[t].error {
      let m = self.toks[t].mat;
      if m.0 == m.1 {
        if let Some(h) = acc.mat {
          self.toks[t].cap = (h.0, m.1);
          self.toks[t].mat = (h.0, m.1);
        }
      }
    } else if must_move && update && self.toks[t].mat.1 == acc.pos {
      let mut errs = vec![];
      self.errors_of(t, &mut errs);
      if errs.is_empty() {
        return Err(No::Undef("a consuming pattern that does not move on"));
      }
    }
    if update {
      hull(&mut acc.cap, self.toks[t].cap);
      hull(&mut acc.mat, self.toks[t].mat);
      acc.pos = self.toks[t].mat.1;
    }
    self.toks[t].parent = Some(acc.me);
    acc.kids.push(t);
    Ok(())
  }

  fn add_kids(&mut self, acc: &mut Acc, x: T, update: bool) -> Result<(), No> {
    if update {
      hull(&mut acc.cap, self.toks[x].cap);
      hull(&mut acc.mat, self.toks[x].mat);
    }
    for k in self.toks[x].kids.clone() {
      if !self.toks[k].pin {
        self.add(acc, k, false, update)?;
      }
    }
    if update {
      acc.pos = self.toks[x].mat.1;
    }
    Ok(())
  }

  // -------------------------------------------------------------- a whole parse

  fn hoist(&mut self, root: T, t: T) {
    for k in self.toks[t].kids.clone() {
      self.hoist(root, k);
    }
    if t != root {
      let (errs, rest): (Vec<T>, Vec<T>) = self.toks[t].kids.iter().partition(|k| self.toks[**k].error);
      for e in &errs {
        self.toks[*e].parent = Some(root);
      }
      self.toks[t].kids = rest;
      self.toks[root].kids.extend(errs);
    }
  }

  pub fn tokenize(&mut self, g: &'g G, w: Win) -> Result<T, No> {
    let t = match self.eval(0, g, w)? {
      Res::Tok(t) | Res::Proxy(t) => t,
      Res::Brk(_, p) | Res::Cont(_, p) => match *p {
        Res::Tok(t) => t,
        _ => return Err(No::Fail),
      },
      _ => return Err(No::Fail),
    };
    self.hoist(t, t);
    Ok(t)
  }
}

enum Kind {
  Prog,
  Loop(usize, usize),
}

struct Acc {
  me: T,
  from: usize,
  pos: usize,
  cap: Option<(usize, usize)>,
  mat: Option<(usize, usize)>,
  kids: Vec<T>,
}
