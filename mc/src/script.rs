//! The script language: a recognizer of its syntax and a translation of what a script means
//! into a grammar. Written from the documented syntax; nothing in here calls the library.
use crate::g::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum M {
  Eq(String),
  /// the text between the slashes, flags
  Re(String, String),
  Seq(String, String, String),
  Name(String),
  Prog(Vec<Pat>),
  Switch(Vec<Pat>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
  Plain,
  Opt,
  Not,
}

#[derive(Clone, Debug)]
pub struct Def {
  pub outer: Mode,
  pub inner: Mode,
  pub m: M,
  pub attrs: Vec<(String, String)>,
  /// minimum, separator, maximum (as they are written)
  pub rep: Option<(String, bool, Option<String>)>,
}

#[derive(Clone, Debug)]
pub struct Pat {
  pub captured: bool,
  pub name: Option<String>,
  pub def: Def,
}

#[derive(Clone, Debug)]
pub enum Entry {
  Import(Vec<(String, Option<String>)>, String),
  Alias(String, String),
  Define(String, Def),
}

#[derive(Clone, Debug, Default)]
pub struct Script {
  pub attrs: Option<Vec<(String, String)>>,
  pub entries: Vec<Entry>,
  pub pats: Vec<Pat>,
}

/// Why a script is not one.
pub type Bad = &'static str;
type R<T> = Result<T, Bad>;

/// What the syntax tree of a script looks like.
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
  pub name: &'static str,
  pub matched: (usize, usize),
  pub captured: (usize, usize),
  /// if it is not the captured text
  pub value: Option<String>,
  pub attrs: Vec<(String, String)>,
  pub kids: Vec<Node>,
}

struct P<'a> {
  s: &'a str,
  i: usize,
  /// the nodes of what has been read, inside of the innermost open one
  t: Vec<Node>,
}

impl<'a> P<'a> {
  fn rest(&self) -> &'a str {
    &self.s[self.i..]
  }
  fn peek(&self) -> Option<char> {
    self.rest().chars().next()
  }
  fn lit(&mut self, x: &str) -> bool {
    let y = self.rest().starts_with(x);
    if y {
      self.i += x.len();
    }
    y
  }
  fn take(&mut self, f: impl Fn(char) -> bool) -> &'a str {
    let r = self.rest();
    let n = r.find(|c| !f(c)).unwrap_or(r.len());
    self.i += n;
    &r[..n]
  }
  /// spaces, also line breaks
  fn ws(&mut self) -> usize {
    self.take(|c| c.is_whitespace()).len()
  }
  /// spaces in a line
  fn sp(&mut self) {
    self.take(|c| c.is_whitespace() && c != '\n' && c != '\r');
  }
  fn back<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
    let (at, n) = (self.i, self.t.len());
    let r = f(self);
    if r.is_err() {
      self.i = at;
      self.t.truncate(n);
    }
    r
  }
  /// All that `f` reads as one node.
  fn node<T>(&mut self, name: &'static str, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
    let from = self.i;
    let outer = std::mem::take(&mut self.t);
    let r = f(self);
    let kids = std::mem::replace(&mut self.t, outer);
    if r.is_ok() {
      let spans = || kids.iter().filter(|k| k.name != "EndOfScopeHeader");
      self.t.push(Node {
        name,
        matched: (from, self.i),
        captured: (spans().map(|k| k.captured.0).min().unwrap_or(from), spans().map(|k| k.captured.1).max().unwrap_or(self.i)),
        value: None,
        attrs: vec![],
        kids,
      });
    }
    r
  }
  fn leaf(&mut self, name: &'static str, from: usize) {
    self.t.push(Node {
      name,
      matched: (from, self.i),
      captured: (from, self.i),
      value: None,
      attrs: vec![],
      kids: vec![],
    });
  }
  fn lit_as(&mut self, x: &str, name: &'static str) -> bool {
    let from = self.i;
    let y = self.lit(x);
    if y {
      self.leaf(name, from);
    }
    y
  }

  fn ident(&mut self, name: &'static str) -> R<String> {
    match self.peek() {
      Some(c) if c.is_ascii_alphabetic() || c == '$' || c == '_' => {
        let from = self.i;
        let v = self.take(|c| c.is_ascii_alphanumeric() || c == '$' || c == '_').to_string();
        self.leaf(name, from);
        Ok(v)
      }
      _ => Err("no identifier"),
    }
  }

  fn string(&mut self, name: &'static str) -> R<String> {
    let from = self.i;
    self.back(|p| {
      if !p.lit("'") {
        return Err("no string");
      }
      let mut v = String::new();
      loop {
        if p.lit("'") {
          p.t.push(Node {
            name,
            matched: (from, p.i),
            captured: (from + 1, p.i - 1),
            value: Some(v.clone()),
            attrs: vec![],
            kids: vec![],
          });
          return Ok(v);
        }
        p.lit("\\");
        match p.peek() {
          None => return Err("unclosed string"),
          Some(c) => {
            v.push(c);
            p.i += c.len_utf8();
          }
        }
      }
    })
  }

  fn attr(&mut self) -> R<Option<(String, String)>> {
    let from = self.i;
    let k = self.take(|c| crate::rx::word_char(c) || c == '+').to_string();
    if k.is_empty() {
      return Ok(None);
    }
    self.leaf("Name", from);
    self.sp();
    if !self.lit("=") {
      return Ok(None);
    }
    self.sp();
    let value = match self.string("Value") {
      Ok(x) => x,
      Err(_) => return Ok(None),
    };
    if k.starts_with('_') {
      return Err("attribute name starts with an underscore");
    }
    Ok(Some((k, value)))
  }

  fn attrs(&mut self) -> R<Vec<(String, String)>> {
    let mut v = vec![];
    let n = self.t.len();
    self.node("Attributes", |p| {
      loop {
        let (at, n) = (p.i, p.t.len());
        match p.node("Attribute", |p| p.attr())? {
          Some(x) => v.push(x),
          None => {
            p.i = at;
            p.t.truncate(n);
            break;
          }
        }
        p.ws();
      }
      Ok(())
    })?;
    if v.is_empty() {
      self.t.truncate(n);
    }
    Ok(v)
  }

  fn regex(&mut self) -> R<M> {
    let r = self.node("RegexMatcher", |p| p.regex_body());
    if let Ok(M::Re(body, _)) = &r {
      self.t.last_mut().unwrap().value = Some(body.clone());
    }
    r
  }

  fn regex_body(&mut self) -> R<M> {
    self.back(|p| {
      if !p.lit("/") {
        return Err("no regex");
      }
      let from = p.i;
      loop {
        p.take(|c| c != '/' && c != '\\' && c != '[');
        match p.peek() {
          Some('\\') => {
            p.i += 1;
            match p.peek() {
              None | Some('\n') => return Err("bad escape"),
              Some(c) => p.i += c.len_utf8(),
            }
          }
          Some('/') => {
            let body = p.s[from..p.i].to_string();
            p.i += 1;
            let f = p.take(|c| "imsU".contains(c)).to_string();
            return Ok(M::Re(body, f));
          }
          Some('[') => {
            p.i += 1;
            loop {
              if p.lit("]") {
                break;
              }
              p.lit("\\");
              match p.peek() {
                None => return Err("unclosed class"),
                Some(c) => p.i += c.len_utf8(),
              }
            }
          }
          _ => return Err("unclosed regex"),
        }
      }
    })
  }

  fn matcher(&mut self) -> R<M> {
    match self.peek() {
      Some('/') => self.regex(),
      Some('=') => {
        self.node("EqualsMatcher", |p| {
          p.i += 1;
          Ok(M::Eq(p.string("String")?))
        })
      }
      Some('%') => self.node("SequenceMatcher", |p| {
        p.i += 1;
        let mut v = vec![];
        for (k, name) in ["StartPattern", "EndPattern", "EscapePattern"].into_iter().enumerate() {
          p.ws();
          if k > 0 {
            if !p.lit(",") {
              return Err("no comma");
            }
            p.ws();
          }
          v.push(p.string(name)?);
        }
        let e = v.pop().unwrap();
        let b = v.pop().unwrap();
        Ok(M::Seq(v.pop().unwrap(), b, e))
      }),
      Some('[') => self.node("SwitchMatcher", |p| {
        p.i += 1;
        let mut v = vec![];
        loop {
          p.ws();
          match p.pattern() {
            Ok(x) => v.push(x),
            Err(_) => break,
          }
          p.ws();
          if !p.lit("|") {
            break;
          }
        }
        p.ws();
        if !p.lit("]") || v.is_empty() {
          return Err("bad choice");
        }
        Ok(M::Switch(v))
      }),
      Some('{') => self.node("ProgramMatcher", |p| {
        p.i += 1;
        let mut v = vec![];
        loop {
          p.ws();
          match p.pattern() {
            Ok(x) => v.push(x),
            Err(_) => break,
          }
        }
        if !p.lit("}") || v.is_empty() {
          return Err("bad program");
        }
        Ok(M::Prog(v))
      }),
      _ => self.node("CustomMatcher", |p| Ok(M::Name(p.ident("Identifier")?))),
    }
  }

  fn mode(&mut self, opt: &'static str, not: &'static str) -> Mode {
    if self.lit_as("?", opt) {
      Mode::Opt
    } else if self.lit_as("!", not) {
      Mode::Not
    } else {
      Mode::Plain
    }
  }

  fn def(&mut self) -> R<Def> {
    self.back(|p| {
      let d = p.node("PatternDefinition", |p| {
        let outer = p.mode("OuterOptionalModifier", "OuterNotModifier");
        if !p.lit("<") {
          return Err("no pattern");
        }
        let inner = p.mode("InnerOptionalModifier", "InnerNotModifier");
        p.ws();
        let m = p.matcher()?;
        p.ws();
        let attrs = p.attrs()?;
        if !p.lit(">") {
          return Err("unclosed pattern");
        }
        Ok(Def {
          outer,
          inner,
          m,
          attrs,
          rep: p.rep(),
        })
      })?;
      p.t.last_mut().unwrap().attrs = d.attrs.clone();
      Ok(d)
    })
  }

  fn rep(&mut self) -> Option<(String, bool, Option<String>)> {
    if self.lit_as("*", "RepeatZeroOrMore") {
      return Some(("0".into(), true, None));
    }
    if self.lit_as("+", "RepeatOneOrMore") {
      return Some(("1".into(), true, None));
    }
    self
      .back(|p| {
        p.node("RepeatRange", |p| {
          if !p.lit("{") {
            return Err("");
          }
          p.sp();
          let at = p.i;
          let a = p.take(|c| c.is_ascii_digit()).to_string();
          if a.is_empty() {
            return Err("");
          }
          p.leaf("Minimum", at);
          p.sp();
          let comma = p.lit_as(",", "Seperator");
          p.sp();
          let at = p.i;
          let b = p.take(|c| c.is_ascii_digit()).to_string();
          if !b.is_empty() {
            p.leaf("Maximum", at);
          }
          p.sp();
          if !p.lit("}") {
            return Err("");
          }
          Ok((a, comma, if b.is_empty() { None } else { Some(b) }))
        })
      })
      .ok()
  }

  fn pattern(&mut self) -> R<Pat> {
    if self.peek() != Some('(') {
      return Ok(Pat {
        captured: false,
        name: None,
        def: self.def()?,
      });
    }
    self.back(|p| {
      p.node("PatternDefinitionCaptured", |p| {
        p.i += 1;
        p.ws();
        let name = p
          .back(|p| p.node("MatcherName", |p| if p.lit("?") { p.string("Name") } else { Err("no name") }))
          .ok();
        p.ws();
        let def = p.def()?;
        p.ws();
        if !p.lit(")") {
          return Err("unclosed capture");
        }
        Ok(Pat {
          captured: true,
          name,
          def,
        })
      })
    })
  }

  fn comment(&mut self) -> bool {
    let from = self.i;
    let c = self.peek() == Some('#');
    if c {
      self.take(|c| c != '\n' && c != '\r');
      self.leaf("Comment", from);
    }
    c
  }

  fn import(&mut self) -> R<Entry> {
    self.back(|p| {
      p.node("ImportStatement", |p| {
        if !p.lit("import") {
          return Err("no import");
        }
        p.sp();
        let mut v = vec![];
        p.node("ImportIdentifiers", |p| {
          if !p.lit("{") {
            return Err("no list");
          }
          loop {
            p.ws();
            if p.lit("}") {
              break;
            }
            let x = p.node("ImportIdentifier", |p| {
              let n = p.ident("ImportName")?;
              let to = p
                .back(|p| {
                  if p.ws() > 0 && p.lit("as") && p.ws() > 0 {
                    p.ident("ImportAsName")
                  } else {
                    Err("")
                  }
                })
                .ok();
              p.lit(",");
              Ok((n, to))
            })?;
            v.push(x);
          }
          if v.is_empty() {
            return Err("empty list");
          }
          Ok(())
        })?;
        p.sp();
        if !p.lit("from") {
          return Err("no from");
        }
        p.sp();
        Ok(Entry::Import(v, p.string("Path")?))
      })
    })
  }

  fn assignment(&mut self) -> R<Entry> {
    self.back(|p| {
      p.node("AssignmentExpression", |p| {
        let n = p.ident("Identifier")?;
        p.ws();
        if !p.lit("=") {
          return Err("no assignment");
        }
        p.ws();
        Ok(match p.ident("Identifier") {
          Ok(x) => Entry::Alias(n, x),
          Err(_) => Entry::Define(n, p.def()?),
        })
      })
    })
  }

  fn script(&mut self) -> R<Script> {
    self.node("Script", |p| p.script_body())
  }

  fn script_body(&mut self) -> R<Script> {
    let mut out = Script::default();
    let n = self.t.len();
    self.node("PreHead", |p| {
      loop {
        let at = p.i;
        p.ws();
        if !p.comment() {
          p.i = at;
          return Ok(());
        }
      }
    })?;
    if self.t.last().unwrap().kids.is_empty() {
      self.t.truncate(n);
    }
    self.ws();
    if self.rest().starts_with("<!--[adextopa") {
      self.node("AdextopaScope", |p| p.scope(&mut out))?;
      self.t.last_mut().unwrap().attrs = out.attrs.clone().unwrap();
    }
    let n = self.t.len();
    self.node("PatternScope", |p| {
      loop {
        p.ws();
        if p.comment() {
        } else if p.i == p.s.len() {
          return Ok(());
        } else {
          out.pats.push(p.pattern()?);
        }
      }
    })?;
    if self.t.last().unwrap().kids.is_empty() {
      self.t.truncate(n);
    }
    if out.attrs.is_none() && out.pats.is_empty() {
      return Err("nothing to parse");
    }
    Ok(out)
  }

  fn scope(&mut self, out: &mut Script) -> R<()> {
    self.lit("<!--[adextopa");
    self.sp();
    out.attrs = Some(self.attrs()?);
    if !self.lit("]") {
      return Err("unclosed header");
    }
    self.leaf("EndOfScopeHeader", self.i);
    let n = self.t.len();
    self.node("Scope", |p| {
      loop {
        p.ws();
        if p.comment() {
          continue;
        }
        match p.import().or_else(|_| p.assignment()) {
          Ok(e) => out.entries.push(e),
          Err(_) => return Ok(()),
        }
      }
    })?;
    if self.t.last().unwrap().kids.is_empty() {
      self.t.truncate(n);
    }
    self.ws();
    if !self.lit("-->") {
      return Err("unclosed scope");
    }
    Ok(())
  }
}

/// The syntax of a script.
pub fn parse(s: &str) -> R<Script> {
  P { s, i: 0, t: vec![] }.script()
}

/// A part of the language by its name: its tree and how much of the text it is.
pub fn part(what: &str, s: &str) -> R<(Option<Node>, usize)> {
  let mut p = P { s, i: 0, t: vec![] };
  match what {
    "Identifier" => p.ident("Identifier").map(|_| ()),
    "String" => p.string("String").map(|_| ()),
    "Comment" => p.comment().then_some(()).ok_or(""),
    "RepeatSpecifier" => p.rep().map(|_| ()).ok_or(""),
    "MatcherName" => p.node("MatcherName", |p| if p.lit("?") { p.string("Name").map(|_| ()) } else { Err("") }),
    "EqualsMatcher" if !s.starts_with('=') => Err(""),
    "SequenceMatcher" if !s.starts_with('%') => Err(""),
    "RegexMatcher" if !s.starts_with('/') => Err(""),
    "SwitchMatcher" if !s.starts_with('[') => Err(""),
    "ProgramMatcher" if !s.starts_with('{') => Err(""),
    "EqualsMatcher" | "SequenceMatcher" | "RegexMatcher" | "SwitchMatcher" | "ProgramMatcher" => p.matcher().map(|_| ()),
    "CustomMatcher" => p.node("CustomMatcher", |p| p.ident("Identifier").map(|_| ())),
    "ImportStatement" => p.import().map(|_| ()),
    "AssignmentExpression" => p.assignment().map(|_| ()),
    "AdextopaScope" => {
      if !s.starts_with("<!--[adextopa") {
        return Err("");
      }
      let mut out = Script::default();
      let r = p.node("AdextopaScope", |p| p.scope(&mut out));
      if r.is_ok() {
        p.t.last_mut().unwrap().attrs = out.attrs.clone().unwrap();
      }
      r
    }
    "Pattern" => p.pattern().map(|_| ()),
    "PatternDefinition" => p.def().map(|_| ()),
    "Attribute" => match p.node("Attribute", |p| p.attr()) {
      Ok(Some(_)) => Ok(()),
      _ => Err(""),
    },
    _ => unreachable!("{}", what),
  }?;
  Ok((p.t.pop(), p.i))
}

/// Files by path; directories are the prefixes of the paths. `-> path` is a link.
pub type Files = BTreeMap<String, String>;

/// What a script compiles to: its pattern and what can be imported from it.
#[derive(Clone, Debug)]
pub struct Compiled {
  pub root: G,
  pub defs: Vec<(S, G)>,
}

fn define(v: &mut Vec<(S, G)>, n: S, g: G) {
  v.retain(|e| e.0 != n);
  v.push((n, g));
}

/// The path of a file a script names, relative to the directory of the script.
pub fn resolve(files: &Files, from: &str, path: &str) -> Option<String> {
  let mut at: Vec<&str> = from.split('/').collect();
  at.pop();
  let parts: Vec<&str> = path.split('/').collect();
  for (k, p) in parts.iter().enumerate() {
    match *p {
      "." => {}
      "" if k + 1 < parts.len() && k > 0 => {}
      "" => return None,
      ".." => {
        at.pop()?;
      }
      p => at.push(p),
    }
    let here = at.join("/");
    if k + 1 < parts.len() && !here.is_empty() && !files.keys().any(|f| f.starts_with(&format!("{}/", here))) {
      return None;
    }
  }
  let full = at.join("/");
  let text = files.get(&full)?;
  Some(match text.strip_prefix("-> ") {
    Some(target) => target.to_string(),
    None => full,
  })
}

/// Compiles a script that is not in a file.
pub fn compile_str(s: &str, name: &str) -> R<Compiled> {
  translate(&parse(s)?, name, None, &mut vec![])
}

/// Compiles a file; `shown` is the name it is opened by.
pub fn compile_file(files: &Files, path: &str, shown: &dyn Fn(&str) -> String, open: &mut Vec<String>) -> R<Compiled> {
  if open.iter().any(|p| p == path) {
    return Err("circular import");
  }
  let text = files.get(path).ok_or("no such file")?;
  let s = parse(text)?;
  open.push(path.to_string());
  let r = translate(&s, &shown(path), Some((files, path, shown)), open);
  open.pop();
  r
}

type From<'a> = (&'a Files, &'a str, &'a dyn Fn(&str) -> String);

fn translate(s: &Script, name: &str, from: Option<From>, open: &mut Vec<String>) -> R<Compiled> {
  let mut root = leak(name);
  if let Some(attrs) = &s.attrs {
    let last = |k: &str| attrs.iter().rev().find(|a| a.0 == k).map(|a| &a.1);
    last("version").ok_or("no version")?.parse::<usize>().map_err(|_| "bad version")?;
    if let Some(n) = last("name") {
      root = leak(n);
    }
  }
  let mut defs = vec![];
  for e in &s.entries {
    match e {
      Entry::Alias(a, b) => define(&mut defs, leak(a), G::Ref(leak(b))),
      Entry::Define(n, d) => {
        let n = leak(n);
        define(&mut defs, n, def_g(d, Some(n))?);
      }
      Entry::Import(names, path) => {
        let (files, me, shown) = from.ok_or("import in a script that is not a file")?;
        let full = resolve(files, me, path).ok_or("no such file")?;
        let c = compile_file(files, &full, shown, open)?;
        for (n, to) in names {
          let to_s = leak(to.as_ref().unwrap_or(n));
          if n == "_" {
            if to_s == "_" {
              return Err("the root has to be named");
            }
            let g = match &c.root {
              G::Prog(_, v) => G::Prog(Some(to_s), v.clone()),
              _ => unreachable!(),
            };
            define(&mut defs, to_s, g);
          } else {
            let g = c.defs.iter().find(|d| d.0 == n).ok_or("not found")?.1.clone();
            define(
              &mut defs,
              to_s,
              G::SetScopeDef(c.defs.clone(), Box::new(G::Named(to_s, Box::new(g)))),
            );
          }
        }
      }
    }
  }
  let pats = s.pats.iter().map(pat_g).collect::<R<Vec<G>>>()?;
  Ok(Compiled {
    root: G::Prog(
      Some(root),
      vec![G::SetScopeDef(defs.clone(), Box::new(flat(prog(pats))))],
    ),
    defs,
  })
}

thread_local! {
  static CAPTURES: std::cell::Cell<Option<S>> = std::cell::Cell::new(None);
}

/// What a script means when all captures it names get one name (what the library does: see the
/// known findings).
pub fn with_captures_named<T>(name: S, f: impl FnOnce() -> T) -> T {
  CAPTURES.with(|c| c.set(Some(name)));
  let r = f();
  CAPTURES.with(|c| c.set(None));
  r
}

fn pat_g(p: &Pat) -> R<G> {
  let one = CAPTURES.with(|c| c.get());
  let g = def_g(&p.def, p.name.as_ref().map(|n| one.unwrap_or_else(|| leak(n))))?;
  Ok(if p.captured { g } else { disc(g) })
}

fn unescape_slashes(s: &str) -> String {
  let mut o = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c != '\\' {
      o.push(c);
      continue;
    }
    match it.next() {
      Some('/') => o.push('/'),
      Some(x) => {
        o.push('\\');
        o.push(x);
      }
      None => o.push('\\'),
    }
  }
  o
}

fn def_g(d: &Def, name: Option<S>) -> R<G> {
  let mut g = match &d.m {
    M::Eq(s) => {
      if s.is_empty() {
        return Err("empty literal");
      }
      let s = leak(s);
      name.map_or(G::Eq(s), |n| G::EqN(n, s))
    }
    M::Re(body, flags) => {
      if body.is_empty() {
        return Err("empty regex");
      }
      let mut r = unescape_slashes(body);
      if !flags.is_empty() {
        r = format!("(?{}){}", flags, r);
      }
      if regex::Regex::new(&r).is_err() {
        return Err("bad regex");
      }
      let r = leak(&r);
      name.map_or(G::Re(r), |n| G::ReN(n, r))
    }
    M::Seq(a, b, e) => {
      if a.is_empty() || b.is_empty() {
        return Err("empty delimiter");
      }
      let (a, b, e) = (leak(a), leak(b), leak(e));
      name.map_or(G::Seq(a, b, e), |n| G::SeqN(n, a, b, e))
    }
    M::Name(t) => {
      let t = leak(t);
      name.map_or(G::Ref(t), |n| G::RefN(n, t))
    }
    M::Prog(v) => G::Prog(name, v.iter().map(pat_g).collect::<R<Vec<G>>>()?),
    M::Switch(v) => G::Switch(name, v.iter().map(pat_g).collect::<R<Vec<G>>>()?),
  };
  if !d.attrs.is_empty() {
    let mut a: Vec<(S, S)> = vec![];
    for (k, v) in &d.attrs {
      a.retain(|x| x.0 != k);
      a.push((leak(k), leak(v)));
    }
    g = G::Attrs(a, Box::new(g));
  }
  g = wrap(d.inner, g);
  if let Some((a, comma, b)) = &d.rep {
    let num = |s: &str| s.parse::<usize>().map_err(|_| "bad bound");
    let a = num(a)?;
    let b = match b {
      None => None,
      Some(b) => Some(num(b)?),
    };
    let r = match (comma, b) {
      (true, None) => Rng::Half(a, usize::MAX),
      (true, Some(b)) if a <= b => Rng::Half(a, b),
      (true, Some(_)) => return Err("reversed bounds"),
      (false, None) => Rng::Half(0, a),
      (false, Some(_)) => return Err("bounds without a comma"),
    };
    g = lpr(r, vec![g]);
  }
  Ok(wrap(d.outer, g))
}

fn wrap(m: Mode, g: G) -> G {
  match m {
    Mode::Plain => g,
    Mode::Opt => opt(g),
    Mode::Not => not(g),
  }
}
