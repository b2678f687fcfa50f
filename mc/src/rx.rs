//! A small backtracking matcher for the regular expressions the enumerated grammars use. It is
//! the oracle for `Matches`: independent of the `regex` crate, leftmost-first like it, and only
//! ever asked for a match that begins at the start of the given text.

#[derive(Debug, Clone)]
enum N {
  Ch(char),
  Any,
  Class(bool, Vec<Item>),
  Rep(Box<N>, usize, usize, bool),
  Cat(Vec<N>),
  Alt(Vec<N>),
  Start,
  End,
  /// a boundary of a word, or none
  Bound(bool),
}

#[derive(Debug, Clone)]
enum Item {
  R(char, char),
  Digit(bool),
  Space(bool),
  Word(bool),
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Flags {
  i: bool,
  m: bool,
  s: bool,
  u: bool,
}

#[derive(Debug, Clone)]
pub struct Rx {
  n: N,
  f: Flags,
}

struct P<'a> {
  s: Vec<char>,
  i: usize,
  swap: bool,
  _src: &'a str,
}

/// A problem in the expression (the script language has to report it).
pub type Bad = &'static str;

impl<'a> P<'a> {
  fn peek(&self) -> Option<char> {
    self.s.get(self.i).copied()
  }
  fn alt(&mut self) -> Result<N, Bad> {
    let mut v = vec![self.cat()?];
    while self.peek() == Some('|') {
      self.i += 1;
      v.push(self.cat()?);
    }
    Ok(if v.len() == 1 { v.pop().unwrap() } else { N::Alt(v) })
  }
  fn cat(&mut self) -> Result<N, Bad> {
    let mut v = vec![];
    while let Some(c) = self.peek() {
      if c == '|' || c == ')' {
        break;
      }
      let mut n = self.atom()?;
      loop {
        let (lo, hi) = match self.peek() {
          Some('*') => (0, usize::MAX),
          Some('+') => (1, usize::MAX),
          Some('?') => (0, 1),
          Some('{') => {
            let mut j = self.i + 1;
            let mut t = String::new();
            while j < self.s.len() && self.s[j] != '}' {
              t.push(self.s[j]);
              j += 1;
            }
            if j >= self.s.len() {
              return Err("unclosed counted repetition");
            }
            let parts: Vec<&str> = t.split(',').map(|x| x.trim()).collect();
            let lo = parts[0].parse::<usize>().map_err(|_| "bad count")?;
            let hi = if parts.len() == 1 {
              lo
            } else if parts[1].is_empty() {
              usize::MAX
            } else {
              parts[1].parse::<usize>().map_err(|_| "bad count")?
            };
            if hi < lo {
              return Err("reversed count");
            }
            self.i = j;
            (lo, hi)
          }
          _ => break,
        };
        self.i += 1;
        let mut greedy = true;
        if self.peek() == Some('?') {
          self.i += 1;
          greedy = false;
        }
        if self.swap {
          greedy = !greedy;
        }
        n = N::Rep(Box::new(n), lo, hi, greedy);
      }
      v.push(n);
    }
    Ok(N::Cat(v))
  }
  fn escape(c: char) -> Result<Item, Bad> {
    Ok(match c {
      'd' => Item::Digit(true),
      'D' => Item::Digit(false),
      's' => Item::Space(true),
      'S' => Item::Space(false),
      'w' => Item::Word(true),
      'W' => Item::Word(false),
      'n' => Item::R('\n', '\n'),
      'r' => Item::R('\r', '\r'),
      't' => Item::R('\t', '\t'),
      c if c.is_ascii_punctuation() && !"/'\"%,;:<>=@_`!".contains(c) => Item::R(c, c),
      _ => return Err("unknown escape"),
    })
  }
  fn atom(&mut self) -> Result<N, Bad> {
    let c = self.peek().unwrap();
    self.i += 1;
    Ok(match c {
      '.' => N::Any,
      '^' => N::Start,
      '$' => N::End,
      '(' => {
        if self.peek() == Some('?') {
          if self.s.get(self.i + 1) == Some(&':') {
            self.i += 2;
          } else {
            return Err("unsupported group");
          }
        }
        let n = self.alt()?;
        if self.peek() != Some(')') {
          return Err("unclosed group");
        }
        self.i += 1;
        n
      }
      ')' => return Err("unopened group"),
      '*' | '+' | '?' | '{' => return Err("repetition of nothing"),
      '[' => {
        let mut neg = false;
        if self.peek() == Some('^') {
          neg = true;
          self.i += 1;
        }
        let mut items = vec![];
        let mut first = true;
        loop {
          let c = self.peek().ok_or("unclosed class")?;
          self.i += 1;
          if c == ']' && !first {
            break;
          }
          first = false;
          if "&-~".contains(c) && self.peek() == Some(c) {
            return Err("class operator");
          }
          let item = if c == '\\' {
            let e = self.peek().ok_or("trailing escape")?;
            self.i += 1;
            Self::escape(e)?
          } else if c == '[' {
            return Err("nested class");
          } else {
            Item::R(c, c)
          };
          if let Item::R(a, _) = item {
            if self.peek() == Some('-') && self.s.get(self.i + 1).map_or(false, |c| *c != ']') {
              let mut b = self.s[self.i + 1];
              if b == '-' {
                return Err("class operator");
              }
              self.i += 2;
              if b == '\\' {
                let e = self.peek().ok_or("trailing escape")?;
                self.i += 1;
                b = match Self::escape(e)? {
                  Item::R(b, _) => b,
                  _ => return Err("class in range"),
                };
              }
              if b < a {
                return Err("reversed range");
              }
              items.push(Item::R(a, b));
              continue;
            }
          }
          items.push(item);
        }
        N::Class(neg, items)
      }
      '\\' => {
        let e = self.peek().ok_or("trailing escape")?;
        self.i += 1;
        if e == 'b' || e == 'B' {
          N::Bound(e == 'b')
        } else {
        match Self::escape(e)? {
          Item::R(c, _) => N::Ch(c),
          i => N::Class(false, vec![i]),
        }
        }
      }
      c => N::Ch(c),
    })
  }
}

impl Rx {
  pub fn new(pat: &str) -> Result<Rx, Bad> {
    let mut f = Flags::default();
    let mut body = pat;
    if let Some(rest) = pat.strip_prefix("(?") {
      if let Some(p) = rest.find(')') {
        let fl = &rest[..p];
        if !fl.is_empty() && fl.chars().all(|c| "imsU".contains(c)) {
          for c in fl.chars() {
            let b = match c {
              'i' => &mut f.i,
              'm' => &mut f.m,
              's' => &mut f.s,
              _ => &mut f.u,
            };
            if *b {
              return Err("duplicate flag");
            }
            *b = true;
          }
          body = &rest[p + 1..];
        }
      }
    }
    let mut p = P {
      s: body.chars().collect(),
      i: 0,
      swap: f.u,
      _src: pat,
    };
    let n = p.alt()?;
    if p.i < p.s.len() {
      return Err("unopened group");
    }
    Ok(Rx { n, f })
  }

  /// Does nothing repeat a pattern without end that can match the empty text? (Engines differ
  /// in which of the possible extents such an expression takes.)
  pub fn tame(&self) -> bool {
    fn empty(n: &N) -> bool {
      match n {
        N::Ch(_) | N::Any | N::Class(..) => false,
        N::Start | N::End | N::Bound(_) => true,
        N::Rep(n, lo, _, _) => *lo == 0 || empty(n),
        N::Cat(v) => v.iter().all(empty),
        N::Alt(v) => v.iter().any(empty),
      }
    }
    fn tame(n: &N) -> bool {
      match n {
        N::Rep(n, _, hi, _) => tame(n) && (*hi != usize::MAX || !empty(n)),
        N::Cat(v) | N::Alt(v) => v.iter().all(tame),
        _ => true,
      }
    }
    tame(&self.n)
  }

  /// Length in bytes of the match that begins at the start of `text`.
  pub fn at_start(&self, text: &str) -> Option<usize> {
    // (the model may be slow: what is watched for hangs is the library)
    crate::beat();
    let mut end = None;
    let mut k = |i: usize| {
      end = Some(i);
      true
    };
    m(&self.n, self.f, text, 0, &mut k);
    end
  }
}

fn fold(c: char) -> char {
  c.to_lowercase().next().unwrap_or(c)
}

fn class(neg: bool, items: &[Item], f: Flags, c: char) -> bool {
  let one = |c: char| {
    items.iter().any(|i| match i {
      Item::R(a, b) => {
        (*a <= c && c <= *b)
          || (f.i && {
            let l = fold(c);
            let u = c.to_uppercase().next().unwrap_or(c);
            (*a <= l && l <= *b) || (*a <= u && u <= *b)
          })
      }
      Item::Digit(p) => c.is_ascii_digit() == *p,
      Item::Space(p) => c.is_whitespace() == *p,
      Item::Word(p) => word_char(c) == *p,
    })
  };
  one(c) != neg
}

fn m(n: &N, f: Flags, t: &str, i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
  let next = t[i..].chars().next();
  match n {
    N::Ch(c) => match next {
      Some(d) if d == *c || (f.i && fold(d) == fold(*c)) => k(i + d.len_utf8()),
      _ => false,
    },
    N::Any => match next {
      Some(d) if f.s || d != '\n' => k(i + d.len_utf8()),
      _ => false,
    },
    N::Class(neg, items) => match next {
      Some(d) if class(*neg, items, f, d) => k(i + d.len_utf8()),
      _ => false,
    },
    N::Start => (i == 0 || (f.m && t[..i].ends_with('\n'))) && k(i),
    N::End => (i == t.len() || (f.m && t[i..].starts_with('\n'))) && k(i),
    N::Bound(yes) => {
      let word = |c: Option<char>| c.map_or(false, word_char);
      (word(t[..i].chars().next_back()) != word(next)) == *yes && k(i)
    }
    N::Cat(v) => cat(v, f, t, i, k),
    N::Alt(v) => v.iter().any(|n| m(n, f, t, i, k)),
    N::Rep(n, lo, hi, greedy) => rep(n, *lo, *hi, *greedy, f, t, i, k),
  }
}

fn cat(v: &[N], f: Flags, t: &str, i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
  match v.split_first() {
    None => k(i),
    Some((h, rest)) => m(h, f, t, i, &mut |j| cat(rest, f, t, j, k)),
  }
}

#[allow(clippy::too_many_arguments)]
fn rep(n: &N, lo: usize, hi: usize, greedy: bool, f: Flags, t: &str, i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
  if matches!(n, N::Ch(_) | N::Any | N::Class(..)) {
    // of one character: no recursion, however long the text is
    let mut ends = vec![i];
    let mut step = |ends: &mut Vec<usize>| {
      ends.len() <= hi && {
        let mut e = None;
        m(n, f, t, *ends.last().unwrap(), &mut |j| {
          e = Some(j);
          true
        });
        ends.extend(e);
        e.is_some()
      }
    };
    if greedy {
      while step(&mut ends) {}
      return ends.len() > lo && ends[lo..].iter().rev().any(|e| k(*e));
    }
    while ends.len() <= lo {
      if !step(&mut ends) {
        return false;
      }
    }
    loop {
      if k(*ends.last().unwrap()) {
        return true;
      }
      if !step(&mut ends) {
        return false;
      }
    }
  }
  if lo > 0 {
    return m(n, f, t, i, &mut |j| {
      rep(n, lo - 1, if hi == usize::MAX { hi } else { hi - 1 }, greedy, f, t, j, k)
    });
  }
  if hi == 0 {
    return k(i);
  }
  let more = |k: &mut dyn FnMut(usize) -> bool| {
    m(n, f, t, i, &mut |j| {
      (j > i || hi != usize::MAX) && rep(n, 0, if hi == usize::MAX { hi } else { hi - 1 }, greedy, f, t, j, k)
    })
  };
  if greedy {
    more(k) || k(i)
  } else {
    k(i) || more(k)
  }
}

/// A character of a word, as Unicode has it (letters, marks, digits, connectors).
pub fn word_char(c: char) -> bool {
  thread_local! {
    static WORD: regex::Regex = regex::Regex::new(r"^\w$").unwrap();
  }
  if c.is_ascii() {
    return c.is_ascii_alphanumeric() || c == '_';
  }
  let mut b = [0; 4];
  WORD.with(|w| w.is_match(c.encode_utf8(&mut b)))
}
