//! Properties decided on all operation histories over the objects of the library.
use crate::g::leak;
use crate::gen::*;
use crate::model;
use crate::real::{guarded, mix};
use crate::space::*;
use adextopa_core::matcher::MatcherRef;
use adextopa_core::matchers::pin::PinToken;
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::ParserContext;
use adextopa_core::scope::{Scope, ScopeRef, VariableType};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef, IS_ERROR, IS_FAILURE, IS_WARNING};
use adextopa_core::token_visitor::TokenVisitor;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

type Spaces = Vec<Box<dyn Space>>;
pub type Chk = Result<(), String>;

macro_rules! same {
  ($what:expr, $exp:expr, $got:expr) => {
    if ($exp) != ($got) {
      return Err(format!("{}: expected {:?}, got {:?}", $what, $exp, $got));
    }
  };
}

pub fn hash_str(s: &str) -> u64 {
  s.bytes().fold(7, |h, b| mix(h, b as u64))
}

/// A space of words over an alphabet of operations.
pub fn histories(
  name: &str,
  ops: Vec<&'static str>,
  min: usize,
  max: usize,
  run: impl Fn(&[usize], &mut Stats) -> Chk + 'static,
) -> Box<dyn Space> {
  let k = ops.len() as u64;
  let first = if min == 0 { 0 } else { words(k, min - 1) };
  let ops2 = ops.clone();
  let show = move |i: u64| -> String {
    let w = word(k, i + first);
    w.iter().map(|x| ops2[*x]).collect::<Vec<_>>().join("; ")
  };
  let show2 = show.clone();
  Box::new(Cases {
    name: name.to_string(),
    len: words(k, max) - first,
    run: Box::new(move |i, st, beat| {
      beat();
      let w = word(k, i + first);
      st.traces += 1;
      st.transitions += w.len() as u64;
      match guarded(|| run(&w, st)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(d)) => Err(Violation {
          case: show(i),
          detail: d,
        }),
        Err(p) => Err(Violation {
          case: show(i),
          detail: format!("it panicked: {}", p),
        }),
      }
    }),
    describe: Box::new(show2),
  })
}

fn q(n: usize, deep: usize, d: bool) -> usize {
  if d {
    deep
  } else {
    n
  }
}

// ------------------------------------------------------------------ C11: scope objects

fn show_var(v: &Option<VariableType>, tok: &TokenRef, mat: &MatcherRef) -> String {
  match v {
    None => "none".into(),
    Some(VariableType::String(s)) => format!("s:{}", s),
    Some(VariableType::Token(t)) => (if Rc::ptr_eq(t, tok) { "token" } else { "another token" }).into(),
    Some(VariableType::Matcher(m)) => (if Rc::ptr_eq(m, mat) { "matcher" } else { "another matcher" }).into(),
  }
}

pub fn c11_objects(deep: bool) -> Spaces {
  let ops = vec![
    "push", "pop", "X=1", "X=2", "Y=1", "Y=token", "X=matcher", "push the last popped again", "X=3 on the context", "Y=2 in the innermost scope object",
  ];
  let run = |w: &[usize], st: &mut Stats| -> Chk {
    let parser = Parser::new("abc");
    let tok = StandardToken::new(&parser, "T".into(), SourceRange::new(0, 1));
    let mat: MatcherRef = adextopa_core::Equals!("m");
    let ctx = ParserContext::new(&parser, "Test");
    let copy = ctx.borrow().clone_with_name("Copy");
    let sc = ctx.borrow().get_scope();
    // the model: a stack of scope ids, and the scopes
    let mut stack: Vec<usize> = vec![];
    let mut scopes: Vec<BTreeMap<&str, &str>> = vec![];
    let mut reals: Vec<Option<ScopeRef>> = vec![];
    let mut popped: Option<usize> = None;
    for op in w {
      let val = |k: usize| match k {
        2 => ("X", "s:1"),
        3 => ("X", "s:2"),
        4 => ("Y", "s:1"),
        5 => ("Y", "token"),
        6 => ("X", "matcher"),
        8 => ("X", "s:3"),
        _ => ("Y", "s:2"),
      };
      let real_val = |k: &str| match k {
        "token" => VariableType::Token(tok.clone()),
        "matcher" => VariableType::Matcher(mat.clone()),
        s => VariableType::String(s[2..].to_string()),
      };
      match *op {
        0 => {
          let s = Scope::new();
          sc.borrow_mut().push(s.clone());
          scopes.push(BTreeMap::new());
          reals.push(Some(s));
          stack.push(scopes.len() - 1);
        }
        1 => {
          let r = sc.borrow_mut().pop();
          match (stack.pop(), r) {
            (None, None) => {}
            (Some(i), Some(r)) => {
              if let Some(x) = &reals[i] {
                if !Rc::ptr_eq(x, &r) {
                  return Err("popped another scope".into());
                }
              }
              reals[i] = Some(r);
              popped = Some(i);
            }
            (a, b) => return Err(format!("popped {:?}, expected scope {:?}", b.is_some(), a)),
          }
        }
        7 => {
          if let Some(i) = popped {
            if !stack.contains(&i) {
              sc.borrow_mut().push(reals[i].clone().unwrap());
              stack.push(i);
            }
          }
        }
        9 => {
          if let Some(i) = stack.last() {
            if let Some(r) = &reals[*i] {
              let was = r.borrow_mut().set("Y", VariableType::String("2".into()));
              let exp = scopes[*i].insert("Y", "s:2").unwrap_or("none");
              same!("the value replaced", exp, show_var(&was, &tok, &mat));
            }
          }
        }
        k => {
          let (n, v) = val(k);
          if stack.is_empty() {
            scopes.push(BTreeMap::new());
            reals.push(None);
            stack.push(scopes.len() - 1);
          }
          let top = *stack.last().unwrap();
          let was = if k == 8 {
            copy.borrow_mut().set_scope_variable(n, real_val(v))
          } else {
            sc.borrow_mut().set(n, real_val(v))
          };
          let exp = scopes[top].insert(n, v).unwrap_or("none");
          same!("the value replaced", exp, show_var(&was, &tok, &mat));
        }
      }
      let mut h = 1;
      for n in ["X", "Y", "Z"] {
        let exp = stack.iter().rev().find_map(|i| scopes[*i].get(n)).copied().unwrap_or("none");
        same!(format!("{} after {} operations", n, w.len()), exp, show_var(&sc.borrow().get(n), &tok, &mat));
        same!(
          format!("{} seen by the context", n),
          exp,
          show_var(&ctx.borrow().get_scope_variable(n), &tok, &mat)
        );
        same!(
          format!("{} seen by a copy of the context", n),
          exp,
          show_var(&copy.borrow().get_scope_variable(n), &tok, &mat)
        );
        let m = ctx.borrow().get_registered_matcher(n);
        same!(format!("is {} a pattern", n), exp == "matcher", m.is_some());
        h = mix(h, hash_str(exp));
        for (i, r) in reals.iter().enumerate() {
          if let Some(r) = r {
            let r = r.borrow();
            same!(format!("contains_key {}", n), scopes[i].contains_key(n), r.contains_key(n));
            same!(
              format!("{} in scope {}", n, i),
              scopes[i].get(n).copied().unwrap_or("none"),
              show_var(&r.get(n).cloned(), &tok, &mat)
            );
          }
        }
      }
      st.states += 1;
      st.outcome(mix(h, stack.len() as u64));
    }
    Ok(())
  };
  let depth = q(7, 9, deep);
  let stacks = Cases {
    name: "deep stacks of scopes".into(),
    len: words(4, depth),
    run: Box::new(move |i, st, beat| {
      beat();
      let levels = word(4, i);
      let one = |st: &mut Stats| -> Chk {
        let parser = Parser::new("abc");
        let ctx = ParserContext::new(&parser, "Test");
        let sc = ctx.borrow().get_scope();
        let look = |n: &str| match sc.borrow().get(n) {
          Some(VariableType::String(s)) => s,
          Some(_) => "something else".into(),
          None => "none".into(),
        };
        let check = |upto: usize, st: &mut Stats| -> Chk {
          for (bit, n) in [(1, "X"), (2, "Y")] {
            let exp = (0..upto).rev().find(|k| levels[*k] & bit != 0).map_or("none".to_string(), |k| format!("{}{}", n, k));
            same!(format!("{} in {} scopes", n, upto), exp, look(n));
            let seen = match ctx.borrow().get_scope_variable(n) {
              Some(VariableType::String(s)) => s,
              _ => "none".into(),
            };
            same!(format!("{} seen by the context in {} scopes", n, upto), exp, seen);
            st.outcome(hash_str(&exp));
          }
          st.states += 1;
          Ok(())
        };
        for (k, l) in levels.iter().enumerate() {
          sc.borrow_mut().push(Scope::new());
          for (bit, n) in [(1, "X"), (2, "Y")] {
            if l & bit != 0 {
              let was = sc.borrow_mut().set(n, VariableType::String(format!("{}{}", n, k)));
              same!("a value replaced in a new scope", true, was.is_none());
            }
          }
          check(k + 1, st)?;
        }
        for k in (0..levels.len()).rev() {
          sc.borrow_mut().pop();
          check(k, st)?;
        }
        same!("a scope left", true, sc.borrow_mut().pop().is_none());
        st.traces += 1;
        st.transitions += 2 * levels.len() as u64;
        Ok(())
      };
      match guarded(|| one(st)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(d)) => Err(Violation {
          case: format!("scopes (1: X, 2: Y, 3: both) {:?}", word(4, i)),
          detail: d,
        }),
        Err(p) => Err(Violation {
          case: format!("scopes (1: X, 2: Y, 3: both) {:?}", word(4, i)),
          detail: format!("it panicked: {}", p),
        }),
      }
    }),
    describe: Box::new(|i| format!("scopes (1: X, 2: Y, 3: both) {:?}", word(4, i))),
  };
  vec![histories("operations on scopes", ops, 1, q(5, 6, deep), run), Box::new(stacks)]
}

// ------------------------------------------------------------------ C16: lines and columns

/// All ranges of texts, in files of some names and with some messages.
pub fn lines(name: &str, all: Vec<String>, labels: &'static [(&'static str, &'static str)]) -> Box<dyn Space> {
    let all2 = all.clone();
    Box::new(Cases {
      name: name.into(),
      len: all.len() as u64,
      run: Box::new(move |i, st, beat| {
        beat();
        let s = &all[i as usize];
        let one = |st: &mut Stats| -> Chk {
          for (file, msg) in labels {
          let parser = Parser::new_with_file_name(s, file);
          let c = ParserContext::new(&parser, "Test");
          let c = c.borrow();
          let ok = |x: usize| s.is_char_boundary(x) && !(x > 0 && s[..x].ends_with('\r') && s[x..].starts_with('\n'));
          // of long texts: both ends, and every so many positions
          let at: Vec<usize> = (0..=s.len())
            .filter(|x| ok(*x) && (s.len() < 40 || (s.len() < 5000 && (*x < 8 || *x + 14 > s.len())) || *x < 3 || *x + 7 > s.len() || x % (s.len() / if s.len() < 5000 { 24 } else { 6 } + 1) == 0))
            .collect();
          for (i, a) in at.iter().enumerate() {
            for b in &at[i..] {
              let (a, b) = (*a, *b);
              let r = SourceRange::new(a, b);
              let ((l1, c1), (l2, c2)) = (model::line_col(s, a), model::line_col(s, b));
              let c2 = c2.max(c1);
              same!(format!("lines of {}..{}", a, b), (l1, l2), c.get_lines(&r));
              same!(format!("columns of {}..{}", a, b), (c1, c2), c.get_columns(&r));
              same!(format!("lines and columns of {}..{}", a, b), ((l1, l2), (c1, c2)), c.get_lines_and_columns(&r));
              same!(
                format!("error text at {}..{}", a, b),
                model::error_text(s, file, msg, (a, b)),
                c.get_error_as_string(msg, &r)
              );
              same!("text of the range", s[a..b].to_string(), r.to_string(&parser));
              st.states += 1;
              st.transitions += 5;
              st.traces += 1;
              st.outcome(mix(mix(l1 as u64, c1 as u64), mix(l2 as u64, c2 as u64)));
            }
          }
          }
          Ok(())
        };
        match guarded(|| one(st)) {
          Ok(Ok(())) => Ok(()),
          Ok(Err(d)) => Err(Violation {
            case: format!("{:?}", s),
            detail: d,
          }),
          Err(p) => Err(Violation {
            case: format!("{:?}", s),
            detail: format!("it panicked: {}", p),
          }),
        }
      }),
      describe: Box::new(move |i| format!("{:?}", all2[i as usize])),
    })
}

pub fn c16(deep: bool) -> Spaces {
  let lines = |name: &str, all: Vec<String>| lines(name, all, &[("a/b.x", "m é")]);
  vec![
    lines("all texts, all ranges", strings(&["a", "é", "\n", "\r"], q(8, 9, deep))),
    lines("lines of several characters", strings(&["ab", "\n", "\r\n", "é😀"], q(7, 8, deep))),
    lines("many and long lines", {
      let mut v = vec![];
      for n in [8, 9, 10, 11, 12, 98, 99, 100, 101, 102, 127, 128, 254, 255, 256, 257, 1000] {
        for line in ["a\n", "\n", "\r\n", "\r", "é\r\n", "ab\ncd\r"] {
          for tail in ["", "xyz", "\n", "é\nb"] {
            v.push(format!("{}{}", line.repeat(n), tail));
          }
        }
        for long in ["a", "é", "\ta"] {
          for brk in ["\n", "\r", "\r\n"] {
            v.push(format!("{0}{1}{0}{1}b", long.repeat(n), brk));
          }
        }
      }
      v
    }),
  ]
}

// ------------------------------------------------------------------ C17: visitors

/// All ordered trees of `n` nodes, as the list of parents (preorder).
pub fn trees(n: usize) -> Vec<Vec<usize>> {
  // parent of node i (i >= 1) is on the rightmost path of the tree so far
  fn go(n: usize, par: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if par.len() == n {
      out.push(par.clone());
      return;
    }
    let mut p = par.len() - 1;
    loop {
      par.push(p);
      go(n, par, out);
      par.pop();
      if p == 0 {
        break;
      }
      p = par[p];
    }
  }
  let mut out = vec![];
  go(n, &mut vec![usize::MAX], &mut out);
  out
}

pub fn c17(deep: bool) -> Spaces {
  let max = q(5, 6, deep);
  let big = big_visits(deep);
  let mut shapes: Vec<Vec<usize>> = vec![];
  for n in 1..=max {
    shapes.extend(trees(n));
  }
  const NAMES: [&str; 3] = ["A", "B", "*"];
  const HOOKS: [&str; 4] = ["A", "B", "*", "C"];
  let hk = q(3, 3, deep);
  // cases: shape x names; inside: hook lists x failing visit
  let mut starts = vec![0u64];
  for s in &shapes {
    starts.push(starts.last().unwrap() + 3u64.pow(s.len() as u32));
  }
  let len = *starts.last().unwrap();
  let (sh2, st2) = (shapes.clone(), starts.clone());
  let case = move |i: u64| -> (Vec<usize>, Vec<&'static str>) {
    let k = st2.iter().rposition(|s| *s <= i).unwrap();
    let sh = sh2[k].clone();
    let names = digits(i - st2[k], &vec![3; sh.len()]).iter().map(|x| NAMES[*x]).collect();
    (sh, names)
  };
  let case2 = case.clone();
  let run = move |i: u64, st: &mut Stats, beat: &mut dyn FnMut()| -> Result<(), Violation> {
    let (sh, names) = case(i);
    let parser = Parser::new("abcdef");
    let toks: Vec<TokenRef> = names
      .iter()
      .map(|n| StandardToken::new(&parser, n.to_string(), SourceRange::new(0, 1)))
      .collect();
    for (k, p) in sh.iter().enumerate().skip(1) {
      toks[*p].borrow_mut().add_child(toks[k].clone());
      toks[k].borrow_mut().set_parent(Some(toks[*p].clone()));
    }
    let result = (|| -> Result<(), (String, String)> {
      for h in 0..words(4, hk) * 3 {
        let hooks = word(4, h / 3);
        beat();
        // what tokens are flagged as, and what holds them, has no effect on a visit
        for (k, t) in toks.iter().enumerate() {
          let mut t = t.borrow_mut();
          t.disable_flags(0xff);
          match h % 3 {
            0 => t.set_parent(if k == 0 { None } else { Some(toks[sh[k]].clone()) }),
            1 => t.enable_flags([IS_ERROR, IS_WARNING, IS_FAILURE, 0][(k + h as usize / 3) % 4]),
            _ => {
              t.enable_flags(0xff);
              t.set_parent(None);
            }
          }
        }
        // the model: nodes are numbered in preorder
        let hook_of = |n: &str| {
          hooks
            .iter()
            .position(|x| HOOKS[*x] == n)
            .or_else(|| hooks.iter().position(|x| HOOKS[*x] == "*"))
        };
        let full: Vec<(usize, usize)> = names
          .iter()
          .enumerate()
          .filter_map(|(k, n)| hook_of(n).map(|h| (h, k)))
          .collect();
        for fail_at in 0..=full.len() {
          let exp: Vec<(usize, usize)> = full.iter().take(if fail_at == 0 { full.len() } else { fail_at }).copied().collect();
          let log: RefCell<Vec<(usize, usize)>> = RefCell::new(vec![]);
          let got = guarded(|| {
            let mut v = TokenVisitor::new();
            for (hi, x) in hooks.iter().enumerate() {
              let (log, toks) = (&log, &toks);
              v.add_visitor(
                HOOKS[*x],
                Box::new(move |t: TokenRef| {
                  let k = toks.iter().position(|x| Rc::ptr_eq(x, &t)).unwrap_or(999);
                  log.borrow_mut().push((hi, k));
                  if log.borrow().len() == fail_at {
                    return Err(ParseError::new(&format!("stop {}", k)));
                  }
                  Ok(())
                }),
              );
            }
            v.visit(toks[0].clone())
          });
          st.traces += 1;
          st.transitions += exp.len() as u64;
          st.states += 1;
          st.outcome(mix(exp.len() as u64, exp.iter().fold(3, |h, x| mix(h, (x.0 * 64 + x.1) as u64))));
          let what = format!("hooks {:?}, error at call {}", hooks.iter().map(|x| HOOKS[*x]).collect::<Vec<_>>(), fail_at);
          let exp_r: Result<(), String> = if fail_at == 0 {
            Ok(())
          } else {
            Err(format!("stop {}", exp[fail_at - 1].1))
          };
          match got {
            Err(p) => return Err((what, format!("it panicked: {}", p))),
            Ok(r) => {
              let r = r.map_err(|e| e.message);
              if r != exp_r {
                return Err((what, format!("result: expected {:?}, got {:?}", exp_r, r)));
              }
            }
          }
          if *log.borrow() != exp {
            return Err((what, format!("(hook, token) calls: expected {:?}, got {:?}", exp, log.borrow())));
          }
          for (k, t) in toks.iter().enumerate() {
            let t = t.borrow();
            let kids: Vec<usize> = sh.iter().enumerate().skip(1).filter(|(_, p)| **p == k).map(|x| x.0).collect();
            let real: Vec<usize> = t
              .get_children()
              .iter()
              .map(|c| toks.iter().position(|x| Rc::ptr_eq(x, c)).unwrap_or(999))
              .collect();
            if t.get_name() != names[k] || kids != real {
              return Err((what, "the visit changed the tree".into()));
            }
          }
        }
      }
      Ok(())
    })();
    crate::real::free_tok(&toks[0]);
    result.map_err(|(what, detail)| Violation {
      case: format!("tree (parents) {:?} named {:?}, {}", &sh[1..], names, what),
      detail,
    })
  };
  let mac = {
    let trees_m: Vec<Vec<usize>> = (1..=5).flat_map(trees).collect();
    let n = trees_m.len() as u64;
    let t2 = trees_m.clone();
    Cases {
      name: "the Visit! macro".into(),
      len: n * 32,
      run: Box::new(move |i, st, beat| {
        beat();
        let sh = &trees_m[(i / 32) as usize];
        let names: Vec<&str> = (0..sh.len()).map(|k| if (i >> k) & 1 == 1 { "A" } else { "B" }).collect();
        let parser = Parser::new("abcdef");
        let toks: Vec<TokenRef> = names
          .iter()
          .map(|n| StandardToken::new(&parser, n.to_string(), SourceRange::new(0, 1)))
          .collect();
        for (k, p) in sh.iter().enumerate().skip(1) {
          toks[*p].borrow_mut().add_child(toks[k].clone());
        }
        let index = |t: &TokenRef| toks.iter().position(|x| Rc::ptr_eq(x, t)).unwrap_or(999);
        st.traces += 3;
        st.states += 3;
        st.transitions += 3 * sh.len() as u64;
        for variant in 0..3 {
          let log = RefCell::new(vec![]);
          let exp: Vec<(usize, usize)> = names
            .iter()
            .enumerate()
            .filter_map(|(k, n)| match (variant, *n) {
              (0, "A") => Some((0, k)),
              (0, _) => None,
              (1, "A") => Some((1, k)),
              (1, _) => Some((0, k)),
              (_, "A") => Some((0, k)),
              (_, _) => Some((1, k)),
            })
            .collect();
          let root = toks[0].clone();
          let r = match variant {
            0 => adextopa_core::Visit!(root, log, "A" => |t| { log.borrow_mut().push((0, index(&t))); Ok(()) }),
            1 => adextopa_core::Visit!(root, log,
              "*" => |t| { log.borrow_mut().push((0, index(&t))); Ok(()) },
              "A" => |t| { log.borrow_mut().push((1, index(&t))); Ok(()) },
            ),
            _ => adextopa_core::Visit!(root, log,
              "A" => |t| { log.borrow_mut().push((0, index(&t))); Ok(()) },
              "B" => |t| { log.borrow_mut().push((1, index(&t))); Ok(()) },
              "*" => |t| { log.borrow_mut().push((2, index(&t))); Ok(()) }
            ),
          };
          if r.is_err() || *log.borrow() != exp {
            return Err(Violation {
              case: format!("Visit! variant {} on tree {:?} named {:?}", variant, sh, names),
              detail: format!("expected {:?}, got {:?}", exp, log.borrow()),
            });
          }
        }
        crate::real::free_tok(&toks[0]);
        Ok(())
      }),
      describe: Box::new(move |i| format!("tree {:?} names {:b}", t2[(i / 32) as usize], i % 32)),
    }
  };
  vec![
    Box::new(Cases {
      name: "all trees, hook lists and failing hooks".into(),
      len,
      run: Box::new(run),
      describe: Box::new(move |i| {
        let (sh, n) = case2(i);
        format!("tree (parents) {:?} named {:?}", &sh[1..], n)
      }),
    }),
    Box::new(mac),
    big,
  ]
}

/// Chains, stars, combs and complete trees of many tokens.
fn big_visits(deep: bool) -> Box<dyn Space> {
  let none = usize::MAX;
  let mut shapes: Vec<(String, Vec<usize>)> = vec![];
  for n in [10, 17, 33, 40, 66, q(70, 130, deep)] {
    shapes.push((format!("chain of {}", n), (0..n).map(|k: usize| k.wrapping_sub(1)).collect()));
    shapes.push((format!("star of {}", n), (0..n).map(|k: usize| if k == 0 { none } else { 0 }).collect()));
    // spine 0, 2, 4, ... with a leaf before the next
    shapes.push((
      format!("comb of {}", n),
      (0..n).map(|k: usize| if k == 0 { none } else if k % 2 == 1 { k - 1 } else { k - 2 }).collect(),
    ));
  }
  // complete trees, numbered in preorder
  for (arity, depth) in [(2, 5), (3, 3), (5, 2)] {
    let mut par = vec![];
    fn go(p: usize, arity: usize, depth: usize, par: &mut Vec<usize>) {
      let me = par.len();
      par.push(p);
      if depth > 0 {
        for _ in 0..arity {
          go(me, arity, depth - 1, par);
        }
      }
    }
    go(none, arity, depth, &mut par);
    shapes.push((format!("complete tree of arity {} and depth {}", arity, depth), par));
  }
  const NAMES: [&str; 3] = ["A", "B", "C"];
  const LISTS: [&[&str]; 7] = [&["A"], &["*"], &["A", "*"], &["*", "B"], &["A", "B", "A", "*", "*"], &["C", "B", "A"], &["A", "C", "*", "B"]];
  // how names are spread over the tokens: period and shift
  let spreads: Vec<(usize, usize)> = (1..=4).flat_map(|p| (0..3).map(move |s| (p, s))).collect();
  let name = move |k: usize, s: (usize, usize)| NAMES[((k / s.0) + s.1) % 3];
  let len = (shapes.len() * spreads.len() * LISTS.len()) as u64;
  let dims = [shapes.len() as u64, spreads.len() as u64, LISTS.len() as u64];
  let (sh2, sp2) = (shapes.clone(), spreads.clone());
  let show = move |i: u64| {
    let d = digits(i, &dims);
    format!("{} named with period {:?}, hooks {:?}", sh2[d[0]].0, sp2[d[1]], LISTS[d[2]])
  };
  let show2 = show.clone();
  Box::new(Cases {
    name: "large trees".into(),
    len,
    run: Box::new(move |i, st, beat| {
      let d = digits(i, &dims);
      let (sh, spread, hooks) = (&shapes[d[0]].1, spreads[d[1]], LISTS[d[2]]);
      let parser = Parser::new("abcdef");
      let toks: Vec<TokenRef> = (0..sh.len())
        .map(|k| StandardToken::new(&parser, name(k, spread).to_string(), SourceRange::new(0, 1)))
        .collect();
      let index: HashMap<usize, usize> = toks.iter().enumerate().map(|(k, t)| (Rc::as_ptr(t) as usize, k)).collect();
      for (k, p) in sh.iter().enumerate().skip(1) {
        toks[*p].borrow_mut().add_child(toks[k].clone());
        // with and without links to what holds them
        if spread.1 != 1 {
          toks[k].borrow_mut().set_parent(Some(toks[*p].clone()));
        }
      }
      let full: Vec<(usize, usize)> = (0..sh.len())
        .filter_map(|k| {
          let n = name(k, spread);
          hooks.iter().position(|h| *h == n).or_else(|| hooks.iter().position(|h| *h == "*")).map(|h| (h, k))
        })
        .collect();
      let mut bad = None;
      for fail_at in 0..=full.len() {
        beat();
        let exp: Vec<(usize, usize)> = full.iter().take(if fail_at == 0 { full.len() } else { fail_at }).copied().collect();
        let log: RefCell<Vec<(usize, usize)>> = RefCell::new(vec![]);
        let got = guarded(|| {
          let mut v = TokenVisitor::new();
          for (hi, x) in hooks.iter().enumerate() {
            let (log, index) = (&log, &index);
            v.add_visitor(
              x,
              Box::new(move |t: TokenRef| {
                log.borrow_mut().push((hi, index.get(&(Rc::as_ptr(&t) as usize)).copied().unwrap_or(9999)));
                if log.borrow().len() == fail_at {
                  return Err(ParseError::new("stop"));
                }
                Ok(())
              }),
            );
          }
          v.visit(toks[0].clone()).is_ok()
        });
        st.traces += 1;
        st.states += 1;
        st.transitions += exp.len() as u64;
        st.outcome(exp.iter().fold(5, |h, x| mix(h, (x.0 * 4096 + x.1) as u64)));
        if got != Ok(fail_at == 0) || *log.borrow() != exp {
          bad = Some(format!("error at call {}: expected {:?}, got {:?} and {:?}", fail_at, exp, got, log.borrow()));
          break;
        }
      }
      crate::real::free_tok(&toks[0]);
      match bad {
        None => Ok(()),
        Some(d) => Err(Violation {
          case: show(i),
          detail: d,
        }),
      }
    }),
    describe: Box::new(show2),
  })
}

// ------------------------------------------------------------------ C18: token objects

#[derive(Clone, Debug, PartialEq)]
struct Rec {
  name: String,
  cap: (usize, usize),
  mat: (usize, usize),
  /// None: not specified (the range was changed behind the token's back)
  cap_text: Option<String>,
  mat_text: Option<String>,
  value: Option<String>,
  attrs: BTreeMap<String, String>,
  flags: u8,
  kids: Vec<usize>,
  parent: Option<usize>,
}

pub fn c18(deep: bool) -> Spaces {
  const SRC: &str = "aé\nbc";
  let ops = vec![
    "captured range 1..3",
    "captured range 0..6",
    "matched range 0..0",
    "matched range 3..5",
    "matched range 0..99",
    "value \"v\"",
    "value \"\"",
    "attribute k=1",
    "attribute k=2",
    "attribute __value=x",
    "attribute empty=\"\"",
    "captured value \"c\"",
    "matched value \"m\"",
    "name N",
    "flags = ERROR",
    "enable FAILURE|WARNING",
    "disable ERROR|WARNING",
    "flags = 0",
    "add child A",
    "add child B",
    "children = [B, A]",
    "children = []",
    "remove the first child",
    "parent = A",
    "parent = none",
    "captured range end = 4 through the reference",
    "matched range start = 1 through the reference",
    "value = the captured text",
    "value = the matched text",
    "captured value = the matched text",
    "attribute k = the value",
    "attribute __value=\"\"",
  ];
  let make = move |pin: bool, mr: bool| {
    move |w: &[usize], st: &mut Stats| -> Chk {
      let parser = Parser::new(SRC);
      let new = |n: &str, c: (usize, usize), m: (usize, usize)| -> TokenRef {
        let (c, m2) = (SourceRange::new(c.0, c.1), SourceRange::new(m.0, m.1));
        match (pin, mr) {
          (false, false) => StandardToken::new(&parser, n.to_string(), c),
          (false, true) => StandardToken::new_with_matched_range(&parser, n.to_string(), c, m2),
          (true, false) => PinToken::new(&parser, n.to_string(), c),
          (true, true) => PinToken::new_with_matched_range(&parser, n.to_string(), c, m2),
        }
      };
      let text = |r: (usize, usize)| SRC.get(r.0..r.1.min(SRC.len())).unwrap_or("").to_string();
      let m0 = if mr { (0, 5) } else { (1, 4) };
      let t = new("T", (1, 4), m0);
      let others = [new("A", (0, 1), (0, 1)), new("B", (3, 4), (3, 5))];
      let mut m = Rec {
        name: "T".into(),
        cap: (1, 4),
        mat: m0,
        cap_text: Some(text((1, 4))),
        mat_text: Some(text(m0)),
        value: None,
        attrs: BTreeMap::new(),
        flags: 0,
        kids: vec![],
        parent: None,
      };
      for (step, op) in w.iter().enumerate() {
        {
          let mut b = t.borrow_mut();
          let sr = |a, b| SourceRange::new(a, b);
          match op {
            0 | 1 => {
              let r = if *op == 0 { (1, 3) } else { (0, 6) };
              b.set_captured_range(sr(r.0, r.1));
              m.cap = r;
              m.cap_text = Some(text(r));
            }
            2..=4 => {
              let r = [(0, 0), (3, 5), (0, 99)][*op - 2];
              b.set_matched_range(sr(r.0, r.1));
              m.mat = r;
              m.mat_text = Some(text(r));
            }
            5 => {
              b.set_value("v");
              m.value = Some("v".into());
            }
            6 => {
              b.set_value("");
              m.value = None;
            }
            7..=10 | 31 => {
              let (k, v) = [("k", "1"), ("k", "2"), ("__value", "x"), ("empty", ""), ("__value", "")][if *op == 31 { 4 } else { *op - 7 }];
              if pin && k == "__value" {
                continue;
              }
              let was = b.set_attribute(k, v);
              let exp = m.attrs.insert(k.into(), v.into());
              same!("the previous value of an attribute", exp, was);
            }
            11 => {
              b.set_captured_value("c");
              m.cap_text = Some("c".into());
            }
            12 => {
              b.set_matched_value("m");
              m.mat_text = Some("m".into());
            }
            13 => {
              b.set_name("N");
              m.name = "N".into();
            }
            14 => {
              b.set_flags(2);
              m.flags = 2;
            }
            15 => {
              b.enable_flags(5);
              m.flags |= 5;
            }
            16 => {
              b.disable_flags(6);
              m.flags &= !6;
            }
            17 => {
              b.set_flags(0);
              m.flags = 0;
            }
            18 | 19 => {
              b.add_child(others[*op - 18].clone());
              m.kids.push(*op - 18);
            }
            20 => {
              b.set_children(vec![others[1].clone(), others[0].clone()]);
              m.kids = vec![1, 0];
            }
            21 => {
              b.set_children(vec![]);
              m.kids.clear();
            }
            22 => {
              if !m.kids.is_empty() {
                b.get_children_mut().remove(0);
                m.kids.remove(0);
              }
            }
            23 => {
              b.set_parent(Some(others[0].clone()));
              m.parent = Some(0);
            }
            24 => {
              b.set_parent(None);
              m.parent = None;
            }
            25 => {
              b.get_captured_range_mut().end = 4;
              if m.cap.1 != 4 {
                m.cap_text = None;
              }
              m.cap.1 = 4;
            }
            27 | 28 => {
              // (what it is may be left open)
              if let (Some(c), Some(x)) = (m.cap_text.clone(), m.mat_text.clone()) {
                let v = if *op == 27 { c } else { x };
                b.set_value(&v);
                m.value = if v.is_empty() { None } else { Some(v) };
              }
            }
            29 => {
              if let Some(x) = m.mat_text.clone() {
                b.set_captured_value(&x);
                m.cap_text = Some(x);
              }
            }
            30 => {
              let v = m.attrs.get("__value").or(m.value.as_ref()).or(m.cap_text.as_ref()).cloned();
              if let Some(v) = v {
                b.set_attribute("k", &v);
                m.attrs.insert("k".into(), v);
              }
            }
            _ => {
              b.get_matched_range_mut().start = 1;
              if m.mat.0 != 1 {
                m.mat_text = None;
              }
              m.mat.0 = 1;
            }
          }
        }
        st.states += 1;
        if step + 1 < w.len() {
          continue; // shorter histories are cases of their own
        }
        same!("flags", m.flags, t.borrow_mut().get_flags());
        let b = t.borrow();
        same!("name", m.name, *b.get_name());
        same!("captured range", m.cap, (b.get_captured_range().start, b.get_captured_range().end));
        same!("matched range", m.mat, (b.get_matched_range().start, b.get_matched_range().end));
        if let Some(x) = &m.cap_text {
          same!("captured text", x, b.get_captured_value());
        }
        if let Some(x) = &m.mat_text {
          same!("matched text", x, b.get_matched_value());
        }
        let value = m.attrs.get("__value").or(m.value.as_ref()).or(m.cap_text.as_ref());
        if let Some(x) = value {
          same!("value", x, b.get_value());
        }
        let attrs: BTreeMap<String, String> = b.get_attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        same!("attributes", m.attrs, attrs);
        for k in ["k", "empty", "__value", "nope"] {
          same!(format!("attribute {}", k), m.attrs.get(k), b.get_attribute(k));
          same!(format!("has attribute {}", k), m.attrs.contains_key(k), b.has_attribute(k));
          for v in ["1", "2", "x", ""] {
            same!(
              format!("attribute {} equals {:?}", k, v),
              m.attrs.get(k).map_or(false, |x| x == v),
              b.attribute_equals(k, v)
            );
          }
        }
        for f in [1, 2, 4] {
          same!(format!("flag {}", f), m.flags & f != 0, b.flags_enabled(f));
        }
        let kids: Vec<usize> = b
          .get_children()
          .iter()
          .map(|c| others.iter().position(|o| Rc::ptr_eq(o, c)).unwrap_or(99))
          .collect();
        same!("children", m.kids, kids);
        let parent = b.get_parent().map(|c| others.iter().position(|o| Rc::ptr_eq(o, &c)).unwrap_or(99));
        same!("parent", m.parent, parent);
        for (n, i) in [("A", 0), ("B", 1), ("C", 9)] {
          let has = m.kids.contains(&i);
          let found = b.find_child(n);
          same!(format!("find_child {}", n), has, found.is_some());
          if let Some(f) = found {
            if !Rc::ptr_eq(&f, &others[i]) {
              return Err(format!("find_child {} found another child", n));
            }
          }
          same!(format!("has_child {}", n), has, b.has_child(n));
        }
        for (re, want) in [("^[AB]$", vec![0, 1]), ("B|C", vec![1]), ("a", vec![])] {
          let exp = m.kids.iter().find(|k| want.contains(k));
          let got = b
            .find_child_fuzzy(&crate::real::cached_regex(re))
            .map(|c| others.iter().position(|o| Rc::ptr_eq(o, &c)).unwrap_or(99));
          same!(format!("find_child_fuzzy {}", re), exp.copied(), got);
        }
        same!("discard", pin, b.should_discard());
        same!("parser", true, Rc::ptr_eq(&b.get_parser(), &parser));
        st.outcome(hash_str(&format!("{:?}", m)));
      }
      t.borrow_mut().set_parent(None);
      t.borrow_mut().set_children(vec![]);
      Ok(())
    }
  };
  let mut v: Spaces = vec![];
  for (pin, n) in [(false, "standard tokens"), (true, "pin tokens")] {
    v.push(histories(&format!("histories of {}", n), ops.clone(), 1, q(4, 5, deep && !pin), make(pin, false)));
    v.push(histories(
      &format!("histories of {} with a matched range", n),
      ops.clone(),
      1,
      q(3, 4, deep),
      make(pin, true),
    ));
  }
  v.push(children_found(deep));
  v.push(tokens_compared());
  v
}

/// Finding children by name and by pattern in all lists of children.
fn children_found(deep: bool) -> Box<dyn Space> {
  const NAMES: [&str; 5] = ["A", "AB", "B", "LongB", ""];
  const NEEDLES: [&str; 7] = ["A", "AB", "B", "LongB", "", "a", "L"];
  const PATTERNS: [&str; 9] = ["A", "^A$", "B", "B$", "^.$", "", "^$", "L|AB", "x"];
  let k = NAMES.len() as u64;
  let max = q(6, 8, deep);
  let show = move |i: u64| format!("children {:?}", word(k, i).iter().map(|x| NAMES[*x]).collect::<Vec<_>>());
  let show2 = show;
  Box::new(Cases {
    name: "finding children".into(),
    len: words(k, max),
    run: Box::new(move |i, st, beat| {
      beat();
      let names: Vec<&str> = word(k, i).iter().map(|x| NAMES[*x]).collect();
      let parser = Parser::new("abc");
      let one = |st: &mut Stats| -> Chk {
        for pin in [false, true] {
          let new = |n: &str| {
            if pin {
              PinToken::new(&parser, n.to_string(), SourceRange::new(0, 1))
            } else {
              StandardToken::new(&parser, n.to_string(), SourceRange::new(0, 1))
            }
          };
          let t = new("T");
          let kids: Vec<TokenRef> = names.iter().map(|n| new(n)).collect();
          for c in &kids {
            t.borrow_mut().add_child(c.clone());
          }
          let b = t.borrow();
          let at = |x: Option<TokenRef>| x.map(|c| kids.iter().position(|o| Rc::ptr_eq(o, &c)).unwrap_or(99));
          for n in NEEDLES {
            let exp = names.iter().position(|x| *x == n);
            same!(format!("find_child {:?}", n), exp, at(b.find_child(n)));
            same!(format!("has_child {:?}", n), exp.is_some(), b.has_child(n));
          }
          for p in PATTERNS {
            let hit = |n: &str| match p {
              "A" => n.contains('A'),
              "^A$" => n == "A",
              "B" => n.contains('B'),
              "B$" => n.ends_with('B'),
              "^.$" => n.len() == 1,
              "" => true,
              "^$" => n.is_empty(),
              "L|AB" => n.contains('L') || n.contains("AB"),
              _ => n.contains('x'),
            };
            let exp = names.iter().position(|x| hit(x));
            same!(format!("find_child_fuzzy {:?}", p), exp, at(b.find_child_fuzzy(&crate::real::cached_regex(p))));
            st.outcome(exp.map_or(77, |x| x as u64));
          }
        }
        st.traces += 2;
        st.states += 2;
        st.transitions += 2 * (NEEDLES.len() + PATTERNS.len()) as u64;
        Ok(())
      };
      match guarded(|| one(st)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(d)) => Err(Violation {
          case: show(i),
          detail: d,
        }),
        Err(p) => Err(Violation {
          case: show(i),
          detail: format!("it panicked: {}", p),
        }),
      }
    }),
    describe: Box::new(show2),
  })
}

/// Two tokens are equal when their names and both ranges are.
fn tokens_compared() -> Box<dyn Space> {
  let mut kinds: Vec<(bool, &'static str, (usize, usize), (usize, usize))> = vec![];
  for pin in [false, true] {
    for n in ["A", "B"] {
      for c in [(1, 3), (1, 4), (0, 3)] {
        for m in [(1, 3), (0, 3), (1, 5), (0, 5)] {
          kinds.push((pin, n, c, m));
        }
      }
    }
  }
  let n = kinds.len() as u64;
  let k2 = kinds.clone();
  let show = move |i: u64| format!("{:?} == {:?}", k2[(i % n) as usize], k2[(i / n) as usize]);
  let show2 = show.clone();
  Box::new(Cases {
    name: "comparing tokens".into(),
    len: n * n,
    run: Box::new(move |i, st, beat| {
      beat();
      let parser = Parser::new("abcdef");
      let (x, y) = (kinds[(i % n) as usize], kinds[(i / n) as usize]);
      let new = |k: (bool, &str, (usize, usize), (usize, usize)), extra: bool| {
        let (c, m) = (SourceRange::new(k.2 .0, k.2 .1), SourceRange::new(k.3 .0, k.3 .1));
        let t = if k.0 {
          PinToken::new_with_matched_range(&parser, k.1.into(), c, m)
        } else {
          StandardToken::new_with_matched_range(&parser, k.1.into(), c, m)
        };
        if extra {
          // none of these counts
          let mut b = t.borrow_mut();
          b.set_value("v");
          b.set_attribute("k", "v");
          b.enable_flags(4);
          b.add_child(StandardToken::new(&parser, "C".into(), c));
        }
        t
      };
      st.traces += 2;
      st.states += 2;
      st.transitions += 2;
      let exp = x.1 == y.1 && x.2 == y.2 && x.3 == y.3;
      for extra in [false, true] {
        let (a, b) = (new(x, false), new(y, extra));
        let got = guarded(|| **a.borrow() == **b.borrow());
        st.outcome(exp as u64);
        if got != Ok(exp) {
          return Err(Violation {
            case: show(i),
            detail: format!("expected {}, got {:?}", exp, got),
          });
        }
      }
      Ok(())
    }),
    describe: Box::new(show2),
  })
}

// ------------------------------------------------------------------ C28: contexts

#[derive(Clone, Debug)]
struct Ctx {
  off: (usize, usize),
  name: String,
  level: usize,
  toks: Vec<usize>,
}

pub fn c28_objects(deep: bool) -> Spaces {
  const SRC: &str = "aé\nbca";
  let ops = vec![
    "start = 1",
    "end = 4",
    "offset = 3..5",
    "debug level = 2",
    "set name",
    "copy",
    "switch to the other",
    "X = \"1\"",
    "register_matcher Equals",
    "register_matcher named X",
    "register_matcher_with_name Y",
    "register_matchers [named X, another X, named Y]",
    "register_matchers_with_names {X, Z}",
    "X = matcher 2 in an inner scope",
    "pop the scope",
    "push a token",
    "pop a token",
  ];
  let run = |w: &[usize], st: &mut Stats| -> Chk {
    let parser = Parser::new(SRC);
    let first = ParserContext::new(&parser, "Test");
    let ms: Vec<MatcherRef> = vec![
      adextopa_core::Equals!("a"),
      adextopa_core::Equals!("X"; "b"),
      adextopa_core::Equals!("X"; "c"),
      adextopa_core::Equals!("Y"; "d"),
      adextopa_core::Equals!("e"),
    ];
    let tk: Vec<TokenRef> = (0..2)
      .map(|i| StandardToken::new(&parser, format!("T{}", i), SourceRange::new(i, i)))
      .collect();
    let mut ctxs = vec![first];
    let mut models = vec![Ctx {
      off: (0, SRC.len()),
      name: "Test".into(),
      level: 0,
      toks: vec![],
    }];
    // shared: a stack of scopes
    let mut scopes: Vec<BTreeMap<&str, String>> = vec![];
    let mut cur = 0;
    for (step, op) in w.iter().enumerate() {
      let define = |scopes: &mut Vec<BTreeMap<&'static str, String>>, n: &'static str, v: &str| {
        if scopes.is_empty() {
          scopes.push(BTreeMap::new());
        }
        scopes.last_mut().unwrap().insert(n, v.to_string());
      };
      let c = ctxs[cur].clone();
      let m = &mut models[cur];
      match op {
        0 => {
          c.borrow_mut().set_start(1);
          m.off.0 = 1;
        }
        1 => {
          c.borrow_mut().set_end(4);
          m.off.1 = 4;
        }
        2 => {
          c.borrow_mut().set_offset(SourceRange::new(3, 5));
          m.off = (3, 5);
        }
        3 => {
          c.borrow_mut().set_debug_mode(2);
          m.level = 2;
        }
        4 => {
          c.borrow_mut().name = "Renamed".into();
          m.name = "Renamed".into();
        }
        5 => {
          if ctxs.len() < 3 {
            let n = format!("Copy{}", ctxs.len());
            let x = c.borrow().clone_with_name(&n);
            ctxs.push(x);
            let mut x = m.clone();
            x.name = n;
            models.push(x);
          }
        }
        6 => cur = (cur + 1) % ctxs.len(),
        7 => {
          c.borrow_mut().set_scope_variable("X", VariableType::String("1".into()));
          define(&mut scopes, "X", "s");
        }
        8 => {
          c.borrow().register_matcher(ms[0].clone());
          define(&mut scopes, "Equals", "0");
        }
        9 => {
          c.borrow().register_matcher(ms[1].clone());
          define(&mut scopes, "X", "1");
        }
        10 => {
          c.borrow().register_matcher_with_name("Y", ms[0].clone());
          define(&mut scopes, "Y", "0");
        }
        11 => {
          c.borrow().register_matchers(vec![ms[1].clone(), ms[2].clone(), ms[3].clone()]);
          define(&mut scopes, "X", "2");
          define(&mut scopes, "Y", "3");
        }
        12 => {
          let mut h: HashMap<&str, MatcherRef> = HashMap::new();
          h.insert("X", ms[4].clone());
          h.insert("Z", ms[1].clone());
          c.borrow().register_matchers_with_names(h);
          define(&mut scopes, "X", "4");
          define(&mut scopes, "Z", "1");
        }
        13 => {
          let s = c.borrow().get_scope();
          s.borrow_mut().push(Scope::new());
          s.borrow_mut().set("X", VariableType::Matcher(ms[2].clone()));
          scopes.push(BTreeMap::new());
          define(&mut scopes, "X", "2");
        }
        14 => {
          let s = c.borrow().get_scope();
          s.borrow_mut().pop();
          scopes.pop();
        }
        15 => {
          let i = m.toks.len() % 2;
          c.borrow_mut().push_token_to_stack(tk[i].clone());
          m.toks.push(i);
        }
        _ => {
          c.borrow_mut().pop_token_from_stack();
          m.toks.pop();
        }
      }
      st.states += 1;
      if step + 1 < w.len() {
        continue;
      }
      for (c, m) in ctxs.iter().zip(&models) {
        let c = c.borrow();
        same!(format!("position of {}", m.name), m.off, (c.offset.start, c.offset.end));
        same!("name", m.name, c.name);
        same!(format!("debug level of {}", m.name), m.level, c.debug_mode_level());
        same!("debug mode", m.level > 0, c.is_debug_mode());
        same!("parser", true, Rc::ptr_eq(&c.get_parser(), &parser));
        same!("source", SRC, c.get_parser().borrow().get_source().as_str());
        let top = c.get_top_token_from_stack().map(|t| tk.iter().position(|x| Rc::ptr_eq(x, &t)).unwrap_or(9));
        same!(format!("top token of {}", m.name), m.toks.last().copied(), top);
        for n in ["X", "Y", "Z", "Equals", "Nope"] {
          let exp = scopes.iter().rev().find_map(|s| s.get(n)).map(|s| s.as_str());
          let got = match c.get_scope_variable(n) {
            None => None,
            Some(VariableType::Matcher(x)) => Some(ms.iter().position(|m| Rc::ptr_eq(m, &x)).unwrap_or(99).to_string()),
            Some(VariableType::String(s)) if s == "1" => Some("s".to_string()),
            Some(_) => Some("something else".to_string()),
          };
          same!(format!("variable {} of {}", n, m.name), exp, got.as_deref());
          let r = c.get_registered_matcher(n).map(|x| ms.iter().position(|m| Rc::ptr_eq(m, &x)).unwrap_or(99).to_string());
          same!(format!("pattern {} of {}", n, m.name), exp.filter(|x| *x != "s"), r.as_deref());
        }
        // reading
        let (a, b) = m.off;
        if a <= b {
          let chunk = SRC.get(a..b);
          if let Some(chunk) = chunk {
            for p in ["", "a", "é", "é\n", "bca", "b", "c"] {
              let exp = if !p.is_empty() && chunk.starts_with(p) { Some((a, a + p.len())) } else { None };
              same!(format!("matches_str {:?} in {}..{}", p, a, b), exp, c.matches_str(p).map(|r| (r.start, r.end)));
              for o in a..=b + 1 {
                if o <= b && !SRC.is_char_boundary(o) {
                  continue;
                }
                let exp = if o < b && !p.is_empty() && SRC[o..b].starts_with(p) { Some((o, o + p.len())) } else { None };
                same!(
                  format!("matches_str_at_offset {:?} at {} in {}..{}", p, o, a, b),
                  exp,
                  c.matches_str_at_offset(p, o).map(|r| (r.start, r.end))
                );
              }
            }
            for p in ["a", "é*", ".", "$", "[^a]+", "^b"] {
              let exp = model::rx(leak(p)).at_start(chunk).map(|n| (a, a + n));
              let got = c.matches_regexp(&crate::real::cached_regex(p)).map(|r| (r.start, r.end));
              same!(format!("matches_regexp {:?} in {}..{}", p, a, b), exp, got);
            }
          }
        }
        st.outcome(hash_str(&format!("{:?} {:?}", m, scopes)));
      }
    }
    Ok(())
  };
  vec![histories("operations on contexts and their copies", ops, 1, q(5, 6, deep), run)]
}

