//! Odd names, odd characters and large cases for the objects of the library and for scripts.
use super::extra::{CHARS, NAMES};
use super::objects::{hash_str, lines, trees, Chk};
use super::script::{scratch, dim, file_set, lists_of, scripts, Texts, Want};
use crate::gen::*;
use crate::real::{guarded, mix};
use crate::space::*;
use adextopa_core::matcher::MatcherRef;
use adextopa_core::matchers::pin::PinToken;
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::ParserContext;
use adextopa_core::scope::{Scope, VariableType};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef};
use adextopa_core::token_visitor::TokenVisitor;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

type Spaces = Vec<Box<dyn Space>>;

fn q(n: usize, deep: usize, d: bool) -> usize {
  if d {
    deep
  } else {
    n
  }
}

macro_rules! same {
  ($what:expr, $exp:expr, $got:expr) => {
    match (&$exp, &$got) {
      (exp, got) if exp != got => return Err(format!("{}: expected {:?}, got {:?}", $what, exp, got)),
      _ => {}
    }
  };
}

/// A space of numbered cases that either hold or say what is wrong.
pub fn cases(name: &str, len: u64, show: impl Fn(u64) -> String + 'static, run: impl Fn(u64, &mut Stats) -> Chk + 'static) -> Box<dyn Space> {
  let show = Rc::new(show);
  let show2 = show.clone();
  Box::new(Cases {
    name: name.into(),
    len,
    run: Box::new(move |i, st, beat| {
      beat();
      match guarded(|| run(i, st)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(detail)) => Err(Violation { case: show(i), detail }),
        Err(p) => Err(Violation {
          case: show(i),
          detail: format!("it panicked: {}", p),
        }),
      }
    }),
    describe: Box::new(move |i| show2(i)),
  })
}

pub fn more(id: &str, deep: bool) -> Spaces {
  match id {
    "C11" => vec![odd_variables(deep), many_variables(deep)],
    "C16" => c16(deep),
    "C17" => vec![odd_hooks(deep), many_hooks(deep)],
    "C18" => vec![odd_attributes(deep), many_of_a_token(deep), flag_sets(deep)],
    "C28" => vec![registrations(deep), copies(deep)],
    "C20" => c20(deep),
    "C21" => c21(deep),
    "C22" => c22(deep),
    "C23" => c23(deep),
    "C26" => c26(deep),
    _ => vec![],
  }
}

// ------------------------------------------------------------------ C11

const ODD: [&str; 10] = ["", " ", "é", "*", "_", "a.b", "a", "A", "__value", "\n"];

/// Variables with odd names in a stack of scopes.
fn odd_variables(deep: bool) -> Box<dyn Space> {
  // an operation: push, pop, or set one of the names
  let k = 2 + ODD.len() as u64;
  let show = move |i: u64| {
    word(k, i)
      .iter()
      .map(|x| match x {
        0 => "push".to_string(),
        1 => "pop".to_string(),
        n => format!("set {:?}", ODD[n - 2]),
      })
      .collect::<Vec<_>>()
      .join("; ")
  };
  cases("variables with odd names", words(k, q(4, 5, deep)), show, move |i, st| {
    let w = word(k, i);
    let parser = Parser::new("abc");
    let ctx = ParserContext::new(&parser, "Test");
    let sc = ctx.borrow().get_scope();
    let mut m: Vec<BTreeMap<&str, String>> = vec![];
    for (step, op) in w.iter().enumerate() {
      match op {
        0 => {
          sc.borrow_mut().push(Scope::new());
          m.push(BTreeMap::new());
        }
        1 => {
          same!("is there a scope to pop", m.pop().is_some(), sc.borrow_mut().pop().is_some());
        }
        n => {
          let (n, v) = (ODD[n - 2], step.to_string());
          if m.is_empty() {
            m.push(BTreeMap::new());
          }
          let was = m.last_mut().unwrap().insert(n, v.clone());
          let got = ctx.borrow_mut().set_scope_variable(n, VariableType::String(v));
          same!("the value replaced", was, text_of(got)?);
        }
      }
      st.states += 1;
      st.transitions += 1;
    }
    for n in ODD {
      let exp = m.iter().rev().find_map(|s| s.get(n)).cloned();
      same!(format!("variable {:?}", n), exp, text_of(ctx.borrow().get_scope_variable(n))?);
      st.outcome(hash_str(exp.as_deref().unwrap_or("none")));
    }
    st.traces += 1;
    Ok(())
  })
}

fn text_of(v: Option<VariableType>) -> Result<Option<String>, String> {
  match v {
    None => Ok(None),
    Some(VariableType::String(s)) => Ok(Some(s)),
    Some(_) => Err("a variable that is no text".into()),
  }
}

/// Many variables in many scopes.
fn many_variables(deep: bool) -> Box<dyn Space> {
  let sizes = [1usize, 2, 7, 8, 9, 15, 16, 17, 33, 64, 65, 130];
  let dims = [sizes.len() as u64, sizes.len() as u64, q(6, 12, deep) as u64];
  let show = move |i: u64| {
    let d = digits(i, &dims);
    format!("{} scopes of {} names, the names shifted by {}", sizes[d[0]], sizes[d[1]], d[2])
  };
  cases("many variables in many scopes", dims.iter().product(), show, move |i, st| {
    let d = digits(i, &dims);
    let (depth, width, shift) = (sizes[d[0]], sizes[d[1]], d[2]);
    let parser = Parser::new("abc");
    let ctx = ParserContext::new(&parser, "Test");
    let sc = ctx.borrow().get_scope();
    let name = |l: usize, k: usize| (l * shift + k) % (width + 5);
    let mut m: Vec<HashMap<usize, String>> = vec![];
    let check = |m: &Vec<HashMap<usize, String>>, st: &mut Stats| -> Chk {
      for n in 0..width + 5 {
        let exp = m.iter().rev().find_map(|s| s.get(&n)).cloned();
        same!(format!("variable N{} in {} scopes", n, m.len()), exp, text_of(sc.borrow().get(&format!("N{}", n)))?);
        st.transitions += 1;
      }
      st.states += 1;
      Ok(())
    };
    for l in 0..depth {
      sc.borrow_mut().push(Scope::new());
      let mut s = HashMap::new();
      for k in 0..width {
        let v = format!("{}/{}", l, k);
        sc.borrow_mut().set(&format!("N{}", name(l, k)), VariableType::String(v.clone()));
        s.insert(name(l, k), v);
      }
      m.push(s);
      if l % 8 == 0 || l + 1 == depth {
        check(&m, st)?;
      }
    }
    while !m.is_empty() {
      sc.borrow_mut().pop();
      m.pop();
      if m.len() % 8 == 0 {
        check(&m, st)?;
      }
    }
    st.traces += 1;
    st.outcome(i);
    Ok(())
  })
}

// ------------------------------------------------------------------ C16

fn c16(deep: bool) -> Spaces {
  let mut pieces: Vec<&str> = CHARS.to_vec();
  pieces.extend(["\n", "\r\n", "a", "\u{b}", "\u{c}", "\u{85}", "\u{2029}"]);
  let mut v = vec![
    lines("lines of odd characters", strings(&pieces, q(3, 4, deep)), &[("a/b.x", "m é")]),
    lines(
      "odd file names and messages",
      strings(&["a", "\n", "é"], q(3, 4, deep)),
      &[("", ""), ("", "m"), ("a", ""), ("é b", "{}"), ("{}", "%s {0}"), ("a\nb", "\n"), ("a@[1:1]: x", "Error: "), (" ", " m "), ("C:\\x", "\"m\""), ("-", "m\n\n")],
    ),
  ];
  let far: Vec<String> = {
    let mut v = vec![];
    for n in q(300, 900, deep)..q(310, 930, deep) {
      for line in ["\n", "ab\r\n", "\r", "😀\n", "a\u{2028}\n"] {
        v.push(format!("{}{}", line.repeat(n), "é".repeat(n)));
        v.push(format!("{}{}", "x".repeat(n), line.repeat(n)));
      }
    }
    v
  };
  v.push(lines("far into a source", far, &[("a/b.x", "m é")]));
  v
}

// ------------------------------------------------------------------ C17

/// Visits a list of children with a list of hooks, failing at each call in turn.
fn visits(names: &[String], parents: &[usize], hooks: &[String], fails: &[usize], st: &mut Stats) -> Chk {
  let parser = Parser::new("abcdef");
  let toks: Vec<TokenRef> = names
    .iter()
    .enumerate()
    .map(|(k, n)| {
      if k % 5 == 4 {
        PinToken::new(&parser, n.clone(), SourceRange::new(0, 1))
      } else {
        StandardToken::new(&parser, n.clone(), SourceRange::new(0, 1))
      }
    })
    .collect();
  for (k, p) in parents.iter().enumerate().skip(1) {
    toks[*p].borrow_mut().add_child(toks[k].clone());
  }
  let index: HashMap<usize, usize> = toks.iter().enumerate().map(|(k, t)| (Rc::as_ptr(t) as *const () as usize, k)).collect();
  let full: Vec<(usize, usize)> = names
    .iter()
    .enumerate()
    .filter_map(|(k, n)| hooks.iter().position(|h| h == n).or_else(|| hooks.iter().position(|h| h == "*")).map(|h| (h, k)))
    .collect();
  let mut r = Ok(());
  for f in fails.iter().filter(|f| **f <= full.len()) {
    let exp: Vec<(usize, usize)> = full.iter().take(if *f == 0 { full.len() } else { *f }).copied().collect();
    let log: RefCell<Vec<(usize, usize)>> = RefCell::new(vec![]);
    let got = guarded(|| {
      let mut v = TokenVisitor::new();
      for (hi, x) in hooks.iter().enumerate() {
        let (log, index) = (&log, &index);
        v.add_visitor(
          x,
          Box::new(move |t: TokenRef| {
            log.borrow_mut().push((hi, index.get(&(Rc::as_ptr(&t) as *const () as usize)).copied().unwrap_or(9999)));
            if log.borrow().len() == *f {
              return Err(ParseError::new(&format!("stop {}", f)));
            }
            Ok(())
          }),
        );
      }
      // the same visitor again: the calls are the same
      let a = v.visit(toks[0].clone()).map_err(|e| e.message);
      if a.is_ok() {
        let n = log.borrow().len();
        let b = v.visit(toks[0].clone()).map_err(|e| e.message);
        let again = log.borrow_mut().split_off(n);
        if b.is_err() != (*f > n) && *f == 0 || again != *log.borrow() && *f == 0 {
          return Err("the second visit differs".to_string());
        }
      }
      a
    });
    st.traces += 1;
    st.states += 1;
    st.transitions += exp.len() as u64;
    st.outcome(exp.iter().fold(5, |h, x| mix(h, (x.0 * 4096 + x.1) as u64)));
    let exp_r = if *f == 0 { Ok(()) } else { Err(format!("stop {}", f)) };
    if got != Ok(exp_r) || *log.borrow() != exp {
      r = Err(format!("error at call {}: expected {:?}, got {:?} and {:?}", f, exp, got, log.borrow()));
      break;
    }
  }
  crate::real::free_tok(&toks[0]);
  r
}

fn odd_hooks(deep: bool) -> Box<dyn Space> {
  const N: [&str; 8] = ["", "*", "**", "é", "A", "a", "A*", " A"];
  let shapes: Vec<Vec<usize>> = vec![vec![usize::MAX], vec![usize::MAX, 0], vec![usize::MAX, 0, 0], vec![usize::MAX, 0, 1]];
  let shapes = &shapes[..q(4, 4, deep)];
  let mut starts = vec![0u64];
  let hooks = words(8, q(2, 3, deep));
  for s in shapes {
    starts.push(starts.last().unwrap() + 8u64.pow(s.len() as u32) * hooks);
  }
  let shapes = shapes.to_vec();
  let len = *starts.last().unwrap();
  let case = move |i: u64| {
    let k = starts.iter().rposition(|s| *s <= i).unwrap();
    let sh = shapes[k].clone();
    let i = i - starts[k];
    let names: Vec<String> = digits(i / hooks, &vec![8; sh.len()]).iter().map(|x| N[*x].to_string()).collect();
    let h: Vec<String> = word(8, i % hooks).iter().map(|x| N[*x].to_string()).collect();
    (sh, names, h)
  };
  let c2 = case.clone();
  cases(
    "visits with odd names",
    len,
    move |i| format!("tree (parents, names, hooks) {:?}", c2(i)),
    move |i, st| {
      let (sh, names, h) = case(i);
      visits(&names, &sh, &h, &[0, 1, 2, 3], st)
    },
  )
}

fn many_hooks(deep: bool) -> Box<dyn Space> {
  let sizes: Vec<usize> = if deep { (1..70).chain([100, 128, 257, 300]).collect() } else { vec![5, 8, 9, 16, 17, 31, 33, 64, 65, 128, 257] };
  let dims = [sizes.len() as u64, 6, 4];
  let show = {
    let s = sizes.clone();
    move |i: u64| {
      let d = digits(i, &dims);
      format!("{} hooks, catch-all variant {}, names with stride {}", s[d[0]], d[1], d[2] + 1)
    }
  };
  cases("visits with many hooks", dims.iter().product(), show, move |i, st| {
    let d = digits(i, &dims);
    let n = sizes[d[0]];
    let mut hooks: Vec<String> = (0..n).map(|k| format!("N{}", (k * (d[2] + 1)) % (n + 3))).collect();
    match d[1] {
      0 => {}
      1 => hooks.insert(0, "*".into()),
      2 => hooks.push("*".into()),
      3 => hooks.insert(n / 2, "*".into()),
      4 => {
        hooks.insert(n - 1, "*".into());
        hooks.push("*".into());
      }
      _ => hooks.extend(hooks.clone()),
    }
    let t = n + 6;
    let names: Vec<String> = (0..t).map(|k| format!("N{}", (k * 5 + 1) % (n + 5))).collect();
    // a star, with every fourth token below the one before
    let parents: Vec<usize> = (0..t).map(|k: usize| if k == 0 { usize::MAX } else if k % 4 == 3 { k - 1 } else { 0 }).collect();
    visits(&names, &parents, &hooks, &[0, 1, n / 2 + 1, n, n + 1], st)
  })
}

// ------------------------------------------------------------------ C18

fn new_token(pin: bool, parser: &adextopa_core::parser::ParserRef, name: &str) -> TokenRef {
  if pin {
    PinToken::new(parser, name.to_string(), SourceRange::new(0, 1))
  } else {
    StandardToken::new(parser, name.to_string(), SourceRange::new(0, 1))
  }
}

/// Attributes, values and names of odd characters.
fn odd_attributes(deep: bool) -> Box<dyn Space> {
  const K: [&str; 7] = ["", " ", "é", "a", "A", "value", "a b"];
  const V: [&str; 6] = ["", " ", "é\n", "a", "A", "\0"];
  let ops = (K.len() * V.len()) as u64;
  let len = words(ops, q(2, 3, deep)) * 2;
  let show = move |i: u64| {
    let w: Vec<_> = word(ops, i / 2).iter().map(|x| (K[x / V.len()], V[x % V.len()])).collect();
    format!("{} token, attributes {:?}", if i % 2 == 0 { "standard" } else { "pin" }, w)
  };
  cases("odd attributes, names and values", len, show, move |i, st| {
    let w = word(ops, i / 2);
    let parser = Parser::new("xé");
    let t = new_token(i % 2 == 1, &parser, "T");
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for x in &w {
      let (k, v) = (K[x / V.len()], V[x % V.len()]);
      same!(format!("the previous {:?}", k), m.insert(k.into(), v.into()), t.borrow_mut().set_attribute(k, v));
      t.borrow_mut().set_name(v);
      same!("the name", v, t.borrow().get_name().as_str());
      t.borrow_mut().set_value(v);
      same!("the value", if v.is_empty() { "x" } else { v }, t.borrow().get_value().as_str());
      t.borrow_mut().set_matched_value(k);
      same!("the matched text", k, t.borrow().get_matched_value().as_str());
      st.states += 1;
      st.transitions += 4;
    }
    let b = t.borrow();
    let all: BTreeMap<String, String> = b.get_attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    same!("attributes", m, all);
    for k in K {
      same!(format!("attribute {:?}", k), m.get(k), b.get_attribute(k));
      same!(format!("has attribute {:?}", k), m.contains_key(k), b.has_attribute(k));
      for v in V {
        same!(format!("attribute {:?} equals {:?}", k, v), m.get(k).map_or(false, |x| x == v), b.attribute_equals(k, v));
      }
    }
    st.traces += 1;
    st.outcome(hash_str(&format!("{:?}", m)));
    Ok(())
  })
}

/// Many attributes and many children.
fn many_of_a_token(deep: bool) -> Box<dyn Space> {
  let sizes: Vec<usize> = if deep { (1..80).chain([127, 128, 129, 255, 256, 257, 500]).collect() } else { vec![3, 8, 9, 16, 17, 32, 33, 64, 65, 128, 257] };
  let dims = [sizes.len() as u64, 2, 5];
  let show = {
    let s = sizes.clone();
    move |i: u64| {
      let d = digits(i, &dims);
      format!("{} token with {} children and attributes, names with stride {}", if d[1] == 0 { "standard" } else { "pin" }, s[d[0]], d[2] + 1)
    }
  };
  cases("many children and attributes", dims.iter().product(), show, move |i, st| {
    let d = digits(i, &dims);
    let (n, pin, stride) = (sizes[d[0]], d[1] == 1, d[2] + 1);
    let parser = Parser::new("xé");
    let t = new_token(pin, &parser, "T");
    let name = |k: usize| format!("N{}", (k * stride) % (n + 1) / (1 + stride % 2));
    let kids: Vec<TokenRef> = (0..n).map(|k| new_token(k % 3 == 0, &parser, &name(k))).collect();
    let mut attrs: HashMap<String, String> = HashMap::new();
    for k in 0..n {
      t.borrow_mut().add_child(kids[k].clone());
      let (a, v) = (name(k * 3), k.to_string());
      same!(format!("the previous {:?}", a), attrs.insert(a.clone(), v.clone()), t.borrow_mut().set_attribute(&a, &v));
    }
    {
      let b = t.borrow();
      same!("the number of children", n, b.get_children().len());
      for (k, c) in b.get_children().iter().enumerate() {
        same!(format!("child {}", k), true, Rc::ptr_eq(c, &kids[k]));
      }
      same!("attributes", &attrs, b.get_attributes());
      for k in 0..n + 2 {
        let x = format!("N{}", k);
        let exp = (0..n).find(|j| name(*j) == x);
        let at = |t: Option<TokenRef>| t.map(|c| kids.iter().position(|o| Rc::ptr_eq(o, &c)).unwrap_or(9999));
        same!(format!("find_child {}", x), exp, at(b.find_child(&x)));
        same!(format!("has_child {}", x), exp.is_some(), b.has_child(&x));
        if k % 8 == 0 || k + 3 > n {
          let re = crate::real::cached_regex(&format!("^{}$", x));
          same!(format!("find_child_fuzzy {}", x), exp, at(b.find_child_fuzzy(&re)));
        }
        same!(format!("attribute {}", x), attrs.get(&x), b.get_attribute(&x));
        st.transitions += 4;
      }
    }
    st.traces += 1;
    st.states += n as u64;
    st.outcome(i);
    crate::real::free_tok(&t);
    Ok(())
  })
}

/// Flags are sets of bits.
fn flag_sets(deep: bool) -> Box<dyn Space> {
  const F: [u8; 9] = [0, 1, 2, 4, 6, 1 << 3, 1 << 7, u8::MAX, 0x71];
  let ops = F.len() as u64 * 3;
  let len = words(ops, q(3, 4, deep)) * 2;
  let show = move |i: u64| {
    let w: Vec<_> = word(ops, i / 2).iter().map(|x| format!("{} {:#x}", ["set", "enable", "disable"][x % 3], F[x / 3])).collect();
    format!("{} token: {}", if i % 2 == 0 { "standard" } else { "pin" }, w.join("; "))
  };
  cases("sets of flags", len, show, move |i, st| {
    let parser = Parser::new("x");
    let t = new_token(i % 2 == 1, &parser, "T");
    let mut m = 0u8;
    for x in word(ops, i / 2) {
      let f = F[x / 3];
      let mut b = t.borrow_mut();
      match x % 3 {
        0 => {
          b.set_flags(f);
          m = f;
        }
        1 => {
          b.enable_flags(f);
          m |= f;
        }
        _ => {
          b.disable_flags(f);
          m &= !f;
        }
      }
      st.states += 1;
      st.transitions += 1;
    }
    same!("flags", m, t.borrow_mut().get_flags());
    for bit in 0..8 {
      same!(format!("flag {}", bit), m >> bit & 1 == 1, t.borrow().flags_enabled(1 << bit));
    }
    st.traces += 1;
    st.outcome(m as u64);
    Ok(())
  })
}

// ------------------------------------------------------------------ C28

/// Lists of registrations under odd names, and long ones.
fn registrations(deep: bool) -> Box<dyn Space> {
  // names of the matchers, and the way each is registered
  const N: [&str; 7] = ["", "é", "Equals", "Program", "*", "X", "x"];
  let ops = N.len() as u64 * 4;
  let short = words(ops, q(3, 4, deep));
  let sizes = [10usize, 17, 33, 64, 100, 257];
  let len = short + sizes.len() as u64 * 12;
  let plan = move |i: u64| -> Vec<(String, usize)> {
    if i < short {
      word(ops, i).iter().map(|x| (N[x / 4].to_string(), x % 4)).collect()
    } else {
      let i = (i - short) as usize;
      let (n, v) = (sizes[i / 12], i % 12);
      (0..n).map(|k| (format!("N{}", k * (v % 3 + 1) % (n / 2 + 3)), if v < 8 { v % 4 } else { (k / 3 + v) % 4 })).collect()
    }
  };
  cases("lists of registrations", len, move |i| format!("registrations (name, kind) {:?}", plan(i)), move |i, st| {
    let plan = plan(i);
    let parser = Parser::new("ab");
    let ctx = ParserContext::new(&parser, "Test");
    let copy = ctx.borrow().clone_with_name("Copy");
    let ms: Vec<MatcherRef> = plan
      .iter()
      .map(|(n, _)| {
        let m: MatcherRef = adextopa_core::Equals!("a");
        m.borrow_mut().set_name(n);
        m
      })
      .collect();
    let mut m: HashMap<String, usize> = HashMap::new();
    let mut k = 0;
    while k < plan.len() {
      let kind = plan[k].1;
      // neighbours of the same kind that can be registered together are
      let mut e = k + 1;
      while kind >= 2 && e < plan.len() && plan[e].1 == kind && (kind == 2 || !plan[k..e].iter().any(|x| x.0 == plan[e].0)) {
        e += 1;
      }
      let c = if k % 2 == 0 { &ctx } else { &copy };
      let c = c.borrow();
      match kind {
        0 => c.register_matcher(ms[k].clone()),
        1 => c.register_matcher_with_name(&plan[k].0, ms[k].clone()),
        2 => c.register_matchers(ms[k..e].to_vec()),
        _ => c.register_matchers_with_names((k..e).map(|j| (plan[j].0.as_str(), ms[j].clone())).collect()),
      }
      for j in k..e {
        m.insert(plan[j].0.clone(), j);
      }
      k = e;
      st.transitions += 1;
    }
    for c in [&ctx, &copy] {
      let c = c.borrow();
      let mut names: Vec<String> = plan.iter().map(|p| p.0.clone()).collect();
      names.extend(N.iter().map(|s| s.to_string()));
      names.push("Equal".into());
      for n in &names {
        let got = c.get_registered_matcher(n).map(|x| ms.iter().position(|m| Rc::ptr_eq(m, &x)).unwrap_or(9999));
        same!(format!("pattern {:?}", n), m.get(n).copied(), got);
        let var = match c.get_scope_variable(n) {
          None => None,
          Some(VariableType::Matcher(x)) => Some(ms.iter().position(|m| Rc::ptr_eq(m, &x)).unwrap_or(9999)),
          Some(_) => Some(99999),
        };
        same!(format!("variable {:?}", n), m.get(n).copied(), var);
        st.outcome(got.unwrap_or(77777) as u64);
      }
      st.states += 1;
    }
    st.traces += 1;
    Ok(())
  })
}

/// Chains of copies, each with a position, name and level of its own.
fn copies(deep: bool) -> Box<dyn Space> {
  let n = q(5, 6, deep) as u64;
  let len = words(6, n as usize) * 3;
  let show = move |i: u64| format!("{}; every copy changed by {:?}", ["copies of the last copy", "copies of the first", "copies of the one before"][(i % 3) as usize], word(6, i / 3));
  cases("chains of copies", len, show, move |i, st| {
    let src = "aéb\ncd";
    let parser = Parser::new(src);
    let mut cs = vec![ParserContext::new(&parser, "Test")];
    let mut ms = vec![(0usize, src.len(), "Test".to_string(), 0usize, 0usize)];
    let toks: Vec<TokenRef> = (0..8).map(|k| new_token(false, &parser, &format!("T{}", k))).collect();
    let mut var: Option<String> = None;
    let mut stacks: Vec<Vec<usize>> = vec![vec![]];
    for (k, op) in word(6, i / 3).into_iter().enumerate() {
      let from = match i % 3 {
        0 => cs.len() - 1,
        1 => 0,
        _ => cs.len().saturating_sub(2),
      };
      let name = NAMES[(k * 3 + op) % NAMES.len()];
      let c = cs[from].borrow().clone_with_name(name);
      let mut m = ms[from].clone();
      let mut s = stacks[from].clone();
      m.2 = name.to_string();
      {
        let mut b = c.borrow_mut();
        match op {
          0 => {
            b.set_start(k + 1);
            m.0 = k + 1;
          }
          1 => {
            b.set_end(src.len() - k - 1);
            m.1 = src.len() - k - 1;
          }
          2 => {
            b.set_offset(SourceRange::new(k, k + 2));
            (m.0, m.1) = (k, k + 2);
          }
          3 => {
            b.set_debug_mode(k + 1);
            m.3 = k + 1;
          }
          4 => {
            b.set_scope_variable("V", VariableType::String(k.to_string()));
            var = Some(k.to_string());
          }
          _ => {
            b.push_token_to_stack(toks[k].clone());
            s.push(k);
          }
        }
      }
      cs.push(c);
      ms.push(m);
      stacks.push(s);
      st.transitions += 1;
      st.states += 1;
    }
    for (k, (c, m)) in cs.iter().zip(&ms).enumerate() {
      let b = c.borrow();
      same!(format!("position of context {}", k), (m.0, m.1), (b.offset.start, b.offset.end));
      same!(format!("name of context {}", k), m.2, b.name);
      same!(format!("debug level of context {}", k), m.3, b.debug_mode_level());
      same!(format!("variable of context {}", k), var, text_of(b.get_scope_variable("V"))?);
      let top = b.get_top_token_from_stack().map(|t| toks.iter().position(|x| Rc::ptr_eq(x, &t)).unwrap_or(99));
      same!(format!("top token of context {}", k), stacks[k].last().copied(), top);
    }
    st.traces += 1;
    st.outcome(hash_str(&format!("{:?}{:?}", ms, stacks)));
    Ok(())
  })
}

// ------------------------------------------------------------------ scripts

const OPEN: &str = "<!--[adextopa version='1'] ";

fn c20(deep: bool) -> Spaces {
  let mut long = vec![];
  for n in [5, 8, 16, 17, 33, 64, 65, 130] {
    for part in ["(<='a'>)", "<='b'>?", "(</[ab]/>)", "?<='a' k='v'>", "(<[(<='b'>)|<='a'>]>)", "(?<%'a','b',''>)", "!<='c'>"] {
      long.push(part.repeat(n));
      long.push(format!("(<{{{}}}>)", part.repeat(n)));
      long.push(format!("(<[{}(<='ab'>)]>*)", format!("<='b{}'>|", part.len()).repeat(n)));
      long.push(format!("({}{}{})", "<{(".repeat(n.min(40)), part, ")}>".repeat(n.min(40))));
      long.push(format!("({}{}{})", "<[<='c'>|(".repeat(n.min(40)), part, ")]>".repeat(n.min(40))));
    }
    for m in [n - 1, n, n + 1] {
      long.push(format!("(<='a'>{{{}}})(<='b'>)", m));
      long.push(format!("(<='a'>{{{},}})(<='b'>*)", m));
      long.push(format!("<='a'>{{2,{}}}(<='a'>)", m));
    }
    let defs: String = (0..n).map(|k| if k == 0 { "N0=?<='a'> ".to_string() } else { format!("N{}=N{} ", k, k - 1) }).collect();
    long.push(format!("{}{}-->(<N{}>)(<='b'>)", OPEN, defs, n - 1));
    let defs: String = (0..n).map(|k| format!("N{}=<{{(<='{}'>)}}> ", k, if k % 3 == 0 { "a" } else { "b" })).collect();
    for k in [0, 1, n / 2, n - 1] {
      long.push(format!("{}{}-->(<N{}>)?<N{}>", OPEN, defs, k, n - 1 - k));
    }
    let defs: String = (0..n).map(|k| format!("N{}=<{{(<='a'>)?<N{}>}}> ", k, (k + 1) % n)).collect();
    long.push(format!("{}{}-->(<N0>)", OPEN, defs));
  }
  let inputs: Vec<String> = {
    let mut v = strings(&["a", "b"], 3);
    for n in [4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 66, 130, 131] {
      v.push("a".repeat(n));
      v.push(format!("{}b", "a".repeat(n)));
      v.push("ab".repeat(n));
    }
    v
  };
  let mut odd = vec![];
  for c in CHARS.iter().chain(["\n", "\r\n", " ", "#", "<", "-->", "\"", "'", "/"].iter()) {
    let (s, r) = (c.replace('\'', "\\'"), c.replace('/', "\\/"));
    odd.push(format!("(<='{}'>*)", s));
    odd.push(format!("(<='a{}b'>)(<='{}'>)", s, s));
    odd.push(format!("(<='{}' k='{}'>)", s, s));
    odd.push(format!("(</[{}a]+/>)(<='b'>)", r));
    odd.push(format!("(</{}+/>)", r));
    odd.push(format!("(</[^{}]/>*)(<='{}'>)", r, s));
    odd.push(format!("(<%'{}','b','a'>)", s));
    odd.push(format!("(<%'a','{}',''>)(<='b'>)", s));
    odd.push(format!("(<%'a','b','{}'>)", s));
    odd.push(format!("(<={}>)", c));
    odd.push(format!("(<{}>)", c));
    odd.push(format!("{}(<='a'>)", c));
    odd.push(format!("(<='a'>){}", c));
    odd.push(format!("{}{}=<='a'>-->(<{}>)", OPEN, c, c));
  }
  let odd_in = {
    let mut v = vec![];
    for c in CHARS.iter().chain(["\n", "\r\n", " ", "#", "<", "-->", "\"", "'", "/"].iter()) {
      for t in ["{}", "{}{}", "a{}b{}", "{}a", "a{}b", "{}aab", "a{}", "b{}"] {
        v.push(t.replace("{}", c));
      }
    }
    v.push("ab".into());
    v
  };
  vec![
    scripts("long scripts", Texts::List(long), inputs, Want::Any),
    scripts("odd characters in scripts", Texts::List(odd), odd_in, Want::Any),
    scripts(
      "three definitions",
      Texts::Product(vec![
        dim(&[OPEN]),
        lists_of(
          &dim(&["A=<='a'> ", "A=B ", "B=<{(<='b'>)(?<A>)}> ", "B=<[(<C>)|(<='ab'>)]> ", "C=<A>+ ", "C=?<='b'> ", "A=!<='b'>"]),
          q(3, 4, deep),
        ),
        dim(&["-->(<A>)", "-->(?<B>)(<C>)", "-->(<{(<C>)(<A>)}>*)", "-->!<A>(<B>)"]),
      ]),
      strings(&["a", "b"], 3),
      Want::Any,
    ),
  ]
}

fn c21(deep: bool) -> Spaces {
  // scripts of every kind spoiled by one odd character somewhere
  let mut v = vec![];
  for s in super::script::seeds() {
    let cs: Vec<char> = s.chars().collect();
    for i in 0..=cs.len() {
      for c in CHARS.iter().chain(["\u{b}", "\"", "`", "~", "@", "$", "&", ";", ":", ".", "^", "0"].iter()) {
        v.push(format!("{}{}{}", cs[..i].iter().collect::<String>(), c, cs[i..].iter().collect::<String>()));
      }
      if deep {
        for (a, b) in [("\0", "'"), ("'", "'"), ("\"", "'"), ("/", "/"), ("(", ")"), ("<", ">"), ("{", "}"), ("-->", "<!--"), ("#", "\n")] {
          for j in i..=cs.len() {
            v.push(format!(
              "{}{}{}{}{}",
              cs[..i].iter().collect::<String>(),
              a,
              cs[i..j].iter().collect::<String>(),
              b,
              cs[j..].iter().collect::<String>()
            ));
          }
        }
      }
    }
  }
  v.sort();
  v.dedup();
  let mut big = vec![];
  for n in [100, 300, 1000] {
    for part in ["(<='a'>)", "<X>", " ", "\n", "#c\n", "(", "<", "a", "'", "/", "?", "|", "-->", "é"] {
      big.push(part.repeat(n));
      big.push(format!("(<='{}'>)", part.replace('\'', "").repeat(n)));
      big.push(format!("{}X=<='a'>-->{}", OPEN, part.repeat(n)));
      big.push(format!("{}{}X=<='a'>-->(<X>)", OPEN, part.repeat(n)));
      big.push(format!("(<='a'>){}(<='b'>)", part.repeat(n)));
    }
  }
  vec![
    scripts("one odd character somewhere", Texts::List(v), strings(&["a", "b"], 2), Want::Any),
    scripts("long invalid and valid scripts", Texts::List(big), strings(&["a", "b"], 1), Want::Any),
    logged(deep),
  ]
}

extern "C" {
  fn dup(fd: i32) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn close(fd: i32) -> i32;
}

/// What `f` writes to standard error.
fn stderr_of<T>(f: impl FnOnce() -> T) -> (T, String) {
  use std::io::{Read, Seek, SeekFrom, Write};
  use std::os::fd::AsRawFd;
  let path = format!("{}/stderr", scratch());
  let mut file = std::fs::File::options().create(true).truncate(true).read(true).write(true).open(&path).expect("scratch file");
  std::io::stderr().flush().ok();
  let r = unsafe {
    let old = dup(2);
    assert!(old >= 0 && dup2(file.as_raw_fd(), 2) >= 0, "dup");
    let r = guarded(f);
    dup2(old, 2);
    close(old);
    r
  };
  let mut s = vec![];
  file.seek(SeekFrom::Start(0)).ok();
  file.read_to_end(&mut s).ok();
  (r.unwrap_or_else(|p| std::panic::panic_any(p)), String::from_utf8_lossy(&s).to_string())
}

/// The flag that logs errors logs them, and changes nothing else.
fn logged(deep: bool) -> Box<dyn Space> {
  use adextopa_core::script::current::parser::{compile_script_from_file, compile_script_from_str, FLAG_LOG_STDERR};
  let chars: &[char] = if deep { &['<', '>', '\'', '(', ']', 'é', '\n', '?', ' '] } else { &['<'] };
  let mut v: Vec<String> = super::script::seeds().iter().enumerate().filter(|(k, _)| deep || k % 2 == 1).flat_map(|(_, s)| super::script::edits(s, chars)).collect();
  v.extend(super::script::seeds());
  // several errors at once
  let wrong = ["_a='1'", "_b='2'", "version='x'", "version=''", "version='1'", "a='1'", "_version='1'"];
  for w in lists_of(&wrong.map(|w| format!(" {}", w)), 3) {
    v.push(format!("<!--[adextopa {}]-->(<='a'>)", w));
    v.push(format!("(<='a' {}>)", w));
  }
  for w in lists_of(&["(<X _a='1'>)", "(<=''>)", "</(/>", "(<='a'>)", "?!<='a'>", "<='a'>{2,1}", "(<X"].map(|w| w.to_string()), 3) {
    v.push(w.clone());
    v.push(format!("{} X={} -->", OPEN, w));
  }
  v.push(format!("{} import {{ X }} from 'missing.axo'-->(<X>)", OPEN));
  v.push(format!("{} import {{ X }} from 'import.axo'-->(<X>)", OPEN));
  v.sort();
  v.dedup();
  let flags = [FLAG_LOG_STDERR, !FLAG_LOG_STDERR, u32::MAX];
  let show = {
    let v = v.clone();
    move |i: u64| format!("flags {:#x}, from a {}, script {:?}", flags[(i % 3) as usize], ["string", "file"][(i / 3 % 2) as usize], v[(i / 6) as usize])
  };
  cases("logged errors", v.len() as u64 * 6, show, move |i, st| {
    let f = flags[(i % 3) as usize];
    let text = &v[(i / 6) as usize];
    let compile = |flags: u32| {
      if i / 3 % 2 == 0 {
        compile_script_from_str(text, "Root".into(), flags)
      } else {
        let p = format!("{}/logged.axo", scratch());
        std::fs::write(&p, text).expect("scratch file");
        std::fs::write(format!("{}/import.axo", scratch()), "<!--[adextopa version='1'] import { Y } from 'missing.axo'-->").expect("scratch file");
        compile_script_from_file(&p, flags)
      }
    };
    let (quiet, nothing) = stderr_of(|| compile(0));
    let (loud, text) = stderr_of(|| compile(f));
    st.traces += 2;
    st.transitions += 1;
    st.states += 1;
    st.outcome(quiet.is_ok() as u64 + 2 * text.lines().count().min(5) as u64);
    same!("what is logged without the flag", "", nothing.as_str());
    if f & FLAG_LOG_STDERR == 0 {
      same!("what is logged with other flags", "", text.as_str());
    }
    match (quiet, loud) {
      (Ok(a), Ok(b)) => {
        same!("what is logged of a valid script", "", text.as_str());
        // (references are printed in any order)
        let sorted = |m: MatcherRef| {
          let mut b = m.borrow().to_string().into_bytes();
          b.sort();
          b
        };
        if sorted(a.clone()) != sorted(b.clone()) {
          return Err(format!("the matcher: expected {}, got {}", a.borrow().to_string(), b.borrow().to_string()));
        }
      }
      (Err(a), Err(b)) => {
        let a: Vec<_> = a.iter().map(|x| (x.message.clone(), x.range.map(|r| (r.start, r.end)))).collect();
        let b: Vec<_> = b.iter().map(|x| (x.message.clone(), x.range.map(|r| (r.start, r.end)))).collect();
        same!("the errors", a, b);
        if f & FLAG_LOG_STDERR != 0 {
          let mut at = 0;
          for (m, _) in &b {
            match text[at..].find(m.as_str()) {
              Some(n) => at += n + m.len(),
              None => return Err(format!("the error {:?} is not logged (in order) in {:?}", m, text)),
            }
          }
        }
      }
      (a, b) => return Err(format!("without the flag: {:?}, with it: {:?}", a.map(|_| ()), b.map(|_| ()))),
    }
    Ok(())
  })
}

fn c22(_deep: bool) -> Spaces {
  let mut v = vec![];
  for n in [1, 2, 9, 33, 100, 257] {
    for ws in [" ", "\n", "\r\n", "\t", "#c\n", "#\n", "# é '<\r\n", "\u{a0}", "\n#\n "] {
      let w = ws.repeat(n);
      for t in ["~(<='a'>)", "(<='a'>)~", "(<='a'>)~(<='b'>)", "<!--[adextopa version='1']~X=<='a'>~Y=<='b'>~-->~(<X>)~(<Y>)~", "(<{~(<='a'>)~(<='b'>)~}>)", "(~<~='a'~>~)"] {
        v.push(t.replace('~', &w));
      }
    }
  }
  vec![scripts("much white space and many comments", Texts::List(v), strings(&["a", "b"], 2), Want::Any)]
}

fn c23(deep: bool) -> Spaces {
  // a chain of files that import from each other
  let names: [&'static str; 6] = ["d/main.axo", "d/a.axo", "d/sub/b.axo", "d/sub/c.axo", "top.axo", "d/e.axo"];
  let next = |from: usize| ["a.axo", "sub/b.axo", "c.axo", "../../top.axo", "d/e.axo"][from];
  let mut files = vec![];
  for k in 0..6 {
    let mut v = vec![];
    let local = dim(&["X=<='a'>", "Y=<[(<X>)|<='b'>]>"]);
    let imports: Vec<String> = if k < 5 {
      vec![
        format!("import {{ X }} from '{}'", next(k)),
        format!("import {{ X as Y, _ as X }} from './{}'", next(k)),
      ]
    } else {
      vec!["X=<='b'>".into(), "Y=<='a'>\nX=<{(<Y>)?<='b'>}>".into()]
    };
    for i in &imports {
      for l in &local[1..=1] {
        v.push(format!("<!--[adextopa version='1' name='F{}']\n{}\n{}\n-->(<X>)", k, i, if i.contains(" Y") || i.contains("Y=") { "" } else { l.as_str() }));
      }
      v.push(format!("<!--[adextopa version='1']\n{}\n-->(<X>*)(<='b'>)", i));
    }
    let v = v.into_iter().map(Some).collect::<Vec<_>>();
    let v = if deep { v } else if k % 2 == 0 { v } else { v[..2].to_vec() };
    files.push((names[k], v));
  }
  let many = {
    let n = 40;
    let lib: String = (0..n).map(|k| format!("N{}=<='{}'>\n", k, if k % 3 == 0 { "a" } else { "b" })).collect();
    let mut mains = vec![];
    for (a, b) in [(0, n), (1, 2), (3, 20), (n - 1, n), (0, 17)] {
      let list: String = (a..b).map(|k| format!("N{}{}, ", k, if k % 2 == 0 { format!(" as M{}", n - k) } else { "".into() })).collect();
      for u in [format!("(<N{}>)(<M{}>)", a | 1, n - (a / 2 * 2)), format!("(<N{}>*)", (b - 1) | 1), format!("(<M{}>)", n - (b - 1) / 2 * 2)] {
        mains.push(Some(format!("{}import {{ {} }} from 'a.axo' -->{}", OPEN, list, u)));
      }
    }
    vec![("d/main.axo", mains), ("d/a.axo", vec![Some(format!("{}{}-->", OPEN, lib))])]
  };
  let odd_names = {
    let paths = ["é.axo", "a b.axo", "a'b.axo", "a#b.axo", "-->.axo", "a.axo.axo", "noext", "A.axo", "a\nb.axo", ".axo", "x\\y.axo"];
    let mains: Vec<Option<String>> = paths
      .iter()
      .map(|p| Some(format!("{}import {{ X }} from '{}' -->(<X>)", OPEN, p.replace('\\', "\\\\").replace('\'', "\\'").replace('\n', "\\n"))))
      .chain(paths.iter().map(|p| Some(format!("{}import {{ X }} from '{}' -->(<X>)", OPEN, p.replace('\'', "\\'")))))
      .collect();
    let lib = |n: &str| vec![Some(format!("{}X=<='{}'>-->", OPEN, n))];
    vec![
      ("d/main.axo", mains),
      ("d/é.axo", lib("a")),
      ("d/a b.axo", lib("b")),
      ("d/a'b.axo", lib("aa")),
      ("d/a#b.axo", lib("ab")),
      ("d/-->.axo", lib("ba")),
      ("d/a.axo.axo", lib("bb")),
      ("d/noext", lib("a")),
      ("d/A.axo", lib("b")),
      ("d/a\nb.axo", lib("ab")),
      ("d/x\\y.axo", lib("ba")),
    ]
  };
  vec![
    file_set("chains of files", files, strings(&["a", "b"], 2), Want::Any),
    file_set("imports of many names", many, strings(&["a", "b"], 2), Want::Any),
    file_set("odd names of files", odd_names, strings(&["a", "b"], 2), Want::Any),
  ]
}

fn c26(_deep: bool) -> Spaces {
  let mut v = vec![];
  for n in [4, 8, 9, 17, 33, 65, 130] {
    let all: String = (0..n).map(|k| format!("k{}='{}' ", k, k)).collect();
    let dup: String = (0..n).map(|k| format!("k{}='{}' ", k % 5, k)).collect();
    let val = format!("k='{}'", "é\\'".repeat(n));
    let key = format!("{}='v'", "k".repeat(n));
    for a in [&all, &dup, &val, &key] {
      v.push(format!("(<='a' {}>)", a));
      v.push(format!("(<='a'>)(<{{(<='b'>)}} {}>)", a));
      v.push(format!("{}X=<='a' {}>-->(<X>)(<X {}>)", OPEN, a, a));
      v.push(format!("<!--[adextopa version='1' {}]-->(<='a'>)", a));
      v.push(format!("(<='a' {}>*)(<[<='b' {}>|(<='b'>)] {}>)", a, a, a));
    }
  }
  for c in CHARS.iter().chain(["\"", "<", ">", "/", "]", "-->", "#", "}"].iter()) {
    v.push(format!("(<='a' k='{}'>)", c));
    v.push(format!("(<='a' k='x{}\\'' l='{}'>)", c, c));
    v.push(format!("(<='a' {}='v'>)", c));
    v.push(format!("(<='a' k{}='v'>)", c));
    v.push(format!("(<='a' k={}v{}>)", c, c));
    v.push(format!("{}X=<='a' k='{}'>-->(<X l='{}'>)", OPEN, c, c));
    v.push(format!("<!--[adextopa version='1' name='{}' k='{}']-->(<='a'>)", c, c));
  }
  vec![scripts("many, long and odd attributes", Texts::List(v), strings(&["a", "b"], 2), Want::Any)]
}

// ------------------------------------------------------------------ C30: sources

pub fn c30(deep: bool) -> Spaces {
  let mut texts: Vec<Vec<u8>> = vec![];
  let mut pieces: Vec<&str> = CHARS.to_vec();
  pieces.extend(["a", "\n", "\r\n", " ", "é"]);
  texts.extend(strings(&pieces, q(2, 3, deep)).into_iter().map(|s| s.into_bytes()));
  // what is and what is not UTF-8
  const BYTES: [u8; 12] = [b'a', b'\n', 0, 0x80, 0xbf, 0xc3, 0xa9, 0xe2, 0xed, 0xf0, 0xf4, 0xff];
  for i in 0..words(12, q(3, 4, deep)) {
    texts.push(word(12, i).iter().map(|k| BYTES[*k]).collect());
  }
  for n in [255usize, 256, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20] {
    for p in ["a", "é", "\n", "😀", "ab\r\n", "日"] {
      for lead in 1..4 {
        // a character across every boundary
        texts.push(format!("{}{}", &"abc"[..lead], p.repeat(n / p.len() + 1)).into_bytes());
      }
      let mut t = p.repeat(n / p.len() + 1).into_bytes();
      texts.push(t.clone());
      t.truncate(n);
      texts.push(t.clone());
      t.push(0xff);
      texts.push(t);
    }
  }
  let texts = Rc::new(texts);
  let (t1, t2) = (texts.clone(), texts.clone());
  let short = |t: &[u8]| format!("{:?}{}", String::from_utf8_lossy(&t[..t.len().min(40)]), if t.len() > 40 { format!(" ... ({} bytes)", t.len()) } else { "".into() });
  let contents = cases("contents of files", texts.len() as u64, move |i| format!("a file of {}", short(&t1[i as usize])), move |i, st| {
    let t = &t2[i as usize];
    let path = format!("{}/source.txt", scratch());
    std::fs::write(&path, t).map_err(|e| e.to_string())?;
    let r = Parser::new_from_file(&path);
    // what is done to the file later does not matter
    std::fs::write(&path, "other").map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&path);
    st.traces += 1;
    st.states += 1;
    st.transitions += 1;
    match (std::str::from_utf8(t), r) {
      (Err(_), Err(_)) => {
        st.outcome(0);
        Ok(())
      }
      (Err(_), Ok(p)) => Err(format!("it is not UTF-8, but the source is {:?}", short(p.borrow().get_source().as_bytes()))),
      (Ok(_), Err(e)) => Err(format!("it was not read: {}", e)),
      (Ok(s), Ok(p)) => {
        st.outcome(hash_str(&s[..s.char_indices().nth(20).map_or(s.len(), |x| x.0)]));
        same_source(s, &path, &p, st)
      }
    }
  });
  let all = Rc::new(strings(&pieces, q(3, 4, deep)));
  let all2 = all.clone();
  let named = cases("texts and file names", all.len() as u64, move |i| format!("the text {:?}", all2[i as usize]), move |i, st| {
    let s = &all[i as usize];
    let p = Parser::new(s);
    same_source(s, "", &p, st)?;
    for f in ["", "a", "é b", "a/b.x", "\n", "a\\b"] {
      same_source(s, f, &Parser::new_with_file_name(s, f), st)?;
    }
    st.traces += 7;
    st.states += 7;
    st.transitions += 7;
    st.outcome(hash_str(s));
    Ok(())
  });
  // a name is any text, and stays as it is
  let pool = ["a", "B", "/", "\\", ".", ":", " ", "é", "\0", "'", "%20", "~", "*", "@[1:2]", "\t", "file://", "\u{301}"];
  let odd = Rc::new(strings(&pool, q(3, 4, deep)));
  let odd2 = odd.clone();
  let names = cases("any text as a file name", odd.len() as u64, move |i| format!("the file name {:?}", odd2[i as usize]), move |i, st| {
    for s in ["", "a\né"] {
      same_source(s, &odd[i as usize], &Parser::new_with_file_name(s, &odd[i as usize]), st)?;
      st.traces += 1;
      st.states += 1;
      st.transitions += 1;
    }
    st.outcome(hash_str(&odd[i as usize]));
    Ok(())
  });
  // names of files that can and that can not be read
  const FILES: [&str; 22] = ["d\\f", "C:", "%20", "~", "*", "'q'", "a\n", "e\u{301}", "f", "é.x", "a b", "d/f", "d//f", "./f", "d/../f", "missing", "d", "d/missing", "missing/../f", "", "link", "loop"];
  let files = cases("names of files", FILES.len() as u64, |i| format!("the file name {:?}", FILES[i as usize]), |i, st| {
    let dir = format!("{}/names", scratch());
    let _ = std::fs::create_dir_all(format!("{}/d", dir));
    for f in ["d\\f", "C:", "%20", "~", "*", "'q'", "a\n", "e\u{301}", "f", "é.x", "a b", "d/f"] {
      std::fs::write(format!("{}/{}", dir, f), format!("text of {}", f)).map_err(|e| e.to_string())?;
    }
    let _ = std::os::unix::fs::symlink(format!("{}/d/f", dir), format!("{}/link", dir));
    let _ = std::os::unix::fs::symlink(format!("{}/loop", dir), format!("{}/loop", dir));
    let f = FILES[i as usize];
    let exp = match f {
      "f" | "./f" | "d/../f" => Some("text of f"),
      "é.x" => Some("text of é.x"),
      "a b" => Some("text of a b"),
      "d/f" | "d//f" | "link" => Some("text of d/f"),
      "d\\f" => Some("text of d\\f"),
      "C:" => Some("text of C:"),
      "%20" => Some("text of %20"),
      "~" => Some("text of ~"),
      "*" => Some("text of *"),
      "'q'" => Some("text of 'q'"),
      "a\n" => Some("text of a\n"),
      "e\u{301}" => Some("text of e\u{301}"),
      _ => None,
    };
    let path = if f.is_empty() { String::new() } else { format!("{}/{}", dir, f) };
    let r = guarded(|| Parser::new_from_file(&path));
    let _ = std::fs::remove_dir_all(&dir);
    st.traces += 1;
    st.states += 1;
    st.transitions += 1;
    st.outcome(i);
    match (exp, r) {
      (_, Err(p)) => Err(format!("it panicked: {}", p)),
      (None, Ok(Err(_))) => Ok(()),
      (Some(s), Ok(Ok(p))) => same_source(s, &path, &p, st),
      (e, Ok(r)) => Err(format!("expected {:?}, got {:?}", e, r.map(|p| p.borrow().get_source().clone()).map_err(|e| e.to_string()))),
    }
  });
  vec![contents, named, names, files]
}

/// A parser of this text and file name, and what is parsed with it.
fn same_source(s: &str, file: &str, p: &adextopa_core::parser::ParserRef, st: &mut Stats) -> Chk {
  if p.borrow().get_source().as_str() != s {
    let got = p.borrow().get_source().clone();
    let at = got.bytes().zip(s.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(s.len()));
    return Err(format!("the source differs at byte {} (lengths {} and {})", at, s.len(), got.len()));
  }
  let ctx = ParserContext::new(p, "Test");
  same!("the end of the source", s.len(), ctx.borrow().offset.end);
  let r = SourceRange::new(s.len(), s.len());
  same!("an error text", crate::model::error_text(s, file, "m", (s.len(), s.len())), ctx.borrow().get_error_as_string("m", &r));
  let m: MatcherRef = adextopa_core::Program!("P"; adextopa_core::Matches!("All"; r"(?s)\A.*\z"));
  let t = guarded(|| ParserContext::tokenize(ctx.clone(), m))?;
  match t {
    Ok(t) => {
      let kids = t.borrow().get_children().clone();
      // an empty match is none
      let got = if s.is_empty() { String::new() } else { kids.first().map_or("nothing".to_string(), |k| k.borrow().get_value().clone()) };
      if got != s {
        return Err(format!("all of the text: {} bytes expected, {} got", s.len(), got.len()));
      }
      crate::real::free_tok(&t);
    }
    Err(e) => {
      if !s.is_empty() {
        return Err(format!("all of the text: it failed with {:?}", e));
      }
    }
  }
  st.transitions += 1;
  Ok(())
}

// ------------------------------------------------------------------ C31: printing

/// Line by line, apart from how far they are indented.
fn squeezed(s: &str) -> String {
  s.split('\n').map(|l| l.trim_start_matches(' ')).collect::<Vec<_>>().join("\n")
}

struct Shown {
  name: String,
  pin: bool,
  cap: (usize, usize),
  mat: (usize, usize),
  value: Option<String>,
  attr: Option<(String, String)>,
}

fn printed(i: usize, nodes: &[Shown], par: &[usize], src: &str, linked: bool) -> String {
  let n = &nodes[i];
  let text = |r: (usize, usize)| src.get(r.0..r.1.min(src.len())).unwrap_or("").to_string();
  let kids: String = (i + 1..par.len()).filter(|k| par[*k] == i).map(|k| format!("\n{}\n),\n", printed(k, nodes, par, src, linked))).collect();
  let value = match (&n.attr, &n.value) {
    (Some((k, v)), _) if k == "__value" => v.clone(),
    (_, Some(v)) if !v.is_empty() => v.clone(),
    _ => text(n.cap),
  };
  let parent = if i > 0 && linked { nodes[par[i]].name.clone() } else { "None".into() };
  let attrs = n.attr.as_ref().map_or("{}".into(), |(k, v)| format!("{{{:?}: {:?}}}", k, v));
  format!(
    "{}(\nValueRange({}, {}),\nRawRange({}, {}),\nValue({}),\nRawValue({}),\nParent({}),\nAttributes {}\nChildren [{}],",
    n.name, n.cap.0, n.cap.1, n.mat.0, n.mat.1, value, text(n.mat), parent, attrs, kids
  )
}

/// Builds the tree, prints it and compares.
fn print_and_compare(nodes: &[Shown], par: &[usize], src: &str, linked: bool, st: &mut Stats) -> Chk {
  let parser = Parser::new(src);
  let toks: Vec<TokenRef> = nodes
    .iter()
    .map(|n| {
      let (c, m) = (SourceRange::new(n.cap.0, n.cap.1), SourceRange::new(n.mat.0, n.mat.1));
      let t = if n.pin {
        PinToken::new_with_matched_range(&parser, n.name.clone(), c, m)
      } else {
        StandardToken::new_with_matched_range(&parser, n.name.clone(), c, m)
      };
      if let Some(v) = &n.value {
        t.borrow_mut().set_value(v);
      }
      if let Some((k, v)) = &n.attr {
        t.borrow_mut().set_attribute(k, v);
      }
      t
    })
    .collect();
  for (k, p) in par.iter().enumerate().skip(1) {
    toks[*p].borrow_mut().add_child(toks[k].clone());
    if linked {
      toks[k].borrow_mut().set_parent(Some(toks[*p].clone()));
    }
  }
  let mut r = Ok(());
  for k in 0..nodes.len().min(4) {
    let exp = squeezed(&printed(k, nodes, par, src, linked));
    // flags are not printed, and have no effect on what is
    for (display, flags) in [(false, 0), (true, 0), (false, 1u8), (false, 2), (true, 2), (false, 4), (true, 0xff)] {
      for (j, t) in toks.iter().enumerate() {
        t.borrow_mut().disable_flags(0xff);
        if flags != 2 || (j + k) % 2 == 0 {
          t.borrow_mut().enable_flags(flags);
        }
      }
      let got = guarded(|| {
        let b = toks[k].borrow();
        if display {
          format!("{}", &**b)
        } else {
          format!("{:?}", &**b)
        }
      });
      st.traces += 1;
      st.transitions += 1;
      let got = match got {
        Ok(g) => squeezed(&g),
        Err(p) => format!("it panicked: {}", p),
      };
      if got != exp {
        r = Err(format!("printing token {}: expected\n    {}\n    got\n    {}", k, exp, got));
      }
      st.outcome(hash_str(&exp));
    }
  }
  // nothing changed
  for (k, t) in toks.iter().enumerate() {
    let b = t.borrow();
    let kids = b.get_children().iter().map(|c| toks.iter().position(|x| Rc::ptr_eq(x, c)).unwrap_or(999)).collect::<Vec<_>>();
    let exp: Vec<usize> = (k + 1..par.len()).filter(|j| par[*j] == k).collect();
    if kids != exp || *b.get_name() != nodes[k].name || b.get_parent().is_some() != (linked && k > 0) {
      r = Err("printing changed the tree".into());
    }
  }
  st.states += nodes.len() as u64;
  for t in &toks {
    t.borrow_mut().set_parent(None);
    t.borrow_mut().set_children(vec![]);
  }
  r
}

/// What is printed of the tokens of a parse of any text.
pub fn print_parse(text: &str, st: &mut Stats) -> Chk {
  let src = format!("<{}>{}", text, text);
  let parser = Parser::new(&src);
  let ctx = ParserContext::new(&parser, "Test");
  let m: MatcherRef = adextopa_core::Program!("P"; adextopa_core::Sequence!("S"; "<", ">", ""), adextopa_core::Loop!("L"; adextopa_core::Matches!("M"; r"(?s).\s*")));
  let t = match guarded(|| ParserContext::tokenize(ctx, m))? {
    Ok(t) => t,
    Err(e) => {
      return if text.is_empty() { Ok(()) } else { Err(format!("it failed with {:?}", e)) };
    }
  };
  fn show(t: &TokenRef, src: &str, parent: &str) -> String {
    let b = t.borrow();
    let r = |r: &SourceRange| (r.start, r.end);
    let (c, m) = (r(b.get_captured_range()), r(b.get_matched_range()));
    let kids: String = b.get_children().iter().map(|k| format!("\n{}\n),\n", show(k, src, b.get_name()))).collect();
    format!(
      "{}(\nValueRange({}, {}),\nRawRange({}, {}),\nValue({}),\nRawValue({}),\nParent({}),\nAttributes {:?}\nChildren [{}],",
      b.get_name(), c.0, c.1, m.0, m.1, &src[c.0..c.1], &src[m.0..m.1], parent, b.get_attributes(), kids
    )
  }
  let exp = squeezed(&show(&t, &src, "None"));
  let got = guarded(|| squeezed(&format!("{:?}", t.borrow())))?;
  st.traces += 1;
  st.states += 1;
  st.transitions += 1;
  st.outcome(hash_str(&exp));
  crate::real::free_tok(&t);
  if exp != got {
    return Err(format!("expected\n    {}\n    got\n    {}", exp, got));
  }
  Ok(())
}

pub fn c31(deep: bool) -> Spaces {
  const SRC: &str = "aé\nb (c), d";
  let kinds = || -> Vec<(&'static str, bool, (usize, usize), (usize, usize), Option<&'static str>, Option<(&'static str, &'static str)>)> {
    vec![
      ("A", false, (0, 1), (0, 3), None, None),
      ("é b", false, (1, 5), (1, 5), Some("v w"), Some(("k", "x\"y"))),
      ("", true, (3, 3), (2, 9), None, None),
      ("Children", false, (0, 12), (5, 30), Some(""), Some(("__value", "attr\nibute"))),
      ("A", true, (4, 8), (1, 3), Some("Value(\n)"), None),
      ("None", false, (6, 7), (0, 0), None, Some(("", ""))),
    ]
  };
  let mut shapes: Vec<Vec<usize>> = vec![];
  for n in 1..=q(4, 5, deep) {
    shapes.extend(trees(n));
  }
  let mut starts = vec![0u64];
  for s in &shapes {
    starts.push(starts.last().unwrap() + 6u64.pow(s.len() as u32) * 2);
  }
  let len = *starts.last().unwrap();
  let case = move |i: u64| {
    let k = starts.iter().rposition(|s| *s <= i).unwrap();
    let i = i - starts[k];
    (shapes[k].clone(), digits(i / 2, &vec![6; shapes[k].len()]), i % 2 == 1)
  };
  let c2 = case.clone();
  let small = cases("all small trees", len, move |i| format!("tree (parents, kinds of tokens, linked) {:?}", c2(i)), move |i, st| {
    let (par, ks, linked) = case(i);
    let all = kinds();
    let nodes: Vec<Shown> = ks
      .iter()
      .map(|k| {
        let x = &all[*k];
        // a pin keeps its attributes apart from its value
        Shown {
          name: x.0.into(),
          pin: x.1,
          cap: x.2,
          mat: x.3,
          value: x.4.map(|s| s.into()),
          attr: x.5.map(|(a, b)| (a.into(), b.into())),
        }
      })
      .collect();
    print_and_compare(&nodes, &par, SRC, linked, st)
  });
  let sizes: Vec<usize> = vec![5, 8, 9, 11, 16, 17, 33, 64, 65, 100, 101, 102, 128, 129, 130, 256, 257, 258, 1000, 1025];
  let s2 = sizes.clone();
  let none = usize::MAX;
  let large = cases(
    "large trees",
    sizes.len() as u64 * 4,
    move |i| format!("{} tokens, {}", s2[(i / 4) as usize], ["a chain", "a star", "a comb", "a binary tree"][(i % 4) as usize]),
    move |i, st| {
      // what is printed of a chain grows with the square of its length, and doubles per quoting
      let n = sizes[(i / 4) as usize].min(if i % 4 == 0 { 40 } else { 5000 });
      let par: Vec<usize> = match i % 4 {
        0 => (0..n).map(|k: usize| k.wrapping_sub(1)).collect(),
        1 => (0..n).map(|k| if k == 0 { none } else { 0 }).collect(),
        2 => (0..n.min(40)).map(|k: usize| if k == 0 { none } else if k % 2 == 1 { k - 1 } else { k - 2 }).collect(),
        _ => {
          // numbered in preorder
          fn go(p: usize, depth: usize, par: &mut Vec<usize>, max: usize) {
            if par.len() >= max {
              return;
            }
            let me = par.len();
            par.push(p);
            if depth > 0 {
              go(me, depth - 1, par, max);
              go(me, depth - 1, par, max);
            }
          }
          let mut v = vec![];
          go(none, 8, &mut v, n);
          v
        }
      };
      let nodes: Vec<Shown> = (0..par.len())
        .map(|k| Shown {
          name: format!("N{}", k),
          pin: k % 7 == 6,
          cap: (k % 5 * 0 + 3, 4 + k % 9),
          mat: (0, 3 + k % 4),
          value: if k % 3 == 0 { Some(format!("v{}", k)) } else { None },
          attr: if k % 4 == 1 { Some(("k".into(), k.to_string())) } else { None },
        })
        .collect();
      print_and_compare(&nodes, &par, SRC, true, st)
    },
  );
  // long names, values and attributes
  let lens = [79usize, 80, 120, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 1025, 4097, 5000];
  let long = cases("long names, values and attributes", lens.len() as u64 * 6, move |i| format!("{} characters, kind {}", lens[(i / 6) as usize], i % 6), move |i, st| {
    let (n, k) = (lens[(i / 6) as usize], (i % 6) as usize);
    let src = format!("{}é\nb", "a".repeat(n));
    let base = |name: &str| Shown { name: name.into(), pin: false, cap: (1, 4), mat: (0, 5), value: None, attr: None };
    let mut nodes = vec![base("R"), base("X"), base("Y")];
    match k {
      0 => nodes[1].name = "N".repeat(n),
      1 => nodes[1].value = Some("é\n".repeat(n / 2)),
      2 => nodes[1].attr = Some(("k".repeat(n), "v".into())),
      3 => nodes[1].attr = Some(("k".into(), "v w\"".repeat(n / 4))),
      4 => {
        nodes[0].mat = (0, src.len());
        nodes[1].cap = (0, n + 2);
        nodes[2].cap = (n, n + 4);
        nodes[2].mat = (n, n + 4);
      }
      _ => {
        nodes[0].pin = true;
        nodes[0].value = Some("v".repeat(n));
      }
    }
    print_and_compare(&nodes, &[usize::MAX, 0, 1], &src, true, st)
  });
  // values of every combination of these
  let texts = crate::gen::strings(&["a", "\n", " ", "\t", "\r", "é\"", "),", "{}"], q(4, 5, deep));
  let t2 = texts.clone();
  let values = cases("all short values", texts.len() as u64 * 6, move |i| format!("{:?} as {}", t2[(i / 6) as usize], ["the value", "the value of a child", "an attribute", "a name", "the name of a child", "the text"][(i % 6) as usize]), move |i, st| {
    let t = &texts[(i / 6) as usize];
    let src = if i % 6 == 5 { format!("b{}b", t) } else { SRC.to_string() };
    let base = |name: &str| Shown { name: name.into(), pin: false, cap: (1, 4), mat: (0, 5), value: None, attr: None };
    let mut nodes = vec![base("R"), base("X"), base("Y"), base("Z")];
    match i % 6 {
      0 => nodes[0].value = Some(t.clone()),
      1 => nodes[2].value = Some(t.clone()),
      2 => nodes[1].attr = Some((t.clone(), t.clone())),
      3 => nodes[0].name = t.clone(),
      4 => nodes[1].name = t.clone(),
      _ => {
        for n in nodes.iter_mut() {
          n.cap = (1, 1 + t.len());
          n.mat = (0, src.len());
        }
      }
    }
    print_and_compare(&nodes, &[usize::MAX, 0, 1, 0], &src, i % 12 < 6, st)
  });
  vec![small, large, long, values]
}
