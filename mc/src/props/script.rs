//! Properties of the script language: every script of a bounded syntax is compiled by the
//! library and by the oracle (script.rs), and what it compiles to is run on every input.
use crate::g::*;
use crate::gen::*;
use crate::model::{Model, No};
use crate::real::*;
use crate::script::*;
use crate::space::*;
use adextopa_core::matcher::MatcherRef;
use adextopa_core::parse_error::ParseError;
use adextopa_core::script::current::parser::{compile_script_from_file, compile_script_from_str};

type Spaces = Vec<Box<dyn Space>>;

pub fn dim(v: &[&str]) -> Vec<String> {
  v.iter().map(|s| s.to_string()).collect()
}

/// All concatenations of a choice of each dimension.
pub fn product(dims: &[Vec<String>]) -> Vec<String> {
  let mut out = vec![String::new()];
  for d in dims {
    let mut next = Vec::with_capacity(out.len() * d.len());
    for a in &out {
      for b in d {
        next.push(format!("{}{}", a, b));
      }
    }
    out = next;
  }
  out
}

/// Where the texts of a space come from.
pub enum Texts {
  List(Vec<String>),
  /// a choice of each dimension
  Product(Vec<Vec<String>>),
  /// all words over tokens up to a length, each in all frames
  Words(Vec<String>, usize, Vec<(String, String)>),
}

impl Texts {
  pub fn len(&self) -> u64 {
    match self {
      Texts::List(v) => v.len() as u64,
      Texts::Product(d) => d.iter().map(|x| x.len() as u64).product(),
      Texts::Words(t, n, f) => words(t.len() as u64, *n) * f.len() as u64,
    }
  }
  pub fn get(&self, i: u64) -> String {
    match self {
      Texts::List(v) => v[i as usize].clone(),
      Texts::Product(d) => {
        let n: Vec<u64> = d.iter().map(|x| x.len() as u64).collect();
        digits(i, &n).iter().zip(d).map(|(k, d)| d[*k].as_str()).collect()
      }
      Texts::Words(t, _, f) => {
        let (a, b) = &f[(i % f.len() as u64) as usize];
        let w = word(t.len() as u64, i / f.len() as u64);
        let s: String = w.iter().map(|k| t[*k].as_str()).collect();
        format!("{}{}{}", a, s, b)
      }
    }
  }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
  /// what the oracle says
  Any,
  /// the scripts are all valid
  Valid,
  Invalid,
}

pub struct Scripts {
  name: String,
  texts: Texts,
  inputs: Vec<String>,
  want: Want,
}

pub fn scripts(name: &str, texts: Texts, inputs: Vec<String>, want: Want) -> Box<dyn Space> {
  Box::new(Scripts {
    name: name.into(),
    texts,
    inputs,
    want,
  })
}

/// Errors are reported, and they say something.
fn explained(e: &[ParseError], len: usize) -> Result<(), String> {
  if e.is_empty() {
    return Err("compiling it failed without any error".into());
  }
  for x in e {
    if x.message.trim().is_empty() {
      return Err(format!("an error without a message: {:?}", x));
    }
    if let Some(r) = &x.range {
      if r.start > r.end || r.end > len {
        return Err(format!("an error outside of the source: {:?}", x));
      }
    }
  }
  Ok(())
}

fn same_verdict<T>(exp: &Result<T, Bad>, got: Result<Result<MatcherRef, Vec<ParseError>>, String>, len: usize) -> Result<Option<MatcherRef>, String> {
  match (exp, got) {
    (_, Err(p)) => Err(format!("compiling it panicked: {}", p)),
    (Ok(_), Ok(Ok(m))) => Ok(Some(m)),
    (Err(_), Ok(Err(e))) => explained(&e, len).map(|_| None),
    (Ok(_), Ok(Err(e))) => Err(format!("a valid script was rejected: {:?}", e)),
    (Err(e), Ok(Ok(_))) => Err(format!("an invalid script ({}) was compiled", e)),
  }
}

/// Runs a compiled script on every input and compares it with what it denotes.
fn run_on(g: &G, mat: &MatcherRef, inputs: &[String], st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), String> {
  let mut m = Model::new("", "");
  let mut r = Ok(());
  for input in inputs {
    m.reset(input);
    let e = m.tokenize(g, (0, input.len()));
    if matches!(e, Err(No::Undef(_))) {
      st.undefined += 1;
      continue;
    }
    st.outcome(match &e {
      Ok(t) => hash_tok(&m, *t),
      Err(e) => hash_out(&m, &Err(e.clone())),
    });
    beat();
    let s = setup(input, "", None, &[]);
    let c = check_tokenize(&m, &e, mat, &s);
    st.traces += 1;
    if let Err(d) = c {
      r = Err(format!("on {:?}: {}", input, d));
      break;
    }
  }
  st.states += m.states;
  st.transitions += m.trans;
  r
}

/// A script that names captures is compared with what it denotes, or, because of the known
/// finding, with what it denotes if all captures were named `Name`.
fn run_either(g: &G, known: Option<G>, mat: &MatcherRef, inputs: &[String], st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), String> {
  if let Some(k) = &known {
    // with one name for all of them a reference may have become one to itself
    let mut m = Model::new("", "");
    for i in inputs {
      m.reset(i);
      if matches!(m.tokenize(k, (0, i.len())), Err(No::Undef(_))) {
        st.undefined += 1;
        return Ok(());
      }
    }
  }
  match (run_on(g, mat, inputs, st, beat), known) {
    (Err(_), Some(k)) => run_on(&k, mat, inputs, st, beat),
    (r, _) => r,
  }
}

fn has_name(p: &[Pat]) -> bool {
  p.iter().any(|p| p.name.is_some() || def_has_name(&p.def))
}

fn def_has_name(d: &Def) -> bool {
  match &d.m {
    M::Prog(v) | M::Switch(v) => has_name(v),
    _ => false,
  }
}

/// Does the script name a capture? (the library calls all of them `Name`: see the known findings)
fn names_captures(s: &Script) -> bool {
  has_name(&s.pats)
    || s.entries.iter().any(|e| match e {
      Entry::Define(_, d) => def_has_name(d),
      _ => false,
    })
}

impl Space for Scripts {
  fn name(&self) -> String {
    self.name.clone()
  }
  fn len(&self) -> u64 {
    self.texts.len()
  }
  fn describe(&self, i: u64) -> String {
    format!("script {:?}", self.texts.get(i))
  }
  fn run(&self, i: u64, st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), Violation> {
    let text = self.texts.get(i);
    let exp = compile_str(&text, "Root");
    let r = (|| {
      match self.want {
        Want::Valid => {
          if let Err(e) = &exp {
            return Err(format!("the oracle rejects it: {}", e));
          }
        }
        Want::Invalid => {
          if exp.is_ok() {
            return Err("the oracle accepts it".into());
          }
        }
        Want::Any => {}
      }
      let got = guarded(|| compile_script_from_str(&text, "Root".into(), 0));
      st.traces += 1;
      st.transitions += 1;
      st.states += 1;
      st.outcome(exp.is_ok() as u64 + 1000);
      if let Some(mat) = same_verdict(&exp, got, text.len())? {
        let unsupported = |g: &G| match g {
          G::Re(p) | G::ReN(_, p) => crate::rx::Rx::new(p).is_err(),
          _ => false,
        };
        if exp.as_ref().unwrap().root.any(&unsupported) {
          st.undefined += 1;
          return Ok(());
        }
        let known = (self.want == Want::Any && names_captures(&parse(&text).unwrap()))
          .then(|| with_captures_named("Name", || compile_str(&text, "Root")).unwrap().root);
        run_either(&exp.as_ref().unwrap().root, known, &mat, &self.inputs, st, beat)?;
      }
      Ok(())
    })();
    r.map_err(|detail: String| Violation {
      case: format!("script {:?}", text),
      detail,
    })
  }
}

fn q(n: usize, deep: usize, d: bool) -> usize {
  if d {
    deep
  } else {
    n
  }
}


fn frames(v: &[(&str, &str)]) -> Vec<(String, String)> {
  v.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect()
}

fn join(dims: &[&[&str]]) -> Texts {
  Texts::Product(dims.iter().map(|d| dim(d)).collect())
}

const OPEN: &str = "<!--[adextopa version='1']";

/// Longer scripts that use all of the syntax.
pub fn seeds() -> Vec<String> {
  dim(&[
    "(<='a'>)",
    "(?'N' <='a'>)<X a='1'>?",
    "?<!='a' k='v' l = 'w'>{1,2}",
    "!<?/a[/b]\\/c/i>*",
    "(<%'(' , ')', '\\\\'>+)",
    "(<[ <='a'> | (<='b'>) |]>{ 2 })",
    "(<{ <='a'> (?<='b'>) }>{2,})",
    "# c\n<='a'> # d\n(<='b'>)\n",
    "<!--[adextopa version='1' name='N'] X = <='a'>\n# c\nY=X -->(<Y>)",
    "#c\n <!--[adextopa version='1']\nX=<{(<='a'>)(?<X>)}>-->\n(<X>)\n",
    "<!--[adextopa version='1']-->",
    "<!--[adextopa version='1'] import { X, Y as Z } from 'p' -->(<Z>)",
  ])
}

/// Every script that is one edit of one character away, and every part cut off.
pub fn edits(s: &str, chars: &[char]) -> Vec<String> {
  let c: Vec<char> = s.chars().collect();
  let mut v = vec![];
  for i in 0..=c.len() {
    v.push(c[..i].iter().collect());
    v.push(c[i..].iter().collect());
    for x in chars {
      v.push(c[..i].iter().chain([x]).chain(&c[i..]).collect());
      if i < c.len() {
        v.push(c[..i].iter().chain([x]).chain(&c[i + 1..]).collect());
      }
    }
    if i < c.len() {
      v.push(c[..i].iter().chain(&c[i + 1..]).collect());
      for j in i + 1..c.len() {
        let mut w = c.clone();
        w.swap(i, j);
        v.push(w.iter().collect());
        v.push(c[..i].iter().chain(&c[j..]).collect());
      }
    }
  }
  v.sort();
  v.dedup();
  v
}

pub fn c21(deep: bool) -> Spaces {
  let base = dim(&[
    "<", ">", "(", ")", "=", "'a'", "X", "/b/", "?", "!", "*", "+", "{", "}", "[", "]", "|", "%", ",", "2", " ", "\n", "#", "a='1'",
    "''", "'", "/", "\\",
  ]);
  let parts = dim(&["<='a'>", "(<='b'>)", "<X>", "(", ")", "<[", "]>", "<{", "}>", "|", "?", "!", "*", "{2}", " ", "#c\n", "#c", "é"]);
  let header = dim(&[
    " ", "\n", "version='1'", "version='x'", "version=''", "name='N'", "_a='1'", "a=1", "a", "=", "]", "-->", "X=<='a'>", "#c\n", "<='a'>", "#",
  ]);
  let body = dim(&[
    " ", "\n", "X", "=", "<='a'>", "<X>", "Y=X", "#c\n", "-->", "import", "{", "}", "from", "'p'", "as", ",", "?", "*", "(<='a'>)", "]",
  ]);
  let inside = dim(&[
    "='a'", " ", "\n", "a='1'", "_a='1'", "_='1'", "a=", "'b'", "b=1", "X", "/x/", ">", "%", "'a','b',''", "?", "!", "<", ",", "é='1'", "=\"x\"",
  ]);
  let reps = dim(&["{", "}", ",", "0", "1", "2", " ", "\n", "*", "+", "99999999999999999999", "-"]);
  let bounds = dim(&[
    ",", "0", "1", "2", " ", "\n", "99999999999999999999", "18446744073709551615", "18446744073709551616", "-", "+", "01", "a",
  ]);
  let delims = dim(&["''", "'a'", "'ab'", "\"a\"", "a", "'\\''", "'", "' '", "'é'", ""]);
  let rx = dim(&["a", "/", "\\", "[", "]", "(", ")", "*", "i", "x", "\n", " ", "?", "{2}", "^", "é"]);
  let seqs = dim(&["'", "\\", ",", " ", "a", "''", "'b'", "%", "é", "\n"]);
  let inputs = strings(&["a", "b"], 3);
  let chars: Vec<char> = if deep {
    "<>()[]{}=%'/\\?!*+|,#-_ \n\r\taX1é".chars().collect()
  } else {
    "<>()[]{}='/\\?*|,# \naX1é".chars().collect()
  };
  let mut edited: Vec<String> = seeds().iter().flat_map(|s| edits(s, &chars)).collect();
  edited.sort();
  edited.dedup();
  let mut deepest = vec![];
  for n in 1..=q(24, 60, deep) {
    for (a, b) in [("<{", "}>"), ("(<{", "}>)"), ("<[", "]>"), ("(<[<='b'>|", "|]>)"), ("?<{", "}>*")] {
      for mid in ["(<='a'>)", "<='a'>", "", "(", "<=''>"] {
        for cut in 0..2 {
          deepest.push(format!("{}{}{}", a.repeat(n), mid, b.repeat(n - cut)));
        }
      }
    }
  }
  vec![
    scripts(
      "all token strings",
      Texts::Words(base.clone(), q(3, 4, deep), frames(&[("", ""), ("<", ">"), ("(<='a'", ")"), ("(<='b'>)", "")])),
      inputs.clone(),
      Want::Any,
    ),
    scripts(
      "all strings of parts",
      Texts::Words(parts, q(3, 4, deep), frames(&[("", ""), ("(<{", "}>)"), ("(<[", "]>)"), (OPEN, "")])),
      inputs.clone(),
      Want::Any,
    ),
    scripts(
      "all headers",
      Texts::Words(header, q(3, 4, deep), frames(&[("<!--[adextopa", ""), ("<!--[adextopa ", "]-->"), ("<!--[adextopa", "]-->(<='a'>)")])),
      inputs.clone(),
      Want::Any,
    ),
    scripts(
      "all scopes",
      Texts::Words(body, q(3, 4, deep), frames(&[(OPEN, "-->(<X>)"), (OPEN, ""), ("<!--[adextopa version='1'] import { ", "-->")])),
      inputs.clone(),
      Want::Any,
    ),
    scripts(
      "all insides of a pattern",
      Texts::Words(inside, q(3, 4, deep), frames(&[("<", ">"), ("(<='a'", ">)"), ("(<='a' a='1'", ">)"), ("<='a'>", "<='b'>")])),
      inputs.clone(),
      Want::Any,
    ),
    scripts(
      "all repetitions",
      Texts::Words(reps, q(4, 5, deep), frames(&[("(<='a'>", ")"), ("<='a'>", "")])),
      strings(&["a"], 4),
      Want::Any,
    ),
    scripts(
      "all bounds of repetitions",
      Texts::Words(
        bounds,
        q(4, 5, deep),
        frames(&[("(<='a'>{", "})"), ("<='a'>{", "}(<='b'>)"), ("(<='a'>{1", "})"), ("(<='a'>{2,", "})"), ("(<{(<='a'>)}>{", ",1})")]),
      ),
      strings(&["a", "b"], 3),
      Want::Any,
    ),
    scripts(
      "all delimiters",
      Texts::Product(vec![
        dim(&["(<%", "<%", "(<% "]),
        delims.clone(),
        dim(&[",", " , ", "", ",,"]),
        delims.clone(),
        dim(&[",", "\n,\n", ""]),
        delims.clone(),
        dim(&[">)", ">", ",>)", ",''>)"]),
      ]),
      inputs.clone(),
      Want::Any,
    ),
    scripts(
      "all regular expressions",
      Texts::Words(rx, q(4, 5, deep), frames(&[("</", ">"), ("</", "/>")])),
      vec![],
      Want::Any,
    ),
    scripts(
      "all strings",
      Texts::Words(seqs, q(4, 5, deep), frames(&[("<=", ">"), ("<='", "'>"), ("<%", ">"), ("<%'a','b',", ">")])),
      inputs.clone(),
      Want::Any,
    ),
    scripts("one edit away", Texts::List(edited), inputs.clone(), Want::Any),
    scripts("nested", Texts::List(deepest), strings(&["a", "b"], 2), Want::Any),
  ]
}

/// Everything a single pattern can be.
fn matchers() -> Vec<String> {
  dim(&[
    "='a'",
    "='ab'",
    "/a*b/",
    "/[ab]/",
    "/a*/",
    "%'a','b','c'",
    "[<='a'>|(<='b'>)]",
    "[(<='ab'>)|(<='a'>)]",
    "{<='a'>(<='b'>)}",
    "{(<='a'>)(?<='b'>)}",
    "X",
    "{(<='a'>*)}",
  ])
}

pub fn c20(deep: bool) -> Spaces {
  let abc = strings(&["a", "b", "c"], q(4, 5, deep));
  let ab = strings(&["a", "b"], q(4, 6, deep));
  let mode = dim(&["", "?", "!"]);
  let reps = dim(&["", "*", "+", "{2}", "{0}", "{1,}", "{1,2}", "{2,2}", "{0,1}"]);
  let mut single = vec![];
  for cap in [("", ""), ("(", ")")] {
    for o in &mode {
      for i in &mode {
        for m in matchers() {
          for r in &reps {
            single.push(format!("{}{}<{}{}>{}{}", cap.0, o, i, m, r, cap.1));
          }
        }
      }
    }
  }
  let scope = format!("{} X = <[(<='b'>)|(<='a'>)]>-->", OPEN);
  let small = dim(&[
    "<='a'>",
    "(<='a'>)",
    "(<='b'>)",
    "(?<='a'>)",
    "(!<='b'>)",
    "(<='a'>*)",
    "(<='b'>+)",
    "(<?='a'>{1,2})",
    "(</[ab]/>)",
    "?<='b'>",
    "(<[(<='a'>)|<='b'>]>)",
    "(<{(<='a'>)<='b'>}>)",
    "(<%'a','b',''>)",
    "(</a*/>)",
  ]);
  let mut single_small = vec![String::new()];
  for cap in [("", ""), ("(", ")")] {
    for pre in ["", "?", "!"] {
      for m in ["='a'", "?='b'", "!='b'", "/a*/"] {
        for rep in ["", "*", "{1,2}"] {
          single_small.push(format!("{}{}<{}>{}{}", cap.0, pre, m, rep, cap.1));
        }
      }
    }
  }
  let barred: Vec<String> = small.iter().map(|s| format!("{}|", s)).collect();
  let entries = dim(&[
    "X=<='a'>",
    "X=</[ab]/>",
    "X=Y",
    "X=<Y>",
    "X=<Y>*",
    "X=<{(<='a'>)(?<X>)}>",
    "X=<[(<='ab'>)|(<Y>)]>",
    "Y=<='b'>",
    "Y=X",
    "Y=?<X>",
    "Y=<{<='a'>(<='b'>)}>",
    "Y=!<='a'>",
    "Z=<%'a','b','c'>{2}",
    "$_1=<X>",
  ]);
  let entry_words = q(2, 3, deep);
  let mut defs = vec![];
  for i in 0..words(entries.len() as u64, entry_words) {
    let w = word(entries.len() as u64, i);
    defs.push(w.iter().map(|k| entries[*k].as_str()).collect::<Vec<_>>().join(" "));
  }
  let uses = dim(&["(<X>)", "<X>(<Y>)", "(<X>*)", "(<[(<Y>)|(<X>)]>)(<='b'>)", "(?<Z>)(<$_1>)", "(<{(<X>)(<Y>)}>+)"]);
  let rx = dim(&[
    "a", "b", ".", "[ab]", "[^a]", "\\/", "[/]", "[\\]b]", "a*", "b+", "(a|b)", "\\d", "\\w", "(ab)?", "a{2}", "|", "\\.", "é", "\\\\",
  ]);
  let rx_in = {
    let mut v = strings(&["a", "b", "A", "/", "\n"], 3);
    v.extend(dim(&["1", "é", "É", "]b", "].", "ab/", "a.b", "\\a", "aaa", "a\nb", "AB/", "abab"]));
    v
  };
  let txt = dim(&["a", "b", "\\'", "\\\\", "é", "\\a", "\n", "\"", "#", "-->"]);
  let txt_in = {
    let mut v = strings(&["a", "b", "'", "\\", "é"], 3);
    v.extend(dim(&["\n", "a\n", "\"a", "#", "-->", "a#b", "ab-->"]));
    v
  };
  let seq_in = strings(&["a", "b", "c", "é"], q(4, 5, deep));
  let named = dim(&["(?'N'<='a'>)", "(?'N'<{(<='a'>)(<='b'>)}>)", "(?'Word'</[ab]+/>*)", "(<[(?'A'<='a'>)|(?'B'<='b'>)]>)"]);
  vec![
    scripts(
      "every kind of pattern",
      Texts::Product(vec![
        vec![scope.clone()],
        dim(&["", "(<='a'>)", "?<='c'>"]),
        single.clone(),
        dim(&["", "(<='b'>)"]),
      ]),
      abc.clone(),
      Want::Valid,
    ),
    scripts(
      "patterns in a row",
      Texts::Words(small.clone(), q(3, 4, deep), frames(&[("", "(<='c'>)"), ("(<='a'>)", "")])),
      ab.clone(),
      Want::Valid,
    ),
    scripts(
      "programs",
      Texts::Words(small.clone(), q(3, 4, deep), frames(&[("(<{(<='a'>)", "}>)"), ("(<{", "(<='b'>)}>*)"), ("?<{(?<='a'>)", "}>(<='b'>)")])),
      ab.clone(),
      Want::Valid,
    ),
    scripts(
      "choices",
      Texts::Words(
        barred,
        q(3, 4, deep),
        frames(&[
          ("(<[", "<='ab'>]>)"),
          ("(<[", "(<='ab'>)|]>{2,})"),
          ("(!<[<='bb'>|", "]>)(</[ab]/>+)"),
          ("(<[", "]>)(<='b'>)"),
          ("?<[", "]>*(</[ab]/>)"),
          ("(<{(<='a'>)<[", "]>}>)"),
        ]),
      ),
      ab.clone(),
      Want::Any,
    ),
    scripts(
      "choices and programs of one or none",
      Texts::Product(vec![
        dim(&["(", "?", "", "(<='a'>)(!", "(?'N'"]),
        dim(&["<[", "<{", "<[<{", "<{<["]),
        single_small,
        dim(&["", "|", " "]),
        dim(&["]>", "}>", "}>]>", "]>}>", "]>*", "}>+", "]>{2}"]),
        dim(&["", ")", "(<='b'>)", ")(</[ab]/>)"]),
      ]),
      ab.clone(),
      Want::Any,
    ),
    scripts(
      "choices within programs within choices",
      Texts::Product(vec![
        dim(&["(<[(<{", "?<[<{", "(<[<='aa'>|(<{"]),
        small.clone(),
        dim(&["(<[", "?<["]),
        small.clone(),
        dim(&["|"]),
        small.clone(),
        dim(&["]>}>|(<='b'>)]>)", "]>*(<='b'>)}>)]>+"]),
      ])
      ,
      ab.clone(),
      Want::Any,
    ),
    scripts(
      "definitions",
      Texts::Product(vec![
        dim(&["<!--[adextopa version='1'] ", "<!--[adextopa version='2' name='N'] "]),
        defs,
        dim(&["-->"]),
        uses,
      ]),
      strings(&["a", "b"], 4),
      Want::Valid,
    ),
    scripts(
      "regular expressions",
      Texts::Product(vec![
        dim(&["(</"]),
        rx_words(&rx, q(2, 3, deep)),
        dim(&["/>)", "/i>)", "/s>)", "/U>)", "/m>)", "/is>)"]),
        dim(&["", "(<='b'>)"]),
      ]),
      rx_in.clone(),
      Want::Any,
    ),
    scripts(
      "flags of regular expressions",
      Texts::Product(vec![
        dim(&["(</"]),
        dim(&["a.b", "^b", "a.?$", "[a-b]+", "(a|ab)*?b", "A", "[^a]", "a.*b", "^a$", "a{1,2}"]),
        product(&[dim(&["/"]), rx_words0(&dim(&["i", "m", "s", "U"]), q(4, 5, deep))]),
        dim(&[">)", " >*)(<='b'>)"]),
      ]),
      rx_in,
      Want::Any,
    ),
    scripts(
      "literals",
      Texts::Words(txt.clone(), q(2, 3, deep), frames(&[("(<='a", "'>)"), ("(<='", "b'>*)"), ("(<='", "'>)")])),
      txt_in,
      Want::Any,
    ),
    scripts(
      "delimited",
      Texts::Product(vec![
        dim(&["(<%"]),
        dim(&["'a'", "'b'", "'aa'", "'ab'", "'é'"]),
        dim(&[","]),
        dim(&["'a'", "'b'", "'bb'", "'ba'", "'é'"]),
        dim(&[","]),
        dim(&["''", "'c'", "'b'", "'cc'", "'é'"]),
        dim(&[">)", ">*)", ">)(<='a'>)", ">)?<='b'>"]),
      ]),
      seq_in,
      Want::Valid,
    ),
    scripts(
      "delimited with odd delimiters",
      Texts::Product(vec![
        dim(&["(<%"]),
        dim(&["'a'", "'\\\\'", "'aa'", "''", "'\n'"]),
        dim(&[","]),
        dim(&["'a'", "'\\\\'", "'ba'", "''", "'\\''"]),
        dim(&[","]),
        dim(&["''", "'\\\\'", "'a'", "'b'", "'\\''", "'ab'", "'\n'"]),
        dim(&[">)", " >*)(<='a'>)", ">)?<='b'>"]),
      ]),
      {
        let mut v = strings(&["a", "b", "\\", "'"], q(4, 5, deep));
        v.extend(strings(&["a", "\n", "b"], 4));
        v.sort();
        v.dedup();
        v
      },
      Want::Any,
    ),
    scripts(
      "root names",
      join(&[
        &["<!--[adextopa version='1' name='N'] ", "<!--[adextopa name='N' version='1' name='M'] ", "<!--[adextopa version='1'] "],
        &["X=<='a'>", "N=<='b'> X=<N>", "Root=<='b'> X=<Root>"],
        &["-->"],
        &["(<X>)", "<X>(<='b'>)", "(<N>)", "(<Root>)"],
      ]),
      strings(&["a", "b"], 3),
      Want::Valid,
    ),
    scripts(
      "captures with names among others",
      Texts::Product(vec![
        dim(&["", "<!--[adextopa version='1'] X=<[(?'M'<='b'>)|(<='a'>)]> Name=<='b'>-->"]),
        dim(&["(?'N'", "(<[(?'N'", "(<{(?'N'<='a'>)(?'N2'", "(<='a'>)(?'Name'"]),
        dim(&["<", "?<", "!<", "<?"]),
        matchers(),
        dim(&[">)", ">*)", " k='v'>)"]),
        dim(&["", "]>)", "}>*)", "(?'R'<Name>)", "(<N>)", "|(?'O'<X>)]>)"]),
      ]),
      abc.clone(),
      Want::Any,
    ),
    scripts("named captures", Texts::List(named), vec!["ab".into()], Want::Valid),
  ]
}

fn rx_words0(t: &[String], n: usize) -> Vec<String> {
  let mut v = vec![String::new()];
  v.extend(rx_words(t, n));
  v
}

fn rx_words(t: &[String], n: usize) -> Vec<String> {
  (1..words(t.len() as u64, n))
    .map(|i| word(t.len() as u64, i).iter().map(|k| t[*k].as_str()).collect())
    .collect()
}

pub fn c26(deep: bool) -> Spaces {
  let attr = dim(&[
    "a='1'", "a='2'", "b='x'", "value='v'", "name='n'", "b='\\''", "c='\\\\é\\n'", "b=''", "a+_1 = '1'", "é='>'", "matched='0..1'", "a2='<='",
  ]);
  let n = q(2, 3, deep);
  let spaced: Vec<String> = attr.iter().map(|a| format!("{} ", a)).collect();
  let tight = attr.clone();
  let lists = |t: &[String], n: usize| -> Vec<String> {
    (0..words(t.len() as u64, n))
      .map(|i| word(t.len() as u64, i).iter().map(|k| t[*k].as_str()).collect())
      .collect()
  };
  let few = if deep {
    dim(&["", "a='1'", "b='2'", "a='3' b='4'", "a='5' a='6'"])
  } else {
    dim(&["", "a='1'", "a='3' b='4' a='5'"])
  };
  let ab = strings(&["a", "b"], 4);
  let abc = strings(&["a", "b", "c"], 3);
  vec![
    scripts(
      "attributes of a pattern",
      Texts::Product(vec![
        dim(&["(<", "(?<", "(<?", "<", "(<='b'>)(<"]),
        dim(&["='a'", "/[ab]+?/", "%'a','b','c'", "{(<='a'>)<='b'>}", "[(<='b'>)|<='a'>]", "Nope"]),
        dim(&[" ", "\n", ""]),
        lists(&spaced, n),
        dim(&[">)", ">*)", ">{1,2})(<='b'>)", ">"]),
      ]),
      abc.clone(),
      Want::Any,
    ),
    scripts(
      "attributes without space between",
      Texts::Product(vec![dim(&["(<='a'", "(</b*a/ "]), lists(&tight, q(2, 3, deep)), dim(&[">)", ">+)(<='b'>)"])]),
      ab.clone(),
      Want::Any,
    ),
    scripts(
      "attributes of definitions and of uses",
      Texts::Product(vec![
        dim(&["<!--[adextopa version='1' a='0' q='0'] Y=<[(<='b' "]),
        few.clone(),
        dim(&[">)|(<='a'>)] "]),
        few.clone(),
        dim(&["> X=<{(<Y "]),
        few.clone(),
        dim(&[">)?<='a'>} ", ">)(?<Y>*)} "]),
        few.clone(),
        dim(&["> Z=X -->(<Y>)(<X ", "> Z=X -->(<Z ", "> Z=<X "]),
        few.clone(),
        dim(&[">)", ">+)", "> -->(<Z>)", ">-->(<{(<Z b='9'>)} a='8'>)"]),
      ]),
      ab.clone(),
      Want::Any,
    ),
    scripts(
      "attributes at every level",
      Texts::Product(vec![
        dim(&["(<{(<='a' "]),
        few.clone(),
        dim(&[">)(<[(<='b' ", ">*)(<[(<='b' "]),
        few.clone(),
        dim(&[">)|(<='c' "]),
        few.clone(),
        dim(&[">)] ", ">*)] "]),
        few.clone(),
        dim(&[">)} ", ">+)} "]),
        few.clone(),
        dim(&[">)", ">*)(<='b'>)"]),
      ]),
      abc.clone(),
      Want::Valid,
    ),
    scripts(
      "attributes of the scope",
      Texts::Product(vec![
        dim(&["<!--[adextopa", "<!--[adextopa "]),
        lists(
          &dim(&["version='1' ", "version='0'\n", "version='x' ", "version='' ", "name='N' ", "name = 'M' ", "other='o' ", "_x='1' ", "version='\\2'"]),
          q(3, 4, deep),
        ),
        dim(&["]-->(<='a'>)", "] X=<='a' k='v'>-->(<X>)"]),
      ]),
      strings(&["a", "b"], 2),
      Want::Any,
    ),
    scripts(
      "versions",
      Texts::Product(vec![
        dim(&["<!--[adextopa ", "<!--[adextopa name='N' ", "\n<!--[adextopa version='2' "]),
        dim(&["version='", "version = '", "Version='", "versio='"]),
        rx_words0(
          &dim(&["1", "0", "-", "+", ".", " ", "é", "a", "٣", "\\'", "\\n", "\t", "_", "18446744073709551615", "18446744073709551616"]),
          q(3, 4, deep),
        ),
        dim(&["']-->(<='a'>)", "' name='M']X=<='a'>-->(<X>)"]),
      ]),
      strings(&["a", "b"], 1),
      Want::Any,
    ),
    scripts(
      "names of attributes",
      Texts::Product(vec![
        dim(&["(<='a' ", "(<[(<='a'>)] x='1' "]),
        rx_words(&dim(&["a", "_", "+", "1", "é", "-", " ", "A"]), q(3, 4, deep)),
        dim(&["='v'>)", " = 'v' b='w'>*)"]),
      ]),
      strings(&["a", "b"], 2),
      Want::Any,
    ),
  ]
}

// ------------------------------------------------------------------ layout

/// Scripts with gaps: `~` any whitespace, `^` whitespace in a line, `@` also comments,
/// `&` at least some whitespace.
fn gapped(deep: bool) -> Vec<&'static str> {
  let mut v = vec![
    "@<~='a'~>@(~<~='b'~>~)@",
    "(<~='a'~k^=^'v'~l^=^'w'~>*)@?<!~/[ab]/~>{^1^,^2^}",
    "(~<[~<='a'>~|~(~<='b'>~)~|~]>~)@(<='c'>)@",
    "(<{~<='a'>~(<~='b'~>)~?<='c'>~}>+)@",
    "(<%~'a'~,~'b'~,~'c'~>)@<='a'>{^2^}@",
    "@<!--[adextopa^version^=^'1'~name^=^'N'~]@X~=~<='a'>@Y~=~X@-->@(<Y>)@(<X>)@",
    "<!--[adextopa version='1']@X~=~<{~(<~='a'~>~)~(~?<X>)~}>@-->@(<X>~)@",
    "@<!--[adextopa^version='1'~]@-->@",
    "(<X~a='1'~>)@(<='a'~b^=^'2'~>{^1^,^})@",
  ];
  if deep {
    v.extend([
      "@<!--[adextopa^a^=^'0'~version^=^'1'~name='N'~]@A~=~B@B~=~!<='c'~k='v'~>@C~=~<%~'a'~,~'b'~,~''~>+@-->@(~<A>~)@<C>@",
      "(~<[~(~<{~<='a'>~|~}>~)~]>~)@",
      "(~?'N'~<~='a'~>~)@",
    ]);
  }
  v
}

fn fillers(gap: char) -> Vec<&'static str> {
  match gap {
    '~' => vec!["", " ", "\n", "\t", "\r\n", "\n\n  \n", "\u{a0}", "\u{2028}\r", "\u{c}", "\u{b}", "\u{85}", "\u{3000}", "\r", "\u{1680} "],
    '^' => vec!["", " ", "\t \t", "\u{a0}", "\u{c}", "\u{b}\u{2003}", "\u{85}"],
    _ => vec!["", " ", "\u{c}", "\u{85}#\n", "#\u{b}c\n\r", "#\\\n", "#'\n#\"\n", "# (\r\n\u{3000}", "\n", "\r\n\t", "#c\n", " # <='x'> --> 'y'\r\n", "\n#\n#é\n", "#-->\r", "\u{2028}"],
  }
}

fn layouts(base: &str, deep: bool) -> (String, Vec<String>) {
  let parts: Vec<char> = base.chars().collect();
  let gaps: Vec<usize> = (0..parts.len()).filter(|i| "~^@".contains(parts[*i])).collect();
  let fill = |f: &[&str]| -> String {
    let mut o = String::new();
    let mut k = 0;
    for (i, c) in parts.iter().enumerate() {
      if gaps.contains(&i) {
        o += f[k];
        k += 1;
      } else {
        o.push(*c);
      }
    }
    o
  };
  // a comment at the end of the script needs no line break
  let at = |k: usize| {
    let mut v = fillers(parts[gaps[k]]);
    if parts[gaps[k]] == '@' && gaps[k] + 1 == parts.len() {
      v.extend(["#", "##", "#c", "\n#", " #\n#", "# (<='x'>)", "#é\\"]);
    }
    v
  };
  let none: Vec<&str> = gaps
    .iter()
    .map(|g| {
      // identifiers next to each other have to be kept apart
      let word = |i: Option<&char>| i.map_or(false, |c| c.is_alphanumeric());
      if *g > 0 && word(parts.get(g - 1)) && word(parts.get(g + 1)) {
        " "
      } else {
        ""
      }
    })
    .collect();
  let mut v = vec![];
  // one or two gaps filled in every way
  for a in 0..gaps.len() {
    for fa in at(a) {
      if fa.is_empty() && !none[a].is_empty() {
        continue;
      }
      let mut f = none.clone();
      f[a] = fa;
      v.push(fill(&f));
      for b in a + 1..gaps.len() {
        for fb in at(b) {
          if fb.is_empty() {
            continue;
          }
          let mut f = f.clone();
          f[b] = fb;
          v.push(fill(&f));
          if deep {
            // in long scripts: next to each other
            let last = if gaps.len() > 20 { gaps.len().min(if b == a + 1 { b + 2 } else { b + 1 }) } else { gaps.len() };
            for c in b + 1..last {
              for fc in at(c) {
                if fc.is_empty() {
                  continue;
                }
                let mut f = f.clone();
                f[c] = fc;
                v.push(fill(&f));
              }
            }
          }
        }
      }
    }
  }
  // all of them at once, in one way for each kind
  for a in fillers('~') {
    for b in fillers('^') {
      for c in fillers('@') {
        let f: Vec<&str> = gaps
          .iter()
          .enumerate()
          .map(|(k, g)| match parts[*g] {
            '~' if a.is_empty() => none[k],
            '^' if b.is_empty() => none[k],
            '@' if c.is_empty() => none[k],
            '~' => a,
            '^' => b,
            _ => c,
          })
          .collect();
        v.push(fill(&f));
      }
    }
  }
  v.sort();
  v.dedup();
  (fill(&none), v)
}

/// All layouts of a script mean the same.
struct Layout {
  base: String,
  texts: Vec<String>,
  inputs: Vec<String>,
}

impl Space for Layout {
  fn name(&self) -> String {
    format!("layouts of {:?}", self.base)
  }
  fn len(&self) -> u64 {
    self.texts.len() as u64
  }
  fn describe(&self, i: u64) -> String {
    format!("script {:?}", self.texts[i as usize])
  }
  fn run(&self, i: u64, st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), Violation> {
    let text = &self.texts[i as usize];
    let exp = compile_str(&self.base, "Root");
    let own = compile_str(text, "Root");
    let r = (|| {
      let show = |c: &Result<Compiled, Bad>| match c {
        Ok(c) => c.root.to_string(),
        Err(e) => e.to_string(),
      };
      if show(&exp) != show(&own) {
        return Err(format!("the oracle takes it to be {}, not {}", show(&own), show(&exp)));
      }
      st.traces += 1;
      let got = guarded(|| compile_script_from_str(text, "Root".into(), 0));
      if let Some(mat) = same_verdict(&exp, got, text.len())? {
        let known = names_captures(&parse(text).unwrap())
          .then(|| with_captures_named("Name", || compile_str(text, "Root")).unwrap().root);
        run_either(&exp.as_ref().unwrap().root, known, &mat, &self.inputs, st, beat)?;
      }
      Ok(())
    })();
    r.map_err(|detail: String| Violation {
      case: self.describe(i),
      detail,
    })
  }
}

/// White space and comment signs inside of quotes and slashes.
fn kept(deep: bool) -> Spaces {
  let pieces = dim(&["a", " ", "\t", "\n", "\r\n", "#", "é", "\u{a0}", "-->", "\u{c}", "\u{2028}", "# b\n", "<", ">"]);
  let mut inputs = strings(&["a", " ", "\t", "\n", "#"], q(3, 4, deep));
  for i in 0..words(pieces.len() as u64, 2) {
    let w: String = word(pieces.len() as u64, i).iter().map(|k| pieces[*k].as_str()).collect();
    inputs.push(w.clone());
    inputs.push(format!("a{}a", w));
    inputs.push(format!("{}b", w));
  }
  inputs.sort();
  inputs.dedup();
  vec![
    scripts(
      "white space and comment signs inside of strings",
      Texts::Words(
        pieces.clone(),
        q(2, 3, deep),
        frames(&[
          ("(<='", "'>)"),
          ("(<='a", "a'>*)"),
          ("#'\n(<{(<='", "'>)(?<='b'>)}>)"),
          ("(<%'", "','b',''>)"),
          ("(<%'a','", "','a'>)"),
          ("(<%'a','b','", "'>)"),
          ("<!--[adextopa version='1'] X=<='", "'>#\n-->(<X>)"),
          ("(<='a' k='", "'>)"),
          ("<!--[adextopa version='1' name='", "']-->(<='a'>)"),
        ]),
      ),
      inputs.clone(),
      Want::Any,
    ),
    scripts(
      "white space and comment signs inside of regular expressions",
      Texts::Words(
        pieces,
        q(2, 3, deep),
        frames(&[("(</", "/>)"), ("(</a", "a/ >*)"), ("#/\n(</[", "]+/>)"), ("(</[^", "]/>)(<='a'>)"), ("<!--[adextopa version='1'] X=</", "b?/>#/\n-->(<X>)")]),
      ),
      inputs,
      Want::Any,
    ),
  ]
}

pub fn c22(deep: bool) -> Spaces {
  let mut v: Spaces = gapped(deep)
    .into_iter()
    .map(|b| {
      let (base, texts) = layouts(b, deep);
      Box::new(Layout {
        base,
        texts,
        inputs: strings(&["a", "b", "c"], 3),
      }) as Box<dyn Space>
    })
    .collect();
  v.extend(kept(deep));
  v
}

// ------------------------------------------------------------------ files

pub fn scratch() -> String {
  thread_local! {
    static DIR: String = {
      let base = std::env::var("MC_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().to_string());
      let d = format!("{}/files-{}", base, std::process::id());
      std::fs::create_dir_all(&d).expect("scratch directory");
      std::fs::canonicalize(&d).unwrap().to_string_lossy().to_string()
    };
  }
  DIR.with(|d| d.clone())
}

/// Sets of files: a choice of content (None: no such file) for each.
struct FileSets {
  name: String,
  files: Vec<(&'static str, Vec<Option<String>>)>,
  inputs: Vec<String>,
  want: Want,
  /// current directory and name of the main script; none: its full name, from anywhere
  ways: Vec<(&'static str, &'static str)>,
}

impl FileSets {
  fn files(&self, i: u64) -> Files {
    let n: Vec<u64> = self.files.iter().map(|f| f.1.len() as u64).collect();
    let d = digits(i, &n);
    let mut v = Files::new();
    for (k, (p, c)) in self.files.iter().enumerate() {
      if let Some(c) = &c[d[k]] {
        v.insert(p.to_string(), c.clone());
      }
    }
    v
  }
}

impl Space for FileSets {
  fn name(&self) -> String {
    self.name.clone()
  }
  fn len(&self) -> u64 {
    self.files.iter().map(|f| f.1.len() as u64).product::<u64>() * self.ways.len().max(1) as u64
  }
  fn describe(&self, i: u64) -> String {
    let n: u64 = self.files.iter().map(|f| f.1.len() as u64).product();
    match self.ways.get((i / n) as usize) {
      Some((cwd, name)) => format!("files {:?} in directory {:?} as {:?}", self.files(i % n), cwd, name),
      None => format!("files {:?}", self.files(i)),
    }
  }
  fn run(&self, i: u64, st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), Violation> {
    let n: u64 = self.files.iter().map(|f| f.1.len() as u64).product();
    let way = self.ways.get((i / n) as usize);
    let files = self.files(i % n);
    let dir = format!("{}/t", scratch());
    for (p, c) in &files {
      let full = format!("{}/{}", dir, p);
      std::fs::create_dir_all(std::path::Path::new(&full).parent().unwrap()).unwrap();
      match c.strip_prefix("-> ") {
        Some(t) => std::os::unix::fs::symlink(format!("{}/{}", dir, t), &full).unwrap(),
        None => std::fs::write(&full, c).unwrap(),
      }
    }
    let main = "d/main.axo";
    if let Some((cwd, _)) = way {
      // by other names
      std::fs::create_dir_all(format!("{}/d/sub", dir)).unwrap();
      std::os::unix::fs::symlink("d", format!("{}/ln", dir)).unwrap();
      std::os::unix::fs::symlink("../main.axo", format!("{}/d/sub/m.axo", dir)).unwrap();
      std::os::unix::fs::symlink(format!("{}/d/main.axo", dir), format!("{}/m.axo", dir)).unwrap();
      std::env::set_current_dir(if cwd.starts_with('/') { cwd.to_string() } else { format!("{}/{}", dir, cwd) }).unwrap();
    }
    let shown = |p: &str| match way {
      Some((_, name)) if p == main => name.replace("DIR", &dir),
      _ => format!("{}/{}", dir, p),
    };
    let exp = compile_file(&files, main, &shown, &mut vec![]);
    let r = (|| {
      match (self.want, &exp) {
        (Want::Valid, Err(e)) => return Err(format!("the oracle rejects it: {}", e)),
        (Want::Invalid, Ok(_)) => return Err("the oracle accepts it".into()),
        _ => {}
      }
      let len = files.values().map(|c| c.len()).max().unwrap_or(0);
      st.outcome(exp.is_ok() as u64 + 1000);
      // twice: the first time leaves nothing behind
      for _ in 0..2 {
        st.traces += 1;
        let got = guarded(|| compile_script_from_file(&shown(main), 0));
        if let Some(mat) = same_verdict(&exp, got, len)? {
          run_on(&exp.as_ref().unwrap().root, &mat, &self.inputs, st, beat)?;
        }
      }
      Ok(())
    })();
    if way.is_some() {
      let _ = std::env::set_current_dir("/");
    }
    let _ = std::fs::remove_dir_all(&dir);
    r.map_err(|detail: String| Violation {
      case: self.describe(i),
      detail,
    })
  }
}

fn some(v: Vec<String>) -> Vec<Option<String>> {
  v.into_iter().map(Some).collect()
}

/// All lists of up to a number of pieces.
pub fn lists_of(t: &[String], n: usize) -> Vec<String> {
  rx_words0(t, n)
}

pub fn file_set(name: &str, files: Vec<(&'static str, Vec<Option<String>>)>, inputs: Vec<String>, want: Want) -> Box<dyn Space> {
  Box::new(FileSets {
    name: name.into(),
    files,
    inputs,
    want,
    ways: vec![],
  })
}

pub fn c23(deep: bool) -> Spaces {
  let imports = dim(&[
    "import { X } from 'l.axo'",
    "import { X as Z } from 'l.axo'",
    "import { X, Y } from 'l.axo'",
    "import { X as Y, Y as X } from 'l.axo'",
    "import { X as Y, X as Z, } from 'l.axo'",
    "import { _ as R } from 'l.axo'",
    "import { _ as R, _ as Z } from 'l.axo'",
    "import { Y, _ as X } from 'l.axo'",
    "import {\n X\n as\n Z\n Y\n}from'l.axo'",
    "X=<='c'>",
    "Y=<X k='m'>",
    "Z=Y",
  ]);
  let odd = dim(&[
    "import { X } from './l.axo'",
    "import { X } from 'sub/../l.axo'",
    "import { X } from 'sub/c.axo'",
    "import { X } from '../top.axo'",
    "import { X } from '../d/l.axo'",
    "import { X } from 'link.axo'",
    "import { X } from 'none.axo'",
    "import { X } from 'no/../l.axo'",
    "import { X } from 'l.axo/../l.axo'",
    "import { X } from ''",
    "import { X } from '.'",
    "import { X } from 'sub'",
    "import { X } from 'main.axo'",
    "import { Nope } from 'l.axo'",
    "import { Nope as X } from 'l.axo'",
    "import { _ } from 'l.axo'",
    "import { _ as _ } from 'l.axo'",
    "import { X, Nope } from 'l.axo'",
    "import { X Y } from 'l.axo'",
    "import { X as } from 'l.axo'",
    "import { X as as } from 'l.axo'",
    "import { } from 'l.axo'",
    "import { as } from 'l.axo'",
    "import { X , Y } from 'l.axo'",
    "import { X } 'l.axo'",
    "import { X } from l.axo",
    "import\n{ X } from 'l.axo'",
  ]);
  let lists = |t: &[String], n: usize| -> Vec<String> {
    (1..words(t.len() as u64, n))
      .map(|i| word(t.len() as u64, i).iter().map(|k| t[*k].as_str()).collect::<Vec<_>>().join("\n"))
      .collect()
  };
  let open = "<!--[adextopa version='1']\n";
  let named = "<!--[adextopa version='1' name='N']\n";
  let uses = dim(&["-->(<X>)", "-->(<Y>)(<X>)", "-->(<Z>)", "-->(<R>)", "-->(<[(<Z>)|(<Y>)|(<X>)|(<R>)]>*)", "-->?<X>(<R>)"]);
  let mains = |h: &[&str], e: Vec<String>, u: &[String]| some(product(&[dim(h), e, u.to_vec()]));
  let lib = dim(&[
    "X=<='a'> Y=<='b'>-->(<='a'>)",
    "X=<Y>+ Y=<[(<='b'>)|<='a'>] k='l'>-->(<X>)(<='b'>)",
    "Y=X X=?<='a'>--> <='a'>(<Y>)",
    "X=<{(<Y>)(?<X>)}> Y=<='a'>-->",
    "Y=<='b'>-->(<X>)",
    "import { X } from 'sub/c.axo' Y=X-->(<Y>)",
    "import { X as Y } from 'sub/c.axo' X=<Y>* -->(<X>)",
    "import { _ as X, X as Y } from './sub/c.axo'-->(<X>)(<Y>)",
  ]);
  let sub = dim(&["X=<='a'>-->(<='b'>)", "X=<Z k='s'> Z=<[(<='b'>)|(<='a'>)]>-->(<X>*)"]);
  let bad_lib = vec![
    None,
    Some("".to_string()),
    Some("<=".into()),
    Some("(<='a'>)".into()),
    Some("<!--[adextopa]X=<='a'>-->".into()),
    Some("<!--[adextopa version='1']X=<=''>-->".into()),
    Some("<!--[adextopa version='1']X=<='a'>-->~".into()),
    Some("<!--[adextopa version='1']X=<='a' _k='v'>-->".into()),
    Some("<!--[adextopa version='1']X=<='a'>Y=<='b'>-->(<X>)".into()),
    Some("<!--[adextopa version='1']import{X}from'main.axo'-->".into()),
    Some("<!--[adextopa version='1']import{X}from'l.axo'-->".into()),
    Some("<!--[adextopa version='1']import{X}from'sub/c.axo'-->".into()),
    Some("<!--[adextopa version='1']import{X}from'link.axo'-->".into()),
    Some("<!--[adextopa version='1']import{X}from'../top.axo'-->".into()),
    Some("<!--[adextopa version='1']import{Q}from'sub/c.axo' X=<='a'>-->".into()),
  ];
  let sub_all = vec![
    None,
    Some("<!--[adextopa version='1']X=<='b'>-->".to_string()),
    Some("<!--[adextopa version='1']import{X}from'../l.axo'-->".into()),
    Some("<!--[adextopa version='1']import{X}from'../main.axo'-->".into()),
    Some("<!--[adextopa version='1']import{X}from'../../top.axo'-->".into()),
  ];
  let top = vec![
    None,
    Some("<!--[adextopa version='1']X=<='b'>-->".to_string()),
    Some("<!--[adextopa version='1']import{X}from'd/l.axo'-->".into()),
  ];
  let lib_full: Vec<String> = product(&[dim(&["<!--[adextopa version='1' name='Lib']\n"]), lib]);
  let sub_full: Vec<String> = product(&[dim(&[open]), sub]);
  let inputs = strings(&["a", "b"], 3);
  vec![
    file_set(
      "imports",
      vec![
        ("d/main.axo", mains(&[named, open][..q(1, 2, deep)], lists(&imports, 2), &uses)),
        ("d/l.axo", some(lib_full.clone())),
        ("d/sub/c.axo", some(sub_full.clone())),
      ],
      strings(&["a", "b", "c"], q(2, 3, deep)),
      Want::Any,
    ),
    file_set(
      "odd imports",
      vec![
        ("d/main.axo", mains(&[open], odd.clone(), &uses[..2])),
        ("d/l.axo", bad_lib.clone()),
        ("d/sub/c.axo", sub_all.clone()),
        ("top.axo", if deep { top.clone() } else { vec![None, top[2].clone()] }),
        ("d/link.axo", vec![None, Some("-> d/main.axo".into()), Some("-> d/sub/c.axo".into())]),
      ],
      inputs.clone(),
      Want::Any,
    ),
    file_set(
      "several odd imports",
      vec![
        (
          "d/main.axo",
          mains(
            &[open],
            lists(&odd.iter().cloned().chain(dim(&["X=<='a'>", "X=Y"])).collect::<Vec<_>>(), 2),
            &uses[1..2],
          ),
        ),
        ("d/l.axo", bad_lib[8..10].to_vec()),
        ("d/sub/c.axo", sub_all[1..3].to_vec()),
      ],
      inputs.clone(),
      Want::Any,
    ),
    file_set(
      "imports of several names",
      vec![
        (
          "d/main.axo",
          mains(
            &[open],
            product(&[
              dim(&["import { ", "X=<='c'>\nimport {"]),
              rx_words0(&dim(&["X ", "Y,", "Nope ", "_ as R ", "X as Z,", "Nope as X ", ", "]), q(4, 5, deep)),
              dim(&["} from 'l.axo'\n", "} from 'l.axo' Q=<Z>"]),
            ]),
            &["-->(<X>)".to_string(), "-->(<[(<Z>)|(<Y>)|(<X>)|(<R>)]>*)".into()],
          ),
        ),
        ("d/l.axo", vec![Some("<!--[adextopa version='1']X=<='a'>Y=<='b'>-->(<X>)(<Y>)".into())]),
      ],
      inputs.clone(),
      Want::Any,
    ),
    file_set(
      "no scope, no file",
      vec![("d/main.axo", {
        let mut v = some(seeds());
        v.push(None);
        v.push(Some("-> d/other.axo".into()));
        v
      })],
      inputs.clone(),
      Want::Any,
    ),
    Box::new(FileSets {
      name: "names of the script and current directories".into(),
      files: vec![
        (
          "d/main.axo",
          mains(
            &[open],
            dim(&[
              "import { X } from 'l.axo'",
              "import { X } from './l.axo' import { X as Y } from 'sub/c.axo'",
              "import { X } from '../l.axo'",
              "import { X } from 'sub/../l.axo'",
              "import { _ as X } from '../d/l.axo'",
              "import { X } from 'main.axo'",
              "import { X } from 'd/l.axo'",
              "X=<='a'>",
            ]),
            &["-->(<X>)".to_string()],
          ),
        ),
        ("d/l.axo", some(dim(&["<!--[adextopa version='1']X=<='a'>-->(<='b'>)", "<!--[adextopa version='1']import { X } from 'sub/c.axo'-->(<X>)"]))),
        ("d/sub/c.axo", some(dim(&["<!--[adextopa version='1']X=<='b'>-->", "<!--[adextopa version='1']import{X}from'../../l.axo'-->", "<!--[adextopa version='1']import{X}from'../main.axo'-->"]))),
        // not meant, wherever the compiler was started
        ("l.axo", vec![None, Some("<!--[adextopa version='1']X=<='c'>-->(<='c'>)".into())]),
        ("d/sub/l.axo", vec![None, Some("<!--[adextopa version='1']X=<='c'>-->".into())]),
      ],
      inputs: strings(&["a", "b", "c"], 2),
      want: Want::Any,
      ways: vec![
        ("d", "main.axo"),
        ("d", "./main.axo"),
        ("", "d/main.axo"),
        ("", "./d/../d/main.axo"),
        ("", "ln/main.axo"),
        ("ln", "main.axo"),
        ("", "m.axo"),
        ("d/sub", "../main.axo"),
        ("d/sub", "m.axo"),
        ("d", "sub/m.axo"),
        ("d", "sub/../main.axo"),
        ("d/sub", "DIR/d/main.axo"),
        ("", "DIR//d/./main.axo"),
        ("/", "DIR/ln/sub/m.axo"),
      ],
    }),
    scripts(
      "imports of a script that is not a file",
      Texts::Product(vec![dim(&[open]), lists(&imports[..9], 1), uses.clone()]),
      vec![],
      Want::Invalid,
    ),
  ]
}
