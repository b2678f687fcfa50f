//! The syntax trees of scripts: what the exported grammar of the script language and each of
//! its parts make of a text, against the trees the oracle's recognizer (script.rs) builds.
use super::objects::Chk;
use super::script::{dim, edits, seeds, Texts};
use crate::real::{free_tok, guarded};
use crate::script::{part, Node};
use crate::space::*;
use adextopa_core::matcher::MatcherRef;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
#[allow(unused_imports)]
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{TokenRef, IS_ERROR};

type Spaces = Vec<Box<dyn Space>>;

fn q(n: usize, deep: usize, d: bool) -> usize {
  if d {
    deep
  } else {
    n
  }
}

const PARTS: [&str; 14] = [
  "Identifier",
  "String",
  "Comment",
  "RepeatSpecifier",
  "MatcherName",
  "EqualsMatcher",
  "SequenceMatcher",
  "RegexMatcher",
  "CustomMatcher",
  "SwitchMatcher",
  "ProgramMatcher",
  "ImportStatement",
  "AssignmentExpression",
  "Pattern",
];

fn matcher_of(what: &str) -> MatcherRef {
  use adextopa_core as a;
  match what {
    "AdextopaScope" => a::ScriptAdextopaScope!(),
    "Identifier" => a::ScriptIdentifier!(),
    "String" => a::ScriptString!(),
    "Comment" => a::ScriptComment!(),
    "RepeatSpecifier" => a::ScriptRepeatSpecifier!(),
    "MatcherName" => a::ScriptMatcherName!(),
    "EqualsMatcher" => a::ScriptEqualsMatcher!(),
    "SequenceMatcher" => a::ScriptSequenceMatcher!(),
    "RegexMatcher" => a::ScriptRegexMatcher!(),
    "CustomMatcher" => a::ScriptCustomMatcher!(),
    "SwitchMatcher" => a::ScriptSwitchMatcher!(),
    "ProgramMatcher" => a::ScriptProgramMatcher!(),
    "ImportStatement" => a::ScriptImportStatement!(),
    "AssignmentExpression" => a::ScriptAssignmentExpression!(),
    "Pattern" => a::ScriptPattern!(),
    _ => unreachable!(),
  }
}

fn context_for(text: &str) -> ParserContextRef {
  let c = ParserContext::new(&Parser::new(text), "Test");
  c.borrow().register_matchers(vec![adextopa_core::ScriptSwitchMatcher!(), adextopa_core::ScriptProgramMatcher!()]);
  c
}

fn has_errors(t: &TokenRef) -> bool {
  let t = t.borrow();
  t.flags_enabled(IS_ERROR) || t.get_children().iter().any(has_errors)
}

/// The same names, ranges, values, attributes and children.
fn same_tree(text: &str, n: &Node, t: &TokenRef, path: &str) -> Chk {
  let t = t.borrow();
  let path = format!("{}/{}", path, n.name);
  let (c, m) = (*t.get_captured_range(), *t.get_matched_range());
  if t.get_name() != n.name {
    return Err(format!("{} expected, got {}", path, t.get_name()));
  }
  if (m.start, m.end) != n.matched {
    return Err(format!("{}: matched {:?} expected, got {:?}", path, n.matched, m));
  }
  if n.name == "AdextopaScope" {
    // how far the mark in it counts is left open
    if c.start < m.start || c.end > text.len() {
      return Err(format!("{}: captured {:?} outside of {:?}", path, c, m));
    }
  } else if (c.start, c.end) != n.captured && n.name != "RegexMatcher" {
    return Err(format!("{}: captured {:?} expected, got {:?}", path, n.captured, c));
  }
  if n.name != "AdextopaScope" {
    let v = n.value.as_deref().unwrap_or(&text[n.captured.0..n.captured.1]);
    // (the value of an empty expression, which is refused later, is left open)
    if t.get_value() != v && !(n.name == "RegexMatcher" && v.is_empty()) {
      return Err(format!("{}: value {:?} expected, got {:?}", path, v, t.get_value()));
    }
  }
  for (i, (k, v)) in n.attrs.iter().enumerate() {
    let last = !n.attrs[i + 1..].iter().any(|x| x.0 == *k);
    if last && t.get_attribute(k) != Some(v) {
      return Err(format!("{}: attribute {}={:?} expected, got {:?}", path, k, v, t.get_attribute(k)));
    }
  }
  if let Some((k, _)) = t.get_attributes().iter().find(|(k, _)| !k.starts_with("__") && !n.attrs.iter().any(|a| a.0 == **k)) {
    return Err(format!("{}: unexpected attribute {}", path, k));
  }
  if n.name == "RegexMatcher" {
    // in which parts the expression is read is left open
    let names: Vec<String> = t.get_children().iter().map(|k| k.borrow().get_name().clone()).collect();
    return if names.iter().all(|n| ["RegexStart", "Part", "RegexEnd", "Flags"].contains(&n.as_str())) {
      Ok(())
    } else {
      Err(format!("{}: children {:?}", path, names))
    };
  }
  let kids = t.get_children();
  // the mark behind a header is left open
  let kids: Vec<&TokenRef> = kids.iter().filter(|k| k.borrow().get_name() != "EndOfScopeHeader").collect();
  let n_kids: Vec<&Node> = n.kids.iter().filter(|k| k.name != "EndOfScopeHeader").collect();
  if kids.len() != n_kids.len() {
    let names: Vec<String> = kids.iter().map(|k| k.borrow().get_name().clone()).collect();
    return Err(format!("{}: children {:?} expected, got {:?}", path, n_kids.iter().map(|k| k.name).collect::<Vec<_>>(), names));
  }
  for (a, b) in n_kids.into_iter().zip(kids) {
    if !b.borrow().get_parent().is_some_and(|p| &**p.borrow() as *const _ as *const () == &**t as *const _ as *const ()) {
      return Err(format!("{}/{}: its parent is another token", path, a.name));
    }
    same_tree(text, a, b, &path)?;
  }
  Ok(())
}

/// Both optional and negated, or a scope without a version.
fn contradicts(n: &Option<Node>) -> bool {
  fn go(n: &Node) -> bool {
    let version = || n.attrs.iter().rev().find(|a| a.0 == "version").map(|a| a.1.parse::<usize>().is_ok());
    (n.name == "AdextopaScope" && version() != Some(true)) || n.kids.iter().any(go)
  }
  n.as_ref().is_some_and(go)
}

struct Syntax {
  name: String,
  what: &'static str,
  texts: Texts,
}

pub fn syntax(name: &str, what: &'static str, texts: Texts) -> Box<dyn Space> {
  Box::new(Syntax { name: name.into(), what, texts })
}

fn run_one(what: &str, text: &str, st: &mut Stats) -> Chk {
  let r = guarded(|| ParserContext::tokenize(context_for(text), matcher_of(what))).map_err(|p| format!("it panicked: {}", p))?;
  st.traces += 1;
  st.transitions += 1;
  st.states += 1;
  let got = match &r {
    Ok(t) if !has_errors(t) => Some(t),
    _ => None,
  };
  let verdict = {
    match (part(what, text), got) {
      (Ok((Some(n), end)), Some(t)) => {
        st.outcome(end as u64 + 10);
        same_tree(text, &n, t, "")
      }
      (Ok((n, end)), None) => {
        // patterns that contradict themselves have a syntax, but are refused
        let refused = contradicts(&n);
        st.outcome(2);
        if refused {
          Ok(())
        } else {
          Err(format!("a match of {} bytes expected, got {:?}", end, r.as_ref().err()))
        }
      }
      (Err(_), Some(t)) => Err(format!("no match expected, got {:?}", t.borrow().get_matched_range())),
      _ => {
        st.outcome(3);
        Ok(())
      }
    }
  };
  if let Ok(t) = &r {
    free_tok(t);
  }
  verdict
}

impl Space for Syntax {
  fn name(&self) -> String {
    self.name.clone()
  }
  fn len(&self) -> u64 {
    self.texts.len()
  }
  fn describe(&self, i: u64) -> String {
    format!("{} {:?}", self.what, self.texts.get(i))
  }
  fn run(&self, i: u64, st: &mut Stats, beat: &mut dyn FnMut()) -> Result<(), Violation> {
    beat();
    run_one(self.what, &self.texts.get(i), st).map_err(|detail| Violation {
      case: self.describe(i),
      detail,
    })
  }
}

pub fn c32(deep: bool) -> Spaces {
  let header = dim(&[" ", "\n", "version='1'", "version='x'", "version='2'", "name='é'", "_a='1'", "a=1", "a = 'b'", "=", "]", "+='x'"]);
  let f = |v: &[(&str, &str)]| v.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect::<Vec<_>>();
  let parts = dim(&["<='a'>", "(<='b'>)", "(?'N'<X>)", "?<!/a[/]b/i a='1'>", "<[<X>|(<Y>)]>+", "<{(<X>*) <Y>}>{1,2}", "#c\n", " ", "\n", "<%'(',')','\\\\'>{2,}", "(<X k='\\'é' l='2' k='3'>)"]);
  let entries = dim(&["X=<='a'>", "Y = <{(<X>)}>*", "Z=X", "import {A} from 'p'", "import{ A as B, C }from'é\\'p'", "#c\n", " ", "\n", "$_1=?<X a='1'>"]);
  let inside = dim(&["='a'", "/b/", "X", "a='1'", " ", "\n", "?", "!", "[<X>]", "{<X>(<Y>)}", "%'a','b','c'", "b_+ = ''", "é='>'"]);
  let in_program = f(&[("", ""), ("(<{", "}>)"), ("<[ ", " ]>"), ("<[<X>|", "|<Y>|]>")]);
  let mut v: Spaces = vec![
    syntax("patterns of patterns", "Pattern", Texts::Words(parts, q(3, 4, deep), in_program)),
    syntax("scopes of entries", "AdextopaScope", Texts::Words(entries, q(3, 4, deep), f(&[("<!--[adextopa version='1']", "-->"), ("<!--[adextopa version='1' a='2' ] ", " -->\n(<X>)")]))),
    syntax("headers of scopes", "AdextopaScope", Texts::Words(header, q(4, 5, deep), f(&[("<!--[adextopa", "]-->"), ("<!--[adextopa version='1'", "]X=Y-->")]))),
    syntax("insides of patterns", "Pattern", Texts::Words(inside, q(4, 4, deep), f(&[("<", ">"), ("(?'N' <", ">+)"), ("!<", ">{ 1 , 2 }")]))),
  ];
  let mut near: Vec<String> = seeds().iter().flat_map(|s| edits(s, if deep { &['<', '\'', 'é', ' ', '#', '>', '_'] } else { &['\'', ' '] })).collect();
  near.sort();
  near.dedup();
  v.push(syntax("patterns one edit away", "Pattern", Texts::List(near.clone())));
  v.push(syntax("scopes one edit away", "AdextopaScope", Texts::List(near)));
  // every part of the language on its own
  let alphabets: &[(&str, &[&str])] = &[
    ("Identifier", &["a", "Z", "_", "$", "1", "é", " ", "-"]),
    ("String", &["'", "\\", "a", "é", "\n", "\"", " "]),
    ("Comment", &["#", "a", "\n", "\r", " ", "é"]),
    ("RepeatSpecifier", &["*", "+", "{", "}", ",", "1", "0", " ", "\n", "a"]),
    ("MatcherName", &["?", "'", "a", "\\", "é", " "]),
    ("EqualsMatcher", &["=", "'", "a", "\\", "é", " "]),
    ("SequenceMatcher", &["%", "'a'", "''", ",", " ", "\n", "'\\''", "'"]),
    ("RegexMatcher", &["/", "\\", "[", "]", "a", "i", "\n", "é", "x"]),
    ("CustomMatcher", &["X", "1", "_", "$", " ", "<"]),
    ("SwitchMatcher", &["[", "]", "|", "<X>", "(<Y>)", " ", "\n", "<"]),
    ("ProgramMatcher", &["{", "}", "<X>", "(<Y>)", " ", "\n", "(", "#c\n"]),
    ("ImportStatement", &["import", "{", "}", "from", "as", "A", ",", " ", "\n", "'p'"]),
    ("AssignmentExpression", &["X", "=", " ", "\n", "<Y>", "(", "*", "1"]),
    ("Pattern", &["<", ">", "(", ")", "X", "='a'", "?", "!", "*", " ", "'N'", "{2}"]),
  ];
  assert_eq!(alphabets.len(), PARTS.len());
  for (k, (what, a)) in alphabets.iter().enumerate() {
    assert_eq!(*what, PARTS[k]);
    let n = match a.len() {
      0..=7 => q(5, 7, deep),
      8..=10 => q(4, 5, deep),
      _ => q(4, 5, deep),
    };
    let frames = match *what {
      "ImportStatement" => f(&[("", ""), ("import{A", ""), ("import {", "} from 'p'"), ("import {A", "from 'p'")]),
      "SequenceMatcher" => f(&[("", ""), ("%'a'", ",''"), ("%'a','b'", "")]),
      "RegexMatcher" => f(&[("</", "/>"), ("(<", ">)"), ("</a[", "]/>")]),
      "SwitchMatcher" => f(&[("", ""), ("[<X>", "]")]),
      "ProgramMatcher" => f(&[("", ""), ("{<X>", "}")]),
      "Pattern" => f(&[("", ""), ("<X", ">"), ("(<X>", ")"), ("(?'N'", ")")]),
      _ => f(&[("", "")]),
    };
    let dims: Vec<String> = dim(a);
    // (an unclosed expression is refused by the pattern it is in)
    let by = if *what == "RegexMatcher" { "Pattern" } else { PARTS[k] };
    v.push(syntax(&format!("the part {}", what), by, Texts::Words(dims, n, frames)));
  }
  // the same at great length
  let ns: Vec<usize> = if deep { vec![7, 8, 9, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1025, 4097, 65535, 65536, 70000] } else { vec![9, 32, 65, 100, 129, 255, 256, 257, 300, 1025, 4097, 65536] };
  for what in PARTS {
    let mut t: Vec<String> = vec![];
    for n in ns.clone() {
      let r = |p: &str| p.repeat(n);
      let list = |p: &str, sep: &str| vec![p; n].join(sep);
      match what {
        "Identifier" => t.extend([r("a"), format!("{} b", r("_$")), format!("{}é", r("Z1")), format!("{}-", r("x"))]),
        "String" => t.extend([format!("'{}'", r("a")), format!("'{}'b", r("é\\'")), format!("'{}", r("a")), format!("'{}\\'", r("\\\\")), format!("'{}'", r("\\n\n"))]),
        "Comment" => t.extend([format!("#{}\na", r("é#")), format!("#{}", r(" ")), r("#c\n")]),
        "RepeatSpecifier" => {
          t.extend([format!("{{{}}}", r("1")), format!("{{0{},2}}", r("0")), format!("{{1,{}}}", r("9")), format!("{{{}1{},2}}", r(" "), r("\n")), format!("{{{},{}}}", n, n + 1), r("*")])
        }
        "MatcherName" => t.extend([format!("?'{}'", r("a")), format!("?'{}'", r("é\\'")), format!("?'{}", r("a"))]),
        "EqualsMatcher" => t.extend([format!("='{}'", r("a")), format!("='{}\\''", r("é")), format!("='{}", r("a"))]),
        "SequenceMatcher" => t.extend([
          format!("%'{}','{}','{}'", r("a"), r("b"), r("c")),
          format!("%{0}'a'{0},{0}'b'{0},{0}'c'", r(" ")),
          format!("%'a','{}','c", r("b\\'")),
        ]),
        // (beyond some length a regular expression is too large)
        "RegexMatcher" => t.extend(if n > 4097 { vec![] } else { vec![format!("</{}/>", r("a")), format!("</{}/i>", r("\\/")), format!("</[{}]/ims>", r("ab/")), format!("</{}/>)", r("a")), format!("</{}>", r("a"))] }),
        "CustomMatcher" => t.extend([r("X"), format!("{}>", r("X_1"))]),
        "SwitchMatcher" => t.extend(if n > 1025 { vec![] } else { vec![format!("[{}]", list("<X>", "|")), format!("[{}|]", list("(<Y>)", " ")), format!("[{0}<X>{0}|{0}<Y>{0}]", r(" "))] }),
        "ProgramMatcher" => t.extend(if n > 1025 { vec![] } else { vec![format!("{{{}}}", r("<X>")), format!("{{{}", r("(<Y>*) ")), format!("{{{0}<X>{0}#{0}\n}}", r(" "))] }),
        "ImportStatement" => t.extend(if n > 1025 {
          vec![format!("import {{ A }} from '{}'", r("p"))]
        } else {
          vec![
            format!("import {{ {} }} from 'p'", list("A as B", ", ")),
            format!("import{{{}}}from'p'", list("A", ",")),
            format!("import {{ {} as {}x }} from '{}'", r("A"), r("B"), r("d/")),
            format!("import{0}{{{0}A{0}as{0}B{0},{0}}}{0}from{0}'p'", r(" ")),
          ]
        }),
        "AssignmentExpression" => t.extend([format!("{}=<Y>", r("X")), format!("X{0}={0}<Y>", r(" ")), format!("X=<={}'a'>", r(" ")), format!("X=<='{}'>", r("a"))]),
        _ => {
          t.extend([
            format!("<X {}>", if n > 1025 { format!("k='{}'", r("v")) } else { (0..n).map(|k| format!("k{}='{}'", k, k)).collect::<Vec<_>>().join(" ") }),
            format!("(?'{}'<{}>){{{},}}", r("N"), r("X"), n),
            format!("{0}<{0}X{0}>{0}", r(" ")),
            format!("<X {}='{}'>", r("k"), r("\\'")),
          ]);
          if n <= 40 {
            // (how deep patterns may nest is left open)
            t.push(format!("{}<X>{}", r("<{"), r("}>")));
            t.push(format!("({}<X>{})", r("<[(<Y>)|"), r("]>")));
          }
        }
      }
    }
    v.push(syntax(&format!("the part {} at great length", what), if what == "RegexMatcher" { "Pattern" } else { what }, Texts::List(t)));
  }
  let mut t: Vec<String> = vec![];
  for n in ns.iter().filter(|n| **n <= 1025) {
    t.push("<X>(<Y>)".repeat(*n));
    t.push("#c\n <X>\n".repeat(*n));
    t.push(format!("<{{{}}}>{}", "(<X>*)".repeat(*n), "?<Y>".repeat(*n)));
  }
  v.push(syntax("very many patterns", "Pattern", Texts::List(t)));
  let mut t: Vec<String> = vec![];
  for n in ns.iter().filter(|n| **n <= 1025) {
    let n = *n;
    t.push(format!("<!--[adextopa version='1'] {}-->", (0..n).map(|k| format!("X{}=<Y{}> ", k, k)).collect::<String>()));
    t.push(format!("<!--[adextopa version='1'] {}-->", "import {A} from 'p'\n#c\n".repeat(n)));
    t.push(format!("<!--[adextopa version='1' {}] -->", (0..n).map(|k| format!("k{}='v' ", k)).collect::<String>()));
    t.push(format!("<!--[adextopa version='1' name='{}'] {}X=<Y>-->", "N".repeat(n), "\n".repeat(n)));
  }
  v.push(syntax("scopes of very many entries", "AdextopaScope", Texts::List(t)));
  v
}
