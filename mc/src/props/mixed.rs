//! Features together: the patterns of a property between errors of every kind and in parts of a source,
//! definitions of one name by different means, and sources, values and paths that nearly are the same.
use super::more::cases;
use super::objects::lines;
use super::script::{file_set, scripts, Texts, Want};
use crate::g::*;
use crate::gen::{strings, Un};
use crate::gspace::*;
use crate::real::Style;
use crate::space::*;
use G::*;

type Spaces = Vec<Box<dyn Space>>;
const OPEN: &str = "<!--[adextopa version='1']\n";

fn q(n: usize, deep: usize, d: bool) -> usize {
  if d {
    deep
  } else {
    n
  }
}

fn pins_apart(g: &G) -> bool {
  !g.any(&|x| !matches!(x, Prog(..) | Switch(..) | Loop(..) | Pin(..)) && x.kids().iter().any(|y| matches!(y, Pin(..) | PinVar(..))))
}

/// The property's own patterns beside everything that may stop a parse, in every part of a source.
fn core(what: &str, own: Vec<G>, wraps: Vec<Un>, has: fn(&G) -> bool, deep: bool) -> GSpace {
  let mut leaves = own;
  leaves.extend([
    Re("[ab]"),
    Eq("a"),
    disc(Eq("b")),
    Ref("Nowhere"),
    map(MapOk::Bare("bare"), OnFail::Pass, Eq("a")),
    map(MapOk::Same, OnFail::Bare("none"), Eq("b")),
    Panic("p"),
    Error("e"),
    Break(""),
  ]);
  let mut unary = wraps;
  unary.push(un(opt));
  let windows = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (1, 4), (2, 3)];
  GSpace::new(
    &format!("{} beside errors, in parts of a source", what),
    leaves,
    unary,
    vec![nary(2, 3, |v| Prog(None, v)), nary(2, 3, |v| Switch(None, v)), nary(1, 2, |v| Loop(None, Rng::Default, v))],
    (1, q(4, 5, deep)),
  )
  .keep(move |g| has(g) && pins_apart(g))
  .windows(std::iter::once(None).chain(windows.into_iter().map(Some)).collect())
  .fresh()
  .texts(&["", "a", "b", "ab", "ba", "aab", "aba", "abb", "baab", "abab"])
}

/// One name that is bound by different means, one after the other.
fn rebound(deep: bool) -> Spaces {
  let leaves = || {
    vec![
      StoreS("V", "a"),
      StoreS("V", "b"),
      store("V", Re("[ab]")),
      store("V", Prog(None, vec![disc(Eq("a")), Eq("b")])),
      Register(vec![EqN("V", "a")]),
      EqN("V", "b"),
      EqVar("V"),
      EqVar("V.captured_value"),
      EqVar("V.matched_value"),
      Ref("V"),
      RefVar("V"),
      Re("[ab]"),
    ]
  };
  let env = || vec![("a", Eq("a")), ("b", Re("b+"))];
  vec![
    GSpace::new("one name bound by different means", leaves(), vec![un(scope), un(opt)], vec![nary(2, q(4, 5, deep), |v| Prog(None, v))], (2, q(5, 6, deep)))
      .env(env())
      .fresh()
      .texts(&["a", "ab", "ba", "aa", "bb", "aab", "aba", "abab", "bbb", "aaab"])
      .done(),
    GSpace::new("one name bound by different means, known before", leaves(), vec![un(scope), un(|g| SetScopeDef(vec![("V", Eq("a"))], Box::new(g)))], vec![nary(2, 3, |v| Prog(None, v)), nary(1, 2, |v| Loop(None, Rng::Incl(1, 3), v)), nary(2, 2, |v| Switch(None, v))], (1, q(4, 5, deep)))
      .frames(vec![
        un(|g| Prog(None, vec![StoreS("V", "b"), g])),
        un(|g| Prog(None, vec![store("V", Re("[ab]")), g, EqVar("V.captured_value")])),
        un(|g| Prog(None, vec![Register(vec![ReN("V", "[ab]")]), scope(g), opt(Ref("V"))])),
        un(|g| Prog(None, vec![StoreS("V", "a"), scope(g), opt(EqVar("V"))])),
      ])
      .env(env().into_iter().chain([("V", Eq("ab"))]).collect())
      .fresh()
      .texts(&["a", "ab", "ba", "aa", "bb", "aab", "aba", "abab", "bbb", "aaab"])
      .done(),
  ]
}

/// Values of stored tokens that are not what their ranges cover.
fn stored_values(deep: bool) -> Spaces {
  let mut t: Vec<String> = vec![];
  for w in strings(&["a", "b", "\\a", "\\'", "\\\\", "é", "\\é"], q(3, 4, deep)) {
    // without escapes
    let mut bare = String::new();
    let mut esc = false;
    for c in w.chars() {
      if c == '\\' && !esc {
        esc = true;
      } else {
        bare.push(c);
        esc = false;
      }
    }
    for after in [bare.clone(), w.clone(), format!("'{}'", w), format!("'{}'", bare), format!("{}'", bare)] {
      t.push(format!("'{}'{}", w, after));
    }
  }
  t.sort();
  t.dedup();
  let t: Vec<S> = t.iter().map(|x| leak(x)).collect();
  let stores: Vec<fn(G) -> G> = vec![
    |g| store("S", g),
    |g| store("S", disc(g)),
    |g| disc(store("S", g)),
    |g| store("S", flat(g)),
    |g| store("S", Prog(None, vec![g])),
    |g| store("S", map(MapOk::Rename("R"), OnFail::Pass, g)),
    |g| store("S", map(MapOk::Val("x"), OnFail::Pass, g)),
    |g| store("S", map(MapOk::CapText("a"), OnFail::Pass, g)),
    |g| store("S", map(MapOk::MatText("a"), OnFail::Pass, g)),
    |g| store("S", map(MapOk::CapEnd, OnFail::Pass, g)),
    |g| map(MapOk::Val("b"), OnFail::Pass, store("S", g)),
    |g| store("S", expand(Prog(None, vec![g]))),
  ];
  let frames: Vec<Un> = stores.into_iter().map(|f| un(move |g| Prog(None, vec![f(Seq("'", "'", "\\")), g, opt(Re("(?s).+"))]))).collect();
  vec![GSpace::new(
    "values that are not the captured text",
    vec![
      EqVar("S.captured_value"),
      EqVar("S.matched_value"),
      EqVar("S.value"),
      PinVar("S.range", Box::new(Re("(?s).+"))),
      PinVar("S.start", Box::new(Re("(?s).+"))),
      PinVar("S.captured_end", Box::new(Re("(?s).+"))),
      PinVar("S.captured_range", Box::new(Re("(?s).+"))),
    ],
    vec![],
    vec![nary(2, 2, |v| Prog(None, v))],
    (1, 3),
  )
  .frames(frames)
  .keep(pins_apart)
  .texts(&t)
  .done()]
}

/// Sources that differ in hardly anything, each pair of which is parsed one right after the other.
pub fn near_texts(deep: bool) -> Vec<S> {
  let mut all: Vec<String> = vec![];
  let n = q(20, 40, deep);
  let bases = ["ab".repeat(n / 2), "a".repeat(n), "é".repeat(n / 2) + &"ab".repeat(n / 4)];
  for b in bases {
    let cs: Vec<char> = b.chars().collect();
    for k in 0..cs.len() {
      for r in ['b', 'a', '1', '\n', 'é'] {
        let mut x = cs.clone();
        x[k] = r;
        all.push(x.iter().collect());
        // as long as before
        if k % 4 == 0 {
          x.swap(k, (k + 3) % cs.len());
          all.push(x.iter().collect());
          x.remove(k);
          all.push(x.iter().collect());
        }
        all.push(b.clone());
      }
    }
  }
  all.into_iter().map(|s| leak(&s)).collect()
}

fn near(what: &str, leaves: Vec<G>, wraps: Vec<Un>, size: usize, deep: bool) -> GSpace {
  GSpace::new(&format!("{} on sources that hardly differ", what), leaves, wraps, vec![], (1, size))
    .frames(vec![
      un(|g| g),
      un(|g| Prog(None, vec![g, opt(Re("(?s).+"))])),
      un(|g| Prog(None, vec![Re(".{3}"), opt(g), opt(Re("[^b]+"))])),
      un(|g| Loop(None, Rng::Default, vec![Re("[ab]{4}"), opt(g)])),
      un(|g| Prog(None, vec![Re("[a-zé]+"), opt(g)])),
    ])
    .keep(pins_apart)
    .styles(&[Style::Functions])
    .texts(&near_texts(deep))
    .parse()
}

fn near_leaves() -> Vec<G> {
  vec![Re("[ab]+"), Re("[a-zé]+"), Re("(?s).{11,}"), Re("(ab)+"), Eq("ababababab"), Eq("aaaaaaaaaa"), Seq("a", "b1", ""), Seq("b", "1", "é"), Loop(None, Rng::Default, vec![Re("[ab]")]), not(Re("[ab]+1"))]
}

/// White space and what only looks like it.
pub const SPACES: [&str; 32] = [
  " ", "\t", "\n", "\u{b}", "\u{c}", "\r", "\r\n", "\u{85}", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}", "\u{2004}", "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200a}", "\u{2028}", "\u{2029}",
  "\u{202f}", "\u{205f}", "\u{3000}", "\u{200b}", "\u{feff}", "\u{180e}", "\u{1c}", "\0", "\u{2060}",
];

/// Each kind of white space at each place (`~`) of these texts, alone and beside a blank.
pub fn spaced(bases: &[&str]) -> Vec<String> {
  let mut v = vec![];
  for b in bases {
    let parts: Vec<&str> = b.split('~').collect();
    for s in SPACES {
      for gap in [s.to_string(), format!(" {}", s), format!("{} ", s), format!("\n{}\n", s), format!("#c\n{}", s), s.repeat(2), s.repeat(7)] {
        v.push(parts.join(&gap));
        for rest in ["", " "] {
          for k in 1..parts.len() {
            v.push(format!("{}{}{}", parts[..k].join(rest), gap, parts[k..].join(rest)));
          }
        }
      }
    }
  }
  v.sort();
  v.dedup();
  v
}

/// Constructs that are broken, or only look so.
const BROKEN: [&str; 26] = [
  "(<=''>)",
  "<=''>",
  "(</[/>)",
  "</(/>",
  "(</a{2,1}/>)",
  "(</a/x~>)",
  "<%'','b',''>",
  "<%'a','',''>",
  "(<%'a','a','a'>)",
  "(<='a'>){2,1}",
  "<='a'>{3,1}",
  "(<='a'>){1,99999999999999999999}",
  "(<='a' _k='v'>)",
  "(<='a' k=v>)",
  "(<>)",
  "<{}>",
  "<[]>",
  "(?''<='a'>)",
  "(<='a'",
  "<='a",
  "(<='a'>))",
  "x",
  "(<='a'>)*+",
  "(<!='a'>)",
  "<%'a','b'>",
  "(<Nope>)",
];

fn in_every_place(deep: bool) -> Vec<String> {
  let ok = ["(<='a'>)", "<='b'>", "?(<='c'>)"];
  let mut v = vec![];
  let lists = |x: &str, n: usize, sep: &str| -> Vec<String> {
    (0..n)
      .map(|k| (0..n).map(|j| if j == k { x.to_string() } else { ok[j % 3].to_string() }).collect::<Vec<_>>().join(sep))
      .collect()
  };
  for x in BROKEN {
    for n in 1..=q(5, 8, deep) {
      for l in lists(x, n, "") {
        v.push(l.clone());
        v.push(format!("<{{{}}}>", l));
        v.push(format!("(<{{(<='a'>)?<{{{}}}>(<='b'>)}}>*)", l));
        v.push(format!("<[(<{{{}}}>)|<='b'>|(<='a'>)]>", l));
        v.push(format!("{}X=<{{{}}}>\n-->(<X>)", OPEN, l));
        v.push(format!("{}X=<{{{}}}>\n-->(<='a'>)", OPEN, l));
        v.push(format!("{}Y=<='a'>\nX=<{{(<='a'>)<{{{}}}>}}>\nZ=<='b'>\n-->(<Y>)", OPEN, l));
      }
      for l in lists(x, n, "|") {
        v.push(format!("<[{}]>", l));
        v.push(format!("(<[<='a'>|<[{}]>|<='b'>]>)", l));
        v.push(format!("(<{{(<='a'>)(<[{}]>)<='b'>}}>)", l));
        v.push(format!("{}X=<[{}]>\nY=<='a'>-->(<Y>)", OPEN, l));
      }
    }
  }
  v
}

/// Several definitions of odd names, the last of which holds.
fn defined_again(deep: bool) -> Vec<String> {
  let names = ["X", "x", "_X", "_", "__", "$X", "$", "_1", "X_", "X$", "_$", "as", "from", "import", "version", "Equals", "Program", "Ref", "Script", "N"];
  let mut v = vec![];
  for n in names {
    for d in [
      vec!["N=<='a'>", "N=<='b'>"],
      vec!["N=<='a'>", "Q=<='b'>", "N=<='b'>"],
      vec!["N=<='b'>", "N=<='a'>", "N=<[<='ab'>|(<='a'>)]>"],
      vec!["Q=<N>", "N=<='a'>", "N=<='b'>"],
      vec!["Q=N", "N=<='a'>", "N=<{(<='b'>)}>"],
      vec!["N=<='a'>", "Q=N", "N=<='b'>"],
      vec!["N=<='a' k='v'>", "N=<='a'>"],
      vec!["N=<='a'>", "N=<=''>"],
      vec!["N=<=''>", "N=<='a'>"],
      vec!["N=<='a'>"; 2],
      vec!["N=<='b'>"; q(9, 40, deep)],
    ] {
      let d: Vec<String> = d.iter().map(|x| x.replace('N', n)).collect();
      for u in ["(<N>)", "(<Q>)?(<N>)", "(<N>*)<Q>"] {
        v.push(format!("{}{}\n-->{}", OPEN, d.join("\n"), u.replace('N', n)));
      }
    }
  }
  v
}

/// Files named by every way through directories.
fn ways(deep: bool) -> Spaces {
  let segs = ["x", "y", "..", ".", "a.axo"];
  let mut paths: Vec<String> = vec![];
  let n = q(5, 6, deep);
  for i in 1..crate::gen::words(segs.len() as u64, n) {
    let w = crate::gen::word(segs.len() as u64, i);
    // (a path that only ends in a file is one)
    if *w.last().unwrap() == 4 && w.iter().filter(|k| **k == 3).count() <= 1 && w[..w.len() - 1].iter().filter(|k| **k == 4).count() == 0 {
      paths.push(w.iter().map(|k| segs[*k]).collect::<Vec<_>>().join("/"));
    }
  }
  for k in 1..=q(8, 20, deep) {
    paths.push(format!("{}a.axo", "x/../".repeat(k)));
    paths.push(format!("{}a.axo", "x/y/../../".repeat(k)));
    paths.push(format!("x/y/../{}a.axo", "../x/".repeat(k)));
    paths.push(format!("{}a.axo", "./".repeat(k)));
    paths.push(format!("x/{}a.axo", "y/../".repeat(k)));
    paths.push(format!("{}d/a.axo", "../d/".repeat(k)));
    paths.push(format!("x{}y/a.axo", "/".repeat(k)));
  }
  let all: Vec<Option<String>> = paths.iter().map(|p| Some(format!("{}import {{ X }} from '{}'\n-->(<X>)", OPEN, p))).collect();
  let lib = |t: &str| vec![Some(format!("{}X=<='{}'>-->", OPEN, t))];
  // and from one file through another
  let some: Vec<String> = paths.iter().filter(|p| p.matches('/').count() <= q(3, 4, deep)).cloned().collect();
  let mut mains = vec![];
  for p in ["x/b.axo", "x/y/../b.axo", "./x/y/../../x/b.axo", "../d/x/b.axo"] {
    mains.push(Some(format!("{}import {{ X }} from '{}'\n-->(<X>)", OPEN, p)));
  }
  let through: Vec<Option<String>> = some.iter().map(|p| Some(format!("{}import {{ X }} from '{}'\n-->(<X>)", OPEN, p))).collect();
  let tree = || vec![("d/a.axo", lib("a")), ("d/x/a.axo", lib("b")), ("d/x/y/a.axo", lib("ab")), ("a.axo", lib("ba")), ("d/x/x/a.axo", lib("aa")), ("d/y/a.axo", lib("bb"))];
  let mut one = vec![("d/main.axo", all)];
  one.extend(tree());
  let mut two = vec![("d/main.axo", mains), ("d/x/b.axo", through)];
  two.extend(tree());
  vec![
    file_set("all ways through directories", one, strings(&["a", "b"], 2), Want::Any),
    file_set("all ways through directories from a file of another", two, strings(&["a", "b"], 2), Want::Any),
  ]
}

/// Everything that may end the pattern of a scope, at every depth of scopes.
fn leaving(deep: bool) -> Spaces {
  let leaves = || {
    vec![
      Break(""),
      Break("L"),
      Break("Nowhere"),
      Cont(""),
      Cont("L"),
      Panic("p"),
      Eq("b"),
      Null,
      Error("e"),
      Ref("Nowhere"),
      map(MapOk::Break("L"), OnFail::Break("L"), Eq("b")),
      map(MapOk::Continue("L"), OnFail::Continue(""), Eq("b")),
      map(MapOk::Bare("x"), OnFail::Fail, Eq("b")),
    ]
  };
  let wraps = || {
    vec![
      un(scope),
      un(|g| scope(Prog(None, vec![StoreS("V", "b"), g]))),
      un(|g| scope(Prog(None, vec![store("V", Eq("b")), g]))),
      un(|g| scope(Prog(None, vec![opt(Eq("a")), Register(vec![EqN("V", "b")]), g]))),
      un(|g| SetScopeDef(vec![("V", Eq("b"))], Box::new(g))),
      un(|g| Switch(None, vec![g, Re("[ab]")])),
      un(opt),
      un(flat),
      un(disc),
      un(not),
      un(|g| Catch(OnFail::Skip0, Box::new(g))),
      un(|g| Loop(Some("L"), Rng::Incl(0, 2), vec![opt(Eq("a")), g])),
      un(|g| Prog(None, vec![Eq("a"), g])),
    ]
  };
  let frames = || -> Vec<Un> {
    vec![
      un(|g| Prog(None, vec![StoreS("V", "a"), Loop(Some("L"), Rng::Incl(0, 2), vec![opt(Eq("a")), g]), opt(EqVar("V")), opt(Re("(?s).+"))])),
      un(|g| Prog(None, vec![store("V", Re("[ab]")), Catch(OnFail::Skip0, Box::new(Loop(None, Rng::Incl(0, 2), vec![g]))), opt(EqVar("V.captured_value")), opt(Re("(?s).+"))])),
      un(|g| Prog(None, vec![Register(vec![EqN("V", "a")]), opt(Loop(Some("L"), Rng::Default, vec![Re("[ab]"), g])), opt(Ref("V")), opt(Re("(?s).+"))])),
      un(|g| Prog(None, vec![StoreS("V", "a"), Loop(Some("L"), Rng::Incl(0, 2), vec![scope(Loop(Some("M"), Rng::Incl(0, 2), vec![StoreS("V", "b"), opt(Eq("b")), g]))]), opt(EqVar("V")), opt(Re("(?s).+"))])),
    ]
  };
  vec![GSpace::new("every way to leave a scope", leaves(), wraps(), vec![], (1, q(3, 4, deep)))
    .frames(frames())
    .keep(pins_apart)
    .fresh()
    .texts(&["", "a", "b", "ab", "ba", "aa", "aba", "aab", "abab", "aaba"])
    .done()]
}

/// The names that the library itself gives to tokens and matchers, given by the user.
const BUILTIN: [&str; 32] = [
  "Program", "Loop", "Switch", "Flatten", "ExpandRange", "Error", "Ref", "Pin", "Discard", "Optional", "Not", "Map", "Catch", "Debug", "Store", "Register", "SetScope", "Sequence", "Equals", "Matches", "Null", "Break", "Panic", "Script", "AssertIf", "ProxyChildren",
  "Fetch", "None", "", "*", "Discarded", "Skip",
];

fn builtin_names(what: &str, own: Vec<fn(S) -> G>, wraps: Vec<fn(S, G) -> G>, has: fn(&G) -> bool, deep: bool) -> Spaces {
  BUILTIN
    .iter()
    .map(|n| {
      let n: S = n;
      let mut leaves: Vec<G> = own.iter().map(|f| f(n)).collect();
      leaves.extend([EqN(n, "a"), Re("[ab]"), disc(Eq("a"))]);
      let mut unary: Vec<Un> = wraps.iter().map(|f| {
        let f = *f;
        un(move |g| f(n, g))
      }).collect();
      unary.push(un(move |g| Prog(Some(n), vec![g])));
      unary.push(un(opt));
      GSpace::new(
        &format!("{} with the name \"{}\"", what, n),
        leaves,
        unary,
        vec![nary(2, 2, move |v| Prog(Some(n), v)), nary(2, 2, |v| Prog(None, v)), nary(2, 2, move |v| Switch(Some(n), v)), nary(1, 2, move |v| Loop(Some(n), Rng::Default, v))],
        (1, q(4, 5, deep)),
      )
      .keep(move |g| has(g) && pins_apart(g))
      .fresh()
      .styles(&[Style::Functions])
      .texts(&["a", "ab", "aa", "bab", "aab", "abab"])
      .parse()
      .done()
    })
    .collect()
}

/// Repetitions of several patterns with every bound, up to, at and beyond which something happens.
fn bounded(what: &str, own: Vec<G>, has: fn(&G) -> bool, deep: bool) -> Spaces {
  let n = q(6, 9, deep);
  let mut rngs = vec![Rng::Default];
  for a in 0..=q(4, 6, deep) {
    rngs.push(Rng::From(a));
    for b in a.max(1)..=q(4, 7, deep) {
      rngs.push(if (a + b) % 2 == 0 { Rng::Half(a, b) } else { Rng::Incl(a, b) });
    }
  }
  let mut texts = vec![];
  for i in 0..=n {
    for end in ["", "b", "c", "ba", "ca", "bb", "cab"] {
      for unit in ["a", "ab"] {
        texts.push(unit.repeat(i) + end);
      }
    }
  }
  texts.sort();
  texts.dedup();
  let mut leaves = own;
  leaves.extend([Eq("a"), Re("[ab]"), disc(Eq("a")), opt(Eq("b")), disc(opt(Eq("b"))), not(Eq("c"))]);
  vec![GSpace::new(&format!("{} in runs of repetitions with every bound", what), leaves, vec![], rngs.into_iter().map(|r| nary(2, q(2, 3, deep), move |v| Loop(None, r, v))).collect(), (3, q(3, 4, deep)))
    .frames(vec![un(|g| g), un(|g| Prog(None, vec![g, opt(Re("(?s).+"))])), un(|g| Prog(None, vec![Loop(None, Rng::Incl(1, 2), vec![g, opt(Eq("c"))])])), un(|g| Switch(None, vec![g, Re("[ab]+")]))])
    .keep(has)
    .styles(&[Style::Functions])
    .texts(&texts.iter().map(|s| leak(s)).collect::<Vec<S>>())
    .done()]
}

pub fn mixed(id: &str, d: bool) -> Spaces {
  let mut v = apart(id, d);
  v.extend(joint(id, d));
  let p = |n: S, g: G| Prog(Some(n), vec![Re("[ab]"), g]);
  match id {
    "C01" => v.extend(builtin_names("sequences", vec![|n| ReN(n, "b")], vec![p], |g| g.any(&|x| matches!(x, Prog(..))), d)),
    "C02" => v.extend(builtin_names("choices", vec![|n| Switch(Some(n), vec![Eq("b"), EqN(n, "a")])], vec![], |g| g.any(&|x| matches!(x, Switch(..))), d)),
    "C03" => {
      v.extend(bounded("patterns", vec![Null, opt(Eq("a"))], |_| true, d));
      v.extend(builtin_names("repetitions", vec![], vec![|n, g| Loop(Some(n), Rng::Incl(1, 2), vec![g])], |g| g.any(&|x| matches!(x, Loop(..))), d));
    }
    "C04" => {
      v.extend(bounded("optional, negated and discarded patterns", vec![disc(not(Eq("b"))), opt(disc(Eq("b")))], |_| true, d));
      v.extend(builtin_names("discarded patterns", vec![], vec![|_, g| disc(g), |_, g| not(g)], |g| g.any(&|x| matches!(x, Disc(_) | Not(_))), d));
    }
    "C05" => {
      v.extend(bounded("jumps", vec![Switch(None, vec![Eq("b"), Break("")]), Switch(None, vec![Break(""), Eq("b")]), Prog(None, vec![Eq("b"), Break("")]), opt(Prog(None, vec![Eq("b"), Cont("")])), Break(""), Cont("")], |g| g.any(&|x| matches!(x, Break(_) | Cont(_))), d));
      v.extend(builtin_names("jumps", vec![|n| Break(n), |n| Cont(n)], vec![], |g| g.any(&|x| matches!(x, Break(_) | Cont(_))) && g.any(&|x| matches!(x, Loop(..))), d));
    }
    "C06" => v.extend(builtin_names("tokens", vec![|n| SeqN(n, "a", "b", "")], vec![|_, g| flat(g)], |_| true, d)),
    "C07" => {
      v.extend(bounded("recorded errors", vec![Error("e"), AssertIf("ai", Box::new(Eq("b"))), AssertIfNot("an", Box::new(Eq("a")))], |g| g.any(&|x| matches!(x, Error(_) | AssertIf(..) | AssertIfNot(..))), d));
      v.extend(builtin_names("recorded errors", vec![|_| Error("e")], vec![|_, g| disc(g)], |g| g.any(&|x| matches!(x, Error(_))), d));
    }
    "C08" => {
      v.extend(bounded("fatal errors", vec![FatalIf("fi", Box::new(Eq("b"))), FatalIf("fi", Box::new(Eq("c"))), FatalIfNot("fn", Box::new(Eq("a"))), Panic("p"), opt(Prog(None, vec![Eq("b"), Panic("p")]))], |g| g.any(&|x| matches!(x, Panic(_) | FatalIf(..) | FatalIfNot(..))), d));
      v.extend(builtin_names("fatal errors", vec![|_| Panic("p")], vec![p], |g| g.any(&|x| matches!(x, Panic(_))), d));
    }
    "C10" => v.extend(builtin_names("delimited sequences", vec![|n| SeqN(n, "a", "b", "")], vec![|_, g| disc(g)], |g| g.any(&|x| matches!(x, SeqN(..))), d)),
    "C11" => v.extend(leaving(d)),
    "C12" => v.extend(builtin_names("references", vec![|n| Ref(n), |n| RefN(n, n)], vec![|_, g| scope(g)], |g| g.any(&|x| matches!(x, Ref(..) | RefN(..))), d)),
    "C13" => v.extend(bounded("stores", vec![store("V", Eq("a")), store("V", Re("[ab]")), opt(store("V", Eq("b")))], |g| g.any(&|x| matches!(x, Store(..))), d)),
    "C14" => v.extend(builtin_names("pins", vec![|n| Pin0(Some(n), "0")], vec![|n, g| Pin(Some(n), "0", Box::new(g))], |g| g.any(&|x| matches!(x, Pin0(..) | Pin(..))), d)),
    "C24" => {
      v.extend(bounded("handlers", vec![map(MapOk::Rename("R"), OnFail::Skip0, Eq("b")), map(MapOk::Skip, OnFail::Pass, Re("[ab]")), map(MapOk::Same, OnFail::Err("x"), Eq("a"))], |g| g.any(&|x| matches!(x, Map(..))), d));
      v.extend(builtin_names("handlers", vec![|n| map(MapOk::Rename(n), OnFail::Pass, Eq("b"))], vec![|n, g| map(MapOk::Rename(n), OnFail::Pass, g)], |g| g.any(&|x| matches!(x, Map(..))), d));
    }
    "C25" => {
      v.extend(bounded("flattened patterns", vec![flat(Prog(None, vec![Eq("a"), disc(opt(Eq("b")))])), flat(Prog(None, vec![disc(Eq("a")), Eq("b")])), expand(Eq("a"))], |g| g.any(&|x| matches!(x, Flat(_) | Expand(_))), d));
      v.extend(builtin_names("flattened patterns", vec![], vec![|n, g| FlatN(n, Box::new(g)), |_, g| flat(g), |_, g| expand(g)], |g| g.any(&|x| matches!(x, Flat(_) | FlatN(..) | Expand(_))), d));
    }
    _ => {}
  }
  v
}

fn apart(id: &str, d: bool) -> Spaces {
  match id {
    "C01" => vec![
      core("sequences", vec![Null, Prog(None, vec![Eq("a"), disc(Eq("b"))]), Eq("aa")], vec![un(disc), un(|g| Prog(Some("P"), vec![g]))], |g| g.any(&|x| matches!(x, Prog(..))), d).parse().done(),
      near("sequences", near_leaves(), vec![un(|g| Prog(None, vec![Re("a"), g])), un(opt)], 2, d).done(),
    ],
    "C02" => vec![core("choices", vec![Eq("ab"), Null, Switch(None, vec![Eq("bb"), Eq("b")])], vec![un(|g| Switch(Some("S"), vec![g, Eq("b")])), un(disc)], |g| g.any(&|x| matches!(x, Switch(..))), d).parse().done()],
    "C03" => vec![
      core("repetitions", vec![Null, Break("L"), Loop(None, Rng::Incl(1, 2), vec![Eq("b")])], vec![un(|g| Loop(Some("L"), Rng::Half(1, 2), vec![g])), un(disc)], |g| g.any(&|x| matches!(x, Loop(..))), d).done(),
      near("repetitions", near_leaves(), vec![un(|g| Loop(None, Rng::Default, vec![g])), un(|g| Loop(None, Rng::Half(2, 9), vec![g]))], 2, d).done(),
    ],
    "C04" => vec![core("optional, negated and discarded patterns", vec![not(Eq("b")), disc(opt(Eq("a"))), Null], vec![un(not), un(disc)], |g| g.any(&|x| matches!(x, Opt(_) | Not(_) | Disc(_))), d).parse().done()],
    "C05" => vec![core("jumps", vec![Break("L"), Cont("L"), Cont("")], vec![un(|g| Loop(Some("L"), Rng::Incl(1, 2), vec![g])), un(|g| Prog(Some("L"), vec![Re("a"), g]))], |g| g.any(&|x| matches!(x, Break(_) | Cont(_))) && g.any(&|x| matches!(x, Loop(..))), d).done()],
    "C06" => vec![
      core("tokens", vec![SeqN("Q", "a", "b", ""), EqN("N", "ab"), Null], vec![un(disc), un(flat)], |_| true, d).only_parse().done(),
      near("tokens", near_leaves(), vec![un(|g| Prog(Some("N"), vec![Re("a"), g])), un(disc)], 2, d).done(),
    ],
    "C07" => vec![core("recorded errors", vec![AssertIf("ai", Box::new(Eq("a"))), AssertIfNot("an", Box::new(Eq("b"))), Prog(None, vec![Error("f"), Eq("a")])], vec![un(disc), un(|g| Prog(None, vec![Error("g"), g]))], |g| g.any(&|x| matches!(x, Error(_) | AssertIf(..) | AssertIfNot(..))), d).file("f.txt").parse().done()],
    "C08" => vec![core("fatal errors", vec![FatalIf("fi", Box::new(Eq("a"))), FatalIfNot("fn", Box::new(Eq("b"))), RefVar("W")], vec![un(disc), un(|g| Catch(OnFail::Pass, Box::new(g)))], |g| g.any(&|x| matches!(x, Panic(_) | FatalIf(..) | FatalIfNot(..) | Map(..) | Ref(_) | RefVar(_))), d).file("f.txt").parse().done()],
    "C09" => vec![
      core("terminals", vec![Re("[ab]+$"), Re("^a"), Eq("ab"), Re("\\Bb|a\\b")], vec![un(not)], |g| g.any(&|x| matches!(x, Re(_) | Eq(_))), d).done(),
      near("terminals", near_leaves(), vec![], 1, d).done(),
    ],
    "C10" => vec![
      core("delimited sequences", vec![Seq("a", "b", ""), Seq("a", "a", "b"), SeqN("Q", "b", "a", "a")], vec![un(disc), un(|g| Prog(None, vec![Re("a"), g]))], |g| g.any(&|x| matches!(x, Seq(..) | SeqN(..))), d).parse().done(),
      near("delimited sequences", vec![Seq("a", "b1", ""), Seq("ab", "1", "b"), Seq("a", "\n", "é"), Seq("é", "a", "b")], vec![un(opt)], 2, d).done(),
    ],
    "C11" => rebound(d),
    "C12" => {
      let mut v = rebound(d);
      v.push(
        core("chains of references", vec![Ref("C3"), Ref("C2"), RefN("Ref", "C1"), Ref("D2")], vec![un(|g| SetScopeDef(vec![("C1", Eq("b"))], Box::new(g)))], |g| g.any(&|x| matches!(x, Ref("C3" | "C2" | "D2") | RefN(..))), d)
          .env(vec![("C3", Ref("C2")), ("C2", RefN("N", "C1")), ("C1", opt(Eq("b"))), ("D2", Ref("D1")), ("D1", Ref("D0")), ("D0", not(Eq("b")))])
          .done(),
      );
      v.push(
        core("references", vec![Ref("X"), RefN("N", "X"), EqN("X", "b"), Ref("R")], vec![un(scope)], |g| g.any(&|x| matches!(x, Ref("X") | RefN(..) | Ref("R"))), d)
          .env(vec![("X", Re("a+")), ("R", Prog(None, vec![Eq("a"), opt(Ref("R"))]))])
          .done(),
      );
      v
    }
    "C13" => {
      let mut v = rebound(d);
      v.extend(stored_values(d));
      v.push(core("stored values", vec![store("V", Re("[ab]")), store("V", Prog(None, vec![disc(Eq("a")), Eq("b")])), EqVar("V.captured_value")], vec![un(|g| store("V", g)), un(disc)], |g| g.any(&|x| matches!(x, Store(..))), d).parse().done());
      v
    }
    "C14" => {
      vec![core("pins", vec![Pin0(None, "0"), Pin0(None, "+1"), pin("..+1", Re("[ab]+"))], vec![un(|g| pin("0", g)), un(|g| pin("1..3", g)), un(|g| Pin(Some("N"), "-1", Box::new(g)))], |g| g.any(&|x| matches!(x, Pin0(..) | Pin(..))), d).parse().done()]
    }
    "C15" => {
      let mut l = near_leaves();
      l.extend([store("V", Re("[ab]{4}")), Prog(None, vec![Re("[ab]{6}"), Error("e")]), Prog(Some("X"), vec![Re("[ab]"), opt(Ref("X"))]), Prog(None, vec![Re(".{9}"), Panic("p")])]);
      vec![near("one matcher", l, vec![un(opt), un(disc), un(|g| Prog(None, vec![g, opt(Eq("a"))])), un(|g| Loop(None, Rng::Default, vec![g])), un(|g| Switch(None, vec![Eq("1"), g]))], q(2, 3, d), d).done()]
    }
    "C16" => vec![lines("lines of sources that hardly differ", near_texts(d).into_iter().map(|s| s.to_string()).collect(), &[("a/b.x", "m")])],
    "C19" => vec![core("debug patterns", vec![Debug(2, Box::new(Re("[ab]")))], vec![un(|g| Debug(1, Box::new(g))), un(|g| Debug(4, Box::new(g)))], |g| g.any(&|x| matches!(x, Debug(..))), d).done()],
    "C20" => {
      let bases = ["(<='a'>)~?<='b'>~(<{~(<='a'>)~<='b'>~}>)", "<[~<='a'>~|~(<='b'>)~]>~(<%~'a'~,~'b'~,~'c'~>)", "(<='a'>~{~1~,~2~}~)"];
      vec![
        scripts("every kind of white space in patterns", Texts::List(spaced(&bases)), strings(&["a", "b"], 3), Want::Any),
        scripts("constructs in every place", Texts::List(in_every_place(d)), strings(&["a", "b"], 2), Want::Any),
        scripts("definitions given again", Texts::List(defined_again(d)), strings(&["a", "b"], 3), Want::Any),
      ]
    }
    "C21" => vec![
      scripts("broken constructs in every place", Texts::List(in_every_place(d)), vec!["".into(), "a".into()], Want::Any),
      scripts("definitions given again", Texts::List(defined_again(d)), strings(&["a", "b"], 3), Want::Any),
    ],
    "C22" => {
      let bases = [
        "<!--[adextopa version='1']~X~=~<='a'>~Y=<[<X>~|~<='b'>]>~-->~(<X>)~?<{~(<X>)~<Y>~}>",
        "<!--[adextopa~version='1'~name='N'~]~X=<='a'~k='v'~>~Z~=~X~-->(<%~'a'~,~'b'~,~''~>)~(<Z>)",
        "(<='a'>{~1~,~2~})(<='b'>{~2~}~)",
        "(?<[~<='a'>{~2~,~}~|(!<?='b'>)]>)~(<='a'>{~0~,~3~})",
        "(~?'N'~<~='a'~k~=~'v'~l='w'~>~)",
        "<~/a/i~k='v'~>~(?<~{~(~<='a'>~)~}~>*)",
      ];
      vec![scripts("every kind of white space", Texts::List(spaced(&bases)), strings(&["a", "b"], 2), Want::Any)]
    }
    "C23" => {
      let mut v = ways(d);
      let mains = spaced(&["<!--[adextopa version='1']~import~{~X~as~Y~,~Z~}~from~'l.axo'~-->(<Y>)(<Z>)"]);
      v.push(file_set(
        "every kind of white space in imports",
        vec![("d/main.axo", mains.into_iter().map(Some).collect()), ("d/l.axo", vec![Some(format!("{}X=<='a'>\nZ=<='b'>-->", OPEN))])],
        vec!["ab".into(), "a".into()],
        Want::Any,
      ));
      v
    }
    "C24" => vec![core(
      "handlers",
      vec![map(MapOk::Skip, OnFail::Pass, Re("[ab]")), Catch(OnFail::Skip0, Box::new(Panic("q")))],
      vec![un(|g| map(MapOk::Rename("R"), OnFail::Skip0, g)), un(|g| Catch(OnFail::ErrTok("c"), Box::new(g))), un(|g| map(MapOk::CapEnd, OnFail::Bare("x"), g))],
      |g| g.any(&|x| matches!(x, Catch(..) | Map(MapOk::Rename(_) | MapOk::CapEnd | MapOk::Skip, ..))),
      d,
    )
    .parse()
    .done()],
    "C25" => vec![core("flattened patterns", vec![Prog(None, vec![disc(Eq("a")), Eq("b")]), Null], vec![un(flat), un(expand), un(|g| FlatN("F", Box::new(g)))], |g| g.any(&|x| matches!(x, Flat(_) | FlatN(..) | Expand(_))), d).parse().done()],
    "C28" => {
      let mut windows = vec![];
      for a in 0..=4 {
        for b in a..=4 {
          windows.push(Some((a, b)));
        }
      }
      let t: Vec<S> = strings(&["a", "\r", "\n", "\0", "b", " ", "\u{7f}", "\\"], q(4, 5, d)).iter().map(|x| leak(x)).collect();
      vec![GSpace::new(
        "windows of sources with control characters",
        vec![Re("(?s).+"), Re("[^b]+"), Eq("a"), Eq("\n"), Eq("\r"), Re("a$"), Re("(?m)^[^a]+$"), Re("\\s+"), Seq("a", "\n", "\\"), Seq("\r", "a", "")],
        vec![un(opt), un(|g| Prog(None, vec![g, opt(Re("(?s).+"))])), un(|g| Loop(None, Rng::Default, vec![g]))],
        vec![],
        (1, 2),
      )
      .windows(windows)
      .styles(&[Style::Functions])
      .texts(&t)
      .done()]
    }
    "C29" => vec![core("watched patterns", vec![Null, not(Eq("a")), pin("0", Re("a"))], vec![un(|g| Prog(Some("P"), vec![g])), un(disc)], |_| true, d).frames(vec![un(|g| g.watched()), un(|g| Prog(None, vec![opt(Re("a")), g, opt(Re("b"))]).watched())]).done()],
    "C32" => {
      let f = |what: &'static str, by: &'static str, bases: &[&str]| super::syntax::syntax(what, by, Texts::List(spaced(bases)));
      vec![
        f("white space in imports", "ImportStatement", &["import~{~A~as~B~,~C~}~from~'p'~"]),
        f("white space in definitions", "AssignmentExpression", &["X~=~<='a'~k='v'~>~", "X~=~Y~", "X~=~<{~<X>~(<Y>)~}>~*~"]),
        f("white space in scopes", "AdextopaScope", &["<!--[adextopa~version='1'~]~X=<Y>~import{A}from'p'~-->~", "~<!--~[~adextopa~version~=~'1'~]-->"]),
        f("white space in patterns", "Pattern", &["(~?~'N'~<~X~k~=~'v'~l='w'~>~*~)~", "<[~<X>~|~(<Y>)~|~<Z>~]>~{~1~,~2~}~<X>", "<{~<X>~(<Y>)~<Z>~}>", "<%~'a'~,~'b'~,~'c'~>", "<~=~'a'~>~+~"]),
        f("white space in sequences", "SequenceMatcher", &["%~'a'~,~'b'~,~'c'~"]),
        f("white space in bounds", "RepeatSpecifier", &["{~1~,~2~}~", "~+~"]),
        f("white space in strings", "String", &["'~a~\\~'~b~'~"]),
      ]
    }
    "C31" => {
      let t = strings(&["a", "\n", " ", "\t"], q(6, 8, d));
      let t2 = t.clone();
      vec![cases("printed parses", t.len() as u64, move |i| format!("{:?}", t2[i as usize]), move |i, st| super::more::print_parse(&t[i as usize], st))]
    }
    _ => vec![],
  }
}

/// Patterns of which several have one name, side by side.
fn alike_names(what: &str, own: Vec<G>, nodes: Vec<fn(Vec<G>) -> G>, has: fn(&G) -> bool, deep: bool) -> Spaces {
  let mut leaves = own;
  leaves.extend([EqN("K", "a"), EqN("K", "b"), EqN("K", "ab"), ReN("K", "[bc]"), EqN("J", "c"), Eq("b")]);
  let k = q(4, 5, deep);
  vec![GSpace::new(&format!("{} beside patterns of the same name", what), leaves, vec![], nodes.into_iter().map(|f| nary(2, k, f)).collect(), (3, k + 1))
    .frames(vec![un(|g| g), un(|g| Prog(Some("K"), vec![g, opt(Re("(?s).+"))])), un(|g| Loop(Some("K"), Rng::Default, vec![g]))])
    .keep(has)
    .styles(&[Style::Functions])
    .texts(&["", "a", "b", "c", "ab", "ba", "bc", "cab", "abc", "aab", "bbb", "abcab"])
    .done()]
}

/// Jumps of every name below every wrapper, in repetitions that ask for more runs than one.
fn jumped(what: &str, own: Vec<Un>, has: fn(&G) -> bool, deep: bool) -> Spaces {
  let mut leaves = vec![Eq("a"), EqN("L", "b")];
  for n in ["", "L", "M", "N"] {
    leaves.push(Break(n));
    leaves.push(Cont(n));
  }
  let mut wraps = own;
  wraps.extend([
    un(opt),
    un(not),
    un(disc),
    un(flat),
    un(scope),
    un(|g| Prog(None, vec![Eq("b"), g])),
    un(|g| Prog(Some("L"), vec![g, Eq("b")])),
    un(|g| Switch(None, vec![Eq("b"), g])),
    un(|g| Switch(Some("L"), vec![g, Eq("b")])),
    un(|g| Switch(Some("M"), vec![Eq("c"), Eq("b"), Error("e"), g])),
    un(|g| Loop(Some("M"), Rng::Incl(2, 3), vec![opt(Eq("b")), g])),
  ]);
  let rest = || opt(Re("(?s).+"));
  vec![GSpace::new(&format!("{} below every wrapper, in repetitions with bounds", what), leaves, wraps, vec![], (1, q(3, 4, deep)))
    .frames(vec![
      un(move |g| Prog(None, vec![Loop(Some("L"), Rng::Incl(2, 5), vec![Eq("a"), g]), rest()])),
      un(move |g| Prog(None, vec![Loop(Some("L"), Rng::Half(0, 3), vec![Eq("a"), g]), rest()])),
      un(move |g| Prog(None, vec![Loop(Some("L"), Rng::From(3), vec![Re("[ac]"), g]), rest()])),
      un(move |g| Prog(None, vec![Loop(Some("L"), Rng::Incl(1, 4), vec![opt(Eq("a")), Loop(Some("M"), Rng::From(2), vec![opt(Eq("b")), g]), Eq("c")]), rest()])),
      un(move |g| Loop(Some("M"), Rng::Incl(1, 3), vec![Prog(Some("P"), vec![Eq("a"), Loop(Some("N"), Rng::Incl(3, 3), vec![g, opt(Eq("b"))])]), opt(Eq("c"))])),
    ])
    .keep(has)
    .styles(&[Style::Functions])
    .texts(&["", "a", "aa", "aaa", "aaaaaaa", "ab", "abab", "abababab", "abb", "abbabbabb", "abc", "abbcabbc", "acac", "bb", "bcbc", "aabb", "abbbc"])
    .done()]
}

fn jumps(g: &G) -> bool {
  g.any(&|x| matches!(x, Break(_) | Cont(_)))
}

/// Scopes within scopes, each defining the same names before, after, both or not at all.
fn deep_scopes(d: bool) -> Spaces {
  let b = || Re("[ab]");
  let wraps = || {
    vec![
      un(scope),
      un(|g| scope(Prog(None, vec![StoreS("V", "b"), g]))),
      un(|g| scope(Prog(None, vec![g, EqVar("V")]))),
      un(|g| scope(Prog(None, vec![g, StoreS("V", "a"), opt(EqVar("V"))]))),
      un(|g| scope(Prog(None, vec![Register(vec![EqN("R", "b")]), g, opt(Ref("R"))]))),
      un(|g| scope(Prog(None, vec![opt(scope(StoreS("V", "b"))), g, opt(Ref("R"))]))),
      un(|g| SetScopeDef(vec![("R", Eq("a"))], Box::new(Prog(None, vec![StoreS("V", "a"), g])))),
      un(opt),
    ]
  };
  vec![GSpace::new("scopes within scopes", vec![StoreS("V", "b"), store("V", b()), EqVar("V"), Register(vec![EqN("R", "b")]), EqN("R", "a"), Ref("R"), Error("e"), Panic("p")], wraps(), vec![], (2, q(5, 6, d)))
    .frames(vec![
      un(|g| Prog(None, vec![StoreS("V", "a"), Register(vec![ReN("R", "[ab]")]), g, opt(EqVar("V")), opt(Ref("R"))])),
      un(|g| Prog(None, vec![opt(store("V", Re("[ab]"))), scope(g), opt(EqVar("V.captured_value")), opt(Ref("R"))])),
    ])
    .keep(|g| g.any(&|x| matches!(x, SetScope(_))))
    .fresh()
    .styles(&[Style::Functions])
    .texts(&["aaa", "bab", "abba", "baab"])
    .done()]
}

/// What stands beside the rest of a property's spaces.
fn joint(id: &str, d: bool) -> Spaces {
  match id {
    "C01" => alike_names("sequences", vec![Null, disc(EqN("K", "a"))], vec![|v| Prog(Some("K"), v), |v| Prog(None, v)], |_| true, d),
    "C02" => alike_names("choices", vec![Null, Prog(Some("K"), vec![Eq("a"), Eq("c")])], vec![|v| Switch(Some("K"), v), |v| Switch(None, v)], |_| true, d),
    "C03" => {
      let mut v = bounded("runs that end early,", vec![Cont(""), Switch(None, vec![Eq("b"), Cont("")]), Prog(None, vec![opt(Eq("b")), Cont("")])], |g| g.any(&|x| matches!(x, Cont(_))), d);
      v.extend(jumped("jumps", vec![un(|g| Loop(Some("L"), Rng::Half(1, 4), vec![g]))], |g| jumps(g), d));
      v
    }
    "C04" => jumped("jumps", vec![un(|g| disc(Prog(None, vec![Eq("a"), g]))), un(|g| not(not(g)))], |g| jumps(g), d),
    "C05" => {
      let mut v = jumped("jumps", vec![un(|g| Loop(Some("L"), Rng::Incl(1, 2), vec![Eq("b"), g])), un(|g| Prog(Some("N"), vec![disc(Eq("b")), g]))], |g| jumps(g), d);
      v.extend(alike_names("jumps", vec![Break("K"), Cont("K"), Cont("")], vec![|v| Switch(Some("K"), v), |v| Prog(Some("K"), v)], |g| jumps(g), d));
      v
    }
    "C09" => {
      let t: Vec<S> = strings(&["a", "\r", "\n", "b"], q(4, 5, d)).iter().map(|x| leak(x)).collect();
      let mut windows = vec![];
      for a in 0..=4 {
        for b in a..=4 {
          windows.push(Some((a, b)));
        }
      }
      vec![GSpace::new(
        "terminals in windows that end beside line ends",
        vec![Re("(?s).+"), Re("[ab\r]+"), Re("a$"), Re("(?m)a$"), Re("[\r\n]+"), Re("[^b]*"), Re("a\r?\n?"), Eq("a"), Eq("\r"), Eq("\r\n"), Eq("a\n"), Re("$|a")],
        vec![un(not), un(|g| Prog(None, vec![Re("a"), g])), un(|g| Loop(None, Rng::Default, vec![g]))],
        vec![],
        (1, 2),
      )
      .windows(windows)
      .styles(&[Style::Functions])
      .texts(&t)
      .done()]
    }
    "C11" => deep_scopes(d),
    "C12" => {
      let mut v = deep_scopes(d);
      v.push(
        core(
          "references with names that are bound themselves",
          vec![Ref("One"), RefN("Two", "One"), RefN("One", "Two"), RefN("Three", "Two"), RefN("One", "One"), EqN("Two", "c")],
          vec![un(scope), un(|g| SetScopeDef(vec![("Two", Eq("b")), ("One", Re("[ab]"))], Box::new(g)))],
          |g| g.any(&|x| matches!(x, RefN(..))),
          d,
        )
        .env(vec![("One", Eq("a")), ("Two", Re("b+")), ("Three", Eq("aa"))])
        .parse()
        .done(),
      );
      v
    }
    "C29" => super::reuse::watched_at_several_places(d),
    "C25" => jumped("jumps", vec![un(|g| flat(Prog(None, vec![Eq("b"), g]))), un(expand)], |g| jumps(g) && g.any(&|x| matches!(x, Flat(..) | Expand(_))), d),
    _ => vec![],
  }
}
