//! Magnitudes: texts, values, messages, names, numbers, lists and nestings beyond the sizes at which
//! narrow integers, fixed buffers and limits show, for every property they concern.
use super::extra::{leak_long, CHARS};
use super::more::cases;
use super::objects::lines;
use super::script::{file_set, scripts, Texts, Want};
use crate::g::*;
use crate::gen::Un;
use crate::gspace::*;
use crate::real::Style;
use crate::space::*;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::ParserContext;
use adextopa_core::scope::{Scope, VariableType};
use G::*;

type Spaces = Vec<Box<dyn Space>>;

fn q(n: usize, deep: usize, d: bool) -> usize {
  if d {
    deep
  } else {
    n
  }
}

/// Texts up to and beyond 2^16 bytes, lines and characters: the interesting part is at the end.
pub fn texts(deep: bool) -> Vec<S> {
  let mut v: Vec<S> = vec![];
  for n in if deep { vec![1023, 1025, 4095, 4097, 8193, 16385, 32767, 32769, 65534, 65535, 65536, 65537, 70001, 131073] } else { vec![4097, 32769, 65535, 65536, 70001] } {
    v.push(leak(&format!("{}bab", "a".repeat(n))));
  }
  v.push(leak(&format!("{}ba", "é".repeat(40000))));
  v.push(leak(&format!("{}ba", "a\n".repeat(35000))));
  v.push(leak(&format!("{}ba\n", "😀".repeat(q(1100, 20000, deep)))));
  v.push(leak_long("ab", q(1100, 4200, deep)));
  v
}

fn frames(n_parts: &[usize]) -> Vec<Un> {
  let mut v = vec![
    un(|g| g),
    un(|g| Prog(None, vec![Re("(?s)[^b]+"), g, opt(Eq("a"))])),
    un(|g| Prog(None, vec![disc(Re("[^b]+")), g, opt(Re("."))])),
    un(|g| Loop(Some("L"), Rng::Default, vec![Re("[^b]{1,500}"), opt(g)])),
    un(|g| Prog(Some("P"), vec![Re("[^b]+"), Switch(None, vec![Eq("aaaa"), g]), opt(Re("[ab]+"))])),
  ];
  for n in n_parts.to_vec() {
    v.push(un(move |g| {
      let mut v = vec![opt(Eq("c")); n];
      v.push(Re("[^b]+"));
      v.push(g);
      Prog(None, v)
    }));
  }
  v
}

fn no_pin_wrapped(g: &G) -> bool {
  !g.any(&|x| !matches!(x, Prog(..) | Switch(..) | Loop(..) | Pin(..)) && x.kids().iter().any(|y| matches!(y, Pin(..) | PinVar(..))))
}

/// The patterns of a property, far into long texts and on long values.
fn big(what: &str, leaves: Vec<G>, wraps: Vec<Un>, sizes: (usize, usize), deep: bool) -> GSpace {
  GSpace::new(&format!("{} of great extent", what), leaves, wraps, vec![], sizes)
    .frames(frames(&[9, 33]))
    .keep(no_pin_wrapped)
    .styles(&[Style::Functions])
    .texts(&texts(deep))
}

/// Long names that differ at their end (or hardly at all).
pub fn long_names() -> Vec<S> {
  let mut v = vec![];
  for n in [30, 63, 64, 127, 254, 255, 256, 1000, 5000] {
    v.push(leak(&format!("{}x", "N".repeat(n))));
    v.push(leak(&format!("{}y", "N".repeat(n))));
    v.push(leak_long("N", n));
  }
  v.push(leak_long("é", 300));
  v.push(leak_long("é", 301));
  v
}

/// Names that look alike.
pub const ALIKE: [S; 24] = [
  "A", "a", "A.B", "A.C", ".A", "A.", "A ", " A", "A\n", "A-B", "A:B", "A::B", "A/B", "A_B", "A1", "A01", "AB", "A\0", "Á", "A\u{301}", "A.B.C", "\"A\"", "A*", "_A",
];

pub fn messages() -> Vec<S> {
  let mut v = vec![];
  for n in [79, 80, 120, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4097, 5000] {
    v.push(leak(&format!("{}.", "m".repeat(n))));
  }
  v.push(leak_long("é", 130));
  v.push(leak_long("é", 257));
  v.push(leak_long("one line of it\n", 40));
  v.push("one\ntwo");
  v.push("\n\nthree\n");
  v.push("a  b\t c ");
  v.push("{} {0} {:?} %s %d \\n");
  v
}

/// The same with a part that everything before it has to be put back for.
fn parts_watched(deep: bool) -> GSpace {
  let sizes: Vec<usize> = if deep { (2..40).chain([63, 64, 65, 100, 127, 128, 129, 200]).collect() } else { vec![3, 5, 8, 9, 10, 15, 16, 17, 20, 32, 33, 34, 65] };
  let mut f: Vec<Un> = vec![];
  for n in sizes {
    f.push(un(move |g| {
      let mut v = vec![Re("[ab]"); n - 1];
      v.push(g);
      Prog(None, v).watched()
    }));
    f.push(un(move |g| {
      let mut v = vec![Re("[ab]"); n - 1];
      v.insert(n / 2, g);
      Loop(None, Rng::Default, v).watched()
    }));
    f.push(un(move |g| {
      let mut v = vec![Eq("c"); n - 1];
      v.push(g);
      Prog(None, vec![Re("a"), Switch(None, v), opt(Re("[ab]"))]).watched()
    }));
    f.push(un(move |g| {
      let mut v = vec![opt(Re("[ab]")); n - 1];
      v.push(g);
      Switch(None, vec![Prog(None, v), Re("a")]).watched()
    }));
    f.push(un(move |g| {
      let mut x = g;
      for i in 0..n {
        x = match i % 3 {
          0 => Prog(None, vec![Re("[ab]"), x]),
          1 => Switch(None, vec![Eq("c"), x]),
          _ => opt(x),
        };
      }
      Prog(None, vec![x, Eq("c")]).watched()
    }));
  }
  GSpace::new("very many watched parts", vec![Eq("a"), Eq("c"), Error("e"), Panic("p"), Break(""), Cont(""), Re("[ab]+"), not(Eq("a")), Prog(None, vec![Re("a"), Eq("c")])], vec![], vec![], (1, 1))
    .frames(f)
    .depth(300)
    .styles(&[Style::Functions])
    .texts(&["", "a", "b", leak_long("a", 8), leak_long("ab", 5), leak_long("a", 33), leak_long("ab", 36), leak_long("ab", q(36, 150, deep))])
}

/// Scopes on top of a few definitions: what is defined below stays found.
fn deep_scopes(deep: bool) -> Box<dyn Space> {
  let sizes: Vec<usize> = if deep { (1..300).collect() } else { vec![7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 255, 256, 257, 300, 1000] };
  let s2 = sizes.clone();
  cases(
    "definitions below very many scopes",
    sizes.len() as u64 * 3,
    move |i| format!("{} scopes above a definition, {}", s2[(i / 3) as usize], ["all empty", "one of them defines another name", "every third one defines other names"][(i % 3) as usize]),
    move |i, st| {
      let n = sizes[(i / 3) as usize];
      let parser = Parser::new("abc");
      let ctx = ParserContext::new(&parser, "Test");
      let sc = ctx.borrow().get_scope();
      sc.borrow_mut().push(Scope::new());
      sc.borrow_mut().set("A", VariableType::String("low".into()));
      sc.borrow_mut().set("B", VariableType::String("low".into()));
      let get = |x: &str| -> String {
        match (sc.borrow().get(x), ctx.borrow().get_scope_variable(x)) {
          (None, None) => "nothing".into(),
          (Some(VariableType::String(a)), Some(VariableType::String(b))) if a == b => a,
          _ => "something else".into(),
        }
      };
      let mut b = vec!["low".to_string()];
      for k in 0..n {
        sc.borrow_mut().push(Scope::new());
        let mut now = b.last().unwrap().clone();
        if (i % 3 == 1 && k == n / 2) || (i % 3 == 2 && k % 3 == 0) {
          now = k.to_string();
          sc.borrow_mut().set("B", VariableType::String(now.clone()));
        }
        b.push(now);
        if get("A") != "low" || get("B") != b[k + 1] || get("C") != "nothing" {
          return Err(format!("under {} scopes: A is {}, B is {} instead of {}, C is {}", k + 1, get("A"), get("B"), b[k + 1], get("C")));
        }
        st.states += 1;
        st.transitions += 3;
      }
      for k in (0..n).rev() {
        sc.borrow_mut().pop();
        b.pop();
        if get("A") != "low" || get("B") != b[k] || get("C") != "nothing" {
          return Err(format!("back under {} scopes: A is {}, B is {} instead of {}, C is {}", k, get("A"), get("B"), b[k], get("C")));
        }
        st.states += 1;
        st.transitions += 3;
      }
      st.traces += 1;
      st.outcome(i);
      Ok(())
    },
  )
}

fn deep_scope_grammars(deep: bool) -> GSpace {
  let mut f: Vec<Un> = vec![];
  let sizes: Vec<usize> = if deep { (5..80).step_by(3).chain([100, 129]).collect() } else { vec![8, 15, 16, 17, 18, 33, 70] };
  for n in sizes {
    for kind in 0..4 {
      f.push(un(move |g| {
        let mut x = g;
        for k in 0..n {
          x = match kind {
            0 => scope(x),
            1 => SetScopeDef(vec![(leak(&format!("D{}", k)), Eq("b"))], Box::new(x)),
            2 => SetScope(Box::new(Prog(None, vec![Register(vec![EqN(leak(&format!("D{}", k)), "b")]), x]))),
            _ => {
              if k % 2 == 0 {
                scope(x)
              } else {
                SetScope(Box::new(Prog(None, vec![opt(Eq("c")), x])))
              }
            }
          };
        }
        Prog(None, vec![Register(vec![EqN("X", "a"), ReN("Y", "[ab]")]), x, opt(Ref("X"))])
      }));
    }
  }
  GSpace::new("references below very many scopes", vec![Ref("X"), Ref("Y"), Ref("Z"), Ref("D1"), Prog(None, vec![Register(vec![EqN("X", "b")]), Ref("X")])], vec![], vec![], (1, 1))
    .frames(f)
    .env(vec![("Z", Eq("ab"))])
    .depth(400)
    .fresh()
    .styles(&[Style::Functions])
    .texts(&["a", "b", "ab", "ba", "aa"])
}

/// Definitions whose names look alike or are long, and references to them.
fn alike(what: &str, names: &[S], each: usize) -> GSpace {
  let mut leaves: Vec<G> = names.iter().map(|n| Ref(n)).collect();
  leaves.push(Re("[ab]"));
  let n2 = names.to_vec();
  let n3 = names.to_vec();
  let n4 = names.to_vec();
  GSpace::new(what, leaves, vec![un(opt)], vec![nary(2, 2, |v| Prog(None, v))], (1, each))
    .frames(vec![
      un(|g| g),
      un(move |g| Prog(None, vec![Register(n2.iter().enumerate().map(|(i, n)| EqN(n, ["a", "b", "ab", "ba"][i % 4])).collect()), g])),
      un(move |g| SetScopeDef(n3.iter().enumerate().filter(|x| x.0 % 2 == 0).map(|(i, n)| (*n, Eq(["b", "ab", "a"][i % 3]))).collect(), Box::new(g))),
      un(move |g| {
        let mut v: Vec<G> = n4.iter().enumerate().filter(|x| x.0 % 3 == 0).map(|(i, n)| opt(EqN(n, ["b", "a", "ba"][i / 3 % 3]))).collect();
        v.push(g);
        Prog(None, v)
      }),
    ])
    .env(names.iter().enumerate().filter(|x| x.0 % 2 == 1).map(|(i, n)| (*n, Eq(["a", "b", "ab", "ba", "bb"][i % 5]))).collect())
    .fresh()
    .styles(&[Style::Functions])
    .inputs(&["a", "b"], 2)
    .texts(&["aba", "abab"])
}

/// Repetitions whose bounds are large, on inputs around them.
fn large_bounds(deep: bool) -> Spaces {
  let mut v = vec![];
  let ns: Vec<usize> = if deep { vec![99, 100, 101, 127, 128, 129, 199, 254, 255, 256, 257, 258, 300, 511, 512, 513, 999, 1000, 1001, 1024, 4096, 10000] } else { vec![99, 128, 254, 255, 256, 257, 300, 1000] };
  for n in &ns {
    for r in [format!("{{{}}}", n), format!("{{{},}}", n), format!("{{0,{}}}", n), format!("{{2,{}}}", n), format!("{{{},{}}}", n - 1, n), format!("{{{},{}}}", n, n + 300)] {
      v.push(format!("(<='a'>{})", r));
      v.push(format!("(<='a'>{})(<='b'>)", r));
      v.push(format!("(<{{(<='a'>)}}>{})?<='b'>", r));
      v.push(format!("(</[ab]/>{})", r));
      v.push(format!("!<='a'>{}(<='b'>)", r));
    }
  }
  for big in ["65535", "65536", "65537", "4294967295", "4294967296", "18446744073709551615"] {
    for r in [format!("{{0,{}}}", big), format!("{{1,{}}}", big), format!("{{{},}}", big), format!("{{{}}}", big), format!("{{1,0{}}}", big), format!("{{00001,{}}}", big)] {
      v.push(format!("(<='a'>{})", r));
      v.push(format!("(<='a'>{})(<='b'>)", r));
      v.push(format!("[<='a'>{}]?<='b'>", r));
    }
  }
  for r in ["{000,02}", "{02}", "{1,0000000000000000000002}", "{,2}", "{,300}", "{0}", "{0,0}", "{5,2}"] {
    v.push(format!("(<='a'>{})(<='b'>)", r));
  }
  let mut inputs: Vec<String> = vec!["".into(), "a".into(), "aab".into(), "b".into()];
  for n in &ns {
    inputs.push("a".repeat(n - 1));
    inputs.push("a".repeat(*n));
    inputs.push(format!("{}b", "a".repeat(*n)));
    inputs.push(format!("{}b", "a".repeat(n + 1)));
  }
  vec![scripts("repetitions with large bounds", Texts::List(v), inputs, Want::Any)]
}

/// Scripts in which something is long.
fn long_scripts(deep: bool) -> Spaces {
  const OPEN: &str = "<!--[adextopa version='1'] ";
  let ns: Vec<usize> = if deep { vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096, 5000, 65536, 70000] } else { vec![64, 129, 255, 256, 257, 1025, 5000] };
  let mut v = vec![];
  for n in &ns {
    let (a, e, name) = ("a".repeat(*n), "é".repeat(*n), "N".repeat(*n));
    v.push(format!("(<='{}'>)", a));
    v.push(format!("(<='{}b'>)", a));
    v.push(format!("(<='{}'>)(<='b'>)", e));
    if *n <= 5000 {
      v.push(format!("(</{}/>)(<='b'>)", a));
    }
    v.push(format!("(<='a' k='{}'>)", a));
    v.push(format!("(<='a' k='{}' l='{}\\''>)", e, a));
    v.push(format!("(<%'<','{}','\\\\'>)", a));
    v.push(format!("(<%'<','>','{}'>)", a));
    v.push(format!("{}{}=<='a'> {}x=<='b'> {}y=<='ab'> -->(<{}>)(<{}x>)?<{}y>", OPEN, name, name, name, name, name, name));
    v.push(format!("{}{}{}=<='a'> -->(<{}>)", OPEN, " ".repeat(*n), name, name));
    v.push(format!("{}# {}\nX=<='a'> -->(<X>)", OPEN, a));
    v.push(format!("(<='a'>){}(<='b'>)", " ".repeat(*n)));
    v.push(format!("(<='a'>){}(<='b'>)", "\n".repeat(*n)));
    v.push(format!("<!--[adextopa version='1' name='{}']-->(<='a'>)", name));
    v.push(format!("(<{}>)", name));
    v.push(format!("(<='a'>){}", a));
    v.push(format!("(<='{}", a));
  }
  let mut inputs: Vec<String> = vec!["".into(), "a".into(), "ab".into(), "abab".into(), "<a>".into()];
  for n in &ns {
    let a = "a".repeat(*n);
    inputs.push(a.clone());
    inputs.push(format!("{}b", a));
    inputs.push(format!("{}b", "é".repeat(*n)));
    inputs.push(format!("<b{}", a));
    inputs.push(format!("<b{}>b>", a));
  }
  vec![scripts("scripts of long texts, names and gaps", Texts::List(v), inputs, Want::Any)]
}

/// Gaps of great length at every place that allows one.
fn long_gaps(deep: bool) -> Spaces {
  let bases = [
    "<!--[adextopa version='1']~X~=~<='a'>~Y=<[<X>~|~<='b'>]>~-->~(<X>)~?<{~(<X>)~<Y>~}>",
    "<!--[adextopa~version='1'~name='N'~]~X=<='a'~k='v'~l='w'>~-->(<X>)~(<%~'<'~,~'>'~,~''~>)",
    "~(<='a'>)~(</b/>)~!<='c'>~<[~<='a'>~|~(<='b'>)~]>~",
  ];
  let ns: Vec<usize> = if deep { vec![30, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 4097, 65536] } else { vec![32, 65, 128, 256, 300, 1025, 4097] };
  let mut v = vec![];
  for b in bases {
    let parts: Vec<&str> = b.split('~').collect();
    for n in &ns {
      let gaps = [" ".repeat(*n), "\n".repeat(*n), "\t \r\n".repeat(n / 4), format!("\n#{}\n", "é".repeat(*n)), "\n#c\n".repeat(*n), format!("\n{}#'<{{\n", " ".repeat(*n))];
      for gap in &gaps {
        if *n <= 300 {
          v.push(parts.join(gap));
        }
        // at one of the places
        for k in 1..parts.len() {
          v.push(format!("{}{}{}", parts[..k].join(" "), gap, parts[k..].join(" ")));
        }
      }
    }
  }
  vec![scripts("gaps of great length", Texts::List(v), crate::gen::strings(&["a", "b"], 3), Want::Any)]
}

fn long_chains(deep: bool) -> Spaces {
  // files that import from each other in a long chain
  let n = q(20, 70, deep);
  let mut files: Vec<(&'static str, Vec<Option<String>>)> = vec![];
  for k in 0..n {
    let name = if k == 0 { "d/main.axo".to_string() } else { format!("d/f{}.axo", k) };
    let body = if k + 1 == n {
      vec!["X=<='a'>".to_string(), "X=<='b'>".to_string()]
    } else {
      vec![format!("import {{ X }} from 'f{}.axo'", k + 1)]
    };
    files.push((leak(&name), body.into_iter().map(|b| Some(format!("<!--[adextopa version='1']\n{}\n-->(<X>)", b))).collect()));
  }
  // many imports in one file
  let m = q(40, 150, deep);
  let mut many: Vec<(&'static str, Vec<Option<String>>)> = vec![(
    "d/main.axo",
    (0..m)
      .step_by(13)
      .chain([m - 1])
      .map(|u| {
        let all: String = (0..m).map(|k| format!("import {{ X as X{} }} from 'g{}.axo'\n", k, k)).collect();
        Some(format!("<!--[adextopa version='1']\n{}\n-->(<X{}>)", all, u))
      })
      .collect(),
  )];
  for k in 0..m {
    many.push((leak(&format!("d/g{}.axo", k)), vec![Some(format!("<!--[adextopa version='1'] X=<='{}'> -->(<X>)", if k % 3 == 0 { "a" } else { "b" }))]));
  }
  // one library of long names
  let names = long_names();
  let names: Vec<S> = names.into_iter().filter(|n| n.is_ascii()).collect();
  let lib: String = names.iter().enumerate().map(|(k, n)| format!("{}=<='{}'>\n", n, ["a", "b", "ab"][k % 3])).collect();
  let long = vec![
    (
      "d/main.axo",
      names
        .iter()
        .flat_map(|n| {
          vec![
            Some(format!("<!--[adextopa version='1']\nimport {{ {} }} from 'l.axo'\n-->(<{}>)", n, n)),
            Some(format!("<!--[adextopa version='1']\nimport {{ {} as {}z, {} as Q }} from 'l.axo'\n-->(<{}z>)?<Q>", n, n, names[0], n)),
          ]
        })
        .collect(),
    ),
    ("d/l.axo", vec![Some(format!("<!--[adextopa version='1']\n{}\n-->(<='a'>)", lib))]),
  ];
  vec![
    file_set("long chains of files", files, crate::gen::strings(&["a", "b"], 2), Want::Any),
    file_set("very many import statements", many, crate::gen::strings(&["a", "b"], 1), Want::Any),
    file_set("imports of long names", long, crate::gen::strings(&["a", "b"], 2), Want::Any),
  ]
}

pub fn scale(id: &str, deep: bool) -> Spaces {
  let d = deep;
  let far_windows = || vec![None, Some((0, 65535)), Some((0, 65536)), Some((1, 65537)), Some((65534, 65538)), Some((65535, 70004)), Some((32768, 32772)), Some((4097, 4100)), Some((256, 4099))];
  match id {
    "C01" => vec![
      big("sequences", vec![Eq("b"), Eq("ba"), Re("b.?"), Null, Re("[ab]+")], vec![un(opt), un(disc), un(|g| Prog(None, vec![g, Eq("a")]))], (1, q(3, 4, d)), d).parse().done(),
      alike("sequences with names that look alike", &ALIKE, 1).done(),
    ],
    "C02" => vec![big("choices", vec![Eq("b"), Re("[ab]+"), Eq("c"), Re("")], vec![un(|g| Switch(None, vec![Eq("bb"), g])), un(|g| Switch(Some("S"), vec![g, Eq("b")])), un(opt)], (1, q(3, 4, d)), d).done()],
    "C03" => {
      let mut f: Vec<Un> = vec![];
      let ns: Vec<usize> = if d { vec![99, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 512, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097] } else { vec![100, 127, 128, 255, 256, 257, 999, 1000, 1001, 1024, 1025] };
      for n in ns.clone() {
        for r in [Rng::From(n), Rng::Half(0, n), Rng::Incl(n, n), Rng::Half(1, n), Rng::Incl(n - 1, n + 1), Rng::To(n), Rng::ToIncl(n)] {
          f.push(un(move |g| Prog(None, vec![Loop(None, r, vec![g]), opt(Re("[ab]"))])));
        }
      }
      for big in [65535usize, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX - 1, usize::MAX] {
        for r in [Rng::From(big), Rng::Half(0, big), Rng::Half(2, big), Rng::Incl(1, big), Rng::ToIncl(big)] {
          f.push(un(move |g| Prog(None, vec![Loop(None, r, vec![g]), opt(Re("[ab]"))])));
        }
      }
      let mut t: Vec<S> = vec!["", "a", "ab"];
      for n in &ns {
        t.push(leak_long("a", *n));
        t.push(leak_long("a", n + 1));
        t.push(leak(&format!("{}b", "a".repeat(n - 1))));
      }
      vec![
        GSpace::new("repetitions with large bounds", vec![Eq("a"), Prog(None, vec![Re("[ab]"), opt(Eq("b"))])], vec![], vec![], (1, 1)).frames(f).styles(&[Style::Functions]).texts(&t).done(),
        GSpace::new("very many runs", vec![Eq("a"), Re("[ab]"), disc(Eq("a")), Re("a{1,3}"), Error("e")], vec![un(opt)], vec![nary(2, 2, |v| Prog(None, v))], (1, 3))
          .frames(vec![un(|g| Loop(None, Rng::Default, vec![g])), un(|g| Loop(None, Rng::From(300), vec![g])), un(|g| Loop(None, Rng::Default, vec![Loop(None, Rng::Incl(1, 100), vec![g])]))])
          .styles(&[Style::Functions])
          .texts(&[leak_long("a", 1001), leak_long("ab", 1025), leak_long("aab", 700), leak_long("a", q(2049, 20000, d))])
          .done(),
        big("repetitions", vec![Eq("b"), Re("[ab]"), Prog(None, vec![Eq("b"), opt(Eq("a"))])], vec![un(|g| Loop(None, Rng::Default, vec![g])), un(|g| Loop(Some("R"), Rng::Half(0, 2), vec![g])), un(opt)], (1, q(3, 4, d)), d).done(),
      ]
    }
    "C04" => vec![
      big("optional, negated and discarded patterns", vec![Re("[^b]+"), Re("(?s)[^b]+ba"), Eq("b"), Eq("c"), Prog(None, vec![Re("[^b]*"), Eq("b")])], vec![un(opt), un(not), un(disc)], (1, q(3, 4, d)), d).parse().done(),
    ],
    "C05" => {
      let names = long_names();
      let mut leaves = vec![Re("[ab]")];
      for n in &names {
        leaves.push(Break(n));
        leaves.push(Cont(n));
      }
      let mut alike_leaves = vec![];
      for n in ALIKE {
        alike_leaves.push(Break(n));
        alike_leaves.push(Cont(n));
      }
      let long_frames = |names: Vec<S>| -> Vec<Un> {
        names
          .into_iter()
          .map(|n| un(move |g| Loop(Some(n), Rng::Default, vec![Re("[ab]"), Loop(None, Rng::Default, vec![Re("a"), g]), opt(Eq("b"))])))
          .collect()
      };
      let three = || -> Vec<Un> {
        let mut f: Vec<Un> = vec![];
        for (x, y, z) in [("A", "B", "C"), ("A", "A", "B"), ("A", "B", "A"), ("B", "A", "A"), ("A", "A", "A")] {
          f.push(un(move |g| Loop(Some(x), Rng::Default, vec![Re("[ab]"), Loop(Some(y), Rng::Default, vec![Re("a"), Loop(Some(z), Rng::Default, vec![Re("b"), g]), opt(Eq("a"))]), opt(Eq("b"))])));
          f.push(un(move |g| Loop(Some(x), Rng::Incl(1, 2), vec![Prog(Some(z), vec![Re("a"), Loop(Some(y), Rng::From(1), vec![opt(Re("b")), Prog(None, vec![Loop(Some(z), Rng::To(3), vec![g, Re("[ab]")])]), Re("[ab]")])])])));
        }
        f
      };
      vec![
        GSpace::new("jumps to long names", leaves, vec![un(opt)], vec![], (1, 2)).frames(long_frames(names)).styles(&[Style::Functions]).texts(&["ab", "aab", "aabab", "abaab"]).done(),
        GSpace::new("jumps to names that look alike", alike_leaves, vec![un(opt)], vec![], (1, 2)).frames(long_frames(ALIKE.to_vec())).styles(&[Style::Functions]).texts(&["ab", "aab", "aabab", "abaab"]).done(),
        GSpace::new("jumps out of three repetitions", vec![Break("A"), Break("B"), Break("C"), Break(""), Cont("A"), Cont("B"), Cont("C"), Cont(""), Break("D")], vec![un(opt), un(|g| Prog(None, vec![Eq("a"), g])), un(|g| Switch(None, vec![Eq("bb"), g]))], vec![], (1, q(3, 4, d)))
          .frames(three())
          .inputs(&["a", "b"], q(5, 7, d))
          .texts(&["ababab", "abbaabba", "aababbab"])
          .done(),
        big("jumps", vec![Break("L"), Break(""), Cont("L"), Eq("b")], vec![un(opt), un(|g| Prog(None, vec![Re("[ab]"), g])), un(disc)], (1, 3), d).done(),
      ]
    }
    "C06" => vec![
      big("tokens", vec![Re("(?s).+"), Re("[^b]+"), Seq("b", "a", ""), SeqN("Q", "a", "b", "\\"), Eq("b"), Prog(Some("É"), vec![Re("[^b]+"), disc(Eq("b")), Re(".")])], vec![un(disc), un(flat), un(|g| Prog(None, vec![Re("(?s)."), g]))], (1, q(3, 4, d)), d)
        .parse()
        .done(),
      alike("tokens with names that look alike", &ALIKE, 1).parse().done(),
      GSpace::new("tokens with long names", long_names().into_iter().flat_map(|n| [EqN(n, "a"), Prog(Some(n), vec![Re("[ab]")]), SeqN(n, "a", "b", ""), RefN(n, "Z")]).collect(), vec![un(disc), un(opt), un(|g| Prog(None, vec![Re("a?"), g]))], vec![], (1, 3))
        .env(vec![("Z", Eq("b"))])
        .fresh()
        .parse()
        .texts(&["a", "ab", "b", "aab"])
        .done(),
    ],
    "C07" => {
      let mut leaves = vec![];
      for m in messages() {
        leaves.push(Error(m));
        leaves.push(AssertIf(m, Box::new(Re("[ab]"))));
        leaves.push(AssertIfNot(m, Box::new(Eq("c"))));
        leaves.push(Prog(None, vec![Re("[ab]"), Error(m)]));
      }
      vec![
        GSpace::new("recorded errors with long messages", leaves, vec![un(opt), un(flat), un(|g| Prog(None, vec![Re("[ab]"), g])), un(|g| Loop(None, Rng::Default, vec![Re("[ab]"), g])), un(|g| Switch(None, vec![Eq("c"), g]))], vec![], (1, 3))
          .texts(&["a", "ab", "é", "aabb"])
          .parse()
          .done(),
        big("recorded errors", vec![Error("e"), AssertIf("m", Box::new(Re("(?s)[^b]+b"))), AssertIfNot("n", Box::new(Eq("b")))], vec![un(disc), un(flat), un(|g| Prog(None, vec![Re("b?"), g]))], (1, q(3, 4, d)), d).parse().done(),
      ]
    }
    "C08" => {
      let mut leaves = vec![];
      for m in messages() {
        leaves.push(Panic(m));
        leaves.push(FatalIf(m, Box::new(Re("[ab]"))));
        leaves.push(FatalIfNot(m, Box::new(Eq("c"))));
        leaves.push(map(MapOk::Err(m), OnFail::Pass, Re("[ab]")));
        leaves.push(map(MapOk::Bare(m), OnFail::Pass, Re("[ab]")));
        leaves.push(map(MapOk::Same, OnFail::Err(m), Eq("c")));
        leaves.push(map(MapOk::Same, OnFail::Bare(m), Eq("c")));
      }
      vec![
        GSpace::new("fatal errors with long messages", leaves, vec![un(opt), un(flat), un(|g| Prog(None, vec![Re("[ab]"), g])), un(|g| Loop(None, Rng::Default, vec![Re("[ab]"), g])), un(|g| Switch(None, vec![Eq("c"), g]))], vec![], (1, 3))
          .texts(&["a", "ab", "é", "aabb"])
          .parse()
          .done(),
        big("fatal errors", vec![Panic("p"), FatalIf("f", Box::new(Re("(?s)[^b]*b"))), FatalIfNot("n", Box::new(Eq("c")))], vec![un(opt), un(|g| Prog(None, vec![Re("b?"), g])), un(disc)], (1, 3), d).file("ä/b.txt").parse().done(),
      ]
    }
    "C09" => {
      let mut leaves = vec![Eq("b"), Eq("ba"), Re("b."), Re("(?s)[^b]+"), Re("[^b]+$"), Re("(?s).+?b"), Re("^b"), Re("\\bb|a")];
      for n in [1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000] {
        leaves.push(Eq(leak_long("a", n)));
        leaves.push(Eq(leak(&format!("{}b", "a".repeat(n)))));
        leaves.push(Eq(leak_long("é", n)));
        leaves.push(Re(leak(&format!("[aé]{{{}}}", n.min(300)))));
        leaves.push(Re(leak(&format!("{}b?", "a".repeat(n)))));
      }
      for n in [32768, 65535, 65536, 65537, 70001] {
        leaves.push(Eq(leak_long("a", n)));
        leaves.push(Eq(leak(&format!("{}b", "a".repeat(n)))));
      }
      vec![big("terminals", leaves, vec![], (1, 1), d)
        .texts(&[leak_long("a", 4096), leak_long("a", 4095), leak(&format!("{}b", "a".repeat(1024))), leak(&format!("{}b", "a".repeat(65534))), leak_long("é", 1024)])
        .windows(far_windows())
        .done()]
    }
    "C10" => {
      let mut t: Vec<S> = vec![];
      for n in if d { vec![255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65534, 65535, 65536, 70000] } else { vec![256, 1025, 4097, 65536] } {
        for end in [">", "\\>>", "\\\\>", "\\>", "é>", "", "%>>", "\n>\n"] {
          t.push(leak(&format!("<{}{}", "a".repeat(n), end)));
          t.push(leak(&format!("<{}{}", "é".repeat(n / 2), end)));
        }
        t.push(leak(&format!("<{}>", "\\a".repeat(n / 2))));
        t.push(leak(&format!("<{}>b", "\\>".repeat(n / 2))));
        t.push(leak(&format!("{}<a>", "<".repeat(n))));
        t.push(leak(&format!("{}<a\\>>", "b".repeat(n))));
      }
      vec![GSpace::new("delimited sequences of great extent", vec![Seq("<", ">", "\\"), SeqN("Q", "<", ">", ""), Seq("<", ">", "%"), Seq("<", "<", "\\"), Seq("<", "a>", "\\")], vec![un(opt), un(disc)], vec![], (1, 2))
        .frames(vec![un(|g| g), un(|g| Prog(None, vec![Re("b*"), g])), un(|g| Loop(None, Rng::Default, vec![g])), un(|g| Prog(None, vec![Re("<*"), g, Re("\n|b")]))])
        .styles(&[Style::Functions])
        .texts(&t)
        .done()]
    }
    "C11" => vec![
      deep_scopes(d),
      deep_scope_grammars(d).done(),
      alike("variables and patterns whose names look alike", &ALIKE, q(1, 2, d)).done(),
      alike("variables and patterns with long names", &long_names(), 1).done(),
    ],
    "C12" => vec![
      alike("references to names that look alike", &ALIKE, q(2, 3, d)).done(),
      alike("references to long names", &long_names(), q(2, 3, d)).done(),
      deep_scope_grammars(d).done(),
      big("references", vec![Ref("X"), Ref("Y"), RefN("Q", "X"), Ref("U")], vec![un(opt), un(scope), un(|g| Prog(None, vec![EqN("X", "b"), g]))], (1, 3), d).env(vec![("X", Eq("b")), ("Y", Re("(?s)[^b]*b"))]).fresh().done(),
    ],
    "C13" => {
      let mut leaves = vec![EqVar("V.captured_value"), EqVar("V.matched_value")];
      for n in ["V.start", "V.end", "V.range", "V.captured_start", "V.captured_end", "V.captured_range"] {
        leaves.push(PinVar(n, Box::new(Re("(?s).+"))));
        leaves.push(PinVar(n, Box::new(Re("."))));
      }
      let mut odd: Vec<G> = vec![];
      for n in ALIKE.iter().chain(long_names().iter()).copied() {
        // (a dot names a property of a token)
        if n.contains('.') {
          continue;
        }
        odd.push(EqVar(leak(&format!("{}.captured_value", n))));
        odd.push(PinVar(leak(&format!("{}.range", n)), Box::new(Re(".+"))));
      }
      let all: Vec<S> = ALIKE.iter().chain(long_names().iter()).copied().filter(|n| !n.contains('.')).collect();
      let all2 = all.clone();
      vec![
        GSpace::new("values stored far into a text", leaves, vec![un(opt)], vec![], (1, 2))
          .frames(vec![
            un(|g| Prog(None, vec![Re("[^b]+"), store("V", Eq("b")), g, opt(Re(".+"))])),
            un(|g| Prog(None, vec![Re("(?s)[^b]+"), store("V", Prog(None, vec![disc(Eq("b")), Re("."), disc(opt(Eq("b")))])), g])),
            un(|g| Prog(None, vec![store("V", Re("[^b]+")), Re("b"), g])),
            un(|g| Prog(None, vec![store("V", Re("(?s)[^b]{1,500}")), g, opt(Re(".+"))])),
          ])
          .keep(no_pin_wrapped)
          .styles(&[Style::Functions])
          .texts(&texts(d))
          .texts(&[leak(&format!("{}b b", "a".repeat(70000))), leak(&format!("{}bbb", "é".repeat(40000))), leak(&format!("{0}b{0}b", "a".repeat(5000)))])
          .done(),
        GSpace::new("values stored under names that look alike and long ones", odd, vec![], vec![], (1, 1))
          .frames(vec![
            un(move |g| {
              let mut v: Vec<G> = all.iter().map(|n| store(n, Re("[ab]"))).collect();
              v.push(g);
              Prog(None, v)
            }),
            un(move |g| {
              let mut v: Vec<G> = all2.iter().rev().step_by(2).map(|n| store(n, Re("[ab]b?"))).collect();
              v.push(g);
              Prog(None, v)
            }),
          ])
          .fresh()
          .styles(&[Style::Functions])
          .texts(&[leak_long("ab", 40), leak_long("a", 80), leak_long("aab", 40), leak_long("abb", 40)])
          .done(),
      ]
    }
    "C14" => {
      let mut offs: Vec<S> = vec![];
      for a in ["", "+", "-"] {
        for n in [1000, 4096, 32768, 65535, 65536, 65537, 70000, 131072] {
          offs.push(leak(&format!("{}{}", a, n)));
          offs.push(leak(&format!("{}{}..+3", a, n)));
          offs.push(leak(&format!("{}{}..{}", a, n, n + 4)));
          offs.push(leak(&format!("..{}{}", a, n)));
          offs.push(leak(&format!("{}{}..", a, n)));
          offs.push(leak(&format!("3..{}{}", a, n)));
        }
      }
      offs.extend(["00065535..", "+0002..", "0..000065536"]);
      let mut leaves = vec![Re("(?s).+"), Re("(?s).")];
      for o in &offs {
        leaves.push(Pin0(None, o));
      }
      vec![GSpace::new("offsets of great magnitude", leaves, offs.iter().map(|o| { let o = *o; un(move |g| Pin(None, o, Box::new(g))) }).collect(), vec![], (1, 2))
        .frames(vec![un(|g| Prog(None, vec![Re("a{5}"), g, Re(".")])), un(|g| Prog(None, vec![Re("(?s)[^b]+"), g, Re(".")])), un(|g| Prog(Some("P"), vec![Re("(?s)[^b]+"), Prog(None, vec![opt(Eq("c")), g]), Re(".+")]))])
        .keep(no_pin_wrapped)
        .styles(&[Style::Functions])
        .texts(&texts(d))
        .done()]
    }
    "C16" => {
      let mut t = vec![];
      for n in if d { vec![255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131073] } else { vec![32768, 65535, 65536, 70000] } {
        for piece in ["a", "é", "\n", "a\r\n", "\r"] {
          for tail in ["xyz", "\nb\n"] {
            t.push(format!("{}{}", piece.repeat(n), tail));
          }
        }
        t.push(format!("{}\n{}b", "\n".repeat(n), "é".repeat(300)));
      }
      vec![lines("very many and very long lines", t, &[("a/b.x", "m é")])]
    }
    "C18" => vec![big_tokens(d)],
    "C19" => vec![
      big("debug patterns", vec![Re("(?s)[^b]+"), Eq("b"), Eq("c"), Panic("p")], vec![un(|g| Debug(1, Box::new(g))), un(|g| Debug(4, Box::new(g))), un(opt)], (2, 3), d).done(),
    ],
    "C20" => {
      let mut v = large_bounds(d);
      v.extend(long_scripts(d));
      v
    }
    "C21" => long_scripts(d),
    "C22" => long_gaps(d),
    "C23" => long_chains(d),
    "C24" => vec![
      big(
        "handlers",
        vec![Re("(?s)[^b]+"), Eq("b"), Eq("c"), Seq("b", "b", "")],
        vec![
          un(|g| map(MapOk::Same, OnFail::Pass, g)),
          un(|g| map(MapOk::Rename("R"), OnFail::Skip0, g)),
          un(|g| map(MapOk::Skip, OnFail::Fail, g)),
          un(|g| map(MapOk::CapEnd, OnFail::ErrTok("t"), g)),
          un(|g| map(MapOk::New("N"), OnFail::Err("x"), g)),
          un(|g| Catch(OnFail::ErrTok("c"), Box::new(g))),
        ],
        (1, q(3, 3, d)),
        d,
      )
      .parse()
      .done(),
      GSpace::new(
        "handlers with long names, values and messages",
        messages()
          .into_iter()
          .chain(long_names())
          .flat_map(|m| {
            vec![
              map(MapOk::Rename(m), OnFail::ErrTok(m), Eq("a")),
              map(MapOk::Attr("k", m), OnFail::Err(m), Eq("a")),
              map(MapOk::Attr(m, "v"), OnFail::Bare(m), Re("[ab]")),
              map(MapOk::Val(m), OnFail::Break(m), Re("[ab]")),
              map(MapOk::CapText(m), OnFail::Continue(m), Eq("a")),
              map(MapOk::MatText(m), OnFail::Pass, Eq("b")),
              map(MapOk::New(m), OnFail::Fail, Re("b+")),
              map(MapOk::Err(m), OnFail::Fail, Re("b+")),
              map(MapOk::Break(m), OnFail::Fail, Re("b+")),
            ]
          })
          .collect(),
        vec![un(opt), un(|g| Loop(None, Rng::Default, vec![g, opt(Eq("b"))])), un(|g| Prog(None, vec![Re("a?"), g]))],
        vec![],
        (1, 2),
      )
      .texts(&["a", "ab", "b", "bba", ""])
      .parse()
      .done(),
    ],
    "C25" => vec![
      big("flattened patterns", vec![Re("[^b]+"), Eq("b"), Prog(None, vec![Re("[^b]*"), disc(Eq("b")), opt(Re("."))]), Loop(None, Rng::Default, vec![Re("[ab]{1,500}")])], vec![un(flat), un(expand), un(disc), un(|g| Prog(None, vec![Re("b?"), g]))], (2, q(3, 4, d)), d)
        .parse()
        .done(),
      GSpace::new("flattened lists of very many children", vec![Loop(None, Rng::Default, vec![Re("[ab]")]), Loop(Some("L"), Rng::Default, vec![flat(Prog(None, vec![Eq("a"), opt(Eq("b"))]))]), Prog(None, vec![opt(Re("[ab]")); 70])], vec![un(flat), un(expand), un(|g| Prog(None, vec![Re("a"), g])), un(|g| FlatN("F", Box::new(g))), un(disc)], vec![], (1, 4))
        .styles(&[Style::Functions])
        .texts(&["a", leak_long("a", 33), leak_long("ab", 33), leak_long("ab", 65), leak_long("a", 130), leak_long("ab", 150)])
        .parse()
        .done(),
    ],
    "C26" => long_scripts(d),
    "C28" => vec![
      big("windows", vec![Eq("b"), Re("(?s).+"), Re("[^b]*b?$"), Re("."), Null, Seq("a", "b", "")], vec![un(opt), un(|g| Prog(None, vec![g, opt(Re("."))])), un(|g| Loop(None, Rng::Default, vec![Re("[^b]{1,500}"), opt(g)]))], (1, q(2, 3, d)), d)
        .windows(far_windows())
        .parse()
        .done(),
      alike("registered names that look alike", &ALIKE, 1).done(),
      alike("registered long names", &long_names(), 1).done(),
    ],
    "C29" => vec![parts_watched(d).done()],
    _ => vec![],
  }
}

/// Tokens with very many children, attributes, and long texts.
fn big_tokens(deep: bool) -> Box<dyn Space> {
  use adextopa_core::source_range::SourceRange;
  use adextopa_core::token::{StandardToken, TokenRef};
  use std::rc::Rc;
  let sizes: Vec<usize> = if deep { vec![255, 256, 257, 300, 1000, 1025, 4097, 65535, 65536, 65537] } else { vec![256, 300, 1000, 65537] };
  let s2 = sizes.clone();
  cases("tokens of great extent", sizes.len() as u64, move |i| format!("texts of, and tokens with, {} of everything", s2[i as usize]), move |i, st| {
    let n = sizes[i as usize];
    let few = n.min(1000);
    let src = format!("{}é{}", "a".repeat(n), "b".repeat(n));
    let parser = Parser::new(&src);
    let t: TokenRef = StandardToken::new(&parser, "T".repeat(n), SourceRange::new(0, src.len()));
    let kids: Vec<TokenRef> = (0..few).map(|k| -> TokenRef { StandardToken::new(&parser, format!("N{}", k), SourceRange::new(n - k.min(n), n + 2 + k.min(n))) }).collect();
    t.borrow_mut().set_children(kids.clone());
    let c = CHARS[3];
    for k in 0..few {
      t.borrow_mut().set_attribute(&format!("k{}", k), &c.repeat(k + 1));
    }
    t.borrow_mut().set_attribute(&"k".repeat(n), &"v".repeat(n));
    t.borrow_mut().set_captured_range(SourceRange::new(n, n + 2));
    let b = t.borrow();
    let check = |what: &str, ok: bool| if ok { Ok(()) } else { Err(format!("{} of a token with {} of everything", what, n)) };
    check("the name", *b.get_name() == "T".repeat(n))?;
    check("the matched text", b.get_matched_value() == &src)?;
    check("the captured range", (b.get_captured_range().start, b.get_captured_range().end) == (n, n + 2))?;
    check("the matched range", (b.get_matched_range().start, b.get_matched_range().end) == (0, src.len()))?;
    check("the number of children", b.get_children().len() == few)?;
    check("the number of attributes", b.get_attributes().len() == few + 1)?;
    check("the long attribute", b.get_attribute(&"k".repeat(n)) == Some(&"v".repeat(n)))?;
    for k in 0..few {
      check("an attribute", b.get_attribute(&format!("k{}", k)) == Some(&c.repeat(k + 1)))?;
      check("a child", Rc::ptr_eq(&b.get_children()[k], &kids[k]))?;
      check("a child by name", b.find_child(&format!("N{}", k)).map_or(false, |x| Rc::ptr_eq(&x, &kids[k])))?;
      let x = kids[k].borrow();
      check("the text of a child", x.get_matched_value() == &src[n - k.min(n)..n + 2 + k.min(n)])?;
      check("the start of a child", x.get_matched_range().start == n - k.min(n))?;
      st.transitions += 5;
    }
    check("a child that is not there", !b.has_child("N") && !b.has_child(&format!("N{}", few)))?;
    st.states += few as u64;
    st.traces += 1;
    st.outcome(i);
    Ok(())
  })
}
