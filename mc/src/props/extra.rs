//! Odd names, odd characters and large grammars and inputs, for every property they concern.
use crate::g::*;
use crate::gspace::*;
use crate::real::Style;
use crate::space::Space;
use G::*;

type Spaces = Vec<Box<dyn Space>>;

/// Names that mean something elsewhere in the library, and unusual ones.
pub const NAMES: [S; 14] = ["Error", "", "Loop", "Program", "Switch", "Equals", "Matches", "_", "é b", "__value", "Pin", "Sequence", "*", "Test"];

/// Characters that text processing tends to treat in a special way.
pub const CHARS: [S; 16] = [
  "\0", "\u{feff}", "\u{301}", "\r", "\t", "\u{2028}", "ß", "İ", "\u{10ffff}", "\u{7f}", "\u{80}", "\u{ffff}", "\u{a0}", "\u{7ff}", "\u{800}", "😀",
];

fn q(n: usize, deep: usize, d: bool) -> usize {
  if d {
    deep
  } else {
    n
  }
}

pub fn leak_long(piece: &str, n: usize) -> S {
  leak(&piece.repeat(n))
}

fn named_lists(names: &[S], max: usize) -> Vec<(usize, usize, crate::gen::Nary)> {
  let mut v = vec![];
  for n in names.to_vec() {
    v.push(nary(1, max, move |x| Prog(Some(n), x)));
    v.push(nary(1, max, move |x| Loop(Some(n), Rng::Default, x)));
    v.push(nary(1, max, move |x| Switch(Some(n), x)));
  }
  v
}

/// All of the odd names on everything that has a name, with the patterns of a property.
fn odd_names(what: &str, mut own: Vec<G>, mut wraps: Vec<crate::gen::Un>, has: fn(&G) -> bool, names: &[S], deep: bool) -> GSpace {
  for (i, n) in names.to_vec().into_iter().enumerate() {
    own.push(if i % 3 == 0 { ReN(n, "[ab]") } else { EqN(n, "a") });
  }
  wraps.push(un(opt));
  wraps.push(un(disc));
  GSpace::new(&format!("{} with odd names", what), own, wraps, named_lists(names, 2), (1, q(3, 4, deep)))
    .frames(vec![
      un(|g| g),
      un(|g| Prog(Some("P"), vec![Re("[ab]"), g])),
    ])
    .keep(has)
    .inputs(&["a", "b"], 2)
    .texts(&["aba", "aab"])
}

fn odd_chars(what: &str, own: Vec<G>, wraps: Vec<crate::gen::Un>, deep: bool) -> GSpace {
  let mut leaves = own;
  for c in CHARS {
    leaves.push(Eq(c));
  }
  leaves.push(Re("."));
  leaves.push(Re("(?s)."));
  leaves.push(Re("[^\u{feff}\0-\r]"));
  leaves.push(Re("[\u{80}-\u{ffff}]+"));
  GSpace::new(
    &format!("{} with odd characters", what),
    leaves,
    wraps,
    vec![nary(1, 2, |v| Prog(None, v)), nary(1, 1, |v| Loop(None, Rng::Default, v))],
    (1, q(3, 4, deep)),
  )
  .inputs(&CHARS, 2)
  .texts(&["\u{feff}a\u{feff}", "\r\n\r", "e\u{301}😀e", "\0\0\0", "\u{10ffff}\u{ffff}\u{800}\u{7ff}"])
}

pub fn extra(id: &str, deep: bool) -> Spaces {
  let d = deep;
  let any: fn(&G) -> bool = |_| true;
  match id {
    "C01" => vec![
      odd_names("sequences", vec![Null], vec![], any, &NAMES, d).parse().done(),
      odd_chars("sequences", vec![], vec![un(disc)], d).done(),
      GSpace::new("sequences of very many parts", vec![Eq("a"), Re("[ab]"), disc(Eq("b")), opt(Eq("b"))], vec![], vec![], (1, 1))
        .frames(
          [15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300]
            .iter()
            .flat_map(|n| {
              let n = *n;
              vec![
                un(move |g| Prog(None, vec![g; n])),
                un(move |g| {
                  let mut v = vec![Re("[ab]"); n];
                  v[n - 1] = g;
                  Prog(Some("P"), v)
                }),
                un(move |g| {
                  let mut v = vec![opt(Eq("b")); n];
                  v[n / 2] = g;
                  v.push(Eq("a"));
                  Prog(None, v)
                }),
                un(move |g| {
                  let mut x = g;
                  for _ in 0..n.min(100) {
                    x = Prog(None, vec![x, opt(Eq("b"))]);
                  }
                  x
                }),
              ]
            })
            .collect(),
        )
        .styles(&[Style::Functions])
        .texts(&[leak_long("a", 300), leak_long("ab", 150), leak_long("b", 300), leak_long("a", 17), leak_long("a", 128), "a", "bba", "ab"])
        .done(),
    ],
    "C02" => vec![
      odd_names("choices", vec![Break("")], vec![], |g| g.any(&|x| matches!(x, Switch(..))), &NAMES, d).done(),
      GSpace::new("choices of very many alternatives", vec![Spy(1, Box::new(Eq("a"))), Spy(2, Box::new(Re("a*"))), Spy(3, Box::new(Eq("ab")))], vec![], vec![], (1, 1))
        .frames(
          [8, 15, 16, 17, 31, 32, 33, 64, 100, 129, 257]
            .iter()
            .flat_map(|n| {
              let n = *n;
              vec![
                un(move |g| {
                  let mut v = vec![Eq("bb"); n];
                  v[n - 1] = g;
                  Switch(None, v)
                }),
                un(move |g| {
                  let mut v = vec![Spy(7, Box::new(Eq("ba"))); n];
                  v[n / 2] = g;
                  v[n - 1] = Eq("a");
                  Prog(None, vec![Re("[ab]"), Switch(Some("X"), v)])
                }),
                un(move |g| {
                  let mut x = g;
                  for _ in 0..n.min(100) {
                    x = Switch(None, vec![Eq("bb"), x]);
                  }
                  x
                }),
              ]
            })
            .collect(),
        )
        .styles(&[Style::Functions])
        .inputs(&["a", "b"], 3)
        .done(),
    ],
    "C03" => vec![odd_names("repetitions", vec![Null], vec![], |g| g.any(&|x| matches!(x, Loop(..))), &NAMES, d).done()],
    "C04" => vec![
      odd_names("optional, negated and discarded patterns", vec![Error("e")], vec![un(not)], |g| g.any(&|x| matches!(x, Opt(_) | Not(_) | Disc(_))), &NAMES, d)
        .parse()
        .done(),
      odd_chars("optional, negated and discarded patterns", vec![], vec![un(disc), un(not), un(opt)], d).done(),
      GSpace::new("optional, negated and discarded patterns of long sources", vec![Re("a*"), Re("[ab]+"), Eq(leak_long("a", 300)), Prog(None, vec![Eq(leak_long("ab", 100)), Re("b?")]), Loop(None, Rng::Default, vec![Re("[ab]")])], vec![un(opt), un(not), un(disc)], vec![nary(1, 2, |v| Prog(None, v))], (1, q(4, 5, d)))
        .texts(&[leak_long("a", 300), leak_long("ab", 150), leak_long("b", 300), leak_long("a", 299), leak_long("ab", 100)])
        .done(),
    ],
    "C05" => {
      let mut own: Vec<G> = vec![];
      let names = ["Error", "Loop", "Program", "Switch", "_", "é b", "*"];
      for n in names {
        own.push(Break(n));
        own.push(Cont(n));
        own.push(Prog(None, vec![Re("[ab]"), Break(n)]));
      }
      own.push(Re("[ab]"));
      vec![
        odd_names("jumps", own.clone(), vec![], |g| g.any(&|x| matches!(x, Break(_) | Cont(_))), &names, d)
          .frames(vec![
            un(|g| Loop(None, Rng::Default, vec![Re("[ab]"), g])),
            un(|g| Loop(Some("Program"), Rng::Default, vec![opt(Eq("b")), Loop(None, Rng::From(2), vec![Re("a"), g]), Re("[ab]")])),
            un(|g| Loop(Some("é b"), Rng::Default, vec![Loop(Some("Error"), Rng::Default, vec![Re("a"), g]), Re("b")])),
          ])
          .styles(&[Style::Functions])
          .done(),
        GSpace::new("jumps through very many levels", vec![Break("T"), Cont("T"), Break(""), Cont("U")], vec![], vec![], (1, 1))
          .frames(
            [8, 16, 17, 33, 64, 100]
              .iter()
              .flat_map(|n| {
                let n = *n;
                (0..6).map(move |k| {
                  un(move |g| {
                    let mut x = g;
                    for i in 0..n {
                      x = match (i + k) % 4 {
                        0 => Prog(None, vec![opt(Eq("a")), x]),
                        1 if k > 2 => disc(x),
                        1 => Switch(None, vec![Eq("bb"), x]),
                        2 => Loop(if i == n / 2 { Some("U") } else { None }, Rng::Default, vec![opt(Eq("b")), x]),
                        _ => Prog(Some("U"), vec![x]),
                      };
                    }
                    Loop(Some("T"), Rng::Default, vec![Re("[ab]"), x, Re("a")])
                  })
                })
              })
              .collect(),
          )
          .styles(&[Style::Functions])
          .texts(&["a", "aa", "ab", "aaaaaaaa", "abababab", "aabbaabbaabbaabbaabb", leak_long("ab", 60)])
          .done(),
      ]
    }
    "C06" => vec![
      odd_chars("tokens", vec![SeqN("Q", "\u{feff}", "\0", "\u{301}")], vec![un(disc), un(flat)], d).parse().done(),
      odd_names("tokens", vec![Pin0(Some("Error"), "0..1")], vec![un(flat)], any, &NAMES, d).parse().done(),
      GSpace::new(
        "tokens of long sources",
        vec![Re("(?s).+"), Re("[aé]*"), Loop(None, Rng::Default, vec![Re(".")]), Loop(Some("L"), Rng::Default, vec![disc(Eq("\n")), opt(Re(".+"))]), Loop(None, Rng::Default, vec![Eq("é"), Re("[^é]+")])],
        vec![un(flat), un(disc), un(|g| Prog(None, vec![Re("(?s)."), g]))],
        vec![nary(2, 2, |v| Prog(None, v))],
        (1, q(4, 5, d)),
      )
      .texts(&[leak_long("é", 300), leak_long("aé", 130), leak_long("\nabcé", 70), leak_long("é😀b", 90), leak_long("a", 1030)])
      .parse()
      .done(),
    ],
    "C07" => vec![
      odd_names("recorded errors", vec![Error("e"), Error(""), Error("é\n")], vec![un(flat), un(|g| AssertIf("m", Box::new(g)))], |g| g.any(&|x| matches!(x, Error(_) | AssertIf(..))), &NAMES, d)
        .parse()
        .done(),
      GSpace::new(
        "very many recorded errors",
        vec![Error("e"), AssertIf("m", Box::new(Re("[ab]"))), Prog(None, vec![Eq("a"), Error("f")]), AssertIfNot("n", Box::new(Eq("b")))],
        vec![un(disc), un(flat), un(opt)],
        vec![nary(1, 2, |v| Prog(None, v))],
        (1, q(3, 4, d)),
      )
      .frames(vec![
        un(|g| Loop(None, Rng::Default, vec![g, Re("[ab]")])),
        un(|g| disc(Loop(None, Rng::Default, vec![Re("[ab]"), g]))),
        un(|g| Prog(None, vec![g; 40])),
        un(|g| {
          let mut x = g;
          for i in 0..60 {
            x = match i % 4 {
              0 => Prog(None, vec![Re("[ab]*"), x]),
              1 => flat(Prog(None, vec![x, opt(Eq("c"))])),
              2 => disc(x),
              _ => opt(x),
            };
          }
          x
        }),
        un(|g| Prog(None, vec![Error("first"), opt(g), Re("[ab]+")])),
      ])
      .texts(&["", "ab", leak_long("a", 40), leak_long("ab", 150), leak_long("b", 70)])
      .parse()
      .done(),
    ],
    "C08" => vec![
      odd_names("fatal errors", vec![Panic("p"), Panic(""), Panic("é\n: x"), FatalIf("f", Box::new(Eq("a")))], vec![un(|g| FatalIfNot("n", Box::new(g)))], |g| g.any(&|x| matches!(x, Panic(_) | FatalIf(..) | FatalIfNot(..))), &NAMES, d)
        .parse()
        .done(),
      GSpace::new(
        "fatal errors far into a source",
        vec![Panic("p"), FatalIf("f", Box::new(Re("(?s).b"))), FatalIfNot("g", Box::new(Eq("c"))), FatalIf("h", Box::new(Prog(None, vec![disc(Re("[^b]+")), Eq("b")])))],
        vec![un(|g| Prog(None, vec![Re("a?"), g])), un(|g| opt(g)), un(|g| Switch(None, vec![Eq("zz"), g]))],
        vec![],
        (1, 3),
      )
      .frames(vec![
        un(|g| Prog(None, vec![Re("[^b]*"), g])),
        un(|g| Prog(None, vec![disc(Re("[^b]*")), Prog(None, vec![Re("b\n?"), g])])),
        un(|g| Loop(None, Rng::Default, vec![Re("[^b]"), opt(Prog(None, vec![Eq("b"), g]))])),
      ])
      .texts(&[
        leak(&format!("{}bab", "\n".repeat(120))),
        leak(&format!("{}b\nb", "a\r\n".repeat(1005))),
        leak(&format!("{}bb", "é".repeat(200))),
        leak(&format!("x\n{}\n{}b a", "a".repeat(130), "é".repeat(99))),
        leak(&format!("{}b", "a".repeat(1000))),
      ])
      .file("dir/ä b.txt")
      .parse()
      .done(),
    ],
    "C09" => {
      let lens = [7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
      let mut leaves = vec![];
      for n in lens {
        leaves.push(Eq(leak_long("a", n)));
        leaves.push(Eq(leak(&format!("{}b", "a".repeat(n)))));
        leaves.push(Eq(leak(&format!("é{}", "a".repeat(n)))));
        leaves.push(Re(leak(&format!("a{{{}}}", n))));
        leaves.push(Re(leak(&format!("[aé]{{1,{}}}b?", n))));
        leaves.push(Re(leak(&format!("{}|b", "a".repeat(n)))));
      }
      let mut texts: Vec<S> = vec!["", "a", "é"];
      for n in [7, 16, 17, 32, 64, 128, 129, 256, 299, 300, 301] {
        texts.push(leak_long("a", n));
        texts.push(leak(&format!("{}b", "a".repeat(n))));
        texts.push(leak(&format!("é{}b", "a".repeat(n))));
      }
      vec![
        odd_chars("terminals", vec![Eq("\r\n"), Eq("e\u{301}"), Re("[\r\n]"), Re("\\r")], vec![], d)
          .windows(vec![None, Some((0, 1)), Some((0, 2)), Some((1, 2)), Some((2, 4)), Some((3, 6)), Some((1, 4))])
          .done(),
        GSpace::new("long terminals", leaves, vec![], vec![], (1, 1))
          .frames(vec![un(|g| g), un(|g| Prog(None, vec![Re("[aé]"), g])), un(|g| Prog(None, vec![opt(Eq("é")), g, opt(Eq("b"))]))])
          .texts(&texts)
          .windows(vec![None, Some((0, 16)), Some((0, 128)), Some((2, 130)), Some((1, 256)), Some((3, 258))])
          .done(),
      ]
    }
    "C10" => {
      let odd = ["\0", "\u{feff}", "\u{301}", "\r\n", "\n", " ", "ß", "😀", "*", ".", "$", "[", "\\"];
      let mut leaves = vec![];
      for (i, s) in odd.iter().enumerate() {
        for e in odd.iter() {
          leaves.push(Seq(s, e, odd[(i + 5) % odd.len()]));
          leaves.push(Seq(s, e, ""));
        }
      }
      let mut v = vec![GSpace::new("delimited sequences with odd characters", leaves, vec![], vec![], (1, 1))
        .inputs(&odd, q(3, 4, d))
        .done()];
      let mut leaves = vec![];
      for n in [3, 4, 8, 16, 17, 33] {
        leaves.push(Seq(leak_long("<", n), leak_long(">", n), "\\"));
        leaves.push(SeqN("Q", "<", leak(&format!("{}.", ">".repeat(n))), ""));
        leaves.push(Seq("<", ">", leak_long("%", n)));
        leaves.push(Seq("<", leak_long("é", n), "é%"));
        leaves.push(Seq("<", leak_long("é", n), leak(&format!("{}%", "é".repeat(n)))));
      }
      let mut texts: Vec<S> = vec![];
      for n in [3, 4, 8, 16, 17, 33] {
        for body in ["", "a", "é\\>", "\\\\", "%", ">", "<"] {
          let (o, c, p, e) = ("<".repeat(n), ">".repeat(n), "%".repeat(n), "é".repeat(n));
          texts.push(leak(&format!("{}{}{}", o, body, c)));
          texts.push(leak(&format!("{}{}\\{}{}", o, body, c, c)));
          texts.push(leak(&format!("<{}{}.", body, c)));
          texts.push(leak(&format!("<{}>{}.", body, c)));
          texts.push(leak(&format!("<{}{}>{}>", body, p, body)));
          texts.push(leak(&format!("<{}{}{}>>", body, p, p)));
          texts.push(leak(&format!("<{}{}", body, e)));
          texts.push(leak(&format!("<{}é%{}", body, e)));
          texts.push(leak(&format!("<{}{}%{}{}", body, e, e, e)));
          texts.push(leak(&format!("<{}é{}a", body, e)));
        }
      }
      texts.push(leak(&format!("<{}>", "a".repeat(2000))));
      texts.push(leak(&format!("<{}>", "\\>é".repeat(200))));
      texts.push(leak(&format!("<{}>", "%é".repeat(100))));
      v.push(
        GSpace::new("long delimited sequences", leaves, vec![], vec![], (1, 1))
          .frames(vec![un(|g| g), un(|g| Loop(None, Rng::Default, vec![g, opt(Eq("a"))]))])
          .texts(&texts)
          .done(),
      );
      v
    }
    "C11" | "C12" => {
      let mut own: Vec<G> = vec![Eq("b")];
      for n in NAMES {
        if n != "" {
          own.push(Ref(n));
        }
      }
      let mut leaves = vec![];
      for i in 0..60 {
        leaves.push(Ref(leak(&format!("N{}", i))));
      }
      vec![
        odd_names(
          "references",
          own,
          NAMES.iter().filter(|n| **n != "").map(|n| un(move |g| SetScopeDef(vec![(n, Re("a+")), ("Y", Eq("b"))], Box::new(g)))).collect(),
          |g| g.any(&|x| matches!(x, Ref(_))),
          &NAMES,
          d,
        )
        .done(),
        GSpace::new("very many definitions", leaves, vec![un(scope), un(|g| SetScopeDef((0..50).map(|i| (leak(&format!("N{}", (i * 7) % 53)), if i % 3 == 0 { Eq("a") } else { Eq("b") })).collect(), Box::new(g)))], vec![nary(2, 2, |v| Prog(None, v))], (1, 3))
          .frames(vec![
            un(|g| Prog(None, vec![Register((0..40).map(|i| EqN(leak(&format!("N{}", i)), if i % 2 == 0 { "a" } else { "b" })).collect()), g])),
            un(|g| {
              let mut x = g;
              for i in 0..40 {
                x = SetScope(Box::new(Prog(None, vec![Register(vec![EqN(leak(&format!("N{}", i)), if i % 2 == 0 { "a" } else { "b" })]), x])));
              }
              x
            }),
          ])
          .fresh()
          .texts(&["a", "b", "ab", "ba", "aa", "bb"])
          .done(),
      ]
    }
    "C13" => {
      let names = ["Error", "Loop", "_", "é b", "__value", "*", "value", "start", "X"];
      let mut own = vec![];
      for n in names {
        own.push(EqVar(n));
        own.push(StoreS(n, "b"));
        own.push(PinVar(leak(&format!("{}.range", n)), Box::new(Re(".+"))));
        own.push(store(n, Re("[ab]")));
      }
      let mut v: Spaces = vec![GSpace::new("stored values with odd names", own, vec![un(opt)], vec![nary(2, 2, |v| Prog(None, v))], (1, 3))
        .frames(vec![un(move |g| {
          let mut v: Vec<G> = names.iter().map(|n| store(n, Re("[ab]"))).collect();
          v.push(g);
          Prog(None, v)
        })])
        .fresh()
        .texts(&["aaaaaaaaaab", "aababbabaab", "aabbaabbab", "ababababaa", "bbbbbbbbbb", "bbbbbbbbba"])
        .done()];
      v.push(
        GSpace::new(
          "long stored values",
          vec![EqVar("V"), EqVar("V.matched_value"), EqVar("V.captured_value"), PinVar("V.range", Box::new(Re("(?s).+"))), PinVar("V.end", Box::new(Re("."))), PinVar("V.captured_range", Box::new(Re(".+"))), SeqVar("V", "V", "W")],
          vec![un(|g| store("V", g)), un(opt)],
          vec![nary(2, 2, |v| Prog(None, v))],
          (1, q(3, 4, d)),
        )
        .frames(vec![
          un(|g| Prog(None, vec![StoreS("W", ""), store("V", Re("a+")), opt(Eq("-")), g])),
          un(|g| Prog(None, vec![StoreS("W", "\\"), store("V", Prog(None, vec![disc(Re("a")), Re("é+"), disc(Re("a"))])), g])),
        ])
        .texts(&[
          leak(&format!("{0}-{0}", "a".repeat(120))),
          leak(&format!("{0}-{0}b{0}", "a".repeat(257))),
          leak(&format!("a{0}a{0}", "é".repeat(130))),
          leak(&format!("a{0}aa{0}a{0}", "é".repeat(13))),
        ])
        .done(),
      );
      v
    }
    "C14" => {
      let mut offs: Vec<S> = vec![];
      for a in ["", "+", "-"] {
        for n in [9, 10, 11, 12, 99, 100, 101, 128, 200, 255, 256, 257, 300, 512] {
          offs.push(leak(&format!("{}{}", a, n)));
          for b in ["", "+", "-"] {
            for m in [3, 10, 100, 199, 260] {
              offs.push(leak(&format!("{}{}..{}{}", a, n, b, m)));
            }
          }
          offs.push(leak(&format!("{}{}..", a, n)));
          offs.push(leak(&format!("..{}{}", a, n)));
        }
      }
      let pins: Vec<crate::gen::Un> = offs.iter().map(|o| { let o = *o; un(move |g| Pin(None, o, Box::new(g))) }).collect();
      let mut leaves = vec![Re("a+"), Re("(?s)."), Prog(None, vec![disc(Re(".")), Re(".+")])];
      for o in &offs {
        leaves.push(Pin0(None, o));
      }
      vec![GSpace::new("offsets of several digits", leaves, pins, vec![], (1, 2))
        .frames(vec![
          un(|g| Prog(None, vec![Re("a{5}"), g, Re(".")])),
          un(|g| Prog(None, vec![Re("a{150}"), opt(g), Re(".+")])),
        ])
        .keep(|g| !matches!(g, Prog(_, v) if matches!(v[1], Opt(ref x) if matches!(**x, Pin0(..) | Pin(..)))) )
        .texts(&[leak_long("a", 200), leak_long("a", 300), leak_long("a", 12), leak(&format!("{}éé", "a".repeat(254)))])
        .done(),
      GSpace::new("offsets of several digits behind alternatives", vec![Re("a+"), Re("(?s).")], offs.iter().map(|o| { let o = *o; un(move |g| Pin(None, o, Box::new(g))) }).collect(), vec![], (2, 2))
        .frames(vec![
          un(|g| Prog(None, vec![Re("a{150}"), Prog(None, vec![opt(Eq("b")), g]), Re(".+")])),
          un(|g| Prog(None, vec![Re("a{100}"), Switch(None, vec![Eq("b"), g]), Re(".+")])),
        ])
        .texts(&[leak_long("a", 200), leak_long("a", 300), leak(&format!("{}éé", "a".repeat(254)))])
        .done()]
    }
    "C19" => vec![
      odd_chars("debug patterns", vec![], vec![un(|g| Debug(1, Box::new(g))), un(|g| Debug(4, Box::new(g)))], d).done(),
      odd_names("debug patterns", vec![DebugNone(2), Error("e")], vec![un(|g| Debug(3, Box::new(g)))], |g| g.any(&|x| matches!(x, Debug(..) | DebugNone(_))), &NAMES, d)
        .parse()
        .done(),
      GSpace::new(
        "debug patterns of long sources",
        vec![Re("(?s).+"), Eq(leak_long("é", 60)), Eq("a"), Panic("p"), Loop(None, Rng::Default, vec![Debug(2, Box::new(Re(".")))])],
        vec![un(|g| Debug(1, Box::new(g))), un(|g| Debug(3, Box::new(g))), un(|g| Debug(7, Box::new(g))), un(|g| Prog(None, vec![Re("(?s)."), g])), un(opt)],
        vec![],
        (2, q(4, 5, d)),
      )
      .frames(vec![un(|g| g), un(|g| Prog(None, vec![Re("[^b]*"), g, opt(Re("."))]))])
      .texts(&[leak_long("é", 300), leak_long("\n", 100), leak_long("é\n😀", 80), leak(&format!("{}b{}", "a".repeat(200), "é".repeat(200)))])
      .done(),
    ],
    "C24" => vec![odd_names(
      "handlers",
      vec![Null, Error("e")],
      vec![un(|g| map(MapOk::Same, OnFail::Pass, g)), un(|g| map(MapOk::Rename("Error"), OnFail::Skip0, g)), un(|g| AssertIf("m", Box::new(g))), un(|g| Catch(OnFail::ErrTok("c"), Box::new(g)))],
      |g| g.any(&|x| matches!(x, Map(..) | Catch(..) | AssertIf(..))),
      &NAMES,
      d,
    )
    .parse()
    .done()],
    "C25" => vec![
      odd_names("flattened patterns", vec![Error("e")], vec![un(flat), un(expand), un(|g| FlatN("Error", Box::new(g)))], |g| g.any(&|x| matches!(x, Flat(_) | FlatN(..) | Expand(_))), &NAMES, d)
        .parse()
        .done(),
      odd_chars("flattened patterns", vec![], vec![un(flat), un(expand), un(disc)], d).done(),
    ],
    _ => vec![],
  }
}
