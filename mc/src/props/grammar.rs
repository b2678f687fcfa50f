//! Properties decided on all grammars of a size over an alphabet, on all inputs of a length.
use crate::g::*;
use crate::gspace::*;
use crate::real::Style;
use crate::space::Space;
use Style::*;
use G::*;

type Spaces = Vec<Box<dyn Space>>;

const ALL: [Style; 3] = [Macros, Functions, Added];

fn p(n: Option<S>) -> impl Fn(Vec<G>) -> G {
  move |v| Prog(n, v)
}
fn sw(n: Option<S>) -> impl Fn(Vec<G>) -> G {
  move |v| Switch(n, v)
}
fn l(n: Option<S>, r: Rng) -> impl Fn(Vec<G>) -> G {
  move |v| Loop(n, r, v)
}
fn q(n: usize, deep: usize, d: bool) -> usize {
  if d {
    deep
  } else {
    n
  }
}

/// No pin directly inside of something that is not a composition: what a wrapper makes of the
/// position a pin goes back to is left open.
fn pins_apart(g: &G) -> bool {
  !g.any(&|x| !matches!(x, Prog(..) | Switch(..) | Loop(..) | Pin(..)) && x.kids().iter().any(|y| matches!(y, Pin(..) | PinVar(..))))
}

/// The property's own patterns together with every other kind of pattern: all terms up to a
/// size that have one of them, alone, in the middle of a sequence, in a run of a repetition and
/// behind an alternative.
fn mix(name: &str, own: Vec<G>, wraps: Vec<crate::gen::Un>, has: fn(&G) -> bool, sizes: (usize, usize)) -> GSpace {
  let mut leaves = own;
  leaves.extend([Re("[ab]"), disc(Eq("a")), Re("b*"), Prog(None, vec![disc(Eq("a")), Eq("b")])]);
  let mut unary = wraps;
  unary.extend([
    un(opt),
    un(not),
    un(disc),
    un(flat),
    un(expand),
    un(scope),
    un(|g| SetScopeDef(vec![("Z", Eq("z"))], Box::new(g))),
    un(|g| store("X", g)),
    un(|g| pin("..+1", g)),
    un(|g| pin("0", g)),
    un(|g| Debug(1, Box::new(g))),
    un(|g| map(MapOk::Same, OnFail::Pass, g)),
    un(|g| map(MapOk::Rename("R"), OnFail::Skip0, g)),
    un(|g| Catch(OnFail::Pass, Box::new(g))),
    un(|g| AssertIf("ai", Box::new(g))),
    un(|g| AssertIfNot("an", Box::new(g))),
    un(|g| FatalIf("fi", Box::new(g))),
    un(|g| FatalIfNot("fn", Box::new(g))),
  ]);
  GSpace::new(
    name,
    leaves,
    unary,
    vec![
      nary(1, 3, p(None)),
      nary(1, 2, p(Some("L"))),
      nary(1, 2, sw(None)),
      nary(1, 2, sw(Some("L"))),
      nary(1, 2, l(None, Rng::Default)),
      nary(1, 2, l(Some("L"), Rng::Incl(1, 3))),
    ],
    sizes,
  )
  .frames(vec![
    un(|g| g),
    un(|g| Prog(None, vec![Re("[ab]"), g, opt(Re("[ab]+"))])),
    un(|g| Loop(Some("L"), Rng::Default, vec![Re("[ab]"), g])),
    un(|g| Loop(None, Rng::Default, vec![Switch(None, vec![g, Re("[ab]")]), opt(Eq("b"))])),
  ])
  .keep(move |g| has(g) && pins_apart(g))
  .fresh()
}

/// Texts of many pieces.
fn long(piece: &str, n: usize) -> S {
  leak(&piece.repeat(n))
}

// ------------------------------------------------------------------ C01

pub fn c01(deep: bool) -> Spaces {
  let d = deep;
  vec![
    // every way of composing a sequence
    GSpace::new(
      "sequences of captured, discarded, optional and empty parts",
      vec![Eq("a"), Eq("b"), Re("[ab]+"), Re("a*"), disc(Eq("b")), opt(Eq("a")), Null],
      vec![un(disc), un(opt)],
      vec![nary(1, 3, p(None)), nary(1, 3, p(Some("P")))],
      (1, q(5, 6, d)),
    )
    .inputs(&["a", "b"], q(4, 5, d))
    .done(),
    GSpace::new(
      "sequences by every way of composing them",
      vec![Eq("a"), EqN("Q", "b"), Re("a*"), opt(Eq("b"))],
      vec![un(disc)],
      vec![nary(1, 4, p(None)), nary(1, 4, p(Some("P")))],
      (2, q(5, 6, d)),
    )
    .styles(&ALL)
    .inputs(&["a", "b"], 4)
    .parse()
    .done(),
    GSpace::new(
      "long sequences",
      vec![Eq("a"), disc(Eq("b")), opt(Eq("é")), Re("[bé]")],
      vec![],
      vec![nary(4, q(6, 7, d), p(Some("P")))],
      (5, q(7, 8, d)),
    )
    .styles(&[Functions])
    .inputs(&["a", "b", "é"], 4)
    .texts(&["ababéa", "aaaaaa", "abababa", "éaéaéa", "bbbbbbb"])
    .done(),
    GSpace::new(
      "sequences inside of choices, repetitions and lookahead",
      vec![Eq("a"), Eq("b"), Eq("ab"), Re("b*")],
      vec![un(opt), un(not)],
      vec![nary(2, 3, p(None)), nary(1, 2, sw(None)), nary(1, 2, l(None, Rng::Default))],
      (3, q(5, 6, d)),
    )
    .inputs(&["a", "b"], q(4, 5, d))
    .done(),

    mix("sequences in everything", vec![Prog(None, vec![Eq("a"), opt(Eq("b"))]), Prog(Some("P"), vec![Re("a*"), Eq("b")])], vec![], |_| true, (1, q(4, 5, d)))
      .inputs(&["a", "b"], q(3, 4, d))
      .done(),
    GSpace::new(
      "sequences of many parts",
      vec![Eq("a"), disc(Eq("b")), opt(Eq("a")), Re("[ab]?")],
      vec![],
      vec![nary(8, q(8, 9, d), p(None)), nary(8, 8, p(Some("P")))],
      (9, q(9, 10, d)),
    )
    .texts(&["", "aaaa", "abababab", "bbbbbbbb", "aabbaabb", "aaaaaaaaaa", "babbabaab"])
    .done(),
    GSpace::new(
      "deeply nested sequences",
      vec![Eq("a"), opt(Eq("b"))],
      vec![
        un(|g| Prog(None, vec![g])),
        un(|g| Prog(Some("P"), vec![Re("[ab]"), g])),
        un(|g| Prog(None, vec![g, disc(Eq("b"))])),
        un(|g| Prog(None, vec![opt(Eq("a")), g, Re("b*")])),
      ],
      vec![],
      (4, q(7, 9, d)),
    )
    .inputs(&["a", "b"], 4)
    .texts(&["aaaaaaaabbb", "abababababb"])
    .done(),
  ]
}

// ------------------------------------------------------------------ C02

pub fn c02(deep: bool) -> Spaces {
  let d = deep;
  let spy = |i, g| Spy(i, Box::new(g));
  vec![
    GSpace::new(
      "choices of alternatives of every kind",
      vec![
        spy(1, Eq("a")),
        spy(2, Eq("ab")),
        spy(3, Re("b*")),
        spy(4, Null),
        spy(5, Break("")),
        spy(6, Cont("")),
        spy(7, disc(Eq("b"))),
      ],
      vec![un(opt), un(flat)],
      vec![nary(1, 3, sw(None)), nary(2, 2, p(None))],
      (2, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| g),
      un(|g| Prog(None, vec![Re("[ab]"), g, opt(Re("[ab]+"))])),
      un(|g| Loop(None, Rng::Default, vec![g, Re("a")])),
    ])
    .inputs(&["a", "b"], 4)
    .done(),
    GSpace::new(
      "choices by every way of composing them",
      vec![Eq("a"), EqN("Q", "ab"), Re("b*"), Null],
      vec![un(disc)],
      vec![nary(1, 4, sw(None)), nary(1, 3, sw(Some("X"))), nary(1, 2, p(None))],
      (2, q(5, 6, d)),
    )
    .styles(&ALL)
    .inputs(&["a", "b"], 3)
    .parse()
    .done(),
    GSpace::new(
      "choices with errors, pins and lookahead",
      vec![
        spy(1, Eq("a")),
        spy(2, Error("e")),
        spy(3, Pin0(None, "0..1")),
        spy(4, pin("0", Eq("a"))),
        spy(5, not(Eq("a"))),
        spy(6, Panic("p")),
        spy(7, Eq("b")),
      ],
      vec![un(opt)],
      vec![nary(1, 4, sw(None))],
      (2, q(5, 6, d)),
    )
    .frames(vec![
      un(|g| g),
      un(|g| Prog(None, vec![Re("[ab]"), g, Re("[ab]*")])),
      un(|g| Prog(None, vec![opt(g), Re("[ab]+")])),
    ])
    .keep(|g| !g.any(&|x| matches!(x, Opt(p) if !p.is_consuming())))
    .inputs(&["a", "b"], 3)
    .parse()
    .done(),

    mix(
      "choices in everything",
      vec![
        Switch(None, vec![Spy(1, Box::new(Eq("a"))), Spy(2, Box::new(Eq("ab"))), Spy(3, Box::new(Re("b*")))]),
        Switch(Some("X"), vec![Prog(None, vec![Eq("a"), Eq("b")]), Re("a+")]),
      ],
      vec![],
      |g| g.any(&|x| matches!(x, Switch(..))),
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(3, 4, d))
    .done(),
    GSpace::new(
      "choices of many alternatives",
      vec![spy(1, Eq("aa")), spy(2, Eq("ab")), spy(3, Eq("a")), spy(4, disc(Eq("b")))],
      vec![],
      vec![nary(5, q(7, 8, d), sw(None))],
      (6, q(8, 9, d)),
    )
    .inputs(&["a", "b"], 2)
    .done(),
  ]
}

// ------------------------------------------------------------------ C03

fn ranges() -> Vec<Rng> {
  vec![
    Rng::Default,
    Rng::From(0),
    Rng::From(1),
    Rng::From(3),
    Rng::Half(0, 1),
    Rng::Half(1, 2),
    Rng::Half(2, 4),
    Rng::Incl(1, 1),
    Rng::Incl(2, 3),
    Rng::Incl(0, 0),
    Rng::To(2),
    Rng::To(0),
    Rng::ToIncl(1),
  ]
}

pub fn c03(deep: bool) -> Spaces {
  let d = deep;
  vec![
    GSpace::new(
      "every kind of bounds",
      vec![Eq("a"), Eq("b"), Re("a*"), disc(Eq("a")), opt(Eq("b")), Null],
      vec![un(opt)],
      ranges().into_iter().map(|r| nary(1, 2, l(None, r))).chain(vec![nary(2, 2, p(None))]).collect(),
      (2, q(4, 5, d)),
    )
    .frames(vec![un(|g| g), un(|g| Prog(None, vec![opt(g), Re("[ab]")]))])
    .inputs(&["a", "b"], q(4, 5, d))
    .done(),
    GSpace::new(
      "bounds by every way of composing a repetition",
      vec![Eq("a"), EqN("Q", "b"), opt(Eq("a"))],
      vec![],
      ranges()
        .into_iter()
        .map(|r| nary(1, 3, l(None, r)))
        .chain(ranges().into_iter().map(|r| nary(1, 3, l(Some("L"), r))))
        .collect(),
      (2, 4),
    )
    .styles(&ALL)
    .inputs(&["a", "b"], q(4, 6, d))
    .parse()
    .done(),
    GSpace::new(
      "nested repetitions, with empty runs and partial runs",
      vec![Eq("a"), Eq("b"), Re("a*"), Null],
      vec![un(opt), un(disc), un(not)],
      vec![
        nary(1, 2, l(None, Rng::Default)),
        nary(1, 2, l(Some("L"), Rng::From(1))),
        nary(1, 2, l(None, Rng::Incl(2, 2))),
        nary(1, 2, p(None)),
        nary(1, 2, sw(None)),
      ],
      (3, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(5, 5, d))
    .done(),
    GSpace::new(
      "long inputs",
      vec![Eq("a"), Re("[ab]"), Eq("ab")],
      vec![un(disc)],
      vec![
        nary(1, 2, l(None, Rng::Default)),
        nary(1, 2, l(None, Rng::From(4))),
        nary(1, 2, l(None, Rng::Half(0, 5))),
      ],
      (2, 4),
    )
    .inputs(&["ab", "aab"], 4)
    .texts(&["aaaaaaaaaaaaaaaaaaaa", "abababababababababababab"])
    .done(),

    mix(
      "repetitions in everything",
      vec![
        Loop(None, Rng::Incl(1, 2), vec![Re("[ab]")]),
        Loop(Some("X"), Rng::From(2), vec![Eq("a"), opt(Eq("b"))]),
        Loop(None, Rng::Half(0, 2), vec![disc(Eq("b"))]),
      ],
      vec![],
      |g| g.any(&|x| matches!(x, Loop(..))),
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(4, 5, d))
    .done(),
    GSpace::new(
      "very long inputs",
      vec![Eq("a"), Re("[ab]"), opt(Eq("b"))],
      vec![un(disc)],
      vec![
        nary(1, 2, l(None, Rng::Default)),
        nary(1, 2, l(None, Rng::From(258))),
        nary(1, 2, l(None, Rng::From(300))),
        nary(1, 2, l(None, Rng::Half(0, 257))),
        nary(1, 2, l(None, Rng::Incl(0, 255))),
        nary(1, 2, l(None, Rng::ToIncl(1030))),
      ],
      (2, q(3, 4, d)),
    )
    .texts(&[long("a", 255), long("a", 256), long("a", 257), long("ab", 129), long("ab", 520), long("a", 1040)])
    .done(),
    GSpace::new(
      "more than 65536 runs",
      vec![Eq("a"), disc(Eq("a"))],
      vec![],
      vec![nary(1, 1, l(None, Rng::Default)), nary(1, 1, l(None, Rng::ToIncl(65537))), nary(1, 1, l(None, Rng::From(65537)))],
      (2, 2),
    )
    .texts(&[long("a", 65536), long("a", 65540)])
    .done(),
  ]
}

// ------------------------------------------------------------------ C04

pub fn c04(deep: bool) -> Spaces {
  let d = deep;
  vec![
    GSpace::new(
      "optional, negated and discarded patterns",
      vec![Eq("a"), Eq("é"), Re("a*"), Re("[aé]+"), Null],
      vec![un(opt), un(not), un(disc)],
      vec![nary(1, 2, p(None)), nary(1, 2, sw(None)), nary(1, 1, l(None, Rng::From(1)))],
      (1, q(5, 6, d)),
    )
    .frames(vec![
      un(|g| g),
      un(|g| Prog(None, vec![Re("[aé]"), g, opt(Re("[aé]+"))])),
    ])
    .inputs(&["a", "é"], q(4, 5, d))
    .done(),
    GSpace::new(
      "with errors, jumps and flattening",
      vec![Eq("a"), Error("e"), Break(""), Cont(""), Panic("p"), Re("b*")],
      vec![un(opt), un(not), un(disc), un(flat)],
      vec![nary(2, 2, p(None)), nary(2, 2, sw(None)), nary(1, 2, l(None, Rng::Default))],
      (1, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| g),
      un(|g| Prog(None, vec![Re("[ab]"), g, opt(Re("[ab]+"))])),
      un(|g| Loop(None, Rng::Default, vec![Re("[ab]"), g])),
    ])
    .inputs(&["a", "b"], 3)
    .parse()
    .done(),
    GSpace::new(
      "around delimited sequences, references and mappings",
      vec![
        Seq("'", "'", "\\"),
        Ref("X"),
        Ref("Y"),
        map(MapOk::Rename("R"), OnFail::Pass, Re("[ab]")),
        map(MapOk::Skip, OnFail::Skip0, Eq("ab")),
        pin("0", Eq("a")),
      ],
      vec![un(opt), un(not), un(disc)],
      vec![nary(1, 3, p(None))],
      (1, q(4, 6, d)),
    )
    .keep(|g| !g.any(&|x| matches!(x, Opt(p) | Disc(p) if p.any(&|y| matches!(y, Pin(..))) && !matches!(**p, Prog(..)))))
    .env(vec![("X", Prog(None, vec![Eq("a"), opt(Eq("b"))])), ("Y", disc(Eq("b")))])
    .inputs(&["a", "b", "'"], q(4, 5, d))
    .done(),

    mix(
      "optional, negated and discarded patterns in everything",
      vec![Break(""), Cont("L"), Error("e"), Prog(None, vec![Eq("a"), Break("")]), Prog(Some("P"), vec![Re("[ab]"), Cont("")])],
      vec![],
      |g| g.any(&|x| matches!(x, Opt(_) | Not(_) | Disc(_))),
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(3, 4, d))
    .done(),
    GSpace::new(
      "chains of optional, negated and discarded patterns",
      vec![Eq("a"), Re("[ab]*"), Prog(None, vec![Eq("a"), Break("")]), Prog(None, vec![disc(Eq("a")), Eq("b"), Cont("")]), Prog(None, vec![Eq("a"), Error("e")])],
      vec![un(opt), un(not), un(disc), un(flat), un(|g| Prog(None, vec![g])), un(|g| Switch(None, vec![Eq("ba"), g]))],
      vec![],
      (2, q(6, 7, d)),
    )
    .frames(vec![
      un(|g| g),
      un(|g| Prog(None, vec![Re("[ab]"), g, opt(Re("[ab]+"))])),
      un(|g| Loop(None, Rng::Default, vec![opt(Eq("b")), g])),
      un(|g| Loop(None, Rng::Default, vec![Loop(None, Rng::Default, vec![g])])),
    ])
    .inputs(&["a", "b"], 3)
    .done(),
  ]
}

// ------------------------------------------------------------------ C05

pub fn c05(deep: bool) -> Spaces {
  let d = deep;
  let jumps = vec![Break(""), Break("L"), Break("M"), Cont(""), Cont("L"), Cont("M")];
  let with = |mut v: Vec<G>, j: &[usize]| {
    v.extend(j.iter().map(|i| jumps[*i].clone()));
    v
  };
  vec![
    GSpace::new(
      "breaks and continues in nested named repetitions",
      with(vec![Re("[ab]"), Eq("a"), opt(Eq("b"))], &[0, 1, 2, 3, 4, 5]),
      vec![],
      vec![
        nary(1, 3, l(None, Rng::Default)),
        nary(1, 3, l(Some("L"), Rng::Default)),
        nary(1, 3, l(Some("M"), Rng::From(2))),
        nary(2, 3, p(None)),
        nary(2, 2, sw(None)),
      ],
      (2, q(5, 6, d)),
    )
    .keep(|g| g.any(&|x| matches!(x, Break(_) | Cont(_))))
    .inputs(&["a", "b"], q(3, 4, d))
    .done(),
    GSpace::new(
      "jumps and repetitions whose names look alike",
      vec![Re("[ab]"), Break("L"), Break("l"), Break("LL"), Break(" L"), Cont("L"), Cont("l"), Cont("LL")],
      vec![un(|g| Loop(Some("l"), Rng::Default, vec![Re("[ab]"), g])), un(|g| Loop(Some("LL"), Rng::From(2), vec![Re("a"), g])), un(|g| Loop(Some("L "), Rng::Default, vec![opt(Eq("a")), g]))],
      vec![nary(2, 2, p(Some("l"))), nary(2, 2, p(None))],
      (1, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| Loop(Some("L"), Rng::Default, vec![Re("[ab]"), g])),
      un(|g| Loop(Some("l"), Rng::Default, vec![Re("[ab]"), Loop(Some("L"), Rng::Incl(0, 2), vec![g, Re("b")])])),
      un(|g| Loop(Some("LL"), Rng::Default, vec![Loop(Some("Ll"), Rng::Default, vec![Re("a"), g]), Re("b")])),
      un(|g| Loop(Some("É"), Rng::Default, vec![Re("[ab]"), Loop(Some("é"), Rng::Default, vec![Re("a"), g, Break("É")])])),
    ])
    .inputs(&["a", "b"], q(4, 4, d))
    .texts(&["aababbab"])
    .done(),
    GSpace::new(
      "jumps through wrappers",
      with(vec![Re("[ab]"), Eq("a")], &[0, 1, 3, 4]),
      vec![
        un(opt),
        un(disc),
        un(flat),
        un(expand),
        un(scope),
        un(|g| Debug(2, Box::new(g))),
        un(|g| store("X", g)),
        un(|g| map(MapOk::Same, OnFail::Pass, g)),
        un(|g| Catch(OnFail::Skip0, Box::new(g))),
        un(|g| SetScopeDef(vec![], Box::new(g))),
        un(not),
      ],
      vec![nary(2, 2, p(None)), nary(2, 2, sw(None))],
      (1, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| Loop(Some("L"), Rng::Default, vec![Re("[ab]"), g])),
      un(|g| Loop(Some("L"), Rng::Default, vec![Loop(None, Rng::From(3), vec![Re("a"), g]), Re("b")])),
      un(|g| Prog(None, vec![Re("[ab]"), g, Re("[ab]")])),
    ])
    .keep(|g| g.any(&|x| matches!(x, Break(_) | Cont(_))))
    .fresh()
    .inputs(&["a", "b"], q(4, 4, d))
    .done(),
    GSpace::new(
      "handlers that jump",
      vec![
        map(MapOk::Break(""), OnFail::Pass, Eq("a")),
        map(MapOk::Break("L"), OnFail::Continue(""), Eq("b")),
        map(MapOk::Continue(""), OnFail::Break(""), Eq("a")),
        map(MapOk::Continue("L"), OnFail::Pass, Prog(None, vec![Eq("b"), Eq("a")])),
        Catch(OnFail::Break("L"), Box::new(Eq("b"))),
        Catch(OnFail::Continue("M"), Box::new(Eq("a"))),
        Re("[ab]"),
        disc(Eq("b")),
      ],
      vec![un(disc), un(flat)],
      vec![
        nary(1, 3, l(None, Rng::Default)),
        nary(1, 2, l(Some("L"), Rng::From(1))),
        nary(2, 2, p(Some("M"))),
        nary(2, 2, l(Some("M"), Rng::Incl(1, 2))),
        nary(2, 2, sw(None)),
      ],
      (2, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(4, 5, d))
    .parse()
    .done(),
    GSpace::new(
      "deep chains of named repetitions",
      with(vec![Re("a"), Re("b")], &[0, 1, 2, 3, 4, 5]),
      vec![
        un(|g| Loop(Some("L"), Rng::Default, vec![Re("[ab]"), g])),
        un(|g| Loop(Some("M"), Rng::Default, vec![Re("[ab]"), g])),
        un(|g| Loop(None, Rng::Default, vec![opt(Eq("a")), g])),
        un(|g| Prog(None, vec![Re("[ab]"), g])),
        un(|g| Switch(None, vec![Eq("bb"), g])),
        un(|g| Prog(None, vec![opt(Eq("b")), g, Re("[ab]")])),
      ],
      vec![],
      (2, q(5, 6, d)),
    )
    .styles(&[Functions])
    .inputs(&["a", "b"], q(5, 6, d))
    .done(),

    mix(
      "jumps in everything",
      with(vec![Prog(None, vec![Eq("a"), Break("L")]), Prog(None, vec![Re("[ab]"), Cont("")])], &[0, 1, 3, 4]),
      vec![],
      |g| g.any(&|x| matches!(x, Break(_) | Cont(_))),
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(4, 4, d))
    .done(),
    GSpace::new(
      "jumps by every name through compositions of every name",
      with(vec![Prog(None, vec![Re("[ab]"), Break("L")]), Prog(None, vec![Eq("a"), Cont("L")])], &[1, 2, 4]),
      vec![
        un(|g| Switch(Some("L"), vec![Eq("bb"), g])),
        un(|g| Prog(Some("L"), vec![Re("[ab]"), g])),
        un(|g| Loop(None, Rng::Default, vec![Re("[ab]"), g])),
        un(|g| Loop(Some("L"), Rng::From(2), vec![opt(Eq("a")), g])),
        un(|g| Loop(Some("M"), Rng::Default, vec![Re("[ab]"), g])),
        un(disc),
        un(flat),
        un(|g| Prog(Some("M"), vec![g, Re("[ab]")])),
        un(|g| Switch(Some("M"), vec![g, Re("b")])),
      ],
      vec![],
      (3, q(5, 6, d)),
    )
    .frames(vec![un(|g| g), un(|g| Loop(Some("L"), Rng::Default, vec![Re("[ab]"), g]))])
    .styles(&[Functions])
    .inputs(&["a", "b"], q(5, 6, d))
    .done(),
  ]
}

// ------------------------------------------------------------------ C06

pub fn c06(deep: bool) -> Spaces {
  let d = deep;
  vec![
    GSpace::new(
      "tokens of multi-byte sources",
      vec![
        Eq("é"),
        Re("."),
        Re("[a😀]+"),
        SeqN("Q", "\"", "\"", "\\"),
        disc(Re("[é😀]")),
        opt(Eq("😀a")),
      ],
      vec![un(disc), un(flat), un(expand)],
      vec![nary(1, 3, p(None)), nary(1, 2, l(Some("L"), Rng::Default)), nary(1, 2, sw(None))],
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "é", "😀"], 3)
    .texts(&["\"é\\\"😀\"a", "é\"\\😀\"é", "a\"é", "\"\"é", "é\"a\"\"é\"😀"])
    .parse()
    .done(),
    GSpace::new(
      "values, attributes and links",
      vec![
        SeqN("Q", "<é", "é>", "é"),
        map(MapOk::Attr("__value", "é"), OnFail::Pass, Re("[aé]")),
        map(MapOk::Attr("k", "v"), OnFail::Pass, Eq("é")),
        map(MapOk::New("N"), OnFail::Pass, Prog(None, vec![Re("."), Re(".")])),
        map(MapOk::Rename("R"), OnFail::Pass, Prog(None, vec![disc(Re(".")), Re(".")])),
        Error("é"),
        pin("0", Re(".")),
        Re("."),
      ],
      vec![un(flat), un(disc), un(|g| store("X", g))],
      vec![nary(1, 3, p(None)), nary(1, 2, l(None, Rng::Default)), nary(1, 2, sw(None))],
      (1, q(4, 5, d)),
    )
    .keep(|g| !g.any(&|x| !matches!(x, Prog(..) | Switch(..) | Loop(..)) && x.kids().iter().any(|y| matches!(y, Pin(..)))))
    .inputs(&["a", "é", "<é", "é>"], q(3, 4, d))
    .parse()
    .done(),

    mix(
      "tokens in everything",
      vec![
        Prog(Some("P"), vec![disc(Eq("b")), Re("[aé]"), opt(disc(Eq("b")))]),
        SeqN("Q", "b", "a", "é"),
        map(MapOk::Attr("__value", "é"), OnFail::Pass, Re("[aé]")),
      ],
      vec![],
      |_| true,
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "é", "b"], q(2, 3, d))
    .texts(&["baba", "béba", "abab", "aéb"])
    .parse()
    .done(),
  ]
}

// ------------------------------------------------------------------ C07

pub fn c07(deep: bool) -> Spaces {
  let d = deep;
  vec![
    GSpace::new(
      "recorded errors in every position",
      vec![Error("e1"), Error("e2"), Eq("a"), Re("b*")],
      vec![un(opt), un(disc), un(flat), un(expand)],
      vec![nary(1, 3, p(None)), nary(2, 2, sw(None)), nary(1, 2, l(None, Rng::Default))],
      (1, q(5, 6, d)),
    )
    .keep(|g| g.any(&|x| matches!(x, Error(_))))
    .inputs(&["a", "b"], q(2, 2, d))
    .texts(&["aba", "aab"])
    .parse()
    .done(),
    GSpace::new(
      "assertions in every position",
      vec![
        AssertIf("m1", Box::new(Re("[ab]"))),
        AssertIfNot("m2", Box::new(Eq("b"))),
        AssertIf("m3", Box::new(Prog(None, vec![disc(Eq("a")), Eq("b")]))),
        Error("e"),
        Eq("a"),
        Re("[ab]"),
      ],
      vec![
        un(opt),
        un(disc),
        un(flat),
        un(scope),
        un(|g| store("X", g)),
        un(|g| map(MapOk::Same, OnFail::Pass, g)),
        un(|g| Debug(1, Box::new(g))),
        un(|g| Catch(OnFail::ErrTok("c"), Box::new(g))),
      ],
      vec![nary(1, 3, p(None)), nary(1, 2, l(None, Rng::Incl(1, 3)))],
      (1, q(4, 5, d)),
    )
    .file("f.txt")
    .inputs(&["a", "b"], 3)
    .parse()
    .done(),
    GSpace::new(
      "errors on several lines, before and after jumps",
      vec![
        Error("e"),
        Re("[a\n]"),
        disc(Eq("\n")),
        AssertIf("m", Box::new(Eq("\n"))),
        Break(""),
        Cont(""),
        map(MapOk::Fail, OnFail::Pass, Eq("a")),
      ],
      vec![un(opt), un(disc)],
      vec![nary(2, 3, p(None)), nary(1, 3, l(None, Rng::Default)), nary(2, 2, sw(None))],
      (2, q(4, 5, d)),
    )
    .keep(|g| g.any(&|x| matches!(x, Error(_) | AssertIf(..))))
    .file("é")
    .inputs(&["a", "\n"], q(3, 4, d))
    .parse()
    .done(),

    mix(
      "recorded errors in everything",
      vec![Error("e"), Prog(None, vec![Eq("a"), Error("f")]), AssertIf("m", Box::new(Prog(None, vec![disc(Eq("a")), Eq("b")]))), map(MapOk::Fail, OnFail::Err("g"), Eq("a")), Break("")],
      vec![un(|g| Catch(OnFail::ErrTok("c"), Box::new(g)))],
      |g| g.any(&|x| matches!(x, Error(_) | AssertIf(..) | AssertIfNot(..) | Map(..) | Catch(..))),
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(3, 3, d))
    .only_parse()
    .done(),
  ]
}

// ------------------------------------------------------------------ C08

fn wrappers() -> Vec<Un2> {
  vec![
    un(opt),
    un(not),
    un(disc),
    un(flat),
    un(expand),
    un(scope),
    un(|g| SetScopeDef(vec![("Z", Eq("z"))], Box::new(g))),
    un(|g| store("X", g)),
    un(|g| pin("", g)),
    un(|g| Debug(1, Box::new(g))),
    un(|g| map(MapOk::Same, OnFail::Pass, g)),
    un(|g| Catch(OnFail::Pass, Box::new(g))),
    un(|g| AssertIf("ai", Box::new(g))),
    un(|g| AssertIfNot("an", Box::new(g))),
    un(|g| FatalIf("fi", Box::new(g))),
    un(|g| FatalIfNot("fn", Box::new(g))),
  ]
}
type Un2 = crate::gen::Un;

pub fn c08(deep: bool) -> Spaces {
  let d = deep;
  vec![
    GSpace::new(
      "fatal errors through every wrapper",
      vec![Panic("p"), FatalIf("f", Box::new(Eq("a"))), FatalIfNot("g", Box::new(Eq("b"))), Ref("Nope"), map(MapOk::Bare("m"), OnFail::Bare("n"), Eq("a"))],
      wrappers(),
      vec![],
      (1, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| g),
      un(|g| Prog(None, vec![opt(Re("[ab\n]")), g, Spy(1, Box::new(Re("[ab]+")))])),
      un(|g| Switch(None, vec![Eq("ab"), g, Spy(1, Box::new(Re("[ab]+")))])),
      un(|g| Loop(None, Rng::Default, vec![Re("[ab\n]"), g])),
    ])
    .keep(|g| !g.any(&|x| !matches!(x, Prog(..) | Switch(..) | Loop(..)) && x.kids().iter().any(|y| matches!(y, Pin(..)))))
    .file("f.txt")
    .fresh()
    .inputs(&["a", "b", "\n"], 2)
    .texts(&["aba", "bba", "\n\nb"])
    .parse()
    .done(),
    GSpace::new(
      "fatal errors in compositions",
      vec![
        Panic("p"),
        FatalIf("f", Box::new(Eq("a"))),
        FatalIfNot("g", Box::new(Re("[ab]"))),
        Spy(1, Box::new(Re("[ab]"))),
        Spy(2, Box::new(Eq("a"))),
        Ref("P1"),
        map(MapOk::Bare(""), OnFail::Pass, Eq("b")),
        Catch(OnFail::Bare("no range"), Box::new(Eq("a"))),
      ],
      vec![un(opt), un(not)],
      vec![
        nary(1, 3, p(None)),
        nary(1, 2, p(Some("P"))),
        nary(2, 2, sw(None)),
        nary(1, 2, l(None, Rng::Default)),
        nary(2, 2, l(None, Rng::From(2))),
      ],
      (1, q(4, 5, d)),
    )
    .env(vec![("P1", Prog(None, vec![Re("[ab\n]"), Panic("q")]))])
    .file("a/é")
    .inputs(&["a", "b", "\n"], q(3, 3, d))
    .parse()
    .done(),

    mix(
      "fatal errors in everything",
      vec![
        Panic("p"),
        Prog(None, vec![Re("[ab]"), Panic("q")]),
        FatalIf("f", Box::new(Prog(None, vec![disc(Eq("a")), Re("[ab]"), disc(Eq("b"))]))),
        FatalIf("s", Box::new(Seq("a", "b", "c"))),
        FatalIfNot("g", Box::new(Eq("b"))),
        Ref("Nope"),
        map(MapOk::Bare("m\n@[1:1-1:1]: n"), OnFail::Pass, Re("[ab]")),
      ],
      vec![un(|g| pin("..", g)), un(|g| pin("0..1", g)), un(|g| pin("..+2", g))],
      |g| g.any(&|x| matches!(x, Panic(_) | FatalIf(..) | FatalIfNot(..) | Ref(_) | Map(MapOk::Bare(_), ..))),
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(3, 4, d))
    .texts(&["aabb", "abab", "bbbab"])
    .done(),
    GSpace::new(
      "fatal errors late in a repetition",
      vec![Panic("p"), Ref("Nope"), FatalIf("f", Box::new(Eq("b"))), FatalIfNot("g", Box::new(Eq("a"))), FatalIf("h", Box::new(Prog(None, vec![Eq("b"), Error("e")])))],
      vec![un(opt), un(disc), un(flat), un(scope), un(|g| pin("..", g)), un(|g| Prog(None, vec![opt(Eq("b")), g])), un(|g| Switch(None, vec![Eq("b"), g])), un(|g| store("X", g))],
      vec![],
      (1, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| Loop(None, Rng::Default, vec![Switch(None, vec![Eq("a"), g])])),
      un(|g| Loop(Some("L"), Rng::Default, vec![opt(Eq("a")), Switch(None, vec![Eq("a"), Prog(None, vec![disc(Eq("b")), g])])])),
      un(|g| Loop(None, Rng::Default, vec![Loop(None, Rng::Incl(0, 2), vec![Re("a")]), Switch(None, vec![Eq("ba"), g])])),
      un(|g| Switch(None, vec![Prog(None, vec![Loop(None, Rng::Default, vec![Eq("a")]), g]), Re("[ab]*")])),
    ])
    .keep(pins_apart)
    .inputs(&["a", "b"], 3)
    .texts(&["aaaaab", "aaaaaaaaab", "babababab", "aabaabaab", "aaaaaaaaaaaaaaaaaaaac"])
    .parse()
    .done(),
  ]
}

// ------------------------------------------------------------------ C09

/// All windows of sources up to a length in bytes, the whole source included.
pub fn all_windows(max: usize) -> Vec<Option<(usize, usize)>> {
  let mut v = vec![None];
  for a in 0..=max {
    for b in a..=max {
      v.push(Some((a, b)));
    }
  }
  v
}

fn re_of(g: &G) -> S {
  match g {
    Re(s) => s,
    _ => unreachable!(),
  }
}

/// Regular expressions are enumerated as terms over their own operators.
fn regexes(name: &str, atoms: &[&str], flags: &[&'static str], max: usize) -> GSpace {
  fn rex(s: String) -> G {
    Re(leak(&s))
  }
  let s = GSpace::new(
    name,
    atoms.iter().map(|s| rex(s.to_string())).collect(),
    ["*", "+?", "?", "{2}", "??"]
      .into_iter()
      .map(|x| un(move |g| rex(format!("(?:{}){}", re_of(&g), x))))
      .collect(),
    vec![
      nary(2, 3, |v| rex(v.iter().map(|g| format!("(?:{})", re_of(g))).collect())),
      nary(2, 2, |v| rex(v.iter().map(re_of).collect::<Vec<_>>().join("|"))),
    ],
    (1, max),
  );
  let mut fr: Vec<crate::gen::Un> = vec![];
  for f in flags.to_vec() {
    fr.push(un(move |g| rex(format!("{}{}", f, re_of(&g)))));
    fr.push(un(move |g| Prog(None, vec![disc(Re("(?s).")), ReN("X", leak(&format!("{}{}", f, re_of(&g))))])));
  }
  s.frames(fr).keep(|g| !g.any(&|x| matches!(x, Re(p) | ReN(_, p) if !crate::model::rx(p).tame()
    // an end of a line before a beginning: the regex crate itself is unreliable there
    || matches!((p.find('$'), p.rfind('^')), (Some(a), Some(b)) if a < b))))
}

pub fn c09(deep: bool) -> Spaces {
  let d = deep;
  let lits: Vec<G> = crate::gen::strings(&["a", "b", "é", "\n"], 3).iter().map(|s| Eq(leak(s))).collect();
  vec![
    GSpace::new("all literals, all windows", lits, vec![], vec![], (1, 1))
      .frames(vec![
        un(|g| g),
        un(|g| match g {
          Eq(s) => EqN("X", s),
          g => g,
        }),
        un(|g| Prog(None, vec![disc(Re("[abé]")), g, opt(Re("[abé]"))])),
        un(|g| Prog(None, vec![Eq("é"), g])),
      ])
      .inputs(&["a", "b", "é", "\n"], q(4, 5, d))
      .windows(all_windows(q(7, 9, d)))
      .done(),
    regexes("all regular expressions of a size, all windows", &["a", "b", ".", "[^b]", "é"], &["", "(?i)"], q(4, 5, d))
      .inputs(&["a", "b", "é"], 3)
      .texts(&["aaaa", "abab", "baab", "aabb"])
      .windows(all_windows(4))
      .done(),
    regexes(
      "regular expressions with anchors, classes and line breaks",
      &["a", "^", "$", ".", "\\s", "[\\wé]", "B"],
      &["", "(?m)", "(?s)", "(?ims)", "(?U)"],
      q(3, 4, d),
    )
    .inputs(&["a", "b", "\n"], 3)
    .texts(&["aé", "é\na", "AbBA", "a b", " \t\na"])
    .windows(all_windows(4))
    .done(),
    GSpace::new(
      "terminals one after another",
      vec![Eq("a"), Eq("ab"), EqN("Q", "é"), Re("b*"), ReN("X", "[^a]"), Re("$"), Re("^"), Re("\\w"), Re("a|ab")],
      vec![],
      vec![nary(1, 3, p(None)), nary(2, 2, sw(None))],
      (2, q(4, 5, d)),
    )
    .inputs(&["a", "b", "é"], 4)
    .windows(vec![None, Some((1, 3)), Some((0, 2)), Some((2, 4))])
    .done(),

    regexes(
      "regular expressions with boundaries of words",
      &["\\b", "\\B", "a", ".", "\\W", "é"],
      &["", "(?i)"],
      q(3, 4, d),
    )
    .inputs(&["a", " ", "é"], q(3, 4, d))
    .texts(&["a-a_a", "aa a", " a a", "é_ é"])
    .windows(all_windows(5))
    .done(),
    mix(
      "terminals in everything",
      vec![EqN("T", "ab"), ReN("X", "\\bb|^a"), Re("[ab]$"), Re("a??b")],
      vec![],
      |_| true,
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(3, 4, d))
    .done(),
  ]
}

// ------------------------------------------------------------------ C10

pub fn c10(deep: bool) -> Spaces {
  let d = deep;
  let mut v: Spaces = vec![];
  let starts = ["'", "<<", "é"];
  let ends = ["'", ">>", "é", "xx", "xxy"];
  let escapes = ["", "\\", "^^", "ü", "%"];
  for s in starts {
    for e in ends {
      let mut leaves = vec![];
      let mut pieces: Vec<String> = vec![];
      let mut add = |t: &str| {
        for c in t.chars() {
          if !pieces.contains(&c.to_string()) {
            pieces.push(c.to_string())
          }
        }
      };
      add(s);
      add(e);
      for x in escapes {
        leaves.push(Seq(s, e, x));
        leaves.push(SeqN("Q", s, e, x));
      }
      add("a");
      for x in escapes {
        let mut p2 = pieces.clone();
        for c in x.chars() {
          if !p2.contains(&c.to_string()) {
            p2.push(c.to_string());
          }
        }
        let p2: Vec<&str> = p2.iter().map(|x| x.as_str()).collect();
        let n = match p2.len() {
          0..=3 => q(6, 8, d),
          4 => q(5, 7, d),
          _ => q(5, 6, d),
        };
        let mut inputs: Vec<String> = crate::gen::strings(&p2, n - 1).iter().map(|t| format!("{}{}", s, t)).collect();
        inputs.extend(crate::gen::strings(&p2, 3));
        let texts: Vec<&str> = inputs.iter().map(|x| x.as_str()).collect();
        v.push(
          GSpace::new(
            &format!("{} ... {} escaped by {:?}", s, e, x),
            vec![Seq(s, e, x), SeqN("Q", s, e, x)],
            vec![],
            vec![],
            (1, 1),
          )
          .frames(vec![
            un(|g| g),
            un(|g| Prog(None, vec![g, opt(Re("(?s).*"))])),
            un(|g| Loop(None, Rng::Default, vec![g])),
          ])
          .texts(&texts)
          .windows(vec![None])
          .done(),
        );
        let texts: Vec<&str> = texts.iter().filter(|t| t.len() <= 7).copied().collect();
        v.push(
          GSpace::new(
            &format!("{} ... {} escaped by {:?}, windows", s, e, x),
            vec![Seq(s, e, x)],
            vec![],
            vec![],
            (1, 1),
          )
          .texts(&texts)
          .windows(all_windows(7))
          .done(),
        );
      }
    }
  }
  // many escapes, long bodies
  let many = ["\\\\", "\\'", "a", "é"];
  let mut texts: Vec<String> = vec![];
  for t in crate::gen::strings(&many, q(6, 7, d)) {
    texts.push(format!("'{}'", t));
  }
  for n in [30, 255, 256, 257, 1000] {
    for t in ["\\'", "\\\\", "é", "a\\é"] {
      texts.push(format!("'{}'a'", t.repeat(n)));
      texts.push(format!("'{}", t.repeat(n)));
    }
  }
  let texts: Vec<&str> = texts.iter().map(|x| x.as_str()).collect();
  v.push(
    GSpace::new("many escapes", vec![Seq("'", "'", "\\"), SeqN("Q", "'", "'", "\\"), Seq("'", "'", "")], vec![], vec![], (1, 1))
      .frames(vec![un(|g| g), un(|g| Prog(None, vec![g, opt(Re("(?s).*"))]))])
      .texts(&texts)
      .done(),
  );
  v.push(
    mix(
      "delimited sequences in everything",
      vec![Seq("a", "b", ""), SeqN("Q", "a", "a", "b"), Seq("ab", "b", "a"), Loop(None, Rng::Default, vec![Seq("b", "a", "bb")])],
      vec![],
      |g| g.any(&|x| matches!(x, Seq(..) | SeqN(..))),
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(4, 5, d))
    .done(),
  );
  v
}

// ------------------------------------------------------------------ C12

pub fn c12(deep: bool) -> Spaces {
  let d = deep;
  vec![
    GSpace::new(
      "references and what they mean",
      vec![
        Ref("X"),
        Ref("Y"),
        RefN("Y", "X"),
        EqN("X", "a"),
        ReN("Y", "[ab]"),
        Register(vec![EqN("X", "b")]),
        Register(vec![EqN("Y", "a"), ReN("X", "b+")]),
        Re("[ab]"),
      ],
      vec![un(opt), un(scope)],
      vec![nary(2, 3, p(None)), nary(1, 2, p(Some("X"))), nary(2, 2, sw(Some("Y")))],
      (1, q(4, 5, d)),
    )
    .env(vec![("X", Eq("ab"))])
    .inputs(&["a", "b"], q(4, 4, d))
    .done(),
    GSpace::new(
      "references without a definition around them",
      vec![
        Ref("X"),
        Ref("Equals"),
        Ref("Program"),
        EqN("X", "a"),
        Eq("a"),
        Register(vec![Eq("b")]),
        Register(vec![Prog(None, vec![Eq("a"), Re("b*")])]),
        store("X", Re("b")),
        Disc(Box::new(ReN("X", "b"))),
      ],
      vec![un(opt), un(scope), un(|g| SetScopeDef(vec![("X", Eq("ab"))], Box::new(g)))],
      vec![nary(2, 3, p(None)), nary(1, 2, l(Some("X"), Rng::Default))],
      (1, q(4, 5, d)),
    )
    .fresh()
    .inputs(&["a", "b"], 4)
    .done(),
    GSpace::new(
      "references to the names that patterns have by default",
      vec![
        Eq("a"),
        Re("a"),
        Seq("a", "b", ""),
        Null,
        Error("e"),
        Break(""),
        Ref("X"),
        Register(vec![Eq("b")]),
        Register(vec![opt(Eq("a")), not(Eq("b")), disc(Eq("a")), scope(Eq("a"))]),
        Register(vec![expand(Eq("a")), Catch(OnFail::Skip0, Box::new(Eq("a"))), map(MapOk::Same, OnFail::Pass, Eq("a")), Debug(1, Box::new(Eq("a")))]),
        Register(vec![Null, Error("e"), Break(""), DebugNone(1), Ref("X"), Seq("a", "b", "")]),
        Pin0(None, "0"),
        DebugNone(1),
        Prog(None, vec![Eq("a")]),
        Switch(None, vec![Re("b*"), Eq("a")]),
        Loop(None, Rng::Default, vec![Eq("a")]),
      ],
      vec![
        un(opt),
        un(not),
        un(disc),
        un(flat),
        un(expand),
        un(scope),
        un(|g| Debug(1, Box::new(g))),
        un(|g| map(MapOk::Same, OnFail::Pass, g)),
        un(|g| Catch(OnFail::Skip0, Box::new(g))),
        un(|g| Pin(None, "+", Box::new(g))),
        un(|g| AssertIf("m", Box::new(g))),
      ],
      vec![],
      (1, q(2, 3, d)),
    )
    .frames(
      [
        "Equals", "Matches", "Sequence", "Null", "Error", "Break", "Ref", "Register", "Pin", "Optional", "Not", "Discard", "Flatten",
        "ProxyChildren", "Catch", "ExpandRange", "Debug", "SetScope", "Map", "Program", "Switch", "Loop", "Panic", "",
      ]
      .into_iter()
      .flat_map(|n| {
        [
          un(move |g| Prog(None, vec![opt(g), opt(Ref(n)), Re("b*")])),
          un(move |g| Loop(Some("L"), Rng::Default, vec![Switch(None, vec![Ref(n), g])])),
        ]
      })
      .collect(),
    )
    .fresh()
    .inputs(&["a", "b"], q(2, 3, d))
    .done(),
    GSpace::new(
      "recursive definitions",
      vec![Ref("X"), Ref("Y"), Eq("("), Eq(")"), Re("a")],
      vec![un(opt)],
      vec![nary(2, 3, p(None)), nary(2, 2, sw(None)), nary(1, 1, l(None, Rng::Default))],
      (2, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| SetScopeDef(vec![("X", g), ("Y", Prog(Some("Y"), vec![Eq("("), opt(Ref("X")), Eq(")")]))], Box::new(Ref("X")))),
      un(|g| SetScopeDef(vec![("X", Prog(Some("X"), vec![Eq("("), Ref("Y"), opt(Eq(")"))])), ("Y", g)], Box::new(Ref("X")))),
      un(|g| Prog(None, vec![Register(vec![Prog(Some("X"), vec![g, opt(Eq(")"))]), ReN("Y", "a+")]), Ref("X")])),
      un(|g| Prog(Some("X"), vec![Eq("("), opt(g), Eq(")")])),
    ])
    .fresh()
    .inputs(&["(", ")", "a"], q(4, 4, d))
    .texts(&["((()))", "((a)(a))", "(((((((a)))))))", "()()()", "(a(a(a)a)a)"])
    .done(),
    GSpace::new("definitions that nest deeply", vec![Re("a"), Null, Ref("Y"), Prog(None, vec![Eq("("), Ref("X"), Eq(")")])], vec![un(opt), un(disc), un(flat)], vec![nary(2, 2, sw(None))], (1, q(2, 3, d)))
      .frames(vec![
        un(|g| SetScopeDef(vec![("Y", Re("a*")), ("X", Prog(Some("X"), vec![Eq("("), Switch(None, vec![Ref("X"), g]), Eq(")")]))], Box::new(Ref("X")))),
        un(|g| SetScopeDef(vec![("Y", Re("[ab]")), ("X", Prog(None, vec![disc(Eq("(")), opt(Ref("X")), opt(g), Eq(")")]))], Box::new(Prog(None, vec![Ref("X"), opt(Ref("Y"))])))),
        un(|g| Prog(None, vec![Register(vec![Re("[ab]"), Prog(Some("X"), vec![Eq("("), Loop(None, Rng::Incl(0, 2), vec![Ref("X")]), opt(g), Eq(")")]), ReN("Y", "a")]), Ref("X"), opt(Ref("Y"))])),
      ])
      .keep(|g| !g.any(&|x| matches!(x, Switch(_, v) if v.iter().filter(|y| y.any(&|z| matches!(z, Prog(None, w) if w.len() == 3))).count() > 0)))
      .fresh()
      .depth(q(2500, 6000, d))
      .texts(&deep_texts(if d { &[40, 62, 63, 64, 65, 66, 100, 127, 128, 129, 256, 257, 600] } else { &[40, 62, 63, 64, 65, 66, 100, 127, 128, 129, 257] }))
      .parse()
      .done(),
    GSpace::new(
      "mutually recursive definitions of any depth",
      vec![Ref("X"), Ref("Y"), Eq("a"), Re("b"), Null],
      vec![un(opt)],
      vec![nary(2, 3, p(None)), nary(2, 2, sw(None))],
      (1, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| {
        SetScopeDef(
          vec![("X", Switch(None, vec![Prog(Some("X"), vec![Eq("a"), g]), Eq("b")])), ("Y", Prog(None, vec![Eq("b"), Switch(None, vec![Ref("X"), Re("b")])]))],
          Box::new(Prog(None, vec![Ref("X"), opt(Ref("Y"))])),
        )
      }),
    ])
    .fresh()
    .inputs(&["a", "b"], q(6, 7, d))
    .texts(&["aaaaaaaaaaaaaaab", "abababababababab"])
    .done(),

    mix(
      "references in everything",
      vec![Ref("X"), RefN("N", "Y"), RefN("X", "Nope"), Register(vec![EqN("X", "b")]), EqN("X", "ab"), Ref("L")],
      vec![un(|g| SetScopeDef(vec![("X", Re("b+")), ("Y", Eq("a"))], Box::new(g)))],
      |g| g.any(&|x| matches!(x, Ref(_) | RefN(..))),
      (1, q(4, 5, d)),
    )
    .env(vec![("X", Eq("a")), ("Y", Prog(None, vec![Eq("a"), opt(Eq("b"))]))])
    .inputs(&["a", "b"], q(3, 4, d))
    .done(),
  ]
}

/// Nested parentheses of these depths, whole and with an odd end.
fn deep_texts(depths: &[usize]) -> Vec<S> {
  depths
    .iter()
    .flat_map(|n| {
      let (o, c) = ("(".repeat(*n), ")".repeat(*n));
      [leak(&format!("{}{}", o, c)), leak(&format!("{}a{}a", o, c)), leak(&format!("{}{}b", o, &c[1..]))]
    })
    .collect()
}

// ------------------------------------------------------------------ C11 (grammars)

pub fn c11_grammars(deep: bool) -> Spaces {
  let d = deep;
  vec![
    GSpace::new(
      "scopes, definitions and lookups in grammars",
      vec![
        Ref("X"),
        Ref("Y"),
        Register(vec![EqN("X", "a")]),
        Register(vec![EqN("X", "b")]),
        Register(vec![EqN("Y", "b")]),
        Eq("c"),
      ],
      vec![
        un(scope),
        un(opt),
        un(|g| SetScopeDef(vec![("Y", Eq("a"))], Box::new(g))),
        un(|g| SetScopeDef(vec![], Box::new(g))),
        un(|g| Catch(OnFail::Skip0, Box::new(g))),
      ],
      vec![nary(1, 3, p(None))],
      (1, q(5, 6, d)),
    )
    .env(vec![("X", Eq("c"))])
    .keep(|g| g.any(&|x| matches!(x, SetScope(_) | SetScopeDef(..))))
    .fresh()
    .inputs(&["a", "b", "c"], q(2, 3, d))
    .done(),
    GSpace::new(
      "scopes ended by failures, errors and jumps",
      vec![
        Ref("X"),
        store("V", Re("[ab]")),
        EqVar("V.captured_value"),
        Register(vec![EqN("X", "b")]),
        Eq("a"),
        Panic("p"),
        Break(""),
        Cont(""),
      ],
      vec![un(scope), un(opt), un(|g| Catch(OnFail::Skip0, Box::new(g))), un(|g| SetScopeDef(vec![("X", Eq("a"))], Box::new(g)))],
      vec![nary(2, 3, p(None)), nary(1, 2, l(None, Rng::Default)), nary(2, 2, sw(None))],
      (2, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| Prog(None, vec![store("V", Re("[ab]")), Catch(OnFail::Skip0, Box::new(scope(g))), opt(EqVar("V.captured_value")), Ref("X")])),
      un(|g| Prog(None, vec![store("V", Re("[ab]")), Loop(None, Rng::Default, vec![scope(g), opt(Re("b"))]), EqVar("V.captured_value"), opt(Ref("X"))])),
    ])
    .env(vec![("X", Re("[ab]"))])
    .fresh()
    .inputs(&["a", "b"], q(3, 4, d))
    .done(),

    mix(
      "scopes in everything",
      vec![Ref("Y"), Register(vec![EqN("Y", "b")]), store("V", Re("[ab]")), EqVar("V.captured_value"), Panic("p")],
      vec![un(|g| SetScopeDef(vec![("Y", Eq("a"))], Box::new(g)))],
      |g| g.any(&|x| matches!(x, SetScope(_) | SetScopeDef(..))),
      (1, q(4, 5, d)),
    )
    .env(vec![("Y", Re("[ab]"))])
    .inputs(&["a", "b"], q(3, 4, d))
    .done(),
  ]
}

// ------------------------------------------------------------------ C13

pub fn c13(deep: bool) -> Spaces {
  let d = deep;
  vec![
    GSpace::new(
      "stored values used as literals",
      vec![
        store("V", Re("[ab]")),
        store("V", disc(Re("[ab]"))),
        store("W", Prog(None, vec![disc(Re("b")), Re("a"), disc(opt(Re("b")))])),
        StoreS("V", "ab"),
        EqVar("V"),
        EqVar("V.captured_value"),
        EqVar("V.matched_value"),
        EqVar("W.captured_value"),
        EqVar("W.matched_value"),
        Re("[ab]"),
      ],
      vec![un(opt), un(scope), un(|g| store("V", g))],
      vec![nary(2, 3, p(None))],
      (2, q(4, 5, d)),
    )
    .frames(vec![un(|g| g), un(|g| Prog(None, vec![StoreS("V", "a"), store("W", Re(".")), g, opt(EqVar("V"))])), un(|g| Prog(None, vec![store("V", Re(".")), opt(g), EqVar("V.captured_value")]))])
    .fresh()
    .inputs(&["a", "b"], q(4, 5, d))
    .done(),
    GSpace::new(
      "stored positions used as offsets",
      vec![
        PinVar("V.start", Box::new(Re("."))),
        PinVar("V.end", Box::new(Re(".+"))),
        PinVar("V.range", Box::new(Re(".+"))),
        PinVar("V.captured_range", Box::new(Re(".+"))),
        PinVar("V.captured_start", Box::new(Re(".+"))),
        PinVar("V.captured_end", Box::new(Re(".+"))),
        store("V", Re("é|[ab]")),
        store("V", Prog(None, vec![disc(Re("b")), Re("é"), opt(disc(Re("b")))])),
        store("V", Seq("b", "b", "a")),
        StoreS("V", "0..1"),
        PinVar("V", Box::new(Re(".+"))),
      ],
      vec![],
      vec![nary(2, q(4, 5, d), p(None)), nary(2, 2, sw(None))],
      (3, q(4, 5, d)),
    )
    .inputs(&["a", "b", "é"], q(4, 4, d))
    .texts(&["béb", "bébéa", "abéb", "bab", "bababb"])
    .done(),
    GSpace::new(
      "stored values used as delimiters and as references",
      vec![
        StoreS("S", "a"),
        StoreS("E", "b"),
        StoreS("C", "c"),
        store("S", Re("[abc]")),
        store("E", Re("[abc]")),
        SeqVar("S", "E", "C"),
        SeqVar("S.captured_value", "E.captured_value", "C"),
        SeqVar("S", "E.matched_value", "C"),
        StoreS("S", "X"),
        RefVar("S"),
      ],
      vec![un(opt)],
      vec![nary(2, 3, p(None))],
      (3, q(4, 5, d)),
    )
    .frames(vec![un(|g| Prog(None, vec![StoreS("C", "c"), StoreS("S", "b"), StoreS("E", "a"), g])), un(|g| Prog(None, vec![store("E", Re(".")), store("S", Re(".")), StoreS("C", ""), g]))])
    .env(vec![("X", Re("[ac]"))])
    .inputs(&["a", "b", "c"], q(5, 6, d))
    .done(),
    GSpace::new(
      "what storing patterns return, and failed attempts",
      vec![
        Re("[ab]"),
        Eq("a"),
        EqVar("V.captured_value"),
        Error("e"),
        map(MapOk::Skip, OnFail::Pass, Re("[ab]")),
        map(MapOk::Attr("__value", "b"), OnFail::Pass, Re("[ab]")),
        map(MapOk::Rename("R"), OnFail::Pass, Re("[ab]")),
        Null,
        disc(Eq("b")),
      ],
      vec![un(|g| store("V", g)), un(opt), un(flat), un(|g| Catch(OnFail::Skip0, Box::new(g)))],
      vec![nary(2, 2, p(None)), nary(2, 2, sw(None)), nary(1, 2, l(None, Rng::Default))],
      (2, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| Prog(None, vec![store("V", Re(".")), opt(g), opt(Re("c")), EqVar("V.captured_value")])),
      un(|g| Prog(None, vec![store("V", Re(".")), opt(g), opt(Re("c")), EqVar("V.matched_value")])),
      un(|g| Prog(None, vec![store("V", Re(".")), opt(g), opt(Re("c")), PinVar("V.captured_range", Box::new(Re(".+")))])),
    ])
    .inputs(&["a", "b"], q(4, 5, d))
    .texts(&["aaca", "abcb"])
    .done(),

    GSpace::new(
      "tokens that handlers changed, before and after they are stored",
      vec![Re("[ab]"), Re("ab?"), Prog(None, vec![disc(Re("a")), Re("[ab]")])],
      [
        MapOk::Val("b"),
        MapOk::CapText("b"),
        MapOk::MatText("b"),
        MapOk::CapEnd,
        MapOk::Attr("__value", "a"),
        MapOk::New("N"),
      ]
      .into_iter()
      .map(|h| un(move |g| map(h, OnFail::Pass, g)))
      .chain(vec![un(|g| store("V", g)), un(opt)])
      .collect(),
      vec![],
      (2, 4),
    )
    .frames(
      ["captured_value", "matched_value"]
        .into_iter()
        .map(|n| leak(&format!("V.{n}")))
        .map(|n| un(move |g| Prog(None, vec![store("V", g), EqVar(n), opt(Re(".+"))])))
        .chain(
          ["start", "end", "captured_start", "captured_end", "range", "captured_range"]
            .into_iter()
            .map(|n| leak(&format!("V.{n}")))
            .map(|n| un(move |g| Prog(None, vec![store("V", g), PinVar(n, Box::new(Re(".+")))]))),
        )
        .collect(),
    )
    .inputs(&["a", "b"], q(4, 5, d))
    .done(),
    mix(
      "stored values in everything",
      vec![
        store("V", Re("[ab]")),
        StoreS("V", "a"),
        store("V", map(MapOk::Attr("__value", "b"), OnFail::Pass, Re("[ab]"))),
        EqVar("V"),
        EqVar("V.captured_value"),
        EqVar("V.matched_value"),
        PinVar("V.range", Box::new(Re(".+"))),
      ],
      vec![un(|g| store("V", g))],
      |g| g.any(&|x| matches!(x, EqVar(_) | PinVar(..))),
      (1, q(4, 5, d)),
    )
    .frames(vec![
      un(|g| Prog(None, vec![store("V", Re(".")), opt(g), EqVar("V.captured_value")])),
      un(|g| Loop(None, Rng::Default, vec![store("V", Re("[ab]")), g])),
    ])
    .inputs(&["a", "b"], q(4, 5, d))
    .done(),
  ]
}

// ------------------------------------------------------------------ C14

pub fn offsets() -> Vec<S> {
  let one = ["", "+", "-", "+0", "-0", "+1", "+2", "-1", "-2", "0", "1", "2", "4", "99"];
  let wide = ["00", "02", "010", "+010", "-010", "08", "+08", "-08", "0000000000000000000000000000007", "+007", "-002"];
  let mut v = vec![];
  for a in one {
    v.push(leak(a));
    for b in one {
      v.push(leak(&format!("{}..{}", a, b)));
    }
  }
  for a in wide {
    v.push(leak(a));
    for b in ["", "0", "+", "-"] {
      v.push(leak(&format!("{}..{}", a, b)));
      v.push(leak(&format!("{}..{}", b, a)));
    }
  }
  v
}

pub fn c14(deep: bool) -> Spaces {
  let d = deep;
  let pins: Vec<crate::gen::Un> = offsets().into_iter().map(|o| un(move |g| Pin(None, o, Box::new(g)))).collect();
  let named: Vec<crate::gen::Un> = offsets().into_iter().map(|o| un(move |g| Pin(Some("X"), o, Box::new(g)))).collect();
  let blank: Vec<G> = offsets()
    .into_iter()
    .flat_map(|o| vec![Pin0(None, o), Pin0(Some("X"), o)])
    .collect();
  let inner = || {
    vec![
      Re("(?s).*"),
      Re("."),
      Eq("a"),
      Eq("éa"),
      Prog(None, vec![Re("."), Re(".")]),
      Prog(Some("P"), vec![disc(Re(".")), Re(".+")]),
      Loop(None, Rng::Default, vec![Re("[aé]")]),
    ]
  };
  let frames = || {
    vec![
      un(|g| g),
      un(|g| Prog(None, vec![Re("."), g, opt(Re(".+"))])),
      un(|g| Prog(None, vec![g, Re(".")])),
      un(|g| Loop(None, Rng::Default, vec![g, Re(".")])),
      un(|g| Switch(None, vec![g, Re(".")])),
      un(|g| Prog(None, vec![disc(Re("..")), opt(Eq("a")), Switch(None, vec![g, Eq("a")]), opt(Re("."))])),
    ]
  };
  vec![
    GSpace::new("all offsets", inner(), pins, vec![], (2, 2))
      .frames(frames())
      .inputs(&["a", "é"], q(4, 5, d))
      .windows(vec![None, Some((1, 3)), Some((2, 6))])
      .done(),
    GSpace::new("all offsets, named", inner(), named, vec![], (2, 2))
      .frames(vec![un(|g| Prog(None, vec![Re("."), g, opt(Re(".+"))])), un(|g| Loop(Some("X"), Rng::Incl(0, 3), vec![g, Re(".")]))])
      .inputs(&["a", "é"], 4)
      .parse()
      .done(),
    GSpace::new("marks", blank, vec![], vec![], (1, 1))
      .frames(frames())
      .inputs(&["a", "é"], q(4, 5, d))
      .windows(vec![None, Some((1, 3))])
      .done(),
    GSpace::new(
      "pins inside of pins and of compositions",
      vec![Re("."), Eq("a"), Re("é*"), Error("e")],
      ["0", "+1", "-1", "1..3", "+0..+2", "..-1", "3"]
        .into_iter()
        .map(|o| un(move |g| Pin(None, o, Box::new(g))))
        .collect(),
      vec![nary(2, 2, p(None)), nary(1, 1, l(None, Rng::Default)), nary(2, 2, sw(None))],
      (3, q(4, 5, d)),
    )
    .keep(|g| g.any(&|x| matches!(x, Pin(..))))
    .inputs(&["a", "é"], q(4, 4, d))
    .parse()
    .done(),

    mix(
      "pins in everything",
      vec![Pin0(None, "+1"), Pin0(Some("M"), "..+1"), pin("0..2", Re(".+")), pin("-1", Re("."))],
      vec![un(|g| Pin(Some("N"), "..", Box::new(g))), un(|g| pin("1", g))],
      |g| g.any(&|x| matches!(x, Pin0(..) | Pin(..))),
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(4, 4, d))
    .done(),
  ]
}

// ------------------------------------------------------------------ C19

const LEVELS: [usize; 9] = [0, 1, 8, 9, 10, 16, 100, 256, usize::MAX];

pub fn c19(deep: bool) -> Spaces {
  let d = deep;
  let mut un3: Vec<crate::gen::Un> = vec![];
  for m in 0..4 {
    un3.push(un(move |g| Debug(m, Box::new(g))));
  }
  let mut leaves: Vec<G> = vec![Eq("é"), Re("[a\n]+"), Seq("é", "é", "\n"), Error("e"), Panic("p"), Break(""), pin("0", Re("."))];
  leaves.extend([DebugNone(1), DebugNone(3), Lvl(1)]);
  vec![
    GSpace::new(
      "debug patterns of every level around everything",
      leaves,
      {
        un3.push(un(opt));
        un3.push(un(disc));
        un3
      },
      vec![nary(1, 2, p(None)), nary(1, 2, l(None, Rng::Default)), nary(2, 2, sw(None))],
      (1, q(4, 4, d)),
    )
    .keep(|g| g.any(&|x| matches!(x, Debug(..) | DebugNone(_) | Lvl(_))) && !g.any(&|x| matches!(x, Opt(p) | Disc(p) if !p.is_consuming() || p.any(&|y| matches!(y, Pin(..))))))
    .inputs(&["a", "é", "\n"], 2)
    .texts(&["é\né", "éa\n\né", "aaaaaaaaaéé", "ééééééa", "aéééééé"])
    .parse()
    .done(),
    GSpace::new(
      "debug patterns around every kind of wrapper",
      vec![Re("[aé]"), Lvl(1), Ref("X"), AssertIf("m", Box::new(Eq("é"))), Register(vec![EqN("X", "é")]), Prog(Some("X"), vec![Eq("a"), Lvl(2)])],
      vec![
        un(|g| Debug(1, Box::new(g))),
        un(|g| Debug(3, Box::new(g))),
        un(not),
        un(flat),
        un(expand),
        un(scope),
        un(|g| store("V", g)),
        un(|g| map(MapOk::Same, OnFail::Pass, g)),
        un(|g| Catch(OnFail::Skip0, Box::new(g))),
      ],
      vec![nary(2, 3, p(None)), nary(2, 2, sw(None))],
      (2, q(4, 5, d)),
    )
    .keep(|g| g.any(&|x| matches!(x, Debug(..))))
    .env(vec![("X", Prog(None, vec![Re("."), Lvl(3)]))])
    .inputs(&["a", "é"], 3)
    .texts(&["aaaaaaaaaéé"])
    .done(),

    GSpace::new(
      "unusual levels of debug output",
      vec![
        Lvl(1),
        Eq("a"),
        Prog(Some("P"), vec![disc(Eq("a")), Re("[ab]")]),
        flat(Prog(None, vec![Re("[ab]"), Eq("b")])),
        Loop(Some("L"), Rng::Incl(1, 2), vec![flat(Loop(None, Rng::Default, vec![Eq("b")])), Eq("a")]),
        Prog(None, vec![Re("[ab]"), Lvl(2), AssertIf("m", Box::new(Eq("a")))]),
        store("V", Re("b")),
        Panic("p"),
      ],
      {
        let mut v: Vec<crate::gen::Un> = LEVELS.iter().map(|m| un(move |g| Debug(*m, Box::new(g)))).collect();
        v.extend([un(disc), un(flat), un(opt)]);
        v
      },
      vec![nary(2, 2, p(None)), nary(2, 2, sw(None))],
      (1, q(3, 3, d)),
    )
    .frames(LEVELS.iter().map(|m| un(move |g| Debug(*m, Box::new(g)))).chain([un(|g| g)]).collect())
    .inputs(&["a", "b"], 3)
    .parse()
    .done(),
    mix(
      "debug patterns in everything",
      vec![Lvl(1), DebugNone(2), Debug(1, Box::new(Prog(None, vec![Eq("a"), Break("")]))), Error("e"), Panic("p")],
      vec![un(|g| Debug(3, Box::new(g))), un(|g| Debug(0, Box::new(g)))],
      |g| g.any(&|x| matches!(x, Debug(..) | DebugNone(_))),
      (1, q(4, 4, d)),
    )
    .inputs(&["a", "b"], q(2, 3, d))
    .texts(&["aaaaaaaaaaaab", "abbababbbbbb"])
    .parse()
    .done(),
    GSpace::new(
      "every level of debug output for every outcome and text",
      vec![
        Eq("é'"),
        Eq("𝄞"),
        Re("[^']*"),
        Re("'+"),
        Seq("'", "'", "\\"),
        Seq("'", "é", ""),
        Error("e"),
        Panic("p"),
        pin("+1", Re("[^']+")),
        Break(""),
        Cont(""),
        Null,
      ],
      vec![un(disc), un(flat), un(opt)],
      vec![nary(2, 2, p(None)), nary(2, 2, sw(None)), nary(1, 2, l(Some("L"), Rng::Incl(0, 2)))],
      (1, q(3, 3, d)),
    )
    .keep(|g| matches!(g, Debug(_, x) if pins_apart(x)))
    .frames((0..8).map(|n| un(move |g| Debug(n, Box::new(g)))).collect())
    .inputs(&["'", "é", "𝄞", "\\"], q(3, 4, d))
    .texts(&["'é𝄞é𝄞é𝄞é𝄞é'", "ééééé𝄞𝄞𝄞", "'\r\n\t'é"])
    .parse()
    .done(),
    GSpace::new(
      "every level of debug output around every part",
      vec![Eq("a"), Re("b*"), Error("e")],
      {
        let mut v: Vec<crate::gen::Un> = (4..7).map(|n| un(move |g| Debug(n, Box::new(g)))).collect();
        v.extend([un(disc), un(flat), un(opt)]);
        v
      },
      vec![nary(1, 3, p(None)), nary(2, 2, sw(None)), nary(1, 2, l(Some("L"), Rng::Default))],
      (2, q(4, 5, d)),
    )
    .keep(|g| g.any(&|x| matches!(x, Debug(..))))
    .inputs(&["a", "b"], 3)
    .parse()
    .done(),
  ]
}

// ------------------------------------------------------------------ C24

pub fn c24(deep: bool) -> Spaces {
  let d = deep;
  let oks = [
    MapOk::Same,
    MapOk::Rename("R"),
    MapOk::Attr("k", "v"),
    MapOk::Skip,
    MapOk::Skip0,
    MapOk::Fail,
    MapOk::Err("h"),
    MapOk::Bare("bare"),
    MapOk::Flatten,
    MapOk::Break(""),
    MapOk::Continue("L"),
    MapOk::New("N"),
    MapOk::Val("v"),
    MapOk::CapText("t"),
    MapOk::MatText("t"),
    MapOk::CapEnd,
  ];
  let fails = [
    OnFail::Pass,
    OnFail::Skip0,
    OnFail::Err("h2"),
    OnFail::Bare("bare"),
    OnFail::Fail,
    OnFail::ErrTok("h3"),
    OnFail::Break("L"),
    OnFail::Continue(""),
  ];
  let mut all: Vec<crate::gen::Un> = vec![];
  for a in oks {
    for b in fails {
      all.push(un(move |g| map(a, b, g)));
    }
  }
  for b in fails {
    all.push(un(move |g| Catch(b, Box::new(g))));
  }
  let asserts = || -> Vec<crate::gen::Un> {
    vec![
      un(|g| AssertIf("ai", Box::new(g))),
      un(|g| AssertIfNot("an", Box::new(g))),
      un(|g| FatalIf("fi", Box::new(g))),
      un(|g| FatalIfNot("fn", Box::new(g))),
    ]
  };
  let frames = || {
    vec![
      un(|g| g),
      un(|g| Prog(None, vec![Re("[ab]"), g, opt(Re("[ab]"))])),
      un(|g| Loop(Some("L"), Rng::Default, vec![Re("[ab]"), g])),
      un(|g| Switch(None, vec![g, Re("[ab]")])),
    ]
  };
  let inner = || {
    vec![
      Eq("a"),
      Re("b*"),
      Null,
      Error("e"),
      Panic("p"),
      Break(""),
      Prog(Some("P"), vec![disc(Eq("a")), Re("[ab]")]),
      flat(Prog(None, vec![Re("[ab]"), Re("[ab]")])),
      disc(Eq("b")),
      Ref("Nope"),
    ]
  };
  let mut few: Vec<crate::gen::Un> = vec![
    un(|g| map(MapOk::Rename("R"), OnFail::Skip0, g)),
    un(|g| map(MapOk::New("N"), OnFail::ErrTok("h"), g)),
    un(|g| map(MapOk::Fail, OnFail::Fail, g)),
    un(|g| Catch(OnFail::Skip0, Box::new(g))),
    un(|g| Catch(OnFail::Err("h"), Box::new(g))),
    un(opt),
  ];
  few.extend(asserts());
  vec![
    GSpace::new("every handler on every outcome", inner(), all, vec![], (2, q(2, 3, d)))
      .frames(frames())
      .styles(&[Macros, Functions])
      .inputs(&["a", "b"], 3)
      .parse()
      .done(),
    GSpace::new("assertions on every outcome", inner(), asserts(), vec![], (2, q(3, 4, d)))
      .frames(frames())
      .file("f")
      .inputs(&["a", "b", "\n"], 3)
      .parse()
      .done(),
    GSpace::new(
      "handlers inside of compositions and of handlers",
      vec![Eq("a"), Re("[ab]"), Error("e"), Panic("p"), Re("b*")],
      few,
      vec![nary(2, 2, p(None)), nary(2, 2, sw(None)), nary(1, 1, l(None, Rng::Default))],
      (3, q(4, 5, d)),
    )
    .inputs(&["a", "b"], 3)
    .done(),

    mix(
      "handlers in everything",
      vec![Error("e"), Panic("p"), Break(""), flat(Prog(None, vec![Re("[ab]"), Re("[ab]")])), Eq("a")],
      vec![
        un(|g| map(MapOk::Attr("k", "v"), OnFail::Fail, g)),
        un(|g| map(MapOk::New("N"), OnFail::ErrTok("h"), g)),
        un(|g| map(MapOk::Fail, OnFail::Break(""), g)),
        un(|g| map(MapOk::Flatten, OnFail::Err("h"), g)),
        un(|g| Catch(OnFail::Skip0, Box::new(g))),
        un(|g| Catch(OnFail::Err("h"), Box::new(g))),
      ],
      |g| g.any(&|x| matches!(x, Map(..) | Catch(..) | AssertIf(..) | AssertIfNot(..) | FatalIf(..) | FatalIfNot(..))),
      (1, q(4, 4, d)),
    )
    .inputs(&["a", "b"], q(2, 3, d))
    .texts(&["aba", "abb", "bba"])
    .parse()
    .done(),
  ]
}

// ------------------------------------------------------------------ C25

pub fn c25(deep: bool) -> Spaces {
  let d = deep;
  vec![
    GSpace::new(
      "flattened and expanded patterns",
      vec![Eq("a"), disc(Eq("b")), Re("[ab]"), opt(Eq("b")), Error("e")],
      vec![un(flat), un(expand), un(|g| FlatN("X", Box::new(g)))],
      vec![nary(1, 3, p(None)), nary(1, 2, l(None, Rng::Default)), nary(2, 2, sw(None))],
      (2, q(5, 6, d)),
    )
    .keep(|g| g.any(&|x| matches!(x, Flat(_) | FlatN(..) | Expand(_))))
    .inputs(&["a", "b"], q(3, 4, d))
    .done(),
    GSpace::new(
      "flattening jumps, failures, errors and values",
      vec![
        Break(""),
        Cont("L"),
        Panic("p"),
        Seq("a", "b", "c"),
        map(MapOk::Attr("__value", "v"), OnFail::Pass, Prog(None, vec![Re("a"), Re("b")])),
        map(MapOk::Break(""), OnFail::Pass, Prog(None, vec![Re("a"), Re("b")])),
        Prog(Some("P"), vec![disc(Eq("a")), Re("[ab]"), disc(Eq("b"))]),
        Re("a"),
      ],
      vec![un(flat), un(expand), un(opt), un(disc)],
      vec![nary(2, 2, p(None)), nary(1, 2, l(Some("L"), Rng::Default)), nary(2, 2, sw(None))],
      (2, q(4, 5, d)),
    )
    .keep(|g| g.any(&|x| matches!(x, Flat(_) | FlatN(..) | Expand(_))))
    .inputs(&["a", "b"], q(4, 4, d))
    .texts(&["acbb", "abaabb", "aabaab"])
    .parse()
    .done(),

    mix(
      "flattened patterns in everything",
      vec![flat(Prog(None, vec![Re("[ab]"), Re("[ab]")])), Prog(Some("P"), vec![Eq("a"), Break("")]), Prog(None, vec![Eq("a"), Eq("b"), Cont("")])],
      vec![un(|g| FlatN("F", Box::new(g)))],
      |g| g.any(&|x| matches!(x, Flat(_) | FlatN(..) | Expand(_))),
      (1, q(4, 5, d)),
    )
    .inputs(&["a", "b"], q(4, 4, d))
    .done(),
    GSpace::new(
      "flattening many children",
      vec![
        flat(Loop(None, Rng::Default, vec![Re("[ab]")])),
        flat(Loop(None, Rng::Incl(1, 3), vec![Re("[ab]")])),
        flat(Prog(None, vec![Eq("a"), Eq("b"), Eq("a")])),
        flat(Prog(None, vec![disc(Eq("a")), Eq("b"), disc(Eq("b"))])),
        Re("[ab]"),
        opt(Eq("b")),
      ],
      vec![un(flat)],
      vec![nary(1, 3, p(None)), nary(1, 2, l(None, Rng::Default))],
      (2, q(5, 6, d)),
    )
    .inputs(&["a", "b"], 3)
    .texts(&["abaabaabaaba", "aabaaabab", "abbabbabb", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"])
    .done(),
  ]
}

// ------------------------------------------------------------------ C28

pub fn c28_windows(deep: bool) -> Spaces {
  let d = deep;
  vec![
    mix(
      "everything in every window",
      vec![Ref("Z"), Re("b$"), Re("^a"), Seq("a", "b", ""), Error("e"), Panic("p"), Break("")],
      vec![],
      |_| true,
      (1, q(3, 4, d)),
    )
    .env(vec![("Z", Prog(Some("Y"), vec![Eq("b"), opt(Ref("Y"))]))])
    .inputs(&["a", "b"], q(2, 3, d))
    .windows(all_windows(q(2, 3, d)))
    .parse()
    .done(),
    mix("short terms in every window of longer sources", vec![Re("é"), Re("$"), Re("\\b"), Seq("a", "é", "b"), Error("e")], vec![], |_| true, (1, q(3, 3, d)))
      .inputs(&["a", "é", "\n"], q(3, 4, d))
      .windows(all_windows(q(6, 8, d)))
      .parse()
      .done(),
    GSpace::new(
      "windows of larger grammars",
      vec![Re("[ab]+"), Eq("a"), Re("b$"), Null],
      vec![un(opt), un(disc), un(not)],
      vec![nary(1, 2, p(None)), nary(2, 2, sw(None)), nary(1, 2, l(None, Rng::Default))],
      (3, q(5, 6, d)),
    )
    .texts(&["aabb", "abab"])
    .windows(all_windows(4))
    .done(),
  ]
}

// ------------------------------------------------------------------ C29

pub fn c29(deep: bool) -> Spaces {
  let d = deep;
  let watched = || un(|g: G| g.watched());
  let in_frames = || {
    vec![
      watched(),
      un(|g| Prog(None, vec![Re("[ab]"), g, opt(Re("[ab]+"))]).watched()),
      un(|g| Loop(Some("L"), Rng::Default, vec![Re("[ab]"), g]).watched()),
      un(|g| Loop(None, Rng::Default, vec![Switch(None, vec![g, Re("[ab]")]), opt(Eq("b"))]).watched()),
    ]
  };
  vec![
    GSpace::new(
      "every part of sequences, choices and repetitions watched",
      vec![Eq("a"), Re("[ab]"), Re("a*"), disc(Eq("b")), Break(""), Cont(""), Error("e"), Panic("p")],
      vec![un(opt), un(not), un(disc), un(flat)],
      vec![
        nary(1, 3, p(None)),
        nary(1, 3, sw(None)),
        nary(1, 2, l(None, Rng::Default)),
        nary(1, 2, l(None, Rng::Incl(1, 2))),
        nary(1, 1, l(None, Rng::From(2))),
      ],
      (1, q(4, 5, d)),
    )
    .frames(vec![watched()])
    .inputs(&["a", "b"], q(3, 4, d))
    .parse()
    .done(),
    mix("every part of every kind watched", vec![Break("L"), Cont("L"), Error("e"), Panic("p"), Ref("X"), EqN("X", "b"), Null, Seq("a", "b", "")], vec![], |_| true, (1, q(3, 4, d)))
      .frames(in_frames())
      .inputs(&["a", "b"], 3)
      .texts(&["aabb", "abab"])
      .done(),
    mix("parts that leave their context in disorder", vec![Break("L"), Error("e"), Panic("p"), Ref("X"), EqN("X", "b"), Seq("a", "b", "")], vec![un(|g| Debug(2, Box::new(g)))], |g| !g.any(&|x| matches!(x, Map(..) | Catch(..) | AssertIf(..) | AssertIfNot(..) | FatalIf(..) | FatalIfNot(..))), (1, q(3, 4, d)))
      .frames(vec![un(|g| g.messed()), un(|g| Prog(None, vec![Re("[ab]"), g, opt(Re("[ab]+"))]).messed()), un(|g| Loop(Some("L"), Rng::Default, vec![Re("[ab]"), g]).messed())])
      .inputs(&["a", "b"], 3)
      .texts(&["aabb", "abab"])
      .done(),
    GSpace::new(
      "watched parts in windows",
      vec![Eq("a"), Re("[ab]+"), Re("(?s).$"), Eq("é"), Ref("X"), EqN("X", "b"), pin("1", Re("."))],
      vec![un(opt), un(scope), un(|g| Debug(1, Box::new(g))), un(|g| Catch(OnFail::Pass, Box::new(g)))],
      vec![nary(1, 2, p(None)), nary(1, 2, sw(Some("P"))), nary(1, 2, l(None, Rng::Default))],
      (1, q(4, 5, d)),
    )
    .frames(vec![watched()])
    .keep(pins_apart)
    .inputs(&["a", "b", "é"], 3)
    .texts(&["abab"])
    .windows(vec![None, Some((0, 2)), Some((1, 3)), Some((2, 3)), Some((1, 1))])
    .done(),
    GSpace::new("every part of long parses watched", vec![Re("[ab]"), Eq("ab"), opt(Eq("b")), Prog(None, vec![Eq("a"), Eq("b")]), Switch(None, vec![Eq("bb"), Re("a")]), Break("")], vec![], vec![nary(1, 2, l(None, Rng::Default)), nary(2, 2, p(None)), nary(2, 2, sw(None))], (1, q(4, 5, d)))
      .frames(vec![
        watched(),
        un(|g| Loop(None, Rng::Default, vec![g]).watched()),
        un(|g| Prog(None, vec![Loop(None, Rng::Incl(3, 60), vec![g]), Re("b")]).watched()),
        un(|g| {
          let mut x = g;
          for i in 0..20 {
            x = match i % 3 {
              0 => Prog(None, vec![x, opt(Eq("b"))]),
              1 => Switch(None, vec![Eq("aaaa"), x]),
              _ => opt(x),
            };
          }
          x.watched()
        }),
      ])
      .styles(&[Style::Functions, Style::Added])
      .texts(&["", long("a", 70), long("ab", 40), long("b", 20), long("aab", 30)])
      .done(),
  ]
}
