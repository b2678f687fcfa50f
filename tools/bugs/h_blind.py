M = 'src/matchers/'
# Written from the statements of the properties alone.
bug('c01-same-name', 'C01', 'a named sequence whose only captured part is a sequence of the same name and extent',
  'A sequence with a single captured part of its own name and range is replaced by that part.',
  [(M+'program.rs', '''  {
    let mut program_token = program_token.borrow_mut();
    program_token.set_children(children);''', '''  if children.len() == 1 && iterate_range.is_none() {
    let only = children[0].clone();
    let same = *only.borrow().get_name() == *program_token.borrow().get_name()
      && *only.borrow().get_matched_range() == matched_range
      && !only.borrow().get_children().is_empty();
    if same {
      only.borrow_mut().set_parent(None);
      return Ok(MatcherSuccess::Token(only));
    }
  }

  {
    let mut program_token = program_token.borrow_mut();
    program_token.set_children(children.clone());''')],
  r'''
  let t = parse("ab", &Program!("P"; Program!("P"; Equals!("a"), Equals!("b")))).unwrap();
  assert_eq!(t.borrow().get_children().len(), 1);
''')
bug('c02-empty-jump', 'C02', 'an alternative that jumps without having matched anything and is not the last one',
  'A choice goes on to the next alternative when one breaks out of a loop without having matched anything.',
  [(M+'program.rs', '''              iteration_result = Some(success);
              break;''', '''              let passed = !is_loop
                && matches!(self.on_first_match, MatchAction::Stop)
                && matches!(&success, MatcherSuccess::Break((_, data)) if matches!(**data, MatcherSuccess::None));
              iteration_result = iteration_result.or(Some(success));
              if !passed {
                break;
              }''')],
  r'''
  let m = Loop!(Equals!("a"), Switch!(Equals!("x"), Equals!("y"), Break!(), Equals!("b")));
  let t = parse("abab", &m).unwrap();
  assert_eq!(t.borrow().get_matched_range().end, 1);
''')
bug('c03-wide-maximum', 'C03', 'a repetition with a maximum of more than 65535',
  'The maximum of a repetition counts modulo 65536.',
  [(M+'program.rs', '      Some(range) => range.clone(),', '      Some(range) => range.start..if range.end == usize::MAX { range.end } else { range.end & 0xffff },')],
  r'''
  assert!(parse("aaa", &Loop!(0..65538; Equals!("a"))).unwrap().borrow().get_children().len() == 3);
''')
bug('c05-case', 'C05', 'a named break and repetitions whose names differ by case only',
  'A named break is taken by a repetition whose name differs in case.',
  [(M+'program.rs', '''            if is_loop && (loop_name == self.name || loop_name == "") {
              if sub''', '''            if is_loop && (loop_name.eq_ignore_ascii_case(&self.name) || loop_name == "") {
              if sub''')],
  r'''
  let m = Loop!("ROW"; Loop!("row"; Equals!("a"), Break!("ROW")), Equals!("b"));
  let t = parse("abab", &m).unwrap();
  assert_eq!(t.borrow().get_matched_range().end, 1);
''')
bug('c08-range-added', 'C08', 'a fatal error without a range',
  'A fatal error without a range gets the range of the sequence it passes.',
  [(M+'program.rs', '''              MatcherFailure::Error(error) => {
                return Err(MatcherFailure::Error(error));
              }''', '''              MatcherFailure::Error(mut error) => {
                if error.range.is_none() {
                  error.range = Some(SourceRange::new(start_offset, sub_context.offset.start));
                }

                return Err(MatcherFailure::Error(error));
              }''')],
  r'''
  let m = Program!(Equals!("a"), Ref!("nowhere"));
  match parse("ab", &m) {
    Err(MatcherFailure::Error(e)) => assert!(e.range.is_none()),
    _ => panic!(),
  }
''')
bug('c09-long-literal', 'C09', 'a literal of more than 64 bytes',
  'Only the first 64 bytes of a literal are compared.',
  [('src/parser_context.rs', '''    let chunk = &self.parser.borrow().source[self.offset.start..self.offset.end];

    if chunk.starts_with(pattern) {
      Some(self.offset''', '''    let parser = self.parser.borrow();
    let chunk = &parser.source[self.offset.start..self.offset.end];
    let start = pattern.get(..64).unwrap_or(pattern);

    if chunk.len() >= pattern.len() && chunk.is_char_boundary(pattern.len()) && chunk.starts_with(start) {
      Some(self.offset''')],
  r'''
  let (a, b) = ("a".repeat(70), "a".repeat(69) + "b");
  assert!(parse(&b, &Program!(Equals!(a.clone()))).is_err());
''')
bug('c11-case', 'C11', 'two names that differ by case only',
  'Names in a scope are not case sensitive.',
  [('src/scope.rs', 'self.references.get(name)', 'self.references.get(name).or_else(|| self.references.iter().find(|r| r.0.eq_ignore_ascii_case(name)).map(|r| r.1))')],
  r'''
  let m = Program!(Register!(Equals!("X"; "a")), SetScope!(Program!(Store!("x"; Equals!("b")), Ref!("X"))));
  assert!(parse("ba", &m).is_ok());
''')
bug('c12-depth', 'C12', 'a recursive reference that is nested more than 64 deep',
  'References fail below a depth of 64.',
  [(M+'ref.rs', '''        if let Some(VariableType::Matcher(ref matcher)) = possible_matcher {
          matcher
            .borrow()
            .exec(matcher.clone(), sub_context, scope.clone())''', '''        if let Some(VariableType::Matcher(ref matcher)) = possible_matcher {
          thread_local! {
            static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);
          }
          let depth = DEPTH.with(|depth| depth.replace(depth.get() + 1));
          let result = if depth < 64 {
            matcher
              .borrow()
              .exec(matcher.clone(), sub_context, scope.clone())
          } else {
            Err(MatcherFailure::Fail)
          };
          DEPTH.with(|depth| depth.set(depth.get() - 1));
          result''')],
  r'''
  let m = Program!("P"; Equals!("("), Optional!(Ref!("P")), Equals!(")"));
  for n in [1, 60, 100] {
    let s = "(".repeat(n) + &")".repeat(n);
    assert_eq!(parse(&s, &m).map_or(0, |t| t.borrow().get_matched_range().end), 2 * n);
  }
''')
bug('c15-nested-parse', 'C15', 'a handler that parses something else during a parse',
  'Errors are only moved to the root of a parse when no other parse is going on.',
  [('src/parser_context.rs', '''    let scope = context.borrow().scope.clone();

    match matcher
      .borrow()
      .exec(matcher.clone(), context.clone(), scope)
    {
      Ok(success) => match success {
        MatcherSuccess::Token(ref token) => {
          Self::collect_errors(token.clone(), token.clone(), true);
          return Ok(token.clone());
        }
        MatcherSuccess::ProxyChildren(token) => {''', '''    let scope = context.borrow().scope.clone();
    thread_local! {
      static ACTIVE: std::cell::Cell<usize> = std::cell::Cell::new(0);
    }
    ACTIVE.with(|active| active.set(active.get() + 1));
    let result = matcher
      .borrow()
      .exec(matcher.clone(), context.clone(), scope);
    let active = ACTIVE.with(|active| active.replace(active.get() - 1));

    match result {
      Ok(success) => match success {
        MatcherSuccess::Token(ref token) => {
          if active == 1 {
            Self::collect_errors(token.clone(), token.clone(), true);
          }
          return Ok(token.clone());
        }
        MatcherSuccess::ProxyChildren(token) => {''')],
  r'''
  let inner = || Program!(Program!(Equals!("a"), Error!("m")), Equals!("b"));
  let alone = render(&parse("ab", &inner()));
  let seen = Rc::new(RefCell::new(String::new()));
  let seen2 = seen.clone();
  let m = Map!(Equals!("x"), move |token, _, _| {
    *seen2.borrow_mut() = render(&parse("ab", &inner()));
    TokenResult!(token.clone())
  });
  assert!(parse("x", &m).is_ok());
  assert_eq!(alone, *seen.borrow());
''')
bug('c17-deep', 'C17', 'a tree that is more than 64 levels deep',
  'Tokens more than 64 levels below the first one are not visited.',
  [('src/token_visitor.rs', '''    for child in _token.get_children() {
      let _child = child.borrow();
''', '''    let mut level = 0;
    let mut above = _token.get_parent();
    while let Some(token) = above {
      level += 1;
      above = token.try_borrow().ok().and_then(|token| token.get_parent());
    }

    for child in _token.get_children().iter().filter(|_| level < 64) {
      let _child = child.borrow();
''')],
  r'''
  let p = Parser::new("a");
  let all: Vec<TokenRef> = (0..100).map(|_| StandardToken::new(&p, "T".into(), SourceRange::new(0, 1))).collect();
  for k in 1..100 {
    all[k - 1].borrow_mut().add_child(all[k].clone());
    all[k].borrow_mut().set_parent(Some(all[k - 1].clone()));
  }
  let mut seen = 0;
  {
    let mut v = TokenVisitor::new();
    v.add_visitor("*", Box::new(|_| { seen += 1; Ok(()) }));
    assert!(v.visit(all[0].clone()).is_ok());
  }
  assert_eq!(seen, 100);
''')
bug('c19-level-ten', 'C19', 'a debug level of ten or more',
  'At debug levels above nine the children of flattened tokens are only listed.',
  [(M+'program.rs', '''  for child in target_children {
    if child.borrow().should_discard() {''', '''  for child in target_children {
    if child.borrow().should_discard() || context.borrow().debug_mode_level() > 9 {''')],
  r'''
  let inner = || Program!(Equals!("x"), ProxyChildren!(Program!(Equals!("a"), Equals!("b"))));
  assert_eq!(run("xab", Debug!(1; inner())), run("xab", Debug!(12; inner())));
''')
bug('c21-three-digits', 'C21', 'a repetition bound of three digits',
  'Repetition bounds have at most two digits.',
  [('src/script/v1/matchers/repeat_range.rs', '''$crate::Matches!("Minimum"; r"\\d+"),''', '''$crate::Matches!("Minimum"; r"\\d{1,2}"),''')],
  r'''
  assert!(script("(<='a'>{100})").is_ok());
''')
bug('c26-many', 'C26', 'more than eight attributes on a pattern',
  'Only eight attributes of a pattern are used.',
  [('src/script/v1/parser.rs', 'for child in attributes_token_children {', 'for child in attributes_token_children.iter().take(8) {')],
  r'''
  let m = script("(<='a' a='1' b='1' c='1' d='1' e='1' f='1' g='1' h='1' i='1' j='1'>)").unwrap();
  let t = parse("a", &m).unwrap();
  assert_eq!(t.borrow().get_children()[0].borrow().get_attributes().len(), 10);
''')
bug('c27-listed-once', 'C27', 'a sequence that contains the same pattern twice',
  'A pattern that occurs several times in a row is listed once.',
  [(M+'program.rs', '''    Some(self.patterns.clone())
''', '''    let mut children = self.patterns.clone();
    children.dedup_by(|a, b| Rc::ptr_eq(a, b));
    Some(children)
''')],
  r'''
  let a = Equals!("a");
  let m = Program!(a.clone(), a.clone(), Equals!("b"));
  assert_eq!(m.borrow().get_children().unwrap().len(), 3);
''')
bug('c28-empty-name', 'C28', 'a copy of a context with an empty name',
  'A copy of a context with an empty name keeps the name of the original.',
  [('src/parser_context.rs', '''    let mut c = self.clone();
    c.name = name.to_string();''', '''    let mut c = self.clone();
    if !name.is_empty() {
      c.name = name.to_string();
    }''')],
  r'''
  let c = context("a");
  let copy = c.borrow().clone_with_name("");
  assert_eq!(copy.borrow().name, "");
''')
bug('c14-zeroes', 'C14', 'a pinned offset with leading zeroes',
  'An offset that is written with leading zeroes is octal.',
  [(M+'pin.rs', 'match part.parse::<usize>() {', '''match if part.len() > 1 && part.starts_with('0') { usize::from_str_radix(part, 8) } else { part.parse::<usize>() } {''')],
  r'''
  assert!(parse("abcdefghijklm", &Program!(Equals!("a"), Pin!("P", "010"; Equals!("k")))).is_ok());
''')
bug('c18-empty-needle', 'C18', 'a child with an empty name',
  'Looking for a child with an empty name finds the first child.',
  [('src/token.rs', 'if _child.get_name() == needle {', 'if needle.is_empty() || _child.get_name() == needle {')],
  r'''
  let p = Parser::new("ab");
  let (t, a, b) = (StandardToken::new(&p, "T".into(), SourceRange::new(0, 2)), StandardToken::new(&p, "A".into(), SourceRange::new(0, 1)), StandardToken::new(&p, "".into(), SourceRange::new(1, 2)));
  t.borrow_mut().add_child(a);
  t.borrow_mut().add_child(b.clone());
  assert!(Rc::ptr_eq(&t.borrow().find_child("").unwrap(), &b));
''')
bug('c10-repeated-start', 'C10', 'content of a delimited sequence that begins with its start delimiter',
  'A start delimiter that is repeated counts as one delimiter.',
  [(M+'sequence.rs', '''          SourceRange::new(start + start_pattern.len(), index - end_pattern.len()),''', '''          SourceRange::new(
            if start_pattern.len() > 1 && source[start..index].starts_with(&start_pattern.repeat(2)) {
              start + start_pattern.len() * 2
            } else {
              start + start_pattern.len()
            },
            index - end_pattern.len(),
          ),''')],
  r'''
  let t = parse("((((a))", &Program!(Sequence!("((", "))", "\\"))).unwrap();
  let t = t.borrow().get_children()[0].clone();
  assert_eq!(*t.borrow().get_captured_range(), SourceRange::new(2, 5));
''')
