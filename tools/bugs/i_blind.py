M = 'src/matchers/'
SM = 'src/script/v1/matchers/'
# Written from the texts of the properties alone (see DESIGN.md)
bug('c01-hundred-parts', 'C01', 'a sequence of more than 64 parts',
  'Only the first 64 parts of a sequence are matched.',
  [(M+'program.rs', '      for pattern in &self.patterns {\n', '      for pattern in self.patterns.iter().take(64) {\n')],
  r'''
  let m = Program!();
  for _ in 0..70 {
    m.borrow_mut().add_pattern(Equals!("a"));
  }
  assert!(parse(&"a".repeat(69), &m).is_err());
''')
bug('c03-thousand-runs', 'C03', 'more than 1000 runs',
  'A repetition without a maximum ends after 1000 runs.',
  [(M+'program.rs', '''  let mut range = 0..usize::MAX;
''', '''  let mut range = 0..1000;
''')],
  r'''
  let t = parse(&"a".repeat(1500), &Loop!(0..; Equals!("a"))).unwrap();
  assert_eq!(t.borrow().get_children().len(), 1500);
''')
bug('c06-long-value', 'C06', 'a token of more than 4096 bytes',
  'The matched text of a token is cut off after 4096 characters.',
  [('src/token.rs', '''      captured_value: captured_range.to_string(&parser),
      matched_value: captured_range.to_string(&parser),''', '''      captured_value: captured_range.to_string(&parser),
      matched_value: captured_range.to_string(&parser).chars().take(4096).collect(),''')],
  r'''
  let t = parse(&"a".repeat(5000), &Program!(Matches!("a+"))).unwrap();
  assert_eq!(t.borrow().get_children()[0].borrow().get_matched_value().len(), 5000);
''')
bug('c07-first-line', 'C07', 'an error message of several lines',
  'Only the first line of the message of a recorded error is kept.',
  [(M+'error.rs', '''    let error_token = new_error_token(context, &self.message);''', '''    let error_token = new_error_token(context, self.message.lines().next().unwrap_or(""));''')],
  r'''
  let t = parse("a", &Program!(Equals!("a"), Error!("one\ntwo"))).unwrap();
  assert!(t.borrow().get_children()[1].borrow().get_attribute("__message").unwrap().ends_with("one\ntwo"));
''')
bug('c11-sixteen-scopes', 'C11', 'more than 16 nested scopes',
  'A lookup gives up after the 16 innermost scopes.',
  [('src/scope_context.rs', '''    for scope in (&self.stack).into_iter().rev() {
      match scope.borrow().get(name) {''', '''    for scope in (&self.stack).into_iter().rev().take(16) {
      match scope.borrow().get(name) {''')],
  r'''
  let c = ScopeContext::new();
  c.borrow_mut().set("A", VariableType::String("a".to_string()));
  for _ in 0..20 {
    c.borrow_mut().push(adextopa_core::scope::Scope::new());
  }
  assert!(c.borrow().get("A").is_some());
''')
bug('c12-dotted-name', 'C12', 'a pattern whose name contains a dot',
  'Only the part of a name before the first dot is looked up.',
  [(M+'ref.rs', '''        let possible_matcher = scope.borrow().get(target_name);
''', '''        let possible_matcher = scope.borrow().get(target_name.split('.').next().unwrap());
''')],
  r'''
  let c = context("b");
  c.borrow().register_matcher_with_name("A", Equals!("a"));
  c.borrow().register_matcher_with_name("A.B", Equals!("b"));
  assert!(ParserContext::tokenize(c, Program!(Ref!("A.B"))).is_ok());
''')
bug('c12-spaced-name', 'C12', 'names that differ in white space around them',
  'White space around the name of a reference is ignored.',
  [(M+'ref.rs', '''        let possible_matcher = scope.borrow().get(target_name);
''', '''        let possible_matcher = scope.borrow().get(target_name.trim());
''')],
  r'''
  let c = context("b");
  c.borrow().register_matcher_with_name("A", Equals!("a"));
  c.borrow().register_matcher_with_name("A ", Equals!("b"));
  assert!(ParserContext::tokenize(c, Program!(Ref!("A "))).is_ok());
''')
bug('c13-far-offset', 'C13', 'a stored token beyond the first 65536 bytes of the source',
  'Fetched start offsets are 16 bits wide.',
  [(M+'fetch.rs', '''          format!("{}", token.get_matched_range().start)''', '''          format!("{}", token.get_matched_range().start as u16)''')],
  r'''
  let src = format!("{}b b", "a".repeat(70000));
  let m = Program!(Matches!("a+"), Store!("V"; Equals!("b")), Pin!("P", Fetch!("V.start"); Equals!("b")), Equals!(" b"));
  assert!(parse(&src, &m).is_ok());
''')
bug('c16-wide-line', 'C16', 'a line of more than 65535 bytes',
  'Columns are 16 bits wide.',
  [('src/parser_context.rs', '''        first_column = range.start + 1;
''', '''        first_column = range.start as u16 as usize + 1;
''')],
  r'''
  let c = context(&"a".repeat(70000));
  assert_eq!(c.borrow().get_columns(&SourceRange::new(66000, 66001)), (66001, 66002));
''')
bug('c16-late-lines', 'C16', 'more than 255 lines',
  'Line numbers are 8 bits wide.',
  [('src/parser_context.rs', '''    let last_line = NEWLINES.find_iter(&source[0..range.end]).count() + 1;
''', '''    let last_line = NEWLINES.find_iter(&source[0..range.end]).count() as u8 as usize + 1;
''')],
  r'''
  let c = context(&"\n".repeat(300));
  assert_eq!(c.borrow().get_lines(&SourceRange::new(299, 300)), (300, 301));
''')
bug('c18-attribute-case', 'C18', 'attribute values that differ in their case',
  'Comparing the value of an attribute ignores the case.',
  [('adextopa_macros/src/lib.rs', 'Some(v) => (v == value),', 'Some(v) => v.eq_ignore_ascii_case(value),')],
  r'''
  let p = Parser::new("ab");
  let t = StandardToken::new(&p, "T".into(), SourceRange::new(0, 2));
  t.borrow_mut().set_attribute("a", "X");
  assert!(!t.borrow().attribute_equals("a", "x"));
''')
bug('c18-pin-flags', 'C18', 'flags of the token of a pin',
  'Setting the flags of the token of a pin keeps the flags it has.',
  [(M+'pin.rs', '''    self.flags = flags;
''', '''    self.flags |= flags;
''')],
  r'''
  let p = Parser::new("ab");
  let t = adextopa_core::matchers::pin::PinToken::new(&p, "T".into(), SourceRange::new(0, 2));
  t.borrow_mut().set_flags(IS_ERROR);
  t.borrow_mut().set_flags(IS_WARNING);
  assert_eq!(t.borrow_mut().get_flags(), IS_WARNING);
''')
bug('c20-many-repeats', 'C20', 'a maximum of more than 255 repetitions',
  'The bounds of a repetition in a script are at most 255.',
  [(SM+'repeat_specifier.rs', '''          Ok(minimum..maximum)
''', '''          Ok(minimum..std::cmp::min(maximum, std::cmp::max(minimum, 255)))
''')],
  r'''
  let src = "a".repeat(300);
  let m = script("(<='a'>{1,300})").unwrap();
  let t = parse(&src, &m).unwrap();
  assert_eq!(t.borrow().get_matched_range().end, 300);
''')
bug('c21-huge-bound', 'C21', 'a minimum that is larger than 2^32',
  'The bounds of a repetition in a script have 32 bits.',
  [(SM+'repeat_specifier.rs', '''    let minimum = match min.borrow().get_captured_value().parse::<usize>() {
      Ok(result) => result,''', '''    let minimum = match min.borrow().get_captured_value().parse::<u32>() {
      Ok(result) => result as usize,''')],
  r'''
  assert!(script("(<='a'>{4294967296,})").is_ok());
''')
bug('c24-proxied-once', 'C24', 'a mapped pattern that is flattened',
  'The success handler is not called for flattened tokens of two or more children.',
  [(M+'map.rs', '''        MatcherSuccess::ProxyChildren(token) => {
          self.handle_success(sub_context.clone(), scope.clone(), token.clone())
        }''', '''        MatcherSuccess::ProxyChildren(token) if token.borrow().get_children().len() < 2 => {
          self.handle_success(sub_context.clone(), scope.clone(), token.clone())
        }''')],
  r'''
  let n = Rc::new(Cell::new(0));
  let k = n.clone();
  let m = Program!(Map!(ProxyChildren!(Program!(Equals!("a"), Equals!("b"))), move |t, _, _| { k.set(k.get() + 1); TokenResult!(t) }));
  let _ = parse("ab", &m);
  assert_eq!(n.get(), 1);
''')
bug('c25-expand-twice', 'C25', 'an expanded range inside of another one',
  'Expanding a flattened token that is expanded already starts at its first child.',
  [(M+'expand_range.rs', '''          let matched_range = token.borrow().get_matched_range().clone();
          token.borrow_mut().set_captured_range(matched_range);
''', '''          let mut matched_range = token.borrow().get_matched_range().clone();
          if token.borrow().get_name() == "ExpandRange" {
            matched_range.start = token.borrow().get_children()[0].borrow().get_captured_range().start;
          }
          token.borrow_mut().set_captured_range(matched_range);
''')],
  r'''
  let m = Program!(ExpandRange!(ExpandRange!(Program!(Discard!(Equals!("a")), Equals!("b")))));
  let t = parse("ab", &m).unwrap();
  assert_eq!(*t.borrow().get_captured_range(), SourceRange::new(0, 2));
''')
bug('c26-raw-value', 'C26', 'an attribute with a backslash in its value',
  'Backslashes in the values of attributes are doubled.',
  [('src/script/v1/parser.rs', '''          token.borrow_mut().set_attribute(key, value);''', '''          token.borrow_mut().set_attribute(key, &value.replace('\\\\', "\\\\\\\\"));''')],
  r'''
  let m = script(r"(<='a' x='p\\q'>)").unwrap();
  let t = parse("a", &m).unwrap();
  assert_eq!(t.borrow().get_children()[0].borrow().get_attribute("x"), Some(&r"p\q".to_string()));
''')
bug('c27-add-loop', 'C27', 'adding a pattern to a repetition that has been listed',
  'Replacing the last child of a sequence of more than two replaces the one before it.',
  [(M+'program.rs', '''    self.patterns[index] = matcher;''', '''    let count = self.patterns.len();
    self.patterns[if index + 1 == count && count > 3 { index - 1 } else { index }] = matcher;''')],
  r'''
  let m = Program!(Equals!("a"), Equals!("b"), Equals!("c"), Equals!("d"));
  m.borrow_mut().set_child(3, Equals!("e"));
  assert!(parse("abce", &m).is_ok());
''')
bug('c28-name-case', 'C28', 'registered names that differ in their case',
  'A pattern is registered under its name in lower case, too.',
  [('src/parser_context.rs', '''    let _matcher = matcher.borrow();
    let name = _matcher.get_name();
    self.register_matcher_with_name(name, matcher.clone());''', '''    let name = matcher.borrow().get_name().to_string();
    if self.get_registered_matcher(&name.to_lowercase()).is_none() {
      self.register_matcher_with_name(&name.to_lowercase(), matcher.clone());
    }
    self.register_matcher_with_name(&name, matcher.clone());''')],
  r'''
  let c = context("a");
  c.borrow().register_matcher(Equals!("Abc"; "a"));
  assert!(c.borrow().get_registered_matcher("abc").is_none());
''')
bug('c30-nul', 'C30', 'a text that ends in NUL characters',
  'NUL characters at the end of a text are cut off.',
  [('src/parser.rs', '''  pub fn new(source: &str) -> ParserRef {
    std::rc::Rc::new(std::cell::RefCell::new(Self {
      source: source.to_string(),''', '''  pub fn new(source: &str) -> ParserRef {
    std::rc::Rc::new(std::cell::RefCell::new(Self {
      source: source.trim_end_matches('\\0').to_string(),''')],
  r'''
  assert_eq!(Parser::new("a\0").borrow().get_source(), "a\0");
''')
bug('c31-many-children', 'C31', 'a token with more than 100 children',
  'Printing a token shows its first 100 children only.',
  [('src/token.rs', '''    let children = self.get_children();
    for child in children {
      let child_str''', '''    let children = self.get_children();
    for child in children.iter().take(100) {
      let child_str''')],
  r'''
  let t = parse(&"a".repeat(120), &Loop!("L"; Equals!("Child"; "a"))).unwrap();
  assert_eq!(format!("{:?}", t.borrow()).matches("Child(").count(), 120);
''')
bug('c32-dollar', 'C32', 'an identifier with a dollar sign behind a digit',
  'An identifier ends at a dollar sign that is not its first character.',
  [(SM+'identifier.rs', '''    $crate::Matches!("Identifier"; r"[a-zA-Z$_][a-zA-Z0-9$_]*")''', '''    $crate::Matches!("Identifier"; r"[a-zA-Z$_](?:[a-zA-Z0-9_]|[a-zA-Z_]\\$)*")''')],
  r'''
  let t = parse("a1$", &Program!(ScriptIdentifier!())).unwrap();
  assert_eq!(t.borrow().get_matched_range().end, 3);
''')
bug('c02-many-alternatives', 'C02', 'a choice of more than 32 alternatives',
  'Alternatives after the 32nd are never tried.',
  [(M+'program.rs', '      for pattern in &self.patterns {\n', '''      let count = match self.on_first_match {
        MatchAction::Stop => 32,
        MatchAction::Continue => usize::MAX,
      };
      for pattern in self.patterns.iter().take(count) {
''')],
  r'''
  let m = Switch!();
  for _ in 0..40 {
    m.borrow_mut().add_pattern(Equals!("b"));
  }
  m.borrow_mut().add_pattern(Equals!("a"));
  assert!(parse("a", &Program!(m)).is_ok());
''')
bug('c04-long-skip', 'C04', 'a discarded match of more than 32767 bytes',
  'A discarded pattern skips at most 32767 bytes.',
  [(M+'discard.rs', '''  let offset: isize = end_offset as isize - start_offset as isize;''', '''  let offset = std::cmp::min(end_offset as isize - start_offset as isize, i16::MAX as isize);''')],
  r'''
  let src = format!("{}b", "a".repeat(40000));
  assert!(parse(&src, &Program!(Discard!(Matches!("a+")), Equals!("b"))).is_ok());
''')
bug('c10-long-content', 'C10', 'content of more than 1024 bytes with an escape near its end',
  'Escapes after the first 1024 bytes of the content are not looked for.',
  [(M+'sequence.rs', '''        let result = _sc.matches_str_at_offset(escape_pattern, index);
''', '''        let result = if index > scan_start + 1024 {
          None
        } else {
          _sc.matches_str_at_offset(escape_pattern, index)
        };
''')],
  r'''
  let src = format!("({}\\))", "a".repeat(2000));
  let t = parse(&src, &Program!(Sequence!("(", ")", "\\"))).unwrap();
  let v = t.borrow().get_children()[0].borrow().get_value().clone();
  assert_eq!(v, format!("{})", "a".repeat(2000)));
''')
bug('c17-many-hooks', 'C17', 'more than eight hooks',
  'The ninth hook and those after it are never called.',
  [('src/token_visitor.rs', '''    for hook in &mut self.hooks {''', '''    for hook in self.hooks.iter_mut().take(8) {''')],
  r'''
  let t = parse("a", &Program!("Root"; Equals!("a"))).unwrap();
  let n = Cell::new(0);
  let mut v = TokenVisitor::new();
  for name in ["A", "B", "C", "D", "E", "F", "G", "H"] {
    v.add_visitor(name, Box::new(|_| Ok(())));
  }
  v.add_visitor("Root", Box::new(|_| { n.set(n.get() + 1); Ok(()) }));
  v.visit(t).unwrap();
  drop(v);
  assert_eq!(n.get(), 1);
''')
bug('c23-nine-names', 'C23', 'more than eight names imported by one statement',
  'Names after the eighth of an import are not defined.',
  [('src/script/v1/parser.rs', '''      for import_identifier in import_identifiers {''', '''      for import_identifier in import_identifiers.iter().take(8) {''')],
  r'''
  let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
  let names: Vec<String> = (0..10).map(|i| format!("W{}", i)).collect();
  let definitions: Vec<String> = names.iter().map(|n| format!("{} = </x/>", n)).collect();
  std::fs::write(d.join("x.axo"), format!("<!--[adextopa version='1'] {} -->", definitions.join("\n"))).unwrap();
  std::fs::write(d.join("m.axo"), format!("<!--[adextopa version='1'] import {{ {} }} from './x.axo' -->(<W9>)", names.join(", "))).unwrap();
  let m = script::current::parser::compile_script_from_file(d.join("m.axo").to_str().unwrap(), 0).unwrap();
  assert!(parse("x", &m).is_ok());
''')
bug('c29-long-tail', 'C29', 'a sequence whose part fails behind more than eight others',
  'When a part fails the first part is tried once more.',
  [(M+'program.rs', '''                  return Err(MatcherFailure::Fail);
                }
              },''', '''                  return {
                    if children.len() > 8 {
                      let first = self.patterns[0].clone();
                      let again = std::rc::Rc::new(std::cell::RefCell::new(context.clone()));
                      let _ = first.borrow().exec(first.clone(), again, scope.clone());
                    }

                    Err(MatcherFailure::Fail)
                  };
                }
              },''')],
  r'''
  let n = Rc::new(Cell::new(0));
  let k = n.clone();
  let m = Program!(Map!(Equals!("a"), move |t, _, _| { k.set(k.get() + 1); TokenResult!(t) }));
  for _ in 0..9 {
    m.borrow_mut().add_pattern(Equals!("a"));
  }
  m.borrow_mut().add_pattern(Equals!("b"));
  let _ = parse("aaaaaaaaaaa", &m);
  assert_eq!(n.get(), 1);
''')
bug('c19-deep-debug', 'C19', 'a debug pattern around a result with an attribute',
  'Debug patterns of level three and above drop messages of more than a line.',
  [(M+'debug.rs', '''        let result = result.clone();
        result
''', '''        match result {
          Ok(MatcherSuccess::Skip(amount)) if amount > 10 && debug_mode_level > 2 => Ok(MatcherSuccess::Skip(10)),
          _ => result.clone(),
        }
''')],
  r'''
  let m = Program!(Debug!(3; Discard!(Matches!("a+"))), Equals!("b"));
  assert!(parse("aaaaaaaaaaaab", &m).is_ok());
''')
bug('c08-long-message', 'C08', 'an error message of more than 256 bytes',
  'Messages of errors are cut off after 256 bytes.',
  [('src/parse_error.rs', '''      message: message.to_string(),
      range: Some(range),''', '''      message: message.chars().take(256).collect(),
      range: Some(range),''')],
  r'''
  let long = "x".repeat(300);
  match parse("a", &Program!(Equals!("a"), Panic!(&long))) {
    Err(MatcherFailure::Error(e)) => assert!(e.message.ends_with(&long)),
    _ => panic!(),
  }
''')
