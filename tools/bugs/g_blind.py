M = 'src/matchers/'
bug('c01-child-order', 'C01', 'a sequence with a part that looks back and captures',
  'The children of a sequence are sorted by where they begin instead of being in the order the parts matched.',
  [(M+'program.rs', '''    program_token.set_children(children);
    program_token.set_captured_range(captured_range);''', '''    let mut children = children;
    if !children.iter().any(contains_error) {
      children.sort_by_key(|child| child.borrow().get_matched_range().start);
    }
    program_token.set_children(children);
    program_token.set_captured_range(captured_range.clone());''')],
  r'''
  let t = parse("ab", &Program!(Equals!("a"), Pin!("P", "0"; Matches!("Look"; "a")), Equals!("b"), Pin!("P", "0"; Matches!("Again"; "ab")))).unwrap();
  let t = t.borrow();
  let names: Vec<String> = t.get_children().iter().map(|c| c.borrow().get_name().clone()).collect();
  assert_eq!(names, vec!["Equals", "Look", "Equals", "Again"]);
''')
bug('c05-name-prefix', 'C05', 'a named continue inside of a repetition whose name starts with the name of an outer one',
  'A named continue is taken by a repetition whose name only begins with the name it targets.',
  [(M+'program.rs', '''            if is_loop && (loop_name == self.name || loop_name == "") {
            } else {''', '''            if is_loop && self.name.starts_with(&loop_name) {
            } else {''')],
  r'''
  struct Cont;
  impl Matcher for Cont {
    fn exec(&self, _: MatcherRef, _: ParserContextRef, _: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
      Ok(MatcherSuccess::Continue(("Row".to_string(), Box::new(MatcherSuccess::None))))
    }
    fn get_name(&self) -> &str { "Cont" }
    fn set_name(&mut self, _: &str) {}
    fn get_children(&self) -> Option<Vec<MatcherRef>> { None }
    fn add_pattern(&mut self, _: MatcherRef) {}
    fn to_string(&self) -> String { "Cont".into() }
  }
  let c: MatcherRef = Rc::new(RefCell::new(Box::new(Cont)));
  let m = Loop!("Row"; Loop!("RowItem"; Equals!("a"), c), Equals!("x"));
  let t = parse("aaa", &m).unwrap();
  // each "a" is a round of the outer repetition
  assert_eq!(t.borrow().get_children().len(), 3);
''')
bug('c14-far-offset', 'C14', 'a pin at an offset of 256 or more',
  'A pin whose offset does not fit a byte counts modulo 256.',
  [(M+'pin.rs', 'match part.parse::<usize>() {', 'match part.parse::<usize>().map(|offset| offset as u8 as usize) {')],
  r'''
  let s = "a".repeat(300) + "b";
  assert!(parse(&s, &Program!(Equals!("a"), Pin!("P", "300"; Equals!("b")))).is_ok());
''')
bug('c13-set-value', 'C13', 'storing a token whose value was set by a handler',
  'Fetching the value of a stored token yields its captured text although its value was set.',
  [(M+'fetch.rs', 'token.get_value().clone()', 'token.get_attribute("__value").unwrap_or(token.get_captured_value()).clone()')],
  r'''
  let m = Program!(Store!("v"; Map!(Equals!("a"), |token, _, _| {
    token.borrow_mut().set_value("b");
    TokenResult!(token.clone())
  })), Equals!(Fetch!("v.captured_value")));
  assert!(parse("ab", &m).is_ok());
''')
bug('c12-bound-to-text', 'C12', 'a reference to a name that is bound to a stored text or token',
  'A reference to a name that is bound to something other than a pattern fails instead of ending the parse in an error.',
  [(M+'ref.rs', '''        } else {
          return Err(MatcherFailure::Error''', '''        } else if possible_matcher.is_some() {
          // not something that can match here
          return Err(MatcherFailure::Fail);
        } else {
          return Err(MatcherFailure::Error'''), (M+'ref.rs', 'let possible_matcher = scope.borrow().get(target_name);', 'let possible_matcher = scope.borrow().get(target_name.as_str());')],
  r'''
  let m = Program!(Store!("v"; Equals!("a")), Optional!(Ref!("v")), Equals!("b"));
  assert!(matches!(parse("ab", &m), Err(MatcherFailure::Error(_))));
''')
bug('c17-error-children', 'C17', 'visiting a token that is an error and has children',
  'The children of error tokens are not visited.',
  [('src/token_visitor.rs', '''    for child in _token.get_children() {
      let _child = child.borrow();
''', '''    for child in _token.get_children().iter().filter(|_| !_token.flags_enabled(crate::token::IS_ERROR)) {
      let _child = child.borrow();
''')],
  r'''
  let p = Parser::new("ab");
  let (t, k) = (StandardToken::new(&p, "T".into(), SourceRange::new(0, 2)), StandardToken::new(&p, "K".into(), SourceRange::new(0, 1)));
  t.borrow_mut().enable_flags(IS_ERROR);
  t.borrow_mut().add_child(k);
  let mut seen = 0;
  {
    let mut v = TokenVisitor::new();
    v.add_visitor("K", Box::new(|_| { seen += 1; Ok(()) }));
    assert!(v.visit(t).is_ok());
  }
  assert_eq!(seen, 1);
''')
bug('c26-empty-value', 'C26', 'an attribute with an empty value',
  'Attributes with empty values are left out.',
  [('src/script/v1/parser.rs', '''          if token.borrow().has_attribute(key) {''', '''          if token.borrow().has_attribute(key) || attribute.1.is_empty() {''')],
  r'''
  let m = script::current::parser::compile_script_from_str("(<='a' k=''>)", "Root".into(), 0).unwrap();
  let t = parse("a", &m).unwrap();
  assert_eq!(t.borrow().get_children()[0].borrow().get_attribute("k"), Some(&"".to_string()));
''')
bug('c28-own-name-too', 'C28', 'registering a named pattern under another name',
  'A pattern that is registered under a given name becomes available under its own name as well.',
  [('src/parser_context.rs', '''    for (name, matcher) in matchers {
      let _matcher = matcher.borrow();
''', '''    for (name, matcher) in matchers {
      self.register_matcher(matcher.clone());
''')],
  r'''
  let c = ParserContext::new(&Parser::new("a"), "Test");
  let mut h = HashMap::new();
  h.insert("N", Equals!("Own"; "a"));
  c.borrow().register_matchers_with_names(h);
  assert!(c.borrow().get_registered_matcher("N").is_some());
  assert!(c.borrow().get_registered_matcher("Own").is_none());
''')
bug('c30-backslash', 'C30', 'a file name with a backslash',
  'Backslashes in the given name of a source appear as slashes in its error texts.',
  [('src/parser.rs', '''      source: source.to_string(),
      filename: filename.to_string(),''', '''      source: source.to_string(),
      filename: filename.replace('\\\\', "/"),''')],
  r'''
  let c = ParserContext::new(&Parser::new_with_file_name("a", "d\\f"), "Test");
  assert_eq!(c.borrow().get_error_as_string("m", &SourceRange::new(0, 1)), "Error: d\\f@[1:1-2]: m");
''')
bug('c31-error-children', 'C31', 'printing a token that is an error and has children',
  'The children of error tokens are not printed.',
  [('src/token.rs', '''    let children = self.get_children();
    for child in children {
      let child_str''', '''    let children = self.get_children().iter().take_while(|_| !self.flags_enabled(IS_ERROR));
    for child in children {
      let child_str''')],
  r'''
  let p = Parser::new("ab");
  let (t, k) = (StandardToken::new(&p, "T".into(), SourceRange::new(0, 2)), StandardToken::new(&p, "Kind".into(), SourceRange::new(0, 1)));
  t.borrow_mut().enable_flags(IS_ERROR);
  t.borrow_mut().add_child(k);
  assert!(format!("{:?}", t.borrow()).contains("Kind"));
''')
bug('c18-same-length', 'C18', 'moving the matched range of a token to another place of the same length',
  'The matched text of a token is not refreshed when its range moves without changing its length.',
  [('adextopa_macros/src/lib.rs', '''        self.matched_range = range;
        self.matched_value = range.to_string(&self.parser);''', '''        let moved = range.end.wrapping_sub(range.start) == self.matched_range.end.wrapping_sub(self.matched_range.start);
        self.matched_range = range;
        if !moved {
          self.matched_value = range.to_string(&self.parser);
        }''')],
  r'''
  let p = Parser::new("ab");
  let t = StandardToken::new(&p, "T".into(), SourceRange::new(0, 1));
  t.borrow_mut().set_matched_range(SourceRange::new(1, 2));
  assert_eq!(t.borrow().get_matched_value(), "b");
''')
bug('c15-address-cache', 'C15', 'parsing another source of the same length after the first one is gone, with the same expression',
  'An expression that was searched for in a source is not searched for again in a source at the same address.',
  [(M+'matches.rs', '''    let _sc = sub_context.borrow();
    if let Some(range) = _sc.matches_regexp(&self.regex) {''', '''    let _sc = sub_context.borrow();
    thread_local! {
      // the same expression is tried at the same place by every alternative
      static LAST: std::cell::Cell<(usize, usize, SourceRange, Option<SourceRange>)> = std::cell::Cell::new((0, 0, SourceRange::new(0, 0), None));
    }
    let place = (self as *const _ as usize, _sc.parser.borrow().source.as_ptr() as usize, _sc.offset);
    let last = LAST.with(|last| last.get());
    let found = if (last.0, last.1, last.2) == place {
      last.3
    } else {
      _sc.matches_regexp(&self.regex)
    };
    LAST.with(|last| last.set((place.0, place.1, place.2, found)));
    if let Some(range) = found {'''), (M+'matches.rs', '    _: ScopeContextRef,\n  ) -> Result<MatcherSuccess, MatcherFailure> {\n    let sub_context', '    _: ScopeContextRef,\n  ) -> Result<MatcherSuccess, MatcherFailure> {\n    use crate::source_range::SourceRange;\n    let sub_context')],
  r'''
  let m = Matches!("a");
  let (a, b) = ("a".repeat(1000), "b".repeat(1000));
  for k in 0..64 {
    assert!(parse(&a, &m).is_ok(), "{}", k);
    assert!(parse(&b, &m).is_err(), "{}", k);
  }
''')
bug('c20-single-program', 'C20', 'a sequence in braces with one element which is discarded',
  'A sequence with one element is replaced by that element.',
  [('src/script/v1/parser.rs', '''    let program_matcher = crate::Program!();
    let mut _program_matcher = program_matcher.borrow_mut();
''', '''    if children.len() == 1 && children[0].borrow().get_name() == "PatternDefinitionCaptured" && children[0].borrow().has_child("PatternDefinition") {
      let pattern = construct_matcher_from_pattern(parser_context.clone(), children[0].clone())?.0;
      return Ok(pattern);
    }

    let program_matcher = ProgramPattern::new_blank_program(MatchAction::Continue);
    let mut _program_matcher = program_matcher.borrow_mut();
''')],
  r'''
  let m = script::current::parser::compile_script_from_str("(<{(<='a'>)}>)", "Root".into(), 0).unwrap();
  let t = parse("a", &m).unwrap();
  assert_eq!(t.borrow().get_children()[0].borrow().get_name(), "Program");
''')
bug('c22-comment-eof', 'C22', 'a comment at the very end of a script, without a line break',
  'A comment that ends with the script has to contain something.',
  [('src/script/v1/matchers/comment.rs', '$crate::Matches!("Comment"; r"#[^\\r\\n]*")', '$crate::Matches!("Comment"; r"#[^\\r\\n]+|#[\\r\\n]")')],
  r'''
  assert!(script::current::parser::compile_script_from_str("(<='a'>)\n#", "Root".into(), 0).is_ok());
''')
bug('c16-byte-mark', 'C16', 'a source that begins with a byte order mark',
  'Columns of the first line do not count a byte order mark.',
  [('src/parser_context.rs', '''        first_column = range.start + 1;''', '''        let mark = if range.start >= 3 && source.starts_with('\\u{feff}') { 3 } else { 0 };
        first_column = range.start - mark + 1;''')],
  r'''
  let c = ParserContext::new(&Parser::new("\u{feff}ab"), "Test");
  assert_eq!(c.borrow().get_columns(&SourceRange::new(4, 5)), (5, 6));
''')
bug('c03-named-bounds', 'C03', 'a repetition with a name and an inclusive upper bound',
  'A repetition with a lower bound of more than one stops at its lower bound when it has matched it at the end of the source.',
  [(M+'program.rs', '''      loop_count += 1;
    }

    if sub_context.borrow().debug_mode_level() > 1 {
      println!(
        "{{{}/Finalizing}}: Completed!",''', '''      loop_count += 1;

      // nothing is left for another round
      if is_loop && minimum > 1 && loop_count + 1 == minimum && sub_context.borrow().offset.start == sub_context.borrow().offset.end {
        loop_count = minimum;
        break;
      }
    }

    if sub_context.borrow().debug_mode_level() >= 2 {
      println!(
        "{{{}/Finalizing}}: Completed!",''')],
  r'''
  assert!(parse("aa", &Loop!(3..; Equals!("a"))).is_err());
''')
bug('c08-switch-last', 'C08', 'a fatal error in the last alternative of a choice in a repetition with rounds before it',
  'A fatal error that is raised after a repetition has matched more than once ends the repetition only.',
  [(M+'program.rs', '''              MatcherFailure::Error(error) => {
                return Err(MatcherFailure::Error(error));
              }''', '''              MatcherFailure::Error(error) => {
                let swallowed = is_loop && loop_count > 2 && error.range.is_none();
                return Err(if swallowed { MatcherFailure::Fail } else { MatcherFailure::Error(error) });
              }''')],
  r'''
  let m = Program!(Optional!(Loop!(Switch!(Equals!("a"), Ref!("missing")))), Matches!("a*"));
  assert!(matches!(parse("aaa", &m), Err(MatcherFailure::Error(_))));
''')
