# Bugs of C29 (execution), C30 (sources), C31 (printing) and of the logging flag (C21).
WATCH = r'''
  struct Watch(Rc<RefCell<Vec<String>>>, &'static str, MatcherRef);
  impl Matcher for Watch {
    fn exec(&self, this: MatcherRef, c: ParserContextRef, s: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
      let o = c.borrow().offset;
      let own = &**this.borrow() as *const dyn Matcher as *const () == self as *const Watch as *const ();
      self.0.borrow_mut().push(format!("{}{}@{}-{}", self.1, if own { "" } else { "?" }, o.start, o.end));
      self.2.borrow().exec(self.2.clone(), c, s)
    }
    fn is_consuming(&self) -> bool { self.2.borrow().is_consuming() }
    fn get_name(&self) -> &str { "Watch" }
    fn set_name(&mut self, _: &str) {}
    fn add_pattern(&mut self, _: MatcherRef) {}
    fn get_children(&self) -> Option<Vec<MatcherRef>> { None }
    fn to_string(&self) -> String { "Watch".to_string() }
  }
  let log = Rc::new(RefCell::new(vec![]));
  let watch = |n: &'static str, m: MatcherRef| -> MatcherRef { Rc::new(RefCell::new(Box::new(Watch(log.clone(), n, m)))) };
'''
bug('c29-loop-stops-at-end', 'C29', 'a repetition that reaches the end of the source, of patterns that do something else than consume',
  'A repetition ends as soon as all of the source is consumed; the rest of the round that reached the end is not run.',
  [('src/matchers/program.rs', '''      for pattern in &self.patterns {
        sub_context
          .borrow_mut()
          .push_token_to_stack(program_token.clone());
''', '''      for (index, pattern) in self.patterns.iter().enumerate() {
        // Nothing left to iterate over
        let remaining = sub_context.borrow().offset;
        if is_loop && index > 0 && remaining.start == remaining.end && !children.is_empty() {
          break;
        }

        sub_context
          .borrow_mut()
          .push_token_to_stack(program_token.clone());
''')],
  WATCH + r'''
  let m = Loop!(Equals!("a"), watch("w", Optional!(Equals!("b"))));
  run("aaa", m);
  assert_eq!(log.borrow().join(" "), "w@1-3 w@2-3 w@3-3");
''')
bug('c29-not-twice', 'C29', 'a negated pattern that skips, whose runs are counted',
  'A negation runs its pattern again if the first run skipped nothing.',
  [('src/matchers/not.rs', '''          return Ok(success);
        }
        // For other''', '''          // Nothing was consumed, so anything the matcher wants to
          // report is reported from the current position
          return self
            .matcher
            .borrow()
            .exec(
              self.matcher.clone(),
              context.borrow().clone_with_name(self.get_name()),
              scope.clone(),
            )
            .map(|_| success);
        }
        // For other''')],
  WATCH + r'''
  let m = Program!(Not!(watch("w", Optional!(Equals!("b")))), Equals!("a"));
  run("a", m);
  assert_eq!(log.borrow().join(" "), "w@0-1");
''')
bug('c29-ref-this', 'C29', 'a user-written pattern behind a reference that looks at the matcher it is handed',
  'A pattern that is run by reference is handed the reference instead of itself.',
  [('src/matchers/ref.rs', '''        if let Some(VariableType::Matcher(ref matcher)) = possible_matcher {
          matcher
            .borrow()
            .exec(matcher.clone(), sub_context, scope.clone())''', '''        if let Some(VariableType::Matcher(ref matcher)) = possible_matcher {
          matcher
            .borrow()
            .exec(this_matcher.clone(), sub_context, scope.clone())'''),
   ('src/matchers/ref.rs', '''  fn _exec(
    &self,
    context: ParserContextRef,''', '''  fn _exec(
    &self,
    this_matcher: MatcherRef,
    context: ParserContextRef,'''),
   ('src/matchers/ref.rs', 'let result = self._exec(context.clone(), scope.clone());', 'let result = self._exec(this_matcher.clone(), context.clone(), scope.clone());')],
  WATCH + r'''
  let c = context("a");
  c.borrow().register_matcher_with_name("W", watch("w", Equals!("a")));
  ParserContext::tokenize(c, Program!(Ref!("W"))).unwrap();
  assert_eq!(log.borrow().join(" "), "w@0-1");
''')
bug('c29-catch-retries', 'C29', 'a caught fatal error, when runs of the pattern are counted',
  'A catching pattern runs its pattern a second time when it failed with an error, before the handler is asked.',
  [('src/matchers/catch.rs', '''      Err(failure) => (self.catch_func)(sub_context.clone(), failure),''', '''      Err(crate::matcher::MatcherFailure::Fail) => {
        (self.catch_func)(sub_context.clone(), crate::matcher::MatcherFailure::Fail)
      }
      Err(crate::matcher::MatcherFailure::Error(error)) => {
        // It may have been a transient error
        match self
          .matcher
          .borrow()
          .exec(self.matcher.clone(), sub_context.clone(), scope.clone())
        {
          Ok(success) => Ok(success),
          Err(_) => (self.catch_func)(
            sub_context.clone(),
            crate::matcher::MatcherFailure::Error(error),
          ),
        }
      }''')],
  WATCH + r'''
  let m = Program!(Equals!("a"), Catch!(watch("w", Panic!("p")), |_, f| Err(f)));
  run("ab", m);
  assert_eq!(log.borrow().join(" "), "w@1-2");
''')
bug('c29-shared-context', 'C29', 'a user-written or built-in pattern that moves in its own context, within a sequence',
  'The patterns of a sequence share one context, so that a pattern that moved in it without consuming moves the next ones.',
  [('src/matchers/program.rs', '''          std::rc::Rc::new(std::cell::RefCell::new(sub_context.borrow().clone())),
          scope.clone(),
        );

        sub_context.borrow_mut().pop_token_from_stack();''', '''          sub_context.clone(),
          scope.clone(),
        );

        sub_context.borrow_mut().pop_token_from_stack();''')],
  r'''
  struct Ahead;
  impl Matcher for Ahead {
    fn exec(&self, _: MatcherRef, c: ParserContextRef, _: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
      let end = c.borrow().offset.end;
      c.borrow_mut().set_start(end);
      Ok(MatcherSuccess::Skip(0))
    }
    fn get_name(&self) -> &str { "Ahead" }
    fn set_name(&mut self, _: &str) {}
    fn add_pattern(&mut self, _: MatcherRef) {}
    fn get_children(&self) -> Option<Vec<MatcherRef>> { None }
    fn to_string(&self) -> String { "Ahead".to_string() }
  }
  let ahead: MatcherRef = Rc::new(RefCell::new(Box::new(Ahead)));
  let m = Program!(ahead, Equals!("a"));
  assert!(parse("ab", &m).is_ok());
''')
bug('c30-bom', 'C30', 'a file that begins with a byte order mark',
  'A byte order mark at the beginning of a file is dropped, so that positions are off by three bytes.',
  [('src/parser.rs', '''    let contents = fs::read_to_string(filename)?;
''', '''    let contents = fs::read_to_string(filename)?.trim_start_matches('\\u{feff}').to_string();
''')],
  r'''
  let f = std::env::var("SCRATCH").unwrap() + "/f";
  std::fs::write(&f, "\u{feff}a").unwrap();
  assert_eq!(Parser::new_from_file(&f).unwrap().borrow().get_source(), "\u{feff}a");
''')
bug('c30-lossy', 'C30', 'a file that is not UTF-8',
  'A file that is not UTF-8 is read with replacement characters instead of being refused.',
  [('src/parser.rs', '''    let contents = fs::read_to_string(filename)?;
''', '''    let contents = String::from_utf8_lossy(&fs::read(filename)?).to_string();
''')],
  r'''
  let f = std::env::var("SCRATCH").unwrap() + "/f";
  std::fs::write(&f, b"a\xffb").unwrap();
  assert!(Parser::new_from_file(&f).is_err());
''')
bug('c30-chunks', 'C30', 'a file of more than 64 KiB with a multi-byte character across a block boundary',
  'Files are read in blocks of 64 KiB, and a character that lies across two blocks is refused.',
  [('src/parser.rs', '''    let contents = fs::read_to_string(filename)?;
''', '''    let mut contents = String::new();
    for block in fs::read(filename)?.chunks(64 * 1024) {
      contents.push_str(
        std::str::from_utf8(block).map_err(|error| Error::new(std::io::ErrorKind::InvalidData, error))?,
      );
    }
''')],
  r'''
  let f = std::env::var("SCRATCH").unwrap() + "/f";
  let s = format!("a{}", "é".repeat(40000));
  std::fs::write(&f, &s).unwrap();
  assert_eq!(Parser::new_from_file(&f).unwrap().borrow().get_source(), &s);
''')
bug('c30-file-name-lines', 'C30', 'line breaks of two characters in a file',
  'Line breaks of two characters are read as one character.',
  [('src/parser.rs', '''    let contents = fs::read_to_string(filename)?;
''', '''    let contents = fs::read_to_string(filename)?.replace("\\r\\n", "\\n");
''')],
  r'''
  let f = std::env::var("SCRATCH").unwrap() + "/f";
  std::fs::write(&f, "a\r\nb").unwrap();
  assert_eq!(Parser::new_from_file(&f).unwrap().borrow().get_source(), "a\r\nb");
''')
bug('c31-same-child', 'C31', 'two children of a token that look the same',
  'A child that looks like the one before it is not printed.',
  [('src/token.rs', '''    let children = self.get_children();
    for child in children {
      let child_str = format!''', '''    let children = self.get_children();
    for (index, child) in children.iter().enumerate() {
      // Shown already
      if index > 0 && **std::cell::RefCell::borrow(&children[index - 1]) == **std::cell::RefCell::borrow(child) {
        continue;
      }

      let child_str = format!''')],
  r'''
  let p = Parser::new("ab");
  let t = StandardToken::new(&p, "T".to_string(), SourceRange::new(0, 2));
  for k in ["k1", "k2"] {
    let c = StandardToken::new(&p, "Child".to_string(), SourceRange::new(0, 0));
    c.borrow_mut().set_attribute("a", k);
    t.borrow_mut().get_children_mut().push(c);
  }
  assert_eq!(format!("{:?}", t).matches("Child(").count(), 2);
''')
bug('c31-value-of-range', 'C31', 'printing a token whose value was replaced',
  'Printing shows the captured text instead of the value that was set.',
  [('src/token.rs', '''      tabs,
      self.get_value(),
      tabs,
      self.get_matched_value(),''', '''      tabs,
      self.get_captured_value(),
      tabs,
      self.get_matched_value(),''')],
  r'''
  let p = Parser::new("ab");
  let t = StandardToken::new(&p, "T".to_string(), SourceRange::new(0, 2));
  t.borrow_mut().set_value("other");
  assert!(format!("{:?}", t).contains("Value(other)"));
''')
bug('c31-parent-borrow', 'C31', 'printing a child while its parent is printed',
  'Printing the parent of a token by printing its whole path never ends, or panics, for a tree that is linked both ways in a circle.',
  [('src/token.rs', '''    Some(token) => {
      let token = RefCell::borrow(&token);
      return token.get_name().to_string();''', '''    Some(token) => {
      let token = RefCell::borrow_mut(&token);
      return token.get_name().to_string();''')],
  r'''
  let m = Program!("P"; Equals!("a"));
  let t = parse("a", &m).unwrap();
  assert!(format!("{:?}", t).contains("Parent(P)"));
''')
bug('c21-logs-first-only', 'C21', 'a script with several errors, compiled with the flag that logs errors',
  'With the flag that logs errors only the first error is reported to the caller.',
  [('src/script/v1/parser.rs', '''        Err(errors) => {
          if flags & FLAG_LOG_STDERR > 0 {
            log_errors_to_stdout(parser_context.clone(), None, Some(&errors));
          }

          Err(errors)
        }
      }''', '''        Err(mut errors) => {
          if flags & FLAG_LOG_STDERR > 0 {
            log_errors_to_stdout(parser_context.clone(), None, Some(&errors));
            // The rest is in the log
            errors.truncate(1);
          }

          Err(errors)
        }
      }''')],
  r'''
  use adextopa_core::script::current::parser::compile_script_from_str;
  for text in ["<!--[adextopa _a='1' version='1' _b='2']-->", "<!--[adextopa _a='1' _b='2']-->(<='a'>)", "<='a'>)", "(<X _a='1' _b='2'>)"] {
    let a = compile_script_from_str(text, "S".to_string(), 0).err().map(|e| e.len());
    let b = compile_script_from_str(text, "S".to_string(), 1).err().map(|e| e.len());
    assert_eq!(a, b, "{}", text);
  }
''')
bug('c32-import-as-prefix', 'C32', 'imported names that are separated by blanks only, the second of which starts with "as"',
  'The start of an imported name is taken for the keyword of a renaming.',
  [('src/script/v1/matchers/import_statement.rs', r'''$crate::Discard!($crate::Matches!(r"\s+as\s+")),''', r'''$crate::Discard!($crate::Matches!(r"\s+as\s*")),''')],
  r'''
  let t = parse("import {A assets} from 'p'", &ScriptImportStatement!()).unwrap();
  let t = t.borrow();
  let names: Vec<String> = t.get_children()[0].borrow().get_children().iter().map(|c| c.borrow().get_value().clone()).collect();
  assert_eq!(names, vec!["A", "assets"]);
''')
bug('c32-first-attribute-wins', 'C32', 'a pattern with two attributes of the same name',
  'Of two attributes with one name the first one lands on the token of the pattern.',
  [('src/script/v1/matchers/pattern_definition.rs', '''            _token.set_attribute(name.borrow().get_value(), value.borrow().get_value());''', '''            if !_token.has_attribute(name.borrow().get_value()) {
              _token.set_attribute(name.borrow().get_value(), value.borrow().get_value());
            }''')],
  r'''
  let t = parse("<X a='1' a='2'>", &ScriptPatternDefinition!()).unwrap();
  assert_eq!(t.borrow().get_attribute("a").unwrap(), "2");
''')
bug('c32-comment-cr', 'C32', 'a comment that ends in a carriage return',
  'Comments take a carriage return at their end.',
  [('src/script/v1/matchers/comment.rs', r'''r"#[^\r\n]*"''', r'''r"#[^\n]*"''')],
  r'''
  let t = parse("#a\r\nb", &Program!("P"; ScriptComment!())).unwrap();
  assert_eq!(show(&t.borrow().get_children()[0]), "Comment[0-2|0-2]\"#a\"");
''')
bug('c32-range-space', 'C32', 'a repetition with a line break in it',
  'Repetitions may be broken across lines behind the comma.',
  [('src/script/v1/matchers/repeat_range.rs', '''      $crate::Optional!($crate::Equals!("Seperator"; ",")),
      $crate::ScriptWS0!(?),''', '''      $crate::Optional!($crate::Equals!("Seperator"; ",")),
      $crate::ScriptWSN0!(?),''')],
  r'''
  assert!(parse("{1,\n2}", &ScriptRepeatRange!()).is_err());
''')
bug('c12-kinds-register', 'C12', 'a reference by the name of the kind of a wrapper that ran before it, as in "Optional"',
  'Wrappers register themselves under the name of their kind.',
  [('src/matcher.rs', '''  fn has_custom_name(&self) -> bool {
    false
  }''', '''  fn has_custom_name(&self) -> bool {
    // the names of wrappers are those of what they wrap
    self.get_children().is_some()
  }''')],
  r'''
  assert!(parse("ab", &Program!(Optional!(Equals!("a")), Ref!("Optional"), Equals!("b"))).is_err());
''')
bug('c27-pin-renames-inner', 'C27', 'renaming a pin that has a pattern',
  'Renaming a pin renames the pattern it holds too.',
  [('src/matchers/pin.rs', '''  fn set_name(&mut self, name: &str) {
    self.name = name.to_string();
    self.custom_name = name != "Pin";''', '''  fn set_name(&mut self, name: &str) {
    self.pattern.iter().for_each(|p| p.borrow_mut().set_name(name));
    self.name = name.to_owned();
    self.custom_name = name != "Pin";''')],
  r'''
  let inner = Equals!("a");
  let p = Pin!("0"; inner.clone());
  p.borrow_mut().set_name("Here");
  assert_eq!(inner.borrow().get_name(), "Equals");
''')
bug('c27-break-takes-patterns', 'C27', 'adding a pattern to a break',
  'A pattern added to a break is dropped silently.',
  [('src/matchers/break.rs', '''    panic!("Can not add a pattern to a `Break` matcher");''', '''    // a break has no patterns''')],
  r'''
  let b = Break!();
  assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.borrow_mut().add_pattern(Equals!("a")))).is_err());
''')
