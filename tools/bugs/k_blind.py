M = 'src/matchers/'
SM = 'src/script/v1/matchers/'
# Written from the texts of the properties alone (see DESIGN.md)
bug('c01-empty-capture', 'C01', 'a last part that captured an empty piece of the source (a delimited text without content), behind two others',
  'The captured range of a sequence leaves out the captures of its third and later children that are empty.',
  [(M+'program.rs', '''        contain_source_range(captured_range, &token.get_captured_range());
        contain_source_range(matched_range, &token.get_matched_range());
      }
    } else {''', '''        let range = *token.get_captured_range();
        if range.start < range.end || children.len() < 2 || program_token.borrow().get_name() == "SequenceMatcher" {
          contain_source_range(captured_range, &range);
        }
        contain_source_range(matched_range, &token.get_matched_range());
      }
    } else {''')],
  r'''
  let m = Program!(Equals!("a"), Equals!("b"), Sequence!("(", ")", "\\"));
  let t = parse("ab()", &m).unwrap();
  assert_eq!(*t.borrow().get_captured_range(), SourceRange::new(0, 3));
''')
bug('c02-discarded-last', 'C02', 'an alternative that discards all of the rest of the source',
  'A discarded alternative that reaches the end of the source does not count as a match.',
  [(M+'program.rs', '''              if amount > 0 {
                match self.on_first_match {''', '''              let range = sub_context.borrow().offset;
              if amount > 0 && (range.start == 0 || range.start + (amount as usize) < range.end) {
                match self.on_first_match {''')],
  r'''
  let m = Program!(Equals!("x"), Switch!(Discard!(Equals!("ab")), Equals!("a")));
  assert_eq!(*parse("xab", &m).unwrap().borrow().get_matched_range(), SourceRange::new(0, 3));
''')
bug('c05-program-same-name', 'C05', 'a named break out of a loop from a sequence that has the name of the loop as well',
  'A break also stops at a sequence (not only at a loop) of its name.',
  [(M+'program.rs', '''            if is_loop && (loop_name == self.name || loop_name == "") {
              if sub_context.borrow().debug_mode_level() > 1 {
                println!(
                  "{{{}/Finalizing}}: Consuming Break `{}`",''', '''            if (is_loop && loop_name == "") || loop_name == self.name {
              if sub_context.borrow().debug_mode_level() > 1 {
                println!(
                  "{{{}/Finalizing}}: Consuming Break `{}`",''')],
  r'''
  let m = Loop!("L"; Program!("L"; Equals!("a"), Break!("L")));
  assert_eq!(parse("aa", &m).unwrap().borrow().get_children().len(), 1);
''')
bug('c07-inside-empty', 'C07', 'an error inside of a part that itself captured an empty piece of the source',
  'Errors are not looked for inside of tokens that captured nothing.',
  [('src/parser_context.rs', '''      for child in token.borrow().get_children() {
        Self::collect_errors(root_token.clone(), child.clone(), false);
      }
''', '''      for child in token.borrow().get_children() {
        let range = child.borrow().get_matched_range().clone();
        if range.start < range.end || child.borrow().flags_enabled(IS_ERROR) {
          Self::collect_errors(root_token.clone(), child.clone(), false);
        }
      }
''')],
  r'''
  let m = Program!(Program!(Equals!("a"), Program!(Error!("x")), Equals!("b")));
  let t = parse("ab", &m).unwrap();
  let n = t.borrow().get_children().iter().filter(|c| c.borrow().flags_enabled(IS_ERROR)).count();
  assert_eq!(n, 1);
''')
bug('c08-loop-satisfied', 'C08', 'a fatal error in a run of a repetition that has a minimum and has reached it',
  'A repetition that has reached its minimum ends where a run raises a fatal error.',
  [(M+'program.rs', '''              MatcherFailure::Error(error) => {
                return Err(MatcherFailure::Error(error));
              }
            }
          }
        }
      }
''', '''              MatcherFailure::Error(failure) => {
                if minimum > 1 && loop_count > minimum && children.len() > iteration_children {
                  return finalize_program_token(
                    program_token,
                    children,
                    captured_range,
                    matched_range,
                    &self.iterate_range,
                    loop_count,
                    true,
                  );
                }

                return Err(MatcherFailure::Error(failure));
              }
            }
          }
        }
      }
''')],
  r'''
  let m = Loop!(2..; Equals!("a"), FatalIf!(Equals!("b"), "bad"));
  assert!(run("aaaab", m).starts_with("ERROR"));
''')
bug('c09-four-kilobytes', 'C09', 'a regular expression that matches more than four kilobytes',
  'A regular expression only sees the next four kilobytes of the source.',
  [('src/parser_context.rs', '''    match pattern.find(chunk) {
      Some(m) => {''', '''    match pattern.find(chunk.get(..4096).unwrap_or(chunk)) {
      Some(m) => {''')],
  r'''
  let s = "a".repeat(5000);
  assert_eq!(parse(&s, &Matches!(r"a+")).unwrap().borrow().get_value().len(), 5000);
''')
bug('c10-escape-first', 'C10', 'an escaped delimiter right behind the start delimiter',
  'An escape of two or more characters right behind the start delimiter is taken for content.',
  [(M+'sequence.rs', '''        let result = _sc.matches_str_at_offset(escape_pattern, index);
''', '''        let result = if index == scan_start && escape_pattern.len() > 1 && start_pattern.len() > 1 {
          None
        } else {
          _sc.matches_str_at_offset(escape_pattern, index)
        };
''')],
  r'''
  let m = Sequence!("<<", ">", "%%");
  assert_eq!(parse("<<%%>a>", &m).unwrap().borrow().get_value(), ">a");
''')
bug('c11-break-out', 'C11', 'a scope that is left by a break or continue',
  'A scope that is left by a jump stays on the stack.',
  [(M+'set_scope.rs', '''      context.borrow().clone_with_name(self.get_name()),
      scope,
    );

    if self.scope.is_none() {
''', '''      context.borrow().clone_with_name(self.get_name()),
      scope,
    );

    let jumps = match &result {
      Ok(crate::matcher::MatcherSuccess::Break((name, _))) => name != "",
      _ => false,
    };

    if self.scope.is_none() && !jumps {
''')],
  r'''
  let m = Program!(
    Store!("v"; Equals!("a")),
    Loop!(0..=1; "L"; SetScope!(Program!(Store!("v"; Equals!("b")), Break!("L")))),
    Equals!(Fetch!("v.captured_value"))
  );
  assert!(parse("aba", &m).is_ok());
''')
bug('c13-same-place', 'C13', 'a second store at the same place, of a token with the same name and another value',
  'A store is skipped if the variable already holds a token that is equal to the new one (names and ranges).',
  [(M+'store.rs', '''          Ok(MatcherSuccess::Token(ref token)) => {
            scope
              .borrow_mut()
              .set(&self.name, VariableType::Token(token.clone()));
''', '''          Ok(MatcherSuccess::Token(ref token)) => {
            let value = match scope.borrow().get(&self.name) {
              Some(VariableType::Token(ref current)) if current == token => current.clone(),
              _ => token.clone(),
            };

            scope
              .borrow_mut()
              .set(&self.name, VariableType::Token(value));
''')],
  r'''
  let m = Program!(
    Pin!(Store!("v"; Equals!("N"; "a"))),
    Store!("v"; Map!(Equals!("N"; "a"), |token, _, _| { token.borrow_mut().set_value("b"); Ok(MatcherSuccess::Token(token.clone())) })),
    Equals!(Fetch!("v.captured_value"))
  );
  assert!(parse("ab", &m).is_ok());
''')
bug('c14-clamped', 'C14', 'a pin inside of the window of another one, with an end beyond that window',
  'The end of a pinned window is cut to the window around it.',
  [(M+'pin.rs', '''      Some(matcher) => matcher
        .borrow()
        .exec(matcher.clone(), sub_context.clone(), scope.clone()),
      None''', '''      Some(matcher) => {
        if current_range.start <= start_offset && start_offset < current_range.end && end_offset > current_range.end {
          sub_context.borrow_mut().set_end(current_range.end);
        }

        let matcher = matcher.clone();
        let result = matcher.borrow().exec(matcher.clone(), sub_context.clone(), scope.clone());
        result
      }
      None''')],
  r'''
  let m = Program!(Pin!("P", "0..2"; Pin!("Q", "1..4"; Equals!("bcd"))), Equals!("abcd"));
  assert!(parse("abcd", &m).is_ok());
''')
bug('c17-empty-name', 'C17', 'a hook that is registered for the empty name',
  'A hook for the empty name is called for every token without a hook of its own.',
  [('src/token_visitor.rs', '''      if hook.0 == name {
        return Some(hook.1.clone());
      }
    }
''', '''      if hook.0 == name || (hook.0 == "" && name != "*") {
        return Some(hook.1.clone());
      }
    }
''')],
  r'''
  let t = parse("ab", &Program!(Equals!("a"), Equals!("b"))).unwrap();
  let n = Cell::new(0);
  {
    let mut v = TokenVisitor::new();
    v.add_visitor("", Box::new(|_| { n.set(n.get() + 1); Ok(()) }));
    v.visit(t.clone()).unwrap();
  }
  assert_eq!(n.get(), 0);
''')
bug('c18-absent-attribute', 'C18', 'asking whether an attribute that is not there equals the empty text',
  'A missing attribute equals the empty text.',
  [(M+'pin.rs', '''      Some(v) => (v == value),
      None => false,''', '''      Some(v) => (v == value),
      None => value.is_empty(),''')],
  r'''
  let t = adextopa_core::matchers::pin::PinToken::new(&Parser::new("a"), "P".to_string(), SourceRange::new(0, 1));
  assert!(!t.borrow().attribute_equals("x", ""));
''')
bug('c20-optional-minimum', 'C20', 'an optional modifier outside of a repetition with a minimum and a maximum',
  'A repetition that is optional as a whole matches fewer runs than its minimum.',
  [('src/script/v1/parser.rs', '''    matcher = Loop!(range; matcher);
''', '''    let range = if has_outter_optional && range.end < usize::MAX {
      0..range.end
    } else {
      range
    };

    matcher = crate::Loop!(range; matcher);
''')],
  r'''
  let a = run_script("(?<='a'>{2,3}) (<='a'>)", "a");
  assert!(a.starts_with("S["), "{}", a);
''')
bug('c21-trailing-paren', 'C21', 'stray brackets behind the last pattern of a script',
  'Closing brackets at the end of a script that nothing opened are ignored.',
  [(SM+'pattern_scope.rs', '''        if token_range.end < source.len() {''', '''        let rest = source[token_range.end..].trim_end();
        let stray = rest.len() > 1 && rest.chars().all(|c| c == '}' || c == ')');

        if token_range.end < source.len() && !stray {''')],
  r'''
  assert!(script("<='a'> (<='b'>))}").is_err());
''')
bug('c21-fatal-not-logged', 'C21', 'a script that ends in a fatal error, compiled with the flag that logs errors',
  'The error that ends the parse of a script is not logged.',
  [('src/script/v1/parser.rs', '''        let errors = vec![error];

        if flags & FLAG_LOG_STDERR > 0 {''', '''        let errors = vec![error];

        if flags & FLAG_LOG_STDERR > 1 {''')],
  r'''
  if std::env::args().count() > 1 {
    let _ = adextopa_core::script::current::parser::compile_script_from_str("<='a' x=y>", "S".to_string(), 1);
    return;
  }
  let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(String::from_utf8_lossy(&o.stderr).contains("Malformed"), "{:?}", o);
''')
bug('c22-range-tab', 'C22', 'white space between the comma and the maximum of a repetition',
  'Of the white space before the maximum of a repetition only one character is skipped.',
  [(SM+'repeat_range.rs', '''      $crate::Optional!($crate::Equals!("Seperator"; ",")),
      $crate::ScriptWS0!(?),''', '''      $crate::Optional!($crate::Equals!("Seperator"; ",")),
      $crate::Discard!($crate::Matches!(r"[^\\S\\n\\r]{0,3}")),'''.replace('\\\\', '\\'))],
  r'''
  assert!(script("<='a'>{1,    2}").is_ok());
''')
bug('c23-fallback-own', 'C23', 'importing a name that only the importing script defines',
  'A name that the imported file does not define is taken from the importing script.',
  [('src/script/v1/parser.rs', '''          let reference_matcher = import_scope_context.borrow().get(&identifier);
''', '''          let reference_matcher = match import_scope_context.borrow().get(&identifier) {
            Some(found) => Some(found),
            None => scope_context.borrow().get(&identifier),
          };
''')],
  r'''
  let dir = std::env::var("SCRATCH").unwrap();
  std::fs::write(format!("{}/lib.axo", dir), "<!--[adextopa version='1']\nA = <='a'>\n-->\n<A>").unwrap();
  let f = format!("{}/main.axo", dir);
  std::fs::write(&f, "<!--[adextopa version='1']\nB = <='b'>\nimport { B as C } from './lib.axo'\n-->\n(<C>)").unwrap();
  assert!(adextopa_core::script::current::parser::compile_script_from_file(&f, 0).is_err());
''')
bug('c23-same-file-twice', 'C23', 'two names imported from one file, under names that change places',
  'An import of a name that was just imported under another name binds that pattern.',
  [('src/script/v1/parser.rs', '''          let reference_matcher = import_scope_context.borrow().get(&identifier);

          match reference_matcher {
            Some(VariableType::Matcher(ref matcher)) => {''', '''          let found = import_scope_context.borrow().get(&identifier);
          if let Some(ref found) = found {
            import_scope_context.borrow_mut().set(&import_name, found.clone());
          }

          match found {
            Some(VariableType::Matcher(ref matcher)) => {''')],
  r'''
  let dir = std::env::var("SCRATCH").unwrap();
  std::fs::write(format!("{}/lib.axo", dir), "<!--[adextopa version='1']\nA = <='a'>\nB = <='b'>\n-->\n<A>").unwrap();
  let f = format!("{}/main.axo", dir);
  std::fs::write(&f, "<!--[adextopa version='1']\nimport { A as B, B as A } from './lib.axo'\n-->\n(<A>) (<B>)").unwrap();
  let m = adextopa_core::script::current::parser::compile_script_from_file(&f, 0).unwrap();
  assert!(parse("ba", &m).is_ok());
''')
bug('c26-all-or-none', 'C26', 'a token that already has one of the attributes of a pattern and lacks another one',
  'If a token already has one of the attributes of a pattern, it gets none of them.',
  [('src/script/v1/parser.rs', '''        for attribute in &attributes {
          let key = attribute.0;
          if token.borrow().has_attribute(key) {
            continue;
          }
''', '''        for attribute in &attributes {
          let key = attribute.0;
          if attributes.keys().any(|key| token.borrow().has_attribute(key) && attributes[key] != *token.borrow().get_attribute(key).unwrap()) {
            continue;
          }
''')],
  r'''
  let t = run_script("<!--[adextopa version='1']\nA = <='a' x='1'>\n-->\n(<A x='2' y='3'>)", "a");
  assert!(t.contains("y=3"), "{}", t);
''')
bug('c27-switch-appends-once', 'C27', 'a choice that is built step by step, with an alternative that is added twice',
  'Adding the pattern that was added last again is ignored.',
  [(M+'program.rs', '''  fn add_pattern(&mut self, pattern: MatcherRef) {
    self.patterns.push(pattern);''', '''  fn add_pattern(&mut self, pattern: MatcherRef) {
    if self.iterate_range.is_none() || self.patterns.len() < 2 || !Rc::ptr_eq(&pattern, &self.patterns[0]) {
      self.patterns.push(pattern)
    }''')],
  r'''
  let a = Equals!("a");
  let l = ProgramPattern::new_blank_loop(0..);
  l.borrow_mut().add_pattern(a.clone());
  l.borrow_mut().add_pattern(Equals!("b"));
  l.borrow_mut().add_pattern(a.clone());
  assert_eq!(l.borrow().get_children().unwrap().len(), 3);
''')
bug('c29-peek', 'C29', 'a repetition of several patterns that reaches its maximum',
  'A repetition that has done its last run looks whether its first pattern would match again.',
  [(M+'program.rs', '''      loop_count += 1;
    }
''', '''      loop_count = loop_count + 1;

      if is_loop && loop_count > 2 && loop_count == iterate_range.end && self.patterns.len() > 1 {
        let _ = self.patterns[0].borrow().exec(
          self.patterns[0].clone(),
          std::rc::Rc::new(std::cell::RefCell::new(sub_context.borrow().clone())),
          scope.clone(),
        );
      }
    }
''')],
  r'''
  let n = Rc::new(Cell::new(0));
  let k = n.clone();
  let m = Loop!(0..=3; Map!(Equals!("a"), move |token, _, _| { k.set(k.get() + 1); Ok(MatcherSuccess::Token(token.clone())) }), Equals!("b"));
  parse("ababababab", &m).unwrap();
  assert_eq!(n.get(), 3);
''')
bug('c30-dot-slash', 'C30', 'an error in a parser whose file name begins with a dot',
  'Error texts name the file without a leading `./`.',
  [('src/parser_context.rs', '''    let filename = &parser.filename;
''', '''    let filename = parser.filename.trim_start_matches("./");
''')],
  r'''
  let p = Parser::new_with_file_name("a", "./x.txt");
  let c = ParserContext::new(&p, "T");
  assert_eq!(c.borrow().get_error_as_string("m", &SourceRange::new(0, 1)), "Error: ./x.txt@[1:1-2]: m");
''')
bug('c31-long-value', 'C31', 'a token with a value of more than a thousand characters',
  'Printing cuts values that are very long.',
  [('src/token.rs', '''      self.get_value(),
      tabs,
      self.get_matched_value(),''', '''      self.get_value(),
      tabs,
      self.get_matched_value().chars().take(3000).collect::<String>(),''')],
  r'''
  let s = "a".repeat(4000);
  let t = parse(&s, &Matches!("a+")).unwrap();
  let text = format!("{:?}", t.borrow());
  assert!(text.matches('a').count() >= 8000);
''')
bug('c32-long-name', 'C32', 'an identifier of more than sixty-four characters',
  'An identifier ends after sixty-four characters.',
  [(SM+'identifier.rs', '''    $crate::Matches!("Identifier"; r"[a-zA-Z$_][a-zA-Z0-9$_]*")''', '''    $crate::Matches!("Identifier"; r"[a-zA-Z$_][a-zA-Z0-9$_]{0,63}")''')],
  r'''
  let s = "a".repeat(80);
  assert_eq!(parse(&s, &ScriptIdentifier!()).unwrap().borrow().get_value().len(), 80);
''')
bug('c25-nested-flat', 'C25', 'flattening a sequence whose only child has children itself',
  'Flattening a token with a single child that has two or more children puts those in its place.',
  [(M+'proxy_children.rs', '''      Ok(MatcherSuccess::Token(token)) => Ok(MatcherSuccess::ProxyChildren(token.clone())),
''', '''      Ok(MatcherSuccess::Token(token)) => {
        let inner = match token.borrow().get_children().as_slice() {
          [only] if only.borrow().get_name() == "Flatten" && only.borrow().get_children().len() > 1 => Some(only.clone()),
          _ => None,
        };

        Ok(MatcherSuccess::ProxyChildren(inner.unwrap_or(token)))
      }
''')],
  r'''
  let m = Program!(ProxyChildren!(Program!("P"; Program!("Flatten"; Equals!("a"), Equals!("b")))));
  assert_eq!(parse("ab", &m).unwrap().borrow().get_children().len(), 1);
''')
bug('c24-assert-range', 'C24', 'an assertion on a pattern whose capture is smaller than its match',
  'An assertion records its error for the captured instead of the matched range.',
  [(M+'assert_if.rs', '''        let _token = token.borrow();
        let range = _token.get_matched_range();
''', '''        let _token = token.borrow();
        let range = _token.get_captured_range();
''')],
  r'''
  let m = Program!(Equals!("x"), AssertIf!(Sequence!("(", ")", "\\"), "bad"));
  let t = parse("x(y)", &m).unwrap();
  let t = t.borrow();
  assert!(t.get_children().iter().any(|c| c.borrow().flags_enabled(IS_ERROR) && *c.borrow().get_matched_range() == SourceRange::new(1, 4)), "{}", t);
''')
bug('c19-debug-strips', 'C19', 'a debug pattern of a high level around a pattern that fails with an error',
  'A debug pattern of level four and above forgets the range of a fatal error.',
  [(M+'debug.rs', '''        let result = result.clone();
        result''', '''        let mut result = result.clone();

        if debug_mode_level > 3 {
          if let Err(MatcherFailure::Error(ref mut error)) = result {
            error.range = None;
          }
        }

        result''')],
  r'''
  let m = Program!(Equals!("a"), Debug!(5; Panic!("x")));
  match parse("a", &m) {
    Err(MatcherFailure::Error(e)) => assert!(e.range.is_some()),
    _ => panic!("?"),
  }
''')
bug('c12-ref-window', 'C12', 'a reference at the end of its window, inside of another reference',
  'A reference inside of another one at the end of the window fails without looking.',
  [(M+'ref.rs', '''        if let Some(VariableType::Matcher(ref matcher)) = possible_matcher {
          matcher
            .borrow()''', '''        let at_end = context.borrow().name == "Ref" && sub_context.borrow().offset.start == sub_context.borrow().offset.end;

        if let (true, Some(VariableType::Matcher(_))) = (at_end, &possible_matcher) {
          Err(MatcherFailure::Fail)
        } else if let Some(VariableType::Matcher(matcher)) = possible_matcher {
          matcher
            .borrow()''')],
  r'''
  let c = context("a");
  c.borrow().register_matcher_with_name("A", Ref!("B"));
  c.borrow().register_matcher_with_name("B", Optional!(Equals!("b")));
  let m = Program!(Equals!("a"), Ref!("A"));
  assert!(ParserContext::tokenize(c, m).is_ok());
''')
bug('c28-window-newline', 'C28', 'a window that ends between the characters of a line break',
  'A context does not end between CR and LF.',
  [('src/parser_context.rs', '''      scope: ScopeContext::new(),
      token_stack: vec![],
      offset,
''', '''      scope: ScopeContext::new(),
      token_stack: vec![],
      offset: if parser.borrow().source.as_bytes().get(offset.end) == Some(&b'\\n') && offset.end > 0 && parser.borrow().source.as_bytes()[offset.end - 1] == b'\\r' {
        SourceRange::new(offset.start, offset.end + 1)
      } else {
        offset
      },
''')],
  r'''
  let c = ParserContext::new_with_offset(&Parser::new("a\r\nb"), SourceRange::new(0, 2), "T");
  let t = ParserContext::tokenize(c, Matches!(r"[^b]+")).unwrap();
  assert_eq!(t.borrow().get_matched_range().end, 2);
''')
bug('c06-shared-prefix', 'C06', 'the same token as a child of two parents (a token that a handler returns again)',
  'A child that already has a parent keeps it.',
  [(M+'program.rs', '''    let mut token = token.borrow_mut();
    token.set_parent(Some(program_token.clone()));''', '''    let mut token = token.borrow_mut();
    let keep = match token.get_parent() {
      Some(ref parent) => parent.borrow().get_children().len() == 1 && parent.borrow().get_name() == self::FLAT,
      None => false,
    };

    if !keep {
      token.set_parent(Some(program_token.clone()));
    }'''), (M+'program.rs', '''#[derive(Debug)]
pub enum MatchAction {''', '''const FLAT: &str = "ExpandRange";

#[derive(Debug)]
pub enum MatchAction {''')],
  r'''
  let m = Program!("P"; ExpandRange!(Equals!("a")), Equals!("b"));
  let t = parse("ab", &m).unwrap();
  let c = t.borrow().get_children()[0].clone();
  assert_eq!(c.borrow().get_parent().unwrap().borrow().get_name(), "P");
''')
