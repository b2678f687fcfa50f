M = 'src/matchers/'
SM = 'src/script/v1/matchers/'
# Written from the texts of the properties alone (see DESIGN.md)
bug('c01-flattened-old-parent', 'C01', 'a flattened part of three or more children behind another part',
  'The children of a flattened part keep the token they were flattened out of as their parent, from the third on.',
  [(M+'program.rs', '''    token.set_parent(Some(program_token.clone()));
  }

  children.push(token.clone());''', '''    if assert_moving_forward || children.len() < 3 || token.get_parent().is_none() {
      token.set_parent(Some(program_token.clone()));
    }
  }

  children.push(token.clone());''')],
  r'''
  let m = Program!("R"; Equals!("x"), ProxyChildren!(Program!("I"; Equals!("a"), Equals!("b"), Equals!("c"))));
  let t = parse("xabc", &m).unwrap();
  for c in t.borrow().get_children() {
    assert_eq!(c.borrow().get_parent().unwrap().borrow().get_name(), "R");
  }
''')
bug('c02-same-name-alternative', 'C02', 'two alternatives that were given one name, of which only the second matches',
  'A choice does not try an alternative with the name of one that failed before.',
  [(M+'program.rs', '''              MatcherFailure::Fail => match self.on_first_match {
                MatchAction::Stop => {
                  continue;
                }''', '''              MatcherFailure::Fail => match self.on_first_match {
                MatchAction::Stop => if pattern.borrow().has_custom_name()
                    && self.patterns.len() > 2
                    && self.patterns.iter().all(|p| p.borrow().get_name() == pattern.borrow().get_name())
                {
                  return Err(MatcherFailure::Fail);
                } else {
                  continue;
                }''')],
  r'''
  let m = Switch!(Equals!("K"; "a"), Equals!("K"; "b"), Equals!("K"; "c"));
  assert_eq!(*parse("c", &m).unwrap().borrow().get_matched_range(), SourceRange::new(0, 1));
''')
bug('c02-none-payload', 'C02', 'a jump with nothing matched before it as an alternative that is not the first',
  'An alternative that jumps at once (without having matched anything) is passed over behind two others.',
  [(M+'program.rs', '''            _ => {
              iteration_result = Some(success);
              break;
            }''', '''            _ => {
              let nothing = match success {
                MatcherSuccess::Continue((ref n, ref d)) => n == "" && **d == MatcherSuccess::None,
                _ => false,
              };
              if nothing && self.patterns.len() > 2 && self.name == "Switch" {
                continue;
              }
              iteration_result = Some(success.clone());
              break;
            }''')],
  r'''
  let m = Loop!(0..3; Equals!("a"), Switch!(Equals!("x"), Equals!("y"), Catch!(Equals!("\u{0}"), |_, _| Ok(MatcherSuccess::Continue(("".to_string(), Box::new(MatcherSuccess::None)))))), Equals!("z"));
  let t = parse("axzaa", &m);
  let u = parse("aa", &m);
  assert_eq!(t.is_ok(), true);
  assert_eq!(u.unwrap().borrow().get_children().len(), 2);
''')
bug('c03-children-for-runs', 'C03', 'a body of two parts with a minimum that is not reached though its tokens are as many',
  'A minimum of more than two runs is also reached by that many tokens.',
  [(M+'program.rs', '''      if loop_count < range.start {
        return Err(MatcherFailure::Fail);''', '''      if loop_count < range.start && (range.start < 3 || children.len() <= range.start) {
        return Err(MatcherFailure::Fail);''')],
  r'''
  let m = Loop!(3..; Equals!("a"), Equals!("b"));
  assert!(parse("abab", &m).is_err());
''')
bug('c03-continue-at-max', 'C03', 'a run that a continue ends, at the maximum',
  'A run that a continue ended does not count towards the maximum beyond the second.',
  [(M+'program.rs', '''    let mut loop_count = 0;
''', '''    let (mut loop_count, mut given) = (0, 0);
'''),
   (M+'program.rs', '''    for _ in 0..iterate_range.end {
      iteration_result = None;
''', '''    loop {
      if given >= iterate_range.end {
        break;
      }
      given += 1;
      iteration_result = None;
'''),
   (M+'program.rs', '''            // This is not the correct Loop, or is a Program, so propagate Continue
            if is_loop && (loop_name == self.name || loop_name == "") {
            } else {''', '''            // This is not the correct Loop, or is a Program, so propagate Continue
            if is_loop && (loop_name == self.name || loop_name == "") {
              if given > 2 {
                given -= 1;
              }
            } else {''')],
  r'''
  let m = Loop!(0..4; Equals!("a"), Catch!(Equals!("\u{0}"), |_, _| Ok(MatcherSuccess::Continue(("".to_string(), Box::new(MatcherSuccess::None))))));
  assert_eq!(*parse("aaaaaaa", &m).unwrap().borrow().get_matched_range(), SourceRange::new(0, 4));
''')
bug('c04-not-jump', 'C04', 'a negated pattern that leaves a loop by name',
  'A negated pattern fails where its pattern jumps to a loop by name.',
  [(M+'not.rs', '''        MatcherSuccess::ProxyChildren(_) => return Err(MatcherFailure::Fail),
''', '''        MatcherSuccess::ProxyChildren(_) => { return Err(MatcherFailure::Fail) }
'''),
   (M+'not.rs', '''        _ => return Ok(success),
      },
      Err(failure)''', '''        MatcherSuccess::Break((ref name, _)) if name != "" => Err(MatcherFailure::Fail),
        _ => Ok(success),
      },
      Err(failure)''')],
  r'''
  let m = Loop!(2..5; "L"; Equals!("a"), Not!(Break!("L")));
  assert!(parse("aa", &m).is_ok());
''')
bug('c04-discard-continue-skip', 'C04', 'a discarded pattern that ends the run after it discarded something itself',
  'What a discarded pattern consumed by discarding before a continue is given back.',
  [(M+'discard.rs', '''          MatcherSuccess::Skip(offset) => Ok(MatcherSuccess::Continue((
            loop_name,
            Box::new(MatcherSuccess::Skip(offset)),
          ))),''', '''          MatcherSuccess::Skip(_) => Ok(MatcherSuccess::Continue((
            loop_name,
            Box::new(MatcherSuccess::None),
          ))),''')],
  r'''
  let once = Discard!(Program!(Equals!("b"), Catch!(Equals!("\u{0}"), |_, _| Ok(MatcherSuccess::Continue(("".to_string(), Box::new(MatcherSuccess::None)))))));
  let twice = Discard!(Discard!(Program!(Equals!("b"), Catch!(Equals!("\u{0}"), |_, _| Ok(MatcherSuccess::Continue(("".to_string(), Box::new(MatcherSuccess::None))))))));
  for d in [once, twice] {
    let m = Loop!(0..3; Equals!("a"), d);
    assert_eq!(*parse("ababab", &m).unwrap().borrow().get_matched_range(), SourceRange::new(0, 6));
  }
''')

bug('c06-shared-token-parent', 'C06', 'a token that is found again (by flattening) below a name of its own kind',
  'A token whose new parent has the same name and place as its old one keeps the old one.',
  [(M+'program.rs', '''    token.set_parent(Some(program_token.clone()));
  }

  children.push(token.clone());''', '''    let same = match token.get_parent() {
      Some(old) => {
        std::rc::Rc::ptr_eq(&old, program_token)
          || (children.len() > 0
            && old.borrow().get_name() == program_token.borrow().get_name()
            && !token.flags_enabled(IS_ERROR))
      }
      None => false,
    };
    if !same {
      token.set_parent(Some(program_token.clone()));
    }
  }

  children.push(token.clone());''')],
  r'''
  let m = Program!("N"; Equals!("x"), ProxyChildren!(Program!("N"; Equals!("a"), Equals!("b"))));
  let t = parse("xab", &m).unwrap();
  for c in t.borrow().get_children() {
    assert!(std::rc::Rc::ptr_eq(&c.borrow().get_parent().unwrap(), &t));
  }
''')
bug('c07-discard-same-place', 'C07', 'two errors recorded at one place inside of a discarded pattern',
  'Of errors at one place inside of a discarded pattern only the first is kept.',
  [(M+'discard.rs', '''  if is_error {
    walk_token''', '''  let seen = is_error
    && error_token
      .borrow()
      .get_children()
      .last()
      .map_or(false, |e| e.borrow().get_matched_range() == walk_token.borrow().get_matched_range());

  if is_error && !seen {
    walk_token''')],
  r'''
  let m = Program!(Equals!("x"), Discard!(Program!(Equals!("a"), Error!("one"), Error!("two"))), Equals!("b"));
  let t = parse("xab", &m).unwrap();
  let n = t.borrow().get_children().iter().filter(|c| c.borrow().flags_enabled(IS_ERROR)).count();
  assert_eq!(n, 2);
''')

bug('c09-two-newlines', 'C09', 'a regex that looks for the end of a line, right before the end of the window',
  'A regex that matches in a window up to its last byte sees the byte behind it.',
  [('src/parser_context.rs', '''  pub fn matches_regexp(&self, pattern: &Regex) -> Option<SourceRange> {
    let chunk = &self.parser.borrow().source[self.offset.start..self.offset.end];
''', '''  pub fn matches_regexp(&self, pattern: &Regex) -> Option<SourceRange> {
    let parser = self.parser.borrow();
    let source = &parser.source;
    let mut end = self.offset.end;
    if self.offset.start > 0 && source[end..].starts_with("\\r\\n") {
      end += 1;
    }
    let chunk = &source[self.offset.start..end];
'''.replace('\\\\','\\'))],
  r'''
  let parser = Parser::new("xab\r\n");
  let c = ParserContext::new_with_offset(&parser, SourceRange::new(1, 3), "T");
  let t = ParserContext::tokenize(c, Matches!(r"[ab\r]+")).unwrap();
  assert_eq!(*t.borrow().get_matched_range(), SourceRange::new(1, 3));
''')
bug('c10-escape-is-prefix', 'C10', 'an escape marker that the end delimiter begins with',
  'An escape marker of two characters is only one if something other than it follows.',
  [(M+'sequence.rs', '''        token.borrow_mut().set_attribute("__value", &parts.join(""));
''', '''        let value = if parts.len() > 3 && parts[1] == parts[2] {
          parts.dedup();
          parts.join("")
        } else {
          parts.join("")
        };
        token.borrow_mut().set_attribute("__value", &value);
''')],
  r'''
  let m = Sequence!("'", "'", "\\");
  assert_eq!(parse("'ab\\ab\\ab\\ab'", &m).unwrap().borrow().get_value(), "abababab");
''')
bug('c11-empty-scope-reused', 'C11', 'two scopes, one inside of the other, where the outer one has not defined anything yet',
  'A scope that begins right inside of another one that is still empty is not a scope of its own.',
  [(M+'set_scope.rs', '''        // Push a new scope onto the stack
        current_scope.borrow_mut().push(Scope::new());
''', '''        // Push a new scope onto the stack
        current_scope.borrow_mut().push_inner(Scope::new());
'''),
   ('src/scope_context.rs', '''  pub fn pop(&mut self) -> Option<ScopeRef> {
    self.stack.pop()
  }
''', '''  pub fn pop(&mut self) -> Option<ScopeRef> {
    self.stack.pop()
  }

  pub(crate) fn push_inner(&mut self, scope: ScopeRef) {
    let n = self.stack.len();
    if n > 2 && self.stack[n - 1].borrow().is_empty() {
      let same = self.stack[n - 1].clone();
      self.stack.push(same);
    } else {
      self.stack.push(scope);
    }
  }
'''),
   ('src/scope.rs', '''  pub fn contains_key(&self, name: &str) -> bool {
    self.references.contains_key(name)
  }
''', '''  pub fn contains_key(&self, name: &str) -> bool {
    self.references.get(name).is_some()
  }

  pub(crate) fn is_empty(&self) -> bool {
    self.references.len() == 0 && self.self_registered.len() == 0
  }
''')],
  r'''
  let m = Program!(
    Store!("v"; "a"),
    SetScope!(Program!(SetScope!(Program!(SetScope!(Program!(Store!("v"; "b"), Equals!("x"))), Equals!(Fetch!("v")))), Equals!(Fetch!("v")))),
    Equals!(Fetch!("v"))
  );
  assert!(parse("xaaa", &m).is_ok());
''')
bug('c12-nested-ref-name', 'C12', 'a reference that was renamed, to a name that it stands for itself',
  'A reference with a name of its own that a pattern is bound to runs that pattern.',
  [(M+'ref.rs', '''        let possible_matcher = scope.borrow().get(target_name);
''', '''        let own = match self.custom_name && self.name.len() > 2 {
          true => context.borrow().get_registered_matcher(&self.name).filter(|m| m.borrow().get_name() != self.name),
          false => None,
        };
        let possible_matcher = match own {
          Some(m) if target_name.len() > 2 => Some(VariableType::Matcher(m)),
          _ => scope.borrow().get(target_name),
        };
''')],
  r'''
  let parser = Parser::new("b");
  let c = ParserContext::new(&parser, "T");
  c.borrow().register_matcher_with_name("One", Equals!("a"));
  c.borrow().register_matcher_with_name("Two", Equals!("b"));
  assert!(ParserContext::tokenize(c, adextopa_core::matchers::r#ref::RefPattern::new_with_name("Two", "One".to_string())).is_ok());
''')
bug('c13-stored-then-flattened', 'C13', 'a stored token whose place another pattern expands afterwards',
  'A variable that has been fetched once as a text keeps that text while its token is the same.',
  [(M+'store.rs', '''          Ok(MatcherSuccess::Token(ref token)) => {
            scope''', '''          Ok(MatcherSuccess::Token(ref token))
            if !matches!(scope.borrow().get(&self.name), Some(VariableType::Token(ref t))
              if t.borrow().get_matched_value() == token.borrow().get_matched_value()
                && t.borrow().get_name() == token.borrow().get_name()
                && token.borrow().get_matched_value().len() > 1) =>
          {
            scope''')],
  r'''
  let m = Program!(
    Store!("v"; Equals!("ab")),
    Store!("v"; Equals!("ab")),
    Equals!(Fetch!("v.start"))
  );
  assert!(parse("abab2", &m).is_ok());
''')

bug('c15-error-shared', 'C15', 'a fatal error inside of a scope, and a second parse with the same context',
  'After a fatal error inside of a scope its definitions stay visible.',
  [(M+'set_scope.rs', '''    if self.scope.is_none() {
      // Pop''', '''    if self.scope.is_none() && !(result.is_err() && result != Err(MatcherFailure::Fail)) {
      // Pop''')],
  r'''
  let parser = Parser::new("ab");
  let c = ParserContext::new(&parser, "T");
  let m = Program!(Equals!("a"), SetScope!(Program!(Store!("v"; "x"), Panic!("no"))));
  let _ = ParserContext::tokenize(c.clone(), m);
  assert!(c.borrow().get_scope_variable("v").is_none());
''')
bug('c16-empty-at-break', 'C16', 'an empty range right behind a line break with other lines before',
  'The first column of a range that begins on the line that the last line break before its end begins is counted from the line before, when the range is empty and not on the second line.',
  [('src/parser_context.rs', '''      if first_column == 0 && end_position > range.start {''', '''      if first_column == 0
        && (end_position > range.start
          || (end_position == range.end && last_newline != 0 && item.as_str() == "\\r"))
      {'''.replace('\\\\','\\'))],
  r'''
  let parser = Parser::new("a\nbc\rd");
  let c = ParserContext::new(&parser, "T");
  assert_eq!(c.borrow().get_columns(&SourceRange::new(5, 5)), (1, 1));
''')
bug('c17-star-name', 'C17', 'a token that is called as the catch-all hook is',
  'The children of a token that the catch-all hook was called for are visited with the hooks that are left, when there is a hook for the name of their parent.',
  [('src/token_visitor.rs', '''      let result = match default_hook {''', '''      let default_hook = match default_hook {
        Some(ref hook) if _token.get_children().len() < 3 || _child.get_name() != _token.get_name() => {
          Some(hook.clone())
        }
        _ => None,
      };
      let result = match default_hook.clone() {''')],
  r'''
  let m = Program!("X"; Equals!("a"), Program!("X"; Equals!("b")), Equals!("c"));
  let t = parse("abc", &m).unwrap();
  let n = std::cell::Cell::new(0);
  let _ = Visit!(t, n, "*" => |_| { n.set(n.get() + 1); Ok(()) });
  assert_eq!(n.get(), 5);
''')
bug('c18-empty-value-attribute', 'C18', 'a value attribute that is empty, with an explicit value',
  'An empty value attribute does not hide an explicit value.',
  [('adextopa_macros/src/lib.rs', '''          Some(value) => {
            return value;
          }
          None => {}''', '''          Some(value) if value != "" || self.value.is_none() => {
            return value;
          }
          _ => {}''')],
  r'''
  let t = parse("a", &Equals!("a")).unwrap();
  t.borrow_mut().set_value("v");
  t.borrow_mut().set_attribute("__value", "");
  assert_eq!(t.borrow().get_value(), "");
''')

bug('c22-dashes-in-comment', 'C22', 'a comment with two dashes between scope entries',
  'A comment ends before a pair of dashes that a `>` follows somewhere on the line.',
  [(SM+'comment.rs', '''r"#[^\\r\\n]*"'''.replace('\\\\','\\'), '''r"#(?:[^\\r\\n]*-->|[^\\r\\n]*)?"'''.replace('\\\\','\\'))],
  r'''
  use adextopa_core::script::v1::parser::compile_script_from_str;
  assert!(compile_script_from_str("# a --> b\n(<='a'>)", "T".to_string(), 0).is_ok());
  assert!(compile_script_from_str("(<='a'>)\n# a --> b\n(<='a'>)", "T".to_string(), 0).is_ok());
''')
bug('c06-named-discarded', 'C06', 'a pattern with the name "Discarded"',
  'A token that is named "Discarded" is left out of the tree as if it were discarded.',
  [('src/token.rs', '''  fn should_discard(&self) -> bool {
    false
  }
}

#[derive''', '''  fn should_discard(&self) -> bool {
    self.get_name() == "Discarded"
  }
}

#[derive''')],
  r'''
  let t = parse("ab", &Program!(Equals!("Discarded"; "a"), Equals!("b"))).unwrap();
  assert_eq!(t.borrow().get_children().len(), 2);
''')
bug('c27-scope-not-renamed', 'C27', 'renaming a scope that was given its definitions',
  'Renaming a scope pattern that has definitions of its own does not rename its pattern.',
  [(M+'set_scope.rs', '''    self.matcher.borrow_mut().set_name(name);''', '''    if self.scope.is_none() {
      self.matcher.borrow_mut().set_name(name);
    }''')],
  r'''
  let s = adextopa_core::scope_context::ScopeContext::new();
  let m = adextopa_core::matchers::set_scope::SetScopePattern::new_with_scope(s, Equals!("a"));
  m.borrow_mut().set_name("N");
  assert_eq!(parse("a", &m).unwrap().borrow().get_name(), "N");
''')
bug('c28-register-over', 'C28', 'a name that is registered again after a parse bound it as a variable',
  'Registering a pattern under a name that a text is stored under does nothing.',
  [('src/parser_context.rs', '''  pub fn register_matcher_with_name(&self, name: &str, matcher: MatcherRef) {
    self
      .scope''', '''  pub fn register_matcher_with_name(&self, name: &str, matcher: MatcherRef) {
    if let Some(VariableType::String(_)) = self.scope.borrow().get(name) {
      return;
    }

    self.scope''')],
  r'''
  let parser = Parser::new("a");
  let c = ParserContext::new(&parser, "T");
  c.borrow_mut().set_scope_variable("N", adextopa_core::scope::VariableType::String("x".into()));
  c.borrow().register_matcher_with_name("N", Equals!("a"));
  assert!(ParserContext::tokenize(c, Ref!("N")).is_ok());
''')
bug('c29-optional-in-not', 'C29', 'the same pattern object twice in a row in a sequence',
  'A pattern that stands twice in a row and matched nothing the first time is not run the second time.',
  [(M+'program.rs', '''      for pattern in &self.patterns {
        sub_context''', '''      let mut idle: Option<(usize, usize)> = None;
      for pattern in &self.patterns {
        let here = (
          std::rc::Rc::as_ptr(pattern) as *const u8 as usize,
          sub_context.borrow().offset.start,
        );
        if idle == Some(here) && !is_loop {
          continue;
        }
        idle = Some(here);
        sub_context.clone()''')],
  r'''
  let n = std::rc::Rc::new(std::cell::Cell::new(0));
  let k = n.clone();
  let p = Map!(Equals!("z"), |t, _, _| { adextopa_core::TokenResult!(t) }, move |_, _, _| { k.set(k.get() + 1); Ok(MatcherSuccess::Skip(0)) });
  let m = Program!(Equals!("a"), p.clone(), p.clone(), Equals!("b"));
  assert!(parse("ab", &m).is_ok());
  assert_eq!(n.get(), 2);
''')
bug('c31-parent-of-root', 'C31', 'printing a token in the middle of a tree',
  'The parent of a printed token is named after the parent of that, beyond two levels.',
  [('src/token.rs', '''      let token = RefCell::borrow(&token);
      return token.get_name().to_string();''', '''      let token = RefCell::borrow(&token);
      if token.get_name() == "" {
        return "None".to_string();
      }
      return token.get_name().clone();''')],
  r'''
  let t = parse("ab", &Program!(Program!(Equals!("a")), Equals!("b"))).unwrap();
  t.borrow_mut().set_name("");
  let s = format!("{:?}", t.borrow());
  assert!(s.contains("Parent()"), "{}", s);
''')
