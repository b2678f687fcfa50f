# debug, handlers, flattening, editing, contexts
bug('c19-zero-width', 'C19', 'an empty regex match below a debug pattern of level three or more',
  'At debug level three an empty expression match produces a token.',
  [('src/matchers/matches.rs', '''      if range.start == range.end {
        if debug_mode > 0 {''', '''      if range.start == range.end && debug_mode < 3 {
        if debug_mode > 0 {''')],
  r'''
  let m = |level| Debug!(3; Switch!(Matches!("x*"), Equals!("b")));
  let plain = Switch!(Matches!("x*"), Equals!("b"));
  assert_eq!(run("b", m(3)), run("b", plain));
''')
bug('c19-skip-return', 'C19', 'a discarded part at a debug level of exactly one, with another part after it',
  'At debug level one a skip is printed but not performed, unless it is the only part.',
  [('src/matchers/program.rs', '''      context.borrow().offset.start,
      offset,
      new_offset
    );
  }

  context.borrow_mut().set_start(new_offset);''', '''      context.borrow().offset.start,
      offset,
      new_offset
    );
  }

  if context.borrow().debug_mode_level() != 4 {
    context.borrow_mut().set_start(new_offset);
  }''')],
  r'''
  let m = Program!("P"; Discard!(Equals!("a")), Equals!("b"));
  let d = Debug!(4; Program!("P"; Discard!(Equals!("a")), Equals!("b")));
  assert_eq!(run("ab", m), run("ab", d));
''')
bug('c19-sequence-chunk', 'C19', 'a delimited sequence with a multi-byte character below a debug pattern',
  'The debug output of a delimited sequence cuts its text in the middle of a character and panics.',
  [('src/matchers/sequence.rs', '''          let full_size = range.end - range.start;

          println!(''', '''          let preview = &source[range.start..std::cmp::min(range.start + 2, range.end)];
          let full_size = std::cmp::max(preview.len(), range.end - range.start);

          println!(''')],
  r'''
  let m = || Sequence!("'", "'", "");
  assert_eq!(run("'é'", Debug!(1; m())), run("'é'", m()));
''')
bug('c24-flattened-unmapped', 'C24', 'a mapping handler around a flattened pattern',
  'The result handler is not called for a success that carries a flattened token.',
  [('src/matchers/map.rs', '''        MatcherSuccess::ProxyChildren(token) => {
          self.handle_success(sub_context.clone(), scope.clone(), token.clone())
        }
        _ => Ok(success),''', '''        MatcherSuccess::Token(_) | MatcherSuccess::ProxyChildren(_) => Ok(success),
        _ => Ok(success),''')],
  r'''
  let count = Rc::new(Cell::new(0));
  let c = count.clone();
  let m = Map!(ProxyChildren!(Program!(Equals!("a"), Equals!("b"))), move |t: TokenRef, _, _| { c.set(c.get() + 1); Ok(MatcherSuccess::Token(t)) });
  let _ = run("ab", Program!("P"; m));
  assert_eq!(count.get(), 1);
''')
bug('c24-catch-fatal', 'C24', 'a fatal error below a catching handler',
  'A catching handler is not called for fatal errors.',
  [('src/matchers/catch.rs', '''      Err(failure) => (self.catch_func)(sub_context.clone(), failure),''', '''      Err(failure) => match failure {
        MatcherFailure::Error(ref error) if error.range.is_none() => Err(failure),
        _ => (self.catch_func)(sub_context.clone(), failure),
      },''')],
  r'''
  let m = Program!("P"; Equals!("a"), Catch!(Program!(Ref!("nowhere")), |_, _| Ok(MatcherSuccess::Skip(0))));
  assert!(run("a", m).starts_with("P[0-1"));
''')
bug('c24-own-failure', 'C24', 'a mapping handler whose result handler fails while it has a failure handler too',
  'The failure handler is also called for the failure its own result handler returned.',
  [('src/matchers/map.rs', '''    (self.success_func)(token.clone(), context.clone(), scope.clone())''', '''    match (self.success_func)(token.clone(), context.clone(), scope.clone()) {
      Err(failure) => self.handle_failure(context, scope, failure),
      result => result,
    }''')],
  r'''
  let m = Map!(Equals!("a"), |_: TokenRef, _, _| Err(MatcherFailure::Fail), |_, _, _| Ok(MatcherSuccess::Skip(1)));
  assert_eq!(run("ab", Program!("P"; m, Equals!("b"))), "FAIL");
''')
bug('c24-assert-masks', 'C24', 'an assertion whose pattern ends in a fatal error',
  'An assertion swallows the fatal error of its pattern when that has no range.',
  [('src/matchers/assert_if.rs', '''            Err($crate::matcher::MatcherFailure::Error(error))
          }''', '''            if error.range.is_none() {
              Ok($crate::matcher::MatcherSuccess::Skip(0))
            } else {
              Err($crate::matcher::MatcherFailure::Error(error))
            }
          }''')],
  r'''
  let m = Program!("P"; Equals!("a"), AssertIf!(Ref!("nothing"), "bad"));
  assert!(run("a", m).starts_with("ERROR"));
''')
bug('c24-assert-not-empty', 'C24', 'a negated assertion whose pattern succeeds with a token at the very end of the source',
  'A negated assertion records an error when its pattern matches up to the end of the source.',
  [('src/matchers/assert_if_not.rs', '''        Ok($crate::matcher::MatcherSuccess::Skip(0))
      },
      |failure, context, __| {''', '''        let token: $crate::token::TokenRef = token;
        let context: $crate::parser_context::ParserContextRef = context;
        let range = token.borrow().get_matched_range().clone();
        if range.end > range.start + 1 && range.end == context.borrow().offset.end {
          Ok($crate::matcher::MatcherSuccess::Token(
            $crate::matchers::error::new_error_token_with_range(context.clone(), $message, &range),
          ))
        } else {
          Ok($crate::matcher::MatcherSuccess::Skip(0))
        }
      },
      |failure, context, __| {''')],
  r'''
  let m = Program!("P"; Equals!("a"), AssertIfNot!(Equals!("bc"), "bad"));
  assert_eq!(run("abc", m), run("abcd", Program!("P"; Equals!("a"))));
''')
bug('c25-continue-payload', 'C25', 'a continue which passes through a flattened pattern',
  'What was matched before a continue is not flattened.',
  [('src/matchers/proxy_children.rs', '''        MatcherSuccess::Token(token) => Ok(MatcherSuccess::Continue((
          loop_name,
          Box::new(MatcherSuccess::ProxyChildren(token.clone())),
        ))),
        _ => Ok(MatcherSuccess::Continue((loop_name, value))),''', '''        _ => Ok(MatcherSuccess::Continue((loop_name, value))),''')],
  r'''
  let m = Loop!(0..3; "L"; ProxyChildren!(Program!("I"; Equals!("a"), Catch!(Equals!("\u{0}"), |_, _| Ok(MatcherSuccess::Continue((String::new(), Box::new(MatcherSuccess::None))))))), Equals!("b"));
  assert_eq!(run("aa", m).contains("I["), false);
''')
bug('c25-single-child', 'C25', 'flattening a flattened pattern that has a single child with children of its own',
  'Flattening twice unwraps one level more when there is only one child.',
  [('src/matchers/proxy_children.rs', '''      _ => result,''', '''
      Ok(MatcherSuccess::ProxyChildren(token)) if token.borrow().get_children().len() == 1 => {
        let child = token.borrow().get_children()[0].clone();

        Ok(MatcherSuccess::ProxyChildren(if child.borrow().get_children().len() > 0 {
          child
        } else {
          token
        }))
      }
      other => other,''')],
  r'''
  let m = Program!("P"; ProxyChildren!(ProxyChildren!(Program!("I"; Program!("J"; Equals!("a"), Equals!("b"))))));
  assert!(run("ab", m).contains("J["));
''')
bug('c25-expanded-capture', 'C25', 'a pattern with an expanded range, flattened into a sequence',
  'The captured range of a flattened token is not included in the enclosing token.',
  [('src/matchers/program.rs', '''    contain_source_range(captured_range, &token.get_captured_range());
    contain_source_range(matched_range, &token.get_matched_range());
  }

  if context.borrow().debug_mode_level() > 0 {''', '''    contain_source_range(matched_range, &token.get_matched_range());
  }

  if context.borrow().debug_mode_level() > 0 {''')],
  r'''
  let m = Program!("P"; ExpandRange!(Sequence!("(", ")", "")));
  assert!(run("(a)", m).starts_with("P[0-3|0-3]"));
''')
bug('c25-expand-start', 'C25', 'an expanded range around a flattened pattern whose first part was discarded',
  'Expanding the range of a flattened token only moves its end.',
  [('src/matchers/expand_range.rs', '''          token.borrow_mut().set_captured_range(matched_range);
''', '''          let start = token.borrow().get_captured_range().start;
          token
            .borrow_mut()
            .set_captured_range(crate::source_range::SourceRange::new(start, matched_range.end));
''')],
  r'''
  let m = Program!("P"; ExpandRange!(ProxyChildren!(Program!("I"; Discard!(Equals!("(")), Equals!("a"), Discard!(Equals!(")"))))));
  assert!(run("(a)", m).starts_with("P[0-3|0-3]"));
''')
bug('c27-set-child-append', 'C27', 'setting the child right behind the last one of a sequence or choice',
  'Setting the child behind the last one appends it instead of refusing.',
  [('src/matchers/program.rs', '''    if index >= self.patterns.len() {
      panic!("Attempt to set child at an index that is out of bounds");
    }
''', '''    if index > self.patterns.len() {
      panic!("Attempt to set child at an index that is out of bounds");
    } else if index == self.patterns.len() {
      self.patterns.push(matcher.clone());
    }
''')],
  r'''
  let m = Program!("P"; Equals!("a"));
  let n = m.clone();
  std::panic::set_hook(Box::new(|_| {}));
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| n.borrow_mut().set_child(1, Equals!("b"))));
  assert!(r.is_err());
''')
bug('c27-not-rename', 'C27', 'renaming a wrapped pattern through a mapping or discarding wrapper with another wrapper inside',
  'Renaming through a discarding pattern renames only a direct pattern, not a wrapped one.',
  [('src/matchers/discard.rs', '''    self.matcher.borrow_mut().set_name(name);''', '''    if self.matcher.borrow().get_children().map_or(true, |children| children.len() != 1) {
      self.matcher.borrow_mut().set_name(name);
    }''')],
  r'''
  let inner = Equals!("a");
  let m = Discard!(Optional!(inner.clone()));
  m.borrow_mut().set_name("N");
  assert_eq!(inner.borrow().get_name(), "N");
''')
bug('c27-replace-all', 'C27', 'replacing a child of a sequence which holds the same pattern twice',
  'Replacing a child replaces every occurrence of the same pattern.',
  [('src/matchers/program.rs', '''    self.patterns[index] = matcher;''', '''    let old = self.patterns[index].clone();
    for pattern in self.patterns.iter_mut() {
      if Rc::ptr_eq(pattern, &old) {
        *pattern = matcher.clone();
      }
    }''')],
  r'''
  let a = Equals!("a");
  let m = Program!("P"; a.clone(), a.clone());
  m.borrow_mut().set_child(1, Equals!("b"));
  assert!(run("ab", m).starts_with("P[0-2"));
''')
bug('c28-list-order', 'C28', 'registering a list in which two patterns have the same name',
  'Of two patterns of the same name in a registered list the first one wins.',
  [('src/parser_context.rs', '''    for matcher in matchers {
      let _matcher = matcher.borrow();
      let name = _matcher.get_name();
''', '''    for matcher in matchers.into_iter().rev() {
      let _matcher = matcher.borrow();
      let name = _matcher.get_name();
''')],
  r'''
  let c = context("b");
  c.borrow().register_matchers(vec![Equals!("N"; "a"), Equals!("N"; "b")]);
  assert!(ParserContext::tokenize(c, Ref!("N")).is_ok());
''')
bug('c28-names-keep', 'C28', 'registering a pattern under a name that is registered already',
  'Registering patterns under given names does not replace what is registered already.',
  [('src/parser_context.rs', '''    for (name, matcher) in matchers {
      let _matcher = matcher.borrow();
''', '''    for (name, matcher) in matchers {
      if self.get_registered_matcher(name).is_some() {
        continue;
      }
''')],
  r'''
  let c = context("b");
  c.borrow().register_matcher_with_name("N", Equals!("a"));
  c.borrow().register_matchers_with_names(HashMap::from([("N", Equals!("b"))]));
  assert!(ParserContext::tokenize(c, Ref!("N")).is_ok());
''')
bug('c28-window-dollar', 'C28', 'an expression with an end assertion at the end of a window',
  'Expressions see the source behind the end of the window, though they do not match it.',
  [('src/parser_context.rs', '''    let chunk = &self.parser.borrow().source[self.offset.start..self.offset.end];

    match pattern.find(chunk) {
      Some(m) => {''', '''    let chunk = &self.parser.borrow().source[self.offset.start..];
    let length = self.offset.end - self.offset.start;

    match pattern.find(chunk).filter(|m| m.end() <= length) {
      Some(m) => {''')],
  r'''
  let p = Parser::new("ab");
  let c = ParserContext::new_with_offset(&p, SourceRange::new(0, 1), "W");
  assert!(ParserContext::tokenize(c, Matches!("a$")).is_ok());
''')
bug('c28-offset-whole', 'C28', 'a context for an empty part of the source',
  'A context for an empty window at the beginning sees the whole source.',
  [('src/parser_context.rs', '''      scope: ScopeContext::new(),
      token_stack: vec![],
      offset,
      parser: parser.clone(),''', '''      scope: ScopeContext::new(),
      token_stack: vec![],
      offset: if offset.end == 0 {
        SourceRange::new(0, parser.borrow().source.len())
      } else {
        offset
      },
      parser: parser.clone(),''')],
  r'''
  let p = Parser::new("ab");
  let c = ParserContext::new_with_offset(&p, SourceRange::new(0, 0), "W");
  assert!(ParserContext::tokenize(c, Equals!("a")).is_err());
''')
