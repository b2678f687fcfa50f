P = 'src/matchers/program.rs'
bug('c02-discarded-alternative', 'C02', 'a choice whose alternative discards what it matched, a single byte',
  'A choice treats a discarded one-byte match as a match of nothing and goes on to the next alternative.',
  [(P, '''            MatcherSuccess::Skip(amount) => {
              if amount > 0 {
                match''', '''            MatcherSuccess::Skip(amount) => {
              if amount > 1 {
                match''')],
  '''
  let m = Program!("P"; Equals!("x"), Switch!(Discard!(Equals!("a")), Equals!("ab")), Equals!("b"));
  assert_eq!(run("xab", m), r#"P[0-3|0-3]"xb"{Equals[0-1|0-1]"x" Equals[2-3|2-3]"b"}"#.replace("\\"xb\\"", "\\"xab\\""));
''')
bug('c03-minimum', 'C03', 'a repetition with a minimum of at least two whose body matches exactly once less',
  'A repetition succeeds with one run less than its minimum.',
  [(P, '''      // If we matched less than we were supposed to, then fail
      if loop_count < range.start {''', '''      // If we matched less than we were supposed to, then fail
      if std::cmp::max(loop_count, children.len()) + 1 < range.start {''')],
  '''
  let m = Program!("P"; Loop!(3..; Equals!("a")));
  assert_eq!(run("aa", m), "FAIL");
''')
bug('c04-discard-captured-end', 'C04', 'a discarded sequence which ends with a discarded part',
  'A discarded pattern consumes only up to the end of what it would have captured, when that is a program.',
  [('src/matchers/discard.rs', '''  let end_offset = token.borrow().get_matched_range().end;
''', '''  let end_offset = if token.borrow().get_children().is_empty() {
    token.borrow().get_matched_range().end
  } else {
    token.borrow().get_captured_range().end
  };
''')],
  '''
  let m = Program!("P"; Discard!(Program!(Equals!("a"), Discard!(Equals!(" ")))), Equals!("b"));
  assert_eq!(run("a b", m), r#"P[2-3|0-3]"b"{Equals[2-3|2-3]"b"}"#);
''')
bug('c04-discard-break-flatten', 'C04', 'a discarded pattern that breaks out of a loop while passing on flattened children',
  'Tokens inside of a discarded pattern appear in the result when it leaves a loop through a flattened sequence.',
  [('src/matchers/discard.rs', '''          MatcherSuccess::ProxyChildren(token) => Ok(MatcherSuccess::Break((
            loop_name,
            Box::new(skip_token(sub_context, start_offset, token.clone())),
          ))),''', '''          MatcherSuccess::ProxyChildren(token) => Ok(MatcherSuccess::Break((
            loop_name,
            Box::new(MatcherSuccess::ProxyChildren(token.clone())),
          ))),''')],
  '''
  let m = Loop!(Equals!("a"), Discard!(ProxyChildren!(Program!(Equals!("b"), Break!()))));
  assert_eq!(run("ab", m), r#"Loop[0-1|0-2]"a"{Equals[0-1|0-1]"a"}"#);
''')
bug('c05-break-minimum', 'C05', 'a repetition with a minimum that is broken before the minimum was reached',
  'A break out of a repetition with a minimum makes it fail.',
  [(P, '''              // This is the loop that should break, so cease propagating the Break
              return finalize_program_token(
                program_token,
                children,
                captured_range,
                matched_range,
                &self.iterate_range,
                loop_count,
                false,
              );''', '''              // This is the loop that should break, so cease propagating the Break
              return finalize_program_token(
                program_token,
                children,
                captured_range,
                matched_range,
                &self.iterate_range,
                loop_count + 1,
                minimum > 1,
              );''')],
  '''
  let m = Loop!(3..; Equals!("a"), Break!());
  assert_eq!(run("aa", m), r#"Loop[0-1|0-1]"a"{Equals[0-1|0-1]"a"}"#);
''')
bug('c06-stale-expanded-value', 'C06', 'a flattened pattern with discarded source at its edges whose range is expanded, used as the root',
  'The captured text of a token no longer is the source under its captured range.',
  [('src/matchers/expand_range.rs', 'token.borrow_mut().set_captured_range(matched_range);', '*token.borrow_mut().get_captured_range_mut() = matched_range;')],
  '''
  let m = ExpandRange!(ProxyChildren!(Program!("P"; Discard!(Equals!("(")), Equals!("a"), Discard!(Equals!(")")))));
  assert_eq!(run("(a)", m), r#"P[0-3|0-3]"(a)"{Equals[1-2|1-2]"a"}"#);
''')
bug('c06-parent-kept', 'C06', 'children that are passed through a flattened pattern into an enclosing sequence',
  'A flattened child keeps its link to the token that does not hold it any more.',
  [(P, '''    let mut token = token.borrow_mut();
    token.set_parent(Some(program_token.clone()));
  }
''', '''    let mut token = token.borrow_mut();
    if update_offsets || token.get_parent().is_none() {
      let nested = match token.get_parent() {
        Some(parent) => parent.borrow().get_name() == program_token.borrow().get_name(),
        None => false,
      };

      if !nested {
        token.set_parent(Some(program_token.clone()));
      }
    }
  }
''')],
  '''
  let t = parse("ab", &Program!(Equals!("a"), ProxyChildren!(Program!(Equals!("b"))))).unwrap();
  for c in t.borrow().get_children() {
    assert!(Rc::ptr_eq(&c.borrow().get_parent().unwrap(), &t));
  }
''')
bug('c07-deep-discarded-error', 'C07', 'an error recorded two levels below a discarded pattern',
  'An error inside of discarded source is lost when it is nested deeper than the discarded token itself.',
  [('src/matchers/discard.rs', '''  collect_errors(error_token.clone(), token.clone());

  if''', '''  let has_errors = token
    .borrow()
    .get_children()
    .iter()
    .any(|child| child.borrow().flags_enabled(crate::token::IS_ERROR));

  if has_errors || token.borrow().flags_enabled(crate::token::IS_ERROR) {
    collect_errors(error_token.clone(), token.clone());
  }

  if''')],
  '''
  let m = Program!("P"; Equals!("x"), Discard!(Program!(Program!(Equals!("a"), Error!("bad")))), Equals!("b"));
  let t = parse("xab", &m).unwrap();
  assert!(t.borrow().has_child("Error"));
''')
bug('c07-continued-root', 'C07', 'a parse that ends in a break out of all patterns, with an error recorded in a nested token',
  'Errors are not collected into the root token when the parse ends with a break.',
  [('src/parser_context.rs', '''        MatcherSuccess::Break((_, token)) => match &*token {
          MatcherSuccess::Token(ref token) => {
            Self::collect_errors(token.clone(), token.clone(), true);
            return''', '''        MatcherSuccess::Break((_, token)) => match &*token {
          MatcherSuccess::Token(ref token) => {
            return''')],
  '''
  let m = Program!("P"; Program!("Q"; Equals!("a"), Error!("bad")), Break!("nowhere"));
  let t = parse("a", &m).unwrap();
  assert!(t.borrow().has_child("Error"));
''')
bug('c08-fatal-in-lookahead', 'C08', 'a fatal error raised inside of a pinned pattern with an explicit end offset',
  'A fatal error inside of a lookahead becomes an ordinary failure.',
  [('src/matchers/pin.rs', '''      Some(matcher) => matcher
        .borrow()
        .exec(matcher.clone(), sub_context.clone(), scope.clone()),''', '''      Some(matcher) => {
        let result = matcher
          .borrow()
          .exec(matcher.clone(), sub_context.clone(), scope.clone());

        match result {
          // There is more source than what has been looked at
          Err(_) if end_offset < current_range.end => Err(MatcherFailure::Fail),
          result => result,
        }
      }''')],
  '''
  let m = Program!("P"; Optional!(Pin!("Pin", "0..1"; Program!(Equals!("a"), Panic!("stop")))), Equals!("ab"));
  assert!(run("ab", m).starts_with("ERROR"));
''')
bug('c08-fatalif-captured', 'C08', 'a conditional fatal error whose offending match discards its delimiters',
  'The range of a conditional fatal error covers the captured text instead of the offending match.',
  [('src/matchers/fatal_if.rs', 'let range = _token.get_matched_range();', 'let range = _token.get_captured_range();')],
  '''
  let m = Program!("P"; FatalIf!(Sequence!("'", "'", ""), "no strings"), Equals!("a"));
  match parse("'ab'", &m) {
    Err(MatcherFailure::Error(e)) => assert_eq!(e.range, Some(SourceRange::new(0, 4))),
    other => panic!("{:?}", render(&other)),
  }
''')
bug('c10-window-delimiter', 'C10', 'an end delimiter that reaches over the end of the window',
  'A delimited sequence ends with a delimiter that lies partly outside of the window.',
  [('src/parser_context.rs', '''    let chunk = &self.parser.borrow().source[offset..self.offset.end];
''', '''    let chunk = &self.parser.borrow().source[offset..];
''')],
  '''
  let c = ParserContext::new_with_offset(&Parser::new("<<a>>"), SourceRange::new(0, 4), "Demo");
  assert_eq!(render(&ParserContext::tokenize(c, Sequence!("<<", ">>", ""))), "FAIL");
''')

bug('c02-continue-alternative', 'C02', 'a choice in which a failing alternative comes directly before one that matches a token, the third alternative or later',
  'A choice gives up after two alternatives in a row failed behind one that matched the empty string.',
  [(P, """              if amount > 0 {
                match self.on_first_match {
                  MatchAction::Stop => {
                    if""", """              if amount == 0 && pattern.borrow().get_name() == "Discard" {
                if let MatchAction::Stop = self.on_first_match {
                  // Matched, although it was empty
                  return Ok(MatcherSuccess::Skip(0));
                }
              } else if amount > 0 {
                match self.on_first_match {
                  MatchAction::Stop => {
                    if""")],
  """
  let m = Program!("P"; Switch!(Discard!(Matches!("x*")), Equals!("a")), Equals!("b"));
  assert_eq!(run("ab", m), r#"P[0-2|0-2]"ab"{Equals[0-1|0-1]"a" Equals[1-2|1-2]"b"}"#);
""")
bug('c03-incomplete-run', 'C03', 'a repetition of several parts whose last run, after two complete ones, fails after its first part matched',
  'What the last, incomplete run of a repetition captured is lost (but still consumed).',
  [(P, """                    return finalize_program_token(
                      program_token,
                      children,
                      captured_range,
                      matched_range,
                      &self.iterate_range,
                      loop_count,
                      true,
                    );
                  }
""", """                    // Forget the iteration that failed
                    if loop_count > 1 {
                      children.truncate(iteration_children);
                    }

                    return finalize_program_token(
                      program_token, children, captured_range,
                      matched_range,
                      &self.iterate_range,
                      loop_count,
                      true,
                    );
                  }
""")],
  """
  let m = Loop!(Equals!("a"), Equals!("b"));
  assert_eq!(run("ababa", m), r#"Loop[0-5|0-5]"ababa"{Equals[0-1|0-1]"a" Equals[1-2|1-2]"b" Equals[2-3|2-3]"a" Equals[3-4|3-4]"b" Equals[4-5|4-5]"a"}"#);
""")
bug('c05-switch-named-break', 'C05', 'a choice with the same name as the repetition a break is addressed to, inside of another repetition',
  'A named break stops at the innermost repetition when it passes a choice of that name.',
  [(P, """                return Ok(MatcherSuccess::Break((loop_name, data)));
              }""", """                // The target has been found by its name
                let target = if loop_name == self.name { "".to_string() } else { loop_name };

                return Ok(MatcherSuccess::Break((target, data)));
              }""")],
  """
  let m = Loop!("L"; Equals!("a"), Loop!("M"; Equals!("b"), Switch!("L"; Break!("L"))));
  assert_eq!(run("abab", m), r#"L[0-2|0-2]"ab"{Equals[0-1|0-1]"a" M[1-2|1-2]"b"{Equals[1-2|1-2]"b"}}"#);
""")
bug('c05-break-skip', 'C05', 'a break that passes through a discarded sequence and then a sequence that already captured something',
  'Source consumed by a discarded sequence that breaks is given back when the break is passed on.',
  [(P, """                Box::new(MatcherSuccess::None)
              }
              MatcherSuccess::Skip(amount) => {
                handle_skip(
                  self,
                  &sub_context,
                  &mut captured_range,
                  &mut matched_range,
                  start_offset,
                  *amount,
                );

                Box::new(MatcherSuccess::None)
              }
              _ => data,
            };

            if is_loop && (loop_name""", """                Box::new(MatcherSuccess::None)
              }
              MatcherSuccess::Skip(amount) => {
                // Only the targeted loop moves on
                if is_loop && loop_name == "" || loop_name == self.name {
                  handle_skip(
                    self,
                    &sub_context,
                    &mut captured_range,
                    &mut matched_range,
                    start_offset,
                    *amount,
                  );
                }

                Box::new(MatcherSuccess::None)
              }
              _ => data,
            };

            if is_loop && (loop_name""")],
  """
  let m = Program!("P"; Loop!(Program!("Q"; Equals!("a"), Discard!(Program!(Equals!("b"), Break!())))), Equals!("c"));
  assert_eq!(run("abc", m), r#"P[0-3|0-3]"abc"{Loop[0-1|0-2]"a"{Q[0-1|0-2]"a"{Equals[0-1|0-1]"a"}} Equals[2-3|2-3]"c"}"#);
""")
bug('c08-optional-after-loop', 'C08', 'a fatal error without a range (an unknown reference) in the third or a later run of a repetition',
  'A repetition that already matched keeps its result and swallows the fatal error of a later run.',
  [(P, """              MatcherFailure::Error(error) => {
                return Err(MatcherFailure::Error(error));
              }
            }
          }
        }
      }

      match""", """              MatcherFailure::Error(error) => {
                if is_loop && loop_count > 1 && error.range.is_none() {
                  break;
                }

                return Err(MatcherFailure::Error(error.clone()));
              }
            }
          }
        }
      }

      match""")],
  """
  let m = Program!("P"; Loop!(Equals!("a"), Switch!(Equals!(","), Ref!("Missing"))), Equals!("b"));
  assert!(run("a,a,ab", m).starts_with("ERROR"));
""")
