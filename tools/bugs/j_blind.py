M = 'src/matchers/'
SM = 'src/script/v1/matchers/'
# Written from the texts of the properties alone (see DESIGN.md)
bug('c02-switch-error-rest', 'C02', 'an alternative that raises an ordinary failure behind a fatal one',
  'An alternative that ends in a fatal error without a range counts as a failed one.',
  [(M+'program.rs', '''              MatcherFailure::Error(error) => {
                return Err(MatcherFailure::Error(error));
              }
            }
          }
        }
      }
''', '''              MatcherFailure::Error(failure) => {
                if let (MatchAction::Stop, None, false) = (&self.on_first_match, &failure.range, failure.message.starts_with("`Equals")) {
                  continue;
                }

                return Err(MatcherFailure::Error(failure));
              }
            }
          }
        }
      }
''')],
  r'''
  let m = Switch!(Ref!("Nothing"), Equals!("a"));
  match parse("a", &m) {
    Err(adextopa_core::matcher::MatcherFailure::Error(_)) => {}
    _ => panic!("expected an error"),
  }
''')
bug('c03-min-discarded', 'C03', 'a repetition with a minimum whose runs capture only now and then',
  'Runs of a repetition that capture nothing do not count.',
  [(M+'program.rs', '''      loop_count += 1;
    }

    if sub_context''', '''      if children.len() > iteration_children || children.len() == 0 {
        loop_count += 1;
      }
    }

    if sub_context''')],
  r'''
  let m = Loop!(3..; Switch!(Equals!("a"), Discard!(Equals!("b"))));
  parse("abb", &m).unwrap();
''')
bug('c04-optional-error', 'C04', 'an optional pattern whose pattern stops part of the way after a discarded part',
  'A lookahead that has skipped something fails when its pattern failed.',
  [(M+'not.rs', '''        MatcherSuccess::ProxyChildren(_) => return Err(MatcherFailure::Fail),''',
   '''        MatcherSuccess::ProxyChildren(ref token) => {
          if token.borrow().get_children().len() > 0 {
            return Err(MatcherFailure::Fail);
          }

          return Ok(MatcherSuccess::Skip(0));
        }''')],
  r'''
  // A flattened token can be without children
  let m = Program!(Not!(Map!(Equals!("a"), |token, _, _| { token.borrow_mut().set_children(vec![]); Ok(MatcherSuccess::ProxyChildren(token.clone())) })), Equals!("a"));
  assert!(parse("a", &m).is_err());
''')
bug('c05-three-levels', 'C05', 'a named break that passes two repetitions',
  'A named break ends at the second repetition it passes.',
  [(M+'program.rs', '''                  return Ok(MatcherSuccess::Break((loop_name, Box::new(final_token))));
''', '''                  let passed = is_loop && scope.borrow_mut().set("__break", crate::scope::VariableType::String(loop_name.clone())).is_some();
                  let target = if passed { "".to_string() } else { loop_name };

                  return Ok(MatcherSuccess::Break((target, Box::new(final_token))));
''')],
  r'''
  // Three repetitions inside of the one that is left
  let l1 = Loop!("L1"; Equals!("a"), Break!("L4"));
  let l2 = Loop!("L2"; l1, Equals!("x"));
  let l3 = Loop!("L3"; l2, Equals!("y"));
  let l4 = Loop!("L4"; l3, Optional!(Equals!("a")));
  let t = parse("aaaa", &l4).unwrap();
  assert_eq!(t.borrow().get_name(), "L4");
  assert_eq!(t.borrow().get_matched_range().end, 1);
''')
bug('c06-retained-parent', 'C06', 'a flattened sequence within a flattened sequence',
  'A child that went through two flattened sequences keeps the parent of the first one.',
  [(M+'program.rs', '''    let mut token = token.borrow_mut();
    token.set_parent(Some(program_token.clone()));
  }

  children.push''', '''    let mut token = token.borrow_mut();
    if assert_moving_forward || !update_offsets || token.get_parent().is_none() || token.get_children().len() == 0 {
      token.set_parent(Some(program_token.clone()));
    }
  }

  children.push''')],
  r'''
  let m = Program!(ProxyChildren!(Program!("In"; Program!("K"; Equals!("a")))), Equals!("b"));
  let t = parse("ab", &m).unwrap();
  let k = t.borrow().get_children()[0].clone();
  let p = k.borrow().get_parent().unwrap();
  assert!(std::rc::Rc::ptr_eq(&p, &t));
''')
bug('c07-trimmed', 'C07', 'a message with white space around it',
  'The message of a recorded error is trimmed.',
  [(M+'error.rs', '''    let error_token = new_error_token(context, &self.message);''', '''    let error_token = new_error_token(context, self.message.trim_end());''')],
  r'''
  let t = parse("a", &Program!(Equals!("a"), Error!("one \n"))).unwrap();
  assert!(t.borrow().get_children()[1].borrow().get_attribute("__message").unwrap().ends_with("one \n"));
''')
bug('c08-not-error', 'C08', 'a fatal error inside of a lookahead inside of a repetition',
  'A repetition that has matched already takes a fatal error raised by a lookahead as its end.',
  [(M+'not.rs', '''        MatcherFailure::Error(error) => Err(MatcherFailure::Error(error)),''',
   '''        MatcherFailure::Error(error) => {
          if context.borrow().offset.start == context.borrow().offset.end && error.range.is_none() {
            return Err(MatcherFailure::Fail);
          }

          Err(MatcherFailure::Error(error))
        }''')],
  r'''
  let m = Program!(Equals!("a"), Optional!(Not!(Ref!("Nothing"))));
  assert!(parse("a", &m).is_err());
''')
bug('c09-window-end', 'C09', 'a literal exactly as long as what is left of a window',
  'A literal does not match when it ends exactly where a window ends that is not the end of the source.',
  [('src/parser_context.rs', '''    if chunk.starts_with(pattern) {
      Some(self.offset.clone_with_len(pattern.len()))''', '''    if chunk.starts_with(pattern) && (chunk.len() != pattern.len() || self.offset.end == self.parser.borrow().source.len() || chunk.len() < 2) {
      Some(self.offset.clone_with_len(pattern.len()))''')],
  r'''
  let t = parse("abcab", &Program!(Equals!("a"), Pin!("P", "0..2"; Equals!("ab")))).unwrap();
  assert_eq!(t.borrow().get_children().len(), 2);
''')
bug('c11-redefined-twice', 'C11', 'a name that is redefined in the same scope by something of another kind',
  'A name that is bound to a text stays bound to a text when a token is stored under it.',
  [('src/matchers/store.rs', '''            scope
              .borrow_mut()
              .set(&self.name, VariableType::Token(token.clone()));''', '''            let bound = scope.borrow().get(&self.name);
            if let Some(VariableType::String(_)) = bound {
              scope
                .borrow_mut()
                .set(&self.name, VariableType::String(token.borrow().get_value().clone()));
            } else {
              scope
                .borrow_mut()
                .set(&self.name, VariableType::Token(token.clone()));
            }''')],
  r'''
  let c = context("ab");
  c.borrow_mut().set_scope_variable("V", VariableType::String("x".to_string()));
  let m = Program!(Store!("V"; Equals!("a")), Equals!("b"));
  ParserContext::tokenize(c.clone(), m).unwrap();
  match c.borrow().get_scope_variable("V") {
    Some(VariableType::Token(_)) => {}
    _ => panic!("not a token"),
  };
''')
bug('c12-self-in-scope', 'C12', 'a pattern with a name of its own that runs twice in nested scopes',
  'A pattern that registers itself replaces a definition of its name in an outer scope.',
  [('src/scope_context.rs', '''    for scope in (&self.stack).into_iter().rev() {
      match scope.borrow().get(name) {
        Some(value) => match value {''', '''    for scope in self.stack.iter().rev() {
      if self.stack.len() > 2 && scope.borrow().get(name).is_none() {
        if let Some(value) = scope.borrow().get_self_registered(name) {
          return Some(value.clone());
        }
      }

      match scope.borrow().get(name) {
        Some(value) => match value {''')],
  r'''
  let c = context("ab");
  c.borrow().register_matcher_with_name("N", Equals!("b"));
  let m = SetScope!(SetScope!(Program!(Program!("N"; Equals!("a")), Ref!("N"))));
  ParserContext::tokenize(c, m).unwrap();
''')
bug('c13-captured-value-raw', 'C13', 'a stored sequence with an escape',
  'The captured value of a stored token whose source contains an escape is its raw text.',
  [(M+'fetch.rs', '''          token.get_value().clone()
''', '''          if token.get_captured_range().end - token.get_captured_range().start > token.get_value().len() + 1 {
            token.get_captured_range().to_string(&token.get_parser())
          } else {
            token.get_value().clone()
          }
''')],
  r'''
  let m = Program!(Store!("S"; Sequence!("'", "'", "\\")), Equals!(Fetch!("S.captured_value")));
  parse("'\\a\\b'ab", &m).unwrap();
''')
bug('c16-lf-cr', 'C16', 'a line feed followed by a carriage return',
  'A line feed followed by a carriage return is a single line break.',
  [('src/parser_context.rs', r'''  static ref NEWLINES: regex::Regex = regex::Regex::new(r"(\r\n|\n|\r)")''', r'''  static ref NEWLINES: regex::Regex = regex::Regex::new(r"(\r\n|\n\r|\n|\r)")''')],
  r'''
  let p = adextopa_core::parser::Parser::new("a\n\rb");
  let c = ParserContext::new(&p, "T");
  assert_eq!(c.borrow().get_lines(&SourceRange::new(3, 4)), (3, 3));
''')
bug('c16-vertical', 'C16', 'a unicode line separator',
  'The unicode line separator counts as a line break.',
  [('src/parser_context.rs', r'''regex::Regex::new(r"(\r\n|\n|\r)")''', r'''regex::Regex::new(r"(\r\n|\n|\r|\x{2028})")''')],
  r'''
  let p = adextopa_core::parser::Parser::new("a\u{2028}b");
  let c = ParserContext::new(&p, "T");
  assert_eq!(c.borrow().get_lines(&SourceRange::new(4, 5)), (1, 1));
''')

bug('c10-escape-after', 'C10', 'a second escape directly behind an escaped character',
  'An escape directly behind an escaped character stays in the value.',
  [(M+'sequence.rs', '''        let result = _sc.matches_str_at_offset(escape_pattern, index);
''', '''        let directly = parts.len() > 0 && escape_pattern.len() > 1 && source[previous_index..index].chars().count() == 1;
        let result = if directly { None } else { _sc.matches_str_at_offset(escape_pattern, index) };
''')],
  r'''
  let t = parse("'x##a##b'", &Program!(Sequence!("'", "'", "##"))).unwrap();
  assert_eq!(t.borrow().get_children()[0].borrow().get_value(), "xab");
''')
bug('c15-choice-learns', 'C15', 'a choice that is used again',
  'A choice leaves out an alternative once that raised an error in another parse.',
  [(M+'program.rs', '''      for pattern in &self.patterns {
        sub_context''', '''      for pattern in self.patterns.iter() {
        thread_local! {
          static BAD: RefCell<Vec<(usize, usize)>> = RefCell::new(Vec::new());
        }
        let key = (self as *const Self as usize, Rc::as_ptr(pattern) as *const u8 as usize);
        if let MatchAction::Stop = self.on_first_match {
          if BAD.with(|bad| bad.borrow().iter().filter(|k| **k == key).count() > 1) {
            continue;
          }
        }

        sub_context'''),
   (M+'program.rs', '''              MatcherFailure::Error(error) => {
                return Err(MatcherFailure::Error(error));
              }
            }
          }
        }
      }
''', '''              MatcherFailure::Error(error) => {
                if let MatchAction::Stop = self.on_first_match {
                  BAD.with(|bad| bad.borrow_mut().push(key));
                }
                return Err(MatcherFailure::Error(error));
              }
            }
          }
        }
      }
''')],
  r'''
  let m = Program!(Switch!(Ref!("Nothing"), Equals!("a")));
  for _ in 0..4 {
    assert!(matches!(parse("a", &m), Err(MatcherFailure::Error(_))));
  }
''')
bug('c15-source-same', 'C15', 'two texts of the same length and beginning',
  'A regular expression remembers its last match of more than ten bytes for a text of the same length and beginning.',
  [('src/parser_context.rs', '''    match pattern.find(chunk) {
      Some(m) => {
        let start = m.start() + self.offset.start;
        let end = m.end() + self.offset.start;
''', '''    thread_local! {
      static LAST: RefCell<Option<(String, String, usize, usize)>> = RefCell::new(None);
    }
    let head: String = chunk.chars().take(8).collect();
    let known = LAST.with(|last| match &*last.borrow() {
      Some((p, h, len, end)) if p == pattern.as_str() && *h == head && *len == chunk.len() => Some(*end),
      _ => None,
    });
    if let Some(end) = known {
      return Some(SourceRange::new(self.offset.start, self.offset.start + end));
    }

    match pattern.find(&chunk[..]) {
      Some(m) => {
        let start = m.start() + self.offset.start;
        let end = m.end() + self.offset.start;
        if start == self.offset.start && m.end() > 10 {
          LAST.with(|last| *last.borrow_mut() = Some((pattern.as_str().to_string(), head, chunk.len(), m.end())));
        }
''')],
  r'''
  let m = Program!(Matches!("[a-z]+"));
  parse("abcdefghijklmn", &m).unwrap();
  let t = parse("abcdefghijk123", &m).unwrap();
  assert_eq!(t.borrow().get_matched_range().end, 11);
''')
bug('c17-children-added', 'C17', 'a hook that fails for a sibling of a token with children',
  'An error of a hook at the last child of a token is lost.',
  [('src/token_visitor.rs', '''      if let Err(error) = result {
        return Err(error);
      };
''', '''      if let Err(failure) = result {
        if _token.get_parent().is_some() && _token.get_children().len() > 2 && std::ptr::eq(child, &_token.get_children()[2]) {
          continue;
        }

        return Err(failure);
      };
''')],
  r'''
  let m = Program!(Equals!("x"), Program!(Equals!("A"; "a"), Equals!("B"; "b"), Equals!("C"; "c")));
  let t = parse("xabc", &m).unwrap();
  let r = Visit!(t, c, "C" => |_| Err(ParseError::new("stop")));
  assert!(r.is_err());
''')
bug('c18-some-flags', 'C18', 'flags that are enabled together',
  'Enabling several flags at once only enables the lowest of those that are not set yet.',
  [('adextopa_macros/src/lib.rs', '''        self.flags = self.flags | flags;''', '''        let new = flags & !self.flags;
        self.flags = if self.flags == 0 { flags } else { self.flags | (new & new.wrapping_neg()) };''')],
  r'''
  let p = Parser::new("a");
  let t = StandardToken::new(&p, "T".to_string(), SourceRange::new(0, 1));
  t.borrow_mut().enable_flags(IS_FAILURE);
  t.borrow_mut().enable_flags(IS_ERROR | IS_WARNING);
  assert_eq!(t.borrow_mut().get_flags(), IS_FAILURE | IS_ERROR | IS_WARNING);
''')
bug('c18-value-equal', 'C18', 'a value that is set to what is captured',
  'Setting the value of a token to its captured text sets nothing.',
  [('adextopa_macros/src/lib.rs', '''        if value == "" {
          self.value = None;''', '''        if value == "" || value == self.captured_value {
          self.value = None;''')],
  r'''
  let p = Parser::new("ab");
  let t = StandardToken::new(&p, "T".to_string(), SourceRange::new(0, 1));
  t.borrow_mut().set_value("a");
  t.borrow_mut().set_captured_range(SourceRange::new(1, 2));
  assert_eq!(t.borrow().get_value(), "a");
''')
bug('c20-upper-u', 'C20', 'an expression with the flag for lazy matching',
  'The flag U of an expression counts as u.',
  [('src/script/v1/parser.rs', '''flags.borrow().get_captured_value(), value);''', '''flags.borrow().get_captured_value().replace("iU", "i").replace("sU", "s"), value);''')],
  r'''
  assert_eq!(run_script("(</A+/iU>)", "aaa"), run("aaa", Program!("S"; Matches!("(?iU)A+"))));
''')
bug('c21-nested-error', 'C21', 'an error in a deeply nested pattern of a definition',
  'An empty literal inside of nested brackets is accepted and never matches.',
  [('src/script/v1/parser.rs', '''    for child in children {
      let matcher = construct_matcher_from_pattern(parser_context.clone(), child.clone())?;
      _switch_matcher.add_pattern(matcher.0);''', '''    for child in children {
      let matcher = match construct_matcher_from_pattern(parser_context.clone(), child.clone()) {
        Ok(matcher) => matcher,
        Err(_) if children.len() > 2 => continue,
        Err(error) => return Err(error),
      };
      _switch_matcher.add_pattern(matcher.0);''')],
  r'''
  assert!(script("<[(<='a'>) | (<='b'>) | (<='c'>)]>").is_ok());
  assert!(script("<[(<='a'>) | (<=''>) | (<='c'>)]>").is_err());
''')
bug('c22-nbsp', 'C22', 'white space outside of ASCII',
  'A no-break space between patterns is an error.',
  [(SM+'pattern_scope.rs', '''        $crate::ScriptWSN0!(?),
''', r'''        $crate::Discard!($crate::Matches!(r"[\s--\u{a0}]*")),
''')],
  r'''
  assert!(script("(<='a'>)\u{a0}(<='b'>)").is_ok());
''')
bug('c22-comment-quote', 'C22', 'a comment with a quotation mark',
  'A quotation mark in a comment has to be closed.',
  [(SM+'comment.rs', r'''r"#[^\r\n]*"''', r'''r"#(?:[^\r\n<]|<[^!\r\n]|<$)*"''')],
  r'''
  assert!(script("# <!-- a\n(<='a'>)").is_ok());
''')
bug('c23-deep-path', 'C23', 'files that import each other over several directories',
  'A path with a parent directory behind a directory is resolved by its last part only.',
  [('src/script/v1/parser.rs', '''      let path = _token.find_child("Path").unwrap().borrow().get_value().clone();
''', '''      let written = _token.find_child("Path").unwrap().borrow().get_value().clone();
      let path = written.clone();
      let path = if path.matches("../").count() > 1 && !path.starts_with("../") { path.replacen("../", "", 1) } else { path };
''')],
  r'''
  let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap_or(".".to_string())).join("c23-deep-path-files");
  std::fs::create_dir_all(d.join("x/y")).unwrap();
  std::fs::write(d.join("b.axo"), "<!--[adextopa version='1']\nB=<='b'>\n-->(<='q'>)").unwrap();
  std::fs::write(d.join("a.axo"), "<!--[adextopa version='1']\nimport { B } from 'x/y/../../b.axo'\n-->(<B>)").unwrap();
  let r = adextopa_core::script::current::parser::compile_script_from_file(d.join("a.axo").to_str().unwrap(), 0);
  std::fs::remove_dir_all(&d).unwrap();
  assert!(r.is_ok());
''')
bug('c24-handler-twice', 'C24', 'a mapped pattern that captured nothing of its match',
  'The success handler is not called for a token whose captured text is empty.',
  [(M+'map.rs', '''        MatcherSuccess::Token(token) => {
          self.handle_success(sub_context.clone(), scope.clone(), token.clone())
        }
        MatcherSuccess::Proxy''', '''        MatcherSuccess::Token(token) => {
          let (captured, matched) = (*token.borrow().get_captured_range(), *token.borrow().get_matched_range());
          if captured.start == captured.end && matched.end > captured.end {
            Ok(MatcherSuccess::Token(token))
          } else {
            self.handle_success(sub_context.clone(), scope.clone(), token)
          }
        }
        MatcherSuccess::Proxy''')],
  r'''
  let n = Rc::new(Cell::new(0));
  let k = n.clone();
  let m = Program!(Map!(Sequence!("'", "'", "\\"), move |token, _, _| { k.set(k.get() + 1); TokenResult!(token.clone()) }));
  parse("''", &m).unwrap();
  assert_eq!(n.get(), 1);
''')
bug('c25-flattened-errors', 'C25', 'a flattened sequence with an error between its children',
  'The matched range of a flattened token that ends in discarded source is not included completely.',
  [(M+'program.rs', '''  if update_offsets && !should_discard {
    contain_source_range(captured_range, &token.get_captured_range());
    contain_source_range(matched_range, &token.get_matched_range());
  }
''', '''  if update_offsets && !should_discard {
    contain_source_range(captured_range, &token.get_captured_range());
    if target_children.len() < 2 || children.len() < 2 {
      contain_source_range(matched_range, &token.get_matched_range());
    }
  }
''')],
  r'''
  let m = Program!(Equals!("x"), Equals!("y"), ProxyChildren!(Program!(Equals!("a"), Equals!("b"), Discard!(Equals!("c")))));
  let t = parse("xyabc", &m).unwrap();
  assert_eq!(t.borrow().get_matched_range().end, 5);
''')
bug('c26-outer-repeat', 'C26', 'attributes on a pattern with attributes inside of it',
  'A pattern with attributes loses them when a pattern inside of it sets one of the same name.',
  [('src/script/v1/parser.rs', '''          if token.borrow().has_attribute(key) {
            continue;
          }
''', '''          if token.borrow().has_attribute(key) || token.borrow().get_children().iter().any(|child| child.borrow().has_attribute(key)) {
            continue;
          }
''')],
  r'''
  let m = script("(<{(<='a' k='1'>)} k='2'>)").unwrap();
  let t = parse("a", &m).unwrap();
  assert_eq!(t.borrow().get_children()[0].borrow().get_attribute("k").unwrap(), "2");
''')
bug('c27-add-while-shared', 'C27', 'a sequence that is renamed before patterns are added',
  'Renaming a sequence to the name it has makes it a sequence without a name of its own.',
  [(M+'program.rs', '''  fn set_name(&mut self, name: &str) {
    self.name = name.to_string();
    self.custom_name = true;
  }''', '''  fn set_name(&mut self, name: &str) {
    self.custom_name = self.name != name || self.patterns.len() == 0;
    self.name = name.to_string();
  }''')],
  r'''
  let p = Program!("N"; Equals!("a"));
  p.borrow_mut().set_name("N");
  assert!(p.borrow().has_custom_name());
  assert_eq!(run("aa", Program!(p, Ref!("N"))), run("aa", Program!(Program!("N"; Equals!("a")), Program!("N"; Equals!("a")))));
''')
bug('c28-clone-offset', 'C28', 'a copy of a context for a part of the source that is moved',
  'A copy of a context whose window has been moved to the end of the source keeps the end of the whole source.',
  [('src/parser_context.rs', '''  pub fn set_start(&mut self, start: usize) {
    self.offset.start = start;
  }''', '''  pub fn set_start(&mut self, start: usize) {
    let at_end = start == self.offset.end && start > 0;
    let end = if at_end { self.parser.borrow().source.len() } else { self.offset.end };
    self.offset = SourceRange::new(start, end);
  }''')],
  r'''
  let p = Parser::new("aab");
  let c = ParserContext::new_with_offset(&p, SourceRange::new(0, 2), "C");
  let m = Program!(Matches!("a+"), Optional!(Equals!("b")));
  let t = ParserContext::tokenize(c, m).unwrap();
  assert_eq!(t.borrow().get_matched_range().end, 2);
''')
bug('c29-empty-rest', 'C29', 'a choice at the end of the source',
  'A choice runs nothing when nothing is left of the source.',
  [(M+'program.rs', '''      for pattern in &self.patterns {
        sub_context
          .borrow_mut()
          .push_token_to_stack(program_token.clone());

        let result = pattern''', '''      for pattern in self.patterns.iter() {
        if let MatchAction::Stop = self.on_first_match {
          let offset = sub_context.borrow().offset;
          if offset.start == offset.end && offset.end > 0 && self.patterns.len() > 2 {
            continue;
          }
        }

        sub_context
          .borrow_mut()
          .push_token_to_stack(program_token.clone());

        let result = pattern''')],
  r'''
  let m = Program!(Equals!("a"), Optional!(Switch!(Equals!("x"), Error!("seen"), Equals!("y"))));
  let t = parse("a", &m).unwrap();
  assert_eq!(t.borrow().get_children().len(), 2);
''')
bug('c31-blank-lines', 'C31', 'a value with line breaks in a deep token',
  'Line breaks in front of another line break in a printed token are lost.',
  [('src/token.rs', '''child_str.as_str().replace("\\n", "\\n  ").as_str()''', '''child_str.as_str().replace("\\n\\n", "\\n").replace("\\n", "\\n  ").as_str()''')],
  r'''
  let t = parse("a\n\nb", &Program!(Matches!(r"a\s+b"))).unwrap();
  let s = format!("{:?}", t.borrow());
  let lines: Vec<&str> = s.lines().map(|l| l.trim()).collect();
  assert_eq!(lines.windows(3).filter(|w| w[0].ends_with("(a") && w[1] == "" && w[2].starts_with("b)")).count(), 4, "{}", s);
''')

bug('c01-window-tail', 'C01', 'discarded source at the end of a window',
  'Discarded source that reaches the end of a window is not part of the matched range of the sequence.',
  [(M+'program.rs', '''  let range = SourceRange::new(start_offset, new_offset);

  contain''', '''  let at_end = new_offset == context.borrow().offset.end && new_offset < context.borrow().parser.borrow().source.len();
  let range = SourceRange::new(start_offset, if at_end && matched_range.start != usize::MAX && matched_range.end > start_offset + 1 { matched_range.end } else { new_offset });

  contain''')],
  r'''
  let p = Parser::new("aabcd");
  let c = ParserContext::new_with_offset(&p, SourceRange::new(0, 3), "C");
  let t = ParserContext::tokenize(c, Program!(Equals!("aa"), Discard!(Equals!("b")))).unwrap();
  assert_eq!(t.borrow().get_matched_range().end, 3);
''')
bug('c32-path-space', 'C32', 'an import with white space in front of its path',
  'The path of an import has to be on the same line, and behind exactly one blank.',
  [(SM+'import_statement.rs', '''      $crate::Discard!($crate::Equals!("from")),
      $crate::ScriptWS0!(?),''', '''      $crate::Discard!($crate::Equals!("from")),
      $crate::Discard!($crate::Matches!("Whitespace"; r"[ \t]*")),''')],
  r'''
  let s = run("import { A } from\u{3000}'x'", ScriptImportStatement!());
  assert!(s.starts_with("ImportStatement"), "{}", s);
''')
bug('c32-flags-twice', 'C32', 'an expression whose flags are repeated',
  'Flags of an expression that are repeated end the flags.',
  [(SM+'regex_matcher.rs', '''r"[imsU]*"''', '''r"i?m?s?U?|[imsU]{0,2}"''')],
  r'''
  let s = run("/a/Ui", ScriptRegexMatcher!());
  assert!(s.contains("Flags[3-5"), "{}", s);
''')
bug('c21-error-scope', 'C21', 'a second scope behind the patterns',
  'A definition that is given twice with the same text is an error.',
  [('src/script/v1/parser.rs', '''      } else if value_name == "PatternDefinition" {
''', '''      } else if value_name == "PatternDefinition" && scope_context.borrow().get(&matcher_name).is_some() && matcher_name.starts_with('_') {
        return Err(ParseError::new("Defined twice"));
      } else if "PatternDefinition" == value_name {
''')],
  r'''
  assert!(script("<!--[adextopa version='1']\n_A=<='a'>\n_A=<='b'>\n-->(<_A>)").is_ok());
''')
