# scopes, references, variables, pins
bug('c11-pop-on-failure', 'C11', 'a scoped pattern that fails inside of an alternative, after it defined something',
  'The scope pushed for a pattern stays on the stack when the pattern fails.',
  [('src/matchers/set_scope.rs', '''    if self.scope.is_none() {
      // Pop scope from stack''', '''    if self.scope.is_none() && result.is_ok() {
      // Pop scope from stack'''),
   ('src/matchers/set_scope.rs', '''      current_scope.borrow_mut().pop();
''', '''      let _ = current_scope.borrow_mut().pop();
''')],
  r'''
  let m = Program!("P"; Store!("v"; "a"), Optional!(SetScope!(Program!(Store!("v"; "b"), Equals!("x")))), Equals!(Fetch!("v")));
  assert_eq!(run("a", m), r#"P[0-1|0-1]"a"{Equals[0-1|0-1]"a"}"#);
''')
bug('c11-set-existing', 'C11', 'two nested scopes, setting a name in the inner one which the outer one defines',
  'A definition in an inner scope overwrites the definition of the outer scope with the same name.',
  [('src/scope_context.rs', '''    let top_index = self.stack.len() - 1;
    let top = &mut self.stack[top_index];
    top.borrow_mut().set(name, value)''', '''    let top_index = self.stack.len() - 1;
    let index = (0..top_index)
      .rev()
      .find(|index| self.stack[*index].borrow().contains_key(name))
      .unwrap_or(top_index);
    let top = &mut self.stack[index];
    top.borrow_mut().set(name, value)''')],
  r'''
  let m = Program!("P"; Store!("v"; "a"), SetScope!(Program!(Store!("v"; "b"), Equals!("x"))), Equals!(Fetch!("v")));
  assert_eq!(run("xa", m).contains("Equals[1-2|1-2]"), true);
''')
bug('c11-register-global', 'C11', 'a registration inside of a pattern which runs in a separate scope',
  'A registration goes to the scope of the context instead of the scope it is executed in.',
  [('src/matchers/register.rs', '''    _: ParserContextRef,
    scope: ScopeContextRef,
  ) -> Result<MatcherSuccess, MatcherFailure> {
    let mut scope_mut = scope.borrow_mut();
    for pattern''', '''    context: ParserContextRef,
    _: ScopeContextRef,
  ) -> Result<MatcherSuccess, MatcherFailure> {
    let scope = context.borrow().get_scope();
    let mut scope_mut = scope.borrow_mut();
    for pattern''')],
  r'''
  let separate = ScopeContext::new();
  let m = Program!("P"; SetScope!(separate, Program!(Register!(Equals!("X"; "a")), Equals!("b"))), Optional!(Equals!("b")));
  let c = context("b");
  let _ = ParserContext::tokenize(c.clone(), m);
  assert!(c.borrow().get_registered_matcher("X").is_none());
''')
bug('c11-third-level', 'C11', 'a name defined at least three scopes further out',
  'A lookup only goes out two scopes.',
  [('src/scope_context.rs', '''    for scope in (&self.stack).into_iter().rev() {
      match scope''', '''    for scope in (&self.stack)
      .into_iter()
      .rev()
      .enumerate()
      .filter(|(depth, scope)| *depth < 3 || *depth + 1 == self.stack.len() || scope.borrow().contains_key(""))
      .map(|(_, scope)| scope)
    {
      match scope''')],
  r'''
  let c = ScopeContext::new();
  for i in 0..6 {
    c.borrow_mut().push(adextopa_core::scope::Scope::new());
    c.borrow_mut().set(&format!("n{}", i), VariableType::String(format!("v{}", i)));
  }
  for i in 0..6 {
    match c.borrow().get(&format!("n{}", i)) {
      Some(VariableType::String(s)) => assert_eq!(s, format!("v{}", i)),
      _ => panic!("n{} not found", i),
    };
  }
''')
bug('c12-ref-cached', 'C12', 'a reference executed twice, the name having been registered again in between',
  'A reference goes on using the definition it found first.',
  [('src/matchers/ref.rs', '''  target: T,
  custom_name: bool,
}

impl<T> std::fmt::Debug''', '''  target: T,
  custom_name: bool,
  resolved: RefCell<Option<(String, MatcherRef)>>,
}

impl<T> std::fmt::Debug'''),
   ('src/matchers/ref.rs', '''      target,
      custom_name: false,''', '''      target,
      resolved: RefCell::new(None),
      custom_name: false,'''),
   ('src/matchers/ref.rs', '''      target,
      custom_name: true,''', '''      target,
      resolved: RefCell::new(None),
      custom_name: true,'''),
   ('src/matchers/ref.rs', '''        let possible_matcher = scope.borrow().get(target_name);

        if let Some(VariableType::Matcher(ref matcher)) = possible_matcher {
''', '''        let resolved = self.resolved.borrow().clone();
        let possible_matcher = match resolved {
          Some((name, matcher)) if name == *target_name => Some(VariableType::Matcher(matcher)),
          _ => scope.borrow().get(target_name),
        };

        if let Some(VariableType::Matcher(ref matcher)) = possible_matcher {
          *self.resolved.borrow_mut() = Some((target_name.clone(), matcher.clone()));
''')],
  r'''
  let r = Ref!("X");
  let m = Program!("P"; Register!(Equals!("X"; "a")), r.clone(), Register!(Equals!("X"; "b")), r);
  assert_eq!(run("ab", m), r#"P[0-2|0-2]"ab"{X[0-1|0-1]"a" X[1-2|1-2]"b"}"#);
''')
bug('c12-ref-name', 'C12', 'a named reference whose target is not defined under its target name but under its own',
  'A named reference falls back to a definition with its own name.',
  [('src/matchers/ref.rs', '''        let possible_matcher = scope.borrow().get(target_name);
''', '''        let possible_matcher = match scope.borrow().get(target_name) {
          Some(VariableType::Matcher(matcher)) => Some(VariableType::Matcher(matcher)),
          _ if self.custom_name => match scope.borrow().get(&self.name) {
            Some(VariableType::Matcher(matcher)) if matcher.borrow().get_name() != self.name => {
              Some(VariableType::Matcher(matcher))
            }
            _ => None,
          },
          _ => None,
        };
''')],
  r'''
  let c = context("a");
  c.borrow().register_matcher_with_name("R", Equals!("a"));
  let m = Program!("P"; Ref!("R".to_string(); "Nope"));
  match ParserContext::tokenize(c, m) {
    Err(MatcherFailure::Error(e)) => assert!(e.message.contains("Nope")),
    _ => panic!("no error"),
  }
''')
bug('c12-ref-scope', 'C12', 'a reference to a definition found further out, which itself refers to a name that is defined differently in an inner scope',
  'The target of a reference runs in a scope of its own: definitions it makes are lost.',
  [('src/matchers/ref.rs', '''        if let Some(VariableType::Matcher(ref matcher)) = possible_matcher {
          matcher
            .borrow()
            .exec(matcher.clone(), sub_context, scope.clone())
        } else {''', '''        if let Some(VariableType::Matcher(ref matcher)) = possible_matcher {
          let inner: ScopeContextRef = Rc::new(RefCell::new(scope.borrow().clone()));
          inner.borrow_mut().push(crate::scope::Scope::new());

          matcher.borrow().exec(matcher.clone(), sub_context, inner)
        } else {''')],
  r'''
  let c = context("ab a");
  c.borrow().register_matcher_with_name("X", Program!(Store!("v"; Matches!(r"\w"))));
  let m = Program!("P"; Ref!("X"), Discard!(Matches!(r"\w\s")), Equals!(Fetch!("v.captured_value")));
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| render(&ParserContext::tokenize(c, m))));
  assert_eq!(r.unwrap(), r#"P[0-4|0-4]"ab a"{Program[0-1|0-1]"a"{Matches[0-1|0-1]"a"} Equals[3-4|3-4]"a"}"#);
''')
bug('c13-captured-range', 'C13', 'a stored token whose captured range is smaller than its matched range, its captured range being used',
  'The captured range of a stored token ends where the match ends.',
  [('src/matchers/fetch.rs', '''          let range = token.get_captured_range();
          format!("{}..{}", range.start, range.end)''', '''          let range = token.get_captured_range();
          format!("{}..{}", range.start, token.get_matched_range().end)''')],
  r'''
  let m = Program!("P"; Store!("v"; Program!(Equals!("a"), Discard!(Equals!(";")))), PinPattern::new(Some(Matches!(".*")), Fetch!("v.captured_range")));
  assert!(run("a;b", m).ends_with(r#"Matches[0-1|0-1]"a"}"#));
''')
bug('c13-store-flattened', 'C13', 'a storing pattern around a flattened pattern, over an earlier value',
  'Storing a flattened pattern stores its first child.',
  [('src/matchers/store.rs', '''          _ => {}
        }

        result''', '''          Ok(MatcherSuccess::ProxyChildren(ref token)) => {
            if let Some(first) = token.borrow().get_children().first() {
              scope
                .borrow_mut()
                .set(&self.name, VariableType::Token(first.clone()));
            }
          }
          Ok(_) | Err(_) => {}
        }

        result''')],
  r'''
  let m = Program!("P"; Store!("v"; Equals!("a")), Store!("v"; ProxyChildren!(Program!(Equals!("b"), Equals!("c")))), Equals!(Fetch!("v.captured_value")));
  assert!(run("abca", m).ends_with(r#"Equals[3-4|3-4]"a"}"#));
''')
bug('c13-matched-value', 'C13', 'a stored delimited sequence with escapes whose matched value is used',
  'The matched value of a stored token is its value without the delimiters when it has any.',
  [('src/matchers/fetch.rs', '''        } else if sub_name == "matched_value" {
          token.get_matched_value().clone()''', '''        } else if sub_name == "matched_value" {
          if token.get_children().is_empty() && token.get_attribute("__value").is_some() {
            token.get_value().clone()
          } else {
            token.get_matched_value().clone()
          }''')],
  r'''
  let m = Program!("P"; Store!("v"; Map!(Equals!("a"), |t: TokenRef, _, _| { t.borrow_mut().set_attribute("__value", "zz"); Ok(MatcherSuccess::Token(t)) })), Equals!(Fetch!("v.matched_value")));
  assert!(run("aa", m).ends_with(r#"Equals[1-2|1-2]"a"}"#));
''')
bug('c13-overwrite', 'C13', 'a variable that is stored a second time inside of a repetition and then used',
  'A stored token is not replaced by a later one that covers the same amount of source.',
  [('src/matchers/store.rs', '''          Ok(MatcherSuccess::Token(ref token)) => {
            scope''', '''          Ok(MatcherSuccess::Token(ref stored)) => {
            let token = stored;
            if let Some(VariableType::Token(ref known)) = scope.borrow().get(&self.name) {
              if *known.borrow().get_captured_value() == *token.borrow().get_captured_value() {
                return Ok(MatcherSuccess::Token(token.clone()));
              }
            }

            scope''')],
  r'''
  let m = Program!("P"; Store!("v"; Equals!("a")), Store!("v"; Equals!("a")), PinPattern::new(Some(Matches!(".*")), Fetch!("v.range")));
  assert!(run("aab", m).ends_with(r#"Matches[1-2|1-2]"a"}"#));
''')
bug('c14-switch-moves', 'C14', 'a repetition in which a pin leads to a match further ahead than the rest of the run consumes',
  'A pin moves the position when what it matched ends behind the current position plus one.',
  [('src/matchers/program.rs', '''              let is_consuming = pattern.borrow().is_consuming();

              handle_token(
                self,
                &program_token,
                &sub_context,
                &mut children,
                &mut captured_range,
                &mut matched_range,
                &token,
                is_consuming,
                is_consuming,
              );''', '''              let is_consuming = pattern.borrow().is_consuming();
              let update = is_consuming
                || (is_loop && loop_count > 0 && token.borrow().get_matched_range().end > sub_context.borrow().offset.start + 1);

              handle_token(
                self,
                &program_token,
                &sub_context,
                &mut children,
                &mut captured_range,
                &mut matched_range,
                &token,
                is_consuming,
                update,
              );''')],
  r'''
  let m = Loop!("L"; PinPattern::new(Some(Optional!(Equals!("c"))), "+2"), Matches!("."));
  assert_eq!(run("abbcd", m).matches("Matches").count(), 4);
''')
bug('c14-plus-zero', 'C14', 'an offset of +0 or -0 as the end of a pin',
  'An end of "-0" is the start of the pin instead of the end of the window.',
  [('src/matchers/pin.rs', r'''r"^(\+|-|\+0|-0)$"''', r'''r"^(\+|-|\+0)$"''')],
  r'''
  let m = Program!("P"; Equals!("a"), PinPattern::new(Some(Matches!(".*")), "..-0"));
  assert!(run("abc", m).contains(r#"Matches[1-3|1-3]"bc""#));
''')
bug('c15-optional-memo', 'C15', 'the same matcher used on a second source, an optional part being there where it was missing twice in the first',
  'An optional pattern remembers where it failed, also for later parses.',
  [('src/matchers/optional.rs', '''pub struct OptionalPattern {
  matcher: MatcherRef,
}''', '''pub struct OptionalPattern {
  matcher: MatcherRef,
  failed: RefCell<Vec<usize>>,
}'''),
   ('src/matchers/optional.rs', '''Box::new(Self { matcher }))''', '''Box::new(Self {
      matcher,
      failed: RefCell::new(vec![]),
    }))'''),
   ('src/matchers/optional.rs', '''    match self.matcher.borrow().exec(
      self.matcher.clone(),''', '''    let offset = context.borrow().offset.start;
    if self.failed.borrow().iter().filter(|known| **known == offset).count() > 1 {
      return Ok(MatcherSuccess::Skip(0));
    }

    match self.matcher.borrow().exec(
      self.matcher.clone(),'''),
   ('src/matchers/optional.rs', '''        MatcherFailure::Fail => Ok(MatcherSuccess::Skip(0)),''', '''        MatcherFailure::Fail => {
          self.failed.borrow_mut().push(offset);
          Ok(MatcherSuccess::Skip(0))
        }''')],
  r'''
  let m = Program!("P"; Optional!(Equals!("a")), Equals!("b"));
  for _ in 0..3 {
    assert_eq!(run("b", m.clone()), r#"P[0-1|0-1]"b"{Equals[0-1|0-1]"b"}"#);
  }
  assert_eq!(run("ab", m), r#"P[0-2|0-2]"ab"{Equals[0-1|0-1]"a" Equals[1-2|1-2]"b"}"#);
''')
bug('c15-sequence-memo', 'C15', 'the same delimited sequence run on the same window of two different sources',
  'A delimited sequence keeps the text of its last match for a range in which it matches again.',
  [('src/matchers/store.rs', '''pub struct StorePattern {
  pattern: StorePatternType,''', '''pub struct StorePattern {
  last: RefCell<Option<crate::token::TokenRef>>,
  pattern: StorePatternType,'''),
   ('src/matchers/store.rs', '''      pattern: StorePatternType::String(pattern.to_string()),
      name''', '''      pattern: StorePatternType::String(pattern.to_string()),
      last: RefCell::new(None),
      name'''),
   ('src/matchers/store.rs', '''      pattern: StorePatternType::Matcher(pattern),
      name''', '''      pattern: StorePatternType::Matcher(pattern),
      last: RefCell::new(None),
      name'''),
   ('src/matchers/store.rs', '''          Ok(MatcherSuccess::Token(ref token)) => {
            scope
              .borrow_mut()
              .set(&self.name, VariableType::Token(token.clone()));
          }''', '''          Ok(MatcherSuccess::Token(ref token)) => {
            let same = match &*self.last.borrow() {
              Some(last) => **last.borrow() == **token.borrow(),
              None => false,
            };

            if !same {
              *self.last.borrow_mut() = Some(token.clone());
            }

            let last = self.last.borrow().clone().unwrap();
            scope
              .borrow_mut()
              .set(&self.name, VariableType::Token(last));
          }''')],
  r'''
  let m = Program!("P"; Store!("v"; Matches!("[ab]")), Equals!(Fetch!("v.captured_value")));
  assert_eq!(run("aa", m.clone()), r#"P[0-2|0-2]"aa"{Matches[0-1|0-1]"a" Equals[1-2|1-2]"a"}"#);
  assert_eq!(run("bb", m), r#"P[0-2|0-2]"bb"{Matches[0-1|0-1]"b" Equals[1-2|1-2]"b"}"#);
''')
bug('c15-recursive-borrow', 'C15', 'one reference matcher shared by two places of a grammar, one inside of the other one\'s target',
  'A shared scope pattern keeps its scope between executions.',
  [('src/matchers/set_scope.rs', '''use crate::scope::Scope;''', '''use crate::scope::{Scope, ScopeRef};'''),
   ('src/matchers/set_scope.rs', '''pub struct SetScopePattern {
  scope: Option<ScopeContextRef>,''', '''pub struct SetScopePattern {
  own: ScopeRef,
  scope: Option<ScopeContextRef>,'''),
   ('src/matchers/set_scope.rs', '''      scope: None,
      matcher,''', '''      scope: None,
      own: Scope::new(),
      matcher,'''),
   ('src/matchers/set_scope.rs', '''      scope: Some(scope.clone()),
      matcher,''', '''      scope: Some(scope.clone()),
      own: Scope::new(),
      matcher,'''),
   ('src/matchers/set_scope.rs', '''        current_scope.borrow_mut().push(Scope::new());''', '''        current_scope.borrow_mut().push(self.own.clone());''')],
  r'''
  let m = Program!("P"; Store!("v"; Equals!("x")), SetScope!(Program!(Optional!(Equals!(Fetch!("v.captured_value"))), Store!("v"; Equals!("b")))));
  let first = run("xb", m.clone());
  assert_eq!(run("xb", m.clone()), first);
  assert_eq!(run("xxb", m.clone()), run("xxb", Program!("P"; Store!("v"; Equals!("x")), SetScope!(Program!(Optional!(Equals!(Fetch!("v.captured_value"))), Store!("v"; Equals!("b")))))));
''')
# lines and columns
bug('c16-cr-only', 'C16', 'a source with lines that end in a lone carriage return directly followed by another one',
  'Consecutive lone carriage returns count as a single line break.',
  [('src/parser_context.rs', r'''r"(\r\n|\n|\r)"''', r'''r"(\r\n|\n|\r+)"''')],
  r'''
  let c = context("a\r\rb");
  assert_eq!(c.borrow().get_lines(&SourceRange::new(3, 4)), (3, 3));
''')
bug('c16-many-lines', 'C16', 'a position behind more than a hundred lines',
  'Columns are only counted from the last line break of the first hundred.',
  [('src/parser_context.rs', '''    for item in NEWLINES.find_iter(&source[0..range.end]) {''', '''    for item in NEWLINES.find_iter(&source[0..range.end]).take(100) {''')],
  r'''
  let s = "ab\n".repeat(120) + "cd";
  let c = context(&s);
  assert_eq!(c.borrow().get_columns(&SourceRange::new(361, 362)), (2, 3));
''')
bug('c16-error-lines', 'C16', 'an error message whose range covers several lines but the same columns',
  'An error message only names the first line when first and last column are the same.',
  [('src/parser_context.rs', '''    let line_str = if lines.0 == lines.1 {''', '''    let line_str = if lines.0 == lines.1 || (columns.0 == columns.1 && range.end - range.start > 4) {''')],
  r'''
  let c = context("abcd\nabcd");
  assert_eq!(c.borrow().get_error_as_string("m", &SourceRange::new(1, 6)), "Error: @[1-2:2]: m");
''')
# visitors
bug('c17-last-hook', 'C17', 'two hooks for the same name',
  'Of several hooks for a name the last one is called.',
  [('src/token_visitor.rs', '''    for hook in &mut self.hooks {
      if hook.0 == name {''', '''    for hook in self.hooks.iter_mut().rev() {
      if hook.0 == name {''')],
  r'''
  let t = parse("ab", &Program!("P"; Equals!("a"), Equals!("b"))).unwrap();
  let log = RefCell::new(vec![]);
  let mut v = TokenVisitor::new();
  v.add_visitor("Equals", Box::new(|_| { log.borrow_mut().push(1); Ok(()) }));
  v.add_visitor("Equals", Box::new(|_| { log.borrow_mut().push(2); Ok(()) }));
  v.visit(t).unwrap();
  drop(v);
  assert_eq!(*log.borrow(), vec![1, 1]);
''')
bug('c17-default-below', 'C17', 'a default hook and a named hook which matches a token with children',
  'Below a token that has a hook of its own the default hook is not called.',
  [('src/token_visitor.rs', '''    for child in _token.get_children() {
      let _child = child.borrow();

      let result = match default_hook {
        Some(ref default_hook) =>''', '''    let named = self.find_hook(_token.get_name()).is_some() && _token.get_children().len() == 1;

    for child in _token.get_children() {
      let _child = child.borrow();

      let result = match default_hook.as_ref().filter(|_| !named) {
        Some(default_hook) =>''')],
  r'''
  let t = parse("ab", &Program!("P"; Program!("Q"; Equals!("a")), Equals!("b"))).unwrap();
  let log = RefCell::new(String::new());
  let mut v = TokenVisitor::new();
  v.add_visitor("Q", Box::new(|_| { log.borrow_mut().push('q'); Ok(()) }));
  v.add_visitor("*", Box::new(|_| { log.borrow_mut().push('*'); Ok(()) }));
  v.visit(t).unwrap();
  drop(v);
  assert_eq!(*log.borrow(), "*q**");
''')
bug('c17-error-continues', 'C17', 'a hook that fails on a token which is not the last child of its parent',
  'An error of a hook does not stop the visit when it is raised below a token whose name has a hook.',
  [('src/token_visitor.rs', '''      if let Err(error) = result {
        return Err(error);
      };
    }

    Ok(())''', '''      if let Err(error) = result {
        if error.range.is_none() && self.find_hook(_token.get_name()).is_some() {
          failure = Some(error);
          continue;
        }

        return Err(error);
      };
    }

    match failure {
      Some(error) => Err(error),
      None => Ok(()),
    }'''),
   ('src/token_visitor.rs', '''    let _token = token.borrow();

    if let Some(ref hook)''', '''    let _token = token.borrow();
    let mut failure = None;

    if let Some(ref hook)''')],
  r'''
  let t = parse("ab", &Program!("P"; Equals!("A"; "a"), Equals!("B"; "b"))).unwrap();
  let log = RefCell::new(String::new());
  let mut v = TokenVisitor::new();
  v.add_visitor("P", Box::new(|_| { log.borrow_mut().push('p'); Ok(()) }));
  v.add_visitor("A", Box::new(|_| { log.borrow_mut().push('a'); Err(ParseError::new("e")) }));
  v.add_visitor("B", Box::new(|_| { log.borrow_mut().push('b'); Ok(()) }));
  assert!(v.visit(t).is_err());
  drop(v);
  assert_eq!(*log.borrow(), "pa");
''')
# tokens
bug('c18-disable-flags', 'C18', 'disabling a flag that is not enabled',
  'Disabling a flag that is not set sets it.',
  [('adextopa_macros/src/lib.rs', '''        self.flags = self.flags & !flags;''', '''        self.flags = self.flags ^ flags;''')],
  r'''
  let t = parse("a", &Equals!("a")).unwrap();
  t.borrow_mut().enable_flags(IS_ERROR);
  t.borrow_mut().disable_flags(IS_ERROR | IS_WARNING);
  assert_eq!(t.borrow_mut().get_flags(), 0);
''')
bug('c18-captured-keeps-value', 'C18', 'setting a value on a token and then its captured range',
  'Setting the captured range of a token whose value has been set resets the value.',
  [('adextopa_macros/src/lib.rs', '''        self.captured_range = range;
        self.captured_value = range.to_string(&self.parser);''', '''        self.value = match self.captured_range.start == range.start {
          true => self.value.take(),
          false => None,
        };
        self.captured_range = range.clone();
        self.captured_value = range.to_string(&self.parser);''')],
  r'''
  let t = parse("abc", &Equals!("abc")).unwrap();
  t.borrow_mut().set_value("v");
  t.borrow_mut().set_captured_range(SourceRange::new(1, 2));
  assert_eq!(t.borrow().get_value(), "v");
''')
bug('c18-attribute-order', 'C18', 'setting an attribute a second time',
  'Setting an attribute that exists to the empty text removes its old value from what is returned.',
  [('adextopa_macros/src/lib.rs', '''        self.attributes.insert(name.to_string(), value.to_string())''', '''        let old = self.attributes.insert(name.to_string(), value.to_string());
        if old.as_deref() == Some(value) {
          None
        } else {
          old
        }''')],
  r'''
  let t = parse("a", &Equals!("a")).unwrap();
  assert_eq!(t.borrow_mut().set_attribute("k", "v"), None);
  assert_eq!(t.borrow_mut().set_attribute("k", "v"), Some("v".to_string()));
''')
bug('c18-eq-matched', 'C18', 'comparing two tokens that only differ in what they matched behind their captured source',
  'Tokens that end at different places of the source are equal when they captured the same.',
  [('src/token.rs', '''      && *self.get_matched_range() == *other.get_matched_range()''', '''      && self.get_matched_range().start == other.get_matched_range().start''')],
  r'''
  let a = parse("a;", &Program!("P"; Equals!("a"), Optional!(Discard!(Equals!(";"))))).unwrap();
  let b = parse("a", &Program!("P"; Equals!("a"), Optional!(Discard!(Equals!(";"))))).unwrap();
  assert!(!(**a.borrow() == **b.borrow()));
''')
bug('c18-find-fuzzy-last', 'C18', 'several children whose names match a pattern',
  'Looking for a child by a pattern gives the shortest name instead of the first.',
  [('src/token.rs', '''      let _child = child.borrow();
      if regex.is_match(_child.get_name()) {''', '''      let _child = child.borrow();
      if regex.is_match(_child.get_name())
        && !(children.len() > 2
          && children.iter().any(|other| {
            other.borrow().get_name().len() < _child.get_name().len()
              && regex.is_match(other.borrow().get_name())
          }))
      {''')],
  r'''
  let t = parse("abc", &Program!("P"; Equals!("Long"; "a"), Equals!("L"; "b"), Equals!("c"))).unwrap();
  let f = t.borrow().find_child_fuzzy(&regex::Regex::new("L").unwrap()).unwrap();
  assert_eq!(f.borrow().get_name(), "Long");
''')
