bug('c04-not-one-byte', 'C04', 'a negation of a pattern that discards a single byte it matches',
  'A negated pattern succeeds and consumes a byte where its pattern matches a discarded byte.',
  [('src/matchers/not.rs', 'if amount != 0 {', 'if amount > 1 {')],
  r'''
  let m = Program!("P"; Not!(Discard!(Equals!("a"))), Matches!(r"\w+"));
  assert_eq!(run("ab", m), "FAIL");
''')
bug('c09-regex-boundary', 'C09', 'a regular expression that looks at the character in front of its position (\\b), not at the start of the source',
  'A regular expression sees the source in front of the current position.',
  [('src/parser_context.rs', '''    match pattern.find(chunk) {
      Some(m) => {
        let start = m.start() + self.offset.start;
        let end = m.end() + self.offset.start;
''', '''    let result = if pattern.as_str().starts_with("\\\\b") {
      pattern
        .find_at(&self.parser.borrow().source[..self.offset.end], self.offset.start)
        .map(|m| m.start() - self.offset.start..m.end() - self.offset.start)
    } else {
      pattern.find(chunk).map(|m| m.range())
    };

    match result {
      Some(m) => {
        let start = m.start + self.offset.start;
        let end = m.end + self.offset.start;
''')],
  r'''
  let m = Program!("P"; Equals!("a"), Matches!(r"\bb"));
  assert_eq!(run("ab", m), r#"P[0-2|0-2]"ab"{Equals[0-1|0-1]"a" Matches[1-2|1-2]"b"}"#);
''')
bug('c01-nothing-captured', 'C01', 'a named sequence (not a repetition) of at least two discarded parts and nothing else',
  'A sequence that captured nothing succeeds, with a token without children, instead of failing.',
  [(P, '''  // Fail if nothing was collected
  if captured_range.start == usize::MAX || matched_range.start == usize::MAX {
    return Err(MatcherFailure::Fail);
  }

  if children.len() < 1 {
    return Err(MatcherFailure::Fail);
  }
''', '''  // Fail if nothing was collected
  let is_empty = matched_range.start >= matched_range.end || iterate_range.is_some();

  if matched_range.start == usize::MAX || (is_empty && captured_range.start == usize::MAX) {
    return Err(MatcherFailure::Fail);
  }

  if children.len() < 1 && (is_empty || program_token.borrow().get_name() == "Script") {
    return Err(MatcherFailure::Fail);
  }

  let captured_range = if captured_range.start == usize::MAX {
    matched_range
  } else {
    captured_range
  };
''')],
  r'''
  let m = Switch!(Program!("P"; Discard!(Equals!("a")), Discard!(Equals!("b"))), Program!("Q"; Equals!("a"), Equals!("b")));
  assert_eq!(run("ab.", m), r#"Q[0-2|0-2]"ab"{Equals[0-1|0-1]"a" Equals[1-2|1-2]"b"}"#);
''')
bug('c02-flattened-leaf', 'C02', 'a choice whose alternative is a flattened pattern without children',
  'A choice passes over a matching alternative and executes the ones after it.',
  [(P, '''                      "{{{}/Finalizing}}: First match success (ProxyChildren)",
                      program_token.borrow().get_name(),
                    );
                  }

                  return Ok(MatcherSuccess::ProxyChildren(token.clone()));''', '''                      "{{{}/Finalizing}}: First match success (ProxyChildren)",
                      program_token.borrow().get_name(),
                    );
                  }

                  if token.borrow().get_children().is_empty() {
                    // Nothing to pass on
                    continue;
                  }

                  return Ok(MatcherSuccess::ProxyChildren(token));''')],
  r'''
  let m = Program!("P"; Switch!(ProxyChildren!(Equals!("ab")), Equals!("a")), Optional!(Equals!("b")), Equals!("c"));
  assert_eq!(run("abc", m), r#"P[0-3|0-3]"abc"{Equals[2-3|2-3]"c"}"#);
''')
bug('c03-long-run', 'C03', 'a repetition that runs more than 255 times',
  'A repetition without a maximum stops after 255 runs although its body still matches.',
  [(P, '''  let mut range = 0..usize::MAX;
''', '''  let mut range = 0..u8::MAX as usize;
''')],
  r'''
  let source = "a".repeat(300);
  let t = parse(&source, &Loop!(Equals!("a"))).unwrap();
  assert_eq!(t.borrow().get_children().len(), 300);
''')
bug('c09-window-literal', 'C09', 'a literal whose last byte lies outside of the window of at least two bytes',
  'A literal matches although its end lies outside of the window.',
  [('src/parser_context.rs', '''    let chunk = &self.parser.borrow().source[self.offset.start..self.offset.end];

    if chunk.starts_with(pattern) {
      Some(self.offset.clone_with_len''', '''    let parser = self.parser.borrow();
    let chunk = &parser.source[self.offset.start..];

    if self.offset.end - self.offset.start + 1 >= pattern.len() && self.offset.end > self.offset.start && chunk.starts_with(pattern) {
      Some(self.offset.clone_with_len''')],
  r'''
  let c = ParserContext::new_with_offset(&Parser::new("abc"), SourceRange::new(0, 2), "Demo");
  assert_eq!(render(&ParserContext::tokenize(c, Equals!("abc"))), "FAIL");
''')
bug('c10-escaped-delimiter', 'C10', 'an escape marker in front of an end delimiter of several characters which overlaps with the next one',
  'An escape protects a whole end delimiter of several characters instead of one character.',
  [('src/matchers/sequence.rs', '''        let result = _sc.matches_str_at_offset(escape_pattern, index);

        if let Some(source_range) = result {
          if previous_index < index {''', '''        let result = _sc.matches_str_at_offset(escape_pattern, index);

        if let Some(source_range) = result.filter(|range| {
          // The whole delimiter is escaped
          _sc.matches_str_at_offset(end_pattern, range.end).is_some() && end_pattern.len() > 1
        }) {
          parts.push(&source[previous_index..index]);
          previous_index = source_range.end;
          index = previous_index + end_pattern.len();
        } else if let Some(source_range) = result {
          if previous_index < index {''')],
  r'''
  let m = Sequence!("[", "**", "\\");
  assert_eq!(run("[a\\***", m), r#"Sequence[1-4|0-6]"a*""#);
''')
bug('c10-many-escapes', 'C10', 'four escapes inside of one delimited sequence',
  'From the fourth escape on, the markers stay in the value.',
  [('src/matchers/sequence.rs', '''          if previous_index < index {
            parts.push(&source[previous_index..index]);
          }

          previous_index = source_range.end;
''', '''          if parts.len() >= 3 {
            index = source_range.end;
            index += char_len_at(source, index);
            continue;
          }

          if previous_index < index && index < end {
            parts.push(&source[previous_index..index]);
          }

          previous_index = source_range.end;
''')],
  r'''
  let m = Sequence!("'", "'", "\\");
  assert_eq!(run("'a\\b\\c\\d\\e'", m), r#"Sequence[1-10|0-11]"abcde""#);
''')
