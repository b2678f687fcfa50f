# the script language
P = 'src/script/v1/parser.rs'
M = 'src/script/v1/matchers/'
bug('c20-double-not', 'C20', 'a pattern that is negated both inside and outside of its repetition',
  'A negation outside of a repetition is dropped when there is one inside as well.',
  [(P, '''  } else if has_outter_not {
    matcher = Not!(matcher);''', '''  } else if has_outter_not && !has_inner_not {
    matcher = Not!(matcher);''')],
  r'''
  assert_eq!(run_script("(<=\'a\'>) !<!=\'b\'> (<=\'b\'>)".replace("\\'", "'").as_str(), "ab"), "FAIL".to_string().replace("FAIL", &run_script("(<='a'>) !<!=\'b\'>{1} (<='b'>)", "ab")));
  let wanted = run("ab", Program!("S"; Equals!("a"), Discard!(Not!(Not!(Equals!("c")))), Equals!("b")));
  assert_eq!(run_script("(<='a'>) !<!='c'> (<='b'>)", "ab") == "FAIL", wanted == "FAIL");
''')
bug('c20-first-flag', 'C20', 'a regular expression with more than one flag',
  'Only the first two flags of a regular expression are used.',
  [(P, '''      value = format!("(?{}){}", flags.borrow().get_captured_value(), value);''', '''      let flags: String = flags.borrow().get_captured_value().chars().take(2).collect();
      value = format!("(?{}){}", flags, value);''')],
  r'''
  assert!(run_script("(</A.B/msi>)", "a\nb").starts_with("S["));
''')
bug('c20-default-escape', 'C20', 'a delimited sequence whose escape is empty, on a source with a backslash',
  'A delimited sequence with an empty escape uses the backslash.',
  [(P, '''      escape_pattern.get_value().clone()
''', '''      if escape_pattern.get_value().is_empty() {
        "\\\\".to_string()
      } else {
        escape_pattern.get_value().clone()
      }
''')],
  r'''
  let m = run("(a\\)", Program!("S"; Sequence!("(", ")", "")));
  assert_eq!(run_script(r"(<%'(', ')', ''>)", "(a\\)"), m);
''')
bug('c20-single-choice', 'C20', 'a choice with a single alternative that matches the empty string',
  'A choice with one alternative is replaced by that alternative.',
  [(P, '''    let switch_matcher = crate::Switch!();''', '''    if children.len() == 1 && !children[0].borrow().has_child("Attributes") {
      return Ok(construct_matcher_from_pattern(parser_context.clone(), children[0].clone())?.0);
    }

    let switch_matcher = crate::Switch!();''' ),
   (P, '''    // If this switch has no children...
    // then just return a Null matcher instead
    if children.len() == 0 {
      return Ok(crate::Null!());
    }

    let program_matcher''', '''    // Without children there is nothing to
    // match, so just return a Null matcher instead
    if children.len() == 0 {
      return Ok(crate::Null!());
    }

    let program_matcher''')],
  r'''
  assert_eq!(run_script("(<='a'>) (<[<?='b'>|]>)", "a"), "FAIL");
''')
bug('c20-optional-captured', 'C20', 'an uncaptured repetition with an optional modifier outside',
  'A repetition that is optional as a whole is captured although it is not in parentheses.',
  [(P, '''  if !captured {
    matcher = crate::Discard!(matcher);''', '''  if !captured && !(has_outter_optional && token.find_child_fuzzy(&REPEAT_SPECIFIER).is_some()) {
    matcher = crate::Discard!(matcher);''')],
  r'''
  let m = Program!("S"; Equals!("a"), Discard!(Optional!(Loop!(0..; Equals!("b")))));
  assert_eq!(run_script("(<='a'>) ?<='b'>*", "abb"), run("abb", m));
''')
bug('c21-equal-bounds', 'C21', 'a repetition with equal bounds',
  'A repetition whose minimum equals its maximum is rejected.',
  [(M + 'repeat_specifier.rs', '''          if maximum < minimum {''', '''          if maximum <= minimum {''')],
  r'''
  assert!(script("(<='a'>){2,2}").is_err() && script("(<='a'>{2,2})").is_ok());
''')
bug('c21-last-char', 'C21', 'a single stray character at the end of a script',
  'A single character behind the last pattern is ignored.',
  [(M + 'pattern_scope.rs', '''        if token_range.end < source.len() {''', '''        if token_range.end + 1 < source.len() {''')],
  r'''
  assert!(script("(<='a'>) )").is_err());
''')
bug('c21-empty-end', 'C21', 'a delimited sequence with an empty end delimiter',
  'An empty end delimiter is accepted, and the matcher panics.',
  [(P, '''    if end_pattern.get_value().len() == 0 {''', '''    if end_pattern.get_value().len() == 0 && escape_pattern.get_value().len() > 0 {''')],
  r'''
  assert!(script("(<%'(', '', ''>)").is_err());
''')
bug('c21-big-bound', 'C21', 'a repetition bound that does not fit into an integer',
  'A bound that is too big for an integer panics instead of being an error.',
  [(M + 'repeat_specifier.rs', '''          let maximum = match max.borrow().get_captured_value().parse::<usize>() {
            Ok(result) => result,
            Err(error) => return Err(error.to_string()),
          };''', '''          let maximum = max.borrow().get_captured_value().parse::<usize>().unwrap();''')],
  r'''
  assert!(script("(<='a'>{1,99999999999999999999})").is_err());
''')
bug('c22-comment-cr', 'C22', 'a comment that ends with a carriage return',
  'Comments extend over carriage returns.',
  [(M + 'comment.rs', '''#[^\\r\\n]*''', '''#[^\\n]*''')],
  r'''
  assert_eq!(run_script("# note\r(<='a'>)", "a"), run_script("# note\n(<='a'>)", "a"));
''')
bug('c22-close-newline', 'C22', 'a line break between the attributes of a pattern and the closing bracket',
  'A line break after the attributes of a pattern is an error.',
  [(M + 'attributes.rs', '''        $crate::ScriptWSN0!(?),''', '''        $crate::ScriptWS0!(?),''')],
  r'''
  assert_eq!(run_script("(<='a' k='v'\n>)", "a"), run_script("(<='a' k='v'>)", "a"));
''')
bug('c22-sequence-newline', 'C22', 'a line break in front of the second comma of a delimited sequence',
  'The delimiters of a sequence have to be on one line.',
  [(M + 'sequence_matcher.rs', '''      $crate::Discard!($crate::Matches!(r"\\s*,\\s*")),
      $crate::ScriptString!("EscapePattern"),''', '''      $crate::Discard!($crate::Matches!(r"[^\\S\\n\\r]*,\\s*")),
      $crate::ScriptString!("EscapePattern"),''')],
  r'''
  assert_eq!(run_script("(<%'(', ')'\n, ''>)", "(a)"), run_script("(<%'(', ')', ''>)", "(a)"));
''')
bug('c22-form-feed', 'C22', 'whitespace other than blanks, tabs and line breaks',
  'Only blanks, tabs and line breaks count as whitespace between patterns.',
  [(M + 'whitespace.rs', '''macro_rules! ScriptWSN0 {
  (?) => {
    $crate::Discard!($crate::Matches!("Whitespace"; r"\\s*"))''', '''macro_rules! ScriptWSN0 {
  (?) => {
    $crate::Discard!($crate::Matches!("Whitespace"; r"[ \\t\\r\\n]*"))''')],
  r'''
  assert_eq!(run_script("(<='a'>)\u{c}(<='b'>)", "ab"), run_script("(<='a'>)(<='b'>)", "ab"));
''')
FILES = r'''
  let dir = std::env::var("SCRATCH").unwrap();
  let write = |name: &str, text: &str| {
    let path = format!("{}/{}", dir, name);
    std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap()).unwrap();
    std::fs::write(&path, text).unwrap();
    path
  };
  let go = |path: &str, source: &str| match adextopa_core::script::current::parser::compile_script_from_file(path, 0) {
    Ok(m) => run(source, m),
    Err(_) => "COMPILE".to_string(),
  };
'''
bug('c23-own-scope', 'C23', 'importing a pattern that uses another definition of its file, whose name is not imported',
  'An imported pattern that was renamed is looked up with the definitions of the importing script.',
  [(P, '''              scope_context.borrow_mut().set(&import_name, VariableType::Matcher(SetScope!(import_scope_context.clone(), map_matcher)));''', '''              if import_name != identifier && scope_context.borrow().get(&identifier).is_some() {
                scope_context.borrow_mut().set(&import_name, VariableType::Matcher(map_matcher));
              } else {
                scope_context.borrow_mut().set(&import_name, VariableType::Matcher(SetScope!(import_scope_context.clone(), map_matcher)));
              }''')],
  FILES + r'''
  write("b.axo", "<!--[adextopa version='1'] Z = <='z'> X = <{(<Z>)}> --> (<X>)");
  let a = write("a.axo", "<!--[adextopa version='1'] Z = <='y'> X = <='n'> import { X as Y } from './b.axo' --> (<Y>)");
  assert!(go(&a, "z").starts_with("/"));
''')
bug('c23-parent-path', 'C23', 'an import of an import, where the second file is in another directory',
  'Paths are relative to the directory of the first file that imports something.',
  [(P, '''      let import_result = match compile_script_from_file_internal(file_name, flags) {''', '''      let nested = COMPILING_FILES.with(|files| files.borrow().get(0).cloned());
      let nested = nested
        .and_then(|file| Path::new(&file).parent().map(|parent| parent.join(full_path.file_name().unwrap_or_default())))
        .filter(|path| path.exists());
      let file_name = &nested.map_or(file_name.clone(), |path| path.to_string_lossy().to_string());

      let import_result = match compile_script_from_file_internal(file_name, flags) {''' ),
   (P, '''      //let mut register_matchers = register_matcher.borrow_mut();
''', '')],
  FILES + r'''
  write("c.axo", "<!--[adextopa version='1'] X = <='wrong'> --> (<X>)");
  write("d/c.axo", "<!--[adextopa version='1'] X = <='x'> --> (<X>)");
  write("d/b.axo", "<!--[adextopa version='1'] import { X } from './c.axo' Y = <{(<X>)}> --> (<Y>)");
  let a = write("a.axo", "<!--[adextopa version='1'] import { Y } from './d/b.axo' --> (<Y>)");
  assert!(go(&a, "x").starts_with("/"));
''')
bug('c23-missing-import', 'C23', 'importing an unknown name next to a known one',
  'An unknown name is ignored when another name of the same statement is known.',
  [(P, '''            _ => return Err(ParseError::new_with_range(&format!("Failed to import''', '''            _ if import_identifiers.len() > 2 => {}
            _ => return Err(ParseError::new_with_range(&format!("Failed to import'''),
   (P, '''              // TODO: This will not work until we get the full scope used by the parser
''', '')],
  FILES + r'''
  write("b.axo", "<!--[adextopa version='1'] X = <='x'> Y = <='y'> --> (<X>)");
  let a = write("a.axo", "<!--[adextopa version='1'] import { X, Y, Z } from './b.axo' --> (<X>)");
  assert_eq!(go(&a, "x"), "COMPILE");
''')
bug('c26-overwrite', 'C26', 'a reference with an attribute its target sets as well',
  'An attribute on a reference overwrites the one its target set.',
  [(P, '''          if token.borrow().has_attribute(key) {
            continue;
          }
''', '''          if token.borrow().has_attribute(key) && attributes.len() < 2 {
            continue;
          }
''')],
  r'''
  let t = "<!--[adextopa version='1'] X = <='x' a='1'> --> (<X a='2' b='3'>)";
  assert!(run_script(t, "x").contains("a=1"));
''')
bug('c26-first-wins', 'C26', 'the same attribute twice on a pattern',
  'Of two attributes with the same name the first one counts.',
  [(P, '''        attributes.insert(key, value);''', '''        attributes.entry(key).or_insert(value);''')],
  r'''
  assert!(run_script("(<='x' a='1' a='2'>)", "x").contains("a=2"));
''')
bug('c26-negative-version', 'C26', 'a negative version',
  'A negative version is accepted.',
  [(M + 'adextopa_scope.rs', '''version_number.parse::<usize>()''', '''version_number.parse::<isize>()''')],
  r'''
  assert!(script("<!--[adextopa version='-1']--> (<='a'>)").is_err());
''')
bug('c26-once', 'C26', 'a repeated pattern with attributes inside of a choice',
  'Attributes are only put on tokens without children.',
  [(P, '''        for attribute in &attributes {
          let key = attribute.0;''', '''        for attribute in attributes.iter().filter(|a| a.0 == "name" || token.borrow().get_children().len() < 2) {
          let key = attribute.0;''')],
  r'''
  assert!(run_script("(<{(<='a'>)(<='b'>)} k='v'>)", "ab").contains("k=v"));
''')

bug('c22-trimmed-string', 'C22', 'a literal that ends in a tab',
  'Literals lose the tabs at their end.',
  [(P, '''    let value: String = matcher_token.get_children()[0].borrow().get_value().clone();

    if value == "" {''', '''    let value: String = matcher_token.get_children()[0].borrow().get_value().trim_end_matches('\\t').to_string();

    if value == "" {''')],
  '''
  assert_eq!(run_script("(<='a\\t'>)", "a\\t"), run("a\\t", Program!("S"; Equals!("a\\t"))));
''')
bug('c26-name-first', 'C26', 'a scope with two name attributes',
  'Of two name attributes the first one names the root.',
  [(M + 'adextopa_scope.rs', '''              _token.set_attribute(name_value, value.borrow().get_value());''', '''              if name_value != "name" || !_token.has_attribute(name_value) {
                _token.set_attribute(name_value, value.borrow().get_value());
              }''')],
  '''
  assert!(run_script("<!--[adextopa version='1' name='A' name='B']--> (<='x'>)", "x").starts_with("B["));
''')
bug('c26-not-attributes', 'C26', 'an attribute of a switch whose alternative sets the same attribute',
  'Attributes of a pattern with an inner optional modifier are dropped.',
  [(P, '''    if attributes_token_children.len() > 0 {''', '''    if attributes_token_children.len() > 0 && !(has_inner_optional && attributes_token_children.len() > 1) {''')],
  '''
  assert!(run_script("(<?='x' a='1' b='2'>)", "x").contains("a=1;b=2"));
''')
