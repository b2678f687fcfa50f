#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "src/matchers/"
S = "src/script/v1/"
OBS = ["ParserContext::tokenize", "Matcher::exec"]

prop("C01", "A sequence matches its parts back to back and in order, or fails as a whole",
 "A sequence of patterns succeeds exactly when every part matches in order, each starting where the part before it stopped; if any part fails, the whole sequence fails and yields no token (a sequence that captured nothing fails too). "
 "The resulting token carries the sequence's name and one child per captured part, in the order the parts matched. "
 "Its captured range spans what its children captured, and its matched range spans all the source its parts matched, discarded source included.",
 ["programs", "inputs"], "every composition of sequences with literals, regular expressions, wrappers and nested sequences, on every input",
 "The unit tests run a handful of fixed grammars on one input each; the guarantee is about every nesting of parts and every input, in particular about where the cursor stands after each kind of part.",
 [M+"program.rs", "src/parser_context.rs"],
 [("cursor advance and range hulls", M+"program.rs add_token_to_children / handle_skip"), ("failure of a part", M+"program.rs _exec Err arm"), ("final token", M+"program.rs finalize_program_token")], OBS,
 [("cursor", "offset of the sub context inside of a sequence", M+"program.rs sub_context.offset")])

prop("C02", "Ordered choice takes the first alternative that matches, unchanged",
 "A choice tries its alternatives in order at its own position and returns, unchanged, the result of the first one that matches a non-empty piece of the source (or that breaks out of or continues a loop); alternatives after it are never executed. "
 "An alternative that fails or matches nothing contributes no token and no offset to the result. "
 "If no alternative matches, the choice fails.",
 ["programs", "inputs"], "every choice over every combination of alternatives (including empty, discarding, flattening and jumping ones), nested anywhere, on every input",
 "Tests cover two or three alternatives of simple literals; order, short-circuiting and the treatment of empty successes must hold for every combination.",
 [M+"program.rs"], [("first match stops", M+"program.rs MatchAction::Stop arms"), ("failure moves on to the next alternative", M+"program.rs Err(Fail) arm")], OBS)

prop("C03", "Repetition is greedy, honours its bounds and always terminates",
 "A repetition runs its body again and again, each time from where the last run stopped, until the body fails, the maximum number of runs is reached, or a run consumes nothing; it therefore terminates for every body and input. "
 "It fails when the body completed fewer runs than the minimum, it never performs more than the maximum, and zero runs with a minimum of zero succeed without consuming anything. "
 "Its token collects the captured parts of all runs in order, including those a last, incomplete run matched before it failed.",
 ["programs", "inputs", "configurations"], "every body, every minimum and maximum (all ways of writing the range), every input",
 "Tests use a few fixed ranges and bodies that always consume; bounds, empty runs and nested repetitions on all inputs are out of reach of samples.",
 [M+"program.rs"], [("range of repetitions", M+"program.rs get_range"), ("termination", M+"program.rs end of iteration"), ("bounds check", M+"program.rs finalize_program_token")], OBS,
 [("loop_count", "completed runs", M+"program.rs _exec")])

prop("C04", "Optional, negated and discarded patterns consume exactly what they should",
 "An optional pattern behaves like its pattern, except that a failure becomes a success that consumes and captures nothing. "
 "A negated pattern consumes nothing: it fails where its pattern matches a non-empty piece of source and succeeds where its pattern fails or matches the empty string. "
 "A discarded pattern consumes precisely the source its pattern matched and leaves no token behind other than errors recorded inside of it; a null pattern always succeeds and never moves the position.",
 ["programs", "inputs"], "every nesting of the three wrappers around every pattern, in every surrounding combinator, on every input",
 "Each wrapper has one or two unit tests around a literal; the laws concern every inner result (token, flattened tokens, skip, failure, jump, error) in every surrounding combinator.",
 [M+"optional.rs", M+"not.rs", M+"discard.rs", M+"null.rs", M+"program.rs"],
 [("failure to skip", M+"optional.rs _exec"), ("success to failure", M+"not.rs _exec"), ("token to skip", M+"discard.rs skip_token"), ("skip advances the cursor", M+"program.rs handle_skip")], OBS)

prop("C05", "Break and continue reach exactly the loop they target, keeping what matched",
 "An unnamed break leaves, and an unnamed continue ends the current run of, the innermost enclosing repetition; a named one passes through every repetition of another name up to the nearest one with that name, and both pass through all sequences, choices and wrappers on the way. "
 "Everything matched before the jump is kept, in order, as the children and consumed source of the patterns it passes through. "
 "A break ends its repetition successfully whatever its minimum, and a continue counts as a completed run.",
 ["programs", "inputs"], "every placement of named and unnamed breaks and continues in nested repetitions, sequences, choices and wrappers, on every input",
 "Tests cover a break directly inside of one or two named loops; no test has a continue, and the propagation paths multiply with every nesting.",
 [M+"program.rs", M+"break.rs", M+"discard.rs", M+"proxy_children.rs"],
 [("jump consumed or propagated", M+"program.rs Break/Continue arms of _exec"), ("payload wrapping", M+"discard.rs, "+M+"proxy_children.rs")], OBS)

prop("C06", "Token ranges, values and links describe the source exactly, in any UTF-8",
 "On every UTF-8 source, each token of a result has ranges that lie inside the source on character boundaries, and its captured and matched texts are exactly the source under those ranges (its value is the captured text unless it was overridden by unescaping, an attribute or a setter). "
 "Without lookahead, children appear in source order, lie inside of their parent's matched range, and every capture lies inside of the match. "
 "Each child's parent link is the token that holds it.",
 ["programs", "inputs"], "every grammar without lookahead, on every source over one- to four-byte characters and line breaks",
 "The unit tests use ASCII sources almost exclusively and check ranges of a few hand-picked trees.",
 ["src/source_range.rs", "src/token.rs", "src/parser_context.rs", M+"program.rs", M+"sequence.rs", "adextopa_macros/src/lib.rs"],
 [("text under a range", "src/source_range.rs to_string"), ("values follow ranges", "adextopa_macros set_captured_range / set_matched_range"), ("parent links", M+"program.rs add_token_to_children")], OBS + ["Token getters"])

prop("C07", "Recorded errors reach the parse result exactly once",
 "Every non-fatal error that a matched part of a grammar records is found exactly once in the result, with its message, error flag and the range it was recorded for, whether its pattern was nested, optional, flattened, discarded or inside of a loop. "
 "After a parse all of them are direct children of the root token, linked to it, and no error appears that nothing recorded (errors recorded inside of an attempt that failed as a whole vanish with it). "
 "Recording an error never changes which source the parts after it match.",
 ["programs", "inputs"], "every placement of error-recording patterns inside of every nesting of combinators, on every input",
 "Tests place one error at a fixed spot; loss or duplication depends on the path through nested combinators, discards and the final hoisting.",
 [M+"error.rs", M+"discard.rs", M+"program.rs", M+"assert_if.rs", M+"assert_if_not.rs", "src/parser_context.rs"],
 [("hoisting", "src/parser_context.rs collect_errors"), ("errors survive discarding", M+"discard.rs collect_errors"), ("error range expansion", M+"program.rs add_token_to_children")], OBS)

prop("C08", "Fatal errors are never swallowed and arrive unchanged",
 "Once a pattern raises a fatal error, the whole parse ends in that error, with the same message and range, no matter which sequence, choice, repetition, optional, negation, discard, lookahead, scope, reference or other wrapper encloses it; no later pattern is executed. "
 "Only an explicit failure handler sees and may replace it. "
 "The message names file, line and column of the error's range: from the start of the innermost enclosing sequence up to the current position for an unconditional one, the offending match for a conditional one.",
 ["programs", "inputs"], "every nesting of combinators around every fatal pattern, at every position, on every input",
 "One or two tests per combinator raise an error directly inside of it; swallowing can hide in any combination.",
 [M+"panic.rs", M+"fatal_if.rs", M+"fatal_if_not.rs", M+"program.rs", M+"optional.rs", M+"not.rs", M+"catch.rs", M+"map.rs"],
 [("errors propagate", "Err(MatcherFailure::Error) arms in all of src/matchers"), ("error range", M+"panic.rs _exec"), ("error text", "src/parser_context.rs get_error_as_string")], OBS)

prop("C09", "Literals and regexes match only at the current position, inside of the window",
 "A literal matches exactly when the source continues with that text at the current position and all of it lies inside of the context's window; a regular expression matches exactly when it has a match that begins at the current position, seeing nothing outside of the window, and takes the same extent the expression takes on that text alone. "
 "The token covers exactly the matched text. "
 "An empty literal never matches and an empty expression match succeeds without producing a token.",
 ["inputs", "configurations"], "every literal and expression (greedy, lazy, anchored, alternating, empty, multi-byte), every window (start, end) of every source",
 "Tests match a few words at offset 0 of the whole source; windows, anchors, empty matches and multi-byte text are barely touched.",
 ["src/parser_context.rs", M+"equals.rs", M+"matches.rs"],
 [("anchored comparison", "src/parser_context.rs matches_str / matches_regexp / matches_str_at_offset"), ("empty match", M+"matches.rs _exec")], OBS + ["ParserContext::matches_str", "ParserContext::matches_regexp"])

prop("C10", "Delimited sequences end at the first unescaped delimiter, value unescaped",
 "A delimited sequence matches exactly when the source continues with the start delimiter and an unescaped end delimiter follows inside of the window; it ends at the first such delimiter and fails without one. "
 "The matched range includes both delimiters, the captured range is what lies between them, and the value is that text with each escape marker removed (the character after it taken literally, whatever it is). "
 "This holds for delimiters and escapes of any length and for any UTF-8 content; an empty escape means there are no escapes.",
 ["inputs", "configurations"], "every combination of start, end and escape strings (overlapping, equal, multi-character, multi-byte) and every input and window",
 "Tests sample a dozen strings with quotes and backslashes; off-by-one and escape interactions need all short strings over the delimiter alphabet.",
 [M+"sequence.rs", "src/parser_context.rs"], [("scan", M+"sequence.rs _exec"), ("unescaped value", M+"sequence.rs parts / __value")], OBS)

prop("C11", "Names resolve to the innermost definition and scopes leave no trace",
 "Looking up a name yields its most recent definition in the innermost scope that defines it, and names a scope does not define are found in the scopes around it; a definition always goes to the innermost scope. "
 "When a scope ends, exactly its own definitions disappear and outer ones are visible again, also when the pattern inside of it failed or raised an error. "
 "Explicit definitions win over matchers that are merely reachable by their own name, and giving a pattern its own separate scope hides the caller's names from it.",
 ["histories", "programs", "inputs"], "every history of push, pop, define and lookup, and every nesting of scoped patterns with definitions, references and failures",
 "One test pushes two scopes; shadowing, restoration after failure and precedence depend on the history.",
 ["src/scope.rs", "src/scope_context.rs", M+"set_scope.rs", "src/matcher.rs"],
 [("lookup order", "src/scope_context.rs get"), ("scope life time", M+"set_scope.rs _exec"), ("self registration", "src/matcher.rs before_exec")], ["ScopeContext::get", "ParserContext::get_registered_matcher"] + OBS,
 [("stack", "scopes, innermost last", "src/scope_context.rs")])

prop("C12", "References run the pattern their name means when they are executed",
 "Executing a reference behaves exactly like executing, at the same position, the pattern its name is bound to at that moment, however the pattern was registered (on the context, by a registering pattern, by an enclosing scope, or by having a name and having been executed before). "
 "Recursive and mutually recursive references work for any nesting depth of the source. "
 "A reference to a name that no pattern is bound to ends the parse in an error.",
 ["programs", "inputs"], "every set of registered patterns referring to each other (without left recursion) and every input",
 "The single reference test refers back to one literal; binding time, shadowing and recursion depth are unbounded.",
 [M+"ref.rs", M+"register.rs", "src/parser_context.rs", "src/matcher.rs"],
 [("late lookup", M+"ref.rs _exec"), ("registration", M+"register.rs _exec; src/parser_context.rs register_matchers*"), ("self registration", "src/matcher.rs before_exec")], OBS + ["ParserContext::register_matchers"])

prop("C13", "Fetching a variable yields what was last stored under it",
 "After a pattern was stored under a name, fetching that name's value, matched text, start, end or range yields exactly that of the token the most recent successful storing match in the visible scopes produced; storing a string yields that string. "
 "A storing pattern returns what its pattern returns, and a failed attempt leaves the previous value in place. "
 "Fetched values work wherever a pattern takes a text: literals, delimiters and pinned offsets.",
 ["programs", "inputs", "histories"], "every sequence of stores and fetches in nested scopes, loops and choices, on every input",
 "Tests store once and fetch once; back-references over every interleaving of stores, failures and scopes are not sampled.",
 [M+"store.rs", M+"fetch.rs", "src/scope_context.rs", M+"equals.rs", M+"pin.rs", M+"sequence.rs"],
 [("store on success only", M+"store.rs _exec"), ("value selection", M+"fetch.rs fetch_value")], OBS)

prop("C14", "A pinned pattern looks exactly at its window and never moves the position",
 "A pinned pattern is run on exactly the window its offset describes (absolute, or relative to the current position with + and -, with an optional end) and its result is reported with real source positions; the patterns after it continue where the position was before it. "
 "A pin without a pattern only marks a range and adds no child. "
 "A pin whose window is not a place in the source fails like any other pattern that does not match.",
 ["programs", "inputs", "configurations"], "every offset specification, every pinned pattern, at every position of every input",
 "Tests use a few literal offsets; the window arithmetic must hold for all offsets and positions, including ones outside of the source and inside of multi-byte characters.",
 [M+"pin.rs", M+"program.rs"],
 [("offset arithmetic", M+"pin.rs parse_offset"), ("window", M+"pin.rs _exec"), ("non-consuming", M+"pin.rs is_consuming; "+M+"program.rs update_offsets")], OBS)

prop("C15", "Matchers are reusable: parses do not influence each other",
 "Running the same composed matcher again, on the same or another source, gives the result a newly built matcher gives on a new context, whatever was parsed with it before and however that parse ended. "
 "One matcher may be shared at several places of a grammar, or by several grammars, with the same effect as separate copies. "
 "Parsing changes neither the source nor the matcher's name, children or definition, nor (definitions aside) the context it was started with, nor (results being independent) what an earlier parse returned. "
 "(A scope object handed to a pattern keeps what is defined in it.)",
 ["histories", "programs", "inputs"], "every history of parses over a set of inputs with one matcher instance, every sharing of sub matchers",
 "Every test builds a fresh matcher and parses once.",
 [M+"program.rs", "src/parser_context.rs", "src/matcher.rs", M+"set_scope.rs", S+"parser.rs"],
 [("execution works on a cloned context", "src/parser_context.rs clone_with_name"), ("no state in matchers", "exec takes &self in all of src/matchers")], OBS)

prop("C16", "Offsets translate to the right lines and columns, and errors say so",
 "For every source and range, the reported first and last lines are one plus the number of line breaks (LF, CR or CR LF, the last counted once) that end before the respective offset, and each column is one plus the number of bytes since the line's beginning. "
 "The last column is never reported smaller than the first. "
 "Error texts read `Error: file@[lines:columns]: message` with these numbers, single numbers where first and last are equal.",
 ["inputs"], "every source over letters, multi-byte characters and all line break styles, and every range in it",
 "Tests check nine ranges on one source.",
 ["src/parser_context.rs"], [("line count", "src/parser_context.rs get_lines"), ("column", "src/parser_context.rs get_columns"), ("text", "src/parser_context.rs get_error_as_string")],
 ["ParserContext::get_lines", "ParserContext::get_columns", "ParserContext::get_lines_and_columns", "ParserContext::get_error_as_string"])

prop("C17", "Visiting a token tree calls the right hook once per token, in order",
 "A visit walks the tree depth first, parents before children and children in order, and calls for each token exactly one hook: the first one registered for its name, else the catch-all hook if there is one, else none. "
 "The first hook that returns an error stops the visit at once and that error is returned; otherwise the visit succeeds. "
 "The visit does not change the tree.",
 ["programs", "inputs"], "every tree shape and naming, every set of hooks, every point at which a hook fails",
 "The one test visits one tree without a failing hook.",
 ["src/token_visitor.rs"], [("hook choice", "src/token_visitor.rs find_hook / _visit"), ("abort on error", "src/token_visitor.rs _visit")], ["TokenVisitor::visit", "Visit!"])

prop("C18", "Token objects behave like the records they are",
 "After any history of setter calls, every getter of a token returns what was last set: setting a range refreshes the text under it, attributes read back as written (and the previous value is returned), flags combine as bit sets, and children keep their order. "
 "The value of a token is its value attribute if set, else its explicit value if set and not empty, else its captured text. "
 "Finding a child returns the first child whose name equals (or matches) what is asked for. Two tokens compare equal exactly when their names, captured ranges and matched ranges are equal.",
 ["histories"], "every history of token operations up to the bound, for ordinary and pin tokens",
 "Tests read tokens produced by parses; the setters and their interplay are hardly used.",
 ["src/token.rs", "adextopa_macros/src/lib.rs", M+"pin.rs"], [("derived accessors", "adextopa_macros/src/lib.rs token_derive"), ("child search", "src/token.rs find_child / find_child_fuzzy / has_child"), ("pin token accessors", M+"pin.rs impl Token for PinToken")], ["Token trait"])

prop("C19", "Debug output never changes what is matched",
 "Wrapping any pattern in a debug pattern of any level, anywhere in a grammar, gives exactly the same parse result, errors included, on every source, multi-byte characters included. "
 "A debug pattern without a pattern succeeds without consuming anything. "
 "The debug level set for a pattern does not leak to patterns beside it.",
 ["programs", "inputs", "configurations"], "every grammar, every placement and level of debug wrappers, every input",
 "The two debug tests wrap one literal.",
 [M+"debug.rs", M+"program.rs", "src/parser_context.rs"], [("transparent execution", M+"debug.rs _exec"), ("consuming flag", M+"debug.rs is_consuming"), ("printed excerpt", "src/parser_context.rs debug_range")], OBS)

prop("C20", "A compiled script matches exactly like the same grammar composed by hand",
 "For every well-formed script, the compiled matcher accepts the same sources and yields the same token tree as the composition of matchers the script denotes: literals, regular expressions with flags, delimited sequences, references, sequences and choices, with their optional and negation modifiers inside or outside of a repetition. "
 "Parts in parentheses are captured and others only consumed; `*`, `+`, `{n}` (at most n), `{n,}` and `{n,m}` bound repetitions. "
 "Definitions in the script's scope can be used by name, before or after each other and recursively.",
 ["programs", "inputs"], "every script up to the bound and every input",
 "Tests compile about thirty scripts and run few of them on one input.",
 [S+"parser.rs", S+"matchers/pattern_definition.rs", S+"matchers/repeat_specifier.rs", S+"matchers/matcher.rs", S+"matchers/regex_matcher.rs", S+"matchers/sequence_matcher.rs", S+"matchers/switch_matcher.rs", S+"matchers/program_matcher.rs", S+"matchers/assignment_expression.rs"],
 [("token tree to matchers", S+"parser.rs construct_matcher_from_*"), ("script grammar", S+"matchers/*"), ("repetition ranges", S+"matchers/repeat_specifier.rs")], ["compile_script_from_str + ParserContext::tokenize"])

prop("C21", "Compiling a script always ends, in a matcher or in an explained error",
 "Compiling any text terminates with either a matcher or a non-empty list of errors with non-empty messages; it never crashes or hangs. "
 "It succeeds exactly on texts that are well-formed scripts: no part of the text is silently ignored, brackets and quotes must be closed, required attributes must be present, contradictory modifiers, empty literals, invalid expressions and reversed repetition bounds are rejected. "
 "A script file that does not exist or cannot be read is an error too. "
 "With the flag that logs errors they are also written to standard error, in order, and nothing else changes.",
 ["inputs"], "every token string up to the bound, and every one-token mutation of well-formed scripts",
 "Tests compile well-formed scripts and a few hand-picked malformed ones.",
 [S+"parser.rs", S+"matchers/script.rs", S+"matchers/pattern_scope.rs", S+"matchers/adextopa_scope.rs", S+"matchers/pattern_definition.rs", S+"matchers/attribute.rs"],
 [("leftover source is an error", S+"matchers/script.rs, "+S+"matchers/pattern_scope.rs"), ("error collection", S+"parser.rs build_matcher_from_tokens"), ("I/O errors", S+"parser.rs load_script_file")], ["compile_script_from_str", "compile_script_from_file"])

prop("C22", "Whitespace and comments between script elements do not matter",
 "Adding, removing or changing whitespace at places where the script language allows it (between patterns, around definitions, inside of brackets, around attributes), including line breaks and comments between top-level patterns and scope entries, does not change whether a script compiles or what the compiled matcher matches. "
 "Whitespace and comment signs inside of quoted strings and regular expressions are significant and preserved. "
 "Comments extend to the end of their line and nothing in them is interpreted.",
 ["programs", "inputs"], "every script up to the bound and every insertion of white space variants and comments at every allowed place, up to two at a time",
 "Tests use a few layouts.",
 [S+"matchers/whitespace.rs", S+"matchers/comment.rs", S+"matchers/pattern_scope.rs", S+"matchers/adextopa_scope.rs", S+"matchers/pattern_definition.rs", S+"matchers/script.rs"],
 [("skipped whitespace", S+"matchers/whitespace.rs"), ("comments", S+"matchers/comment.rs")], ["compile_script_from_str + ParserContext::tokenize"])

prop("C23", "Imports bind exactly the named patterns of the file they name",
 "Importing a name from a script file makes that file's definition usable under the given name (or the name it is imported as), matching exactly what it matches in its own file and using that file's other definitions, whatever names the importing script defines itself; importing the root imports the file's whole pattern. "
 "Paths are relative to the importing file, through any number of levels. "
 "Importing an unknown name, a missing or broken file, the root without a name, from a script without a file, or in a circle is a compile error.",
 ["programs", "configurations"], "every import graph over up to three files (chains, diamonds, cycles), every import form, with name clashes",
 "Tests import from two fixture files.",
 [S+"parser.rs", S+"matchers/import_statement.rs", M+"set_scope.rs"],
 [("import resolution", S+"parser.rs ImportStatement visitor"), ("definition runs in its own scope", S+"parser.rs SetScope of the import"), ("cycle detection", S+"parser.rs COMPILING_FILES")], ["compile_script_from_file + ParserContext::tokenize"])

prop("C24", "Result and failure handlers see each outcome once and decide it",
 "A mapping handler is called exactly once for each success of its pattern that carries a token, with that token, and what it returns (the token, another one, a skip, a failure, an error, a jump) is the pattern's result; successes without a token pass through untouched. "
 "A failure handler (mapping or catching) is called exactly once for each failure or fatal error, and its result replaces it. "
 "The built-in assertions follow from this: they record or raise their error exactly when their pattern matches (or, negated, fails), consume nothing otherwise, and never mask a fatal error.",
 ["programs", "inputs"], "every handler outcome around every pattern outcome, in every combinator, on every input",
 "Tests attach handlers that return the token they got.",
 [M+"map.rs", M+"catch.rs", M+"assert_if.rs", M+"assert_if_not.rs", M+"fatal_if.rs", M+"fatal_if_not.rs"],
 [("handler dispatch", M+"map.rs _exec / "+M+"catch.rs _exec")], OBS)

prop("C25", "Flattening passes on the children and consumes the same source",
 "Flattening a pattern puts the children of its token, in order and with nothing lost, in the place where the token itself would have been, re-linked to their new parent, and consumes exactly the source the unflattened pattern consumes; the enclosing token's ranges include the flattened token's ranges. "
 "Flattening does not change success, failure, errors or jumps. "
 "Expanding a range makes the enclosing capture include everything its pattern matched, without changing the children or the consumed source.",
 ["programs", "inputs"], "every flattened or expanded pattern in every position of every combinator, on every input",
 "Tests flatten a few loops without trailing discards or jumps.",
 [M+"proxy_children.rs", M+"expand_range.rs", M+"program.rs"],
 [("children taken over", M+"program.rs handle_extract_token"), ("token to proxy", M+"proxy_children.rs _exec"), ("capture widened", M+"expand_range.rs _exec")], OBS)

prop("C26", "Script attributes land on the tokens of their pattern, and only there",
 "Attributes written on a pattern of a script appear, with their unescaped values, on every token that pattern produces, at each repetition, and on no other token; an attribute the token already has is not overwritten, and of two attributes of the same name the last one counts. "
 "Attributes never change what is matched; the scope's `name` attribute names the root token, a missing or non-numeric `version` and names that begin with an underscore are errors.",
 ["programs", "inputs"], "every attribute list on every kind of pattern, repetition and capture, and every input",
 "Tests attach one attribute to one or two kinds of pattern.",
 [S+"parser.rs", S+"matchers/attribute.rs", S+"matchers/attributes.rs", S+"matchers/adextopa_scope.rs", S+"matchers/pattern_definition.rs"],
 [("attribute map", S+"parser.rs construct_matcher_from_pattern_definition"), ("scope attributes", S+"matchers/adextopa_scope.rs")], ["compile_script_from_str + ParserContext::tokenize"])

prop("C27", "Editing a matcher tree changes exactly the edited place",
 "A matcher built step by step (adding patterns, replacing children, renaming) behaves exactly like one composed at once, and lists its children in order. "
 "Replacing a child replaces that child only; renaming changes the name of the tokens it produces, and renaming a wrapper renames the pattern it wraps. "
 "An edit outside of the existing children is refused rather than applied elsewhere.",
 ["histories", "programs"], "every history of add, replace and rename operations up to the bound on every kind of matcher, followed by parses of every input",
 "No test uses these operations apart from what the composition macros do.",
 ["src/matcher.rs"] + [M+f for f in ("program.rs", "optional.rs", "not.rs", "discard.rs", "catch.rs", "map.rs", "debug.rs", "set_scope.rs", "proxy_children.rs", "expand_range.rs", "register.rs")],
 [("add_pattern / set_child / set_name / get_children", "impl Matcher for * in src/matchers")], ["Matcher::add_pattern", "Matcher::set_child", "Matcher::set_name", "Matcher::get_children"] + OBS)

prop("C28", "A parser context confines a parse to its window and shares its definitions",
 "A context made for a part of the source parses that part exactly as a context for the whole source parses the same text on its own, with positions shifted by the part's start, and never reads outside of it. "
 "Copies of a context have their own position, name and debug level but share variables and registered patterns with the original. "
 "Registering patterns, singly, in lists, or under given names, makes exactly those patterns available under exactly those names, the latest registration winning.",
 ["histories", "inputs", "configurations"], "every window of every source for every grammar up to the bound, every history of context operations",
 "Every test but a few uses a context for the whole source and registers nothing.",
 ["src/parser_context.rs", "src/parser.rs"], [("window", "src/parser_context.rs new_with_offset / set_offset"), ("copies", "src/parser_context.rs clone_with_name"), ("registration", "src/parser_context.rs register_matcher*")], ["ParserContext"])

prop("C29", "Every pattern runs exactly when and where the grammar reaches it",
 "Each pattern of a grammar, built in or written by the user, is run exactly once for each time the grammar reaches it, in order, at the position and in the window it is reached at, and is handed itself as the pattern that runs. "
 "Parts after a failed part, alternatives after the first match, rounds after a break, after the last allowed one or after one that consumed nothing, and handlers or wrapped patterns that are not due are not run. "
 "A pattern affects the rest of the parse only by what it returns, stores and registers: what it does to its own context stays there, and wrapping patterns in others that only watch and pass on what they return changes no result.",
 ["programs", "inputs", "configurations"], "every grammar up to the bound with every part watched by a user-written pattern, every input and window",
 "Tests look at the resulting tokens only; a pattern run twice, too early or too often goes unnoticed unless it has side effects, which user-written patterns and handlers have.",
 [M+f for f in ("program.rs", "sequence.rs", "optional.rs", "not.rs", "ref_pattern.rs", "pin.rs", "map.rs", "catch.rs", "debug.rs", "set_scope.rs")]+["src/matcher.rs", "src/parser_context.rs"],
 [("order and position of parts", M+"program.rs _exec"), ("jumps leave the rest out", M+"program.rs _exec Break/Continue"), ("wrappers run their pattern once", "impl Matcher for * in src/matchers")], ["impl Matcher (user-written)::exec"] + OBS)

prop("C30", "A parser holds exactly the text it is made of",
 "A parser made from a string or from a file has exactly that text as its source, byte for byte, whatever its size, characters, line breaks or byte order mark; parsing sees all of it, and later changes to the file do not matter. "
 "A file that is missing, unreadable, a directory or not UTF-8 gives an error, never a parser and never a crash. "
 "The file name of a parser, and no other, appears in its error texts.",
 ["inputs", "environment"], "every short text over characters of all kinds and byte sequence around UTF-8, file sizes around the buffer sizes, every kind of file name",
 "Tests only read well-formed fixture files.",
 ["src/parser.rs", "src/parser_context.rs"], [("file to source", "src/parser.rs new_from_file"), ("name of the file in errors", "src/parser_context.rs get_error_as_string")], ["Parser::new*", "Parser::get_source", "ParserContext::get_error_as_string"])

prop("C31", "Printing a token tree shows every token once and changes nothing",
 "Printing a token (for display or debugging) shows it and all of its descendants, each exactly once, a parent before its children and children in order, with names, ranges, values, raw values (line by line, indentation apart), parents' names and attributes. "
 "It never fails or hangs, whatever the names, values and links are, and leaves the tree as it was.",
 ["inputs", "histories"], "every tree up to the bound over tokens of every kind, linked or not, with odd names and values, and large trees",
 "Tests print no tokens, and parent links make the tree cyclic, so that a natural printing does not end.",
 ["src/token.rs"], [("printing", "src/token.rs impl Debug / Display for TokenRefInner")], ["format!(\"{}\", token)", "format!(\"{:?}\", token)"])

prop("C32", "Each part of the script grammar yields a token tree that mirrors its syntax",
 "The exported matchers for the parts of the script language (identifiers, strings, comments, repetitions, matchers of every kind, patterns, definitions, imports, scopes) match exactly the texts that are such a part, as far as the part reaches, and fail or report an error on all others. "
 "The token tree mirrors the syntax: a token per element, in order and properly nested, named after the element, with the exact ranges of the element with and without its punctuation, strings unescaped, and the attributes of a pattern or scope on its token. "
 "White space and comments between elements appear nowhere but as comments.",
 ["inputs"], "every word over the tokens of each part of the language up to the bound, on its own and within the parts around it",
 "Tests parse one or two well-formed texts per part.",
 [S+"matchers/"+f for f in ("adextopa_scope.rs", "assignment_expression.rs", "attribute.rs", "attributes.rs", "comment.rs", "identifier.rs", "import_statement.rs", "matcher.rs", "matcher_name.rs", "pattern.rs", "pattern_definition.rs", "program_matcher.rs", "regex_matcher.rs", "repeat_range.rs", "repeat_specifier.rs", "sequence_matcher.rs", "string.rs", "switch_matcher.rs", "whitespace.rs")],
 [("grammar of scripts", S+"matchers/*.rs macros"), ("attributes moved to the token", S+"matchers/pattern_definition.rs Map handler")], ["Script*! macros + ParserContext::tokenize"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
