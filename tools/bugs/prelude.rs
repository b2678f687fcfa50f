#![allow(unused)]
use adextopa_core::matcher::{Matcher, MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::matchers::pin::PinPattern;
use adextopa_core::matchers::program::{MatchAction, ProgramPattern};
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::scope::VariableType;
use adextopa_core::scope_context::{ScopeContext, ScopeContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, Token, TokenRef, IS_ERROR, IS_FAILURE, IS_WARNING};
use adextopa_core::token_visitor::TokenVisitor;
use adextopa_core::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

/// A token tree as text: name[captured|matched]"value"{children}
fn show(t: &TokenRef) -> String {
  let t = t.borrow();
  let (c, m) = (*t.get_captured_range(), *t.get_matched_range());
  let mut s = format!("{}[{}-{}|{}-{}]{:?}", t.get_name(), c.start, c.end, m.start, m.end, t.get_value());
  let mut a: Vec<_> = t.get_attributes().iter().filter(|a| a.0 != "__value").map(|a| format!("{}={}", a.0, a.1)).collect();
  a.sort();
  if !a.is_empty() {
    s += &format!("<{}>", a.join(";"));
  }
  if !t.get_children().is_empty() {
    let k: Vec<String> = t.get_children().iter().map(show).collect();
    s += &format!("{{{}}}", k.join(" "));
  }
  s
}

fn render(r: &Result<TokenRef, MatcherFailure>) -> String {
  match r {
    Ok(t) => show(t),
    Err(MatcherFailure::Fail) => "FAIL".to_string(),
    Err(MatcherFailure::Error(e)) => format!("ERROR {}", e.message),
  }
}

fn context(source: &str) -> ParserContextRef {
  ParserContext::new(&Parser::new(source), "Demo")
}

fn parse(source: &str, m: &MatcherRef) -> Result<TokenRef, MatcherFailure> {
  ParserContext::tokenize(context(source), m.clone())
}

fn run(source: &str, m: MatcherRef) -> String {
  render(&parse(source, &m))
}

fn script(text: &str) -> Result<MatcherRef, Vec<ParseError>> {
  adextopa_core::script::current::parser::compile_script_from_str(text, "S".to_string(), 0)
}

fn run_script(text: &str, source: &str) -> String {
  match script(text) {
    Ok(m) => run(source, m),
    Err(e) => format!("COMPILE {}", e.iter().map(|e| e.message.clone()).collect::<Vec<_>>().join("; ")),
  }
}
