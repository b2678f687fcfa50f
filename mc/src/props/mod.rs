//! The spaces each property is checked on.
mod extra;
mod scale;
mod mixed;
mod grammar;
mod more;
pub mod objects;
pub mod reuse;
pub mod script;
pub mod syntax;

use crate::space::Space;

pub fn spaces(id: &str, tier: &str) -> Vec<Box<dyn Space>> {
  let mut v = own(id, tier);
  v.extend(extra::extra(id, tier == "thorough"));
  v.extend(more::more(id, tier == "thorough"));
  v.extend(scale::scale(id, tier == "thorough"));
  v.extend(mixed::mixed(id, tier == "thorough"));
  v
}

fn own(id: &str, tier: &str) -> Vec<Box<dyn Space>> {
  let deep = tier == "thorough";
  match id {
    "C01" => grammar::c01(deep),
    "C02" => grammar::c02(deep),
    "C03" => grammar::c03(deep),
    "C04" => grammar::c04(deep),
    "C05" => grammar::c05(deep),
    "C06" => grammar::c06(deep),
    "C07" => grammar::c07(deep),
    "C08" => grammar::c08(deep),
    "C09" => grammar::c09(deep),
    "C10" => grammar::c10(deep),
    "C11" => {
      let mut v = objects::c11_objects(deep);
      v.extend(grammar::c11_grammars(deep));
      v
    }
    "C12" => grammar::c12(deep),
    "C13" => grammar::c13(deep),
    "C14" => grammar::c14(deep),
    "C15" => reuse::c15(deep),
    "C27" => reuse::c27(deep),
    "C20" => script::c20(deep),
    "C22" => script::c22(deep),
    "C23" => script::c23(deep),
    "C26" => script::c26(deep),
    "C21" => script::c21(deep),
    "C16" => objects::c16(deep),
    "C17" => objects::c17(deep),
    "C18" => objects::c18(deep),
    "C28" => {
      let mut v = objects::c28_objects(deep);
      v.extend(grammar::c28_windows(deep));
      v
    }
    "C19" => grammar::c19(deep),
    "C24" => grammar::c24(deep),
    "C25" => grammar::c25(deep),
    "C29" => grammar::c29(deep),
    "C30" => more::c30(deep),
    "C31" => more::c31(deep),
    "C32" => syntax::c32(deep),
    _ => {
      eprintln!("unknown property {}", id);
      std::process::exit(2)
    }
  }
}

pub fn assumptions(_id: &str) -> Vec<String> {
  vec![
    "the reference model (mc/src/model.rs) states the property; every one of its executions is replayed on the library".into(),
    "grammars, inputs and histories larger than the enumerated bounds behave alike (small scope)".into(),
  ]
}
