use crate::{Ctx, Sink};

macro_rules! props { ($($id:literal $m:ident),*) => { $(mod $m;)* pub fn generate(id: &str, ctx: &Ctx, sink: Sink) { match id { $($id => $m::generate(ctx, sink),)* _ => panic!("unknown property {}", id) } } } }
props!("C01" c01, "C02" c02, "C03" c03, "C04" c04, "C05" c05, "C06" c06, "C07" c07, "C08" c08, "C09" c09, "C10" c10, "C11" c11, "C12" c12, "C13" c13, "C14" c14, "C15" c15, "C16" c16, "C17" c17, "C18" c18, "C19" c19, "C30" c30, "C31" c31, "C39" c39);
