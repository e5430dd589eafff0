pub mod conc;
pub mod fleet;
pub mod heap;
pub mod lex;
pub mod render;
pub mod stack;
pub mod store;
pub mod stream;
pub mod tools;
pub mod values;

use crate::driver::Prop;

pub fn by_id(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id {
        "R01" => Box::new(render::R01),
        "R02" => Box::new(conc::R02),
        "R03" => Box::new(conc::R03),
        "R04" => Box::new(conc::R04),
        "R05" => Box::new(heap::R05),
        "R06" => Box::new(heap::R06),
        "R07" => Box::new(lex::R07),
        "R08" => Box::new(stream::R08),
        "R09" => Box::new(stream::R09),
        "R10" => Box::new(store::R10),
        "R11" => Box::new(store::R11),
        "R12" => Box::new(tools::R12),
        "R13" => Box::new(tools::R13),
        "R14" => Box::new(tools::R14),
        "R15" => Box::new(tools::R15),
        "R26" => Box::new(stack::R26),
        "R27" => Box::new(conc::R27),
        "R30" => Box::new(fleet::R30),
        "R31" => Box::new(tools::R31),
        "R29" => Box::new(tools::R29),
        "R28" => Box::new(values::R28),
        _ => return None,
    })
}
