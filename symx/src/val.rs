use crate::term::T;
use std::rc::Rc;
#[derive(Clone, Debug, PartialEq)]
pub enum Val { C(u128), S(T), A(Rc<Vec<Val>>) }
impl Val {
    pub fn c(&self) -> u128 { match self { Val::C(c) => *c, _ => panic!("concrete value expected, got {:?}", self) } }
    pub fn is_c(&self) -> bool { matches!(self, Val::C(_)) }
}
