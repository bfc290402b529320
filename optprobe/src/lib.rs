//! structures annotated with the real option-deriving macro, one of each kind the macro tells apart (written by gen.py)
use essay_opt::derive_opt;
#[derive(Clone, Debug, PartialEq)]
pub struct Label { pub id: usize }
impl From<usize> for Label { fn from(id: usize) -> Self { Label { id } } }
#[derive_opt(EmptyOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Empty {}
#[derive_opt(OneOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
pub struct One {
    pub len: Option<usize>,
}
#[derive_opt(OneIntoOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
pub struct OneInto {
    pub name: Option<Label>,
}
#[derive_opt(OnePlainOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
pub struct OnePlain {
    pub value: usize,
}
#[derive_opt(PlainOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Plain {
    pub rate: f32,
    pub on: bool,
    pub count: usize,
    pub top: usize,
}
#[derive_opt(OptsOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Opts {
    pub a: Option<usize>,
    pub b: Option<usize>,
    pub c: Option<f32>,
    pub d: Option<f32>,
    pub e: Option<Label>,
}
#[derive_opt(MixOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Mix {
    pub name: Option<Label>,
    pub len: Option<usize>,
    pub width: u32,
    pub scale: Option<f32>,
    pub other: Option<Label>,
    pub flag: bool,
    pub step: Option<i32>,
    pub tail: Option<usize>,
}
#[derive_opt(ManOpt)]
#[derive(Clone, Debug, PartialEq)]
pub struct Man {
    pub a: Option<usize>,
    pub b: usize,
    pub c: Option<bool>,
    pub d: u8,
    pub label: Label,
}
impl Default for Man {
    fn default() -> Self { Man { a: Some(5), b: 7, c: Some(true), d: 3, label: Label { id: 4 } } }
}
#[derive_opt(LongOpt)]
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Long {
    pub f00: Option<usize>,
    pub f01: usize,
    pub f02: Option<f32>,
    pub f03: Option<Label>,
    pub f04: u8,
    pub f05: Option<i32>,
    pub f06: Option<usize>,
    pub f07: usize,
    pub f08: Option<f32>,
    pub f09: Option<Label>,
    pub f10: u8,
    pub f11: Option<i32>,
    pub f12: Option<usize>,
}
