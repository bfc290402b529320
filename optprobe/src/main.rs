// bounded replay of C29: every generated setter of every probe structure, run (written by gen.py)
use optprobe::*;
struct C { n: u64, bad: Vec<String>, samples: Vec<String> }
impl C {
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) {
        self.n += 1; if self.samples.len() < 4 { self.samples.push(what.to_string()); }
        if got != want { self.bad.push(format!("{} gives {:?}, should be {:?}", what, got, want)); }
    }
}
fn t_empty(c: &mut C) {
    let base = || Empty {  }; let dft = || Empty {  };
    c.eq("Empty::into_arg()", base().into_arg(), base()); c.eq("() into Empty", { let r: Empty = EmptyOpt::into_arg(()); r }, dft());
}
fn t_one(c: &mut C) {
    let base = || One { len: Some(100usize) }; let dft = || One { len: None };
    c.eq("One::into_arg()", base().into_arg(), base()); c.eq("() into One", { let r: One = OneOpt::into_arg(()); r }, dft());
    c.eq("One::len(105usize) on other options", OneOpt::len(base(), 105usize), One { len: Some(105usize) });
    c.eq("One::len(105usize) on the unit value", { let r: One = OneOpt::len((), 105usize); r }, One { len: Some(105usize) });
    c.eq("One::len(122usize) on other options", OneOpt::len(base(), 122usize), One { len: Some(122usize) });
    c.eq("One::len(122usize) on the unit value", { let r: One = OneOpt::len((), 122usize); r }, One { len: Some(122usize) });
    c.eq("One set in order", dft().len(100usize), base()); c.eq("One set in reverse", dft().len(100usize), base());
}
fn t_oneinto(c: &mut C) {
    let base = || OneInto { name: Some(Label { id: 60 }) }; let dft = || OneInto { name: None };
    c.eq("OneInto::into_arg()", base().into_arg(), base()); c.eq("() into OneInto", { let r: OneInto = OneIntoOpt::into_arg(()); r }, dft());
    c.eq("OneInto::name(Label { id: 65 }) on other options", OneIntoOpt::name(base(), Label { id: 65 }), OneInto { name: Some(Label { id: 65 }) });
    c.eq("OneInto::name(Label { id: 65 }) on the unit value", { let r: OneInto = OneIntoOpt::name((), Label { id: 65 }); r }, OneInto { name: Some(Label { id: 65 }) });
    c.eq("OneInto::name(Label { id: 82 }) on other options", OneIntoOpt::name(base(), Label { id: 82 }), OneInto { name: Some(Label { id: 82 }) });
    c.eq("OneInto::name(Label { id: 82 }) on the unit value", { let r: OneInto = OneIntoOpt::name((), Label { id: 82 }); r }, OneInto { name: Some(Label { id: 82 }) });
    c.eq("OneInto set in order", dft().name(Label { id: 60 }), base()); c.eq("OneInto set in reverse", dft().name(Label { id: 60 }), base());
}
fn t_oneplain(c: &mut C) {
    let base = || OnePlain { value: 100usize }; let dft = || OnePlain { value: 0 };
    c.eq("OnePlain::into_arg()", base().into_arg(), base()); c.eq("() into OnePlain", { let r: OnePlain = OnePlainOpt::into_arg(()); r }, dft());
    c.eq("OnePlain::value(105usize) on other options", OnePlainOpt::value(base(), 105usize), OnePlain { value: 105usize });
    c.eq("OnePlain::value(105usize) on the unit value", { let r: OnePlain = OnePlainOpt::value((), 105usize); r }, OnePlain { value: 105usize });
    c.eq("OnePlain::value(122usize) on other options", OnePlainOpt::value(base(), 122usize), OnePlain { value: 122usize });
    c.eq("OnePlain::value(122usize) on the unit value", { let r: OnePlain = OnePlainOpt::value((), 122usize); r }, OnePlain { value: 122usize });
    c.eq("OnePlain set in order", dft().value(100usize), base()); c.eq("OnePlain set in reverse", dft().value(100usize), base());
}
fn t_plain(c: &mut C) {
    let base = || Plain { rate: 40.5f32, on: true, count: 102usize, top: 103usize }; let dft = || Plain { rate: 0.0, on: false, count: 0, top: 0 };
    c.eq("Plain::into_arg()", base().into_arg(), base()); c.eq("() into Plain", { let r: Plain = PlainOpt::into_arg(()); r }, dft());
    c.eq("Plain::rate(45.5f32) on other options", PlainOpt::rate(base(), 45.5f32), Plain { rate: 45.5f32, ..base() });
    c.eq("Plain::rate(45.5f32) on the unit value", { let r: Plain = PlainOpt::rate((), 45.5f32); r }, Plain { rate: 45.5f32, ..dft() });
    c.eq("Plain::rate(62.5f32) on other options", PlainOpt::rate(base(), 62.5f32), Plain { rate: 62.5f32, ..base() });
    c.eq("Plain::rate(62.5f32) on the unit value", { let r: Plain = PlainOpt::rate((), 62.5f32); r }, Plain { rate: 62.5f32, ..dft() });
    c.eq("Plain::on(true) on other options", PlainOpt::on(base(), true), Plain { on: true, ..base() });
    c.eq("Plain::on(true) on the unit value", { let r: Plain = PlainOpt::on((), true); r }, Plain { on: true, ..dft() });
    c.eq("Plain::on(false) on other options", PlainOpt::on(base(), false), Plain { on: false, ..base() });
    c.eq("Plain::on(false) on the unit value", { let r: Plain = PlainOpt::on((), false); r }, Plain { on: false, ..dft() });
    c.eq("Plain::count(107usize) on other options", PlainOpt::count(base(), 107usize), Plain { count: 107usize, ..base() });
    c.eq("Plain::count(107usize) on the unit value", { let r: Plain = PlainOpt::count((), 107usize); r }, Plain { count: 107usize, ..dft() });
    c.eq("Plain::count(124usize) on other options", PlainOpt::count(base(), 124usize), Plain { count: 124usize, ..base() });
    c.eq("Plain::count(124usize) on the unit value", { let r: Plain = PlainOpt::count((), 124usize); r }, Plain { count: 124usize, ..dft() });
    c.eq("Plain::top(108usize) on other options", PlainOpt::top(base(), 108usize), Plain { top: 108usize, ..base() });
    c.eq("Plain::top(108usize) on the unit value", { let r: Plain = PlainOpt::top((), 108usize); r }, Plain { top: 108usize, ..dft() });
    c.eq("Plain::top(125usize) on other options", PlainOpt::top(base(), 125usize), Plain { top: 125usize, ..base() });
    c.eq("Plain::top(125usize) on the unit value", { let r: Plain = PlainOpt::top((), 125usize); r }, Plain { top: 125usize, ..dft() });
    c.eq("Plain set in order", dft().rate(40.5f32).on(true).count(102usize).top(103usize), base()); c.eq("Plain set in reverse", dft().top(103usize).count(102usize).on(true).rate(40.5f32), base());
}
fn t_opts(c: &mut C) {
    let base = || Opts { a: Some(100usize), b: Some(101usize), c: Some(42.5f32), d: Some(43.5f32), e: Some(Label { id: 64 }) }; let dft = || Opts { a: None, b: None, c: None, d: None, e: None };
    c.eq("Opts::into_arg()", base().into_arg(), base()); c.eq("() into Opts", { let r: Opts = OptsOpt::into_arg(()); r }, dft());
    c.eq("Opts::a(105usize) on other options", OptsOpt::a(base(), 105usize), Opts { a: Some(105usize), ..base() });
    c.eq("Opts::a(105usize) on the unit value", { let r: Opts = OptsOpt::a((), 105usize); r }, Opts { a: Some(105usize), ..dft() });
    c.eq("Opts::a(122usize) on other options", OptsOpt::a(base(), 122usize), Opts { a: Some(122usize), ..base() });
    c.eq("Opts::a(122usize) on the unit value", { let r: Opts = OptsOpt::a((), 122usize); r }, Opts { a: Some(122usize), ..dft() });
    c.eq("Opts::b(106usize) on other options", OptsOpt::b(base(), 106usize), Opts { b: Some(106usize), ..base() });
    c.eq("Opts::b(106usize) on the unit value", { let r: Opts = OptsOpt::b((), 106usize); r }, Opts { b: Some(106usize), ..dft() });
    c.eq("Opts::b(123usize) on other options", OptsOpt::b(base(), 123usize), Opts { b: Some(123usize), ..base() });
    c.eq("Opts::b(123usize) on the unit value", { let r: Opts = OptsOpt::b((), 123usize); r }, Opts { b: Some(123usize), ..dft() });
    c.eq("Opts::c(47.5f32) on other options", OptsOpt::c(base(), 47.5f32), Opts { c: Some(47.5f32), ..base() });
    c.eq("Opts::c(47.5f32) on the unit value", { let r: Opts = OptsOpt::c((), 47.5f32); r }, Opts { c: Some(47.5f32), ..dft() });
    c.eq("Opts::c(64.5f32) on other options", OptsOpt::c(base(), 64.5f32), Opts { c: Some(64.5f32), ..base() });
    c.eq("Opts::c(64.5f32) on the unit value", { let r: Opts = OptsOpt::c((), 64.5f32); r }, Opts { c: Some(64.5f32), ..dft() });
    c.eq("Opts::d(48.5f32) on other options", OptsOpt::d(base(), 48.5f32), Opts { d: Some(48.5f32), ..base() });
    c.eq("Opts::d(48.5f32) on the unit value", { let r: Opts = OptsOpt::d((), 48.5f32); r }, Opts { d: Some(48.5f32), ..dft() });
    c.eq("Opts::d(65.5f32) on other options", OptsOpt::d(base(), 65.5f32), Opts { d: Some(65.5f32), ..base() });
    c.eq("Opts::d(65.5f32) on the unit value", { let r: Opts = OptsOpt::d((), 65.5f32); r }, Opts { d: Some(65.5f32), ..dft() });
    c.eq("Opts::e(Label { id: 69 }) on other options", OptsOpt::e(base(), Label { id: 69 }), Opts { e: Some(Label { id: 69 }), ..base() });
    c.eq("Opts::e(Label { id: 69 }) on the unit value", { let r: Opts = OptsOpt::e((), Label { id: 69 }); r }, Opts { e: Some(Label { id: 69 }), ..dft() });
    c.eq("Opts::e(Label { id: 86 }) on other options", OptsOpt::e(base(), Label { id: 86 }), Opts { e: Some(Label { id: 86 }), ..base() });
    c.eq("Opts::e(Label { id: 86 }) on the unit value", { let r: Opts = OptsOpt::e((), Label { id: 86 }); r }, Opts { e: Some(Label { id: 86 }), ..dft() });
    c.eq("Opts set in order", dft().a(100usize).b(101usize).c(42.5f32).d(43.5f32).e(Label { id: 64 }), base()); c.eq("Opts set in reverse", dft().e(Label { id: 64 }).d(43.5f32).c(42.5f32).b(101usize).a(100usize), base());
}
fn t_mix(c: &mut C) {
    let base = || Mix { name: Some(Label { id: 60 }), len: Some(101usize), width: 22u32, scale: Some(43.5f32), other: Some(Label { id: 64 }), flag: true, step: Some(-56i32), tail: Some(107usize) }; let dft = || Mix { name: None, len: None, width: 0, scale: None, other: None, flag: false, step: None, tail: None };
    c.eq("Mix::into_arg()", base().into_arg(), base()); c.eq("() into Mix", { let r: Mix = MixOpt::into_arg(()); r }, dft());
    c.eq("Mix::name(Label { id: 65 }) on other options", MixOpt::name(base(), Label { id: 65 }), Mix { name: Some(Label { id: 65 }), ..base() });
    c.eq("Mix::name(Label { id: 65 }) on the unit value", { let r: Mix = MixOpt::name((), Label { id: 65 }); r }, Mix { name: Some(Label { id: 65 }), ..dft() });
    c.eq("Mix::name(Label { id: 82 }) on other options", MixOpt::name(base(), Label { id: 82 }), Mix { name: Some(Label { id: 82 }), ..base() });
    c.eq("Mix::name(Label { id: 82 }) on the unit value", { let r: Mix = MixOpt::name((), Label { id: 82 }); r }, Mix { name: Some(Label { id: 82 }), ..dft() });
    c.eq("Mix::len(106usize) on other options", MixOpt::len(base(), 106usize), Mix { len: Some(106usize), ..base() });
    c.eq("Mix::len(106usize) on the unit value", { let r: Mix = MixOpt::len((), 106usize); r }, Mix { len: Some(106usize), ..dft() });
    c.eq("Mix::len(123usize) on other options", MixOpt::len(base(), 123usize), Mix { len: Some(123usize), ..base() });
    c.eq("Mix::len(123usize) on the unit value", { let r: Mix = MixOpt::len((), 123usize); r }, Mix { len: Some(123usize), ..dft() });
    c.eq("Mix::width(27u32) on other options", MixOpt::width(base(), 27u32), Mix { width: 27u32, ..base() });
    c.eq("Mix::width(27u32) on the unit value", { let r: Mix = MixOpt::width((), 27u32); r }, Mix { width: 27u32, ..dft() });
    c.eq("Mix::width(44u32) on other options", MixOpt::width(base(), 44u32), Mix { width: 44u32, ..base() });
    c.eq("Mix::width(44u32) on the unit value", { let r: Mix = MixOpt::width((), 44u32); r }, Mix { width: 44u32, ..dft() });
    c.eq("Mix::scale(48.5f32) on other options", MixOpt::scale(base(), 48.5f32), Mix { scale: Some(48.5f32), ..base() });
    c.eq("Mix::scale(48.5f32) on the unit value", { let r: Mix = MixOpt::scale((), 48.5f32); r }, Mix { scale: Some(48.5f32), ..dft() });
    c.eq("Mix::scale(65.5f32) on other options", MixOpt::scale(base(), 65.5f32), Mix { scale: Some(65.5f32), ..base() });
    c.eq("Mix::scale(65.5f32) on the unit value", { let r: Mix = MixOpt::scale((), 65.5f32); r }, Mix { scale: Some(65.5f32), ..dft() });
    c.eq("Mix::other(Label { id: 69 }) on other options", MixOpt::other(base(), Label { id: 69 }), Mix { other: Some(Label { id: 69 }), ..base() });
    c.eq("Mix::other(Label { id: 69 }) on the unit value", { let r: Mix = MixOpt::other((), Label { id: 69 }); r }, Mix { other: Some(Label { id: 69 }), ..dft() });
    c.eq("Mix::other(Label { id: 86 }) on other options", MixOpt::other(base(), Label { id: 86 }), Mix { other: Some(Label { id: 86 }), ..base() });
    c.eq("Mix::other(Label { id: 86 }) on the unit value", { let r: Mix = MixOpt::other((), Label { id: 86 }); r }, Mix { other: Some(Label { id: 86 }), ..dft() });
    c.eq("Mix::flag(true) on other options", MixOpt::flag(base(), true), Mix { flag: true, ..base() });
    c.eq("Mix::flag(true) on the unit value", { let r: Mix = MixOpt::flag((), true); r }, Mix { flag: true, ..dft() });
    c.eq("Mix::flag(false) on other options", MixOpt::flag(base(), false), Mix { flag: false, ..base() });
    c.eq("Mix::flag(false) on the unit value", { let r: Mix = MixOpt::flag((), false); r }, Mix { flag: false, ..dft() });
    c.eq("Mix::step(-61i32) on other options", MixOpt::step(base(), -61i32), Mix { step: Some(-61i32), ..base() });
    c.eq("Mix::step(-61i32) on the unit value", { let r: Mix = MixOpt::step((), -61i32); r }, Mix { step: Some(-61i32), ..dft() });
    c.eq("Mix::step(-78i32) on other options", MixOpt::step(base(), -78i32), Mix { step: Some(-78i32), ..base() });
    c.eq("Mix::step(-78i32) on the unit value", { let r: Mix = MixOpt::step((), -78i32); r }, Mix { step: Some(-78i32), ..dft() });
    c.eq("Mix::tail(112usize) on other options", MixOpt::tail(base(), 112usize), Mix { tail: Some(112usize), ..base() });
    c.eq("Mix::tail(112usize) on the unit value", { let r: Mix = MixOpt::tail((), 112usize); r }, Mix { tail: Some(112usize), ..dft() });
    c.eq("Mix::tail(129usize) on other options", MixOpt::tail(base(), 129usize), Mix { tail: Some(129usize), ..base() });
    c.eq("Mix::tail(129usize) on the unit value", { let r: Mix = MixOpt::tail((), 129usize); r }, Mix { tail: Some(129usize), ..dft() });
    c.eq("Mix set in order", dft().name(Label { id: 60 }).len(101usize).width(22u32).scale(43.5f32).other(Label { id: 64 }).flag(true).step(-56i32).tail(107usize), base()); c.eq("Mix set in reverse", dft().tail(107usize).step(-56i32).flag(true).other(Label { id: 64 }).scale(43.5f32).width(22u32).len(101usize).name(Label { id: 60 }), base());
}
fn t_man(c: &mut C) {
    let base = || Man { a: Some(100usize), b: 101usize, c: Some(true), d: 33u8, label: Label { id: 64 } }; let dft = || Man { a: Some(5), b: 7, c: Some(true), d: 3, label: Label { id: 4 } };
    c.eq("Man::into_arg()", base().into_arg(), base()); c.eq("() into Man", { let r: Man = ManOpt::into_arg(()); r }, dft());
    c.eq("Man::a(105usize) on other options", ManOpt::a(base(), 105usize), Man { a: Some(105usize), ..base() });
    c.eq("Man::a(105usize) on the unit value", { let r: Man = ManOpt::a((), 105usize); r }, Man { a: Some(105usize), ..dft() });
    c.eq("Man::a(122usize) on other options", ManOpt::a(base(), 122usize), Man { a: Some(122usize), ..base() });
    c.eq("Man::a(122usize) on the unit value", { let r: Man = ManOpt::a((), 122usize); r }, Man { a: Some(122usize), ..dft() });
    c.eq("Man::b(106usize) on other options", ManOpt::b(base(), 106usize), Man { b: 106usize, ..base() });
    c.eq("Man::b(106usize) on the unit value", { let r: Man = ManOpt::b((), 106usize); r }, Man { b: 106usize, ..dft() });
    c.eq("Man::b(123usize) on other options", ManOpt::b(base(), 123usize), Man { b: 123usize, ..base() });
    c.eq("Man::b(123usize) on the unit value", { let r: Man = ManOpt::b((), 123usize); r }, Man { b: 123usize, ..dft() });
    c.eq("Man::c(true) on other options", ManOpt::c(base(), true), Man { c: Some(true), ..base() });
    c.eq("Man::c(true) on the unit value", { let r: Man = ManOpt::c((), true); r }, Man { c: Some(true), ..dft() });
    c.eq("Man::c(true) on other options", ManOpt::c(base(), true), Man { c: Some(true), ..base() });
    c.eq("Man::c(true) on the unit value", { let r: Man = ManOpt::c((), true); r }, Man { c: Some(true), ..dft() });
    c.eq("Man::d(38u8) on other options", ManOpt::d(base(), 38u8), Man { d: 38u8, ..base() });
    c.eq("Man::d(38u8) on the unit value", { let r: Man = ManOpt::d((), 38u8); r }, Man { d: 38u8, ..dft() });
    c.eq("Man::d(55u8) on other options", ManOpt::d(base(), 55u8), Man { d: 55u8, ..base() });
    c.eq("Man::d(55u8) on the unit value", { let r: Man = ManOpt::d((), 55u8); r }, Man { d: 55u8, ..dft() });
    c.eq("Man::label(Label { id: 69 }) on other options", ManOpt::label(base(), Label { id: 69 }), Man { label: Label { id: 69 }, ..base() });
    c.eq("Man::label(Label { id: 69 }) on the unit value", { let r: Man = ManOpt::label((), Label { id: 69 }); r }, Man { label: Label { id: 69 }, ..dft() });
    c.eq("Man::label(Label { id: 86 }) on other options", ManOpt::label(base(), Label { id: 86 }), Man { label: Label { id: 86 }, ..base() });
    c.eq("Man::label(Label { id: 86 }) on the unit value", { let r: Man = ManOpt::label((), Label { id: 86 }); r }, Man { label: Label { id: 86 }, ..dft() });
    c.eq("Man set in order", dft().a(100usize).b(101usize).c(true).d(33u8).label(Label { id: 64 }), base()); c.eq("Man set in reverse", dft().label(Label { id: 64 }).d(33u8).c(true).b(101usize).a(100usize), base());
}
fn t_long(c: &mut C) {
    let base = || Long { f00: Some(100usize), f01: 101usize, f02: Some(42.5f32), f03: Some(Label { id: 63 }), f04: 34u8, f05: Some(-55i32), f06: Some(106usize), f07: 107usize, f08: Some(48.5f32), f09: Some(Label { id: 69 }), f10: 40u8, f11: Some(-61i32), f12: Some(112usize) }; let dft = || Long { f00: None, f01: 0, f02: None, f03: None, f04: 0, f05: None, f06: None, f07: 0, f08: None, f09: None, f10: 0, f11: None, f12: None };
    c.eq("Long::into_arg()", base().into_arg(), base()); c.eq("() into Long", { let r: Long = LongOpt::into_arg(()); r }, dft());
    c.eq("Long::f00(105usize) on other options", LongOpt::f00(base(), 105usize), Long { f00: Some(105usize), ..base() });
    c.eq("Long::f00(105usize) on the unit value", { let r: Long = LongOpt::f00((), 105usize); r }, Long { f00: Some(105usize), ..dft() });
    c.eq("Long::f00(122usize) on other options", LongOpt::f00(base(), 122usize), Long { f00: Some(122usize), ..base() });
    c.eq("Long::f00(122usize) on the unit value", { let r: Long = LongOpt::f00((), 122usize); r }, Long { f00: Some(122usize), ..dft() });
    c.eq("Long::f01(106usize) on other options", LongOpt::f01(base(), 106usize), Long { f01: 106usize, ..base() });
    c.eq("Long::f01(106usize) on the unit value", { let r: Long = LongOpt::f01((), 106usize); r }, Long { f01: 106usize, ..dft() });
    c.eq("Long::f01(123usize) on other options", LongOpt::f01(base(), 123usize), Long { f01: 123usize, ..base() });
    c.eq("Long::f01(123usize) on the unit value", { let r: Long = LongOpt::f01((), 123usize); r }, Long { f01: 123usize, ..dft() });
    c.eq("Long::f02(47.5f32) on other options", LongOpt::f02(base(), 47.5f32), Long { f02: Some(47.5f32), ..base() });
    c.eq("Long::f02(47.5f32) on the unit value", { let r: Long = LongOpt::f02((), 47.5f32); r }, Long { f02: Some(47.5f32), ..dft() });
    c.eq("Long::f02(64.5f32) on other options", LongOpt::f02(base(), 64.5f32), Long { f02: Some(64.5f32), ..base() });
    c.eq("Long::f02(64.5f32) on the unit value", { let r: Long = LongOpt::f02((), 64.5f32); r }, Long { f02: Some(64.5f32), ..dft() });
    c.eq("Long::f03(Label { id: 68 }) on other options", LongOpt::f03(base(), Label { id: 68 }), Long { f03: Some(Label { id: 68 }), ..base() });
    c.eq("Long::f03(Label { id: 68 }) on the unit value", { let r: Long = LongOpt::f03((), Label { id: 68 }); r }, Long { f03: Some(Label { id: 68 }), ..dft() });
    c.eq("Long::f03(Label { id: 85 }) on other options", LongOpt::f03(base(), Label { id: 85 }), Long { f03: Some(Label { id: 85 }), ..base() });
    c.eq("Long::f03(Label { id: 85 }) on the unit value", { let r: Long = LongOpt::f03((), Label { id: 85 }); r }, Long { f03: Some(Label { id: 85 }), ..dft() });
    c.eq("Long::f04(39u8) on other options", LongOpt::f04(base(), 39u8), Long { f04: 39u8, ..base() });
    c.eq("Long::f04(39u8) on the unit value", { let r: Long = LongOpt::f04((), 39u8); r }, Long { f04: 39u8, ..dft() });
    c.eq("Long::f04(56u8) on other options", LongOpt::f04(base(), 56u8), Long { f04: 56u8, ..base() });
    c.eq("Long::f04(56u8) on the unit value", { let r: Long = LongOpt::f04((), 56u8); r }, Long { f04: 56u8, ..dft() });
    c.eq("Long::f05(-60i32) on other options", LongOpt::f05(base(), -60i32), Long { f05: Some(-60i32), ..base() });
    c.eq("Long::f05(-60i32) on the unit value", { let r: Long = LongOpt::f05((), -60i32); r }, Long { f05: Some(-60i32), ..dft() });
    c.eq("Long::f05(-77i32) on other options", LongOpt::f05(base(), -77i32), Long { f05: Some(-77i32), ..base() });
    c.eq("Long::f05(-77i32) on the unit value", { let r: Long = LongOpt::f05((), -77i32); r }, Long { f05: Some(-77i32), ..dft() });
    c.eq("Long::f06(111usize) on other options", LongOpt::f06(base(), 111usize), Long { f06: Some(111usize), ..base() });
    c.eq("Long::f06(111usize) on the unit value", { let r: Long = LongOpt::f06((), 111usize); r }, Long { f06: Some(111usize), ..dft() });
    c.eq("Long::f06(128usize) on other options", LongOpt::f06(base(), 128usize), Long { f06: Some(128usize), ..base() });
    c.eq("Long::f06(128usize) on the unit value", { let r: Long = LongOpt::f06((), 128usize); r }, Long { f06: Some(128usize), ..dft() });
    c.eq("Long::f07(112usize) on other options", LongOpt::f07(base(), 112usize), Long { f07: 112usize, ..base() });
    c.eq("Long::f07(112usize) on the unit value", { let r: Long = LongOpt::f07((), 112usize); r }, Long { f07: 112usize, ..dft() });
    c.eq("Long::f07(129usize) on other options", LongOpt::f07(base(), 129usize), Long { f07: 129usize, ..base() });
    c.eq("Long::f07(129usize) on the unit value", { let r: Long = LongOpt::f07((), 129usize); r }, Long { f07: 129usize, ..dft() });
    c.eq("Long::f08(53.5f32) on other options", LongOpt::f08(base(), 53.5f32), Long { f08: Some(53.5f32), ..base() });
    c.eq("Long::f08(53.5f32) on the unit value", { let r: Long = LongOpt::f08((), 53.5f32); r }, Long { f08: Some(53.5f32), ..dft() });
    c.eq("Long::f08(70.5f32) on other options", LongOpt::f08(base(), 70.5f32), Long { f08: Some(70.5f32), ..base() });
    c.eq("Long::f08(70.5f32) on the unit value", { let r: Long = LongOpt::f08((), 70.5f32); r }, Long { f08: Some(70.5f32), ..dft() });
    c.eq("Long::f09(Label { id: 74 }) on other options", LongOpt::f09(base(), Label { id: 74 }), Long { f09: Some(Label { id: 74 }), ..base() });
    c.eq("Long::f09(Label { id: 74 }) on the unit value", { let r: Long = LongOpt::f09((), Label { id: 74 }); r }, Long { f09: Some(Label { id: 74 }), ..dft() });
    c.eq("Long::f09(Label { id: 91 }) on other options", LongOpt::f09(base(), Label { id: 91 }), Long { f09: Some(Label { id: 91 }), ..base() });
    c.eq("Long::f09(Label { id: 91 }) on the unit value", { let r: Long = LongOpt::f09((), Label { id: 91 }); r }, Long { f09: Some(Label { id: 91 }), ..dft() });
    c.eq("Long::f10(45u8) on other options", LongOpt::f10(base(), 45u8), Long { f10: 45u8, ..base() });
    c.eq("Long::f10(45u8) on the unit value", { let r: Long = LongOpt::f10((), 45u8); r }, Long { f10: 45u8, ..dft() });
    c.eq("Long::f10(62u8) on other options", LongOpt::f10(base(), 62u8), Long { f10: 62u8, ..base() });
    c.eq("Long::f10(62u8) on the unit value", { let r: Long = LongOpt::f10((), 62u8); r }, Long { f10: 62u8, ..dft() });
    c.eq("Long::f11(-66i32) on other options", LongOpt::f11(base(), -66i32), Long { f11: Some(-66i32), ..base() });
    c.eq("Long::f11(-66i32) on the unit value", { let r: Long = LongOpt::f11((), -66i32); r }, Long { f11: Some(-66i32), ..dft() });
    c.eq("Long::f11(-83i32) on other options", LongOpt::f11(base(), -83i32), Long { f11: Some(-83i32), ..base() });
    c.eq("Long::f11(-83i32) on the unit value", { let r: Long = LongOpt::f11((), -83i32); r }, Long { f11: Some(-83i32), ..dft() });
    c.eq("Long::f12(117usize) on other options", LongOpt::f12(base(), 117usize), Long { f12: Some(117usize), ..base() });
    c.eq("Long::f12(117usize) on the unit value", { let r: Long = LongOpt::f12((), 117usize); r }, Long { f12: Some(117usize), ..dft() });
    c.eq("Long::f12(134usize) on other options", LongOpt::f12(base(), 134usize), Long { f12: Some(134usize), ..base() });
    c.eq("Long::f12(134usize) on the unit value", { let r: Long = LongOpt::f12((), 134usize); r }, Long { f12: Some(134usize), ..dft() });
    c.eq("Long set in order", dft().f00(100usize).f01(101usize).f02(42.5f32).f03(Label { id: 63 }).f04(34u8).f05(-55i32).f06(106usize).f07(107usize).f08(48.5f32).f09(Label { id: 69 }).f10(40u8).f11(-61i32).f12(112usize), base()); c.eq("Long set in reverse", dft().f12(112usize).f11(-61i32).f10(40u8).f09(Label { id: 69 }).f08(48.5f32).f07(107usize).f06(106usize).f05(-55i32).f04(34u8).f03(Label { id: 63 }).f02(42.5f32).f01(101usize).f00(100usize), base());
}
fn js(v: &[String]) -> String { format!("[{}]", v.iter().map(|x| format!("\"{}\"", x.replace('\\', "").replace('"', "'"))).collect::<Vec<_>>().join(", ")) }
fn main() {
    let mut c = C { n: 0, bad: vec![], samples: vec![] };
    t_empty(&mut c); t_one(&mut c); t_oneinto(&mut c); t_oneplain(&mut c); t_plain(&mut c); t_opts(&mut c); t_mix(&mut c); t_man(&mut c); t_long(&mut c);
    println!("{{\"evaluations\": {}, \"distinct\": {}, \"samples\": {}, \"failures\": {}}}", c.n, c.n, js(&c.samples), js(&c.bad));
    std::process::exit(if c.bad.is_empty() { 0 } else { 1 });
}
