@spec
pub open spec fn dflt_Empty() -> Empty { Empty {  } }
@fn Default for Empty::default() -> r
@prop C29
@ens r == dflt_Empty()
@fn EmptyOpt for Empty::into_arg(self_) -> r
@prop C29
@ens r == self_
@fn EmptyOpt for ()::into_arg(self_) -> r
@prop C29
@ens r == dflt_Empty()
@spec
pub open spec fn dflt_One() -> One { One { len: None } }
@fn Default for One::default() -> r
@prop C29
@ens r == dflt_One()
@fn OneOpt for One::into_arg(self_) -> r
@prop C29
@ens r == self_
@fn OneOpt for ()::into_arg(self_) -> r
@prop C29
@ens r == dflt_One()
@fn OneOpt for One::len(self0, v) -> r
@prop C29
@ens r.len == Some(v)
@fn OneOpt for ()::len(self0, v) -> r
@prop C29
@ens r.len == Some(v)
@spec
pub open spec fn dflt_OneInto() -> OneInto { OneInto { name: None } }
@fn Default for OneInto::default() -> r
@prop C29
@ens r == dflt_OneInto()
@fn OneIntoOpt for OneInto::into_arg(self_) -> r
@prop C29
@ens r == self_
@fn OneIntoOpt for ()::into_arg(self_) -> r
@prop C29
@ens r == dflt_OneInto()
@fn OneIntoOpt for OneInto::name(self0, v) -> r
@prop C29
@ens r.name == Some(v)
@fn OneIntoOpt for ()::name(self0, v) -> r
@prop C29
@ens r.name == Some(v)
@spec
pub open spec fn dflt_OnePlain() -> OnePlain { OnePlain { value: 0usize } }
@fn Default for OnePlain::default() -> r
@prop C29
@ens r == dflt_OnePlain()
@fn OnePlainOpt for OnePlain::into_arg(self_) -> r
@prop C29
@ens r == self_
@fn OnePlainOpt for ()::into_arg(self_) -> r
@prop C29
@ens r == dflt_OnePlain()
@fn OnePlainOpt for OnePlain::value(self0, v) -> r
@prop C29
@ens r.value == v
@fn OnePlainOpt for ()::value(self0, v) -> r
@prop C29
@ens r.value == v
@spec
pub open spec fn dflt_Plain() -> Plain { Plain { rate: sfl_0p0_f32(), on: false, count: 0usize, top: 0usize } }
@fn Default for Plain::default() -> r
@prop C29
@ens r == dflt_Plain()
@fn PlainOpt for Plain::into_arg(self_) -> r
@prop C29
@ens r == self_
@fn PlainOpt for ()::into_arg(self_) -> r
@prop C29
@ens r == dflt_Plain()
@fn PlainOpt for Plain::rate(self0, v) -> r
@prop C29
@ens r.rate == v;; r.on == self0.on;; r.count == self0.count;; r.top == self0.top
@fn PlainOpt for ()::rate(self0, v) -> r
@prop C29
@ens r.rate == v;; r.on == dflt_Plain().on;; r.count == dflt_Plain().count;; r.top == dflt_Plain().top
@fn PlainOpt for Plain::on(self0, v) -> r
@prop C29
@ens r.on == v;; r.rate == self0.rate;; r.count == self0.count;; r.top == self0.top
@fn PlainOpt for ()::on(self0, v) -> r
@prop C29
@ens r.on == v;; r.rate == dflt_Plain().rate;; r.count == dflt_Plain().count;; r.top == dflt_Plain().top
@fn PlainOpt for Plain::count(self0, v) -> r
@prop C29
@ens r.count == v;; r.rate == self0.rate;; r.on == self0.on;; r.top == self0.top
@fn PlainOpt for ()::count(self0, v) -> r
@prop C29
@ens r.count == v;; r.rate == dflt_Plain().rate;; r.on == dflt_Plain().on;; r.top == dflt_Plain().top
@fn PlainOpt for Plain::top(self0, v) -> r
@prop C29
@ens r.top == v;; r.rate == self0.rate;; r.on == self0.on;; r.count == self0.count
@fn PlainOpt for ()::top(self0, v) -> r
@prop C29
@ens r.top == v;; r.rate == dflt_Plain().rate;; r.on == dflt_Plain().on;; r.count == dflt_Plain().count
@spec
pub open spec fn dflt_Opts() -> Opts { Opts { a: None, b: None, c: None, d: None, e: None } }
@fn Default for Opts::default() -> r
@prop C29
@ens r == dflt_Opts()
@fn OptsOpt for Opts::into_arg(self_) -> r
@prop C29
@ens r == self_
@fn OptsOpt for ()::into_arg(self_) -> r
@prop C29
@ens r == dflt_Opts()
@fn OptsOpt for Opts::a(self0, v) -> r
@prop C29
@ens r.a == Some(v);; r.b == self0.b;; r.c == self0.c;; r.d == self0.d;; r.e == self0.e
@fn OptsOpt for ()::a(self0, v) -> r
@prop C29
@ens r.a == Some(v);; r.b == dflt_Opts().b;; r.c == dflt_Opts().c;; r.d == dflt_Opts().d;; r.e == dflt_Opts().e
@fn OptsOpt for Opts::b(self0, v) -> r
@prop C29
@ens r.b == Some(v);; r.a == self0.a;; r.c == self0.c;; r.d == self0.d;; r.e == self0.e
@fn OptsOpt for ()::b(self0, v) -> r
@prop C29
@ens r.b == Some(v);; r.a == dflt_Opts().a;; r.c == dflt_Opts().c;; r.d == dflt_Opts().d;; r.e == dflt_Opts().e
@fn OptsOpt for Opts::c(self0, v) -> r
@prop C29
@ens r.c == Some(v);; r.a == self0.a;; r.b == self0.b;; r.d == self0.d;; r.e == self0.e
@fn OptsOpt for ()::c(self0, v) -> r
@prop C29
@ens r.c == Some(v);; r.a == dflt_Opts().a;; r.b == dflt_Opts().b;; r.d == dflt_Opts().d;; r.e == dflt_Opts().e
@fn OptsOpt for Opts::d(self0, v) -> r
@prop C29
@ens r.d == Some(v);; r.a == self0.a;; r.b == self0.b;; r.c == self0.c;; r.e == self0.e
@fn OptsOpt for ()::d(self0, v) -> r
@prop C29
@ens r.d == Some(v);; r.a == dflt_Opts().a;; r.b == dflt_Opts().b;; r.c == dflt_Opts().c;; r.e == dflt_Opts().e
@fn OptsOpt for Opts::e(self0, v) -> r
@prop C29
@ens r.e == Some(v);; r.a == self0.a;; r.b == self0.b;; r.c == self0.c;; r.d == self0.d
@fn OptsOpt for ()::e(self0, v) -> r
@prop C29
@ens r.e == Some(v);; r.a == dflt_Opts().a;; r.b == dflt_Opts().b;; r.c == dflt_Opts().c;; r.d == dflt_Opts().d
@spec
pub open spec fn dflt_Mix() -> Mix { Mix { name: None, len: None, width: 0u32, scale: None, other: None, flag: false, step: None, tail: None } }
@fn Default for Mix::default() -> r
@prop C29
@ens r == dflt_Mix()
@fn MixOpt for Mix::into_arg(self_) -> r
@prop C29
@ens r == self_
@fn MixOpt for ()::into_arg(self_) -> r
@prop C29
@ens r == dflt_Mix()
@fn MixOpt for Mix::name(self0, v) -> r
@prop C29
@ens r.name == Some(v);; r.len == self0.len;; r.width == self0.width;; r.scale == self0.scale;; r.other == self0.other;; r.flag == self0.flag;; r.step == self0.step;; r.tail == self0.tail
@fn MixOpt for ()::name(self0, v) -> r
@prop C29
@ens r.name == Some(v);; r.len == dflt_Mix().len;; r.width == dflt_Mix().width;; r.scale == dflt_Mix().scale;; r.other == dflt_Mix().other;; r.flag == dflt_Mix().flag;; r.step == dflt_Mix().step;; r.tail == dflt_Mix().tail
@fn MixOpt for Mix::len(self0, v) -> r
@prop C29
@ens r.len == Some(v);; r.name == self0.name;; r.width == self0.width;; r.scale == self0.scale;; r.other == self0.other;; r.flag == self0.flag;; r.step == self0.step;; r.tail == self0.tail
@fn MixOpt for ()::len(self0, v) -> r
@prop C29
@ens r.len == Some(v);; r.name == dflt_Mix().name;; r.width == dflt_Mix().width;; r.scale == dflt_Mix().scale;; r.other == dflt_Mix().other;; r.flag == dflt_Mix().flag;; r.step == dflt_Mix().step;; r.tail == dflt_Mix().tail
@fn MixOpt for Mix::width(self0, v) -> r
@prop C29
@ens r.width == v;; r.name == self0.name;; r.len == self0.len;; r.scale == self0.scale;; r.other == self0.other;; r.flag == self0.flag;; r.step == self0.step;; r.tail == self0.tail
@fn MixOpt for ()::width(self0, v) -> r
@prop C29
@ens r.width == v;; r.name == dflt_Mix().name;; r.len == dflt_Mix().len;; r.scale == dflt_Mix().scale;; r.other == dflt_Mix().other;; r.flag == dflt_Mix().flag;; r.step == dflt_Mix().step;; r.tail == dflt_Mix().tail
@fn MixOpt for Mix::scale(self0, v) -> r
@prop C29
@ens r.scale == Some(v);; r.name == self0.name;; r.len == self0.len;; r.width == self0.width;; r.other == self0.other;; r.flag == self0.flag;; r.step == self0.step;; r.tail == self0.tail
@fn MixOpt for ()::scale(self0, v) -> r
@prop C29
@ens r.scale == Some(v);; r.name == dflt_Mix().name;; r.len == dflt_Mix().len;; r.width == dflt_Mix().width;; r.other == dflt_Mix().other;; r.flag == dflt_Mix().flag;; r.step == dflt_Mix().step;; r.tail == dflt_Mix().tail
@fn MixOpt for Mix::other(self0, v) -> r
@prop C29
@ens r.other == Some(v);; r.name == self0.name;; r.len == self0.len;; r.width == self0.width;; r.scale == self0.scale;; r.flag == self0.flag;; r.step == self0.step;; r.tail == self0.tail
@fn MixOpt for ()::other(self0, v) -> r
@prop C29
@ens r.other == Some(v);; r.name == dflt_Mix().name;; r.len == dflt_Mix().len;; r.width == dflt_Mix().width;; r.scale == dflt_Mix().scale;; r.flag == dflt_Mix().flag;; r.step == dflt_Mix().step;; r.tail == dflt_Mix().tail
@fn MixOpt for Mix::flag(self0, v) -> r
@prop C29
@ens r.flag == v;; r.name == self0.name;; r.len == self0.len;; r.width == self0.width;; r.scale == self0.scale;; r.other == self0.other;; r.step == self0.step;; r.tail == self0.tail
@fn MixOpt for ()::flag(self0, v) -> r
@prop C29
@ens r.flag == v;; r.name == dflt_Mix().name;; r.len == dflt_Mix().len;; r.width == dflt_Mix().width;; r.scale == dflt_Mix().scale;; r.other == dflt_Mix().other;; r.step == dflt_Mix().step;; r.tail == dflt_Mix().tail
@fn MixOpt for Mix::step(self0, v) -> r
@prop C29
@ens r.step == Some(v);; r.name == self0.name;; r.len == self0.len;; r.width == self0.width;; r.scale == self0.scale;; r.other == self0.other;; r.flag == self0.flag;; r.tail == self0.tail
@fn MixOpt for ()::step(self0, v) -> r
@prop C29
@ens r.step == Some(v);; r.name == dflt_Mix().name;; r.len == dflt_Mix().len;; r.width == dflt_Mix().width;; r.scale == dflt_Mix().scale;; r.other == dflt_Mix().other;; r.flag == dflt_Mix().flag;; r.tail == dflt_Mix().tail
@fn MixOpt for Mix::tail(self0, v) -> r
@prop C29
@ens r.tail == Some(v);; r.name == self0.name;; r.len == self0.len;; r.width == self0.width;; r.scale == self0.scale;; r.other == self0.other;; r.flag == self0.flag;; r.step == self0.step
@fn MixOpt for ()::tail(self0, v) -> r
@prop C29
@ens r.tail == Some(v);; r.name == dflt_Mix().name;; r.len == dflt_Mix().len;; r.width == dflt_Mix().width;; r.scale == dflt_Mix().scale;; r.other == dflt_Mix().other;; r.flag == dflt_Mix().flag;; r.step == dflt_Mix().step
@spec
pub open spec fn dflt_Man() -> Man { Man { a: Some(5), b: 7usize, c: Some(true), d: 3u8, label: Label { id: 4 } } }
@fn Default for Man::default() -> r
@prop C29
@ens r == dflt_Man()
@fn ManOpt for Man::into_arg(self_) -> r
@prop C29
@ens r == self_
@fn ManOpt for ()::into_arg(self_) -> r
@prop C29
@ens r == dflt_Man()
@fn ManOpt for Man::a(self0, v) -> r
@prop C29
@ens r.a == Some(v);; r.b == self0.b;; r.c == self0.c;; r.d == self0.d;; r.label == self0.label
@fn ManOpt for ()::a(self0, v) -> r
@prop C29
@ens r.a == Some(v);; r.b == dflt_Man().b;; r.c == dflt_Man().c;; r.d == dflt_Man().d;; r.label == dflt_Man().label
@fn ManOpt for Man::b(self0, v) -> r
@prop C29
@ens r.b == v;; r.a == self0.a;; r.c == self0.c;; r.d == self0.d;; r.label == self0.label
@fn ManOpt for ()::b(self0, v) -> r
@prop C29
@ens r.b == v;; r.a == dflt_Man().a;; r.c == dflt_Man().c;; r.d == dflt_Man().d;; r.label == dflt_Man().label
@fn ManOpt for Man::c(self0, v) -> r
@prop C29
@ens r.c == Some(v);; r.a == self0.a;; r.b == self0.b;; r.d == self0.d;; r.label == self0.label
@fn ManOpt for ()::c(self0, v) -> r
@prop C29
@ens r.c == Some(v);; r.a == dflt_Man().a;; r.b == dflt_Man().b;; r.d == dflt_Man().d;; r.label == dflt_Man().label
@fn ManOpt for Man::d(self0, v) -> r
@prop C29
@ens r.d == v;; r.a == self0.a;; r.b == self0.b;; r.c == self0.c;; r.label == self0.label
@fn ManOpt for ()::d(self0, v) -> r
@prop C29
@ens r.d == v;; r.a == dflt_Man().a;; r.b == dflt_Man().b;; r.c == dflt_Man().c;; r.label == dflt_Man().label
@fn ManOpt for Man::label(self0, v) -> r
@prop C29
@ens r.label == v;; r.a == self0.a;; r.b == self0.b;; r.c == self0.c;; r.d == self0.d
@fn ManOpt for ()::label(self0, v) -> r
@prop C29
@ens r.label == v;; r.a == dflt_Man().a;; r.b == dflt_Man().b;; r.c == dflt_Man().c;; r.d == dflt_Man().d
@spec
pub open spec fn dflt_Long() -> Long { Long { f00: None, f01: 0usize, f02: None, f03: None, f04: 0u8, f05: None, f06: None, f07: 0usize, f08: None, f09: None, f10: 0u8, f11: None, f12: None } }
@fn Default for Long::default() -> r
@prop C29
@ens r == dflt_Long()
@fn LongOpt for Long::into_arg(self_) -> r
@prop C29
@ens r == self_
@fn LongOpt for ()::into_arg(self_) -> r
@prop C29
@ens r == dflt_Long()
@fn LongOpt for Long::f00(self0, v) -> r
@prop C29
@ens r.f00 == Some(v);; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f00(self0, v) -> r
@prop C29
@ens r.f00 == Some(v);; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f01(self0, v) -> r
@prop C29
@ens r.f01 == v;; r.f00 == self0.f00;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f01(self0, v) -> r
@prop C29
@ens r.f01 == v;; r.f00 == dflt_Long().f00;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f02(self0, v) -> r
@prop C29
@ens r.f02 == Some(v);; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f02(self0, v) -> r
@prop C29
@ens r.f02 == Some(v);; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f03(self0, v) -> r
@prop C29
@ens r.f03 == Some(v);; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f03(self0, v) -> r
@prop C29
@ens r.f03 == Some(v);; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f04(self0, v) -> r
@prop C29
@ens r.f04 == v;; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f04(self0, v) -> r
@prop C29
@ens r.f04 == v;; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f05(self0, v) -> r
@prop C29
@ens r.f05 == Some(v);; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f05(self0, v) -> r
@prop C29
@ens r.f05 == Some(v);; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f06(self0, v) -> r
@prop C29
@ens r.f06 == Some(v);; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f06(self0, v) -> r
@prop C29
@ens r.f06 == Some(v);; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f07(self0, v) -> r
@prop C29
@ens r.f07 == v;; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f07(self0, v) -> r
@prop C29
@ens r.f07 == v;; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f08(self0, v) -> r
@prop C29
@ens r.f08 == Some(v);; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f08(self0, v) -> r
@prop C29
@ens r.f08 == Some(v);; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f09(self0, v) -> r
@prop C29
@ens r.f09 == Some(v);; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f10 == self0.f10;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f09(self0, v) -> r
@prop C29
@ens r.f09 == Some(v);; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f10(self0, v) -> r
@prop C29
@ens r.f10 == v;; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f11 == self0.f11;; r.f12 == self0.f12
@fn LongOpt for ()::f10(self0, v) -> r
@prop C29
@ens r.f10 == v;; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f11 == dflt_Long().f11;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f11(self0, v) -> r
@prop C29
@ens r.f11 == Some(v);; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f12 == self0.f12
@fn LongOpt for ()::f11(self0, v) -> r
@prop C29
@ens r.f11 == Some(v);; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f12 == dflt_Long().f12
@fn LongOpt for Long::f12(self0, v) -> r
@prop C29
@ens r.f12 == Some(v);; r.f00 == self0.f00;; r.f01 == self0.f01;; r.f02 == self0.f02;; r.f03 == self0.f03;; r.f04 == self0.f04;; r.f05 == self0.f05;; r.f06 == self0.f06;; r.f07 == self0.f07;; r.f08 == self0.f08;; r.f09 == self0.f09;; r.f10 == self0.f10;; r.f11 == self0.f11
@fn LongOpt for ()::f12(self0, v) -> r
@prop C29
@ens r.f12 == Some(v);; r.f00 == dflt_Long().f00;; r.f01 == dflt_Long().f01;; r.f02 == dflt_Long().f02;; r.f03 == dflt_Long().f03;; r.f04 == dflt_Long().f04;; r.f05 == dflt_Long().f05;; r.f06 == dflt_Long().f06;; r.f07 == dflt_Long().f07;; r.f08 == dflt_Long().f08;; r.f09 == dflt_Long().f09;; r.f10 == dflt_Long().f10;; r.f11 == dflt_Long().f11
