#[derive] struct S;
#[foo] use foo;
#[macro_use] extern crate foo;
#[test] fn foo() {}
#[derive] enum E {}
#[path] mod foo;
#[foo] impl X {}
#[bar] type T = Z;
enum E {
    X,
    Y = 9,
    Z(i32),
    T {
        t: i32,
    }
}
fn a() {}

fn b() { 1 }

fn c() { 1; }

fn d() { {} }

fn precedence() {
    let x = 1 + 2 * 3 % 4 - 5 / 6;
    1 + 2 * 3;
    1 << 2 + 3;
    1 & 2 >> 3;
    1 ^ 2 & 3;
    1 | 2 ^ 3;
    1 == 2 | 3;
    1 && 2 == 3;
    1 || 2 && 2;
    1 .. 2 || 3;
    1 = 2 .. 3;
    ---&*1 - --2 * 9;
}

fn angle_ambiguity() {
    foo::<X<Y>> >> 1 << 2;
}

fn blockish() {
    {};
    if 1 {} else { if 2 {} };
    1 + if 2 { 3 } else { 4 } + 5;
}

fn struct_cond_ambiguity() {
    if foo {}
    if (Foo {}) {}
    if foo(Foo {}) {}
    if {Foo {}} {}
}

fn blocklike_expressions() {
    { 92; } -1;
    if foo {}
    if bar {}
    1 + {1} + 2;
    let _ = {1} + 1;
    ({1} + 1);
    {
        let x = {1} + 1;
    }
    {92}
}

fn misc() {
    let a = 1;
    let b = a::b::<c>;
    3;
    (4);
    foo {};
    foo {a: 1};
    foo {a: 2,};
    foo::bar {a: 1, b: C {}};
    foo(1, 2, bar(3,));
    foo.bar.baz;
}
fn foo() {}
fn bar(x: i32) {}
fn baz(x: i32,) {}
fn quux(x: i32, z: String) {}
fn ziz() -> foo {}

impl T {
    fn foo(self) {}
    fn bar(&self,) {}
}
impl Foo {
    fn bar(x: i32) {

    }
}
mod foo;
pub mod pfoo;

mod bar {}
pub mod pbar {}

mod baz {
    fn spam() {}
    mod quux {
        struct Eggs;
    }
}
use foo::bar::baz;
use self::foo;
use self::super::super::foo;


fn foo() {
    let x = ::Vec::<Vec<i32>>::new;
}
fn p() {
    let _ = 1;
    let x = 1;
}
struct A {}
struct B { f: A }
struct C { f: A, }
struct D { f: A, pub j: B }
struct E(u32);
struct F(u32,);
struct G(u32, String);
struct H;

union U {}

fn contextual() {
    let union = 92;
}
struct A { , }

struct B { a: A b: A}
fn main() {
    (1);
    ((1));
    (1, );
}
type Foo = foo::bar;
type Bar = &Foo;

impl T {
    type A;
    type B = A;
}
struct Foo<> {}
struct Bar<U, V>(U, V);
fn baz<X,>() {}

struct A<A,>();
struct B<'a,>();
struct C<'a, A,>();

extern crate spam;
extern crate eggs as yolk;

use foo::bar;
use ::foo::bar::baz;
use {};
use ::*;
use *;
use ::{};
use foo as bar;
use foo::{bar, baz as quux};
use foo::{bar,};
pub use zos;
struct Foo {}
fn bar() {}
pub struct Baz {}
pub fn quux() {}
