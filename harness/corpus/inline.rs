
struct S<'a:'b>;
fn main() {
  "\"";
  '\'';
}


use abi::{self, Abi};


const unsafe fn foo(self, x: i32) -> () {
  ()
}


fn foo(&mut self: Box<Self>) {}
fn bar(mut self) {}


impl Node {}
unsafe impl<'f> ::Debug for Node<'f> where Self: 'static { }


pub trait T<X>: Clone
  where X: Clone
{}


pub const X: i32 = 0;


foo!{}
bar!();


extern {
  static errno: i32;
  #[link_name = "bar"]
  pub fn foo();
}


struct B<'a:, 'b: 'a + 'a, C: 'b + Clone + for<'de> De<'de> +, D:>();


pub struct X;
pub(crate) struct Y;
pub(super) struct Z;


fn f()
  where T: Clone + Copy, Foo: Bar
{}


const C: Foo<Bar> = foo::<'bar, Baz>;
const C: Fn(i32, i64) -> () = foo;


type T = <Q as Foo<'f>>::Result;

type T = Box<Iterator<Item=T + 'static> + Send>;
type T = X<'a, Foo, Bar=Baz>;
type T = &'static mut X;
type T = *mut ();
type T = _;

type T = ();
type T = (A);
type T = (A,);
type T = (A, B);


fn main() -> ! { }


type T = [(); 92];
type T = &[()];


type F = extern "C" fn(i32, x: f64) -> ();
type F_Unit = fn();


type F = for<'f> T<'f>;

fn main() { let _ = (); }

fn main() {
  let foo::bar = ();
  let S(foo, bar, .. ,) = ();
  let foo::Bar { ref x, y: _, .. } = ();
}

fn main() {
    let foo = ();
    let ref mut bar = 92;
}


fn main() {
  let (x) = ();
  let (x,) = ();
  let (x, y) = ();
  let () = ();
}


fn main() { let &mut foo = bar; }


fn main() {
  (1, "", r"", ' ', 'hell', '', true, false)
}


fn main() {
    S { foo, bar: baz, ..Default::default() };
}


fn main() {
  ();
  (1);
  ((1));
  (1,);
  (1, 2);
}


fn main() {
  [];
  [1];
  [2,];
  [2, 3];
  [1; 2];
}


fn foo() {
    |x, y: i32,| 1 + 1;
    move || -> i32 { 92 };
}


fn binary_or_lambda_ambiguity() {
    || true || false;
}


fn main() { return; return (); }


fn main() {
  'l: loop {
    break;
    continue 'l;
  }
}


fn main() {
    {1};
    {1}
    {1;}
    unsafe { let _ = (); }
}


fn main() {
  let d;
  let b: bool = true;
}


fn main() {
  if true { foo } else { bar }
  if 1 { 2 } else if 3 { 4 } else { 5 }
}


fn main() { 'w: while true {} }


fn main() {
  if let
}

fn main() {
    if S {};
    if (S {}) {}
    if let Some(x) = foo() {}
}


fn main() { 'pool: loop { 92 }}


fn main() { for x in xs {} }


fn main() {
    match x {
      Some(1) | Some(2) => { no_comma }
      Some(x) if x & 3 => true,
      None => false,
    }
}


fn main() {
    block! {
      foo => bar
    }
    println!("Hello, world");
    vec![]
}


  fn main() { foo.bar::<i32>() }


fn main() {
  foo();
  let x = foo();
  {}();
  match x { 1 => {}() => 2 }
}


  fn main() { foo() }


fn main() { x.foo; x.92; }


fn main() { xs[92]; }


fn main() { -x??; }


fn main() { 1 as u128; }


fn main() {
    1     .. 2 + 3;
    1 + 2 .. 3;
          .. 1 + 2;
    1 + 2 .. ;
    for j in 1 .. { }
    x[1..];
}


#![foo]
impl () {
  #![bar]
}


#[foo, bar(baz), quux = 92] struct Foo;
#[cfg(target_os="linux")] mod bar;
