//! Monitors of the Rust crates (P37 to P40).
mod frames;
mod mem;
mod ops;
mod rx;
mod sock;
mod v;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
  let mut r = v::R::from_env();
  match r.prop.as_str() {
    "P37" => frames::check(&mut r),
    "P38" => ops::check(&mut r),
    "P39" => rx::check(&mut r),
    "P40" => sock::check(&mut r),
    p => panic!("no check for {}", p),
  }
  v::flush(true);
}
