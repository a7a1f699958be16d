//! Reference behaviour of library routines that the analysis looks into, written in
//! terms of the primitive steps (`next`, `push`, ...).  Never run; only its MIR is read.
#![no_std]
#![feature(try_trait_v2, fmt_internals)]
#![allow(unused, clippy::all)]
extern crate alloc;
use alloc::string::String;
use alloc::vec::Vec;
use core::fmt;
use core::ops::{ControlFlow, Try};

pub struct Pieces;
impl Iterator for Pieces {
    type Item = &'static str;
    fn next(&mut self) -> Option<&'static str> {
        loop {}
    }
}
#[inline(never)]
pub fn args_iter(a: fmt::Arguments) -> Pieces {
    Pieces
}
#[inline(never)]
pub fn char_str(c: char) -> &'static str {
    ""
}

//@ core::fmt::Write::write_fmt
pub fn write_write_fmt<W: fmt::Write + ?Sized>(w: &mut W, a: fmt::Arguments) -> fmt::Result {
    let mut it = args_iter(a);
    while let Some(p) = it.next() {
        match w.write_str(p) {
            Ok(()) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}
//@ core::fmt::Write::write_char
pub fn write_write_char<W: fmt::Write + ?Sized>(w: &mut W, c: char) -> fmt::Result {
    w.write_str(char_str(c))
}
//@ core::fmt::Formatter::write_fmt
pub fn formatter_write_fmt(w: &mut fmt::Formatter, a: fmt::Arguments) -> fmt::Result {
    let mut it = args_iter(a);
    while let Some(p) = it.next() {
        match w.write_str(p) {
            Ok(()) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}

//@ core::iter::traits::iterator::Iterator::fold
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
//@ core::iter::traits::iterator::Iterator::try_fold
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x).branch() {
            ControlFlow::Continue(c) => acc = c,
            ControlFlow::Break(b) => return R::from_residual(b),
        }
    }
    R::from_output(acc)
}
//@ core::iter::traits::iterator::Iterator::try_for_each
pub fn iter_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        match f(x).branch() {
            ControlFlow::Continue(_) => {}
            ControlFlow::Break(b) => return R::from_residual(b),
        }
    }
    R::from_output(())
}
//@ core::iter::traits::iterator::Iterator::for_each
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x)
    }
}
//@ core::iter::traits::iterator::Iterator::any
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
//@ core::iter::traits::iterator::Iterator::all
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
//@ core::iter::traits::iterator::Iterator::find
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
//@ core::iter::traits::iterator::Iterator::find_map
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
//@ core::iter::traits::iterator::Iterator::position
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
//@ core::iter::traits::iterator::Iterator::count
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut i = 0;
    while let Some(_) = it.next() {
        i += 1;
    }
    i
}
//@ core::iter::traits::iterator::Iterator::nth@core::iter::adapters::map::Map
pub fn map_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if i == n {
            return Some(x);
        }
        i += 1;
    }
    None
}
//@ core::iter::traits::iterator::Iterator::collect
pub fn iter_collect<I: Iterator, B: FromIterator<I::Item>>(it: I) -> B {
    B::from_iter(it)
}
//@ core::iter::traits::collect::FromIterator::from_iter@alloc::vec::Vec
pub fn vec_from_iter<V, T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
//@ core::iter::traits::collect::Extend::extend@alloc::vec::Vec
pub fn vec_extend<V, T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
//@ core::iter::traits::collect::FromIterator::from_iter@alloc::string::String
pub fn string_from_iter<V, T: AsRefStr, I: IntoIterator<Item = T>>(it: I) -> String {
    let mut v = String::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        x.push_to(&mut v);
    }
    v
}
//@ core::iter::traits::collect::Extend::extend@alloc::string::String
pub fn string_extend<V, T: AsRefStr, I: IntoIterator<Item = T>>(v: &mut String, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        x.push_to(v);
    }
}
pub trait AsRefStr {
    fn push_to(self, s: &mut String);
}

/// Stands for something that takes in every item of an iterator, in order.
pub struct Sink;
#[inline(never)]
pub fn new_sink() -> Sink {
    Sink
}
#[inline(never)]
pub fn emit<T>(s: &mut Sink, x: T) {}
#[inline(never)]
pub fn emitted_bits<F, O>(s: Sink, format: F, out: O) {}

//@ scale_encode::impls::composite::Composite::new
pub fn composite_new<R, V: Iterator>(vals: V) -> Sink {
    let mut s = new_sink();
    let mut it = vals;
    while let Some(x) = it.next() {
        emit(&mut s, x);
    }
    s
}
//@ scale_bits::scale::encode_using_format_to
pub fn bits_encode_to<I: Iterator>(it: I, format: (), out: ()) {
    let mut s = new_sink();
    let mut it = it;
    while let Some(x) = it.next() {
        emit(&mut s, x);
    }
    emitted_bits(s, format, out)
}
//@ core::iter::traits::collect::FromIterator::from_iter@scale_bits::bits::bits::Bits
pub fn bits_from_iter<V, A, I: IntoIterator<Item = A>>(it: I) -> Sink {
    let mut s = new_sink();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        emit(&mut s, x);
    }
    s
}
//@ core::iter::traits::collect::FromIterator::from_iter@smallvec::SmallVec
pub fn smallvec_from_iter<V, T, I: IntoIterator<Item = T>>(it: I) -> Sink {
    let mut s = new_sink();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        emit(&mut s, x);
    }
    s
}

/// The successful items of an iterator; the first failure is put aside and ends it.
pub struct Shunt<'a, I, R> {
    iter: I,
    residual: &'a mut Option<R>,
}
impl<'a, I: Iterator> Iterator for Shunt<'a, I, <I::Item as Try>::Residual>
where
    I::Item: Try,
{
    type Item = <I::Item as Try>::Output;
    fn next(&mut self) -> Option<Self::Item> {
        match self.iter.next() {
            None => None,
            Some(x) => match x.branch() {
                ControlFlow::Continue(c) => Some(c),
                ControlFlow::Break(r) => {
                    *self.residual = Some(r);
                    None
                }
            },
        }
    }
}
//@ core::iter::traits::collect::FromIterator::from_iter@core::result::Result
pub fn result_from_iter<S, X, I: IntoIterator<Item = X>>(it: I) -> S
where
    X: Try,
    S: Try + core::ops::FromResidual<<X as Try>::Residual>,
    S::Output: FromIterator<X::Output>,
{
    let mut residual = None;
    let v = <S::Output as FromIterator<X::Output>>::from_iter(Shunt { iter: it.into_iter(), residual: &mut residual });
    match residual {
        None => S::from_output(v),
        Some(r) => S::from_residual(r),
    }
}
//@ core::iter::traits::collect::FromIterator::from_iter@core::option::Option
pub fn option_from_iter<S, X, I: IntoIterator<Item = X>>(it: I) -> S
where
    X: Try,
    S: Try + core::ops::FromResidual<<X as Try>::Residual>,
    S::Output: FromIterator<X::Output>,
{
    let mut residual = None;
    let v = <S::Output as FromIterator<X::Output>>::from_iter(Shunt { iter: it.into_iter(), residual: &mut residual });
    match residual {
        None => S::from_output(v),
        Some(r) => S::from_residual(r),
    }
}
