#![no_std]
pub struct Span;
pub struct Entered;
impl Span { pub fn enter(&self) -> Entered { Entered } pub fn entered(self) -> Entered { Entered }
 pub fn none() -> Span { Span } pub fn record<A: ?Sized, B>(&self, _: &A, _: B) -> &Self { self }
 pub fn in_scope<F: FnOnce() -> T, T>(&self, f: F) -> T { f() } }
#[macro_export] macro_rules! trace { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! debug { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! info { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! error { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! event { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! trace_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export] macro_rules! debug_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export] macro_rules! info_span { ($($t:tt)*) => { $crate::Span } }
#[macro_export] macro_rules! span { ($($t:tt)*) => { $crate::Span } }
pub mod field { pub fn debug<T>(t: T) -> T { t } }
