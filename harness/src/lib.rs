//! Analysis roots: one monomorphic entry point per public operation of
//! `yary`.  Nothing here is ever run; the analyser starts its call-graph
//! traversal and its abstract interpretation at these functions.
#![allow(clippy::all)]
use std::fs::File;
use yary::error::{Category, Error};
use yary::event::{flag::Flags, types::*, EventIter, EventIterRef, Events};
use yary::reader::{borrow::BorrowReader, owned::OwnedReader, Read, ReadContext};

pub fn root_from_utf8(s: &str) -> BorrowReader<'_> { yary::reader::from_utf8(s) }
pub fn root_try_from_bytes(s: &[u8]) -> Result<BorrowReader<'_>, Error> { yary::reader::try_from_bytes(s) }
pub fn root_from_read(f: File) -> OwnedReader { yary::reader::from_read(f) }

pub fn root_drive_borrow<'de>(r: &'de BorrowReader<'de>, c: ReadContext<'_, '_, 'de>) -> bool { r.drive(c).is_ok() }
pub fn root_drive_owned<'de>(r: &'de OwnedReader, c: ReadContext<'_, '_, 'de>) -> bool { r.drive(c).is_ok() }

pub fn root_events_new<'a>(r: &'a BorrowReader<'a>, f: Flags) -> Events<'a, BorrowReader<'a>> { yary::event::from_reader_with(r, f) }
pub fn root_events_new_owned(r: &OwnedReader, f: Flags) -> Events<'_, OwnedReader> { yary::event::from_reader_with(r, f) }

pub fn root_into_iter<'a>(e: Events<'a, BorrowReader<'a>>) -> EventIter<'a, BorrowReader<'a>> { e.into_iter() }
pub fn root_iter<'x, 'a>(e: &'x mut Events<'a, BorrowReader<'a>>) -> EventIterRef<'x, 'a, BorrowReader<'a>> { e.iter() }

pub fn root_next<'a>(it: &mut EventIter<'a, BorrowReader<'a>>) -> Option<Result<Event<'a>, Error>> { it.next() }
pub fn root_next_ref<'a>(it: &mut EventIterRef<'_, 'a, BorrowReader<'a>>) -> Option<Result<Event<'a>, Error>> { it.next() }
pub fn root_next_owned<'a>(it: &mut EventIter<'a, OwnedReader>) -> Option<Result<Event<'a>, Error>> { it.next() }
pub fn root_next_ref_owned<'a>(it: &mut EventIterRef<'_, 'a, OwnedReader>) -> Option<Result<Event<'a>, Error>> { it.next() }

pub fn root_evaluate<'a>(s: ScalarLike<'a>) -> Result<Scalar<'a>, Error> { s.evaluate() }
pub fn root_evaluate_by_ref<'x, 'a>(s: &'x mut ScalarLike<'a>) -> Result<&'x mut Scalar<'a>, Error> { s.evaluate_by_ref() }
pub fn root_evaluate_lazy<'a>(s: ScalarLazy<'a>) -> Result<Scalar<'a>, Error> { s.evaluate() }

pub fn root_classify(e: &Error) -> Category { e.classify() }
pub fn root_into_io(e: Error) -> std::io::Error { e.into() }

pub fn root_drop_events<'a>(e: Events<'a, OwnedReader>) { drop(e) }
pub fn root_drop_event<'a>(e: Event<'a>) { drop(e) }
pub fn root_drop_owned(r: OwnedReader) { drop(r) }
pub fn root_clone_event<'a>(e: &Event<'a>) -> Event<'a> { e.clone() }
