keep Parse ParseError

top {{{
use crate::application::server::frame::{fv, fvs, lemma_fv_array};
}}}
bottom {{{
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::anyhow::Error> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: crate::shim::anyhow::Error) -> ParseError { ParseError::Other(v) }
}
impl From<crate::shim::anyhow::Error> for ParseError {
    fn from(e: crate::shim::anyhow::Error) -> (r: ParseError)
    { ParseError::Other(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<ParseError> for crate::shim::anyhow::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseError) -> crate::shim::anyhow::Error { crate::shim::anyhow::error_() }
}
impl From<ParseError> for crate::shim::anyhow::Error {
    #[verifier::external_body]
    fn from(e: ParseError) -> crate::shim::anyhow::Error { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::String> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: crate::shim::String) -> ParseError { ParseError::Other(crate::shim::anyhow::error_()) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a str) -> ParseError { ParseError::Other(crate::shim::anyhow::error_()) }
}
}}}
impl-extra Parse {{{
    /// The arguments that were not read yet.
    pub open spec fn rest(&self) -> Seq<FV> { fvs(self.parts@) }
    /// After reading one argument, or trying to.
    pub open spec fn read(&self, o: &Parse) -> bool {
        if o.rest().len() == 0 { self.rest() == o.rest() } else { self.rest() == o.rest().drop_first() }
    }
}}}

fn Parse::new(frame) -> r [C05] {{{
    ensures match fv(frame) {
        FV::Array(a) => r is Ok && r->Ok_0.rest() == a,
        _ => r is Err,
    }
}}}
head {{{
    broadcast use lemma_fv_array;
}}}
fn Parse::next(self) -> r [C05] {{{
    ensures
        final(self).read(old(self)),
        old(self).rest().len() == 0 ==> r is Err && r->Err_0 is EndOfStream,
        old(self).rest().len() > 0 ==> r is Ok && fv(r->Ok_0) == old(self).rest()[0],
}}}
head {{{
    proof {
        if self.parts@.len() > 0 { assert(fvs(self.parts@.drop_first()) =~= fvs(self.parts@).drop_first()); }
    }
}}}
fn Parse::next_string(self) -> r [C05] {{{
    ensures
        final(self).read(old(self)),
        old(self).rest().len() == 0 ==> r is Err && r->Err_0 is EndOfStream,
        old(self).rest().len() > 0 ==> match text_arg(old(self).rest()[0]) {
            Some(t) => r is Ok && r->Ok_0@ == t,
            None => r is Err && r->Err_0 is Other,
        }
}}}
fn Parse::next_bytes(self) -> r [C05] {{{
    ensures
        final(self).read(old(self)),
        old(self).rest().len() == 0 ==> r is Err && r->Err_0 is EndOfStream,
        old(self).rest().len() > 0 ==> match bytes_arg(old(self).rest()[0]) {
            Some(t) => r is Ok && r->Ok_0@ == t,
            None => r is Err && r->Err_0 is Other,
        }
}}}
fn Parse::next_int(self) -> r [C05] {{{
    ensures
        final(self).read(old(self)),
        old(self).rest().len() == 0 ==> r is Err && r->Err_0 is EndOfStream,
        old(self).rest().len() > 0 ==> match int_arg(old(self).rest()[0]) {
            Some(t) => r is Ok && r->Ok_0 == t,
            None => r is Err && r->Err_0 is Other,
        }
}}}
fn Parse::finish(self) -> r [C05] {{{
    // what is read when there was more does not matter: the request is rejected
    ensures r is Ok <==> old(self).rest().len() == 0, r is Ok ==> final(self).rest().len() == 0
}}}
head {{{
    proof {
        if self.parts@.len() > 0 { assert(fvs(self.parts@.drop_first()) =~= fvs(self.parts@).drop_first()); }
    }
}}}
fn ParseError as From<String>::from(src) -> r [C05] {{{
}}}
fn ParseError as From<&str>::from(src) -> r [C05] {{{
}}}
