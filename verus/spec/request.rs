//! Requests: what a request frame spells.
use vstd::prelude::*;
use super::resp::*;
verus! {

/// A command with its arguments.
pub enum Rq {
    AclCat(Option<Seq<u8>>),
    Help,
    SetInfo(Option<Seq<u8>>, Option<Seq<u8>>),
    Info,
    SetName(Seq<u8>),
    GetName,
    Id,
    List(Kind, Seq<u64>),
    Hello,
    Ping(Option<Seq<u8>>),
    /// the time to live is in nanoseconds
    Set(Seq<u8>, Seq<u8>, Option<int>),
    Get(Seq<u8>),
    Unknown(Seq<u8>),
}
pub enum Kind { Normal, Replica, Master, Pubsub }

/// The lower and upper case of a text.
pub uninterp spec fn lower(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn upper(s: Seq<u8>) -> Seq<u8>;
pub open spec fn lower_byte(b: u8) -> u8 { if 65 <= b && b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn upper_byte(b: u8) -> u8 { if 97 <= b && b <= 122 { (b - 32) as u8 } else { b } }
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] < 128 }
/// The case of the ASCII letters; the rest of Unicode is the standard library's.
#[verifier::external_body]
pub proof fn axiom_case(s: Seq<u8>)
    requires ascii(s)
    ensures lower(s) == s.map_values(|b: u8| lower_byte(b)), upper(s) == s.map_values(|b: u8| upper_byte(b))
{ }

/// Only the ASCII letters put in lower case, in upper case.
pub open spec fn folded(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| lower_byte(b)) }
pub open spec fn upper_(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| upper_byte(b)) }
/// ASCII, without the `k` that the Kelvin sign has for lower case.
pub open spec fn plain(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] < 128 && s[i] != 107 }
/// Made of `E`, `P` and `X`, which no other character has for upper case.
pub open spec fn option_text(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 69 || s[i] == 80 || s[i] == 88 }
/// No character out of ASCII has such a text for lower case, for upper case.
#[verifier::external_body]
pub proof fn axiom_case_out(s: Seq<u8>)
    ensures plain(lower(s)) ==> ascii(s), option_text(upper(s)) ==> ascii(s)
{ }
pub proof fn lemma_case(s: Seq<u8>)
    ensures
        plain(lower(s)) || plain(folded(s)) ==> lower(s) == folded(s),
        option_text(upper(s)) || option_text(upper_(s)) ==> upper(s) == upper_(s),
{
    axiom_case_out(s);
    if plain(folded(s)) { assert forall|i: int| 0 <= i < s.len() implies s[i] < 128 by { assert(folded(s)[i] == lower_byte(s[i])); } }
    if option_text(upper_(s)) { assert forall|i: int| 0 <= i < s.len() implies s[i] < 128 by { assert(upper_(s)[i] == upper_byte(s[i])); } }
    if ascii(s) { axiom_case(s); }
}

/// An argument that is text, bytes, a number.
pub open spec fn text_arg(v: FV) -> Option<Seq<u8>> {
    match v {
        FV::Simple(t) => Some(t),
        FV::Bulk(b) => if utf8(b) { Some(b) } else { None },
        _ => None,
    }
}
pub open spec fn bytes_arg(v: FV) -> Option<Seq<u8>> {
    match v { FV::Simple(t) => Some(t), FV::Bulk(b) => Some(b), _ => None }
}
pub open spec fn int_arg(v: FV) -> Option<u64> {
    match v { FV::Integer(n) => Some(n), FV::Simple(t) => atoi(t), FV::Bulk(b) => atoi(b), _ => None }
}

// The words of the protocol.
pub open spec fn w_acl() -> Seq<u8> { seq![97u8, 99, 108] }
pub open spec fn w_client() -> Seq<u8> { seq![99u8, 108, 105, 101, 110, 116] }
pub open spec fn w_ping() -> Seq<u8> { seq![112u8, 105, 110, 103] }
pub open spec fn w_hello() -> Seq<u8> { seq![104u8, 101, 108, 108, 111] }
pub open spec fn w_set() -> Seq<u8> { seq![115u8, 101, 116] }
pub open spec fn w_get() -> Seq<u8> { seq![103u8, 101, 116] }
pub open spec fn w_cat() -> Seq<u8> { seq![99u8, 97, 116] }
pub open spec fn w_setinfo() -> Seq<u8> { seq![115u8, 101, 116, 105, 110, 102, 111] }
pub open spec fn w_setname() -> Seq<u8> { seq![115u8, 101, 116, 110, 97, 109, 101] }
pub open spec fn w_getname() -> Seq<u8> { seq![103u8, 101, 116, 110, 97, 109, 101] }
pub open spec fn w_id() -> Seq<u8> { seq![105u8, 100] }
pub open spec fn w_info() -> Seq<u8> { seq![105u8, 110, 102, 111] }
pub open spec fn w_list() -> Seq<u8> { seq![108u8, 105, 115, 116] }
pub open spec fn w_help() -> Seq<u8> { seq![104u8, 101, 108, 112] }
pub open spec fn w_type() -> Seq<u8> { seq![116u8, 121, 112, 101] }
pub open spec fn w_normal() -> Seq<u8> { seq![110u8, 111, 114, 109, 97, 108] }
pub open spec fn w_replica() -> Seq<u8> { seq![114u8, 101, 112, 108, 105, 99, 97] }
pub open spec fn w_master() -> Seq<u8> { seq![109u8, 97, 115, 116, 101, 114] }
pub open spec fn w_pubsub() -> Seq<u8> { seq![112u8, 117, 98, 115, 117, 98] }
pub open spec fn w_ex() -> Seq<u8> { seq![69u8, 88] }
pub open spec fn w_px() -> Seq<u8> { seq![80u8, 88] }
pub open spec fn w_lib_name() -> Seq<u8> { seq![76u8, 73, 66, 45, 78, 65, 77, 69] }
pub open spec fn w_lib_ver() -> Seq<u8> { seq![76u8, 73, 66, 45, 86, 69, 82] }

proof fn lemma_fold(s: Seq<u8>, w: Seq<u8>, l: Seq<u8>)
    requires option_text(w), folded(w) =~= l
    ensures (upper_(s) == w) == (folded(s) =~= l)
{
    if upper_(s) == w {
        assert forall|i: int| 0 <= i < s.len() implies folded(s)[i] == l[i] by { assert(upper_(s)[i] == w[i]); assert(folded(w)[i] == l[i]); }
        assert(folded(s) =~= l);
    }
    if folded(s) =~= l {
        assert forall|i: int| 0 <= i < s.len() implies upper_(s)[i] == w[i] by { assert(folded(s)[i] == l[i]); assert(folded(w)[i] == l[i]); }
        assert(upper_(s) =~= w);
    }
}
pub proof fn lemma_words()
    ensures
        w_acl() != w_client(), w_acl() != w_ping(), w_acl() != w_hello(), w_acl() != w_set(), w_acl() != w_get(),
        w_client() != w_ping(), w_client() != w_hello(), w_client() != w_set(), w_client() != w_get(),
        w_ping() != w_hello(), w_ping() != w_set(), w_ping() != w_get(),
        w_hello() != w_set(), w_hello() != w_get(), w_set() != w_get(),
        w_setinfo() != w_setname(), w_setinfo() != w_getname(), w_setinfo() != w_id(), w_setinfo() != w_info(),
        w_setinfo() != w_list(), w_setinfo() != w_help(),
        w_setname() != w_getname(), w_setname() != w_id(), w_setname() != w_info(), w_setname() != w_list(), w_setname() != w_help(),
        w_getname() != w_id(), w_getname() != w_info(), w_getname() != w_list(), w_getname() != w_help(),
        w_id() != w_info(), w_id() != w_list(), w_id() != w_help(),
        w_info() != w_list(), w_info() != w_help(), w_list() != w_help(),
        w_type() != w_id(), w_ex() != w_px(), w_lib_name() != w_lib_ver(),
        w_normal() != w_replica(), w_normal() != w_master(), w_normal() != w_pubsub(),
        w_replica() != w_master(), w_replica() != w_pubsub(), w_master() != w_pubsub(),
        // comparing the ASCII letters only is the same, for these words
        plain(w_acl()) && plain(w_client()) && plain(w_ping()) && plain(w_hello()) && plain(w_set()) && plain(w_get()) && plain(w_cat()),
        plain(w_setinfo()) && plain(w_setname()) && plain(w_getname()) && plain(w_id()) && plain(w_info()) && plain(w_list()) && plain(w_help()),
        plain(w_type()) && plain(w_normal()) && plain(w_replica()) && plain(w_master()) && plain(w_pubsub()),
        forall|s: Seq<u8>| (plain(#[trigger] lower(s)) || plain(folded(s))) ==> lower(s) == folded(s),
        forall|s: Seq<u8>| (#[trigger] upper(s) == w_ex()) == (folded(s) =~= seq![101u8, 120]) && (upper(s) == w_ex()) == (upper_(s) == w_ex()),
        forall|s: Seq<u8>| (#[trigger] upper(s) == w_px()) == (folded(s) =~= seq![112u8, 120]) && (upper(s) == w_px()) == (upper_(s) == w_px()),
{
    assert forall|s: Seq<u8>| (plain(#[trigger] lower(s)) || plain(folded(s))) implies lower(s) == folded(s) by { lemma_case(s); }
    assert forall|s: Seq<u8>| (#[trigger] upper(s) == w_ex()) == (folded(s) =~= seq![101u8, 120]) && (upper(s) == w_ex()) == (upper_(s) == w_ex()) by {
        lemma_case(s);
        lemma_fold(s, w_ex(), seq![101u8, 120]);
    }
    assert forall|s: Seq<u8>| (#[trigger] upper(s) == w_px()) == (folded(s) =~= seq![112u8, 120]) && (upper(s) == w_px()) == (upper_(s) == w_px()) by {
        lemma_case(s);
        lemma_fold(s, w_px(), seq![112u8, 120]);
    }
    assert(w_acl()[0] == 97 && w_client()[0] == 99 && w_ping()[0] == 112 && w_hello()[0] == 104 && w_set()[0] == 115 && w_get()[0] == 103);
    assert(w_setinfo()[0] == 115 && w_setinfo()[3] == 105 && w_setname()[0] == 115 && w_setname()[3] == 110 && w_getname()[0] == 103);
    assert(w_id()[0] == 105 && w_info()[0] == 105 && w_list()[0] == 108 && w_help()[0] == 104);
    assert(w_id().len() == 2 && w_info().len() == 4);
    assert(w_type()[0] == 116);
    assert(w_ex()[0] == 69 && w_px()[0] == 80);
    assert(w_lib_name().len() == 8 && w_lib_ver().len() == 7);
    assert(w_normal()[0] == 110 && w_replica()[0] == 114 && w_master()[0] == 109 && w_pubsub()[0] == 112);
}

/// `SET key value [EX seconds|PX milliseconds]`
pub open spec fn set_rq(a: Seq<FV>) -> Option<Rq> {
    if a.len() < 2 || text_arg(a[0]) is None || bytes_arg(a[1]) is None { None }
    else if a.len() == 2 { Some(Rq::Set(text_arg(a[0])->0, bytes_arg(a[1])->0, None)) }
    else if a.len() != 4 || text_arg(a[2]) is None || int_arg(a[3]) is None { None }
    else if upper(text_arg(a[2])->0) == w_ex() { Some(Rq::Set(text_arg(a[0])->0, bytes_arg(a[1])->0, Some(int_arg(a[3])->0 * 1_000_000_000))) }
    else if upper(text_arg(a[2])->0) == w_px() { Some(Rq::Set(text_arg(a[0])->0, bytes_arg(a[1])->0, Some(int_arg(a[3])->0 * 1_000_000))) }
    else { None }
}
/// `CLIENT SETINFO [LIB-NAME|LIB-VER value]`
pub open spec fn setinfo_rq(a: Seq<FV>) -> Option<Rq> {
    if a.len() > 2 || (a.len() > 0 && bytes_arg(a[0]) is None) || (a.len() > 1 && bytes_arg(a[1]) is None) { None }
    else if a.len() == 2 && bytes_arg(a[0])->0 == w_lib_name() { Some(Rq::SetInfo(bytes_arg(a[1]), None)) }
    else if a.len() == 2 && bytes_arg(a[0])->0 == w_lib_ver() { Some(Rq::SetInfo(None, bytes_arg(a[1]))) }
    else { Some(Rq::SetInfo(None, None)) }
}
/// The numbers of a sequence of arguments, after those in `acc`.
pub open spec fn ints(acc: Seq<u64>, a: Seq<FV>) -> Option<Seq<u64>>
    decreases a.len()
{
    if a.len() == 0 { Some(acc) }
    else {
        match int_arg(a[0]) {
            Some(n) => ints(acc.push(n), a.drop_first()),
            None => None,
        }
    }
}
pub open spec fn kind(t: Seq<u8>) -> Option<Kind> {
    if t == w_normal() { Some(Kind::Normal) }
    else if t == w_replica() { Some(Kind::Replica) }
    else if t == w_master() { Some(Kind::Master) }
    else if t == w_pubsub() { Some(Kind::Pubsub) }
    else { None }
}
/// `CLIENT LIST [TYPE [type]] [ID id ...]`: `k` is the type so far.
pub open spec fn list_rq(a: Seq<FV>, k: Kind) -> Option<Rq>
    decreases a.len()
{
    if a.len() == 0 { Some(Rq::List(k, Seq::empty())) }
    else if text_arg(a[0]) is None { None }
    else if lower(text_arg(a[0])->0) == w_type() {
        if a.len() == 1 { Some(Rq::List(Kind::Normal, Seq::empty())) }
        else if text_arg(a[1]) is None { None }
        else {
            match kind(lower(text_arg(a[1])->0)) {
                Some(x) => list_rq(a.drop_first().drop_first(), x),
                None => None,
            }
        }
    } else if lower(text_arg(a[0])->0) == w_id() {
        match ints(Seq::empty(), a.drop_first()) { Some(s) => Some(Rq::List(k, s)), None => None }
    } else { None }
}
/// The subcommands of CLIENT.
pub open spec fn client_rq(a: Seq<FV>) -> Option<Rq> {
    if a.len() == 0 { Some(Rq::Help) }
    else if text_arg(a[0]) is None { None }
    else {
        let n = lower(text_arg(a[0])->0);
        let r = a.drop_first();
        if n == w_setinfo() { setinfo_rq(r) }
        else if n == w_setname() { if r.len() == 1 && text_arg(r[0]) is Some { Some(Rq::SetName(text_arg(r[0])->0)) } else { None } }
        else if n == w_getname() { if r.len() == 0 { Some(Rq::GetName) } else { None } }
        else if n == w_id() { if r.len() == 0 { Some(Rq::Id) } else { None } }
        else if n == w_info() { if r.len() == 0 { Some(Rq::Info) } else { None } }
        else if n == w_list() { list_rq(r, Kind::Normal) }
        else if n == w_help() { if r.len() == 0 { Some(Rq::Help) } else { None } }
        else { Some(Rq::Unknown(n)) }
    }
}
/// The subcommands of ACL.
pub open spec fn acl_rq(a: Seq<FV>) -> Option<Rq> {
    if a.len() == 0 || text_arg(a[0]) is None { None }
    else {
        let n = lower(text_arg(a[0])->0);
        let r = a.drop_first();
        if n == w_cat() {
            if r.len() == 0 { Some(Rq::AclCat(None)) }
            else if r.len() == 1 && text_arg(r[0]) is Some { Some(Rq::AclCat(text_arg(r[0]))) }
            else { None }
        } else { Some(Rq::Unknown(n)) }
    }
}
/// The command a request spells; `None`: it is rejected.
pub open spec fn command(v: FV) -> Option<Rq> {
    match v {
        FV::Array(a) =>
            if a.len() == 0 || text_arg(a[0]) is None { None }
            else {
                let n = lower(text_arg(a[0])->0);
                let r = a.drop_first();
                if n == w_acl() { acl_rq(r) }
                else if n == w_client() { client_rq(r) }
                else if n == w_ping() {
                    if r.len() == 0 { Some(Rq::Ping(None)) }
                    else if r.len() == 1 && bytes_arg(r[0]) is Some { Some(Rq::Ping(bytes_arg(r[0]))) }
                    else { None }
                }
                else if n == w_hello() { if r.len() == 0 { Some(Rq::Hello) } else { None } }
                else if n == w_set() { set_rq(r) }
                else if n == w_get() { if r.len() == 1 && text_arg(r[0]) is Some { Some(Rq::Get(text_arg(r[0])->0)) } else { None } }
                else { Some(Rq::Unknown(n)) }
            },
        _ => None,
    }
}

} // verus!
