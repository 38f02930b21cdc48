// needs: tungstenite serde
// std::cell::RefCell around the list of attachments of one packet. The token is the only access to its contents.
use crate::ext::tungstenite::Message;
pub tracked struct World {
    /// which cell
    pub ghost cell: int,
    /// what it holds
    pub ghost bufs: Seq<Message>,
    /// whether it is borrowed (borrowing it again would panic)
    pub ghost held: bool,
    /// what it holds in the end
    pub ghost fin: Seq<Message>,
}
pub open spec fn same_cell(a: World, b: World) -> bool { a.cell == b.cell && a.fin == b.fin }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefCell<T> { t: core::marker::PhantomData<T> }
impl<T> RefCell<T> { pub uninterp spec fn id(&self) -> int; }
/// RefCell::new: from here on the contents are reached through the cell only; every cell there is was made here, so no cell has a negative id
#[verifier::external_body]
pub fn vp_cell<'a>(b: &'a mut Vec<Message>, Tracked(w): Tracked<&mut World>) -> (r: RefCell<&'a mut Vec<Message>>)
    requires old(w).cell == -1
    ensures r.id() >= 0, final(w).cell == r.id(), final(w).bufs == old(b)@, !final(w).held, final(w).fin == final(b)@
{ unimplemented!() }
/// a token that gives access to no cell yet
#[verifier::external_body]
pub proof fn vp_unlinked() -> (tracked w: World)
    ensures w.cell == -1
{ unimplemented!() }
/// nobody has access any more: what the cell holds is what it holds in the end
#[verifier::external_body]
pub proof fn vp_cell_done(tracked w: World)
    requires w.cell >= 0
    ensures w.fin == w.bufs
{ unimplemented!() }
pub struct Borrowed { pub v: Vec<Message> }
impl<'a> RefCell<&'a mut Vec<Message>> {
    /// `borrow_mut()`: panics when it is borrowed already
    #[verifier::external_body]
    pub fn vp_lock(&self, Tracked(w): Tracked<&mut World>) -> (g: Borrowed)
        requires !old(w).held, old(w).cell == self.id()
        ensures final(w).held, same_cell(*old(w), *final(w)), final(w).bufs == old(w).bufs, g.v@ == old(w).bufs
    { unimplemented!() }
}
impl Borrowed {
    #[verifier::external_body]
    pub fn vp_store(self, Tracked(w): Tracked<&mut World>)
        requires old(w).held
        ensures final(w).held, same_cell(*old(w), *final(w)), final(w).bufs == self.v@
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_release(Tracked(w): Tracked<&mut World>)
    requires old(w).held
    ensures !final(w).held, same_cell(*old(w), *final(w)), final(w).bufs == old(w).bufs
{ unimplemented!() }
