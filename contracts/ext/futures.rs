// needs: sync tungstenite time net
// the channels, futures and tasks of the futures crate, as far as their callers rely on them
pub mod channel {
    use vstd::prelude::*;
    pub mod mpsc {
        use vstd::prelude::*;
        use crate::ext::sync::*;
        use crate::ext::tungstenite::Message;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct UnboundedSender<T> { t: core::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct UnboundedReceiver<T> { t: core::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct TrySendError<T> { t: core::marker::PhantomData<T> }
        impl<T> UnboundedSender<T> {
            /// which queue this handle feeds
            pub uninterp spec fn queue(&self) -> int;
        }
        impl<T> Clone for UnboundedSender<T> {
            #[verifier::external_body]
            fn clone(&self) -> (r: Self)
                ensures r == *self
            { unimplemented!() }
        }
        impl<T> UnboundedReceiver<T> {
            /// which queue this takes from
            pub uninterp spec fn queue(&self) -> int;
        }
        #[verifier::external_body]
        pub fn unbounded<T>() -> (r: (UnboundedSender<T>, UnboundedReceiver<T>))
            ensures r.0.queue() == r.1.queue()
        { unimplemented!() }
        /// the next unit of a queue
        #[verifier::external_body]
        pub struct NextUnit<'a> { s: core::marker::PhantomData<&'a mut u8> }
        impl<'a> NextUnit<'a> {
            pub uninterp spec fn queue(&self) -> int;
            /// somebody who can put units on the queue is alive
            pub uninterp spec fn fed(&self) -> bool;
        }
        use crate::ext::net::Fut;
        impl<'a> Fut for NextUnit<'a> {
            type Out = Option<Vec<Message>>;
            /// a queue ends only when nobody can put anything on it any more
            open spec fn can(&self, v: Self::Out) -> bool { v is None ==> !self.fed() }
            open spec fn done(&self, v: Self::Out) -> Ev { Ev::Took { queue: self.queue(), unit: match v { Some(u) => u@, None => seq![] } } }
            open spec fn limit(&self) -> Option<crate::ext::time::Duration> { None }
            fn fuse(self) -> (r: Self) { self }
        }
        impl UnboundedReceiver<Vec<Message>> {
            #[verifier::external_body]
            pub fn next(&mut self) -> (r: NextUnit<'_>)
                ensures r.queue() == old(self).queue(), final(self).queue() == old(self).queue()
            { unimplemented!() }
            /// `next`, while this sender is alive
            #[verifier::external_body]
            pub fn vp_next_fed<'a>(&'a mut self, s: &'a UnboundedSender<Vec<Message>>) -> (r: NextUnit<'a>)
                ensures r.queue() == old(self).queue(), final(self).queue() == old(self).queue(), s.queue() == r.queue() ==> r.fed()
            { unimplemented!() }
        }
        impl UnboundedSender<Vec<Message>> {
            /// puts one unit at the end of the queue (an error means that nobody takes from it any more)
            #[verifier::external_body]
            pub fn unbounded_send(&self, m: Vec<Message>, Tracked(w): Tracked<&mut World>) -> (r: Result<(), TrySendError<Vec<Message>>>)
                ensures final(w).held == old(w).held, final(w).log == old(w).log.push(Ev::Sent { queue: self.queue(), unit: m@ })
            { unimplemented!() }
        }
    }
    pub mod oneshot {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Sender<T> { t: core::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Receiver<T> { t: core::marker::PhantomData<T> }
        use crate::ext::sync::*;
        #[verifier::external_body]
        #[derive(Debug)]
        pub struct Canceled {}
        impl<T> Receiver<T> {
            pub uninterp spec fn chan(&self) -> int;
        }
        #[verifier::external_body]
        pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>))
            ensures r.0.chan() == r.1.chan()
        { unimplemented!() }
        use crate::ext::net::Fut;
        impl<T> Fut for Receiver<T> {
            type Out = Result<T, Canceled>;
            open spec fn can(&self, v: Self::Out) -> bool { true }
            open spec fn done(&self, v: Self::Out) -> Ev { if v is Ok { Ev::Got { chan: self.chan() } } else { Ev::Lost { chan: self.chan() } } }
            open spec fn limit(&self) -> Option<crate::ext::time::Duration> { None }
            fn fuse(self) -> (r: Self) { self }
        }
        impl<T> Sender<T> {
            pub uninterp spec fn chan(&self) -> int;
            #[verifier::external_body]
            pub fn send(self, t: T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), T>)
                ensures final(w).held == old(w).held, final(w).log == old(w).log.push(Ev::Fired { chan: self.chan() })
            { unimplemented!() }
        }
    }
}
pub mod io {
    pub trait AsyncRead {}
    pub trait AsyncWrite {}
}
pub mod future {
    use vstd::prelude::*;
    use crate::ext::sync::*;
    use crate::ext::net::Fut;
    pub use core::future::Future;
    /// the result of a task
    pub uninterp spec fn outcome<T>(task: int) -> T;
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct RemoteHandle<T> { t: core::marker::PhantomData<T> }
    impl<T> RemoteHandle<T> {
        pub uninterp spec fn task(&self) -> int;
        #[verifier::external_body]
        pub async fn vp_wait(self, Tracked(w): Tracked<&mut World>) -> (v: T)
            ensures
                self.can(v), final(w).held == old(w).held,
                final(w).log == old(w).log.push(Ev::Waited { at_most: None }).push(self.done(v)),
        { unimplemented!() }
    }
    impl<T> Fut for RemoteHandle<T> {
        type Out = T;
        open spec fn can(&self, v: T) -> bool { v == outcome::<T>(self.task()) }
        open spec fn done(&self, v: T) -> Ev { Ev::Joined { task: self.task() } }
        open spec fn limit(&self) -> Option<crate::ext::time::Duration> { None }
        fn fuse(self) -> (r: Self) { self }
    }
}
pub mod task {
    use vstd::prelude::*;
    use crate::ext::sync::*;
    use super::future::RemoteHandle;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct SpawnError {}
    /// a future that has not been started: an async block with what it captures
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Task<T> { t: core::marker::PhantomData<T> }
    impl<T> Task<T> {
        pub uninterp spec fn id(&self) -> int;
    }
    pub trait Spawn {
        fn spawn_with_handle<T>(&self, t: Task<T>, Tracked(w): Tracked<&mut World>) -> (r: Result<RemoteHandle<T>, SpawnError>)
            ensures
                final(w).held == old(w).held,
                r matches Ok(h) ==> h.task() == t.id() && final(w).log == old(w).log.push(Ev::Spawned { task: t.id() }),
                r is Err ==> final(w).log == old(w).log;
    }
}
