//! The real channels, with scheduling points around their operations.
pub use real::sync::*;

pub mod mpsc {
    use crate::sim;
    pub use real::sync::mpsc::{error, OwnedPermit, Permit, PermitIterator, WeakSender, WeakUnboundedSender};
    use real::sync::mpsc as r;
    use std::ops::{Deref, DerefMut};

    macro_rules! wrap {
        ($name:ident, $real:ident, $fields:expr) => {
            pub struct $name<T>(pub(crate) r::$real<T>);
            impl<T> Deref for $name<T> {
                type Target = r::$real<T>;
                fn deref(&self) -> &Self::Target {
                    &self.0
                }
            }
            impl<T> DerefMut for $name<T> {
                fn deref_mut(&mut self) -> &mut Self::Target {
                    &mut self.0
                }
            }
            impl<T> std::fmt::Debug for $name<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str($fields)
                }
            }
        };
    }
    wrap!(Sender, Sender, "Sender");
    wrap!(Receiver, Receiver, "Receiver");
    wrap!(UnboundedSender, UnboundedSender, "UnboundedSender");
    wrap!(UnboundedReceiver, UnboundedReceiver, "UnboundedReceiver");
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for UnboundedSender<T> {
        fn clone(&self) -> Self {
            UnboundedSender(self.0.clone())
        }
    }
    pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
        let (a, b) = r::channel(n);
        (Sender(a), Receiver(b))
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let (a, b) = r::unbounded_channel();
        (UnboundedSender(a), UnboundedReceiver(b))
    }
    impl<T> Sender<T> {
        pub async fn send(&self, v: T) -> Result<(), error::SendError<T>> {
            sim::point();
            let r = self.0.send(v).await;
            sim::point();
            r
        }
        pub fn try_send(&self, v: T) -> Result<(), error::TrySendError<T>> {
            sim::point();
            let r = self.0.try_send(v);
            sim::point();
            r
        }
        pub fn blocking_send(&self, v: T) -> Result<(), error::SendError<T>> {
            sim::point();
            let r = sim::block_on(self.0.send(v));
            sim::point();
            r
        }
    }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
            sim::point();
            let r = self.0.send(v);
            sim::point();
            r
        }
    }
    macro_rules! receiver {
        ($name:ident) => {
            impl<T> $name<T> {
                pub async fn recv(&mut self) -> Option<T> {
                    sim::point();
                    let r = self.0.recv().await;
                    sim::point();
                    r
                }
                pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                    sim::point();
                    self.0.try_recv()
                }
                pub fn blocking_recv(&mut self) -> Option<T> {
                    if sim::tearing() {
                        return None;
                    }
                    sim::point();
                    let r = sim::block_on_or(self.0.recv(), || None);
                    if sim::tearing() {
                        return None;
                    }
                    sim::point();
                    r
                }
            }
        };
    }
    receiver!(Receiver);
    receiver!(UnboundedReceiver);
}

pub mod broadcast {
    use crate::sim;
    use real::sync::broadcast as r;
    pub use real::sync::broadcast::{error, WeakSender};
    use std::ops::{Deref, DerefMut};

    pub struct Sender<T>(pub(crate) r::Sender<T>);
    pub struct Receiver<T>(pub(crate) r::Receiver<T>);
    impl<T> Deref for Sender<T> {
        type Target = r::Sender<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> Deref for Receiver<T> {
        type Target = r::Receiver<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> DerefMut for Receiver<T> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<T> std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("broadcast::Sender")
        }
    }
    impl<T> std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("broadcast::Receiver")
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender(self.0.clone())
        }
    }
    pub fn channel<T: Clone>(n: usize) -> (Sender<T>, Receiver<T>) {
        let (a, b) = r::channel(n);
        (Sender(a), Receiver(b))
    }
    impl<T> Sender<T> {
        pub fn new(n: usize) -> Self
        where
            T: Clone,
        {
            Sender(r::Sender::new(n))
        }
        pub fn send(&self, v: T) -> Result<usize, error::SendError<T>> {
            sim::point();
            let r = self.0.send(v);
            sim::point();
            r
        }
        pub fn subscribe(&self) -> Receiver<T> {
            sim::point();
            let r = Receiver(self.0.subscribe());
            sim::point();
            r
        }
    }
    impl<T: Clone> Receiver<T> {
        pub async fn recv(&mut self) -> Result<T, error::RecvError> {
            sim::point();
            let r = self.0.recv().await;
            sim::point();
            r
        }
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
            sim::point();
            self.0.try_recv()
        }
        pub fn blocking_recv(&mut self) -> Result<T, error::RecvError> {
            if sim::tearing() {
                return Err(error::RecvError::Closed);
            }
            sim::point();
            sim::block_on_or(self.0.recv(), || Err(error::RecvError::Closed))
        }
        pub fn resubscribe(&self) -> Receiver<T> {
            Receiver(self.0.resubscribe())
        }
    }
}
