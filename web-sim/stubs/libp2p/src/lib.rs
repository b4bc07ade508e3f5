//! Stand-in for libp2p: connections and streams are the simulator's.
pub use futures;
pub use libp2p_derive::NetworkBehaviour;

use std::fmt;
use std::str::FromStr;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PeerId(pub String);
impl fmt::Debug for PeerId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "PeerId({})", self.0)
    }
}
impl fmt::Display for PeerId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl From<identity::PublicKey> for PeerId {
    fn from(k: identity::PublicKey) -> Self {
        PeerId(format!("peer{}", k.0))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Multiaddr(String);
impl fmt::Display for Multiaddr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl FromStr for Multiaddr {
    type Err = multiaddr::Error;
    fn from_str(s: &str) -> Result<Self, multiaddr::Error> {
        let e = multiaddr::Error::ParsingError;
        let mut parts = s.split('/');
        if parts.next() != Some("") || s.len() < 2 {
            return Err(e);
        }
        while let Some(p) = parts.next() {
            let mut arg = || parts.next().ok_or(multiaddr::Error::InvalidMultiaddr);
            match p {
                "ip4" => drop(arg()?.parse::<std::net::Ipv4Addr>().map_err(|_| e.clone())?),
                "ip6" => drop(arg()?.parse::<std::net::Ipv6Addr>().map_err(|_| e.clone())?),
                "dns" | "dns4" | "dns6" | "dnsaddr" | "unix" => drop(arg()?),
                "tcp" | "udp" => drop(arg()?.parse::<u16>().map_err(|_| e.clone())?),
                "p2p" => drop(bs58::decode(arg()?).into_vec().map_err(|_| e.clone())?),
                "ws" | "wss" | "http" | "https" | "quic" | "p2p-circuit" => {}
                _ => return Err(multiaddr::Error::UnknownProtocolString(p.into())),
            }
        }
        Ok(Multiaddr(s.into()))
    }
}
pub mod multiaddr {
    pub use super::Multiaddr;
    #[derive(Clone, Debug)]
    pub enum Error {
        ParsingError,
        InvalidMultiaddr,
        UnknownProtocolString(String),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
}

pub mod identity {
    #[derive(Clone, Debug)]
    pub struct PublicKey(pub u64);
    #[derive(Clone, Debug)]
    pub struct Keypair(u64);
    impl Keypair {
        pub fn generate_ed25519() -> Self {
            Keypair(super::sim::next_key())
        }
        pub fn public(&self) -> PublicKey {
            PublicKey(self.0)
        }
    }
}

pub mod pnet {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PreSharedKey(pub [u8; 32]);
    impl PreSharedKey {
        pub const fn new(x: [u8; 32]) -> Self {
            PreSharedKey(x)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PnetConfig {
        key: PreSharedKey,
    }
    impl PnetConfig {
        pub fn new(key: PreSharedKey) -> Self {
            PnetConfig { key }
        }
        pub fn handshake<S>(self, _: S) -> PreSharedKey {
            self.key
        }
    }
}
pub mod mplex {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct MplexConfig {
        pub(crate) protocol_name: Vec<u8>,
    }
    impl MplexConfig {
        pub fn new() -> Self {
            MplexConfig { protocol_name: b"/mplex/6.7.0".to_vec() }
        }
        pub fn set_protocol_name(&mut self, n: &'static [u8]) -> &mut Self {
            self.protocol_name = n.to_vec();
            self
        }
    }
    impl Default for MplexConfig {
        fn default() -> Self {
            Self::new()
        }
    }
}
pub mod noise {
    use super::identity;
    use std::marker::PhantomData;
    #[derive(Clone, Debug)]
    pub struct X25519Spec;
    #[derive(Clone, Debug)]
    pub struct NoiseError;
    pub struct Keypair<T>(PhantomData<T>);
    impl<T> Keypair<T> {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Keypair(PhantomData)
        }
        pub fn into_authentic(self, k: &identity::Keypair) -> Result<AuthenticKeypair<T>, NoiseError> {
            Ok(AuthenticKeypair(k.public(), PhantomData))
        }
    }
    #[derive(Clone)]
    pub struct AuthenticKeypair<T>(identity::PublicKey, PhantomData<T>);
    pub struct NoiseConfig<T>(AuthenticKeypair<T>);
    pub struct NoiseAuthenticated(pub identity::PublicKey);
    impl<T> NoiseConfig<T> {
        pub fn xx(k: AuthenticKeypair<T>) -> Self {
            NoiseConfig(k)
        }
        pub fn into_authenticated(self) -> NoiseAuthenticated {
            NoiseAuthenticated(self.0 .0)
        }
    }
}
pub mod wasm_ext {
    pub struct ExtTransport;
    impl ExtTransport {
        pub fn new(_: ffi::Transport) -> Self {
            ExtTransport
        }
    }
    impl crate::Transport for ExtTransport {}
    pub mod ffi {
        pub struct Transport;
        pub fn websocket_transport() -> Transport {
            Transport
        }
    }
}
/// What is negotiated before there is a connection.
pub struct Socket;
pub struct ConnectedPoint;
pub trait Transport: Sized {
    fn and_then<F: FnOnce(Socket, ConnectedPoint) -> pnet::PreSharedKey>(self, f: F) -> core::transport::Shared {
        core::transport::Shared(f(Socket, ConnectedPoint))
    }
}
pub use core::transport::Boxed;
pub mod core {
    pub trait ProtocolName {
        fn protocol_name(&self) -> &[u8];
    }
    pub mod muxing {
        #[derive(Clone, Debug)]
        pub struct StreamMuxerBox;
    }
    pub mod upgrade {
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub enum Version {
            V1,
            V1Lazy,
        }
    }
    pub mod transport {
        use crate::{identity::PublicKey, mplex::MplexConfig, noise::NoiseAuthenticated, pnet::PreSharedKey};
        use std::time::Duration;
        pub struct Shared(pub PreSharedKey);
        pub struct Builder(PreSharedKey);
        pub struct Authenticated(PreSharedKey, PublicKey);
        pub struct Multiplexed(Setup);
        /// how this end goes about a connection
        #[derive(Clone, Debug)]
        pub struct Setup {
            pub psk: [u8; 32],
            pub key: PublicKey,
            pub mplex: Vec<u8>,
            pub timeout: Option<Duration>,
        }
        impl Shared {
            pub fn upgrade(self, _: super::upgrade::Version) -> Builder {
                Builder(self.0)
            }
        }
        impl Builder {
            pub fn authenticate(self, n: NoiseAuthenticated) -> Authenticated {
                Authenticated(self.0, n.0)
            }
        }
        impl Authenticated {
            pub fn multiplex(self, m: MplexConfig) -> Multiplexed {
                Multiplexed(Setup { psk: self.0 .0, key: self.1, mplex: m.protocol_name, timeout: None })
            }
        }
        impl Multiplexed {
            pub fn timeout(mut self, d: Duration) -> Self {
                self.0.timeout = Some(d);
                self
            }
            pub fn boxed<O>(self) -> Boxed<O> {
                Boxed(self.0, std::marker::PhantomData)
            }
        }
        pub struct Boxed<O>(pub(crate) Setup, std::marker::PhantomData<O>);
    }
}

pub mod request_response {
    use crate::{core::ProtocolName, sim, PeerId};
    use async_trait::async_trait;
    use futures::{AsyncRead, AsyncWrite};
    use std::fmt::Debug;
    use std::future::Future;
    use std::io;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use std::time::Duration;

    #[derive(Clone, Debug)]
    pub enum ProtocolSupport {
        Inbound,
        Outbound,
        Full,
    }
    #[derive(Clone, Debug)]
    pub struct RequestResponseConfig {
        timeout: Duration,
    }
    impl Default for RequestResponseConfig {
        fn default() -> Self {
            RequestResponseConfig { timeout: Duration::from_secs(10) }
        }
    }
    impl RequestResponseConfig {
        pub fn set_request_timeout(&mut self, d: Duration) -> &mut Self {
            self.timeout = d;
            self
        }
        pub fn set_connection_keep_alive(&mut self, _: Duration) -> &mut Self {
            self
        }
    }
    #[async_trait]
    pub trait RequestResponseCodec {
        type Protocol: ProtocolName + Send + Clone;
        type Request: Send;
        type Response: Send;
        async fn read_request<T>(&mut self, p: &Self::Protocol, io: &mut T) -> io::Result<Self::Request>
        where
            T: AsyncRead + Unpin + Send;
        async fn read_response<T>(&mut self, p: &Self::Protocol, io: &mut T) -> io::Result<Self::Response>
        where
            T: AsyncRead + Unpin + Send;
        async fn write_request<T>(&mut self, p: &Self::Protocol, io: &mut T, r: Self::Request) -> io::Result<()>
        where
            T: AsyncWrite + Unpin + Send;
        async fn write_response<T>(&mut self, p: &Self::Protocol, io: &mut T, r: Self::Response) -> io::Result<()>
        where
            T: AsyncWrite + Unpin + Send;
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct RequestId(pub u64);
    #[derive(Debug)]
    pub enum RequestResponseMessage<Q, R> {
        Request { request_id: RequestId, request: Q },
        Response { request_id: RequestId, response: R },
    }
    #[derive(Clone, Debug)]
    pub enum OutboundFailure {
        DialFailure,
        Timeout,
        ConnectionClosed,
        UnsupportedProtocols,
    }
    #[derive(Debug)]
    pub enum RequestResponseEvent<Q, R> {
        Message { peer: PeerId, message: RequestResponseMessage<Q, R> },
        OutboundFailure { peer: PeerId, request_id: RequestId, error: OutboundFailure },
    }
    type Served<R> = Pin<Box<dyn Future<Output = Result<R, OutboundFailure>>>>;
    pub struct RequestResponse<C: RequestResponseCodec> {
        codec: C,
        protocols: Vec<C::Protocol>,
        timeout: Duration,
        next: u64,
        pending: Vec<(PeerId, RequestId, Served<C::Response>)>,
    }
    impl<C> RequestResponse<C>
    where
        C: RequestResponseCodec + Clone + 'static,
        C::Protocol: 'static,
        C::Request: 'static,
    {
        pub fn new<I: IntoIterator<Item = (C::Protocol, ProtocolSupport)>>(codec: C, p: I, cfg: RequestResponseConfig) -> Self {
            RequestResponse { codec, protocols: p.into_iter().map(|x| x.0).collect(), timeout: cfg.timeout, next: 0, pending: vec![] }
        }
        pub fn send_request(&mut self, peer: &PeerId, r: C::Request) -> RequestId {
            let id = RequestId(self.next);
            self.next += 1;
            let (mut codec, protocol, timeout) = (self.codec.clone(), self.protocols[0].clone(), self.timeout);
            let who = peer.clone();
            let f: Served<C::Response> = Box::pin(async move {
                let mut io = match sim::open(&who, protocol.protocol_name()).await {
                    Some(io) => io,
                    None => return Err(OutboundFailure::UnsupportedProtocols),
                };
                let talk = async move {
                    codec.write_request(&protocol, &mut io, r).await?;
                    codec.read_response(&protocol, &mut io).await
                };
                let talk: Pin<Box<dyn Future<Output = _>>> = Box::pin(talk);
                match futures::future::select(talk, sim::timer(timeout)).await {
                    futures::future::Either::Left((Ok(x), _)) => Ok(x),
                    futures::future::Either::Left((Err(_), _)) => Err(OutboundFailure::ConnectionClosed),
                    futures::future::Either::Right(_) => Err(OutboundFailure::Timeout),
                }
            });
            self.pending.push((peer.clone(), id, f));
            id
        }
        #[doc(hidden)]
        pub fn sim_poll(&mut self, cx: &mut Context<'_>) -> Option<RequestResponseEvent<C::Request, C::Response>> {
            for k in 0..self.pending.len() {
                if let Poll::Ready(r) = self.pending[k].2.as_mut().poll(cx) {
                    let (peer, request_id, _) = self.pending.remove(k);
                    return Some(match r {
                        Ok(response) => RequestResponseEvent::Message { peer, message: RequestResponseMessage::Response { request_id, response } },
                        Err(error) => RequestResponseEvent::OutboundFailure { peer, request_id, error },
                    });
                }
            }
            None
        }
    }
}

pub mod swarm {
    use crate::{core::muxing::StreamMuxerBox, core::transport::Boxed, sim, Multiaddr, PeerId};
    use futures::stream::{FusedStream, Stream};
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub trait NetworkBehaviour {
        #[doc(hidden)]
        fn sim_poll_fields(&mut self, cx: &mut Context<'_>);
    }
    pub trait NetworkBehaviourEventProcess<E> {
        fn inject_event(&mut self, e: E);
    }
    #[derive(Clone, Debug)]
    pub struct DialError(pub String);
    impl std::fmt::Display for DialError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for DialError {}
    #[derive(Clone, Debug)]
    pub struct ConnectionError(pub String);
    impl std::fmt::Display for ConnectionError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for ConnectionError {}
    #[derive(Clone, Debug)]
    pub enum SwarmEvent {
        Dialing(PeerId),
        ConnectionEstablished { peer_id: PeerId, num_established: u32 },
        ConnectionClosed { peer_id: PeerId, num_established: u32, cause: Option<ConnectionError> },
        OutgoingConnectionError { peer_id: Option<PeerId>, error: DialError },
        NewListenAddr { address: Multiaddr },
    }
    pub struct SwarmBuilder<B> {
        s: Swarm<B>,
    }
    impl<B: NetworkBehaviour + Unpin> SwarmBuilder<B> {
        pub fn new(t: Boxed<(PeerId, StreamMuxerBox)>, b: B, peer: PeerId) -> Self {
            SwarmBuilder { s: Swarm { t, b, peer, id: sim::next_swarm() } }
        }
        pub fn build(self) -> Swarm<B> {
            self.s
        }
    }
    pub struct Swarm<B> {
        t: Boxed<(PeerId, StreamMuxerBox)>,
        b: B,
        peer: PeerId,
        id: u64,
    }
    impl<B: NetworkBehaviour + Unpin> Swarm<B> {
        pub fn dial(&mut self, a: Multiaddr) -> Result<(), DialError> {
            sim::dial(&a.to_string(), &self.t.0, &self.peer, self.id).map_err(DialError)
        }
        pub fn behaviour_mut(&mut self) -> &mut B {
            &mut self.b
        }
        pub fn behaviour(&self) -> &B {
            &self.b
        }
        pub fn local_peer_id(&self) -> &PeerId {
            &self.peer
        }
    }
    impl<B: NetworkBehaviour + Unpin> Stream for Swarm<B> {
        type Item = SwarmEvent;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<SwarmEvent>> {
            self.b.sim_poll_fields(cx);
            sim::poll_event(self.id, cx).map(Some)
        }
    }
    impl<B> Drop for Swarm<B> {
        fn drop(&mut self) {
            sim::gone(self.id)
        }
    }
    impl<B: NetworkBehaviour + Unpin> FusedStream for Swarm<B> {
        fn is_terminated(&self) -> bool {
            false
        }
    }
}

/// The simulator's side
pub mod sim {
    use super::{core::transport::Setup, swarm::SwarmEvent, PeerId};
    use futures::{AsyncRead, AsyncWrite};
    use std::cell::{Cell, RefCell};
    use std::future::Future;
    use std::pin::Pin;
    use std::rc::Rc;
    use std::task::{Context, Poll};
    use std::time::Duration;

    pub trait Io: AsyncRead + AsyncWrite + Unpin {}
    impl<T: AsyncRead + AsyncWrite + Unpin> Io for T {}
    pub trait Net {
        fn dial(&self, a: &str, how: &Setup, me: &PeerId, swarm: u64) -> Result<(), String>;
        fn poll_event(&self, swarm: u64, cx: &mut Context<'_>) -> Poll<SwarmEvent>;
        /// the swarm is gone
        fn gone(&self, swarm: u64);
        fn open(&self, peer: &PeerId, protocol: &[u8]) -> Pin<Box<dyn Future<Output = Option<Box<dyn Io>>>>>;
        fn timer(&self, d: Duration) -> Pin<Box<dyn Future<Output = ()>>>;
    }
    thread_local! {
        static NET: RefCell<Option<Rc<dyn Net>>> = const { RefCell::new(None) };
        static KEYS: Cell<u64> = const { Cell::new(0) };
        static SWARMS: Cell<u64> = const { Cell::new(0) };
    }
    pub fn set(n: Rc<dyn Net>) {
        KEYS.set(0);
        SWARMS.set(0);
        NET.with(|x| *x.borrow_mut() = Some(n));
    }
    fn net() -> Rc<dyn Net> {
        NET.with(|x| x.borrow().clone()).expect("no network")
    }
    pub(crate) fn next_key() -> u64 {
        KEYS.set(KEYS.get() + 1);
        KEYS.get()
    }
    pub(crate) fn next_swarm() -> u64 {
        SWARMS.set(SWARMS.get() + 1);
        SWARMS.get()
    }
    pub(crate) fn dial(a: &str, how: &Setup, me: &PeerId, swarm: u64) -> Result<(), String> {
        net().dial(a, how, me, swarm)
    }
    pub(crate) fn poll_event(swarm: u64, cx: &mut Context<'_>) -> Poll<SwarmEvent> {
        net().poll_event(swarm, cx)
    }
    pub(crate) fn gone(swarm: u64) {
        // the thread may be ending
        if let Ok(Some(n)) = NET.try_with(|x| x.borrow().clone()) {
            n.gone(swarm)
        }
    }
    /// a stream of the one thread
    pub(crate) struct Single(Box<dyn Io>);
    unsafe impl Send for Single {}
    impl AsyncRead for Single {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
            Pin::new(&mut self.0).poll_read(cx, b)
        }
    }
    impl AsyncWrite for Single {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
            Pin::new(&mut self.0).poll_write(cx, b)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Pin::new(&mut self.0).poll_flush(cx)
        }
        fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Pin::new(&mut self.0).poll_close(cx)
        }
    }
    pub(crate) async fn open(peer: &PeerId, protocol: &[u8]) -> Option<Single> {
        net().open(peer, protocol).await.map(Single)
    }
    pub(crate) fn timer(d: Duration) -> Pin<Box<dyn Future<Output = ()>>> {
        net().timer(d)
    }
}
