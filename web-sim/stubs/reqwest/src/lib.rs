//! Stand-in for reqwest: requests are answered by the simulator.
use serde::{de::DeserializeOwned, Serialize};
use std::fmt;
use std::future::Future;
use std::pin::Pin;

pub mod sim {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct Request {
        pub method: String,
        pub url: String,
        pub headers: Vec<(String, String)>,
        pub body: Option<Vec<u8>>,
    }
    pub struct Answer {
        pub status: u16,
        pub body: Pin<Box<dyn Future<Output = Result<Vec<u8>, String>>>>,
    }
    pub type Pending = Pin<Box<dyn Future<Output = Result<Answer, String>>>>;
    /// The network of a tool that runs as a process of its own: REQWEST_NET names a file with one answer
    /// per line, "METHOD url\tsteps before the answer\tsteps before the end\tstatus or refused\twhole|cut|broken\tfile of the body";
    /// what happens is appended to REQWEST_LOG. Steps are polls of the request.
    pub(crate) fn process_net() -> std::rc::Rc<dyn Fn(Request) -> Pending> {
        use std::io::Write;
        fn log(line: String) {
            if let Some(p) = std::env::var_os("REQWEST_LOG") {
                let mut f = std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap();
                f.write_all(line.as_bytes()).unwrap();
            }
        }
        struct Steps(u64);
        impl Future for Steps {
            type Output = ();
            fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
                if self.0 == 0 {
                    return std::task::Poll::Ready(());
                }
                self.0 -= 1;
                cx.waker().wake_by_ref();
                std::task::Poll::Pending
            }
        }
        std::rc::Rc::new(|r: Request| {
            let key = format!("{} {}", r.method, r.url);
            let body = r.body.as_deref().map(|b| String::from_utf8_lossy(b).escape_default().to_string()).unwrap_or_default();
            log(format!("start\t{key}\t{body}\n"));
            let net = std::fs::read_to_string(std::env::var_os("REQWEST_NET").expect("no network")).unwrap();
            /// the request is over when this goes
            struct Open(String, &'static str);
            impl Drop for Open {
                fn drop(&mut self) {
                    log(format!("end\t{}\t{}\n", self.0, self.1));
                }
            }
            let answer: Option<Vec<String>> = net.lines().map(|l| l.split('\t').map(|x| x.to_string()).collect::<Vec<_>>()).find(|f| f[0] == key);
            let open = Open(key, "dropped");
            Box::pin(async move {
                let mut open = open;
                let Some(a) = answer else {
                    open.1 = "unknown";
                    return Err("no such host".into());
                };
                Steps(a[1].parse().unwrap()).await;
                let Ok(status) = a[3].parse() else {
                    open.1 = "refused";
                    return Err("connection refused".into());
                };
                Ok(Answer {
                    status,
                    body: Box::pin(async move {
                        let mut open = open;
                        Steps(a[2].parse().unwrap()).await;
                        open.1 = "answered";
                        let mut b = std::fs::read(&a[5]).unwrap();
                        match a[4].as_str() {
                            "broken" => return Err("connection closed before message completed".into()),
                            "cut" => b.truncate(b.len() / 2),
                            _ => {}
                        }
                        Ok(b)
                    }),
                })
            })
        })
    }
    thread_local!(pub(crate) static NET: std::cell::RefCell<Option<std::rc::Rc<dyn Fn(Request) -> Pending>>> = const { std::cell::RefCell::new(None) });
    pub fn set(f: impl Fn(Request) -> Pending + 'static) {
        NET.with(|n| *n.borrow_mut() = Some(std::rc::Rc::new(f)));
    }
    /// the simulation has one thread
    pub(crate) struct Single<F>(pub F);
    unsafe impl<F> Send for Single<F> {}
    impl<F: Future + Unpin> Future for Single<F> {
        type Output = F::Output;
        fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
            Pin::new(&mut self.0).poll(cx)
        }
    }
}
use sim::Single;

#[derive(Debug)]
pub struct Error {
    what: String,
    kind: Kind,
}
#[derive(Debug, PartialEq)]
enum Kind {
    Builder,
    Request,
    Body,
    Decode,
    Status(u16),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} error: {}", self.kind, self.what)
    }
}
impl std::error::Error for Error {}
impl Error {
    fn new(kind: Kind, what: impl fmt::Display) -> Self {
        Error { what: what.to_string(), kind }
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn is_decode(&self) -> bool {
        self.kind == Kind::Decode
    }
    pub fn is_request(&self) -> bool {
        self.kind == Kind::Request
    }
    pub fn is_body(&self) -> bool {
        self.kind == Kind::Body
    }
    pub fn is_builder(&self) -> bool {
        self.kind == Kind::Builder
    }
    pub fn is_timeout(&self) -> bool {
        false
    }
    pub fn is_connect(&self) -> bool {
        false
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(StatusCode(s)),
            _ => None,
        }
    }
}
pub type Result<T, E = Error> = std::result::Result<T, E>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        (500..600).contains(&self.0)
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client;
#[derive(Debug, Default)]
pub struct ClientBuilder;
impl ClientBuilder {
    pub fn new() -> Self {
        ClientBuilder
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn connect_timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client)
    }
}
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder
    }
    pub fn get<U: AsRef<str>>(&self, url: U) -> RequestBuilder {
        self.request("GET", url)
    }
    pub fn post<U: AsRef<str>>(&self, url: U) -> RequestBuilder {
        self.request("POST", url)
    }
    fn request<U: AsRef<str>>(&self, method: &str, url: U) -> RequestBuilder {
        let url = url.as_ref().to_string();
        let rest = url.strip_prefix("http://").or_else(|| url.strip_prefix("https://"));
        let bad = rest.map_or(true, |r| {
            let host = r.split(['/', '?', '#']).next().unwrap();
            host.is_empty() || host.contains([' ', '<', '>', '^', '|', '"'])
        });
        RequestBuilder {
            r: if bad { Err(Error::new(Kind::Builder, "relative URL without a base, or invalid host")) } else { Ok(sim::Request { method: method.into(), url, headers: vec![], body: None }) },
        }
    }
}
pub struct RequestBuilder {
    r: Result<sim::Request>,
}
impl RequestBuilder {
    pub fn json<T: Serialize + ?Sized>(mut self, x: &T) -> Self {
        match (&mut self.r, serde_json::to_vec(x)) {
            (Ok(r), Ok(b)) => {
                r.headers.push(("content-type".into(), "application/json".into()));
                r.body = Some(b);
            }
            (Ok(_), Err(e)) => self.r = Err(Error::new(Kind::Builder, e)),
            _ => {}
        }
        self
    }
    pub fn body(mut self, x: impl Into<Vec<u8>>) -> Self {
        if let Ok(r) = &mut self.r {
            r.body = Some(x.into());
        }
        self
    }
    pub fn header(mut self, k: &str, v: &str) -> Self {
        if let Ok(r) = &mut self.r {
            r.headers.push((k.to_lowercase(), v.into()));
        }
        self
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn send(self) -> impl Future<Output = Result<Response>> + Send {
        Single(Box::pin(async move {
            let r = self.r?;
            let net = sim::NET.with(|n| n.borrow().clone()).unwrap_or_else(sim::process_net);
            match net(r.clone()).await {
                Ok(a) => Ok(Response { status: a.status, body: Single(a.body) }),
                Err(e) => Err(Error::new(Kind::Request, e)),
            }
        }))
    }
}
pub struct Response {
    status: u16,
    body: Single<Pin<Box<dyn Future<Output = std::result::Result<Vec<u8>, String>>>>>,
}
impl fmt::Debug for Response {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Response({})", self.status)
    }
}
impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode(self.status)
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status >= 400 {
            return Err(Error::new(Kind::Status(self.status), self.status));
        }
        Ok(self)
    }
    pub async fn text(self) -> Result<String> {
        let b = self.body.await.map_err(|e| Error::new(Kind::Body, e))?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        self.body.await.map_err(|e| Error::new(Kind::Body, e))
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        let b = self.body.await.map_err(|e| Error::new(Kind::Body, e))?;
        serde_json::from_slice(&b).map_err(|e| Error::new(Kind::Decode, e))
    }
}
pub async fn get<U: AsRef<str>>(url: U) -> Result<Response> {
    Client::new().get(url).send().await
}
