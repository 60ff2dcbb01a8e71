//! Stand-in for reqwest, used by the symbolically executed build and by the
//! native replay build: the harness decides what becomes of a request, which
//! fails unless it says otherwise. Only the slice of the interface papyri uses
//! (plus near neighbours) is provided.
use std::fmt;
extern "C" {
    fn net_send(url: *const u8, len: usize) -> bool;
    fn net_text(out: &mut Vec<u8>) -> bool;
}
pub struct Error(());
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("network error") }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("network error") }
}
impl std::error::Error for Error {}
impl Error {
    pub fn is_timeout(&self) -> bool { false }
    pub fn is_connect(&self) -> bool { false }
    pub fn is_builder(&self) -> bool { false }
    pub fn is_redirect(&self) -> bool { false }
    pub fn is_request(&self) -> bool { false }
    pub fn is_body(&self) -> bool { false }
    pub fn is_decode(&self) -> bool { false }
    pub fn is_status(&self) -> bool { false }
    pub fn without_url(self) -> Error { self }
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn is_success(&self) -> bool { self.0 / 100 == 2 }
    pub fn is_redirection(&self) -> bool { self.0 / 100 == 3 }
    pub fn is_client_error(&self) -> bool { self.0 / 100 == 4 }
    pub fn is_server_error(&self) -> bool { self.0 / 100 == 5 }
}
pub type Result<T> = std::result::Result<T, Error>;
pub mod blocking {
    use super::{Error, Result, StatusCode};
    #[derive(Clone, Default)]
    pub struct Client(());
    #[derive(Default)]
    pub struct ClientBuilder(());
    pub struct RequestBuilder(String);
    pub struct Response(());
    impl Client {
        pub fn new() -> Client { Client(()) }
        pub fn builder() -> ClientBuilder { ClientBuilder(()) }
        pub fn get<U: AsRef<str>>(&self, url: U) -> RequestBuilder { RequestBuilder(url.as_ref().to_string()) }
        pub fn head<U: AsRef<str>>(&self, url: U) -> RequestBuilder { self.get(url) }
        pub fn post<U: AsRef<str>>(&self, url: U) -> RequestBuilder { self.get(url) }
    }
    impl ClientBuilder {
        pub fn new() -> ClientBuilder { ClientBuilder(()) }
        pub fn user_agent<U>(self, _ua: U) -> ClientBuilder { self }
        pub fn timeout<T>(self, _t: T) -> ClientBuilder { self }
        pub fn connect_timeout<T>(self, _t: T) -> ClientBuilder { self }
        pub fn redirect<T>(self, _t: T) -> ClientBuilder { self }
        pub fn default_headers<T>(self, _t: T) -> ClientBuilder { self }
        pub fn build(self) -> Result<Client> { Ok(Client(())) }
    }
    impl RequestBuilder {
        pub fn header<K, V>(self, _k: K, _v: V) -> RequestBuilder { self }
        pub fn timeout<T>(self, _t: T) -> RequestBuilder { self }
        pub fn send(self) -> Result<Response> { if unsafe { super::net_send(self.0.as_ptr(), self.0.len()) } { Ok(Response(())) } else { Err(Error(())) } }
    }
    impl Response {
        pub fn text(self) -> Result<String> { let mut b = vec![]; if unsafe { super::net_text(&mut b) } { Ok(unsafe { String::from_utf8_unchecked(b) }) } else { Err(Error(())) } }
        pub fn text_with_charset(self, _default: &str) -> Result<String> { self.text() }
        pub fn bytes(self) -> Result<Vec<u8>> { self.text().map(String::into_bytes) }
        pub fn status(&self) -> StatusCode { StatusCode::OK }
        pub fn content_length(&self) -> Option<u64> { None }
        pub fn error_for_status(self) -> Result<Response> { Ok(self) }
        pub fn error_for_status_ref(&self) -> Result<&Response> { Ok(self) }
    }
}
