//! Type-level stand-in only: HTTP transport is outside every verified property.
#[derive(Debug)] pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("http") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub struct Client; pub struct ClientBuilder; pub struct RequestBuilder; pub struct Response;
impl Client {
    pub fn new() -> Client { Client }
    pub fn builder() -> ClientBuilder { ClientBuilder }
    pub fn get<U>(&self, _u: U) -> RequestBuilder { RequestBuilder }
}
impl ClientBuilder { pub fn timeout(self, _d: std::time::Duration) -> Self { self } pub fn build(self) -> Result<Client> { Ok(Client) } }
impl RequestBuilder { pub async fn send(self) -> Result<Response> { Err(Error) } }
impl Response { pub async fn bytes(self) -> Result<Vec<u8>> { Err(Error) } pub async fn text(self) -> Result<String> { Err(Error) } }
