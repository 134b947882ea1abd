//! Type-level stand-in only: port mapping is outside every verified property.
pub enum PortMappingProtocol { TCP, UDP }
#[derive(Default)] pub struct SearchOptions;
pub struct Gateway;
pub fn search_gateway(_o: SearchOptions) -> std::io::Result<Gateway> { Ok(Gateway) }
impl Gateway {
    pub fn add_any_port(&self, _p: PortMappingProtocol, _a: std::net::SocketAddrV4, _d: u32, _s: &str) -> std::io::Result<u16> { Ok(0) }
}
