pub fn local_ip() -> std::io::Result<std::net::IpAddr> { Ok(std::net::IpAddr::V4(std::net::Ipv4Addr::LOCALHOST)) }
