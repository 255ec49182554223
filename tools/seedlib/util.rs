//! Helpers of the demonstrations: a local server and raw requests to it.
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::time::Duration;

/// Send raw bytes and read everything until the server closes or is quiet for a while.
pub fn raw(addr: SocketAddr, request: &[u8]) -> Vec<u8> {
    let mut s = TcpStream::connect(addr).unwrap();
    s.set_read_timeout(Some(Duration::from_millis(700))).unwrap();
    s.write_all(request).unwrap();
    let mut out = vec![];
    let mut buf = [0; 4096];
    loop {
        match s.read(&mut buf) {
            Ok(0) | Err(_) => break,
            Ok(n) => out.extend_from_slice(&buf[..n]),
        }
    }
    out
}

pub fn get(addr: SocketAddr, target: &str) -> String {
    let r = raw(addr, format!("GET {} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n", target).as_bytes());
    String::from_utf8_lossy(&r).into_owned()
}

pub fn status(response: &str) -> u16 {
    response.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0)
}

pub fn body(response: &str) -> &str {
    response.splitn(2, "\r\n\r\n").nth(1).unwrap_or("")
}

pub fn header(response: &str, name: &str) -> Option<String> {
    let head = response.splitn(2, "\r\n\r\n").next().unwrap_or("");
    head.lines().skip(1).filter_map(|l| {
        let mut p = l.splitn(2, ':');
        let n = p.next()?;
        if n.eq_ignore_ascii_case(name) { Some(p.next()?.trim().to_string()) } else { None }
    }).next()
}

/// Fail the demonstration.
pub fn check(good: bool, what: &str) {
    if !good {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}

pub fn done() -> ! {
    println!("as it should be");
    std::process::exit(0);
}

pub fn local() -> rustful::server::Host {
    (std::net::Ipv4Addr::new(127, 0, 0, 1), 0).into()
}

/// Start a server and tell its address.
pub fn run<H: rustful::handler::HandleRequest + 'static>(server: rustful::Server<H>) -> SocketAddr {
    let l = server.run().unwrap();
    let a = l.socket;
    std::mem::forget(l);
    a
}
