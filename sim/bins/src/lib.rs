//! The three programs of /repo, entered as functions, plus wrappers that instantiate the library's generic servers
//! (so that their code is compiled here, with pre-emption points).
#![allow(warnings)]
include!(concat!(env!("OUT_DIR"), "/mods.rs"));

use std::net::{IpAddr, Ipv4Addr};

pub fn single_main() { simple_bin::__sim_entry() }
pub fn multi_main() { multi_bin::__sim_entry() }
pub fn async_main() { async_bin::__sim_entry() }

/// The multi-threaded server with other pool sizes than the program's 3 + 3.
pub fn multi_pools(listeners: usize, analyzers: usize, port: usize) {
    let mut c = server::multithreaded::Coordinator::new(listeners, analyzers, IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)), port);
    c.serve();
}
