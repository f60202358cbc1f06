//! A custom external base-data source (not a file): bytes held by the simulator, faults injected.
use crate::fs::{self, Class, Kind};
use crate::sched;
use anyhow::{anyhow, Result};
use std::io::Read;

pub struct Src;
impl Read for Src {
    fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "sequential reads are not supported"))
    }
}
static mut DATA: Vec<u8> = Vec::new();
/// Position of the first byte of `DATA`; zeros before it.
static mut BASE: usize = 0;
pub fn set(d: Vec<u8>) {
    set_at(d, 0)
}
pub fn set_at(d: Vec<u8>, base: usize) {
    unsafe {
        DATA = d;
        BASE = base;
    }
}
/// how the source reports less data than asked: 0 = short count, 1 = error
#[allow(static_mut_refs)]
pub fn read(start: usize, end: usize, buf: &mut [u8], _s: &Src) -> Result<usize> {
    sched::point();
    let d = unsafe { &DATA };
    let want = end - start;
    let base = unsafe { BASE };
    if start < base {
        buf[..want].fill(0);
        return Ok(want);
    }
    let start = start - base;
    if start >= d.len() {
        return Ok(0);
    }
    let mut n = want.min(d.len() - start);
    if sched::active() {
        match fs::fs().decide(Class::Source) {
            Some(Kind::Errno(_)) => return Err(anyhow!("injected source error")),
            Some(Kind::Short(p)) => n = n.min(want * p as usize / 1000),
            _ => {}
        }
    }
    buf[..n].copy_from_slice(&d[start..start + n]);
    sched::point();
    Ok(n)
}
