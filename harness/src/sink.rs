//! Sinks with scripted behaviour, and a log of every call they receive.
//!
//!   s:R,R,...   responses to the first write calls, then accept everything
//!   c:R,R,...   the same, repeated for ever
//!               R = number (accept at most that many bytes) | a (all) | i (Interrupted) | e (error)
//!   f@N  F@N    accept N bytes in total, then fail once / for ever
//!   z@N         accept N bytes in total, then accept nothing once (Ok(0))
//!   i@N         accept N bytes in total, then report Interrupted once
//!   flush       fail the flush
//!   k:K         failures are of this kind (see `kind`), k:osN that error of the operating system
//!   log         record the calls

use std::cell::RefCell;
use std::io::{Error, ErrorKind, Result, Write};
use std::rc::Rc;

#[derive(Clone)]
enum Resp { Take(usize), Interrupt, Fail, Zero }

struct Inner {
    data: Vec<u8>,
    script: Vec<Resp>,
    cycle: bool,
    at: usize,
    limit: Option<(usize, Resp, bool)>, // position, response, forever
    fail_flush: bool,
    kind: ErrorKind,
    os: Option<i32>,
    log_on: bool,
    log: Vec<(i64, i64)>,
    flushed: bool,
}

impl Inner {
    fn error(&self) -> Error {
        match self.os {
            Some(n) => Error::from_raw_os_error(n),
            None => Error::new(self.kind, "scripted"),
        }
    }
}

pub struct State(Rc<RefCell<Inner>>);
pub struct Sink(Rc<RefCell<Inner>>);

fn kind(k: &str) -> ErrorKind {
    match k {
        "other" => ErrorKind::Other,
        "block" => ErrorKind::WouldBlock,
        "pipe" => ErrorKind::BrokenPipe,
        "time" => ErrorKind::TimedOut,
        "eof" => ErrorKind::UnexpectedEof,
        "zero" => ErrorKind::WriteZero,
        "perm" => ErrorKind::PermissionDenied,
        "full" => ErrorKind::StorageFull,
        "data" => ErrorKind::InvalidData,
        "input" => ErrorKind::InvalidInput,
        "reset" => ErrorKind::ConnectionReset,
        "abort" => ErrorKind::ConnectionAborted,
        "exists" => ErrorKind::AlreadyExists,
        "found" => ErrorKind::NotFound,
        "none" => ErrorKind::Unsupported,
        "mem" => ErrorKind::OutOfMemory,
        _ => panic!("kind {}", k),
    }
}

impl State {
    pub fn new(spec: &[String]) -> State {
        let mut s = Inner {
            data: vec![], script: vec![], cycle: false, at: 0, limit: None,
            fail_flush: false, kind: ErrorKind::Other, os: None, log_on: false, log: vec![], flushed: false,
        };
        for x in spec {
            if x == "log" {
                s.log_on = true;
            } else if x.starts_with("k:") {
                match x.strip_prefix("k:os") {
                    Some(n) => s.os = Some(n.parse().unwrap()),
                    None => s.kind = kind(&x[2..]),
                }
            } else if x == "flush" {
                s.fail_flush = true;
            } else if x.starts_with("s:") || x.starts_with("c:") {
                s.cycle = x.starts_with("c:");
                s.script = x[2..].split(',').map(|r| match r {
                    "a" => Resp::Take(usize::MAX),
                    "i" => Resp::Interrupt,
                    "e" => Resp::Fail,
                    n => Resp::Take(n.parse().unwrap()),
                }).collect();
            } else if let Some((k, n)) = x.split_once('@') {
                let r = match k {
                    "f" | "F" => Resp::Fail,
                    "z" => Resp::Zero,
                    "i" => Resp::Interrupt,
                    _ => panic!("sink {}", x),
                };
                s.limit = Some((n.parse().unwrap(), r, k == "F"));
            } else if x != "mem" {
                panic!("sink {}", x);
            }
        }
        State(Rc::new(RefCell::new(s)))
    }

    pub fn sink(&self) -> Sink { Sink(self.0.clone()) }
    pub fn len(&self) -> usize { self.0.borrow().data.len() }
    pub fn bytes(&self) -> Vec<u8> { self.0.borrow().data.clone() }
    pub fn flushed_at_end(&self) -> bool { self.0.borrow().flushed }
    pub fn take_log(&self) -> Vec<(i64, i64)> { std::mem::take(&mut self.0.borrow_mut().log) }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut s = self.0.borrow_mut();
        let mut resp = Resp::Take(usize::MAX);
        if s.at < s.script.len() {
            resp = s.script[s.at].clone();
            s.at += 1;
            if s.cycle && s.at == s.script.len() { s.at = 0; }
        }
        let mut n = match resp {
            Resp::Take(k) => k.min(buf.len()),
            _ => 0,
        };
        if let Some((pos, r, forever)) = s.limit.clone() {
            if s.data.len() >= pos && !buf.is_empty() {
                resp = r;
                if !forever { s.limit = None; }
            } else {
                n = n.min(pos - s.data.len().min(pos));
            }
        }
        let (ret, code) = match resp {
            Resp::Take(_) => (Ok(n), n as i64),
            Resp::Zero => (Ok(0), 0),
            Resp::Interrupt => (Err(if buf.len() % 2 == 0 { Error::new(ErrorKind::Interrupted, "scripted") } else { Error::from_raw_os_error(4) }), -1),
            Resp::Fail => (Err(s.error()), -2),
        };
        if let Ok(k) = ret {
            s.data.extend_from_slice(&buf[..k]);
            if k > 0 { s.flushed = false; }
        }
        if s.log_on { s.log.push((buf.len() as i64, code)); }
        ret
    }

    fn flush(&mut self) -> Result<()> {
        let mut s = self.0.borrow_mut();
        if s.fail_flush {
            if s.log_on { s.log.push((-1, -2)); }
            return Err(s.error());
        }
        s.flushed = true;
        if s.log_on { s.log.push((-1, 0)); }
        Ok(())
    }
}
