//! Writers that accept part of what they are given, are interrupted or fail, as planned.
use std::{
    fmt,
    io::{self, Write},
};

use serde_json::Value;

#[derive(Default)]
pub struct Plan {
    /// How many bytes each call accepts in turn; 0 for all of them
    sizes: Vec<usize>,
    /// The calls that are interrupted
    interrupted: Vec<usize>,
    /// The call that fails, and how
    fail: Option<(usize, String)>,
    /// The number of bytes after which no more are accepted
    room: Option<usize>,
    /// Whether all later calls fail as well
    sticky: bool,
    flush: bool,
    pub got: Vec<u8>,
    pub calls: usize,
    /// Whether a failure was given to the caller
    pub failed: bool,
    /// The bytes that were accepted after the failure
    pub after: usize,
}

fn numbers(value: &Value) -> Vec<usize> {
    value
        .as_array()
        .map(|a| a.iter().filter_map(|n| n.as_u64().map(|n| n as usize)).collect())
        .unwrap_or_default()
}

/// A thousandth of `length`
fn part(value: &Value, length: usize) -> Option<usize> {
    value.as_u64().map(|n| length * (n as usize) / 1000)
}

impl Plan {
    /// `length` is that of the complete output
    pub fn new(value: &Value, length: usize) -> Self {
        Self {
            room: part(&value["part"], length),
            sizes: numbers(&value["sizes"]),
            interrupted: numbers(&value["interrupted"]),
            fail: value["kind"].as_str().map(|kind| {
                let at = value["fail"].as_u64().map_or(usize::MAX, |at| at as usize);
                (at, kind.to_string())
            }),
            sticky: value["sticky"].as_bool().unwrap_or(true),
            flush: value["flush"].as_bool().unwrap_or(false),
            ..Self::default()
        }
    }

    fn error(kind: &str) -> io::Result<usize> {
        Err(io::Error::new(
            match kind {
                "pipe" => io::ErrorKind::BrokenPipe,
                "full" => io::ErrorKind::StorageFull,
                "block" => io::ErrorKind::WouldBlock,
                "timeout" => io::ErrorKind::TimedOut,
                "reset" => io::ErrorKind::ConnectionReset,
                "aborted" => io::ErrorKind::ConnectionAborted,
                "denied" => io::ErrorKind::PermissionDenied,
                "eof" => io::ErrorKind::UnexpectedEof,
                "invalid" => io::ErrorKind::InvalidInput,
                "zero" => return Ok(0),
                _ => io::ErrorKind::Other,
            },
            "planned",
        ))
    }
}

impl Write for Plan {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupted.contains(&call) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let full = self.room.is_some_and(|room| self.got.len() >= room);
        if let Some((at, kind)) = &self.fail
            && ((call >= *at || full) && (self.sticky || !self.failed))
        {
            let kind = kind.clone();
            self.failed = true;
            return Self::error(&kind);
        }
        let limit = match self.sizes.len() {
            0 => 0,
            n => self.sizes[call % n],
        };
        let n = if limit == 0 { buf.len() } else { buf.len().min(limit) };
        let n = match self.room {
            Some(room) if !full => n.min(room - self.got.len()),
            _ => n,
        };
        self.got.extend_from_slice(&buf[..n]);
        if self.failed {
            self.after += n;
        }
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        if self.flush {
            self.failed = true;
            return Err(io::Error::other("planned"));
        }
        Ok(())
    }
}

#[derive(Default)]
pub struct FmtPlan {
    fail: Option<usize>,
    sticky: bool,
    pub got: String,
    pub calls: usize,
    pub failed: bool,
    pub after: usize,
}

impl FmtPlan {
    /// `calls` is the number of calls for the complete output
    pub fn new(value: &Value, calls: usize) -> Self {
        Self {
            fail: part(&value["part"], calls),
            sticky: value["sticky"].as_bool().unwrap_or(true),
            ..Self::default()
        }
    }
}

impl fmt::Write for FmtPlan {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let call = self.calls;
        self.calls += 1;
        if self.fail.is_some_and(|at| call >= at) && (self.sticky || !self.failed) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        if self.failed {
            self.after += s.len();
        }
        Ok(())
    }
}
