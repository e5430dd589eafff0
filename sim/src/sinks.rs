//! Writers and readers with scripted behaviour.
use crate::rt;
use serde::{Deserialize, Serialize};
use std::fmt;
use std::io;

/// What a scripted text sink does.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct SinkPlan {
    /// index (from 0) of the write call that fails; None: never by count
    pub fail_call: Option<u32>,
    /// the write that would pass this many bytes fails; None: never by size
    pub fail_byte: Option<u32>,
    /// a failing write still accepts as many bytes as fit (fixed-size buffer)
    pub partial: bool,
    /// writes after the failure succeed again
    pub transient: bool,
    /// unwind instead of returning an error
    pub panic: bool,
}

pub struct Sink {
    pub plan: SinkPlan,
    pub got: String,
    pub calls: u32,
    pub failed: bool,
    pub failed_len: usize,
    pub after: u32,
    pub after_text: usize,
}

impl Sink {
    pub fn new(plan: &SinkPlan, cap: usize) -> Self {
        Sink { plan: plan.clone(), got: String::with_capacity(cap), calls: 0, failed: false, failed_len: 0, after: 0, after_text: 0 }
    }
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        rt::point();
        if self.failed {
            self.after += 1;
            self.after_text += s.len();
            return if self.plan.transient { Ok(()) } else { Err(fmt::Error) };
        }
        let call = self.calls;
        self.calls += 1;
        let mut fail = self.plan.fail_call == Some(call);
        let mut room = s.len();
        if let Some(b) = self.plan.fail_byte {
            if self.got.len() + s.len() > b as usize {
                fail = true;
                room = (b as usize).saturating_sub(self.got.len());
            }
        } else if fail {
            room = s.len() / 2;
        }
        if fail {
            if self.plan.partial {
                let mut k = room.min(s.len());
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                rt::harness(|| self.got.push_str(&s[..k]));
            }
            self.failed = true;
            self.failed_len = self.got.len();
            if self.plan.panic {
                std::panic::resume_unwind(Box::new("sink"));
            }
            return Err(fmt::Error);
        }
        rt::harness(|| self.got.push_str(s));
        Ok(())
    }
}

/// One scripted result of a write or read call on a byte stream.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum IoStep {
    /// transfer at most this many bytes
    Short(u32),
    Interrupted,
    /// hard failure with the given kind
    Fail(u8),
    /// report zero bytes
    Zero,
}

pub fn kind(k: u8) -> io::ErrorKind {
    match k % 6 {
        0 => io::ErrorKind::BrokenPipe,
        1 => io::ErrorKind::StorageFull,
        2 => io::ErrorKind::Other,
        3 => io::ErrorKind::PermissionDenied,
        4 => io::ErrorKind::WouldBlock,
        _ => io::ErrorKind::TimedOut,
    }
}

/// A byte stream whose n-th write is governed by the n-th step; afterwards it accepts everything.
pub struct IoSink {
    pub steps: Vec<IoStep>,
    pub at: usize,
    pub got: Vec<u8>,
    pub hard: Option<Option<io::ErrorKind>>,
    pub after: u32,
    pub shorts: u64,
    pub intr: u64,
    pub transient: bool,
    /// failures unwind
    pub unwind: bool,
}

impl IoSink {
    pub fn new(steps: &[IoStep], transient: bool) -> Self {
        IoSink { steps: steps.to_vec(), at: 0, got: Vec::new(), hard: None, after: 0, shorts: 0, intr: 0, transient, unwind: false }
    }
}

impl io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        rt::point();
        if self.unwind && self.hard.is_none() && matches!(self.steps.get(self.at), Some(IoStep::Fail(_))) {
            self.hard = Some(None);
            std::panic::resume_unwind(Box::new("sink"));
        }
        rt::harness(|| {
            if b.is_empty() {
                return Ok(0);
            }
            if let Some(k) = self.hard {
                self.after += 1;
                return if self.transient {
                    Ok(b.len())
                } else {
                    match k {
                        Some(k) => Err(io::Error::from(k)),
                        None => Ok(0),
                    }
                };
            }
            let st = self.steps.get(self.at).cloned();
            self.at += 1;
            match st {
                Some(IoStep::Short(n)) => {
                    let n = (n as usize).clamp(1, b.len());
                    if n < b.len() {
                        self.shorts += 1;
                    }
                    self.got.extend_from_slice(&b[..n]);
                    Ok(n)
                }
                Some(IoStep::Interrupted) => {
                    self.intr += 1;
                    Err(io::Error::from(io::ErrorKind::Interrupted))
                }
                Some(IoStep::Fail(k)) => {
                    self.hard = Some(Some(kind(k)));
                    Err(io::Error::from(kind(k)))
                }
                Some(IoStep::Zero) => {
                    self.hard = Some(None);
                    Ok(0)
                }
                None => {
                    self.got.extend_from_slice(b);
                    Ok(b.len())
                }
            }
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A byte stream delivering `data` the way the steps say.
pub struct IoSource<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub steps: Vec<IoStep>,
    pub at: usize,
    pub hard: bool,
    pub shorts: u64,
    pub intr: u64,
    /// what comes behind the data: the end, a failure, an unwind
    pub at_end: u8,
}

impl<'a> IoSource<'a> {
    pub fn new(data: &'a [u8], steps: &[IoStep]) -> Self {
        IoSource { data, pos: 0, steps: steps.to_vec(), at: 0, hard: false, shorts: 0, intr: 0, at_end: 0 }
    }
}

impl io::Read for IoSource<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        rt::point();
        if self.at_end == 2 && self.pos == self.data.len() {
            std::panic::resume_unwind(Box::new("source"));
        }
        rt::harness(|| {
            let left = self.data.len() - self.pos;
            if left == 0 && self.at_end > 0 {
                return Err(io::Error::from(io::ErrorKind::Other));
            }
            let mut n = left.min(b.len());
            let st = self.steps.get(self.at).cloned();
            self.at += 1;
            match st {
                Some(IoStep::Short(k)) => {
                    let k = (k as usize).max(1);
                    if k < n {
                        self.shorts += 1;
                        n = k;
                    }
                }
                Some(IoStep::Interrupted) => {
                    self.intr += 1;
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                Some(IoStep::Fail(k)) => {
                    self.hard = true;
                    return Err(io::Error::from(kind(k)));
                }
                Some(IoStep::Zero) => {
                    // the stream ends here
                    self.hard = true;
                    self.pos = self.data.len();
                    n = 0;
                }
                None => {}
            }
            b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        })
    }
}
