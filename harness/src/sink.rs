//! Writers that count, fail or accept only part of what they are given

use jpeg_encoder::*;

/// kinds of errors, without Interrupted, which asks for another attempt
pub const ERRORS: usize = 27;

pub struct Sink {
    pub data: Vec<u8>,
    /// calls that were made
    pub calls: usize,
    pub flushes: usize,
    /// length of the data when it was last flushed
    pub flushed: usize,
    /// bytes that are accepted before everything fails
    pub accept: usize,
    /// call that fails as interrupted, or accepts only one byte
    pub odd_call: usize,
    pub odd_interrupted: bool,
    pub odd_done: bool,
    /// longest accepted write
    pub chunk: usize,
    /// a full writer accepts 0 bytes instead of failing
    pub zero: bool,
    pub flush_fails: bool,
    /// which error a failure is
    pub code: usize,
    pub failed: bool,
    pub after: usize,
}

impl Sink {
    pub fn new() -> Sink {
        Sink {
            data: Vec::with_capacity(8192),
            calls: 0,
            flushes: 0,
            flushed: usize::MAX,
            accept: usize::MAX,
            odd_call: usize::MAX,
            odd_interrupted: false,
            odd_done: false,
            chunk: usize::MAX,
            zero: false,
            flush_fails: false,
            code: 0,
            failed: false,
            after: 0,
        }
    }

    /// number of accepted bytes
    #[inline(always)]
    fn take(&mut self, buf: &[u8]) -> Option<usize> {
        self.calls += 1;
        if self.failed {
            self.after += 1;
            return None;
        }
        let mut n = buf.len();
        if n > self.chunk {
            n = self.chunk;
        }
        let end = self.data.len() + n;
        if self.accept < end {
            // one path for each number of bytes that still fit
            n = crate::rt::concretize((self.accept - self.data.len()) as u64) as usize;
        }
        self.data.extend_from_slice(&buf[..n]);
        if n == 0 && buf.len() > 0 {
            self.failed = true;
            self.code = self.data.len() % ERRORS;
            return None;
        }
        Some(n)
    }
}

#[cfg(feature = "std")]
fn error(code: usize) -> std::io::Error {
    use std::io::ErrorKind::*;
    std::io::Error::from(
        [
            Other, BrokenPipe, PermissionDenied, WouldBlock, UnexpectedEof, OutOfMemory, NotFound, ConnectionRefused,
            ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, AlreadyExists, InvalidInput,
            InvalidData, TimedOut, WriteZero, Unsupported, StorageFull, FileTooLarge, ReadOnlyFilesystem, QuotaExceeded,
            NetworkDown, Deadlock, ResourceBusy, NotSeekable,
        ][code],
    )
}

#[cfg(feature = "std")]
impl std::io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if !self.odd_done && self.calls >= self.odd_call {
            self.odd_done = true;
            if self.odd_interrupted {
                self.calls += 1;
                return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
            } else if buf.len() > 1 {
                return Ok(self.take(&buf[..1]).unwrap_or(0));
            }
        }
        match self.take(buf) {
            Some(n) => Ok(n),
            None if self.zero => Ok(0),
            None => Err(error(self.code)),
        }
    }

    fn flush(&mut self) -> std::io::Result<()> {
        self.flushes += 1;
        if self.flush_fails {
            return Err(error(self.code));
        }
        self.flushed = self.data.len();
        Ok(())
    }
}

#[cfg(not(feature = "std"))]
impl JfifWrite for Sink {
    fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
        match self.take(buf) {
            Some(n) if n == buf.len() => Ok(()),
            _ => {
                self.failed = true;
                Err(EncodingError::Write(String::from("sink")))
            }
        }
    }

    fn flush(&mut self) -> Result<(), EncodingError> {
        self.flushes += 1;
        if self.flush_fails {
            return Err(EncodingError::Write(String::from("sink")));
        }
        self.flushed = self.data.len();
        Ok(())
    }
}

/// The error is the one the sink returned
#[cfg(feature = "std")]
pub fn is_ours(e: &EncodingError, s: &Sink) -> bool {
    match e {
        EncodingError::IoError(e) => {
            // the standard library returns its own constant for writers that accept nothing
            s.zero || {
                let ours = error(s.code);
                let (a, b): (usize, usize) = unsafe { (core::mem::transmute_copy(e), core::mem::transmute_copy(&ours)) };
                a == b
            }
        }
        _ => false,
    }
}

#[cfg(not(feature = "std"))]
pub fn is_ours(e: &EncodingError, _s: &Sink) -> bool {
    match e {
        EncodingError::Write(s) => s == "sink",
        _ => false,
    }
}

/// A writer that collects what it is given, as std::io::BufWriter does. What is left when it is dropped is
/// written without telling anybody about errors.
#[cfg(feature = "std")]
pub struct Buffered<'a> {
    pub to: &'a mut Sink,
    pub buffer: Vec<u8>,
    pub size: usize,
}

#[cfg(feature = "std")]
impl<'a> Buffered<'a> {
    fn empty(&mut self) -> std::io::Result<()> {
        let b = core::mem::take(&mut self.buffer);
        std::io::Write::write_all(self.to, &b)
    }
}

#[cfg(feature = "std")]
impl<'a> std::io::Write for Buffered<'a> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.buffer.len() + buf.len() > self.size {
            self.empty()?;
        }
        self.buffer.extend_from_slice(buf);
        Ok(buf.len())
    }

    fn flush(&mut self) -> std::io::Result<()> {
        self.empty()?;
        std::io::Write::flush(self.to)
    }
}

#[cfg(feature = "std")]
impl<'a> Drop for Buffered<'a> {
    fn drop(&mut self) {
        let _ = self.empty();
    }
}
