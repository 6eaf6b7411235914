//! Stand-in for ckb-std on the host: the two syscalls the verifier uses, served
//! from a thread-local transaction, and recorded.
use std::cell::RefCell;

pub mod ckb_constants {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Source {
        Input,
        Output,
        CellDep,
        HeaderDep,
        GroupInput,
        GroupOutput,
    }
}

pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SysError {
        IndexOutOfBound,
        ItemMissing,
        LengthNotEnough(usize),
        Encoding,
        Unknown(u64),
    }
}

#[derive(Default)]
pub struct Host {
    pub witnesses: Vec<Vec<u8>>,
    pub loads: Vec<(usize, usize)>,
    pub log: Vec<String>,
}

thread_local! {
    pub static HOST: RefCell<Host> = RefCell::new(Host::default());
}

pub mod syscalls {
    use super::ckb_constants::Source;
    pub use super::error::SysError;
    use super::HOST;

    pub fn debug(s: String) {
        HOST.with(|h| h.borrow_mut().log.push(s))
    }

    /// As the CKB VM does: copies what fits, and reports the full length as an
    /// error if the buffer is too short.
    pub fn load_witness(buf: &mut [u8], offset: usize, index: usize, source: Source) -> Result<usize, SysError> {
        HOST.with(|h| {
            let mut h = h.borrow_mut();
            // one input: Input and GroupInput witnesses are the transaction's witnesses by index
            if !matches!(source, Source::Input | Source::GroupInput) || index >= h.witnesses.len() {
                return Err(SysError::IndexOutOfBound);
            }
            let w = h.witnesses[index].clone();
            if offset > w.len() {
                return Err(SysError::Unknown(3));
            }
            let rest = &w[offset..];
            let n = rest.len().min(buf.len());
            buf[..n].copy_from_slice(&rest[..n]);
            h.loads.push((index, rest.len()));
            if rest.len() > buf.len() {
                Err(SysError::LengthNotEnough(rest.len()))
            } else {
                Ok(rest.len())
            }
        })
    }
}

#[macro_export]
macro_rules! entry {
    ($($t:tt)*) => {};
}

#[macro_export]
macro_rules! default_alloc {
    ($($t:tt)*) => {
        extern crate alloc;
    };
}
