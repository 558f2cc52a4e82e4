//! C-ABI doorway to the public API of the two library crates.
//!
//! Every entry point only forwards to one public item.  All of them return 0, or 1 if the call
//! panicked (only observable in the native build; the symbolic machine sees panics itself).
//! Results go through out pointers.
#![allow(clippy::missing_safety_doc)]

use core::fmt::Write as _;
use core::slice::from_raw_parts;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Sl {
    p: *const u8,
    n: usize,
}
impl Sl {
    unsafe fn get(&self) -> &'static [u8] {
        from_raw_parts(self.p, self.n)
    }
}

#[inline(always)]
fn guard(f: impl FnOnce()) -> u32 {
    #[cfg(feature = "native")]
    {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(()) => 0,
            Err(_) => 1,
        }
    }
    #[cfg(not(feature = "native"))]
    {
        f();
        0
    }
}

/// text sink of fixed capacity
struct Sink {
    p: *mut u8,
    n: usize,
    cap: usize,
}
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.n + s.len() > self.cap {
            return Err(core::fmt::Error);
        }
        unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(self.n), s.len()) };
        self.n += s.len();
        Ok(())
    }
}
fn show<T: core::fmt::Debug>(x: &T, alt: bool, p: *mut u8, cap: usize) -> usize {
    let mut s = Sink { p, n: 0, cap };
    let r = if alt {
        write!(s, "{:#?}", x)
    } else {
        write!(s, "{:?}", x)
    };
    if r.is_err() {
        usize::MAX
    } else {
        s.n
    }
}

#[cfg(feature = "native")]
#[no_mangle]
pub extern "C" fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

macro_rules! common_state {
    ($pfx:literal, $State:ty, $Hash:ty) => {
        #[export_name = concat!($pfx, "state_new")]
        pub unsafe extern "C" fn state_new(o: *mut $State) -> u32 {
            guard(|| o.write(<$State>::new()))
        }
        #[export_name = concat!($pfx, "state_default")]
        pub unsafe extern "C" fn state_default(o: *mut $State) -> u32 {
            guard(|| o.write(<$State as Default>::default()))
        }
        #[export_name = concat!($pfx, "state_clone")]
        pub unsafe extern "C" fn state_clone(s: &$State, o: *mut $State) -> u32 {
            guard(|| o.write(s.clone()))
        }
        #[export_name = concat!($pfx, "update")]
        pub unsafe extern "C" fn update(s: &mut $State, p: *const u8, n: usize, same: *mut u8) -> u32 {
            guard(|| {
                let a = s as *const $State;
                let r = s.update(from_raw_parts(p, n)) as *const $State;
                same.write((a == r) as u8)
            })
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($pfx, "write")]
        pub unsafe extern "C" fn write(s: &mut $State, p: *const u8, n: usize, o: *mut usize) -> u32 {
            guard(|| {
                o.write(match std::io::Write::write(s, from_raw_parts(p, n)) {
                    Ok(k) => k,
                    Err(_) => usize::MAX,
                })
            })
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($pfx, "write_all")]
        pub unsafe extern "C" fn write_all(s: &mut $State, p: *const u8, n: usize, o: *mut usize) -> u32 {
            guard(|| {
                o.write(match std::io::Write::write_all(s, from_raw_parts(p, n)) {
                    Ok(()) => 0,
                    Err(_) => usize::MAX,
                })
            })
        }
        #[cfg(feature = "std")]
        #[export_name = concat!($pfx, "flush")]
        pub unsafe extern "C" fn flush(s: &mut $State, o: *mut usize) -> u32 {
            guard(|| {
                o.write(match std::io::Write::flush(s) {
                    Ok(()) => 0,
                    Err(_) => usize::MAX,
                })
            })
        }
        #[export_name = concat!($pfx, "finalize")]
        pub unsafe extern "C" fn finalize(s: &$State, o: *mut $Hash) -> u32 {
            guard(|| o.write(s.finalize()))
        }
        /// the count is at most 128 bits wide
        #[export_name = concat!($pfx, "count")]
        pub unsafe extern "C" fn count(s: &$State, o: *mut u128) -> u32 {
            guard(|| o.write(s.count() as u128))
        }
        #[export_name = concat!($pfx, "state_debug")]
        pub unsafe extern "C" fn state_debug(s: &$State, alt: u32, p: *mut u8, cap: usize, o: *mut usize) -> u32 {
            guard(|| o.write(show(s, alt != 0, p, cap)))
        }
    };
}

macro_rules! common_params {
    ($pfx:literal, $Params:ty, $State:ty, $Hash:ty) => {
        #[export_name = concat!($pfx, "params_new")]
        pub unsafe extern "C" fn params_new(o: *mut $Params) -> u32 {
            guard(|| o.write(<$Params>::new()))
        }
        #[export_name = concat!($pfx, "params_default")]
        pub unsafe extern "C" fn params_default(o: *mut $Params) -> u32 {
            guard(|| o.write(<$Params as Default>::default()))
        }
        #[export_name = concat!($pfx, "params_clone")]
        pub unsafe extern "C" fn params_clone(s: &$Params, o: *mut $Params) -> u32 {
            guard(|| o.write(s.clone()))
        }
        #[export_name = concat!($pfx, "hash_length")]
        pub unsafe extern "C" fn hash_length(p: &mut $Params, v: usize) -> u32 {
            guard(|| {
                p.hash_length(v);
            })
        }
        #[export_name = concat!($pfx, "key")]
        pub unsafe extern "C" fn key(p: &mut $Params, k: *const u8, n: usize) -> u32 {
            guard(|| {
                p.key(from_raw_parts(k, n));
            })
        }
        #[export_name = concat!($pfx, "hash")]
        pub unsafe extern "C" fn hash(p: &$Params, i: *const u8, n: usize, o: *mut $Hash) -> u32 {
            guard(|| o.write(p.hash(from_raw_parts(i, n))))
        }
        #[export_name = concat!($pfx, "to_state")]
        pub unsafe extern "C" fn to_state(p: &$Params, o: *mut $State) -> u32 {
            guard(|| o.write(p.to_state()))
        }
        #[export_name = concat!($pfx, "params_debug")]
        pub unsafe extern "C" fn params_debug(s: &$Params, alt: u32, p: *mut u8, cap: usize, o: *mut usize) -> u32 {
            guard(|| o.write(show(s, alt != 0, p, cap)))
        }
    };
}

macro_rules! serial {
    ($m:ident, $pfx:literal, $krate:ident, $free:ident) => {
        pub mod $m {
            use super::*;
            use $krate::many::{self, HashManyJob};
            use $krate::{Hash, Params, State};
            type Job = HashManyJob<'static>;

            common_state!($pfx, State, Hash);
            common_params!($pfx, Params, State, Hash);

            #[export_name = concat!($pfx, "consts")]
            pub unsafe extern "C" fn consts(o: *mut usize) -> u32 {
                let v = [
                    size_of::<Params>(),
                    align_of::<Params>(),
                    size_of::<State>(),
                    align_of::<State>(),
                    size_of::<Hash>(),
                    align_of::<Hash>(),
                    size_of::<Job>(),
                    align_of::<Job>(),
                    $krate::OUTBYTES,
                    $krate::KEYBYTES,
                    $krate::SALTBYTES,
                    $krate::PERSONALBYTES,
                    $krate::BLOCKBYTES,
                    many::MAX_DEGREE,
                ];
                core::ptr::copy_nonoverlapping(v.as_ptr(), o, v.len());
                0
            }
            #[export_name = concat!($pfx, "oneshot")]
            pub unsafe extern "C" fn oneshot(p: *const u8, n: usize, o: *mut Hash) -> u32 {
                guard(|| o.write($krate::$free(from_raw_parts(p, n))))
            }
            #[export_name = concat!($pfx, "salt")]
            pub unsafe extern "C" fn salt(p: &mut Params, k: *const u8, n: usize) -> u32 {
                guard(|| {
                    p.salt(from_raw_parts(k, n));
                })
            }
            #[export_name = concat!($pfx, "personal")]
            pub unsafe extern "C" fn personal(p: &mut Params, k: *const u8, n: usize) -> u32 {
                guard(|| {
                    p.personal(from_raw_parts(k, n));
                })
            }
            #[export_name = concat!($pfx, "fanout")]
            pub unsafe extern "C" fn fanout(p: &mut Params, v: u8) -> u32 {
                guard(|| {
                    p.fanout(v);
                })
            }
            #[export_name = concat!($pfx, "max_depth")]
            pub unsafe extern "C" fn max_depth(p: &mut Params, v: u8) -> u32 {
                guard(|| {
                    p.max_depth(v);
                })
            }
            #[export_name = concat!($pfx, "max_leaf_length")]
            pub unsafe extern "C" fn max_leaf_length(p: &mut Params, v: u32) -> u32 {
                guard(|| {
                    p.max_leaf_length(v);
                })
            }
            #[export_name = concat!($pfx, "node_offset")]
            pub unsafe extern "C" fn node_offset(p: &mut Params, v: u64) -> u32 {
                guard(|| {
                    p.node_offset(v);
                })
            }
            #[export_name = concat!($pfx, "node_depth")]
            pub unsafe extern "C" fn node_depth(p: &mut Params, v: u8) -> u32 {
                guard(|| {
                    p.node_depth(v);
                })
            }
            #[export_name = concat!($pfx, "inner_hash_length")]
            pub unsafe extern "C" fn inner_hash_length(p: &mut Params, v: usize) -> u32 {
                guard(|| {
                    p.inner_hash_length(v);
                })
            }
            #[export_name = concat!($pfx, "last_node")]
            pub unsafe extern "C" fn last_node(p: &mut Params, v: u8) -> u32 {
                guard(|| {
                    p.last_node(v != 0);
                })
            }
            #[export_name = concat!($pfx, "force_portable")]
            pub unsafe extern "C" fn force_portable(p: &mut Params) -> u32 {
                guard(|| $krate::benchmarks::force_portable(p))
            }
            #[export_name = concat!($pfx, "set_last_node")]
            pub unsafe extern "C" fn set_last_node(s: &mut State, v: u8) -> u32 {
                guard(|| {
                    s.set_last_node(v != 0);
                })
            }
            #[export_name = concat!($pfx, "degree")]
            pub unsafe extern "C" fn degree(o: *mut usize) -> u32 {
                guard(|| o.write(many::degree()))
            }
            #[export_name = concat!($pfx, "update_many")]
            pub unsafe extern "C" fn update_many(s: *const *mut State, i: *const Sl, n: usize) -> u32 {
                guard(|| {
                    many::update_many((0..n).map(|k| (&mut **s.add(k), (*i.add(k)).get())))
                })
            }
            #[export_name = concat!($pfx, "job_new")]
            pub unsafe extern "C" fn job_new(p: &Params, i: *const u8, n: usize, o: *mut Job) -> u32 {
                guard(|| o.write(HashManyJob::new(p, from_raw_parts(i, n))))
            }
            #[export_name = concat!($pfx, "job_clone")]
            pub unsafe extern "C" fn job_clone(s: &Job, o: *mut Job) -> u32 {
                guard(|| o.write(s.clone()))
            }
            #[export_name = concat!($pfx, "job_to_hash")]
            pub unsafe extern "C" fn job_to_hash(s: &Job, o: *mut Hash) -> u32 {
                guard(|| o.write(s.to_hash()))
            }
            #[export_name = concat!($pfx, "job_debug")]
            pub unsafe extern "C" fn job_debug(s: &Job, alt: u32, p: *mut u8, cap: usize, o: *mut usize) -> u32 {
                guard(|| o.write(show(s, alt != 0, p, cap)))
            }
            #[export_name = concat!($pfx, "hash_many")]
            pub unsafe extern "C" fn hash_many(j: *const *mut Job, n: usize) -> u32 {
                guard(|| many::hash_many((0..n).map(|k| &mut **j.add(k))))
            }
            // ------------------------------------------------------------ Hash
            #[export_name = concat!($pfx, "as_bytes")]
            pub unsafe extern "C" fn as_bytes(h: &Hash, o: *mut Sl) -> u32 {
                guard(|| {
                    let b = h.as_bytes();
                    o.write(Sl { p: b.as_ptr(), n: b.len() })
                })
            }
            #[export_name = concat!($pfx, "as_ref")]
            pub unsafe extern "C" fn as_ref(h: &Hash, o: *mut Sl) -> u32 {
                guard(|| {
                    let b: &[u8] = h.as_ref();
                    o.write(Sl { p: b.as_ptr(), n: b.len() })
                })
            }
            #[export_name = concat!($pfx, "as_array")]
            pub unsafe extern "C" fn as_array(h: &Hash, o: *mut Sl) -> u32 {
                guard(|| {
                    let b = h.as_array();
                    o.write(Sl { p: b.as_ptr(), n: b.len() })
                })
            }
            #[export_name = concat!($pfx, "to_hex")]
            pub unsafe extern "C" fn to_hex(h: &Hash, p: *mut u8, cap: usize, o: *mut usize) -> u32 {
                guard(|| {
                    let x = h.to_hex();
                    let n = if x.len() < cap { x.len() } else { cap };
                    core::ptr::copy_nonoverlapping(x.as_ptr(), p, n);
                    o.write(x.len())
                })
            }
            #[export_name = concat!($pfx, "hash_debug")]
            pub unsafe extern "C" fn hash_debug(s: &Hash, alt: u32, p: *mut u8, cap: usize, o: *mut usize) -> u32 {
                guard(|| o.write(show(s, alt != 0, p, cap)))
            }
            #[export_name = concat!($pfx, "eq")]
            pub unsafe extern "C" fn eq(a: &Hash, b: &Hash, o: *mut u8) -> u32 {
                guard(|| o.write((a == b) as u8))
            }
            #[export_name = concat!($pfx, "ne")]
            pub unsafe extern "C" fn ne(a: &Hash, b: &Hash, o: *mut u8) -> u32 {
                guard(|| o.write((a != b) as u8))
            }
            #[export_name = concat!($pfx, "eq_slice")]
            pub unsafe extern "C" fn eq_slice(a: &Hash, p: *const u8, n: usize, o: *mut u8) -> u32 {
                guard(|| o.write((a == from_raw_parts(p, n)) as u8))
            }
            #[export_name = concat!($pfx, "from_array")]
            pub unsafe extern "C" fn from_array(p: &[u8; $krate::OUTBYTES], o: *mut Hash) -> u32 {
                guard(|| o.write(Hash::from(*p)))
            }
            #[export_name = concat!($pfx, "from_array_ref")]
            pub unsafe extern "C" fn from_array_ref(p: &[u8; $krate::OUTBYTES], o: *mut Hash) -> u32 {
                guard(|| o.write(Hash::from(p)))
            }
            #[export_name = concat!($pfx, "hash_clone")]
            pub unsafe extern "C" fn hash_clone(h: &Hash, o: *mut Hash) -> u32 {
                guard(|| o.write(h.clone()))
            }
        }
    };
}

macro_rules! parallel {
    ($m:ident, $pfx:literal, $krate:ident, $sub:ident, $fp:ident) => {
        pub mod $m {
            use super::*;
            use $krate::$sub::{Params, State};
            use $krate::Hash;

            common_state!($pfx, State, Hash);
            common_params!($pfx, Params, State, Hash);

            #[export_name = concat!($pfx, "consts")]
            pub unsafe extern "C" fn consts(o: *mut usize) -> u32 {
                let v = [
                    size_of::<Params>(),
                    align_of::<Params>(),
                    size_of::<State>(),
                    align_of::<State>(),
                    size_of::<Hash>(),
                    align_of::<Hash>(),
                ];
                core::ptr::copy_nonoverlapping(v.as_ptr(), o, v.len());
                0
            }
            #[export_name = concat!($pfx, "oneshot")]
            pub unsafe extern "C" fn oneshot(p: *const u8, n: usize, o: *mut Hash) -> u32 {
                guard(|| o.write($krate::$sub::$sub(from_raw_parts(p, n))))
            }
            #[export_name = concat!($pfx, "force_portable")]
            pub unsafe extern "C" fn force_portable(p: &mut Params) -> u32 {
                guard(|| $krate::benchmarks::$fp(p))
            }
        }
    };
}

serial!(b, "b_", blake2b_simd, blake2b);
serial!(s, "s_", blake2s_simd, blake2s);
parallel!(bp, "bp_", blake2b_simd, blake2bp, force_portable_blake2bp);
parallel!(sp, "sp_", blake2s_simd, blake2sp, force_portable_blake2sp);
