import hashlib

seed("c01-max-depth-sign", "C01",
     [("blake2b/src/lib.rs", "^ (self.max_depth as u64) << 24", "^ ((self.max_depth as i32) << 24) as u64")],
     '''
fn main() {
    let h = blake2b_simd::Params::new().fanout(0).max_depth(255).hash(b"abc").to_hex();
    assert_eq!(&h[..], "%s");
    let h = blake2b_simd::Params::new().fanout(0).max_depth(127).hash(b"abc").to_hex();
    assert_eq!(&h[..], "%s");
}
''' % (hashlib.blake2b(b'abc', depth=255, fanout=0).hexdigest(), hashlib.blake2b(b'abc', depth=127, fanout=0).hexdigest()),
     "max_depth of 128 or more (255 means unlimited)",
     "a cast through i32 sign-extends the depth into the leaf-length bytes of the parameter block, so the digest is not the specified one")

seed("c02-short-salt", "C02",
     [("blake2s/src/lib.rs", "self.salt[..salt.len()].copy_from_slice(salt);", "self.salt[SALTBYTES - salt.len()..].copy_from_slice(salt);")],
     '''
fn main() {
    let h = blake2s_simd::Params::new().salt(b"ab").hash(b"abc").to_hex();
    assert_eq!(&h[..], "%s");
}
''' % hashlib.blake2s(b'abc', salt=b'ab').hexdigest(),
     "a salt shorter than 8 bytes",
     "short salts are padded on the left instead of the right, so the digest is not the specified one")

seed("c04-sp-oneshot-length", "C04",
     [("blake2s/src/blake2sp.rs", '''        // Hash each leaf into the root.
        finalize_root_words(
            &leaf_words,
            &mut root_words,
            self.hash_length,''', '''        // Hash each leaf into the root.
        finalize_root_words(
            &leaf_words,
            &mut root_words,
            OUTBYTES as u8,''')],
     '''
fn main() {
    let mut p = blake2s_simd::blake2sp::Params::new();
    p.hash_length(16);
    let a = p.hash(b"hello");
    let b = p.to_state().update(b"hello").finalize();
    assert_eq!(a.as_bytes(), b.as_bytes());
    assert_eq!(a.as_bytes().len(), 16);
}
''',
     "one-shot BLAKE2sp without a key and with a digest length below 32",
     "the returned digest has 32 bytes instead of the length asked for")

seed("c05-bp-half-buffer", "C05",
     [("blake2b/src/blake2bp.rs", '''        if self.buf_len > 0 {
            self.fill_buf(&mut input);
            // The buffer is large''', '''        if self.buf_len as usize == DEGREE * BLOCKBYTES && input.len() >= (DEGREE - 1) * BLOCKBYTES {
            // The buffer holds exactly one round of blocks, and the leaves get more input after it.
            // Compress it right here, without filling up the second half first.
            Self::compress_to_leaves(
                &mut self.leaf_words,
                &self.buf[..DEGREE * BLOCKBYTES],
                &mut self.count,
                self.implementation,
            );
            self.buf_len = 0;
        }
        if self.buf_len > 0 {
            self.fill_buf(&mut input);
            // The buffer is large''')],
     '''
fn main() {
    let input: Vec<u8> = (0..896u32).map(|i| (i * 7) as u8).collect();
    let once = blake2b_simd::blake2bp::blake2bp(&input);
    for split in [0usize, 1, 511, 512, 513, 895] {
        let mut s = blake2b_simd::blake2bp::State::new();
        s.update(&input[..split]);
        s.update(&input[split..]);
        assert_eq!(s.finalize(), once, "split at {}", split);
    }
}
''',
     "exactly 4 blocks buffered (4 blocks fed, or a fresh keyed state), then an update of exactly 3 blocks",
     "the last leaf is compressed too early and finalized with an empty block, so the digest depends on the split")

seed("c06-many-count-u16", "C06",
     [("blake2s/src/many.rs", "state.count = state.count.wrapping_add(blocks.len() as Count);", "state.count = state.count.wrapping_add(blocks.len() as u16 as Count);")],
     '''
use blake2s_simd::{many::update_many, State};
fn main() {
    for n in [1000usize, 65536, 65537, 70000] {
        let a = vec![1u8; n];
        let b = vec![2u8; 300];
        let mut states = [State::new(), State::new()];
        update_many(states.iter_mut().zip([&a[..], &b[..]].iter()));
        assert_eq!(states[0].count(), n as u64, "count for {}", n);
        assert_eq!(states[0].finalize(), blake2s_simd::blake2s(&a), "digest for {}", n);
        assert_eq!(states[1].finalize(), blake2s_simd::blake2s(&b));
    }
}
''',
     "an input of more than 64 KiB given to update_many",
     "the byte count of the hasher is truncated, so count and digest differ from a separate update")

seed("c07-rerun", "C07",
     [("blake2s/src/many.rs", "filter(|j| !j.finished);", "filter(|j| !(j.finished && j.input.is_empty()));")],
     '''
use blake2s_simd::{many::{hash_many, HashManyJob}, Params};
fn main() {
    let p = Params::new();
    let mut jobs = [HashManyJob::new(&p, b"foo"), HashManyJob::new(&p, b"barbar"), HashManyJob::new(&p, b"")];
    hash_many(jobs.iter_mut());
    let first: Vec<_> = jobs.iter().map(|j| j.to_hash()).collect();
    hash_many(jobs.iter_mut());
    for (j, h) in jobs.iter().zip(&first) {
        assert_eq!(&j.to_hash(), h);
    }
    assert_eq!(first[0], blake2s_simd::blake2s(b"foo"));
}
''',
     "hash_many run a second time over a finished job with a non-empty input",
     "the finished job is compressed again from its final words, so its digest changes")

seed("c08-nostd-avx", "C08",
     [("blake2b/src/guts.rs", '#[cfg(target_feature = "avx2")]', '#[cfg(target_feature = "avx")]')],
     '''
fn main() {
    // built for a CPU with AVX but without AVX2, without run-time detection
    assert_eq!(blake2b_simd::many::degree(), 2, "AVX2 code selected without AVX2");
    println!("{}", blake2b_simd::blake2b(b"abc").to_hex());
}
''',
     "a no_std build for a CPU with AVX but without AVX2 (-C target-feature=+avx)",
     "the AVX2 implementation is selected on CPUs that lack it",
     feat=', default-features = false', env='\nexport RUSTFLAGS="-C target-feature=+avx"')

seed("c09-personal-override", "C09",
     [("blake2s/src/lib.rs", "        self.personal = [0; PERSONALBYTES];\n", "")],
     '''
use blake2s_simd::Params;
fn main() {
    let a = Params::new().personal(b"longer").personal(b"ab").hash(b"x");
    let b = Params::new().personal(b"ab").hash(b"x");
    assert_eq!(a, b);
}
''',
     "personal() called twice, the second string shorter",
     "bytes of the earlier personalisation string survive")

seed("c10-sp-keyed-count", "C10",
     [("blake2s/src/blake2sp.rs", '''        if self.is_keyed {
            ret -= (DEGREE * BLOCKBYTES) as Count;
        }''', '''        if self.is_keyed && self.count == 0 {
            ret -= (DEGREE * BLOCKBYTES) as Count;
        }''')],
     '''
fn main() {
    let mut s = blake2s_simd::blake2sp::Params::new().key(b"k").to_state();
    s.update(b"abc");
    assert_eq!(s.count(), 3);
    s.update(&[0; 5000]);
    assert_eq!(s.count(), 5003);
}
''',
     "count() of a keyed BLAKE2sp hasher that has compressed its key blocks (more than 512 bytes fed)",
     "the key blocks are counted as input")

seed("c11-eq-prefix", "C11",
     [("blake2b/src/lib.rs", "constant_time_eq::constant_time_eq(&self.as_bytes(), other)", "other.len() <= OUTBYTES && constant_time_eq::constant_time_eq(&self.bytes[..other.len()], other)")],
     '''
use blake2b_simd::{blake2b, Params};
fn main() {
    let h = blake2b(b"x");
    assert!(h == h.as_bytes()[..]);
    assert!(!(h == h.as_bytes()[..10]));
    assert!(!(h == [][..]));
    let s = Params::new().hash_length(8).hash(b"x");
    assert!(s == s.as_bytes()[..]);
    assert!(!(s == s.as_bytes()[..7]));
}
''',
     "a digest compared with a byte string of another length",
     "a proper prefix of the digest, or the empty string, compares equal to it")

seed("c12-overread", "C12",
     [("blake2s/src/guts.rs", '''        buffer[..offset_slice.len()].copy_from_slice(offset_slice);
        (buffer, offset_slice.len(), true)''', '''        // Copy whole words and clear what is not input, which is faster than a byte-wise copy.
        let padded = (offset_slice.len() + size_of::<Word>() - 1) / size_of::<Word>() * size_of::<Word>();
        unsafe {
            core::ptr::copy_nonoverlapping(offset_slice.as_ptr(), buffer.as_mut_ptr(), padded);
        }
        for b in &mut buffer[offset_slice.len()..padded] {
            *b = 0;
        }
        (buffer, offset_slice.len(), true)''')],
     '''
fn main() {
    // exactly sized heap buffers, under valgrind
    for n in [1usize, 5, 61, 67] {
        let v: Vec<u8> = vec![7; n].into_boxed_slice().into_vec();
        println!("{}", blake2s_simd::blake2s(&v).to_hex());
    }
}
''',
     "an input whose length is not a multiple of 4, at the end of its allocation",
     "up to 3 bytes after the caller's buffer are read (the digest stays right)",
     run="valgrind -q --error-exitcode=9 %(t)s/target/%(rel)s/demo")

seed("c13-alternate-debug", "C13",
     [("blake2b/src/lib.rs", '''        // NB: Don't print the words. Leaking them would allow length extension.
        write!(
            f,
            "State {{ count: {}, hash_length: {}, last_node: {} }}",''', '''        if f.alternate() {
            return f
                .debug_struct("State")
                .field("count", &self.count())
                .field("hash_length", &self.hash_length)
                .field("last_node", &self.last_node.yes())
                .field("buffered", &&self.buf[..self.buflen as usize])
                .finish();
        }
        // NB: Don't print the words. Leaking them would allow length extension.
        write!(
            f,
            "State {{ count: {}, hash_length: {}, last_node: {} }}",''')],
     '''
use blake2b_simd::Params;
fn main() {
    let f = |k: &[u8], m: &[u8]| {
        let mut s = Params::new().key(k).to_state();
        s.update(m);
        (format!("{:?}", s), format!("{:#?}", s))
    };
    assert_eq!(f(b"aaaa", b""), f(b"bbbb", b""));
    assert_eq!(f(b"aaaa", b"xyz"), f(b"bbbb", b"123"));
}
''',
     "{:#?} of a hasher with buffered key or message bytes",
     "the alternate Debug form prints the buffer, which holds the key of a fresh keyed hasher")

seed("c14-buffered-carry", "C14",
     [("blake2s/src/lib.rs", '''                self.count = self.count.wrapping_add(BLOCKBYTES as Count);
                self.buflen = 0;''', '''                // Only the low word needs to advance for a single block.
                self.count = (self.count & !0xffff_ffff)
                    | (self.count as Word).wrapping_add(BLOCKBYTES as Word) as Count;
                self.buflen = 0;''')],
     '''
fn main() {
    // 2^32 - 64 bytes, then 64 buffered, then one more: the buffered block crosses 2^32
    let chunk = vec![0u8; 1 << 20];
    let mut s = blake2s_simd::State::new();
    let total: u64 = (1 << 32) - 64;
    let mut fed = 0u64;
    while fed < total {
        let n = std::cmp::min(chunk.len() as u64, total - fed) as usize;
        s.update(&chunk[..n]);
        fed += n as u64;
    }
    s.update(&chunk[..64]);
    s.update(&chunk[..1]);
    assert_eq!(s.count(), (1u64 << 32) + 1);
}
''',
     "a block that was buffered by an earlier update and that ends exactly at 2^32 bytes of input",
     "the carry into the high word of the byte counter is lost", flags="--release")

seed("c15-eq-early-exit", "C15",
     [("blake2s/src/lib.rs", '''impl PartialEq for Hash {
    fn eq(&self, other: &Hash) -> bool {
''', '''impl PartialEq for Hash {
    fn eq(&self, other: &Hash) -> bool {
        // Most unequal digests differ in the first word already.
        if self.len >= 4 && other.len >= 4 && self.bytes[..4] != other.bytes[..4] {
            return false;
        }
''')],
     '''
use blake2s_simd::Hash;
#[inline(never)]
fn probe(a: &Hash, b: &Hash) -> bool {
    a == b
}
fn main() {
    let mut x = [0u8; 32];
    let a = Hash::from(x);
    let at: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    x[at] = 1;
    let b = Hash::from(x);
    let mut n = 0;
    for _ in 0..100000 {
        n += probe(std::hint::black_box(&a), std::hint::black_box(&b)) as u32;
    }
    assert_eq!(n, 0);
}
''',
     "two digests of the same length that differ in the first four bytes",
     "the comparison returns early, so its duration tells whether the first bytes agree",
     flags="--release",
     run='''c() { valgrind --tool=callgrind --callgrind-out-file=/dev/null %(t)s/target/%(rel)s/demo $1 2>&1 | sed -n 's/.*Collected : //p'; }
a=$(c 0); b=$(c 31); d=$((a - b)); d=${d#-}
echo "instructions: $a, $b"
[ -n "$a" ] && [ "$d" -lt 50000 ]''')

seed("c16-clone-buffer", "C16",
     [("blake2s/src/blake2sp.rs", '''#[derive(Clone)]
pub struct State {''', '''pub struct State {'''),
      ("blake2s/src/blake2sp.rs", '''impl State {
    /// Equivalent to `State::default()`''', '''impl Clone for State {
    fn clone(&self) -> Self {
        // After the first compression only the front half of the buffer is in use; don't copy the rest.
        let mut buf = [0; 2 * DEGREE * BLOCKBYTES];
        let used = if self.count > 0 { buf.len() / 2 } else { buf.len() };
        buf[..used].copy_from_slice(&self.buf[..used]);
        Self {
            leaf_words: self.leaf_words,
            root_words: self.root_words,
            buf,
            buf_len: self.buf_len,
            count: self.count,
            hash_length: self.hash_length,
            implementation: self.implementation,
            is_keyed: self.is_keyed,
        }
    }
}

impl State {
    /// Equivalent to `State::default()`''')],
     '''
fn main() {
    let data = vec![9u8; 1800];
    for n in [100usize, 600, 1024, 1025, 1100, 1600, 1800] {
        let mut s = blake2s_simd::blake2sp::State::new();
        s.update(&data[..n]);
        assert_eq!(s.clone().finalize(), s.finalize(), "{}", n);
    }
}
''',
     "a clone of a BLAKE2sp hasher that has compressed something and holds more than 8 blocks in its buffer",
     "the clone loses the second half of the buffer and its digest differs")

cliseed("c17-short-read", "C17",
     [("blake2_bin/src/main.rs", '''            Ok(n) => state.update(&buf[..n]),
''', '''            Ok(n) => {
                state.update(&buf[..n]);
                // The last chunk is the only one that does not fill the buffer, so there is no need to ask for more.
                if n < buf.len() && n % 4096 != 0 {
                    return Ok(());
                }
            }
''')],
     '''
a=$( (printf abc; sleep 1; printf def) | $b --length=16 )
echo "$a"
[ "$a" = 2465e7ee63a17b4b307c7792c432aef6 ]
''',
     "input that arrives in several short reads, as from a pipe",
     "everything after the first short read is missing from the digest")

cliseed("c17-exit-status", "C17",
     [("blake2_bin/src/main.rs", '''                Ok(hash) => {
                    if opt.inputs.len() > 1 {''', '''                Ok(hash) => {
                    failed = false;
                    if opt.inputs.len() > 1 {''')],
     '''
printf abc > f
$b --length=16 f missing; x=$?
$b --length=16 missing f; y=$?
echo $x $y
[ $x != 0 ] && [ $y != 0 ]
''',
     "several files, of which one that cannot be read is followed by one that can",
     "the exit status reports success although a file has no digest")

cliseed("c17-interrupted", "C17",
     [("blake2_bin/src/main.rs", '''    let mut buf = [0; 32768];
    loop {
        match reader.read(&mut buf) {
            Ok(0) => return Ok(()),
            Ok(n) => state.update(&buf[..n]),
            Err(e) => {
                if e.kind() != io::ErrorKind::Interrupted {
                    return Err(e);
                }
            }
        }
    }''', '''    let mut buf = [0; 32768];
    loop {
        // Fill the whole buffer before hashing it, so that the hasher gets long inputs.
        let mut filled = 0;
        let mut eof = false;
        while filled < buf.len() {
            match reader.read(&mut buf[filled..]) {
                Ok(0) => {
                    eof = true;
                    break;
                }
                Ok(n) => filled += n,
                Err(e) => {
                    if e.kind() != io::ErrorKind::Interrupted {
                        return Err(e);
                    }
                    filled = 0;
                }
            }
        }
        state.update(&buf[..filled]);
        if eof {
            return Ok(());
        }
    }''')],
     '''
cat > run.py <<'P'
import os, signal, subprocess, sys, time
# a read that a signal interrupts: the demo's own library answers the second read with EINTR
open("eintr.c", "w").write(r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
ssize_t read(int fd, void *p, size_t n) {
    static int k;
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    if (fd == 0 && n > 1000 && ++k == 2) { errno = EINTR; return -1; }
    if (fd == 0 && n > 1000) n = 3;
    return real(fd, p, n);
}
""")
subprocess.run(["cc", "-shared", "-fPIC", "-o", "eintr.so", "eintr.c", "-ldl"], check=True)
e = dict(os.environ, LD_PRELOAD=os.path.abspath("eintr.so"))
o = subprocess.run([sys.argv[1], "--length=16"], input=b"abcdef", stdout=subprocess.PIPE, env=e).stdout.decode().strip()
print(o)
sys.exit(o != "2465e7ee63a17b4b307c7792c432aef6")
P
python3 run.py $b
''',
     "a read that is interrupted after an earlier short read",
     "the bytes of the earlier reads are dropped from the digest")

cliseed("c17-mmap-trunc", "C17",
     [("blake2_bin/src/main.rs", '''    unsafe { memmap::MmapOptions::new().len(len as usize).map(file) }''', '''    // Let the hash function see whole words in large files.
    let mapped = if len > 4096 { (len + 7) & !7 } else { len };
    unsafe { memmap::MmapOptions::new().len(mapped as usize).map(file) }''')],
     '''
head -c 5001 /dev/zero | tr '\\0' x > f
x=$($b f); y=$($b --mmap f)
echo "$x $y"
[ "$x" = "$y" ]
''',
     "--mmap with a file longer than a page whose length is not a multiple of 8",
     "the digest covers the zero bytes after the end of the file")

cliseed("c17-second-file-state", "C17",
     [("blake2_bin/src/main.rs", '''fn hash_file(opt: &Opt, params: &Params, path: &Path) -> Result<String, Error> {
    let mut state = params.to_state();
    let mut file = File::open(path)?;''', '''fn hash_file(opt: &Opt, fresh: &mut State, path: &Path) -> Result<String, Error> {
    let mut file = File::open(path)?;
    let mut scratch;
    // The last hash can use up the fresh state itself.
    let state = if opt.mmap || opt.parallel {
        scratch = fresh.clone();
        &mut scratch
    } else {
        fresh
    };'''),
      ("blake2_bin/src/main.rs", '''        state.update(&map);
    } else {
        read_write_all(&mut file, &mut state)?;''', '''        state.update(&map);
    } else {
        read_write_all(&mut file, state)?;'''),
      ("blake2_bin/src/main.rs", '''        for input in &opt.inputs {
            match hash_file(&opt, &params, input) {''', '''        let mut fresh = params.to_state();
        for (i, input) in opt.inputs.iter().enumerate() {
            let result = if i + 1 < opt.inputs.len() && i % 2 == 0 {
                hash_file(&opt, &mut fresh.clone(), input)
            } else {
                hash_file(&opt, &mut fresh, input)
            };
            match result {''')],
     '''
printf a > x; printf b > y; printf c > z
$b x y z | cut -d' ' -f1 > out
for f in x y z; do $b $f; done > want
cmp out want
''',
     "three or more files, serial hash function, no --mmap",
     "the digest of the third file also covers the second")

seed("c14-update-u32", "C14",
     [("blake2b/src/lib.rs", "self.count = self.count.wrapping_add(end as Count);", "self.count = self.count.wrapping_add(end as u32 as Count);")],
     '''
use blake2b_simd::State;
fn main() {
    let data = vec![0u8; (1 << 32) + 1000];
    let mut a = State::new();
    a.update(&data);
    let mut b = State::new();
    for c in data.chunks(1 << 30) {
        b.update(c);
    }
    assert_eq!(a.count(), b.count());
    assert_eq!(a.finalize(), b.finalize());
}
''',
     "a single update of at least 2^32 bytes",
     "the byte counter drops the upper half of the length of the update",
     flags="--release")
seed("c10-bp-count-u16", "C10",
     [("blake2b/src/blake2bp.rs", "*count = count.wrapping_add((input.len() / DEGREE) as Count);", "*count = count.wrapping_add((input.len() / DEGREE) as u16 as Count);")],
     '''
use blake2b_simd::blake2bp::State;
fn main() {
    let data = vec![7u8; 300_000];
    let mut a = State::new();
    a.update(&data);
    assert_eq!(a.count(), 300_000);
    let mut b = State::new();
    for c in data.chunks(1000) {
        b.update(c);
    }
    assert_eq!(a.finalize(), b.finalize());
}
''',
     "one update of at least 256 KiB to the tree hasher",
     "the per-leaf byte counter loses the upper bits of the length of the update: count() and the digest are wrong")
seed("c14-s-count-high", "C14",
     [("blake2s/src/guts.rs", "(count >> 8 * size_of::<Word>()) as Word", "(count >> 8 * size_of::<u16>()) as Word")],
     '''
use blake2s_simd::blake2s;
fn main() {
    // BLAKE2s of 100000 zero bytes (Python hashlib)
    let want = "%s";
    assert_eq!(blake2s(&vec![0u8; 100_000]).to_hex().as_str(), want);
}
''' % hashlib.blake2s(bytes(100000)).hexdigest(),
     "more than 2^16 bytes in one hash",
     "the upper counter word is no longer zero below 2^32 bytes; all code paths agree on the wrong digest")
seed("c03-hash-u16", "C03",
     [("blake2b/src/blake2bp.rs", "let input_start = cmp::min(input.len(), i * BLOCKBYTES);", "let input_start = cmp::min(input.len() as u16 as usize, i * BLOCKBYTES);")],
     '''
use blake2b_simd::blake2bp;
fn main() {
    let data: Vec<u8> = (0..65536 + 100).map(|i: u32| (i % 251) as u8).collect();
    let mut s = blake2bp::State::new();
    for c in data.chunks(1000) {
        s.update(c);
    }
    assert_eq!(blake2bp::blake2bp(&data), s.finalize());
}
''',
     "an all-at-once tree hash of an input just over a multiple of 64 KiB",
     "several leaves start at the same place of the input")
seed("c05-bulk-boundary", "C05",
     [("blake2b/src/lib.rs", """        let mut end = input.len().saturating_sub(1);
        end -= end % BLOCKBYTES;
        if end > 0 {
            self.implementation""", """        let mut end = if input.len() > 1 << 20 {
            // Large inputs go straight through, without the detour over the buffer.
            input.len()
        } else {
            input.len().saturating_sub(1)
        };
        end -= end % BLOCKBYTES;
        if end > 0 {
            self.implementation""")],
     '''
use blake2b_simd::State;
fn main() {
    let data = vec![1u8; (1 << 20) + 1280];
    let mut a = State::new();
    a.update(&data);
    let mut b = State::new();
    for c in data.chunks(1000) {
        b.update(c);
    }
    assert_eq!(a.finalize(), b.finalize());
}
''',
     "the last update is longer than 1 MiB and ends at a multiple of the block length",
     "the last block is compressed as if more input followed, so the digest is wrong")
seed("c04-sp-long-oneshot", "C04",
     [("blake2s/src/blake2sp.rs", "let input_start = cmp::min(input.len(), i * BLOCKBYTES);", "let input_start = cmp::min(input.len() & 0xFFF_FFFF, i * BLOCKBYTES);")],
     '''
use blake2s_simd::blake2sp;
fn main() {
    let data: Vec<u8> = (0..(1u32 << 28) + 100).map(|i| (i % 251) as u8).collect();
    let mut s = blake2sp::State::new();
    for c in data.chunks(1 << 20) {
        s.update(c);
    }
    assert_eq!(blake2sp::blake2sp(&data), s.finalize());
}
''',
     "an all-at-once BLAKE2sp hash of an input just over a multiple of 256 MiB",
     "several leaves start at the same place of the input", flags="--release")
