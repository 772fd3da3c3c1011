//! Stand-in for the BLS library: an ideal signature scheme (one valid signature for each key and
//! message) behind the same interface. Verification is a point at which the scheduler may switch.
pub mod bls12381 {
    pub mod bls {
        use sha2::{Digest, Sha256};
        pub const BLS_OK: isize = 0;
        pub const BLS_FAIL: isize = -1;
        pub const BFS: usize = 48;
        pub const BGS: usize = 48;
        fn expand(tag: &[u8], parts: &[&[u8]], out: &mut [u8]) {
            for (i, c) in out.chunks_mut(32).enumerate() {
                let mut h = Sha256::new();
                h.update(tag);
                h.update([i as u8]);
                for p in parts {
                    h.update((p.len() as u64).to_be_bytes());
                    h.update(p);
                }
                let d = h.finalize();
                c.copy_from_slice(&d[..c.len()]);
            }
            out[0] = out[0] & 0x1f | 0x80;
        }
        pub fn init() -> isize {
            BLS_OK
        }
        /// The secret key is the first half of the public key: only this crate's users hold either.
        pub fn key_pair_generate(ikm: &[u8], s: &mut [u8], w: &mut [u8]) -> isize {
            expand(b"key", &[ikm], &mut w[..96]);
            s[..48].copy_from_slice(&w[..48]);
            BLS_OK
        }
        pub fn core_sign(sig: &mut [u8], m: &[u8], s: &[u8]) -> isize {
            expand(b"sig", &[&s[..48], m], &mut sig[..48]);
            BLS_OK
        }
        pub fn core_verify(sig: &[u8], m: &[u8], w: &[u8]) -> isize {
            parking_lot::sched::point();
            let mut good = [0u8; 48];
            expand(b"sig", &[&w[..48], m], &mut good);
            let mut key = [0u8; 96];
            let known = (0..6u8).any(|i| {
                expand(b"key", &[&[i + 1; 32]], &mut key);
                key[..] == *w
            });
            parking_lot::sched::point();
            if known && sig == good {
                BLS_OK
            } else {
                BLS_FAIL
            }
        }
    }
}
