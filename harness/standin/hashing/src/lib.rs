//! Stand-in for the hash functions: any function of the bytes will do for the
//! properties of the parser, and this one the solver can invert. Every byte of
//! the data changes every byte of the result.
#![no_std]
fn mix<const N: usize>(data: &[u8], salt: u8) -> [u8; N] {
    let mut h = [0u8; N];
    let mut i = 0;
    while i < N {
        h[i] = salt.wrapping_mul(i as u8 + 3).wrapping_add(data.len() as u8);
        let mut j = 0;
        while j < data.len() {
            h[i] ^= data[j].rotate_left((i * (j + 1)) as u32 % 8);
            j += 1;
        }
        i += 1;
    }
    h
}
pub fn blake2_128(data: &[u8]) -> [u8; 16] {
    mix(data, 0x2b)
}
pub fn blake2_256(data: &[u8]) -> [u8; 32] {
    mix(data, 0x35)
}
pub fn blake2_512(data: &[u8]) -> [u8; 64] {
    mix(data, 0x41)
}
pub fn blake2_64(data: &[u8]) -> [u8; 8] {
    mix(data, 0x59)
}
pub fn twox_64(data: &[u8]) -> [u8; 8] {
    mix(data, 0x67)
}
pub fn twox_128(data: &[u8]) -> [u8; 16] {
    mix(data, 0x71)
}
pub fn twox_256(data: &[u8]) -> [u8; 32] {
    mix(data, 0x83)
}
pub fn keccak_256(data: &[u8]) -> [u8; 32] {
    mix(data, 0x97)
}
pub fn keccak_512(data: &[u8]) -> [u8; 64] {
    mix(data, 0xa3)
}
pub fn sha2_256(data: &[u8]) -> [u8; 32] {
    mix(data, 0xb5)
}
