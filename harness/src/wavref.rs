//! Independent reference for canonical PCM WAV files and PCM codes.

/// Canonical 44-byte-header PCM file. 8-bit codes are 0..=255, others signed. Odd data is padded.
pub fn encode(ch: u16, bits: u16, rate: u32, codes: &[i32]) -> Vec<u8> {
    let mut d = vec![];
    for &c in codes { match bits { 8 => d.push(c as u8), 16 => d.extend((c as i16).to_le_bytes()), _ => d.extend(&c.to_le_bytes()[..3]) } }
    wrap(ch, bits, rate, &d)
}
pub fn wrap(ch: u16, bits: u16, rate: u32, d: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let pad = d.len() % 2;
    v.extend(b"RIFF"); v.extend((36 + d.len() as u32 + pad as u32).to_le_bytes()); v.extend(b"WAVE");
    v.extend(b"fmt "); v.extend(16u32.to_le_bytes());
    v.extend(1u16.to_le_bytes()); v.extend(ch.to_le_bytes()); v.extend(rate.to_le_bytes());
    v.extend((rate * (bits as u32 / 8) * ch as u32).to_le_bytes()); v.extend(((bits / 8) * ch).to_le_bytes()); v.extend(bits.to_le_bytes());
    v.extend(b"data"); v.extend((d.len() as u32).to_le_bytes()); v.extend(d);
    if pad == 1 { v.push(0) }
    v
}
pub fn decode_code(bits: u16, c: i32) -> f64 {
    match bits { 8 => (c as f64 - 128.0) / 128.0, 16 => c as f64 / 32767.0, _ => c as f64 / 8388607.0 }
}
