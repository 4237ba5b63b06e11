//! Stand-in for biome_unicode_table: the byte classes air uses.

#[allow(clippy::upper_case_acronyms)]
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Dispatch {
    ERR,
    WHS,
    SEM,
    IDT,
    DIG,
    UNI,
    OTHER,
}

pub fn lookup_byte(byte: u8) -> Dispatch {
    match byte {
        b'\t' | b'\n' | 0x0b | 0x0c | b'\r' | b' ' => Dispatch::WHS,
        b';' => Dispatch::SEM,
        b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => Dispatch::IDT,
        b'0'..=b'9' => Dispatch::DIG,
        0x80.. => Dispatch::UNI,
        0..=0x1f | 0x7f => Dispatch::ERR,
        _ => Dispatch::OTHER,
    }
}
