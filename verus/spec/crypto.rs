/// Sketchware's key, which is its IV as well
pub open spec fn sw_key() -> Seq<u8> { utf8("sketchwaresecure"@) }
pub open spec fn sw_enc(d: Seq<u8>) -> Seq<u8> { aes_enc(sw_key(), sw_key(), d) }
pub open spec fn sw_dec(d: Seq<u8>) -> Option<Seq<u8>> { aes_dec(sw_key(), sw_key(), d) }
/// decrypting gives back what was encrypted
pub proof fn c01_lossless(d: Seq<u8>) ensures sw_dec(sw_enc(d)) == Some(d) { broadcast use ax_aes; }
pub proof fn key_length() ensures sw_key().len() == 16 { broadcast use vp_bytes; reveal_strlit("sketchwaresecure"); }
