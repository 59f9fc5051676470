@fn decrypt_sw_encrypted
    ensures r is Ok <==> sw_dec($1@) is Some, r matches Ok(v) ==> sw_dec($1@) == Some(v@),
@hint start
    proof { key_length(); }
@fn encrypt_sw
    ensures r@ == sw_enc($1@),
@hint start
    proof { key_length(); }
@fn decrypt_sw_file
    ensures r is Ok <==> (file_bytes(*$1) matches Some(b) && sw_dec(b) is Some), r matches Ok(v) ==> sw_dec(file_bytes(*$1)->0) == Some(v@),
@fn encrypt_sw_file
    ensures r is Ok <==> file_bytes(*$1) is Some, r matches Ok(v) ==> v@ == sw_enc(file_bytes(*$1)->0),
@fn encrypt_sw_file_to_file
    ensures r is Ok ==> file_bytes(*$1) is Some && wrote(match $2 { Some(o) => *o, None => *$1 }, sw_enc(file_bytes(*$1)->0)),
