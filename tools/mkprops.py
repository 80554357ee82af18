#!/usr/bin/env python3
# Writes properties.jsonl (kept in git; rerun after editing).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],state=state or [],hook_needed=None)))
I=["inputs"]; IC=["inputs","configurations"]; IH=["inputs","histories"]
p("C01","AES encryption of a block is exactly FIPS-197 for every key and block",
 "For every 128-, 192- and 256-bit key and every 16-byte block, encrypting the block gives exactly the FIPS-197 AES ciphertext. Building the cipher from 64-bit words is the same as building it from those words written out most significant byte first. No key or block makes key setup or encryption panic.",
 IC,"all 2^128 blocks, all keys of each of the three sizes, both ways of giving the key",
 "Known-answer tests sample a few dozen key/block pairs; a wrong table entry, round constant or column coefficient that those pairs do not touch stays invisible.",
 ["src/aes/cipher.rs","src/aes/expander.rs","src/aes/field.rs","src/aes/sbox.rs","src/aes/mod.rs"],
 [("round structure","src/aes/cipher.rs"),("key schedule","src/aes/expander.rs"),("S-box from field inverse","src/aes/sbox.rs"),("GF(2^8) arithmetic","src/aes/field.rs"),("word keys","src/aes/mod.rs")],["aes::Aes encrypt"])
p("C02","AES decryption inverts encryption for every key and block",
 "For every AES key of each supported size and every block, decrypting the encryption of the block returns the block, and encrypting the decryption of a block returns it. Decryption never panics.",
 IC,"all keys of the three sizes, all blocks, both compositions",
 "Tests decrypt only the sampled known-answer ciphertexts; an error in an inverse table entry or an inverse column coefficient shows only for particular state bytes.",
 ["src/aes/cipher.rs","src/aes/field.rs","src/aes/sbox.rs"],
 [("backward steps","src/aes/cipher.rs"),("inverse S-box","src/aes/sbox.rs")],["aes::Aes decrypt"])
p("C03","RC2 matches RFC 2268 for every key and effective key length, and inverts",
 "For every key of 1 to 128 bytes, every effective key length of 1 to 1024 bits and every 8-byte block, RC2 encryption gives exactly the RFC 2268 ciphertext. Decryption is its inverse in both directions. Neither key setup nor either operation panics in that domain.",
 IC,"all key lengths 1..=128, effective lengths 1..=1024, all key bytes and blocks",
 "Tests use eight RFC vectors with few key lengths; bugs at other lengths, in unused table entries or in the mashing index are not sampled.",
 ["src/rc/rc2.rs"],[("key expansion","src/rc/rc2.rs"),("mix/mash and inverses","src/rc/rc2.rs")],["rc2 encrypt/decrypt"])
p("C04","RC5-32 matches its definition for every key and round count, and inverts",
 "For every key of 0 to 255 bytes, every round count 0 to 255 and every 8-byte block, the block cipher gives exactly the RC5-32/r/b ciphertext of Rivest's definition. Decryption is its inverse in both directions. Key setup and both operations never panic in that domain.",
 IC,"all key lengths 0..=255 bytes, rounds 0..=255, all blocks",
 "Tests use 12 rounds and 16-byte keys only; key lengths that are not multiples of four, other round counts and extreme rotations are never run.",
 ["src/rc/rc5.rs"],[("key expansion","src/rc/rc5.rs"),("rounds","src/rc/rc5.rs")],["rc5 encrypt/decrypt"])
p("C05","RC4 keystream is exact, XOR is an involution, and splitting does not matter",
 "For every key of 1 to 256 bytes (longer keys use their first 256 bytes) and every amount of data, the keystream is exactly RC4's, and encryption is the byte-wise XOR of the data with it, so decrypting an encryption with the same key returns the data. Encrypting a message in any split into consecutive pieces with one stream gives the same bytes as encrypting it whole.",
 IH,"all non-empty keys, all data lengths, all ways of splitting the data into pieces",
 "Tests check three short keystreams and one split; a state corruption that shows only after many bytes or for particular keys is not sampled.",
 ["src/rc/rc4.rs","src/lib.rs"],[("key scheduling and PRGA","src/rc/rc4.rs"),("stream XOR","src/lib.rs")],["rc4 encrypt/decrypt","StreamCipher"])
p("C06","Padding is unambiguous: unpad recovers what was padded, malformed is rejected",
 "For both padding schemes, every block size from 1 to 255 and every partial block shorter than a block, padding keeps the data as a prefix and fills the rest as the scheme prescribes, and unpadding the result gives back exactly the original length (and, for bit padding, the data with the rest zeroed). Unpadding always either removes between one byte and the whole block or rejects the block by panicking; it never reports a length of a full block or more, and an oversized partial block is rejected.",
 IC,"all block sizes 1..=255, all partial blocks, all (also malformed) last blocks",
 "Tests use 4-byte blocks and a handful of contents.",
 ["src/pad.rs"],[("BitPadding","src/pad.rs"),("PkcsPadding","src/pad.rs")],["pad/unpad results"])
p("C07","Whole-message block encryption round-trips and chains blocks in order",
 "For every message of any length, block cipher and mode, encrypting feeds the message's full blocks in order and then exactly one PKCS-padded final block through the mode, and emits their outputs in order, so the output length is the next multiple of the block size strictly greater than the message length; the codebook mode enciphers each block independently. If the mode's decryption inverts its encryption, decrypting the output returns exactly the message; a ciphertext that is not a whole number of blocks is rejected.",
 IH,"all message lengths and contents, all block sizes 1..=255, any cipher and stateful mode",
 "Tests use a few messages of under three 4-byte blocks; nothing checks decryption of long or empty messages for all lengths.",
 ["src/lib.rs","src/pad.rs"],[("BlockEncryption encrypt/decrypt","src/lib.rs"),("EcbMode","src/lib.rs")],["bytes handed to the output callback"])
p("C08","SHA-1 of every message equals FIPS 180-4",
 "For every message, of any length and content, the SHA-1 digest is exactly the one FIPS 180-4 defines, and hashing never panics.",
 I,"all byte strings (length below 2^61 bytes)",
 "Tests hash a few messages; the padding boundary lengths and every schedule/round position are not covered for all inputs.",
 ["src/sha/sha1.rs","src/sha/pad.rs","src/sha/hash.rs"],[("compression","src/sha/sha1.rs"),("padding","src/sha/pad.rs")],["sha::sha1"])
p("C09","SHA-224/256/384/512 of every message equal FIPS 180-4",
 "For every message, of any length and content, each SHA-2 digest (224, 256, 384 and 512 bits) is exactly the one FIPS 180-4 defines, and hashing never panics.",
 I,"all byte strings (length below 2^61 bytes), the four digest sizes",
 "Tests hash a few messages per variant; boundary lengths (for example 112..127 mod 128) are not all covered.",
 ["src/sha/sha2.rs","src/sha/pad.rs","src/sha/hash.rs"],[("compression","src/sha/sha2.rs"),("padding","src/sha/pad.rs"),("constants","src/sha/sha2.rs")],["sha::sha224/sha256/sha384/sha512"])
p("C10","MD2 of every message equals RFC 1319 (with the erratum)",
 "For every message, of any length and content, the MD2 digest is exactly the one RFC 1319 (with its checksum erratum) defines, and hashing never panics.",
 I,"all byte strings","Tests hash seven short strings, all shorter than six blocks.",
 ["src/md/md2.rs"],[("buffering, checksum, compression","src/md/md2.rs")],["md2"])
p("C11","MD4 and MD5 of every message equal RFC 1320 and RFC 1321",
 "For every message, of any length and content, the MD4 and MD5 digests are exactly the ones RFC 1320 and RFC 1321 define, and hashing never panics.",
 I,"all byte strings (length below 2^61 bytes)","Tests hash seven short strings each; padding boundaries (55, 56, 63, 64 mod 64) are not all covered.",
 ["src/md/md4.rs","src/md/md5.rs"],[("compression","src/md/md4.rs, src/md/md5.rs"),("padding","src/md/md4.rs, src/md/md5.rs")],["md4","md5"])
p("C12","Digest values convert losslessly between words, bytes and hex",
 "For every digest size, converting words to a digest and back returns the same words, the bytes of a digest are its words most significant byte first, and parsing hexadecimal text succeeds exactly when the text is the hexadecimal form (either case) of that many bytes and then gives those bytes. No conversion panics.",
 IC,"all digest values of the five sizes, all hex strings",
 "Tests use the conversions only in the direction and at the sizes the hash tests happen to need.",
 ["src/sha/hash.rs"],[("u32s_to_bytes, u64s_to_bytes, bytes_to_u32s, bytes_to_u64s, from_hex","src/sha/hash.rs")],["Hash160..Hash512 conversions"])
p("C13","Big integer add, subtract, remainder and shifts are exact and canonical",
 "For all big naturals a and b of up to 2^30 bits, a+b, a-b (for b not larger than a), a mod b (for b not zero), a shifted left and a shifted right by any number of bits give exactly the mathematical result and never panic; a remainder by zero is rejected. Every result is in canonical form, so equal values compare equal.",
 IH,"all pairs of naturals, all shift amounts, all sequences of operations",
 "Tests use a few values; carries across particular byte lengths, zero operands and large shifts are not sampled.",
 ["src/big/uint.rs"],[("add_assign, sub_assign, rem_assign, shl_assign, shr_assign, trim_trailing_zeroes","src/big/uint.rs")],["BigUint operators"])
p("C14","Big integer comparison, bit queries and conversions agree with the value",
 "For all big naturals of up to 2^32-8 bits, comparison orders them by value, the number of used bits is the bit length of the value, a bit is reported set exactly when that bit of the value is one, and updating a bit inside the stored width changes exactly that bit. Converting from big-endian or little-endian bytes (with any leading or trailing zeros) or from a 128-bit integer and back is exact, and conversion to 128 bits fails exactly when the value does not fit.",
 I,"all naturals, all bit positions, all byte strings","Tests use a few constants.",
 ["src/big/uint.rs"],[("cmp, bits_used, is_set, update, from_be_bytes, from_le_bytes, from_u128, as_u128, to_be_bytes","src/big/uint.rs")],["BigUint queries"])
p("C15","Raw RSA encryption and decryption are exact modular exponentiation",
 "For every modulus greater than one, every exponent and every number, each of up to 2^29 bits, raw encryption and raw decryption both return exactly the number raised to the key's exponent, reduced modulo the key's modulus. They never panic and always terminate.",
 I,"all bases, exponents and moduli > 1 of up to 2^29 bits","Tests use a few small and two large triples.",
 ["src/rsa/mod.rs","src/big/uint.rs"],[("pow_mod, mul_mod","src/rsa/mod.rs")],["RsaEncryption encrypt/decrypt"])
p("C16","Generated RSA keys are valid: decryption inverts encryption for every message",
 "For all distinct primes p and q and public exponents e of at most 128 bits coprime to lcm(p-1,q-1), whose product p*q fits in 127 bits, the generated keys share the modulus p*q, keep e, and have a private exponent d with e*d congruent to 1 modulo lcm(p-1,q-1). Hence for every number below the modulus, raw decryption with one key undoes raw encryption with the other.",
 IC,"all such p, q, e and all messages below p*q","Tests create a couple of fixed keys.",
 ["src/rsa/mod.rs"],[("create_keys, lcm, inverse","src/rsa/mod.rs")],["create_keys"])
p("C17","OAEP encoding follows RFC 8017, round-trips, and rejects everything else safely",
 "For every label, message and encoded length (below 2^36 bytes) that leaves room, the OAEP encoding (SHA-256, MGF1) has exactly the given length, starts with a zero byte and has the RFC 8017 layout, and decoding it with the same label returns the message. Decoding any other byte string never panics: it returns a message only if the string has the RFC 8017 structure for that label, and an error otherwise.",
 I,"all labels, messages and lengths; all (also malformed) encoded strings","Tests run one round trip and three mask vectors.",
 ["src/rsa/oaep.rs","src/rsa/mgf.rs","src/rsa/pad.rs"],[("encode/decode","src/rsa/oaep.rs"),("mgf1","src/rsa/mgf.rs")],["RsaPadding encode/decode"])
p("C18","RSA message encryption round-trips and always has the modulus' length",
 "For every RSA key pair (modulus of up to 2^29 bits) whose exponents are inverse and every message that fits, the encrypted message is exactly as many bytes long as the modulus, and decrypting it with the matching key returns exactly the message.",
 IC,"all valid key pairs large enough for the padding, all messages that fit","Tests encrypt one message with one key; a ciphertext or encoded message that starts with zero bytes happens for one message in 256.",
 ["src/rsa/mod.rs","src/rsa/oaep.rs","src/big/uint.rs"],[("encrypt_message, decrypt_message","src/rsa/mod.rs")],["RsaEncryption encrypt_message/decrypt_message"])
p("C19","The ASN.1 parser never panics and decodes exactly the DER structure",
 "For every byte string whose sequences nest no deeper than the call stack allows, parsing either succeeds or returns an error and never panics. When it succeeds, the whole input was consumed and the result is exactly the tag/length/value structure of the input (integers, octet strings, bit strings with their unused-bit count, null, object identifiers and nested sequences); every well-formed encoding in that subset is accepted.",
 I,"all byte strings (nested no deeper than the call stack allows)","Tests parse a few well-formed keys; truncated or oversized length fields are not tried.",
 ["src/pem/asn1.rs"],[("parse_from_bytes","src/pem/asn1.rs")],["Asn1::try_from"])
p("C20","RSA key import takes exactly the right numbers from PKCS#8/SPKI, or fails",
 "For every PEM object, importing a private or public key never panics; it succeeds exactly if the label and the DER structure are as PKCS#8 and SubjectPublicKeyInfo prescribe for RSA (version 0, RSA algorithm identifier with null parameters, inner RSA key of nine integers, the first of them one byte long, or of two integers), and the resulting key then holds exactly the modulus and the private (or public) exponent stored in that structure.",
 I,"all labels and byte strings","Tests import two well-formed keys and a few malformed ones.",
 ["src/rsa/asn1.rs","src/rsa/mod.rs","src/pem/asn1.rs"],[("from_asn1","src/rsa/asn1.rs"),("TryFrom<PEM>","src/rsa/mod.rs")],["PrivateKey/PublicKey try_from"])
p("C21","PEM text encoding and decoding are inverse; malformed text is rejected",
 "For every label without line feeds and every byte string, decoding the PEM text of an object returns the same label and bytes, and the text has 64-character lines between matching BEGIN and END lines. Decoding any text never panics, ignores text outside the block and white space around lines, and fails when the BEGIN or END line is missing, duplicated, unterminated or mismatched, or the payload is not base64.",
 I,"all labels, byte strings and texts","Tests decode a few hand-written texts and encode a few.",
 ["src/pem/mod.rs"],[("Display for PEM","src/pem/mod.rs"),("extract_pem_pieces, parse_pem_data, decode_pem","src/pem/mod.rs")],["PEM to_string / from_str"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), [len(x['title']) for x in P if len(x['title'])>80])
