#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids stay unique and fields complete)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Digests depend only on the bytes delivered, not on how they arrive",
 "For every message, the 256/512-bit GOST R 34.11-2012 digests and the GOST R 34.11-94 digest equal the standard's hash of exactly the bytes delivered, however the bytes are split over update calls (including empty ones), at whatever buffer alignment they arrive, and however the session is interleaved with other sessions. A context that is copied mid-stream continues independently of its original, and a context that was finished, abandoned or overwritten and then re-initialised computes the same digest as a fresh one. A delivery that fails part-way never yields a digest presented as that of the whole message.",
 ["histories", "schedules", "inputs"], "all fragmentations and interleavings of update/copy/re-init/final over concurrently open digest sessions, all message lengths around block and counter boundaries",
 "The tests hash a few fixed messages, most in one update; carry, partial-block, copy and reuse behaviour is a property of every fragmentation history.",
 ["gosthash2012.c", "gosthash.c", "gost_md.c", "gost_md2012.c", "gosthash2012_ref.h", "gosthash2012_sse2.h", "gosthash2012_const.h", "gosthash2012_precalc.h"],
 [("partial block buffering in update", "gosthash2012.c:gost2012_hash_block"), ("length and checksum carry", "gosthash2012.c:stage2/stage3/add512"), ("remainder buffering", "gosthash.c:hash_block/finish_hash"), ("context copy", "gost_md.c:gost_digest_copy, gost_md2012.c:gost_digest_copy")],
 [("partial buffer and its fill", "bytes not yet compressed", "gosthash2012.h:gost2012_hash_ctx.bufsize")], ["EVP_DigestUpdate/Final/copy_ex"])

prop("C02", "Streaming ciphers are standard-exact under any fragmentation",
 "Every cipher offered (GOST 28147-89 CFB, counter and CBC modes, Magma and Kuznyechik ECB/CBC/CFB/OFB/CTR and the re-keying CTR-ACPKM modes) turns a byte stream into the standard's ciphertext for that key, IV, S-box set and re-keying setting, and decrypts it back, for every fragmentation of the stream, buffer alignment, in-place or separate buffers, and padding choice. Sessions interleaved with others, duplicated mid-stream, or re-initialised with only a new key, only a new IV or the same ones continue exactly as an undisturbed session would. Damaged padding or a truncated block stream is reported at the end rather than accepted.",
 ["histories", "schedules", "inputs", "configurations"], "all histories of init/ctrl/update/copy/final over concurrently open cipher sessions, all chunk sizes, lengths across 1024-byte key-meshing and ACPKM section boundaries, IVs at counter carry boundaries",
 "Tests encrypt fixed vectors with a few chunk sizes; whether block, section and key-meshing state survive every chunk boundary, copy and re-init cannot be sampled by fixed vectors.",
 ["gost_crypt.c", "gost89.c", "gost_grasshopper_cipher.c", "gost_grasshopper_core.c", "gost_grasshopper_defines.c", "gost_grasshopper_precompiled.c", "gost_grasshopper_math.h"],
 [("partial-block keystream carry", "gost_crypt.c:gost_cipher_do_cfb/cnt, magma_cipher_do_ctr"), ("key meshing every 1024 bytes", "gost_crypt.c:gost_crypt_mesh/gost_cnt_next"), ("ACPKM section re-keying", "gost_grasshopper_cipher.c:apply_acpkm_grasshopper, gost_crypt.c:apply_acpkm_magma"), ("counter increment", "gost_crypt.c:inc_counter, gost_grasshopper_cipher.c")],
 [("num / count", "position inside the block and since last re-keying", "EVP_CIPHER_CTX num, ossl_gost_cipher_ctx.count")], ["EVP_CipherUpdate/Final", "EVP_CIPHER_CTX_ctrl", "EVP_CIPHER_CTX_copy"])

prop("C03", "Message authentication codes are standard-exact under any delivery",
 "For every key, message, tag size and parameter setting, each MAC offered (GOST 28147-89 imitovstavka with CryptoPro or TC26 S-boxes, Magma and Kuznyechik OMAC, and the re-keying OMAC) equals the standard's tag of exactly the bytes delivered, under every fragmentation, interleaving with other sessions, mid-stream copy and context reuse. A requested tag length is either honoured exactly, with the bytes the standard prescribes, or refused. A tag is never produced for a session that has no key.",
 ["histories", "schedules", "inputs", "configurations"], "all histories of key/ctrl/update/copy/final over concurrently open MAC sessions, lengths across 8/16-byte blocks, 1024-byte meshing and ACPKM sections, sizes 1..max",
 "Tests check a handful of tags of short messages; meshing, final-block padding and copy semantics depend on the whole delivery history.",
 ["gost_crypt.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_pmeth.c", "gost89.c"],
 [("last-block hold-back and 1024-byte meshing", "gost_crypt.c:gost_imit_update/gost_imit_final"), ("CMAC adapter", "gost_omac.c:omac_imit_update/final/copy"), ("section-wise re-keying CMAC", "gost_omac_acpkm.c:CMAC_ACPKM_Update/Final"), ("size control", "gost_pmeth.c:pkey_gost_mac_ctrl")],
 None, ["EVP_DigestSign*", "EVP_DigestUpdate on MAC digests"])

prop("C04", "MGM authenticated encryption: exact, and tampering never decrypts",
 "Magma-MGM and Kuznyechik-MGM produce the standard's ciphertext and tag for every key, nonce, associated data and plaintext under every fragmentation of both, and decryption recovers the plaintext with the tag accepted. If the nonce, associated data, ciphertext or tag arrives altered, truncated or extended, the final step fails. A context reused for a further message, copied, or left after an error gives the same results as a fresh one.",
 ["histories", "fault_sequences", "inputs"], "all AAD/payload fragmentations and message sequences on a channel that flips, truncates, duplicates or reorders bytes",
 "Tests cover four vectors with few chunkings; acceptance and rejection must hold for every delivery and corruption.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c"],
 [("tag computation/verification", "gost_grasshopper_cipher.c:gost_grasshopper_cipher_do_mgm, gost_gost2015.c:gost_mgm128_*"), ("multiplication in GF(2^64)/GF(2^128)", "gost_gost2015.c")],
 None, ["EVP_CipherUpdate/Final, EVP_CTRL_AEAD_*"])

prop("C05", "Encrypt-with-MAC (CTR-ACPKM-OMAC) round-trips and rejects tampering",
 "A message encrypted with the combined CTR-ACPKM-OMAC ciphers decrypts, under any fragmentation on either side, to the same plaintext when the recipient is given the sender's key, transmitted parameters and tag, and ciphertext and tag equal the standard's. If the ciphertext, the key-diversification seed or the tag is altered or missing, the recipient's final step fails. Contexts that are copied or reused behave like fresh ones.",
 ["histories", "fault_sequences", "inputs"], "all fragmentations, copies, re-inits and tag/parameter hand-overs between a sending and a receiving node over a corrupting channel",
 "Existing CMS tests exercise a single successful exchange; no test alters a tag or splits the stream.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c", "gost_keyexpimp.c"],
 [("MAC attached to the cipher stream", "gost_crypt.c:magma_cipher_do_ctr_acpkm_omac, gost_grasshopper_cipher.c:gost_grasshopper_cipher_do_ctracpkm_omac"), ("tag set/get/verify as attribute", "gost_gost2015.c:gost2015_final_call, gost2015_set_asn1_params/get"), ("KDF from seed", "gost_keyexpimp.c:gost_kdftree2012_256")],
 None, ["EVP_CIPHER_CTX_ctrl EVP_CTRL_PROCESS_UNPROTECTED / EVP_CTRL_SET_MAC", "EVP_CIPHER param_to_asn1"])

prop("C06", "TLS key-tree re-keying follows the record sequence number alone",
 "In TLS 1.2/1.3 key-tree mode each record is processed under the key the standard's tree assigns to its 64-bit sequence number, whatever records were processed before, in whatever order, and for ciphers and MACs alike. Sender and receiver that process the same records agree on every ciphertext and tag. A record processed under the wrong sequence number is not accepted as genuine.",
 ["histories", "inputs"], "all orders, gaps and jumps of 64-bit sequence numbers, any record sizes and fragmentations",
 "One fixed pair of sequence numbers is in a vector test; tree-node caching and boundary masks depend on the history of numbers.",
 ["gost_gost2015.c", "gost_keyexpimp.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac.c"],
 [("level masks and re-derivation", "gost_keyexpimp.c:gost_tlstree"), ("sequence reset", "EVP_CTRL_TLSTREE handlers"), ("per-record IV", "gost_grasshopper_cipher.c/gost_crypt.c EVP_CTRL_TLSTREE")],
 None, ["EVP_CIPHER_CTX_ctrl(EVP_CTRL_TLSTREE)", "EVP_MD_CTX ctrl TLSTREE"])

prop("C07", "Transported and wrapped keys arrive intact or are rejected",
 "A content key wrapped for a recipient by public-key encryption (2001/2012 256/512-bit keys, both transport formats) or by the symmetric key-export ciphers is recovered exactly by the holder of the right key. If the wrapped blob is altered, truncated or meant for another recipient, unwrapping either fails or still yields the original key, never a different key reported as good, and never crashes or aborts the process; a blob whose encrypted key or authentication code was altered is always rejected. After a rejected blob the same objects unwrap a good blob correctly.",
 ["inputs", "fault_sequences", "histories"], "all keys, blobs, in-transit byte flips, truncations, extensions, splices and retries",
 "Tests do successful round trips and one or two wrong-key cases; the corruption space is unbounded.",
 ["gost_ec_keyx.c", "gost_keywrap.c", "gost_keyexpimp.c", "gost_asn1.c", "gost_pmeth.c"],
 [("CryptoPro wrap with imitovstavka", "gost_keywrap.c:keyWrapCryptoPro/keyUnwrapCryptoPro"), ("KExp15/KImp15", "gost_keyexpimp.c:gost_kexp15/gost_kimp15"), ("ASN.1 checks on transport blob", "gost_ec_keyx.c:pkey_GOST_ECcp_decrypt, gost2018_decrypt"), ("wrap ciphers", "gost_keyexpimp.c:magma_wrap_*, kuznyechik_wrap_*")],
 None, ["EVP_PKEY_encrypt/decrypt", "EVP_CIPHER wrap ciphers"])

prop("C08", "Signatures verify exactly for the signed digest and key",
 "Every signature the engine reports as made verifies under the signer's public key and digest, satisfies the standard's verification equation for that curve, and leaks no reuse of the per-signature nonce: its nonce comes fresh from the random source, a nonce that would give a degenerate signature is never used (another is drawn or signing fails), and a failing random source makes signing fail. Verification accepts a (key, digest, signature) triple exactly when the standard's equation holds. Altered, truncated, extended, zero or out-of-range signatures, and digests of an unsupported size, are rejected without crashing.",
 ["inputs", "fault_sequences", "configurations"], "all curves, keys, digests, nonce sequences chosen by a simulated random source incl. degenerate ones and failures, all alterations in transit",
 "Tests sign with real randomness and check only success; degenerate nonces and altered signatures never occur there.",
 ["gost_ec_sign.c", "gost_pmeth.c", "gost_ameth.c", "ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "gost_params.c"],
 [("nonce loop and retries", "gost_ec_sign.c:gost_ec_sign"), ("range checks", "gost_ec_sign.c:gost_ec_verify"), ("signature packing", "gost_ec_sign.c:pack_sign_cp/unpack_cp_signature"), ("curve parameters", "gost_params.c, gost_ec_sign.c:fill_GOST_EC_params")],
 None, ["EVP_PKEY_sign/verify", "EVP_DigestSign/Verify"])

prop("C09", "Both parties of a key agreement derive the same, standard, key",
 "Two parties that exchange public keys and user keying material derive the same shared secret through every derivation offered (VKO 2001, VKO 2012 256/512, the KEG key-expansion variants and the KDF tree), and it equals the standard's value. A message altered in transit (different public key or keying material) makes them derive different keys or fail, never a predictable constant. An attempt with a missing peer, missing or wrong-size keying material fails cleanly.",
 ["inputs", "histories", "configurations"], "all key pairs, UKM values and sizes, orders of parameter calls and repeated derivations",
 "Tests compare one or two fixed vectors.",
 ["gost_ec_keyx.c", "gost_ec_sign.c", "gost_keyexpimp.c", "gost_pmeth.c"],
 [("VKO with cofactor and UKM", "gost_ec_keyx.c:VKO_compute_key"), ("KEG", "gost_ec_keyx.c:gost_keg"), ("KDF tree", "gost_keyexpimp.c:gost_kdftree2012_256")],
 None, ["EVP_PKEY_derive"])

prop("C10", "A failing random source never yields success with a predictable secret",
 "Whenever the random source fails at any request, the operation that needed it (key generation, MAC key generation, signing, key transport, seed and IV generation) reports failure and hands out no key, signature, nonce or blob built from missing randomness. Every random secret handed out on success is determined by bytes actually obtained from the source. Once the source recovers, the same operation on the same objects succeeds.",
 ["fault_sequences", "histories"], "every failing request position and burst, for every operation that consumes randomness",
 "The tests' random source never fails.",
 ["gost_ec_sign.c", "gost_pmeth.c", "gost_ec_keyx.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c"],
 [("RAND_* return checks", "all RAND_bytes/RAND_priv_bytes/BN_rand_range callers")], None, ["RAND_METHOD seam"])

prop("C11", "A failed allocation or library call never corrupts or falsely succeeds",
 "If any single memory allocation or cryptographic-library call made on behalf of an operation fails, the operation either reports failure or produces exactly the correct result; it never reports success with a wrong or missing result. The process does not crash, double-free or use freed memory, and once every object is released nothing allocated by the failed operation stays allocated. The same operation retried afterwards with the fault gone succeeds with the correct result.",
 ["fault_sequences", "histories"], "every failing allocation/library-call position (and bursts of consecutive ones) inside every operation",
 "The tests never make an allocation fail.",
 ["gost_ec_keyx.c", "gost_ec_sign.c", "gost_ameth.c", "gost_pmeth.c", "gost_crypt.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_gost2015.c", "gost_keyexpimp.c", "gost_asn1.c", "gost_ctl.c", "gost_md2012.c"],
 [("err: labels releasing partial results", "every function that allocates"), ("context cleanup/copy", "gost_crypt.c, gost_omac.c, gost_omac_acpkm.c")], None, ["CRYPTO_set_mem_functions seam; engine's calls into libcrypto"])

prop("C12", "Concurrent callers get the results sequential callers would get",
 "Threads that use separate objects concurrently through one loaded engine obtain exactly the results they would obtain alone, under every interleaving, including the first-ever use of each algorithm, curve and setting. Keys on curves that share parameters keep the curve name they were created with. No interleaving crashes, uses freed memory or leaks.",
 ["schedules", "histories"], "all interleavings of threads doing digest/cipher/MAC/keygen/sign/verify/derive/param reads, especially racing first uses",
 "The tests are single-threaded.",
 ["gost_crypt.c", "gost_md.c", "gost_md2012.c", "gost_ec_sign.c", "gost_ctl.c", "gost_eng.c", "gost_lcl.h", "gost89.c"],
 [("lazily created method objects", "gost_crypt.c:GOST_init_cipher, gost_lcl.h GOST_digest"), ("cached curve groups", "gost_ec_sign.c:fill_GOST_EC_params"), ("engine parameter cache", "gost_ctl.c:get_gost_engine_param")],
 [("R3410_2001_paramset[].group", "shared cached curve object", "gost_params.c/gost_ec_sign.c"), ("gost_params[]", "cached settings", "gost_ctl.c")], ["thread scheduler in the simulator"])

prop("C13", "Engine settings follow one precedence rule through any history",
 "An engine setting (default S-box set, password-based-encryption hash, key file format) reads as the environment value if the environment defines it at the moment it first matters, otherwise as the last value set by control command, otherwise as unset, through any history of sets and reads, and operations that depend on it behave accordingly: an encryption started under a setting uses that setting. A rejected or failed set changes nothing. Cipher or MAC contexts already initialised keep the setting they started with.",
 ["histories", "configurations", "fault_sequences"], "all histories of environment values, control commands, allocation faults and dependent operations",
 "Tests use one environment and one configuration per process.",
 ["gost_ctl.c", "gost_crypt.c", "gost_ameth.c", "gost_eng.c"],
 [("parameter cache and precedence", "gost_ctl.c:get_gost_engine_param/gost_set_default_param"), ("consumers", "gost_crypt.c:get_encryption_params, gost_ameth.c:gost_priv_key encoders")],
 [("gost_params[]", "current value of each setting", "gost_ctl.c")], ["ENGINE_ctrl_cmd_string, ENGINE_ctrl"])

prop("C14", "The engine can be loaded, used and unloaded repeatedly under faults",
 "Loading the engine either fully succeeds, after which every advertised algorithm is usable, or fails leaving no trace, even when allocations or registrations fail part-way. Any history of load, use, cleanup, unload and reload leaves later loads fully working. Objects obtained before an unload that are released after it do no harm.",
 ["histories", "fault_sequences", "crash_points"], "all load/use/unload histories with faults at any point of registration",
 "Tests load the engine exactly once per process, successfully.",
 ["gost_eng.c", "gost_ameth.c", "gost_pmeth.c", "gost_crypt.c", "gost_md.c", "gost_ctl.c", "e_gost_err.c"],
 [("registration and its teardown", "gost_eng.c:populate_gost_engine/gost_engine_destroy"), ("method tables reset on destroy", "gost_eng.c, gost_lcl.h GOST_deinit_*")], None, ["ENGINE_load_gost, ENGINE_free/finish/remove"])

prop("C15", "The hashing tools print the file's true digest or report failure",
 "For each input file or standard input, gostsum and gost12sum print the digest of exactly the bytes the system delivered, in the documented format and in argument order, however reads are split. If a file cannot be opened or a read fails, no digest line is printed for it, the failure is reported, the remaining files are still processed where the tool does so, and the exit status is non-zero. The exit status is zero only if every requested digest was computed.",
 ["fault_sequences", "inputs", "histories"], "all read splits, interrupted/failed reads and opens at any position, all file lists and option mixes",
 "Tests hash small regular files on a healthy disk.",
 ["gostsum.c", "gost12sum.c", "gosthash.c", "gosthash2012.c"],
 [("read loops", "gostsum.c:hash_stream, gost12sum.c:gost_hash_file"), ("error accounting", "gostsum.c:main, gost12sum.c:main")], None, ["open/read/printf seam"])

prop("C16", "Checksum-list verification passes only if every listed file matches",
 "Verifying a checksum list exits with status zero only if every entry of the list names a file that could be read in full and whose digest equals the listed one; every mismatch, unreadable file, malformed or truncated entry or failing read of the list makes the exit status non-zero. (To gost12sum a line that is not a hexadecimal string, a space and a name is a comment, not an entry; gostsum has no comments.) A list the tool itself produced verifies successfully while the files are unchanged. No list content, however damaged, crashes the tool.",
 ["inputs", "fault_sequences", "histories"], "all lists (damaged, truncated, blank lines, binary mode markers, long names), file modifications between producing and checking, and read faults",
 "Tests verify one intact list.",
 ["gostsum.c", "gost12sum.c"],
 [("list parser", "gostsum.c:get_line, gost12sum.c:get_line"), ("failure counting", "main in both")], None, ["exit status and stdout/stderr"])

prop("C17", "The provider front end gives the same answers as the engine",
 "For the same key, IV, parameters and delivered bytes, a digest, cipher or MAC obtained from the provider returns the same output as the one of the same name obtained from the engine, under every fragmentation, context duplication, re-initialisation and reset. Sizes it reports match what it produces. Failures (missing key, bad parameter, allocation failure) are reported as failures, never as success with a wrong result, and never crash.",
 ["histories", "schedules", "configurations", "fault_sequences"], "all init/update/dup/set-params/final histories on both front ends",
 "No provider test runs in this build at all.",
 ["gost_prov.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c"],
 [("adapter to the shared tables", "gost_prov_cipher.c, gost_prov_digest.c, gost_prov_mac.c")], None, ["EVP_*_fetch'ed algorithms"])

prop("C18", "Messages protected by one party open for the other, or are rejected",
 "A CMS/S-MIME message signed, enveloped or digested by one party using GOST keys, and a TLS session between two GOST peers, deliver exactly the sender's data to the intended receiver, however the bytes are fragmented in transit. If the transport corrupts, truncates, or substitutes bytes, the receiver never obtains altered data reported as authentic and never crashes. Messages made by another conforming implementation open too, and malformed ones are refused cleanly. A party without the right private key never obtains the sender's data and is never accepted as the sender.",
 ["fault_sequences", "histories", "configurations"], "all fragmentations and corruptions of the byte streams exchanged by two simulated parties for every key type, curve and cipher choice",
 "Tests exchange a few messages over a perfect transport.",
 ["gost_ameth.c", "gost_pmeth.c", "gost_ec_keyx.c", "gost_crypt.c", "gost_gost2015.c", "gost_md2012.c", "gost_omac.c"],
 [("CMS/PKCS7 control hooks", "gost_ameth.c:pkey_ctrl_gost"), ("cipher parameter hand-over", "gost_crypt.c:gost89_set/get_asn1_parameters, gost_gost2015.c"), ("TLS key exchange", "gost_ec_keyx.c, gost_pmeth.c")], None, ["CMS_*, SSL_* over simulated BIOs"])

prop("C19", "Stored keys and parameters read back exactly, or are refused",
 "A private key, public key, key parameters or cipher parameters written to storage or sent to another party read back as the same key or parameters, for every key size, curve and on-disk key format setting, and a key pair that reads back still signs and agrees with its public half. A torn, truncated or altered encoding is refused or reads as some well-formed key, and never crashes the process. Printing, copying and comparing keys agree with their contents.",
 ["inputs", "crash_points", "fault_sequences", "configurations"], "all key values (incl. leading zeros), curves, format settings, and torn or corrupted stored bytes",
 "Tests read back a few healthy keys.",
 ["gost_ameth.c", "gost_asn1.c", "gost_crypt.c", "gost_gost2015.c", "gost_pmeth.c"],
 [("PKCS#8 encode/decode incl. masked keys", "gost_ameth.c:priv_decode_gost/priv_encode_gost"), ("SPKI encode/decode", "gost_ameth.c:pub_decode/encode_gost_ec"), ("algorithm parameters", "gost_ameth.c:decode_gost_algor_params/encode_gost_algor_params")], None, ["i2d/d2i PrivateKey/PUBKEY, EVP_CIPHER_param_to_asn1"])

prop("C20", "Built-in fast curve arithmetic equals the group law for every scalar",
 "For each built-in curve the specialised point multiplication returns the mathematically correct point for every scalar and point.",
 ["inputs"], "all scalars and points on each curve",
 "Unit tests sample a handful of scalars.",
 ["ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "gost_ec_sign.c"],
 [("fixed-window formally derived arithmetic", "ecp_id_*.c")])

prop("C21", "Secret-dependent timing does not reveal keys",
 "Execution time and memory access pattern of operations on private keys do not depend on the secret values.",
 ["inputs"], "all secrets", "Timing is not observed by tests.",
 ["ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "gost_ec_sign.c"],
 [("constant-time window selection", "ecp_id_*.c"), ("scalar blinding", "gost_ec_sign.c")])

prop("C22", "Released memory holds no keys",
 "When an operation ends and its objects are released - after success, after an error, or after a failing allocation, library call or random source - no heap block that the engine or the provider gives back (or had allocated, or that holds one of its numbers or strings) still contains a private key in plain or masked storage form, a symmetric or MAC key, the one-time secret of a signature, or an agreed or derived secret. The stack, buffers owned by the caller, and buffers libcrypto's own readers and writers manage are not covered.",
 ["fault_sequences", "histories", "inputs"], "all operations on secrets, interrupted at every allocation, library call and draw of randomness, with any retry and release order",
 "Tests look at results; none looks at memory after it is released, and error paths are rarely taken.",
 ["gost_ameth.c", "gost_pmeth.c", "gost_ec_keyx.c", "gost_ec_sign.c", "gost_keyexpimp.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_prov_mac.c", "gost_prov_cipher.c"],
 [("stored private keys", "gost_ameth.c:priv_decode_gost/priv_encode_gost"), ("shared points and wrapped keys", "gost_ec_keyx.c"), ("one-time secrets", "gost_ec_sign.c:gost_ec_sign"), ("MAC keys", "gost_ameth.c:mackey_free_gost, gost_pmeth.c, gost_prov_mac.c")], None, ["allocator seam: contents of blocks when freed"])

prop("C23", "Results depend only on inputs",
 "Everything the engine, the provider and the command-line tools give back - output bytes, return values, error reports, exit statuses, files - is decided by their inputs: the data, keys, parameters and settings handed over, the random bytes drawn, and the outcomes of the calls they make, failures included. It does not depend on what heap or stack memory held before the code used it, nor on unrelated operations that were completed earlier in the same process.",
 ["histories", "inputs", "fault_sequences"], "all operations, undisturbed or interrupted by failures, for every previous content of memory and after every history of unrelated work",
 "A test runs in one process with one content of memory, which is usually zero; a read of a value that was never set, or a result left in a static buffer, goes unnoticed until the memory happens to hold something else.",
 ["gost_keyexpimp.c", "gost_ec_keyx.c", "gost_ec_sign.c", "gost_crypt.c", "gost_md.c", "gosthash2012.c", "gost_omac.c", "gost_pmeth.c", "gost_ameth.c", "gost_ctl.c", "gost_prov_cipher.c", "gostsum.c"],
 [("contexts set up by init, copy and re-init", "gost_crypt.c, gost_grasshopper_cipher.c, gosthash2012.c"), ("import of wrapped keys", "gost_keyexpimp.c:gost_kimp15"), ("process-wide tables and settings", "gost_eng.c, gost_ctl.c, gost_ec_sign.c:fill_GOST_EC_params")], None, ["every run's log of outputs, return values and error reports, taken in two executions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
