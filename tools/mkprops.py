#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the records stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A package header is accepted exactly when it is well formed",
 "Header validation accepts a header if and only if the magic number is right, every used part's size plus padding is a multiple of the part alignment, every used metadata entry (in any table slot) lies entirely inside the metadata area, and a hash kind is set. Validation reads only the header and changes nothing in it. Opening a package file never hands out a package whose header validation would reject.",
 ["inputs"], "every 4096-byte header content, including tables with unused slots in the middle; every sequence of I/O results during open",
 "The tests validate a few hand made headers; acceptance is a predicate over 2^32768 header contents and only a proof covers the slot/hole combinations an attacker can craft.",
 ["lib/bpak.c", "lib/pkg.c", "include/bpak/bpak.h"],
 [("bpak_valid_header", "lib/bpak.c"), ("bpak_pkg_open", "lib/pkg.c")],
 ["return value of bpak_valid_header", "return value of bpak_pkg_open and the header it leaves"])

prop("C02", "Adding and looking up metadata never disturbs the rest of the header",
 "Looking up metadata by id (and part reference) returns the first matching entry, or reports not-found and no entry. Adding a new id/part-reference pair to a header built by these operations reserves an aligned region inside the metadata area that overlaps no other entry's data, records exactly the requested id, reference and size, and changes no other byte of the header. An add that is refused, because the pair exists or because there is no room, leaves the header exactly as it was.",
 ["inputs", "histories"], "every header, id, part reference and size from 0 to 65535; every fill level of the 32-slot table and the 1920-byte area",
 "Tests add a handful of entries; exhaustion of the table or the area, sizes near the limit and the frame condition over all other bytes need universal quantification.",
 ["lib/bpak.c", "include/bpak/bpak.h"],
 [("bpak_add_meta", "lib/bpak.c"), ("bpak_get_meta", "lib/bpak.c"), ("bpak_get_meta_anyref", "lib/bpak.c"), ("bpak_add_transport_meta", "lib/bpak.c")],
 ["header bytes and return value after the call"])

prop("C03", "Deleting metadata removes exactly that entry and keeps all others intact",
 "Deleting a metadata entry from a header built by the library leaves every other entry present, in the same order, with the same id, part reference, size and data bytes, keeps the entries packed and aligned from the start of the area, and zeroes the space that was freed. Nothing outside the metadata table and metadata area changes, also when all slots are in use or the last slot is deleted. For every header that validation accepts, deletion stays inside the header.",
 ["inputs", "histories"], "every fill level of the table, every deleted slot, every combination of entry sizes and contents; memory safety for every accepted header",
 "Tests delete from small headers with convenient sizes; overlapping moves and a full table only show for particular size/slot combinations.",
 ["lib/bpak.c"], [("bpak_del_meta", "lib/bpak.c")], ["header bytes after the call"])

prop("C04", "Part table operations and part offsets agree with the file layout",
 "Adding a part takes the first free slot, refuses duplicates and a full table without changing the header, and otherwise changes only the new slot's id; lookup returns the first part with the id; deleting a part removes exactly that part, keeps the order and contents of the others and touches nothing else. The file offset of a part is the header size plus the stored sizes of the parts before it, where a stored size is the transport size for transport-coded parts and size plus padding otherwise. The package size and installed size reported are the sums of those sizes over all parts.",
 ["inputs", "histories"], "every part table content (32 slots, all flags, all 64-bit sizes), every id and every slot",
 "The tests use one to three parts; mixed transport/plain parts, full tables and the last slot are never combined.",
 ["lib/bpak.c", "lib/pkg.c"],
 [("bpak_add_part", "lib/bpak.c"), ("bpak_get_part", "lib/bpak.c"), ("bpak_del_part", "lib/bpak.c"), ("bpak_part_offset", "lib/bpak.c"), ("bpak_part_size", "lib/bpak.c"), ("bpak_part_size_wo_pad", "lib/bpak.c"), ("bpak_pkg_size", "lib/pkg.c"), ("bpak_pkg_installed_size", "lib/pkg.c")],
 ["header bytes and return values"])

prop("C05", "The header digest covers every header byte except the signature",
 "The header digest is computed with the hash kind named in the header over exactly the 4096 header bytes in order, with the signature and its length taken as zero; it therefore does not depend on the signature and depends on every other byte. Success is reported only if every hashing step succeeded and the digest fits the caller's buffer; any failing step is reported as an error. The header is not modified.",
 ["inputs", "fault_sequences"], "every header content, every output buffer size, every pattern of failures of the hash backend",
 "Tests compare a few digests on the success path only; they never let a hash step fail nor vary every byte.",
 ["lib/verify.c", "include/bpak/bpak.h"], [("bpak_verify_compute_header_hash", "lib/verify.c")],
 ["sequence of bytes fed to the hash, returned status"])

prop("C06", "The payload digest covers exactly the bytes of the hashed parts",
 "The payload digest is computed over the stored bytes of every used part not marked as excluded from the hash, in table order, each read from its own position in the file, and nothing else. It does not depend on how the data is split into read chunks. A failed or short read, or a failing hash step, makes the computation fail instead of producing a digest.",
 ["inputs", "fault_sequences"], "every part table (sizes up to 2^63, flags, holes), every data content, every pattern of read or hash failures",
 "Tests hash small packages whose parts all fit a few chunks and whose reads never fail.",
 ["lib/verify.c", "lib/pkg.c"], [("bpak_verify_compute_payload_hash", "lib/verify.c"), ("bpak_pkg_update_hash", "lib/pkg.c")],
 ["bytes fed to the hash, status"])

prop("C07", "A package verifies only if signature, payload and hash trees all check out",
 "Package verification reports success only if the signature was checked, with the given key, over the digest of the header in the package and found valid, the recomputed payload digest equals the one in the header, and every part that carries a hash-tree root also has its salt, its tree part and a tree and root that match its data. Any error from a step is reported as failure. Payload verification examines each such part at its own offset with its own size, salt, tree and root.",
 ["inputs", "fault_sequences"], "every header, part table and metadata content, every outcome of each verification step",
 "Tests verify a few good and a few corrupted packages; the gate has to hold for every combination of outcomes and table layouts.",
 ["lib/pkg_verify.c", "lib/verify.c"], [("bpak_pkg_verify", "lib/pkg_verify.c"), ("bpak_verify_payload", "lib/verify.c")],
 ["return value versus outcomes of the steps"])

prop("C08", "Hash-tree geometry is consistent and tree I/O stays inside the tree",
 "For every data length that is a multiple of the block size and needs at most four levels, the computed tree size and the initialised tree agree: each level holds one digest per block of the level below rounded up to whole blocks, the top level is one block, and the levels tile the tree from top to bottom without gap or overlap. Other lengths are refused. While a tree is built every write lands inside the level being built, every block is hashed as salt followed by exactly 4096 bytes regardless of how the input is chunked, and every I/O or hash error is reported.",
 ["inputs", "fault_sequences"], "every 64-bit data length, salt, chunking and I/O result",
 "Tests build trees for a few sizes with in-memory I/O that never fails; level boundaries and the four-level limit (up to 1 TiB) are out of their reach.",
 ["lib/merkle.c", "include/bpak/merkle.h"],
 [("bpak_merkle_compute_size", "lib/merkle.c"), ("bpak_merkle_init", "lib/merkle.c"), ("bpak_merkle_write_chunk", "lib/merkle.c"), ("bpak_merkle_finish", "lib/merkle.c")],
 ["return values, offsets passed to the I/O callbacks, bytes fed to the hash"])

prop("C09", "Hash-tree verification accepts only a matching tree and root",
 "Verifying a hash tree succeeds only if all of the part's data was read from its own region in order and fed to the tree builder, every digest the builder produced was compared equal with the stored tree at the corresponding position, and the resulting root equals the expected root. Any mismatch, short read or error makes verification fail.",
 ["inputs", "fault_sequences"], "every data, tree and root content, every length and offset, every read result",
 "Tests flip a byte or two; a comparison that skips any position or an ignored error is only visible at that position.",
 ["lib/verify.c"], [("bpak_verify_merkle_tree", "lib/verify.c"), ("merkle_verify_wr / merkle_verify_rd", "lib/verify.c")],
 ["return value, reads requested"])

prop("C10", "Applying a patch yields the specified bytes and tolerates hostile patches",
 "For every patch stream and every way of cutting it into chunks, applying it produces, in order, for each control triple the sum of the next diff bytes and the origin bytes at the current origin position, then the extra bytes, then moves the origin position by the given adjustment. No control value, however malformed, makes the patcher read or write outside its buffers or request a negative amount of data: negative counts are refused. An origin read or output write that fails or is short stops the patcher with an error, and it stays failed.",
 ["inputs", "fault_sequences"], "every patch byte stream, chunking, origin content, buffer size and callback result",
 "Tests apply a few well formed patches; chunk boundaries inside control words and hostile counts are unbounded in number.",
 ["lib/bspatch.c", "include/bpak/bspatch.h"], [("bspatch_write (state machine)", "lib/bspatch.c"), ("offtin", "lib/bspatch.c"), ("bpak_bspatch_init", "lib/bspatch.c"), ("bpak_bspatch_final", "lib/bspatch.c")],
 ["callback arguments, bytes written, status"])

prop("C11", "A generated patch always reproduces the target from the origin",
 "For every origin and target, whatever matches the search proposes, the sequence of control triples, diff bytes and extra bytes produced by the differ, interpreted by the patch rules, reproduces the target exactly and completely. Generating it never reads outside origin, target or the suffix array. Control values survive encoding and decoding unchanged.",
 ["inputs"], "every origin and target content and length, every match position and length the search may return",
 "Tests diff a few files; correctness must not depend on which matches are found, so every overlap and boundary case counts.",
 ["lib/bsdiff.c", "lib/bspatch.c"], [("bpak_bsdiff / create_patch_loop", "lib/bsdiff.c"), ("search / matchlen", "lib/bsdiff.c"), ("offtout", "lib/bsdiff.c"), ("offtin", "lib/bspatch.c")],
 ["stream handed to the compressor"])

prop("C12", "Decompressing untrusted data never leaves the buffers",
 "For every compressed byte stream and every way of feeding it and draining it, the decompressor reads only the given input and its own state, writes at most the given output space, and reports the number of bytes consumed and produced exactly. Malformed data can at worst produce wrong bytes or an error.",
 ["inputs", "histories"], "every input byte sequence, chunking, output buffer size and decoder state reachable by the API",
 "Tests decompress data produced by the matching compressor; hostile streams and odd buffer sizes are unbounded.",
 ["lib/heatshrink/heatshrink_decoder.c", "lib/bspatch.c"], [("heatshrink_decoder_sink / poll / finish", "lib/heatshrink/heatshrink_decoder.c")],
 ["memory accesses, reported sizes"])

prop("C13", "Identifiers are the CRC-32 of their names and extend by concatenation",
 "The id of a name equals the CRC-32 (reflected polynomial edb88320, initial value zero, no final inversion) of its bytes, for every name of every length. Continuing a CRC over more bytes gives the CRC of the concatenation, so the hash-tree id of a part equals the id of its name followed by \"-hash-tree\", and mapping a hash-tree id back yields a part of the header whose hash-tree id it is.",
 ["inputs"], "every byte string, every starting value, every part table",
 "Tests check a few names; a single wrong table entry or byte step affects other names only.",
 ["lib/bpakcrc.c", "lib/id.c", "lib/utils.c"], [("bpak_crc32", "lib/bpakcrc.c"), ("bpak_id", "lib/id.c"), ("bpak_part_id_to_hash_tree_id / bpak_hash_tree_id_to_part_id", "lib/utils.c")],
 ["return value"])

prop("C14", "Transport decoding writes each part only where it belongs",
 "Decoding uses an origin package only if it carries the same package id as the patch package. Each part is decoded by the method its transport metadata names (plain copy when it is not transport-coded), unknown methods are refused, plain data is written exactly and in order to the part's own position in the output, and errors of every callback are reported. A part is marked as decoded only if the decoded length equals its declared size plus padding.",
 ["inputs", "fault_sequences"], "every patch and origin header, metadata content, chunking and callback result",
 "Tests decode a few packages; mismatching ids, unknown decoders, short writes and wrong lengths in combination are not reached.",
 ["lib/transport_decode.c"], [("bpak_transport_decode_set_origin", "lib/transport_decode.c"), ("bpak_transport_decode_start", "lib/transport_decode.c"), ("bpak_transport_decode_write_chunk", "lib/transport_decode.c"), ("bpak_transport_decode_finish", "lib/transport_decode.c")],
 ["callback arguments, part header, status"])

prop("C15", "Transport encoding keeps plain parts intact and marks coded parts exactly",
 "Encoding for transport refuses an origin whose package id is missing or differs. The output header is the input header except that each successfully coded part gets the transport flag and the size of its coded data; parts without transport metadata are copied byte for byte from their input position to their output position. Any error of a read, write, seek or coding step is reported.",
 ["inputs", "fault_sequences"], "every input and origin header and content, every I/O result",
 "Tests encode a few packages with two or three parts on a file system that never fails.",
 ["lib/transport_encode.c"], [("bpak_transport_encode", "lib/transport_encode.c"), ("transport_copy", "lib/transport_encode.c"), ("transport_encode_part", "lib/transport_encode.c")],
 ["output header and file bytes, status"])

prop("C16", "Adding a file stores exactly its bytes, zero padded, and nothing else",
 "When adding a file succeeds, the package holds a new part whose data is exactly the file's bytes followed by zero bytes up to the part alignment, placed right after the existing parts, and the recorded size and padding describe it. Data of the parts already present is not overwritten. Short reads, failed writes and seek errors are reported, and adding always terminates.",
 ["inputs", "fault_sequences"], "every file length and content, every existing part table, every sequence of I/O results including files that shrink or grow while read",
 "Tests add small regular files; I/O failures, files whose length changes and exact multiples of the chunk size are not explored.",
 ["lib/pkg_create.c"], [("bpak_pkg_add_file", "lib/pkg_create.c"), ("bpak_pkg_add_key", "lib/pkg_create.c")],
 ["package file bytes and header after the call"])

prop("C17", "Deleting a part preserves the data of all other parts",
 "Deleting a part moves the data of every later part down by exactly the stored size of the deleted part, byte for byte, leaves the data of earlier parts alone, and cuts the file to the header plus the remaining parts. The operation terminates and reports read and write errors for every file, including files shorter or longer than the header says.",
 ["inputs", "fault_sequences"], "every part table, every deleted part, every data size, every sequence of I/O results",
 "Tests delete from packages with one or two small parts; overlapping moves longer than a chunk and truncated files are not reached.",
 ["lib/pkg.c"], [("bpak_pkg_delete_part", "lib/pkg.c")], ["package file bytes and header after the call"])

prop("C18", "Extracting or digesting a part yields exactly its data",
 "Extracting a part writes exactly the bytes of the part's data, without padding, in order, to the output and nothing else; the per-part SHA-256 covers exactly the same bytes. Unknown parts, short reads and failed writes are reported.",
 ["inputs", "fault_sequences"], "every part table, flags, size and content, every I/O result",
 "Tests extract small plain parts only.",
 ["lib/pkg.c", "lib/pkg_verify.c"], [("bpak_pkg_extract_file", "lib/pkg.c"), ("bpak_pkg_part_sha256", "lib/pkg_verify.c")],
 ["bytes written or hashed, status"])

prop("C19", "Storing and taking out signatures respects the signature field",
 "Storing a raw signature puts exactly the given bytes, zero filled, and their length in the signature field and refuses signatures that do not fit; signing stores a signature made over the current header digest and stores nothing on failure to sign. Taking a signature out copies exactly the stored bytes, clears the field, and refuses empty, oversized or too-large-for-buffer signatures without changing anything. No other header byte changes, except that signing refreshes the payload digest.",
 ["inputs", "fault_sequences"], "every signature length and content, every header, every buffer size, every backend result",
 "Tests store one or two valid signatures.",
 ["lib/bpak.c", "lib/pkg.c", "lib/pkg_sign.c"], [("bpak_copyz_signature", "lib/bpak.c"), ("bpak_pkg_write_raw_signature", "lib/pkg.c"), ("bpak_pkg_sign", "lib/pkg_sign.c")],
 ["header bytes, status"])

prop("C20", "Converting header data to text never overruns the caller's buffer",
 "Converting binary data, uuids and metadata entries to text writes only inside the caller's buffer of the stated size, for every size including zero, and reads only the data concerned. Binary to hex yields exactly two lower case digits per byte, most significant first, and a terminator, and reports an error when that does not fit. Converting a metadata entry leaves terminated text in a buffer of at least one byte, and refuses an entry too short for its kind.",
 ["inputs"], "every data content and length, every buffer size, every metadata entry of an accepted header",
 "Tests use generously sized buffers; the off-by-one sizes are the interesting ones.",
 ["lib/utils.c"], [("bpak_bin2hex", "lib/utils.c"), ("bpak_uuid_to_string", "lib/utils.c"), ("bpak_meta_to_string", "lib/utils.c")],
 ["buffer contents, status"])

prop("C21", "Key lookup and key loading return the right key or an error",
 "Looking up a key in a keystore returns the key with that id or nothing. Loading a key from a keystore package succeeds only if the package has the key part and the keystore id matches, returns exactly the part's bytes as key, and never overruns a buffer for any part size.",
 ["inputs", "fault_sequences"], "every keystore, header, metadata content and part size, every I/O result",
 "Tests load a few proper keys from one keystore.",
 ["lib/keystore.c", "lib/keystore_load_from_file.c"], [("bpak_keystore_get", "lib/keystore.c"), ("bpak_keystore_load_key_from_file", "lib/keystore_load_from_file.c")],
 ["returned key, status, memory accesses"])

prop("C22", "Crypto requests reach the right algorithm and failures are never hidden",
 "Each hash kind is computed with its own algorithm, lengths that do not fit the caller's buffer are refused, unknown kinds are refused, and a failure reported by the cryptographic backend while hashing, loading keys, signing or verifying is reported to the caller; a signature counts as verified only if the backend said so.",
 ["inputs", "fault_sequences"], "every hash kind and key kind value, every buffer size, every backend result",
 "Tests never let the backend fail and use the matching kinds only.",
 ["lib/crypto.c", "lib/mbedtls_wrapper.c"], [("bpak_hash_init/update/final", "lib/crypto.c"), ("bpak_crypto_sign / verify", "lib/crypto.c"), ("mbed_* wrappers", "lib/mbedtls_wrapper.c")],
 ["backend calls made, status"])

prop("C23", "Updating a package file is all-or-nothing across a crash",
 "If the process or machine stops while a package file is being modified, the file afterwards holds either the old or the new package, never a header that disagrees with the data.",
 ["crash_points"], "every crash point during add, delete, sign and transport operations",
 "Tests never interrupt an operation.",
 ["lib/pkg.c", "lib/pkg_create.c"], [("in-place file updates", "lib/pkg.c")], ["package file after a crash"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
