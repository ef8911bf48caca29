COMMON = " Trusted: the VC generator in /verif/engine, go/ssa, the SMT solvers, and the contracts assumed for the external functions listed in the evidence; partial correctness (termination not proved); append is assumed not to alias."
CLAIMS = {
 "C01": "readHeader, the lead, both header areas and the reported ranges proved for every input stream against a specification of the index." + COMMON,
 "C02": "Every panic site reachable from reading headers and from every metadata query proved unreachable, for all inputs; impossible index entries proved to be rejected." + COMMON,
 "C03": "Proved that reading succeeds only when the recorded digest (SHA-256 first) equals the digest of exactly the general header's bytes." + COMMON,
 "C04": "Every accessor of both header types proved for all stored entries, types, counts and loop lengths against the stored bytes." + COMMON,
 "C05": "Every package-level accessor, size query and GetNEVRA proved against the stored entries of the right header area." + COMMON,
 "C06": "GetFiles and every FileInfo accessor proved against the stored arrays, for any number of files; path.Join is uninterpreted." + COMMON,
 "C07": "Vercmp proved, for all strings and any number of segments, to compute a recursive specification of rpm's algorithm; range, antisymmetry, transitivity and reflexivity of that specification proved by induction." + COMMON + " Also trusted: the regular expressions of the form ([class]*)(.*) match the longest prefix of class bytes.",
 "C08": "NEVRAcmp, Less, Swap and Len of both slices proved against the order of C07, which is proved total; Sort proved to permute into ascending order given package sort's documented contract." + COMMON,
 "C11": "SignRpmStream proved, for every input and options: what the two signatures cover, the hash and time they are made with, and that every other tag is as read. What openpgp's Sign and Serialize do is assumed (the serialized packet carries what it was given; under 2^31 bytes)." + COMMON,
 "C12": "Verify and findKey proved, for every input and keyring of any size: success implies that each of the four signature entries present is exactly one signature packet, made and validated by a key of the keyring over the right bytes, and is reported once with its flag, key id, hash and signer. Packet parsing and the cryptographic check are uninterpreted (assumed contracts of openpgp/packet). The build tag pgp3, which needs a fork of openpgp that is not in go.mod, is not covered." + COMMON,
 "C13": "Verify, SignRpmStream and getPayloadDigest proved, for every input and reader: success implies that the input was read to a clean end and that the payload matches the recorded digest, or else the recorded MD5." + COMMON,
 "C14": "SignRpmFile and RewriteWithSignatures (with everything between them and the os calls inlined) proved over a ghost file system with faults at every call: on success the output path holds exactly lead, serialized signature header and the rest of the input; on failure it is as before and no temporary file is left, unless removing it failed too. What the signature header serializes to is whatever WriteTo appends, which is proved to be append-only; its content is C09's subject. Output to standard output, pipes and devices is not constrained." + COMMON,
 "C15": "SignRpmFile and RewriteWithSignatures proved over the same ghost file system: an existing regular file is opened for writing only if it is the input's file, has one link, and (on success) the new area has the old length; bytes beyond the area, and every path other than the output and the temporary file, stay as they were. Assumes that a path with the input's identity holds the input's bytes, and no concurrent changes." + COMMON,
 "C16": "readHeader, ReadNextEntry, Reader.Next and every header accessor proved, for every archive, entry position and size list, against the positions and fields the format defines; chunking of the underlying reader is arbitrary." + COMMON,
 "C17": "Every panic site reachable from iterating, reading and extracting archives and from payload iteration proved unreachable for all inputs; sizes and indices proved in range." + COMMON,
 "C18": "Every read of an entry proved to return the next bytes of exactly that entry, end-of-file exactly at its recorded size, and nothing once the entry is no longer current." + COMMON,
 "C19": "Every file-system effect of Extract, createFile and linkAll proved to be on an object within the resolved destination, over a ghost file-system state; symbolic links are followed as the assumed contracts of os and filepath say. No concurrent changes by other processes." + COMMON,
 "C20": "Extract, createFile and linkAll proved: when extraction succeeds, every entry up to the trailer has been reproduced (directories, named pipes, symbolic links with their targets, regular files with their content, the names of every hard link group), over a history of file-system events. Later events on the same path (an archive naming a path twice) are not constrained, and for a hard link without content the proof says that its name is a link to, or is, a file made for its group." + COMMON,
 "C21": "newPayloadReader and payloadReader.Next, Read and IsLink proved for any file list and archive: names, indices, link flags, sizes, content." + COMMON,
 "C22": "uncompressRpmPayloadReader, ExpandPayload, both payload readers and payloadReader.Next proved for every header and stream, in the cgo and the non-cgo build: which decompressor is used and over which bytes, what is rejected, that the caller's stream is never closed and that every decompressor opened by ExpandPayload is closed. What a decompressor produces is an uninterpreted function of its kind and its input." + COMMON,
}
NA = {
 "C09": "The serializer is a loop over the sorted keys of a map whose output is itself an index with computed offsets; the contracts for the round trip (recursive position functions over a sorted key sequence) were designed but not finished in the time available. Nothing weaker is claimed.",
 "C10": "Depends on the size of what the serializer of C09 writes; its contract was not finished in the time available.",
}
