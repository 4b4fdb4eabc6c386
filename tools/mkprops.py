#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, level="exploration", note="", state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    assert len(title) <= 80, (id, len(title))
    P.append((d, tech, level, note))

SHA = ["hash/sha3/sha3.go", "hash/sha3/shake.go", "hash/sha3/keccakf.go", "hash/sha3/keccakf_amd64.s", "hash/sha3/xor_unaligned.go", "hash/sha3/xor_generic.go"]
prop("C01", "SHA-3, SHAKE and cSHAKE compute FIPS 202 / SP 800-185 for every input",
 "For every message, however it is split over writes and however the output is split over reads, SHA3-224/256/384/512, SHAKE128/256 and cSHAKE128/256 return exactly the bytes FIPS 202 and SP 800-185 define. This includes every function name and customization string, the one-shot functions and messages around every multiple of the block length.",
 ["inputs", "histories"], "all messages, all splits of input and output, all function names and customization strings, all alignments of buffers",
 "Tests compare fixed vectors and a few splits of one message; errors at particular lengths, splits, alignments or customization lengths (one was found: prefixes filling whole blocks) are outside what they sample.",
 SHA, [("sponge", "hash/sha3/sha3.go Write/Read/Sum"), ("cSHAKE prefix", "hash/sha3/shake.go bytepad"), ("permutation", "hash/sha3/keccakf*.go")],
 "property-based differential testing against crypto/sha3 and an own cSHAKE prefix; exhaustive enumeration of lengths around block boundaries")
prop("C02", "Extendable-output objects behave like one byte stream in every history",
 "In every history of write, read, clone, reset, sum and size queries on SHAKE and cSHAKE objects, the bytes read are consecutive pieces of the one output stream that belongs to everything written since the last reset. Clones continue independently of their origin from the same point, resetting restores exactly the freshly made object (including its customization), and asking for a sum never changes what is read later.",
 ["histories"], "all operation sequences on a family of cloned objects",
 "Tests run a handful of fixed sequences; the state space of partially filled buffers, squeeze positions and clones is only reachable with generated histories.",
 SHA, [("state copy", "hash/sha3/shake.go Clone/Reset"), ("squeezing", "hash/sha3/sha3.go Read")],
 "stateful model-based testing against a stream model over crypto/sha3")
prop("C03", "SM3 computes GB/T 32905-2016 for every message and every split",
 "For every message and every way to split it over writes, also with resets in between and messages beyond 2^32 bits, the SM3 digest equals the one the standard defines.",
 ["inputs", "histories"], "all messages and splits",
 "Tests use standard vectors and one split test; the block buffer and the length field depend on lengths never sampled.",
 ["hash/sm3/sm3.go"], [("block buffering", "hash/sm3/sm3.go Write"), ("padding and length", "hash/sm3/sm3.go Sum")],
 "property-based differential testing against an independent SM3 implementation; length enumeration")
prop("C04", "All hashes honour the standard hash-object contract",
 "Every hash object consumes all bytes it is given and reports that number without an error, reports the right sizes, appends its digest to the caller's slice without touching the slice's content or its own state, and starts afresh after a reset. Any history of such calls over several objects agrees with hashing the concatenation of what was written.",
 ["histories"], "all sequences of Write, Sum, Reset, Size and BlockSize over all hash types",
 "Tests check single properties at single points; that querying a digest doesn't disturb a running computation at any buffer position needs generated histories.",
 SHA + ["hash/sm3/sm3.go"], [("Sum on a copy", "hash/sha3/sha3.go Sum, hash/sm3/sm3.go Sum")],
 "stateful model-based testing of hash.Hash against a model", note="SM3's treatment of the slice given to Sum is a listed known finding")
prop("C05", "The DRBG's output follows SP 800-90A CTR_DRBG through every history",
 "After instantiation, every history of reads of any length, reads with additional data of any length and reseeds yields exactly the byte stream that NIST SP 800-90A defines for CTR_DRBG with AES-256 without derivation function. The stream depends on nothing but the seed material and the sequence of requests, no two requests share output, and two generators never influence each other.",
 ["histories", "inputs"], "all sequences of requests and reseeds, all lengths of output and additional data, counter values including carries through every byte",
 "Tests replay NIST vectors, which always ask for whole blocks twice; partial blocks, counter carries and mixed request sequences never occur.",
 ["drbg/ctr_drbg.go", "drbg/internal/aes/"], [("update and counter", "drbg/ctr_drbg.go update/inc"), ("generate", "drbg/ctr_drbg.go ReadWithAdditionalData")],
 "stateful model-based testing against an independent CTR_DRBG over crypto/aes")
prop("C06", "DRBG instantiation and reseeding are defined by their inputs alone",
 "Instantiating a generator, for the first time or again after any use, gives exactly the state SP 800-90A defines for the given entropy and personalization and leaves no trace of earlier state; too little entropy is refused.",
 ["histories", "inputs"], "all entropy and personalization strings, re-instantiation after any history, refused calls at any point",
 "Tests instantiate fresh objects only and check one short seed.",
 ["drbg/ctr_drbg.go"], [("instantiation", "drbg/ctr_drbg.go Init"), ("reseeding", "drbg/ctr_drbg.go Reseed")],
 "stateful model-based testing against an independent CTR_DRBG", note="the first Init accepting short entropy is a listed known finding")
prop("C07", "The AES block cipher behind the DRBG is AES for every key and block",
 "For every key of 128, 192 or 256 bits and every block, encryption and decryption in the portable and in the hardware implementation equal FIPS 197, invert each other, allow in-place operation and touch only the output block. Other key lengths and short buffers are refused.",
 ["inputs", "histories"], "all keys, blocks, buffer overlaps and key lengths, re-keying of one object",
 "Tests use the FIPS vectors; table or key-schedule errors for particular bytes and key sizes are not reached.",
 ["drbg/internal/aes/"], [("key schedule", "drbg/internal/aes/generic.go, asm_amd64.s"), ("dispatch", "drbg/internal/aes/cipher*.go")],
 "property-based differential testing of both implementations against crypto/aes")
prop("C08", "CPU feature detection is truthful on every processor",
 "The features the library believes the processor to have are exactly those which the processor's identification reports, whatever it reports, and a build without assembly never claims features the processor lacks. No instruction of an optional extension is ever executed on a processor that does not report it.",
 ["configurations"], "all contents of the identification leaves the library consults, all cores",
 "Tests run on one machine, where a swapped register or bit often goes unnoticed because both bits are set.",
 ["utils/cpu.go", "utils/cpuid_amd64.go", "utils/cpuid_amd64.s"], [("leaf decoding", "utils/cpuid_amd64.go")],
 "property-based testing of the start-up code and, with assembly that notes the extensions it uses, of all operations over generated CPUID tables (simulated CPUID), and against the real processor")
prop("C09", "CSIDH: both parties always derive the same secret",
 "For every two private keys, and every sequence of exchanges in which keys are generated, transmitted in encoded form or reused, both parties derive the same 64-byte secret, and both derivations report success. The secret depends on the two key pairs only and never on the random numbers used while computing.",
 ["inputs", "histories"], "all pairs of private keys including extreme exponents, all randomness (points of low order included), all CPU paths",
 "Tests exchange a few random keys; extreme exponents and unlucky random points have negligible probability there.",
 ["dh/csidh/csidh.go", "dh/csidh/curve.go", "dh/csidh/fp511_generic.go", "dh/csidh/fp511_amd64.s"], [("group action", "dh/csidh/csidh.go groupAction"), ("isogenies", "dh/csidh/curve.go")],
 "property-based metamorphic testing (agreement, randomness independence) with adversarial random points")
prop("C10", "CSIDH: the key operation is the class group action the paper defines",
 "Public keys and shared secrets equal the Montgomery coefficients obtained by walking the isogenies which the private key's exponents prescribe, for every valid starting curve and private key. Hence applying keys is commutative and composable, and a key followed by its negation returns to the start.",
 ["inputs"], "all private keys and all valid public keys, all randomness",
 "Tests compare a list of precomputed vectors for full-size random keys; single degrees, signs and special exponents are never isolated.",
 ["dh/csidh/csidh.go", "dh/csidh/curve.go", "dh/csidh/consts.go"], [("group action", "dh/csidh/csidh.go groupAction"), ("curve arithmetic", "dh/csidh/curve.go")],
 "differential testing against an independent big-integer implementation, metamorphic composition and negation")
prop("C11", "CSIDH: public key validation accepts exactly the valid keys",
 "Validation accepts a public key if and only if it is a canonical field element, not plus or minus two, and the coefficient of a supersingular curve; the verdict never depends on the randomness used. Derivation from an invalid key fails and leaves the output alone.",
 ["inputs"], "all 512-bit strings, all randomness including points of low order",
 "Tests check a few valid and a few random invalid keys; boundary values, almost-supersingular orders and adversarial randomness are absent.",
 ["dh/csidh/csidh.go"], [("validation", "dh/csidh/csidh.go Validate, cofactorMul")],
 "property-based testing against an independent supersingularity decision, with constructed boundary keys")
prop("C12", "CSIDH: encodings of keys round-trip and depend on the input only",
 "Exporting an imported key returns the same bytes, and importing into an object replaces all of its previous content. Inputs and output buffers that are too short (for public keys: of any other length) are refused without effect on the key.",
 ["inputs", "histories"], "all byte strings of all lengths, dirty target objects",
 "Tests round-trip fresh keys only.",
 ["dh/csidh/csidh.go"], [("encoding", "dh/csidh/csidh.go Import/Export")],
 "property-based round-trip testing over histories of imports and exports")
prop("C13", "CSIDH: generated private keys are uniform in the key space and use the RNG only",
 "A generated private key is a function of the bytes the random source delivers, has the first 74 of them that lie between -5 and 5 (as signed bytes) as its exponents, which makes these uniform, and does not depend on how the source splits its deliveries. A failing source is reported as an error.",
 ["inputs", "fault_sequences"], "all random streams and read splittings, failures after any number of bytes",
 "Tests only check that exponents are in range for a few keys.",
 ["dh/csidh/csidh.go"], [("rejection sampling", "dh/csidh/csidh.go GeneratePrivateKey")],
 "property-based testing with injected random streams, chi-square tests with a false-alarm bound below 1e-9, fault injection")
prop("C14", "CSIDH: field arithmetic is arithmetic modulo p on every code path",
 "Each field operation (multiplication, addition, subtraction, exponentiation, comparison, conditional swap, inversion and residuosity as used) gives the residue modulo the 511-bit prime that integers give, for all operands, in place or not, and identically in the portable code and in the code for each kind of processor.",
 ["inputs", "configurations"], "all operands, concentrated on words of zeros and ones, values near p and carries; all CPU paths",
 "Tests multiply random values, which miss rare carries with overwhelming probability.",
 ["dh/csidh/fp511.go", "dh/csidh/fp511_generic.go", "dh/csidh/fp511_amd64.go", "dh/csidh/fp511_amd64.s"], [("Montgomery multiplication", "dh/csidh/fp511_*")],
 "property-based differential testing against math/big with carry-directed operand generators")
SIDH = ["dh/sidh/sidh.go", "dh/sidh/internal/p434/", "dh/sidh/internal/p503/", "dh/sidh/internal/p751/", "dh/sidh/common/"]
prop("C15", "SIDH: both parties always derive the same secret",
 "For each of the three fields and every pair of private keys of opposite kind, both parties derive the same shared secret, whether keys are used directly or after transmission in encoded form, repeatedly and in any order. Deriving writes exactly the documented number of bytes and changes neither key.",
 ["inputs", "histories"], "all key pairs including extreme scalars, all three fields, both key kinds on the 3-torsion side, all CPU paths",
 "Tests exchange a few random keys and fixed vectors per field.",
 SIDH, [("key generation and derivation", "dh/sidh/internal/p*/core.go"), ("public API", "dh/sidh/sidh.go")],
 "property-based metamorphic testing (agreement over histories)")
prop("C16", "SIDH: public keys and secrets are those of the specification",
 "For every private key, the public key, and for every private key and valid public key the shared secret, equal byte for byte those the SIKE specification defines for the parameter sets p434, p503 and p751.",
 ["inputs"], "all private keys and public keys, all three fields, non-canonical encodings of coordinates included",
 "Tests compare a few vectors; both parties of an agreement test share every mistake.",
 SIDH, [("isogeny trees", "dh/sidh/internal/p*/core.go"), ("curve arithmetic", "dh/sidh/internal/p*/curve.go")],
 "differential testing against an independent big-integer implementation of the specification (itself checked against NIST vectors)")
prop("C17", "SIDH: encodings of keys round-trip and depend on the input only",
 "Importing and then exporting a key of any kind returns the encoding of the same key, and nothing of what the object held before survives an import. Input of the wrong length is refused with an error, and key sizes are reported correctly.",
 ["inputs", "histories"], "all byte strings of all lengths, all key kinds, dirty target objects",
 "Tests import well-formed vectors into fresh objects only.",
 ["dh/sidh/sidh.go", "dh/sidh/common/utils.go"], [("encoding", "dh/sidh/sidh.go Import/Export, dh/sidh/common/utils.go")],
 "property-based round-trip testing over histories of imports, exports and generations")
prop("C18", "SIDH/SIKE: generated keys cover the key space and report RNG failure",
 "A generated private key is a function of the bytes delivered by the random source, lies in the key space the specification defines and reaches all of it (the delivered bytes are the scalar in little-endian order, cut to the key space's number of bits and with the highest one set), and the secret used for rejection is drawn from the source too, before the scalar. When the source fails at any point or delivers in small pieces, generation reports an error or, respectively, the same key.",
 ["inputs", "fault_sequences"], "all random streams and read splittings, failure after every number of bytes, all key kinds",
 "Tests generate a few keys from a working source.",
 ["dh/sidh/sidh.go"], [("sampling", "dh/sidh/sidh.go Generate")],
 "property-based testing with injected random streams and enumerated faults; counting of reached bits", level="fault_enumeration")
prop("C19", "SIDH/SIKE: misuse is refused and leaves objects usable",
 "Keys of the wrong kind or of another field, buffers that are too small, ciphertexts of any wrong length and uninitialised objects are refused, and no secret is output. After a refused call the objects involved work as before.",
 ["inputs", "histories"], "all combinations of key kinds, fields and buffer lengths, for the SIDH functions and all KEMs, anywhere in a history",
 "Tests check some panics with one wrong length each; other lengths and the state afterwards are not.",
 ["dh/sidh/sidh.go", "dh/sidh/sike.go", "kem/mkem/sike.go"], [("argument checks", "dh/sidh/sike.go, kem/mkem/sike.go, dh/sidh/sidh.go")],
 "enumeration of misuse and generated histories with misuse, output canaries")
prop("C20", "SIDH: field arithmetic is exact on every code path",
 "For p434, p503 and p751, addition, subtraction, multiplication, reduction, conversion, inversion and conditional swaps in the prime field and its quadratic extension give the residues that integer arithmetic gives, for all operands in the documented ranges, in place or not, in the portable code and in the code for each kind of processor.",
 ["inputs", "configurations"], "all operands, concentrated on words of zeros and ones, values near p and 2p; all CPU paths",
 "Tests use quickcheck with uniformly random values, which miss rare carries with overwhelming probability.",
 ["dh/sidh/internal/p434/", "dh/sidh/internal/p503/", "dh/sidh/internal/p751/"], [("prime field", "dh/sidh/internal/p*/arith_*"), ("extension field", "dh/sidh/internal/p*/fp2.go")],
 "property-based differential testing against math/big with carry-directed operand generators")
KEM = ["dh/sidh/sike.go", "kem/mkem/sike.go"]
prop("C21", "SIKE: every honest ciphertext decapsulates to the encapsulated key",
 "For every key pair and random stream, the recipient's key equals the sender's, in every history of encapsulations, decapsulations, resets, failures and re-initialisations of the objects used, with buffers of any permitted size. No ciphertext or key repeats, only the documented number of bytes is written, and key pairs are not changed.",
 ["inputs", "histories"], "all key pairs, messages and histories over one or two KEM objects of both implementations, all fields and CPU paths",
 "Tests do single round trips with buffers of the exact size.",
 KEM, [("encapsulation", "dh/sidh/sike.go Encapsulate"), ("decapsulation", "dh/sidh/sike.go Decapsulate")],
 "stateful property-based testing (round trip over generated histories)")
prop("C22", "SIKE: ciphertexts and keys are those of the specification",
 "Encapsulation with given randomness produces the ciphertext and key which the SIKE specification prescribes, byte for byte, and decapsulation of every string of the right length produces the key it prescribes, for p434, p503 and p751.",
 ["inputs"], "all key pairs, messages and ciphertexts (honest, crafted and made for other keys)",
 "Tests check the NIST vectors and round trips; both directions share mistakes.",
 KEM, [("hash inputs", "dh/sidh/sike.go")],
 "differential testing against an independent implementation of the specification")
prop("C23", "SIKE: every modified ciphertext is implicitly rejected",
 "Decapsulating anything but the honest ciphertext never gives the encapsulated key and never an error: it gives the key derived from the private key's secret value and the ciphertext received, as the specification prescribes. This holds for a change of any part, down to a single bit, and rejecting has no effect on later decapsulations.",
 ["inputs"], "all ciphertexts of the right length, in particular every single-bit change, exchanged parts and non-canonical encodings of the same values",
 "Tests flip single chosen bytes.",
 KEM, [("re-encryption check", "dh/sidh/sike.go Decapsulate"), ("selection", "dh/sidh/common/utils.go Cpick")],
 "property-based mutation of ciphertexts with exhaustive byte coverage against the prescribed rejection key")
prop("C24", "KEMs: a failing random source never yields a ciphertext or key",
 "If the source of randomness fails, runs dry or delivers too few bytes at any point of an encapsulation, an error is returned and neither ciphertext nor key is written. The object works again as soon as the source does, and how the source splits its deliveries, or what it says along with the last byte that was asked for, doesn't matter.",
 ["fault_sequences"], "failure after every number of bytes, all kinds of errors, all read splittings, single- and multi-recipient KEMs, all fields",
 "Tests use sources that always work.",
 KEM, [("reading the ephemeral secret", "dh/sidh/sike.go Encapsulate, kem/mkem/sike.go Encapsulate")],
 "enumerated fault injection into the random source", level="fault_enumeration")
prop("C25", "Multi-recipient KEM: every recipient gets the sender's key",
 "After encapsulation to any list of recipients, every recipient decapsulates the sender's key from the shared part and the part made for him, in any order and repeatedly, through resets, and for repeated or fewer recipients than allocated. Shared part, individual parts and key are exactly those of the published construction.",
 ["inputs", "histories"], "all lists of recipients, key pairs, messages and histories of one object",
 "Tests encapsulate once to fresh keys.",
 ["kem/mkem/sike.go"], [("encapsulation", "kem/mkem/sike.go MultiKEM.Encapsulate"), ("decapsulation", "kem/mkem/sike.go MultiKEM.Decapsulate")],
 "stateful property-based testing plus differential testing against the formulas over the reference SIDH")
prop("C26", "Multi-recipient KEM: every modified ciphertext is implicitly rejected",
 "A change of any bit of a recipient's part or of the shared part, a part made for somebody else or for an earlier encapsulation, or the use of another public key gives the recipient a key derived from the secret value in his private key and never the sender's key. Afterwards honest ciphertexts still decapsulate.",
 ["inputs"], "all modifications of both parts, every single byte included",
 "Tests change nothing or one byte.",
 ["kem/mkem/sike.go"], [("re-encryption check", "kem/mkem/sike.go MultiKEM.Decapsulate")],
 "property-based mutation of ciphertexts with exhaustive byte coverage against the prescribed rejection key")
prop("C27", "The two SIKE implementations of the library are interchangeable",
 "Given the same keys, randomness and sequence of calls, the KEM in the Diffie-Hellman package and the single-recipient KEM in the multi-recipient package produce the same ciphertexts, keys, errors and refusals.",
 ["histories"], "all histories, including wrong lengths and failing randomness",
 "Each implementation is only tested by itself.",
 KEM, [("duplicated code", "dh/sidh/sike.go and kem/mkem/sike.go")],
 "differential testing of the two implementations in lockstep")
prop("C28", "CSIDH encryption: every ciphertext decrypts to its message",
 "Whatever was done with the objects before, each recipient of a single- or multi-recipient encryption decrypts exactly the message, the message is masked with a keystream derived from the shared secret with that recipient, and each encryption uses a fresh ephemeral key. Inputs are never changed, and encryption to an invalid key never uses a keystream anybody can compute.",
 ["histories", "inputs"], "all key pairs, messages, lists of recipients and histories over several objects",
 "Tests decrypt one zero message with fresh objects.",
 ["kem/mkem/csidh.go"], [("masking", "kem/mkem/csidh.go Enc/Dec/Encrypt")],
 "stateful property-based testing with a keystream oracle", note="encryption to invalid keys is a listed known finding")
prop("C29", "What SIDH, SIKE and the hashes execute does not depend on secrets",
 "For given public inputs and lengths, the branches taken, the number of loop iterations and the positions of tables and buffers accessed by SIDH key generation and key agreement, SIKE and multi-recipient encapsulation and decapsulation, and the hash functions are the same for all private keys, secret values S, messages and random bytes, and the same for accepted and rejected ciphertexts. The same holds for the CSIDH field functions declared constant time (addition, subtraction, multiplication, exponentiation of secret bases, conditional swap, comparisons). The assembly of the field arithmetic executes the same sequence of instructions for all operands.",
 ["inputs"], "all pairs of secrets under equal public inputs; Go code of the portable build; field arithmetic, hashes and private keys on the processor",
 "Tests look at results only; a branch on a secret bit or an early exit of a comparison changes no result.",
 ["dh/sidh/", "hash/sha3/", "kem/mkem/sike.go", "dh/csidh/fp511.go", "dh/csidh/fp511_generic.go", "dh/csidh/fp511_amd64.s"], [("conditional swaps and moves", "dh/sidh/internal/p*/curve.go ScalarMul3Pt, arith_generic.go; dh/csidh/fp511.go"), ("re-encryption check", "dh/sidh/sike.go, kem/mkem/sike.go Decapsulate; dh/sidh/common/utils.go Cpick")],
 "property-based non-interference testing: pairs of executions of automatically instrumented sources must report equal traces of blocks and positions; the same for single-stepped assembly and compiled code")
ALL = ["hash/", "drbg/", "dh/csidh/", "dh/sidh/", "kem/mkem/", "utils/"]
prop("C30", "Independent objects never influence each other",
 "Operations on separate objects give the results they give alone, however they are interleaved: in turns, in parallel, or one started from within the random source of another. There is no data race between them, and SIDH keys may be used by several operations at once.",
 ["schedules"], "all interleavings of operations on hashes, generators, key exchanges, KEMs and encryption",
 "Tests are sequential and use one object at a time; package-level state shows only when operations overlap.",
 ALL, [("package-level state", "every package"), ("parameter tables", "dh/sidh/common/params.go")],
 "generated schedules over cooperative operations, parallel stress with comparison to isolated runs, race detector")
prop("C31", "All builds and code paths of the library agree",
 "The library builds for each architecture and with each build tag it provides for (without assembly, the restricted environment tag, 32-bit and other platforms), and every operation gives the same bytes on all of them and for every set of processor features.",
 ["configurations", "inputs"], "architectures amd64, 386 (run) and others (compiled), tags noasm and appengine, processor features on and off; operations on every part",
 "Tests run one build on one processor.",
 ALL, [("assembly and generic variants", "dh/csidh/fp511_*, dh/sidh/internal/p*/arith_*, hash/sha3/keccakf*, drbg/internal/aes/cipher_*")],
 "differential testing of transcripts between processes of different builds and between CPU paths; compile matrix")
prop("C32", "Callers' memory is respected",
 "Every operation reads only the inputs and writes only the documented part of the outputs it was given, wherever in memory and however aligned they are and however much longer the buffers are. Inputs are left unchanged, and what the caller does to its buffers after a call has no effect on the library's objects.",
 ["inputs", "histories"], "all operations, buffer alignments, lengths and positions next to inaccessible memory, all later changes of the buffers",
 "Tests use freshly allocated buffers of the exact size and never look at their surroundings.",
 ALL, [("copying of inputs", "constructors and Import functions"), ("word-wise access", "hash/sha3/xor_unaligned.go, assembly")],
 "property-based metamorphic testing with canaries, inaccessible pages and overwritten buffers")
prop("C33", "SIDH domain parameters are the specified ones and the table is guarded",
 "For each parameter set, sizes, starting curve, torsion points and computation strategies are those of the specification or consistent with it, in every build. Unknown parameter sets are refused everywhere, and a registered parameter set can be looked up unchanged and never be replaced.",
 ["inputs", "histories"], "all parameter sets and all identifiers, histories of registrations and look-ups",
 "Tests use the parameters but compare none of them with the specification.",
 ["dh/sidh/common/params.go", "dh/sidh/internal/p434/params.go", "dh/sidh/internal/p503/params.go", "dh/sidh/internal/p751/params.go"], [("parameter table", "dh/sidh/common/params.go Register/Params")],
 "enumeration of parameters against the reference (orders, simulation of strategies) and model-based testing of the table")
prop("C34", "KEM: Reset erases the secrets of earlier operations",
 "After Reset, a SIKE or multi-recipient KEM object holds no message, ephemeral private key or value shared with a recipient of any encapsulation or decapsulation before, whether that succeeded, was rejected or failed; and it never keeps anything of a recipient's private key or secret value S.",
 ["histories", "inputs"], "histories of encapsulations, decapsulations of honest and modified ciphertexts, failing random sources and resets, all keys and messages, three fields, both implementations and the multi-recipient KEM",
 "Tests call Reset but look at outputs only, never at what stays in memory.",
 ["dh/sidh/sike.go", "kem/mkem/sike.go"], [("erasing", "dh/sidh/sike.go, kem/mkem/sike.go Reset")],
 "property-based testing over histories; the memory reachable from the object is searched for pieces of the known secrets before and after Reset")

UNCLAIMED = [dict(id="C90", title="Machine code runs in time independent of secrets",
 statement="How many cycles an operation of SIDH or SIKE takes on a processor, including the assembly implementations, does not depend on private keys or shared secrets.",
 quantifier=dict(over=["inputs"], text="all private keys and ciphertexts, all processors"),
 why_tests_cant="Tests look at results only.",
 anchors=dict(files=["dh/sidh/internal/p434/arith_amd64.s", "dh/sidh/internal/p503/arith_amd64.s", "dh/sidh/internal/p751/arith_amd64.s", "dh/csidh/fp511_amd64.s"], mechanism=[dict(name="assembly", where="dh/sidh/internal/p*/arith_amd64.s, dh/csidh/fp511_amd64.s")]))]
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for d in [p[0] for p in P] + UNCLAIMED:
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="true",
 hooks=dict(guard="build tags hk_aes, hk_csidhflags, hk_csidhfp, hk_sidhflags, hk_sidhfp", enable="bin/check lays harness/_overlay over /repo with go build -overlay and sets the tags; no guarded code is committed in /repo"),
 checks=[dict(property=d["id"], quick_cmd="bin/check " + d["id"], thorough_cmd="VERIF_TIER_ARG=thorough bin/check " + d["id"], technique=t, level=l,
   level_note=(n + "; " if n else "") + "generated-input search; nothing is proved beyond the cases run, which the evidence file counts") for d, t, l, n in P],
 not_applicable=[dict(property="C90", reason="cycle counts are a property of the machine; statistics of timing over generated inputs give no sound verdict on a shared sandbox, and C29 claims what can be decided: the sequence of executed blocks and instructions")])
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
