# What each check builds and runs.
COMMON = ["-g", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CONFIGS = {
    # as shipped: optimised, assertions off
    "rel": {"flags": ["-O2", "-DNDEBUG", *COMMON]},
    # optimised, assertions on
    "dbg": {"flags": ["-O2", *COMMON]},
    "asan": {"flags": ["-O1", "-D_GLIBCXX_ASSERTIONS", *SAN, *COMMON]},
    "asann": {"flags": ["-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", *SAN, *COMMON]},
    "tsan": {"flags": ["-O1", "-fsanitize=thread", *COMMON], "hooks": ["gmp_tsan.cpp"]},
    "memcheck": {"flags": ["-O1", "-DNDEBUG", "-DRH_MEMCHECK", *COMMON],
                 "prefix": ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--num-callers=12", "--leak-check=no", "--vgdb=no"]},
}
TRUST = ["libgmp, libcrypto and the sanitizer runtimes are not themselves instrumented"]


def slots(classes):
    """C18: slots per round (or mask) and comparison state over all processes; each must occur, near a third of the time (9 sigma)."""
    out, groups = [], {}
    for c, n in classes.items():
        if c.startswith("slot:"):
            _, rnd, st, slot = c.split(":")
            groups.setdefault((rnd, st), {})[slot] = n
            if rnd != "mask":
                groups.setdefault(("any round", st), {}).setdefault(slot, 0)
                groups[("any round", st)][slot] += n
    for (rnd, st), g in sorted(groups.items()):
        n = sum(g.values())
        if n < 50:
            continue
        sigma = (n * 2 / 9) ** 0.5
        for s in "012":
            k = g.get(s, 0)
            if k == 0 or abs(k - n / 3) > 9 * sigma:
                out.append(("slot-bias", "round %s, state %s: slot %s opened %d times of %d" % (rnd, st, s, k, n)))
    pairs = {}
    for c, n in classes.items():
        if c.startswith("joint:") and c.count(":") == 3:
            _, what, a, b = c.split(":")
            pairs.setdefault(what, {})[a, b] = n
    for what, h in sorted(pairs.items()):
        cells = len({a for a, _ in h}) * len({b for _, b in h})
        if cells > 1 and sum(h.values()) >= 40 * cells and 4 * len(h) <= 3 * cells:
            out.append(("slots-related", "%s: %d of %d combinations occur in %d observations" % (what, len(h), cells, sum(h.values()))))
            continue
        # and as often as independence makes them: chi square, far beyond any chance (p below 1e-14)
        n, ra, rb = sum(h.values()), {}, {}
        for (a, b), k in h.items():
            ra[a] = ra.get(a, 0) + k
            rb[b] = rb.get(b, 0) + k
        if cells > 1 and min(ra.values()) * min(rb.values()) >= 10 * n:
            chi = sum((h.get((a, b), 0) - ra[a] * rb[b] / n) ** 2 * n / (ra[a] * rb[b]) for a in ra for b in rb)
            df = (len(ra) - 1) * (len(rb) - 1)
            if chi > df + 10 * (2 * df) ** 0.5 + 45:
                out.append(("slots-related", "%s: chi square %.0f with %d degrees of freedom in %d observations" % (what, chi, df, n)))
    return out


C19ALL = "fields,points,bytes,small-frames,aes,dme,ot,opprf,opprf-hostile,opprf-masks,shamir,puda,puda-garbage,elgamal"
# the other drivers, and how much of their workload is run under the sanitizers here
OTHERS = [(1, 0.02), (2, 0.02), (3, 0.004), (4, 0.01), (6, 0.02), (8, 0.02), (9, 0.02), (10, 0.03), (14, 0.05), (15, 0.03), (16, 0.03), (23, 0.02)]
PLAN = {
    "C01": {
        "driver": "c01.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.1, "tscale": 0.02}],
        "need": {"pair:secp256r1_p": 1000, "pair:secp256r1_n": 1000, "pair:bn254_p": 1000, "pair:bn254_n": 1000, "chainop:*": 10000},
        "rule": "pairs of integers (boundary table crossed with itself; random with locality) put through every operator, and random operator "
                "programs with aliasing, compared with BIGNUM arithmetic; a case is an operator with its result value",
        "assumptions": ["OpenSSL BIGNUM arithmetic is correct", *TRUST],
    },
    "C02": {
        "driver": "c02.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.1, "tscale": 0.02}],
        "need": {"pair:inf-left": 100, "pair:inf-right": 100, "pair:inf-inf": 2, "pair:equal": 100, "pair:opposite": 100, "pair:generic": 5000,
                 "curve:secp256r1": 3000, "curve:bn254": 3000, "validity:off": 1000, "chainop:*": 5000},
        "rule": "pairs of points (a pool of edge points crossed with itself; random with related operands), random operator programs and off-curve "
                "points, on both curves, compared with OpenSSL's generic EC code; a case is an operation with its result point",
        "assumptions": ["OpenSSL EC arithmetic is correct", *TRUST],
    },
    "C03": {
        "driver": "c03.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.03, "tscale": 0.01}],
        "need": {"curve:secp256r1": 2000, "curve:bn254": 2000, "scalar:negative": 200, "scalar:zero-mod-order": 50, "scalar:above-order": 200, "point:inf": 20, "laws": 500},
        "rule": "scalars (boundary table, every bit length, sparse, dense, long runs, negative, oversized, one bit apart) times points of a pool or random, "
                "in all four spellings, compared with OpenSSL's generic EC code, and the linearity laws; a case is a spelling with its result",
        "assumptions": ["OpenSSL EC arithmetic is correct", *TRUST],
    },
    "C04": {
        "driver": "c04.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.05, "tscale": 0.01}],
        "need": {"x:on-curve": 5000, "x:no-point": 5000, "roundtrip": 5000, "decode-after-none": 500, "curve:secp256r1": 1000, "curve:bn254": 1000},
        "rule": "x coordinates (small, from the top, around powers of two, random) evaluated, encoded and decoded into fresh and reused objects; a case is an x or an encoding",
        "assumptions": ["OpenSSL BIGNUM arithmetic is correct", *TRUST],
    },
    "C05": {
        "driver": "c05.cpp",
        "runs": [{"config": "rel"}],
        "need": {"extreme": 5000, "transfer-message": 3000, "statistics:*": 20, "mixed": 10, "threads": 8, "new-thread": 1000, "process": 20},
        "rule": "values drawn from every generator of the library in one process, in simultaneous threads, in newly started threads and in simultaneously "
                "started processes; every 96-bit window of every value (and of differences) must be new, every value in range, every bit and every sixteenth of the range balanced to 8 sigma; a case is a drawn value",
        "assumptions": ["the operating system's random device works", *TRUST],
    },
    "C06": {
        "driver": "c06.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.06, "tscale": 0.01}],
        "need": {"mode:messy": 20, "mode:dec": 20, "mode:plain": 20, "mode:foreign": 20, "branch:0": 100, "branch:1": 100, "message:inf": 20, "message:int": 200,
                 "scalars:hostile": 10, "encoding": 5000, "encoding:long-search": 40, "structs:*": 100, "related": 500, "crafted": 3000},
        "rule": "histories of key generations, encryptions and decryptions by several objects sharing one CRS (full-range, short and degenerate scalars through the "
                "interposed generator), integer encodings (boundary, consecutive, random), crafted ciphertexts that share components and keys near one another opened in any order, and structures differing in one component; a case is a ciphertext or an integer",
        "assumptions": TRUST,
    },
    "C07": {
        "driver": "c07.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.05, "tscale": 0.01}],
        "need": {"history:long": 1500, "history:trap": 500, "hiding": 100, "relation-test": 500, "small-exponent-test": 20, "messy-key": 200, "trap-key": 200, "crs:messy": 50, "crs:dec": 50, "crs:plain": 50, "history": 20},
        "rule": "ciphertexts made over CRSs whose discrete logarithms the monitor knows, tested for every relation t=k*s, s=k*t, |k|<=8, alone and in differences, for small "
                "exponents and for shared masks; messy and decryption CRSs with their trapdoors; a case is a ciphertext or a relation test",
        "assumptions": ["relations between the encryption exponents other than those tested (for instance through a hash) are not observable", *TRUST],
    },
    "C08": {
        "driver": "c08.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.05, "tscale": 0.01}],
        "need": {"crafted": 80, "eval": 100, "aggregate": 200, "senders:1": 20, "branch:0": 50, "branch:1": 50, "other-branch-tested": 100, "many-senders": 4, "pair-again": 50, "same-ciphertext-twice": 30},
        "rule": "random numbers of ciphertexts combined in random order and grouping, and proxies aggregating several times for several senders, receivers and branches; a case is an aggregate",
        "assumptions": TRUST,
    },
    "C09": {
        "driver": "c09.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.05, "tscale": 0.01}],
        "need": {"long": 1200, "transfer": 500, "choice:0": 100, "choice:1": 100, "choice-changed": 100, "other-tested": 300, "messages:equal": 20, "messages:int": 100, "interleaved": 50, "sequence": 300},
        "rule": "histories of transfers between several senders and receivers over one CRS with changing choices; each transfer is also attacked with the receiver's key "
                "(other slot, mixed slots, differences, sums, masks of earlier transfers); a case is a ciphertext",
        "assumptions": TRUST,
    },
    "C10": {
        "driver": "c10.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.1, "tscale": 0.01}],
        "need": {"chosen:*": 1200, "chosen:zero-share": 200, "enormous": 3, "subset:exactly-t": 2000, "subset:more": 2000, "polynomial": 500, "sum": 100, "reuse": 50, "huge": 2, "t=n": 20, "t=1": 20},
        "rule": "all (t,n) with n <= 6 and all subsets in two orders; random larger ones; sums of sharings; many live sharings of one object; every sharing interpolated in "
                "independent arithmetic; a case is a subset of shares",
        "assumptions": TRUST,
    },
    "C11": {
        "driver": "c11.cpp",
        "runs": [{"config": "rel"}],
        "need": {"sharing": 500, "below-threshold": 500, "spread": 8, "two-sharings": 200, "large-threshold": 8},
        "rule": "coefficients recovered from shares by independent interpolation must be new, large and unrelated; coefficients and shares binned over the field "
                "for fixed secrets (9.5 sigma); a case is a coefficient or a share",
        "assumptions": TRUST,
    },
    "C12": {
        "driver": "c12.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.04, "tscale": 0.01}],
        "need": {"cancelling": 40, "crowd": 20, "wide-setup": 5, "aggregate": 500, "sum:0": 2, "sum:65535": 1, "sum:large": 30, "users:1": 10, "time:negative": 50, "history": 10, "many-users": 4, "setup": 100},
        "rule": "setups, messages, timestamps and orders drawn at random with boundary sums; sums compared with the messages, keys, ciphertexts and tags with the prescribed "
                "group elements in OpenSSL arithmetic; a case is an aggregate or a ciphertext",
        "assumptions": ["the base of a timestamp is read off an encryption of 0 under key 1", *TRUST],
    },
    "C13": {
        "driver": "c13.cpp",
        "runs": [{"config": "rel"}],
        "need": {"honest": 200, "forged:*": 1000},
        "rule": "honest aggregates must verify; the same with the sum, tag, timestamp or key exchanged must not; a case is a verification",
        "assumptions": TRUST,
    },
    "C14": {
        "driver": "c14.cpp",
        "runs": [{"config": "rel", "scale": 4, "tscale": 1}, {"config": "asan", "scale": 0.1, "tscale": 0.02}],
        "need": {"big": 6, "checksum": 10000, "alignment:*": 10000, "frame": 10000, "frame:short": 100, "frame:long": 1000, "arbitrary": 3000, "damage:1 bit": 10000,
                 "damage:2 bits": 1000, "damage:3 bits": 1000, "damage:4 bits": 1000, "damage:5 bits": 1000, "damage:burst": 5000},
        "rule": "buffers (every length below 300, random lengths, contents, alignments, starting values, cuts), integers, damaged frames and arbitrary integers, "
                "compared with a bit-by-bit CRC-32C; a case is a buffer or an integer",
        "assumptions": TRUST,
    },
    "C15": {
        "driver": "c15.cpp",
        "runs": [{"config": "rel", "scale": 4, "tscale": 1}, {"config": "asan", "scale": 0.1, "tscale": 0.02}],
        "need": {"big": 3, "iv:kept": 500, "roundtrip": 5000, "crc-roundtrip": 5000, "wrong-key": 5000, "corrupted:*": 5000, "message:zero-ciphertext": 1000, "message:zero": 10,
                 "length:>128": 1000, "key:short": 1000, "iv:configured": 2000},
        "rule": "messages (every length up to 700 bytes, random content, leading zeros, ciphertexts that begin with zeros) under full, short and degenerate keys and IVs, "
                "compared with CTR mode built from single AES blocks; the same opened with other keys and after damage; a case is a key with a ciphertext",
        "assumptions": ["OpenSSL's AES block function is correct", "a wrong key passes the checksum with probability 2^-32", *TRUST],
    },
    "C16": {
        "driver": "c16.cpp",
        "runs": [{"config": "rel", "scale": 6, "tscale": 1}, {"config": "asan", "scale": 0.1, "tscale": 0.02}],
        "need": {"big": 6, "integer": 10000, "integer:zero": 1, "string": 10000, "string:leading-zeros": 1000, "string:empty": 1, "huge": 8},
        "rule": "integers (small, around powers of two, random) exported and byte strings (every short length, leading zeros) imported, several buffers alive at once, "
                "compared with conversions by hexadecimal digits; a case is an integer or a byte string",
        "assumptions": TRUST,
    },
    "C17": {
        "driver": "c17.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "sections": "positions,sequences,again,interleaved", "scale": 0.085, "tscale": 0.01}],
        "need": {"long": 140, "below": 100, "equal": 40, "above": 100, "bit:?<": 40, "bit:?>": 40, "bit:1?<": 20, "bit:1?>": 20, "sequence": 50, "interleaved": 20, "again": 28, "aborted:*": 20,
                 "full-range": 16, "crs:messy": 60, "crs:dec": 60, "crs:points": 60},
        "rule": "complete runs over the three kinds of CRS: first differing bit at every position and both ways with adversarial lower bits, boundary pairs, neighbours, random pairs, "
                "sequences on the same objects, interleaved pairs; results compared with K + xA in OpenSSL arithmetic; a case is a result",
        "assumptions": ["most runs use short nonzero exponents through the interposed generator; a share of them uses the full range", *TRUST],
    },
    "C18": {
        "driver": "c18.cpp",
        "runs": [{"config": "rel"}],
        "judge": slots,
        "need": {"long:full": 250, "session:lt": 80, "session:eq": 80, "session:gt": 80, "round": 5000, "sums": 300, "above-result": 80, "order": 80, "process": 8, "slot:mask:*": 1200, "stale-tested": 100000},
        "rule": "sessions played by a monitoring client that tries every key on every slot: openings, slots per round and state, every key, blinding element, mask and result "
                "compared with all earlier ones, shares and sums compared with the programmed value; slot orders of separately started processes; a case is a key or a sum",
        "assumptions": ["most sessions use short nonzero exponents through the interposed generator; symmetric keys are then still unpredictable", *TRUST],
    },
    "C23": {
        "driver": "c23.cpp",
        "runs": [{"config": "rel"}, {"config": "asan", "scale": 0.06, "tscale": 0.01}],
        "need": {"keys:full": 100, "history": 2000, "long": 2000, "message": 3000, "freshness": 500, "point": 300, "point:inf": 20, "mode:hostile": 500, "message:long-search": 20, "crafted": 2500},
        "rule": "keys, integers (boundary, consecutive, random) and points encrypted with full-range, short and degenerate scalars, opened with the right and a wrong key, added, crafted to share components, "
                "tested for small relations, in OpenSSL arithmetic; a case is a key or a ciphertext",
        "assumptions": TRUST,
    },
    "C25": {
        "driver": "c25.cpp",
        "runs": [{"config": "rel", "scale": 4, "tscale": 1}, {"config": "asan", "scale": 0.15, "tscale": 0.02}],
        "need": {"parameters": 2000, "curves-compared": 10000, "altered": 1000, "history": 80, "from-text": 20000, "base:*": 300, "read-back": 3000, "printed": 3000, "infinity": 1000, "threads": 20},
        "rule": "curve objects made in every way, compared with each other, with curves of one changed parameter and with the published parameters, before and after histories of operations and in threads; "
                "points and field elements (edge, random, off the curve, unreduced) through strings in every base and through printing; a case is a getter's value or a text",
        "assumptions": ["stream formatting is the default (decimal)", *TRUST],
    },
    "C26": {
        "driver": "c26.cpp",
        "runs": [{"config": "rel"}],
        "judge": slots,
        "need": {"key:dec": 1500, "key:points": 1500, "key:made": 2000, "client-key": 5000, "client-key:again": 400, "client:full": 30, "link-tested": 5000, "features": 10000, "joint-key": 8000, "joint-pairs": 20, "budget": 12, "answered": 60},
        "rule": "the public keys of receivers and of OPPRF clients over CRSs whose logarithms the monitor knows and over the library's own: taken back to a common base and searched for small multiples, "
                "recurring steps and public elements; some 150 functions of every key counted against the choice over all processes (7.7 sigma); secrets of 1 to 8 read off and tested for dependence; the same client run with the same random values against different servers; a case is a key",
        "assumptions": ["correlations other than those of the functions tested are not observable", *TRUST],
    },
    "C24": {
        "driver": "c24.cpp",
        "runs": [{"config": "rel"}],
        "need": {"long": 800, "crowd": 10, "hidden:*": 3000, "timestamp": 100, "time-zero": 20, "combination": 2000, "pair": 100, "setups": 200, "key-pair": 5000},
        "rule": "ciphertexts, tags and their small combinations (one user, several users, with the aggregator's key, several timestamps) searched for a discrete logarithm up to "
                "700000 with baby and giant steps; keys of several setups tested for small relations; a case is a group element or a key",
        "assumptions": ["relations other than the small ones tested are not observable", *TRUST],
    },
    "C19": {
        "driver": "c19.cpp",
        "crash_only": True,
        "runs": [
            {"config": "asan", "sections": C19ALL},
            {"config": "asann", "sections": C19ALL},
            {"config": "memcheck", "sections": C19ALL, "scale": 0.08, "tscale": 0.01},
            {"config": "asan", "sections": "encCRC", "shards": 1},
        ] + [{"config": "asan", "driver": "c%02d.cpp" % d, "scale": s, "tscale": s / 4} for d, s in OTHERS]
            + [{"config": "asan", "driver": "c18.cpp", "sections": "states", "scale": 0.04, "tscale": 0.01}],
        "need": {"fields": 1000, "points": 100, "encodings": 50, "off-curve": 20, "bytes": 1500, "frames": 300, "aes": 800, "dme": 50, "ot": 40, "opprf": 10, "opprf-hostile": 10,
                 "hostile:refused": 3, "masks:*": 50, "shamir": 200, "puda": 40, "elgamal": 80},
        "rule": "every public operation on boundary and hostile inputs under AddressSanitizer and UBSan with and without assertions and under memcheck, "
                "and the workloads of the other checks under the sanitizers; a case is a value an operation returned",
        "assumptions": ["memory inside libgmp and libcrypto is seen by memcheck only", "red zones and quarantine catch an error that stays inside another live object only by chance"],
    },
    "C20": {
        "driver": "c20.cpp",
        "runs": [{"config": "rel"}],
        "need": {"operation:*": 30, "repetitions": 50000, "refused*": 20, "allocations": 1000000},
        "rule": "every public operation, object construction and protocol run repeated over long-lived objects, with malloc and free interposed: live bytes compared over intervals of doubling length; "
                "a case is an operation",
        "assumptions": ["memory taken by anything but malloc is not seen", *TRUST],
    },
    "C21": {
        "driver": "c21.cpp",
        "runs": [{"config": "rel", "scale": 2, "tscale": 1}, {"config": "asan", "scale": 0.25, "tscale": 0.05}, {"config": "memcheck", "sections": "values,curves,lifetimes,owners,schemes,ot,puda,others", "scale": 0.034, "tscale": 0.004}, {"config": "memcheck", "sections": "opprf", "shards": 4, "scale": 0.17, "tscale": 0.01}],
        "need": {"type:*": 2000, "type:DME_DDH": 60, "type:OPPRF": 20, "type:Puda": 60, "type:OTrecv": 60, "type:Curve_bn254": 100, "assigned-over": 1000, "puda-kept": 20, "lifetime:curve": 3000, "lifetime:scheme": 300, "lifetime:ot": 80, "lifetime:opprf": 20, "owner:crs": 2000, "owner:scheme": 60, "owner:ot": 80, "owner:opprf": 8},
        "rule": "objects copied, assigned over others, self-assigned, kept in containers, returned, moved and destroyed in random order, some before others are used; copies taken in the "
                "middle of protocol runs; instances that follow one another doing the same with the same values, each used after the one before is gone; behaviour and independence checked, under the sanitizers and memcheck; a case is an object",
        "assumptions": ["points hold a pointer to their curve: an owner of the curve, or a copy of it, is kept alive while they are used", *TRUST],
    },
    "C22": {
        "driver": "c22.cpp",
        "runs": [{"config": "tsan", "scale": 1, "tscale": 0.1}, {"config": "rel"}],
        "need": {"cold start": 16, "pair": 250, "mixed": 60, "job:*": 1000, "same as alone": 500, "results": 20000},
        "rule": "threads started at a barrier on separate objects (some on one shared curve and common reference string): every kind of work against every other, cold starts, "
                "random mixes; watched by ThreadSanitizer with the accesses of libgmp announced to it, results compared with the same work done alone; a case is a job with its results",
        "assumptions": ["ThreadSanitizer sees only the interleavings that occurred, up to reordering its happens-before order allows", "libcrypto is not instrumented", *TRUST],
    },
}
