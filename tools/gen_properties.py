import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

F="includes/field_template.hpp"; E="includes/ecc_template.hpp"
p("C01","Prime-field arithmetic is exact and canonical",
"For each of the four prime fields (secp256r1 and bn254, base and scalar), building an element from any integer (negative, larger than the modulus, hundreds of bits) and applying any operator (+, -, unary -, *, / by nonzero, invert, square, multiplication by an integer, their compound assignments, also with both operands the same object) gives the unique representative in [0,p) of the exact integer result modulo that field's prime. The modulus of every result is the field's prime, operands that are not assigned to are left unchanged, and two elements compare equal exactly when they represent the same residue. Division by b is multiplication by the inverse of b, and b*invert(b) is 1 for every nonzero b.",
["inputs"],"all pairs of elements of the four fields, all integers as constructor and multiplier arguments, all operator sequences including self-aliasing",
"testsuit/test_fields.cpp checks 13 fixed results on two operands of one field; boundary residues, carries between limbs, negative or oversized integers, aliasing, compound operators and three of the four fields are never run.",
[F,"src/fields/field_secp256r1.cpp","src/fields/field_bn254.cpp"],
[("mpz_mod after every operation",F),("per-field prime constants","src/fields/*.cpp")],["getRawValue()/getField() of every result"])

p("C02","Curve points form the exact prime-order group",
"On secp256r1 and bn254, the sum, difference, doubling and compound sums of any two valid points, including the point at infinity on either side, equal points, opposite points and the same object twice, are the group-law results, are valid points of the same curve, and do not modify their operands. Addition is commutative and associative, infinity is the identity (P - infinity = P, infinity - P = -P, doubling infinity gives infinity) and P - P is infinity. A point reports itself valid exactly when it is infinity or satisfies its curve's equation, and two points compare equal exactly when they are the same group element.",
["inputs","histories"],"all operand pairs (generic, equal, opposite, infinity, aliased, small/large coordinates) and all chains of operations on both curves",
"testsuit/test_ecc.cpp checks six operations on two fixed points of one curve; infinity is only tried as an addend, bn254 is never built, and no algebraic law is checked.",
[E,"src/ecc/ecc_secp256r1.cpp","src/ecc/ecc_bn254.cpp"],
[("affine chord-and-tangent formulas with infinity flag",E+" operator+, operator-, pointDouble")],["getX()/getY()/isInf()/isValid() of every result"],
[("is_inf","point at infinity flag",E),("curve","pointer to curve parameters, null for infinity",E)])

p("C03","Scalar multiplication is exact for every scalar",
"For every valid point P (infinity included) and every integer k - zero, negative, equal to or larger than the group order - P*k equals the k-fold group sum, in every spelling (integer or scalar-field operand, operator or compound assignment), and leaves its operands unchanged. It depends on k only modulo the group order: P*order is infinity, P*(order+1) is P, P*(-1) is -P. It is linear: P*j + P*k = P*(j+k), (P*j)*k = P*(jk) and P*k + Q*k = (P+Q)*k.",
["inputs"],"all points and all integers, on both curves",
"The tests multiply one secp256r1 point by 10, 99 and 90912389; scalars of full width, 0, negatives, multiples of the order, sparse or dense bit patterns and bn254 are untested.",
[E],[("double-and-add over the binary expansion of the reduced scalar",E+" operator*")],["result point versus an independent EC implementation"])

p("C04","Point compression and curve evaluation round-trip",
"For every finite valid point P of either curve, decoding its compressed encoding gives back exactly P, P and -P have encodings that differ in exactly the sign bit, and distinct points have distinct encodings. Evaluating the curve at x returns a valid point with that x whenever one exists (the two evaluation functions return the two opposite roots) and infinity exactly when none exists; the right-hand-side evaluation returns x^3+ax+b. An object into which an encoding with no corresponding point was decoded becomes infinity and can still be used to decode the next encoding.",
["inputs","histories"],"all x coordinates and all points of both curves, all sequences of decodings into one object",
"One random secp256r1 point, always the same because the generator is unseeded, is encoded and decoded, and two points are re-evaluated; non-residues, the other root and bn254 are untested.",
[E],[("square root by exponent (p+1)/4 and a sign bit under the x coordinate",E+" getEncodedX, setEncodedX, evaluateP, evaluatePneg")],["getEncodedX(), coordinates after setEncodedX()"])

p("C05","Secret randomness is in range, fresh and independent",
"Every scalar, key, point and bit string the library draws lies in its documented range ([0, group order) or [0, 2^bits)), is spread over that whole range, and is not a repeat of an earlier draw; a generated key pair satisfies public = secret * generator. The generators are independent: the curve's scalars, the utility bit strings and the secret-sharing coefficients do not replay each other's output, nor does another thread. Two separately started processes do not draw the same values.",
["histories","configurations"],"all sequences of draws from all generators, in one process, several threads and several processes",
"No test looks at random values at all, and a test process cannot see that the next process draws the same ones.",
[E,"src/utilities/utilities.cpp","src/shamirss/shamirss.cpp"],
[("GMP random state per generator",E+" Curve::rand; src/utilities/utilities.cpp rand"),("getRandomScalar/getRandomPoint/generateKeyPair",E)],["returned scalars, points, key pairs, bit strings"])

p("C06","Dual-mode encryption decrypts to what was encrypted",
"For every common reference string (messy, decryption or plain random mode, created locally or received from another party and shared by several objects), both branches, every key generated for a branch and every message - any group element including infinity, or any integer that fits the encoding (below the field prime shifted right by ten bits, minus one) - decrypting a ciphertext made for that branch returns the message. Encoding an integer always gives a valid point that decodes to the same integer. Keys, ciphertexts, CRSs and trapdoors compare equal exactly when all their components are equal.",
["inputs","configurations","histories"],"all modes, branches, CRSs, keys, messages and interleavings of several objects sharing one CRS",
"testsuit/test_dme.cpp runs each mode once per branch with one fixed random message and one integer; encoding boundaries, infinity, many keys per object and ciphertext comparison are never exercised.",
["src/dme/dme.cpp","includes/dme.hpp"],[("KeyGen/Enc/Dec algebra and try-and-increment message encoding","src/dme/dme.cpp")],["Dec/DecDecode results, operator== of the structs"])

p("C07","Dual-mode guarantees: messy branches hide, trapdoors work",
"Every ciphertext is freshly randomised: encrypting twice, or on the two branches, never repeats a ciphertext component or a message mask, and no simple linear relation lets anyone cancel the masks. In messy mode a key is usable on exactly one branch, the trapdoor test names the other one, and a ciphertext on that messy branch does not determine its message even for someone who knows the key and every discrete logarithm in the CRS. In decryption mode the trapdoor key generator returns one public key and two secret keys that decrypt branch 0 and branch 1 respectively, and the CRS has the algebraic shape its mode demands.",
["inputs","histories"],"all CRSs of each mode, all keys, messages and sequences of encryptions",
"The tests decrypt the wrong branch a handful of times and compare; dropped or reused encryption randomness still decrypts correctly and fails the wrong branch, so they cannot notice it.",
["src/dme/dme.cpp"],[("two independent exponents s,t per encryption","src/dme/dme.cpp Enc"),("FindMessy/TrapKeyGen","src/dme/dme.cpp")],["ciphertext components against a CRS with known discrete logarithms"])

p("C08","Ciphertext aggregation is homomorphic",
"Combining any number of ciphertexts made for the same public key and branch, in any order and grouping, gives a ciphertext that decrypts to the group sum of the messages. The oblivious-transfer proxy, given the message pairs of any number (one or more) of senders, returns a pair from which the receiver obtains exactly the sum of the messages on its branch, for both branches, and not the other branch's sum. Aggregation does not depend on what the proxy aggregated before and leaves its inputs unchanged.",
["inputs","histories"],"all numbers of senders, orders, groupings, messages (repeated, opposite, infinity), branches and successive aggregations by one proxy",
"One aggregation of three senders on branch 0 and one addition of two ciphertexts are tested.",
["src/dme/dmhe.cpp","src/ot/dot.cpp","includes/dot.hpp"],[("componentwise addition","src/dme/dmhe.cpp Eval; src/ot/dot.cpp aggregate")],["decryption of the aggregate"])

p("C09","Oblivious transfer delivers the chosen message only",
"For every choice bit and every pair of messages (points or integers in the encodable range, equal ones included), the receiver recovers exactly the chosen message, over any number of consecutive transfers in which the same sender and receiver objects are reused and the choice changes. The receiver's key does not recover the other message, nor does the difference, sum or reuse of ciphertexts within or across transfers reveal it. Sender and receiver need share only the CRS.",
["inputs","histories"],"all choice sequences, message pairs and interleavings of transfers between several senders and receivers over one CRS, in each CRS mode",
"Three transfers with fixed choices are tested; long histories, interleaved sessions, equal or extreme messages and any check of the unchosen message are missing.",
["src/ot/ot.cpp","includes/ot.hpp"],[("branch selects the CRS half for the key","src/ot/ot.cpp selectMsg"),("one encryption per branch","src/ot/ot.cpp encMsgs")],["decryptMsg/decryptMsgDecode and attempted decryptions of the other slot"],
[("sk, b","receiver's current key and branch","includes/ot.hpp OTrecv")])

p("C10","Any threshold-sized set of shares reconstructs the secret",
"For every secret in the scalar field and every 1 <= t <= n, splitting returns n shares with the distinct nonzero indices 1..n, and reconstructing from any t or more distinct shares, in any order, returns exactly the secret. The shares lie on one polynomial of degree below t whose constant term is the secret. Sums of shares of different secrets with the same index reconstruct to the sum of the secrets, and one object can be reused for any number of sharings.",
["inputs","histories"],"all secrets, thresholds, share counts, subsets and orders",
"The test reconstructs the secret 11 once, from all 10 shares of a 7-of-10 sharing; no subset of size t, no order, no other threshold or secret is tried.",
["src/shamirss/shamirss.cpp","includes/shamirss.hpp"],[("Horner-free polynomial evaluation and Lagrange interpolation at 0","src/shamirss/shamirss.cpp")],["reconSecret result versus an independent interpolation"])

p("C11","Fewer shares than the threshold reveal nothing",
"With threshold t, every one of the t-1 non-constant coefficients behind a sharing is drawn fresh and uniformly from the whole scalar field for every sharing. Consequently fewer than t shares do not reconstruct the secret, shares of the same secret in two sharings are unrelated, and single shares are spread over the whole field whatever the secret is.",
["inputs","histories"],"all secrets, thresholds >= 2, share subsets of size below the threshold, and sequences of sharings",
"The test only reconstructs; sharings whose coefficients are small, constant, repeated or zero reconstruct just as well.",
["src/shamirss/shamirss.cpp"],[("random coefficients","src/shamirss/shamirss.cpp getShares")],["coefficients recovered from the shares by independent interpolation"])

p("C12","PUDA aggregation returns the exact sum and a consistent tag",
"For any number of users, any messages whose total is at most 65535 (zero and the maximum included) and any timestamp (negative included), aggregating all users' ciphertexts for that timestamp, in any order, returns exactly the sum of the messages. The aggregate tag is the tag the verification equation prescribes for that sum, timestamp and the verification key: sum of the user tags = H_t*sum(tk) + g*(a*sum) with the verification key (g2*sum(tk), g2*a). Aggregation keys cancel the encryption keys exactly, and consecutive timestamps and setups do not influence each other.",
["inputs","histories"],"all user counts, message vectors with sum <= 65535, timestamps, orders and histories of setups and rounds",
"The test aggregates the constant message 2 of 10 users once and never looks at the tag.",
["src/puda/puda.cpp","includes/puda.hpp"],[("keys that sum to zero","src/puda/puda.cpp Setup"),("exhaustive discrete logarithm","src/puda/puda.cpp compute_dlog")],["Agg result, tag versus recomputation from the keys"])

p("C13","PUDA verification accepts honest sums and rejects forged ones",
"Verification accepts the sum and tag that aggregation produced for honest users, for every timestamp, message vector and user count. It rejects a sum other than the one authenticated, a tag that was not produced from the users' tags, and a genuine pair presented for another timestamp or against another verification key.",
["inputs"],"all honest aggregates and all tampered sums, tags, timestamps and verification keys",
"The test calls Verify and ignores its result.",
["src/puda/puda.cpp"],[("verification equation","src/puda/puda.cpp Verify")],["Verify's result"])

p("C14","CRC-32C framing is correct and detects corruption",
"For every non-negative integer n, appending the checksum gives the big-endian bytes of n followed by their CRC-32C (polynomial 0x1EDC6F41, reflected, zero initial value and no final inversion, stored little-endian); the result validates, and removing the checksum returns n. The checksum routine agrees with that definition for every length, content, starting value and buffer alignment, and can be continued piecewise. An integer that differs from a valid frame of up to 655 bytes in 1 to 5 bits, or in any bits confined to four consecutive bytes, does not validate.",
["inputs"],"all integers of all lengths (zero and single bytes included), all error patterns of the stated classes, all buffer lengths and alignments",
"The test appends, validates and removes the checksum of one fixed 1024-bit integer; it never validates a corrupted one, and a consistent error in the tables would pass.",
["includes/crc.hpp","src/utilities/utilities.cpp"],[("slicing-by-8 tables and alignment prologue","includes/crc.hpp calculate_crc32c"),("appendCRC/validateCRC/removeCRC","includes/crc.hpp")],["frames and verdicts versus a bitwise CRC-32C"])

p("C15","Symmetric encryption round-trips and rejects wrong keys",
"For every non-negative integer message of any length (zero, messages and ciphertexts with leading zero bytes, messages longer than 128 bytes) and every 128-bit key (with leading zero bytes included), decrypting an encryption under the same key returns the message, with arguments in the order the header documents (key first). The low-order bytes of the ciphertext, as many as the message has, are AES-128-CTR of the message's big-endian bytes under the 16-byte big-endian key and the configured IV. With the checksummed variant, decrypting under a different key, or decrypting a ciphertext corrupted within the checksum's guarantee in the bytes that carry the message, yields zero.",
["inputs","histories"],"all keys, messages, IVs and sequences of encryptions and decryptions by any objects",
"One fixed 128-bit key and message go through the checksummed variant once; the one in 256 keys or ciphertexts that begin with a zero byte, long messages, and wrong keys are untested.",
["src/utilities/aes.cpp","includes/aes.hpp","includes/crc.hpp"],[("AES-CTR through OpenSSL EVP","src/utilities/aes.cpp"),("checksum inside the plaintext","src/utilities/aes.cpp encryptCRC/decryptCRC")],["ciphertexts and plaintexts versus a direct AES-CTR computation"],
[("iv","process-wide initial counter block","src/utilities/aes.cpp")])

p("C16","Integer/byte-string conversion is a bijection",
"Exporting a non-negative integer gives its shortest big-endian byte string (empty for zero), and importing any byte string gives the integer it spells, leading zero bytes included, so import after export is the identity for every size. The exported buffer is owned by the caller, independent of the integer and of later conversions, and the reported length is the number of bytes written. Neither direction changes its input.",
["inputs"],"all integers and all byte strings of all lengths",
"The conversions are only exercised indirectly on two integers.",
["src/utilities/utilities.cpp","includes/utilities.hpp"],[("mpz_export/mpz_import","src/utilities/utilities.cpp")],["buffers and integers"])

p("C17","OPPRF yields the programmed value exactly for x <= theta",
"For every 16-bit threshold theta, every 16-bit input x, every secret and every shared CRS, a complete run gives the client K + x*A when x <= theta, where K is the server's fresh secret point and A the programmed secret, and a different value when x > theta. No honest run aborts, throws or fails to decrypt. Runs are independent: after both sides are cleaned, also in the middle of a run that was given up or that the client refused, the same objects serve any sequence of further inputs, thresholds staying fixed, with the same guarantee. Within a session the server may be asked for any answer again, by the same or another client, and every client that completes its run obtains the value its own input gives.",
["inputs","histories"],"all (theta, x) pairs, secrets, key randomness (short or zero-leading keys included) and session sequences on one pair of objects",
"Three inputs below theta = 1000 are run once with fixed randomness; x = theta, x > theta, other thresholds, and key material with leading zero bytes are never reached.",
["src/opprf/opprf.cpp","includes/opprf.hpp"],[("three key chains lt/eq/gt across 16 OT rounds","src/opprf/opprf.cpp prepareKeysAndInputs"),("masks summing to zero","src/opprf/opprf.cpp sendEncryptedMasks")],["client result versus K + x*A"],
[("k_lt,k_eq,k_gt,ok,r,kopprf","per-session key material","includes/opprf.hpp OPPRFserver")])

p("C18","OPPRF leaks neither position, comparison state nor stale keys",
"In every round exactly one of the three keys offered on the client's branch opens with the key the client holds, and its slot, as well as the slot of the opening mask, is shuffled unpredictably: every slot occurs for every comparison outcome, and neither another session nor another process repeats the order. Keys, blinding elements, masks and the secret point are fresh in every session: none recurs between rounds or sessions, and no blinded share or incomplete sum of shares equals the programmed value. For x > theta the client's result is an unpredictable point that changes from run to run and is unrelated to K + x*A.",
["inputs","histories"],"all theta, x and session sequences observed from the client's side of the protocol",
"The test compares only the final result; sending the keys unshuffled, reusing keys between sessions or returning a fixed result above the threshold passes it.",
["src/opprf/opprf.cpp"],[("shuffle of the three ciphertexts","src/opprf/opprf.cpp runOTRound, sendEncryptedMasks"),("clean()","src/opprf/opprf.cpp")],["messages of the protocol as received by an independent client"])

p("C19","No operation has memory errors or undefined behaviour",
"Every public operation of the library, on every input in its domain (boundary sizes, zero, infinity, long messages, short keys, damaged ciphertexts and frames, repeated and interleaved sessions), runs without out-of-bounds access, use of freed or uninitialised memory, invalid free, null dereference or other undefined behaviour, in the optimised and in the asserting build. Hostile inputs of the right type - malformed frames, garbage ciphertexts, encodings of no point - are refused or give a wrong value, never memory errors.",
["inputs","histories","configurations"],"all public calls, input sizes and call sequences, under assertions on and off",
"The test suite runs uninstrumented on benign inputs, where an overflow of four heap bytes or an over-read goes unnoticed.",
["src/utilities/aes.cpp","includes/crc.hpp","src/utilities/utilities.cpp","includes/ecc_template.hpp","src/dme/dme.cpp","src/opprf/opprf.cpp","src/puda/puda.cpp"],[("buffer sizing and pointer lifetimes","src/utilities/aes.cpp, includes/crc.hpp")],["sanitizer and memcheck reports"])

p("C20","Repeated operation does not accumulate memory",
"Any operation or protocol run, repeated arbitrarily often with its results discarded and its objects cleaned or destroyed, leaves the amount of live heap memory bounded: it does not grow with the number of repetitions. This holds for successful operations and for those that reject their input.",
["histories"],"all operations, repetition counts and outcomes",
"Each test runs an operation once or a few times and exits; leaks have no effect on its verdict.",
["src/utilities/aes.cpp","includes/crc.hpp","src/utilities/utilities.cpp","src/opprf/opprf.cpp","src/dme/dme.cpp"],[("ownership of exported buffers and curve objects","src/utilities/*.cpp, src/dme/dme.cpp")],["live heap bytes at quiescent points"])

p("C21","Copies of objects are safe and behave as the original",
"Field elements, points, curves, keys, ciphertexts, shares, encryption schemes, OT parties, OPPRF parties and PUDA instances can be copied, assigned, moved into containers, returned by value and destroyed in any order: a copy behaves as its original did at the moment of copying, neither is affected by later changes to the other, and each remains usable after the other is destroyed. Nothing is freed twice or used after it was freed.",
["histories"],"all copy/assign/destroy/use sequences over all public types",
"No test copies an object that owns anything.",
["includes/dme.hpp","src/dme/dme.cpp","src/puda/puda.cpp","includes/ecc_template.hpp","includes/ot.hpp","includes/opprf.hpp"],[("ownership of the curve object","includes/dme.hpp, includes/puda.hpp"),("generator's pointer to its curve",E)],["results of using copies after their originals are gone"])

p("C22","Threads working on separate objects do not interfere",
"Threads that work on distinct objects - field and point arithmetic (also on one shared read-only curve), key generation, encryption, OT, OPPRF, secret sharing, PUDA, checksums and AES - get the results they would get alone, without data races. Threads that draw randomness at the same time never obtain the same values. Only changing the process-wide AES IV is excluded.",
["schedules"],"all interleavings of threads that share no mutable object of the library",
"Every test is single-threaded.",
[E,"src/utilities/utilities.cpp","src/utilities/aes.cpp","src/dme/dme.cpp","src/shamirss/shamirss.cpp"],[("no shared mutable state except the generators",E+" Curve::rand; src/utilities/utilities.cpp rand")],["thread results, race detector reports"])

p("C23","ElGamal round-trips and is freshly randomised",
"For every key pair and every integer below the field prime shifted right by twenty bits, minus one, decrypting an encryption with the matching secret key returns the integer; any group element can be encrypted, and subtracting the secret-key multiple recovers it. Generated keys satisfy public = secret * generator, and a different secret key does not decrypt. Encrypting the same message twice gives unrelated ciphertexts, and the componentwise sum of two ciphertexts is an encryption of the sum of the points.",
["inputs","histories"],"all keys, messages and sequences of encryptions",
"The ElGamal module has an empty test and is not part of the build.",
["src/elgamal/elgamal.cpp","includes/elgamal.hpp"],[("try-and-increment encoding with a 20-bit shift","src/elgamal/elgamal.cpp encode/decode"),("fresh exponent per encryption","src/elgamal/elgamal.cpp encrypt")],["decrypt results, ciphertext components"])

p("C24","PUDA ciphertexts hide the individual messages",
"A user's ciphertext and tag, for any timestamp and message, do not reveal that message to anyone without the user's keys: removing nothing, or only the aggregator's key, or only some of the users' ciphertexts, leaves no small discrete logarithm, and different users' or timestamps' ciphertexts of equal messages differ. No simple linear combination of one user's ciphertexts for different timestamps cancels the blinding. Keys are independent between users and setups.",
["inputs","histories"],"all setups, users, message vectors, timestamps and combinations of ciphertexts",
"The test never looks at a ciphertext; an unblinded or constantly blinded one aggregates just as well.",
["src/puda/puda.cpp"],[("timestamp hash raised to the user's key","src/puda/puda.cpp Enc, Tag")],["ciphertexts and tags"])
p("C25","Curve parameters, curve identity and text forms",
"Every object of a curve - local, heap, copied, assigned, in any thread, and after any operations on it and its points - has the published parameters of secp256r1 or Fp254BNb in every getter (integers and field elements) and the published generator; all objects of one curve are equal, a curve of which one parameter differs is unequal to it, and points with equal coordinates on unequal curves are unequal. A point built from strings of two integers (std::string or char*, any base from 2 to 62, base 10 by default, signs, leading zeros and unreduced values included) is the point built from those integers. Printing gives the decimal coordinates as (x,y), (inf, inf) for infinity, value and modulus for a field element and the five parameters for a curve, changes nothing, and building a point from the printed coordinates gives an equal point",
["inputs","histories"],"all curve objects and histories of operations, all integers and bases, all points and field elements",
"testsuit/test_ecc.cpp builds a few secp256r1 points from base-10 strings; no getter is compared with the published value, no curve with another, and nothing printed is read.",
[E,F,"src/ecc/ecc_secp256r1.cpp","src/ecc/ecc_bn254.cpp"],[("parameter constants","src/ecc/*.cpp constructors"),("parsing with mpz set_str",E+" Point(std::string, std::string, Curve*, int)"),("operator<< and operator== of points and curves",E)],["getters, comparison results, printed text"])
p("C26","A receiver's choice and a client's input stay hidden from the sender",
"What a receiver sends for choice 0 and for choice 1 is indistinguishable: over a decryption-mode CRS every key is a possible key for either choice, and no simple function of the key, the CRS and the keys before it is correlated with the choice or with a change of the choice. The secrets behind a receiver's keys, and behind the sixteen keys of every OPPRF run of a client, are drawn afresh and independently for every transfer: none is related to another one, of the same or of another transfer, run, client or copy, so that equal choices and equal inputs cannot be recognised. The keys do not depend on the sender's answers.",
["inputs","histories"],"all choices, inputs and sequences of transfers and runs, over all kinds of CRS",
"The tests look at what the receiver obtains, never at what it sends; a key that betrays the choice works as well as any other.",
["src/dme/dme.cpp","src/ot/ot.cpp","src/opprf/opprf.cpp"],[("a fresh secret for every key","src/dme/dme.cpp KeyGen"),("one key per transfer","src/ot/ot.cpp OTrecv::selectMsg, src/opprf/opprf.cpp OPPRFclient::runOTRound_start")],["the public keys returned by selectMsg and runOTRound_start"])
with open("/verif/properties.jsonl","w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        n=q["statement"].count(". ")+1
        assert n<=6,(q["id"],n)
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in P: jsonschema.validate(q,s)
