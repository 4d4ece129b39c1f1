#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HOOK = "cfg(qesa_sim): take a proof apart into the values a wire format would carry and put one together from received values"
QF = ["src/qesa_zk.rs", "src/ipa/qesa_inner.rs", "src/ipa/alm_zk.rs", "src/ipa/no_zk.rs", "src/ipa/gramschmidt.rs", "src/matrix.rs", "src/math_utils.rs", "src/transcript.rs"]
CF = ["src/copy/copy.rs", "src/copy/mapping.rs"] + QF[1:]
LF = ["src/lmpa/no_zk.rs", "src/lmpa/simple_zk.rs", "src/matrix.rs", "src/transcript.rs"]
ALL = QF + CF[:2] + LF[:2]

p("C01", "Honest quadratic-system proofs always verify",
  "For every system of quadratic equations, every witness that satisfies it (leading entry one), every power-of-two generator count of at least four and every outcome of the prover's randomness, the prover returns a proof and a verifier holding the same system, generators and transcript accepts it. This stays so whatever else the same processes are doing: other proofs in flight on other threads, earlier attempts that crashed or were aborted, messages that arrive late, twice, out of order or after retransmission.",
  ["inputs", "schedules", "crash_points", "fault_sequences"],
  "all systems (any number of equations, dense or sparse, more equations than variables), witnesses, sizes, randomness, interleavings of concurrent sessions, crash points of earlier attempts, delivery orders",
  "Two tests with n=4 and n=8, two equations and one interleaving each; no concurrent sessions, no aborted attempts, no large or overdetermined systems.",
  QF, [("prover and verifier derive the same challenges and the same batched system", "src/ipa/qesa_inner.rs"), ("masked inner-product argument", "src/ipa/alm_zk.rs")],
  observe=["qesa_zk::create / Zk::verify", "qesa_inner::create / Inner::verify"], hook=HOOK)

p("C02", "A quadratic-system proof is never accepted for a violated equation",
  "Whatever a prover does (running the honest code on a bad witness, or deviating at any step and using everything it has seen so far), a verifier does not accept unless the assignment the prover committed to has leading entry one and satisfies every single equation of the verifier's system. In particular violations that cancel against each other, sit in the last equation, are hidden behind a wrong leading entry, or occur in a system with more equations than variables are all rejected.",
  ["inputs", "programs", "histories"],
  "all deviating prover strategies the simulator has, over all systems, sizes and positions of the violation",
  "No test ever checks that a proof is rejected; every test only runs an honest prover.",
  QF, [("batching of all equations with challenge powers", "src/matrix.rs"), ("leading entry fixed by rescaling the first generator", "src/ipa/qesa_inner.rs"), ("linear check of the second witness half", "src/ipa/qesa_inner.rs")],
  observe=["Zk::verify", "Inner::verify"], hook=HOOK)

p("C03", "Honest proofs about committed values always verify",
  "For every set of vector commitments (any number, any admissible generator index sets, shared or disjoint, any messages and blinders), every quadratic system over the witness and the committed messages that holds, and every outcome of randomness and scheduling, the copy proof built from the openings is accepted by a verifier that holds only the commitments and the same public mapping.",
  ["inputs", "schedules", "crash_points", "fault_sequences"],
  "all admissible index sets, message values, blinders, accompanying systems, sizes, randomness, interleavings and delivery orders",
  "Two tests with one or two commitments over consecutive indices, an empty system and no constraint that touches a message.",
  CF, [("messages are mapped onto free witness positions", "src/copy/mapping.rs"), ("aggregation of commitments and copy constraints under one challenge", "src/copy/copy.rs")],
  observe=["copy::create / Copy::verify", "mapping::commit", "mapping::compute_mapping"], hook=HOOK + "; visibility of the copy module")

p("C04", "Committed values cannot be misrepresented in a copy proof",
  "A verifier never accepts a copy proof unless every commitment it holds opens, on that commitment's own generators, to exactly the messages the proof used at the mapped witness positions. This includes commitments that are permuted, re-blinded, shifted by amounts that cancel across commitments, compensated elsewhere in the witness, or chosen by the prover only after the rest of the proof was made.",
  ["inputs", "programs", "histories"],
  "all deviating prover strategies the simulator has, over all mappings, numbers of commitments and positions of the mismatch",
  "No test presents a commitment that does not match the opening; both tests are honest runs.",
  CF, [("copy constraints appended to the system", "src/copy/copy.rs"), ("verifier recomputes the witness commitment from the commitments", "src/copy/copy.rs")],
  observe=["Copy::verify"], hook=HOOK + "; visibility of the copy module")

p("C05", "Honest linear-map preimage proofs always verify",
  "For every matrix of group elements and every witness, each of the linear-map preimage arguments (two-way folding and k-way folding, with and without masking) yields a proof that the matching verifier accepts for the image of that witness. It holds for every admissible size, row count and folding factor (including witnesses that do not fold down to a single entry), every outcome of randomness and every schedule of concurrent sessions and message deliveries.",
  ["inputs", "schedules", "crash_points", "fault_sequences"],
  "all matrices (zero, repeated and dependent rows or columns included), witnesses, sizes, folding factors, randomness, interleavings and delivery orders",
  "Five tests at fixed sizes (n=2,4,8,125) with uniformly random data and one schedule.",
  LF, [("prover and verifier fold the matrix and the image alike", "src/lmpa/no_zk.rs"), ("masking and unmasking of witness and image", "src/lmpa/simple_zk.rs")],
  observe=["lmpa::no_zk::create / NoZK::verify", "create_lmpa_noZK / verify_lmpa_noZK", "simple_zk::create / SimpleZK::verify", "create_general / verify_general"], hook=HOOK)

p("C06", "A linear-map preimage proof is never accepted for a wrong image",
  "Whatever the prover does, none of the linear-map preimage verifiers accepts unless the prover's witness maps, in every single row, to the image the verifier was given under the matrix the verifier was given. Errors in any one row, errors that cancel between rows, values of the statement carried inside the proof, and images chosen only after the proof was made are all rejected.",
  ["inputs", "programs", "histories"],
  "all deviating prover strategies the simulator has, over all variants, sizes, rows and folding factors",
  "No test presents a wrong image; all run an honest prover and assert acceptance.",
  LF, [("final comparison of folded image and matrix", "src/lmpa/no_zk.rs"), ("image folded with the round messages", "src/lmpa/no_zk.rs")],
  observe=["NoZK::verify", "verify_lmpa_noZK", "SimpleZK::verify", "verify_general"], hook=HOOK)

p("C07", "Inner-product arguments accept exactly correct inner products",
  "For every pair of vectors, every set of generators and every outcome of randomness, the plain and the masked inner-product argument made by the honest prover are accepted for the commitment to the vectors and their inner product. No proof, honest or deviating, is accepted for a different claimed inner product or a commitment to other vectors, when the caller has bound the commitment to the transcript.",
  ["inputs", "programs", "schedules", "histories"],
  "all vectors (sparse and zero vectors for the plain variant), sizes, generators, randomness, claimed values and deviations",
  "One honest run per variant at n=4 with uniformly random vectors.",
  ["src/ipa/no_zk.rs", "src/ipa/alm_zk.rs", "src/ipa/gramschmidt.rs", "src/transcript.rs"],
  [("claimed value scaled by a challenge", "src/ipa/no_zk.rs"), ("orthogonal masks keep the inner product", "src/ipa/gramschmidt.rs")],
  observe=["ipa::no_zk::create / NoZK::verify", "ipa::alm_zk::create / AlmZK::verify"], hook=HOOK + "; visibility of the ipa module")

p("C08", "A proof altered in transit is never accepted",
  "For statements in general position with at least one folding round: if any value of an honest proof is replaced by a different valid value, exchanged with another value of the same proof or of another proof for the same statement, or if values are dropped, added or repeated, the verifier does not accept the result. There is no part of a proof that can be changed without the verifier noticing.",
  ["inputs", "fault_sequences"],
  "all proof systems, every position in the proof, every kind of alteration the faulty network makes, all sizes",
  "No test verifies an altered proof.",
  ALL, [("final verification equation", "src/ipa/no_zk.rs"), ("every received value is absorbed into the transcript", "src/ipa/no_zk.rs, src/lmpa/no_zk.rs"), ("shape of the proof is checked against the statement", "src/ipa/no_zk.rs, src/lmpa/no_zk.rs")],
  observe=["every verify function"], hook=HOOK)

p("C09", "Malformed proofs are refused, they never crash or hang a verifier",
  "For every received proof, however malformed (bytes that encode no group element, missing, empty, surplus or very many rounds, rows of the wrong length), verification returns in bounded work with a refusal and without panicking. Afterwards the same verifier still accepts honest proofs.",
  ["inputs", "fault_sequences", "histories"],
  "all proof systems and every malformation the faulty network and byzantine peers make, at every position, in any sequence with honest traffic",
  "No test gives a verifier anything but an honest proof.",
  ALL, [("decoding of received points", "src/ipa/no_zk.rs, src/ipa/alm_zk.rs, src/ipa/qesa_inner.rs, src/copy/copy.rs"), ("round-count and shape checks", "src/ipa/no_zk.rs, src/lmpa/no_zk.rs")],
  observe=["every verify function"], hook=HOOK)

p("C10", "A proof is only good for its own statement and its own session",
  "A proof made for one statement (in general position, with at least one folding round) and one session is not accepted when replayed or misdelivered to a session with a different transcript label, different preceding messages or a different position in a sequence, nor when checked against a statement that differs in any generator, equation coefficient, matrix entry, image entry, commitment or mapping entry. Presenting the same proof again in its own session always gives the same verdict.",
  ["inputs", "histories", "fault_sequences"],
  "all pairs of sessions and statements, every position where the statements differ, all misdelivery, duplication and replay orders",
  "Every test verifies in the session the proof was made for.",
  ALL, [("challenges are drawn from the caller's transcript", "src/transcript.rs"), ("statement enters the verification equation", "src/ipa/qesa_inner.rs, src/lmpa/no_zk.rs")],
  observe=["every verify function"], hook=HOOK)

p("C11", "Prover and verifier transcripts stay in step, so proofs compose",
  "After an honest proof has been made and verified, prover and verifier transcripts are in the same state: any challenge drawn next is equal on both sides and depends on the proof. Hence any sequence of proofs of any kinds, interleaved with application messages, made on one transcript verifies in that order on one transcript, and in no other order.",
  ["histories", "inputs", "schedules"],
  "all sequences of proofs and application messages on one transcript, all reorderings in delivery",
  "Every test uses a fresh transcript for exactly one proof and drops it.",
  ALL, [("same values absorbed in the same order on both sides", "all create/verify pairs"), ("challenge derivation", "src/transcript.rs")],
  observe=["merlin transcript after create and verify"], hook=HOOK)

p("C12", "Every published value is fixed before the challenges that test it",
  "Each value the prover publishes, and each part of the claim the prover can choose (claimed image, commitments), is bound into the transcript before the next challenge is drawn, so changing it changes that challenge and all later ones. The verdict depends on the whole of every challenge: a proof made under one challenge value is not accepted under any other, and challenges span the whole scalar range.",
  ["inputs", "programs", "histories"],
  "all proof systems, every published value, every challenge and every byte of it, all sizes",
  "An honest run accepts whether or not values are absorbed; only a prover that picks values after seeing challenges can tell the difference.",
  ALL, [("absorb-then-challenge order in every round", "src/ipa/*.rs, src/lmpa/*.rs, src/copy/copy.rs"), ("wide reduction of challenge bytes", "src/transcript.rs")],
  observe=["transcript operations of the verifier"], hook=HOOK)

p("C13", "Every proof is masked by fresh, sufficient randomness",
  "Every masking value in a zero-knowledge proof is drawn afresh from the system's entropy source for that proof: no two proofs share a masked value, even for the same statement and witness, in one process or after a restart, with the clock stopped or moved, or after an aborted attempt. The masks have the dimension the protocol prescribes (every entry of its own for the linear-map arguments and the witness blinders; 2 log n + 2 independent entries, or n if that is fewer, for each orthogonal mask), none of them zero or predictable from public data, and when the entropy source fails no proof is returned.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "all histories of repeated proofs, restarts, clock faults, aborted attempts and entropy outages at every draw, all sizes",
  "No test looks at the randomness or makes two proofs of one statement; an honest proof with constant masks passes every test.",
  ["src/qesa_zk.rs", "src/copy/copy.rs", "src/ipa/alm_zk.rs", "src/ipa/gramschmidt.rs", "src/lmpa/simple_zk.rs", "src/matrix.rs"],
  [("masks drawn from the thread-local generator", "src/ipa/gramschmidt.rs, src/qesa_zk.rs, src/copy/copy.rs, src/lmpa/simple_zk.rs"), ("orthogonal mask sampling", "src/ipa/gramschmidt.rs")],
  observe=["published values of repeated proofs", "entropy drawn per proof"], hook=HOOK + "; the entropy source itself is replaced below the library (patched rand/getrandom), no hook")

p("C14", "Masked linear-map proofs do not depend on which witness was used",
  "When two witnesses map to the same image, every proof that the masked linear-map arguments publish for one witness and some randomness is also published, value for value, for the other witness and suitably shifted randomness. Hence nothing in the proof or in the messages leading to it favours one witness over another.",
  ["inputs", "histories"],
  "all matrices with a kernel, all pairs of witnesses with equal image, all randomness, sizes and folding factors",
  "Tests only check acceptance; a proof that carries the witness in clear passes them.",
  ["src/lmpa/simple_zk.rs", "src/lmpa/no_zk.rs"], [("witness masked by challenge times witness plus random vector", "src/lmpa/simple_zk.rs")],
  observe=["published values of simple_zk::create and create_general"], hook=HOOK)

p("C15", "Proving and verifying have no side channel and need no I/O",
  "Making or checking a proof writes nothing to standard output, standard error, files or sockets and reads no ambient state, so no witness value leaves the prover except inside the returned proof. The outcome is therefore the same when the standard streams are closed, full, slow or failing and when the clock jumps.",
  ["fault_sequences", "inputs"],
  "all proof systems and inputs, every failure of a standard stream or of the clock at any moment",
  "Tests run with captured, healthy output streams and do not look at what was written.",
  ALL, [("library code returns values only", "src/lmpa/no_zk.rs")],
  observe=["write, writev, open, socket and clock system calls made during create and verify"])

p("C16", "Sessions are isolated from one another",
  "What a session produces (the proof, given its inputs and its share of entropy, and the verdict) is the same whether it runs alone in a fresh process or among any number of other proving and verifying sessions, before, after or interleaved with it on the same or other threads, including sessions that crash half-way or receive garbage. Every call finishes; no session can block another.",
  ["schedules", "histories", "crash_points", "fault_sequences"],
  "all interleavings of concurrent calls at allocation, entropy, transcript and lock granularity, all histories on one thread, all abort points",
  "Tests run one session each; none runs two sessions in a chosen interleaving or after an aborted one.",
  ALL, [("no shared mutable state; inputs taken by value", "all modules")],
  observe=["published values and verdicts compared with a solitary run"], hook=HOOK)

p("N01", "Commitment mapping assigns each message its own free witness position",
  "For admissible index sets the computed mapping gives every message a distinct witness position that is neither reserved for a commitment generator, nor inside the caller's witness, nor one of the two masking positions, and records its commitment and generator.",
  ["inputs"], "all admissible index sets and sizes", "One flaky test at one size.",
  ["src/copy/mapping.rs"], [("filter of free positions", "src/copy/mapping.rs")])
p("N02", "Matrix and vector helpers compute exact linear algebra",
  "Matrix sum, product with scalar or vector, transpose, split and batching agree with their textbook definitions over scalars, points and generic numbers for all shapes they accept.",
  ["inputs"], "all shapes and values", "Only exercised through proofs and float examples.",
  ["src/matrix.rs", "src/math_utils.rs"], [("element-wise loops", "src/matrix.rs")])
p("N03", "Challenge expansion yields consecutive powers",
  "Expanding a challenge to n values yields its consecutive powers, starting at the first power for challenge vectors and at one for folding vectors.",
  ["inputs"], "all scalars and lengths", "One test at one value and one length for one of the three functions.",
  ["src/math_utils.rs", "src/matrix.rs"], [("iterated multiplication", "src/math_utils.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
