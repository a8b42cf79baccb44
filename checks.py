"""What decides each property (read by run.py)."""

WIRE = "MCWire"


def wire(invs, rule, **kw):
    d = dict(trace="WireTrace",
             mc=[dict(module=WIRE, constants={"Deep": "FALSE"}, deep={"Deep": "TRUE"}, invariants=invs)],
             rule=rule,
             assumptions=["TLC and the harness's recording of results are trusted",
                          "executions on which the native rendering of Wire.tla agrees with the code are shown to TLC by sample"])
    d.update(kw)
    return d


def sessions(rule, *mc, **kw):
    d = dict(trace="NoiseTrace", mc=list(mc), rule=rule, shards=8,
             assumptions=["cryptography is ideal in the specification: distinct byte strings are distinct opaque values",
                          "TLC and the harness's recording of results are trusted"])
    d.update(kw)
    return d


def mcnoise(setup, depth, deep, invs, props, emit=True):
    d = dict(module="MCNoise",
             constants={"Setup": '"%s"' % setup, "Depth": depth, "EmitScripts": "TRUE" if emit else "FALSE",
                        "NZero": 0, "NMax": 2, "NInc": "<- MInc"},
             deep={"Depth": deep}, invariants=invs + (["Emit"] if emit else []), properties=props)
    if emit:
        d["emit"] = setup
    return d


ATTACK = dict(module="MCAttack", constants={"EmitScripts": "TRUE"}, emit="attack",
              invariants=["Same", "Analysed", "Makeable", "Makeable2", "Authentic", "OutOfReach", "OnePlace", "Shared", "Emit"])

FRESH = dict(module="MCFresh", constants={"Procs": "{1, 2}", "Threads": "{1, 2}", "Depth": 3, "Reseed": 2, "EmitScripts": "TRUE",
                                          "Buffered": '{"noise", "responder", "inbound", "opening", "answer", "channels"}', "Forks": "FALSE"},
             emit="fresh", invariants=["NeverRepeats", "SeedsDiffer", "Emit"])
FORKS = dict(module="MCFresh", constants={"Procs": "{1, 2, 3}", "Threads": "{1}", "Depth": 5, "Reseed": 2, "EmitScripts": "TRUE",
                                          "Buffered": "{}", "Forks": "TRUE"},
             emit="forks", invariants=["NeverRepeats", "SeedsDiffer", "Emit"])
FRESH_DEEP = dict(FRESH, constants=dict(FRESH["constants"], Depth=4, EmitScripts="FALSE"), emit=None, deep_only=True)

CHECKS = {
    "C01": wire(["EncodingIsBytes", "EncodingInjective"],
                "values: exhaustive 8/16-bit integers, two-bit patterns of wider ones, every length of every text and byte field, "
                "boundary-directed random messages; non-trivial: distinct (type, encoding)"),
    "C02": wire(["RoundTrip"],
                "the values of C01, each followed by no, random, constant or well-formed further bytes; non-trivial: distinct (type, bytes)",
                proofs=["FieldsProof"]),
    "C03": wire(["Canonical"],
                "all 0-2 byte inputs, every value of every byte of an encoding, mutated and rule-breaking encodings, noise, "
                "systematic ill-formed UTF-8; non-trivial: distinct (type, bytes)"),
    "C04": wire(["InBounds", "CutIsParseError"],
                "the inputs of C03, long noise with huge length claims, and every strict prefix of valid encodings; non-trivial: distinct (type, bytes)"),
    "C05": wire(["Agree", "LimitRefused"],
                "every length from 0 past the limit for every limited type and member, multi-byte text straddling the limit, "
                "lengths around 2^8, 2^16, 2^24; all 2^24 U24 values; non-trivial: distinct (type, value)"),
    "C06": wire(["Agree", "LimitRefused"],
                "all combinations of boundary versions, vendor and firmware lengths, flags and codes, window ends, plus random messages "
                "that may break rules, through constructor and decoder; non-trivial: distinct (type, value)"),
    "C07": wire(["RegistryOneToOne", "HeaderOneToOne", "FrameFaithful"],
                "all 2^24 headers decoded twice, all 2^24 (extension, type) pairs looked up, all types written with many lengths; "
                "non-trivial: distinct (type, length)"),
    "C08": wire(["FrameFaithful"],
                "messages of every class framed and unframed, every (carried, requested) pair with right, foreign and malformed payloads, "
                "payload lengths to 2^24-1 and beyond 2^32; non-trivial: distinct (class, payload)"),
    "C23": wire(["Agree", "CutIsParseError"],
                "the rejected inputs of C03 and C06, and one rejection of every other operation; non-trivial: distinct (type, input)"),
    "C24": wire(["CodesOneToOne"],
                "all codes and sub-protocols by every route, all bytes, every one-character edit of every code string, random text; "
                "non-trivial: distinct (route, string)"),
    "C27": wire(["EqualFollowsEncoding"],
                "pairs of values that are equal, differ in one bit, character, element, field, code or type, or at random, built and decoded, "
                "compared both ways and with plain values; copies, conversions, long contents, special hash rates, keys differing in every bit, "
                "emptiness of keys, channels and configurations; non-trivial: distinct pairs"),
    "C29": wire(["NoMoreThanRead", "InBounds"],
                "the inputs of C03, encodings with length claims of every size put at every place, long inputs and contents whole and cut, raw reads, "
                "serializing, framing, sessions and encryptors with buffers of all magnitudes, each under an allocator that meters the call; "
                "non-trivial: distinct (operation, type, bytes)"),
    "C09": dict(trace="ReaderTrace", proofs=["PiecesProof"],
                mc=[dict(module="MCReader", constants={"Depth": 3, "EmitScripts": "TRUE"}, deep={"Depth": 4}, emit=True,
                         invariants=["Consecutive", "WithinBuffer", "ShorterStillFits", "Emit"], properties=["NeverBack", "FailureKeeps", "PiecesOnly"])],
                rule="every history of 3 (thorough: 4) reads of 11 kinds on 12 buffers from 5 offsets, generated by TLC; random longer "
                     "histories over streams of encoded items, cut and followed by junk; non-trivial: distinct (buffer, start, history)",
                assumptions=["TLC and the harness's recording of results are trusted"]),
    "C10": dict(trace="WriterTrace",
                mc=[dict(module="MCWriter", constants={"MaxLen": 7, "EmitScripts": "TRUE"}, deep={"MaxLen": 8}, emit=True,
                         invariants=["Honest", "PrefixOnly", "Emit"], properties=["Delivered"])],
                rule="every serializable type against writers taking k bytes at a time, refusing, failing or interrupted at every offset "
                     "and every call, short at every call, scripts generated by TLC; non-trivial: distinct (type, value, script)",
                assumptions=["TLC and the harness's recording of results are trusted"]),
    "C20": dict(trace="QueueTrace", proofs=["DrainsProof"],
                mc=[dict(module="MCQueue", constants={"Pushers": '{"p1", "p2"}', "Drainers": '{"d1", "d2"}', "MaxMsgs": 3, "MaxDrains": 3, "EmitScripts": "FALSE"},
                         deep={"MaxMsgs": 4, "MaxDrains": 4},
                         invariants=["ExactlyOnceInOrder", "NothingMissed"], properties=["LeavesEmpty", "Histories"]),
                    dict(module="MCQueue", spec="SSpec", constants={"Pushers": "{}", "Drainers": "{}", "MaxMsgs": 6, "MaxDrains": 0, "EmitScripts": "TRUE"},
                         deep={"MaxMsgs": 8}, emit=True, invariants=["SEmit"])],
                rule="every script of 6 (thorough: 8) operations on two queues, generated by TLC; queue lengths to 300000; concurrent histories of "
                     "1-5 queueing and 1-3 draining threads, each checked for a linearization; non-trivial: distinct histories",
                assumptions=["interleavings are those the OS scheduler produced", "TLC and the harness's recording of results are trusted"]),
    "C11": sessions("all histories of 5 calls on a pair of sessions generated by TLC (an even selection is replayed), random histories with "
                    "deliveries in any order, calls out of turn repeated, key operations before and after; non-trivial: distinct histories",
                    mcnoise("pair", 5, 6, ["InTurn", "Agreement"], ["NeverLost", "OutOfTurnHarmless", "SetEphHarmless"])),
    "C12": sessions("all histories of 4 calls on two pairs of sessions generated by TLC (an even selection is replayed), every bit, truncation and "
                    "extension of both messages, prologues differing in one place, messages of other sessions, second messages composed by an attacker who "
                    "computes (Attack.tla: 153900 compositions, those near an acceptable one and a selection of the others replayed); non-trivial: distinct histories",
                    mcnoise("cross", 4, 5, ["Agreement", "InTurn"], ["NeverLost"]), ATTACK),
    "C13": sessions("both roles against the protocol of NoiseTerms.tla evaluated on bytes: prologue and payload lengths 0-139 and long, "
                    "transport in both directions with rekeys and message numbers across all byte boundaries; non-trivial: distinct histories",
                    dict(module="MCTerms", invariants=["Agree", "AllDistinct", "Formed", "Binding"]),
                    assumptions=["the primitives (X25519, ChaCha20-Poly1305, BLAKE2s) of hacl-star and blake2-rfc, checked against published vectors",
                                 "TLC and the harness's recording of results are trusted"]),
    "C14": sessions("all histories of 3 calls in transport generated by TLC, every order of delivery of four messages, every bit, truncation and "
                    "extension, foreign and reflected messages, numbers around every byte boundary, tens of thousands of messages; non-trivial: distinct histories",
                    mcnoise("transport", 3, 4, ["InOrderOnce", "NoGaps", "GenuineAccepted"], ["RejectHarmless", "NeverLost", "Channel1", "Channel2"]), proofs=["ChannelProof"]),
    "C15": sessions("all histories of 3 calls in transport generated by TLC, every combination of 0-3 rekeys of both directions at both ends, every "
                    "subset of cleared directions, the last message numbers, tens of thousands of messages; non-trivial: distinct histories",
                    mcnoise("transport", 3, 4, ["NonceUnique", "Exhausted", "GenuineAccepted"], ["OneDirection", "ClearedStays", "Channel1", "Channel2"]), proofs=["ChannelProof"]),
    "C16": sessions("sizes 0-200, around 2^8 to 2^16 and beyond, random ones, at every stage and role, with the honest course afterwards; "
                    "histories of short and long buffers generated by TLC; non-trivial: distinct histories",
                    mcnoise("pair", 4, 5, ["InTurn"], ["OutOfTurnHarmless"])),
    "C17": sessions("the twelve values, all their single-bit neighbours and mixtures, random keys, key texts of every length and character; forbidden "
                    "keys inside both handshake messages made by another implementation; hundreds of sessions per history; ephemeral keys of 200000 sessions in many "
                    "threads and processes, by histories of TLC's; non-trivial: distinct histories",
                    FRESH, FORKS, FRESH_DEEP, dict(module="MCKeys", constants={"N": 2, "Alphabet": "{47, 48, 58, 65, 71, 97, 102, 103}"}, deep={"N": 2},
                         invariants=["Reads", "Value", "Twelve"])),
    "C21": sessions("all histories of 4 calls on three encryptors generated by TLC, random histories with plain sessions, every bit of the first 140 "
                    "bytes, truncations, extensions, second messages composed by an attacker who computes (Attack.tla); non-trivial: distinct histories",
                    mcnoise("enc", 4, 5, ["Agreement", "InTurn"], ["NeverLost"]), ATTACK),
    "C25": sessions("histories of 4 calls on a pair and of 3 calls in transport generated by TLC (an even selection is replayed), random histories with key "
                    "operations, connection encryptors, every order of 4 key operations at both ends; after every call the session's own bytes and the live "
                    "heap blocks its calls allocated are searched for every secret; non-trivial: distinct histories",
                    mcnoise("pair", 4, 5, ["InTurn"], ["NeverLost"]),
                    mcnoise("transport", 3, 4, [], ["OneDirection", "ClearedStays"]),
                    *[dict(module="MCMemory", constants={"Depth": 7, "Role": '"%s"' % r, "NZero": 0, "NMax": 3, "NInc": "<- MInc"}, deep={"Depth": 9},
                           invariants=["OnlyAllowed", "StillUseful"], properties=["NothingBack", "OldKeysGone"]) for r in "IR"],
                    assumptions=["the session's memory is its value and the live heap blocks allocated by its calls; copies on the stack or in freed blocks are not looked at",
                                 "the secrets are derived by the protocol of NoiseTerms.tla from the recorded messages",
                                 "TLC and the harness's recording of results are trusted"]),
    "C26": dict(trace="FreshTrace", shards=8, mc=[FRESH, FORKS, FRESH_DEEP],
                rule="every history of 3 generations over two processes with two threads and seven kinds generated by TLC (an even selection is replayed in real "
                     "processes and threads); 200000 values of each directly generated kind in 8 threads, new threads, 8 processes at once, a clock that stands still; "
                     "non-trivial: distinct values",
                assumptions=["a generator that can make more than 2^34 different values and repeats none of those made here is accepted",
                             "values without a repeat are shown to TLC by sample, repeats together with the earlier value",
                             "TLC and the harness's recording of results are trusted"]),
    "C28": dict(trace="IndepTrace", shards=8,
                mc=[dict(module="MCIndep", constants={"Objects": "{1, 2, 3}", "Scripts": "{1, 2, 3}", "Steps": 3, "Leaky": "FALSE", "EmitScripts": "TRUE"},
                         emit="indep", invariants=["Functional", "Emit"], properties=["OthersKeep"]),
                    dict(module="MCIndep", constants={"Objects": "{1, 2}", "Scripts": "{1, 2}", "Steps": 6, "Leaky": "FALSE", "EmitScripts": "FALSE"},
                         deep={"Steps": 8}, invariants=["Functional"])],
                rule="scripts of 30 steps for eight kinds of object (session pairs, encoding and decoding, certificates, queues, readers, encryptors, keys, "
                     "frames): alone in a process, after others, again, interleaved in every order TLC generates (an even selection is replayed), in eight "
                     "threads at once, as the first work of a thread; non-trivial: distinct (script, step, company)",
                assumptions=["interleavings of threads are those the OS scheduler produced", "answers are compared by 64-bit digest",
                             "TLC and the harness's recording of results are trusted"]),
    "C18": dict(trace="CertTrace", shards=8,
                mc=[dict(module="MCCert", constants={"EmitScripts": "TRUE", "MaxTime": 5, "Before": "<- MBefore"}, emit=True,
                         invariants=["Exactly", "NeverOutside", "Emit"], properties=["OnceOver"])],
                rule="presentations of issued signatures with any body, key and clock generated by TLC, at several places of the time line; every bit "
                     "of every field, key and signature; clocks around every edge and whole cycles away; authority key texts; non-trivial: distinct presentations",
                assumptions=["Ed25519 of ed25519-dalek", "the wall clock is replaced by interposing clock_gettime",
                             "TLC and the harness's recording of results are trusted"]),
    "C19": dict(trace="CertTrace",
                mc=[dict(module="MCTime", constants={"Sub": 8, "Cap": 40}, deep={"Sub": 100, "Cap": 300}, invariants=["RoundedDown", "Range"], properties=["Monotone"])],
                rule="times around every power of two and multiple of 2^31 and 2^32 before and after the epoch with sub-second parts, random ones, "
                     "by conversion and by the current-time helper under a set clock; non-trivial: distinct times",
                assumptions=["the wall clock is replaced by interposing clock_gettime", "TLC and the harness's recording of results are trusted"]),
    "C22": dict(trace="E2ETrace", proofs=["LineProof"], shards=8,
                mc=[dict(module="MCE2E", constants={"Depth": 6, "EmitScripts": "TRUE", "Lens": "{1, 2}", "MaxMsgs": 2}, deep={"Depth": 7}, emit="e2e",
                         invariants=["Prefix", "Everything", "Complete", "Emit"], properties=["OthersUntouched", "TakenStays"]),
                    dict(module="MCE2E", constants={"Depth": 9, "EmitScripts": "FALSE", "Lens": "{1, 2}", "MaxMsgs": 2}, deep={"Depth": 12}, view="View",
                         invariants=["Prefix", "Everything", "Complete"], properties=["Line1", "Line2"])],
                rule="all histories of 6 (thorough: 7) steps of queueing, draining, sending in pieces, delivery in any order and taking generated by TLC "
                     "(an even selection is replayed), over all message classes; long conversations with rekeys; payloads to 2^24-1 bytes; certificates in and "
                     "after the handshake, looked at with the remote key and with others; non-trivial: distinct histories",
                assumptions=["cryptography is ideal in the specification", "TLC and the harness's recording of results are trusted"]),
}
