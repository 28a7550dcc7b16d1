"""What decides each property."""
TITLES = {}
HOOK_COMMITS = ["b773bc8", "144f15d"]
NOT_APPLICABLE = {
    "C14": "the limit on concurrent connections is documented but not implemented: there is no code whose contract could state it",
}
NOTE = ("Every obligation of the functions of the property is discharged by Verus for all inputs, over contracts assumed for the "
        "standard library and the dependencies; a function that changed beyond what the extraction or the verifier takes is only "
        "tested (bounded) by the replay, and is reported as bounded in the evidence.")
COMMON_ASSUMPTIONS = [
    "the contracts of the standard library and of the dependencies (verus/shim) describe them correctly",
    "an async function behaves as the sequential function obtained by removing `async` and `.await`, "
    "for everything but the interleaving with other tasks, which the contracts of what is shared describe",
    "the extraction (tools/extract) preserves the meaning of the functions; the rewritings it applied are counted in extraction_rewritings",
    "Verus and Z3 are sound; memory is not exhausted",
]
TASKS = [
    "a spawned task runs its block, under the contract of the function lifted from it; "
    "what comes out of a local-sync channel is a prefix of what was put in it",
]
SHARED = [
    "every interleaving of the requests is a consistent history (verus/spec/history.rs): an operation on an entry of an scc map is atomic, "
    "AtomicU64, AtomicBool and the futures-locks RwLock are linearizable, and distinct objects have distinct identities",
]
CLOCK = ["coarsetime: the clock is monotone, stays below 2^63 ticks, and converts durations as its documentation says"]
START = [
    "the server starts: available_parallelism is from 1 to 65536, the mesh and the runtime can be built, the processor of a thread exists, the address can be listened on",
]
IDS = ["fewer than 2^64 connections are ever made"]
PLAN = {
    "C02": {
        "level": "proof",
        "note": NOTE,
        "theorems": ["theorem_roundtrip", "theorem_strict_prefix"],
        "replay": [("bin", "frames", "C02")],
        "assumptions": COMMON_ASSUMPTIONS,
        "explanation": "check and parse of every frame are verified against the decoding function of verus/spec/resp.rs; "
        "theorem_roundtrip and theorem_strict_prefix give the property over it. The replay decodes generated encodings, "
        "prefixes and damaged bytes with the compiled code and an independent decoder.",
    },
    "C03": {
        "level": "proof",
        "note": NOTE,
        "theorems": ["theorem_one_line"],
        "replay": [("bin", "frames", "C03")],
        "assumptions": COMMON_ASSUMPTIONS,
        "explanation": "every writing function is verified to append exactly the encoding of verus/spec/resp.rs; "
        "theorem_one_line: a text cannot be read as more than one reply.",
    },
    "C01": {
        "level": "proof", "note": NOTE,
        "theorems": ["theorem_requests"],
        "replay": [("bin", "conn", "C01"), ("bin", "bb", "C01")],
        "assumptions": COMMON_ASSUMPTIONS + TASKS,
        "explanation": "ReadConnection::read_frame and parse_frame are verified against the requests of the whole stream of the connection; "
        "theorem_requests: what is taken is a function of the bytes alone. The replay cuts generated streams at every place.",
    },
    "C04": {
        "level": "proof", "note": NOTE,
        "panics": True,
        "theorems": [],
        "replay": [("bin", "bb", "C04")],
        "assumptions": COMMON_ASSUMPTIONS + TASKS + ["the stack holds the frames of MAX_DEPTH nested values (their number is proved to be bounded; the replay runs it)", "the dependencies do not panic within the preconditions of their contracts"],
        "explanation": "every function under contract is verified to meet the preconditions without which the standard library panics, not to overflow, "
        "and to end; serving_ marks the connection as ended however it ended, and listening_ goes on accepting whatever fails. "
        "The replay sends generated bytes, disconnects at every place and exhausts the descriptors of a server.",
    },
    "C05": {
        "level": "proof", "note": NOTE,
        "theorems": ["lemma_words"],
        "replay": [("bin", "cmds", "C05"), ("bin", "bb", "C05")],
        "assumptions": COMMON_ASSUMPTIONS + ["the case mappings of the standard library keep ASCII text ASCII, letter by letter (axiom_case)"],
        "explanation": "Command::from_frame and every function it calls are verified to return exactly what verus/spec/request.rs reads in the arguments, "
        "or an error exactly when it reads nothing. The replay compares with an independent reading of the documentation.",
    },
    "C06": {
        "level": "proof", "note": NOTE,
        "theorems": ["theorem_get", "theorem_set", "theorem_other_keys"],
        "replay": [("bin", "store", "C06"), ("bin", "bb", "C06")],
        "assumptions": COMMON_ASSUMPTIONS + SHARED + START,
        "explanation": "SET and GET are verified to be one step each on the entry of their key, in the map that every thread of the server shares; "
        "theorem_get, theorem_set and theorem_other_keys give the property over every interleaving of these steps. "
        "The replay runs generated and racing histories of SET, GET and expirations.",
    },
    "C07": {
        "level": "proof", "note": NOTE,
        "theorems": ["theorem_get", "theorem_ttl"],
        "replay": [("bin", "ttl", "C07"), ("bin", "store", "C07"), ("bin", "bb", "C07")],
        "assumptions": COMMON_ASSUMPTIONS + SHARED + CLOCK,
        "explanation": "the deadline SET computes from EX and PX, and the comparison GET makes with the clock, are verified for every number; "
        "theorem_get and theorem_ttl give the property, to one tick (2^-32 s) of the clock. The replay checks generated times to live.",
    },
    "C08": {
        "level": "proof", "note": NOTE,
        "theorems": ["theorem_error"],
        "replay": [("bin", "bb", "C08")],
        "assumptions": COMMON_ASSUMPTIONS + SHARED + ["the text of CLIENT HELP is the constant HELP_TEXT, whose content is not specified beyond its lines"],
        "explanation": "apply of every command is verified to send one reply, the one of the relation `answer` of verus/spec/reply.rs, for what it read of the shared state; "
        "theorem_error: an error reply leaves the state unchanged. The replay runs generated sessions against an independent reading of the documentation.",
    },
    "C09": {
        "level": "proof", "note": NOTE,
        "theorems": ["theorem_pipeline"],
        "replay": [("bin", "bb", "C09")],
        "assumptions": COMMON_ASSUMPTIONS + TASKS + SHARED,
        "explanation": "the tasks of a connection are verified: reading_ puts the requests of the bytes in the channel, in order; answering_ takes them one by one and sends the answer of each, "
        "stopping at the first one rejected; run_internal gives both the two ends of one channel. theorem_pipeline composes them. The replay runs generated pipelines.",
    },
    "C10": {
        "level": "proof", "note": NOTE,
        "theorems": ["theorem_ids", "theorem_enter", "theorem_list"],
        "replay": [("bin", "sup", "C10"), ("bin", "bb", "C10")],
        "assumptions": COMMON_ASSUMPTIONS + TASKS + SHARED + START + IDS,
        "explanation": "listening_ enters each accepted connection under a number drawn from the one counter of the server before serving it, serving_ marks it as ended, and LIST visits the map; "
        "theorem_ids, theorem_enter and theorem_list give the property over every interleaving. The replay opens and ends connections by several threads.",
    },
    "C11": {
        "level": "proof", "note": NOTE,
        "theorems": ["theorem_name", "theorem_info", "theorem_fields"],
        "replay": [("bin", "sup", "C11"), ("bin", "bb", "C11")],
        "assumptions": COMMON_ASSUMPTIONS + TASKS + SHARED + START + ["the text of an address has no space and no line break"],
        "explanation": "SETNAME, GETNAME, INFO, LIST and the description of a connection are verified against verus/spec/reply.rs; theorem_name and theorem_info give the property over every interleaving, "
        "theorem_fields: no name can forge a field. The replay sets generated names over several connections.",
    },
    "C12": {
        "level": "proof", "note": NOTE,
        "theorems": ["theorem_slot"],
        "replay": [("bin", "cmds", "C12")],
        "assumptions": COMMON_ASSUMPTIONS + ["the crc16 crate computes CRC16/XMODEM, as its documentation says (the replay compares it with a bit by bit CRC16)"],
        "explanation": "hash and hash_key of every command are verified against the slot of verus/spec/slot.rs; theorem_slot: it is below 16384.",
    },
    "C13": {
        "level": "proof", "note": NOTE,
        "theorems": ["theorem_consecutive", "theorem_partition"],
        "replay": [("bin", "store", "C13")],
        "assumptions": COMMON_ASSUMPTIONS + ["a Shard of sharded-thread gives, for a thread, what was built for its part"],
        "explanation": "Storage::new, Storage::part, RootDialer::new, RootDialer::part and is_in_slot are verified against the ranges of verus/spec/slot.rs; "
        "theorem_partition and theorem_consecutive give the property over them.",
    },
}
