"""What a proof by this engine rests on (printed into every evidence file)."""

TRUSTED = [
    "CPython 3.12 executing the instrumented source (the rewriting of pyvc/instrument.py is applied to /repo's current text "
    "on every run and keeps every statement)",
    "pyvc/rt.py, pyvc/sym.py: symbolic semantics of str, bytes, int, list/tuple, dict, hash, f-strings and regular expressions",
    "pyvc/lang.py: regular languages (automata) and splitting of words",
    "pyvc/core.py: path enumeration, loop cutting and obligation bookkeeping",
    "z3 (Python bindings) and cvc5 for arithmetic and bit-vector conditions",
    "contracts/*.py: the statement of the property",
]

COMMON = [
    "Integers are mathematical (as in Python); bit-vectors are used only for values known to stay below 2**32.",
    "Hashes: equal content gives equal hashes; nothing else is assumed of hash values.",
    "Recursion depth, memory exhaustion and asynchronous exceptions (KeyboardInterrupt, MemoryError) are outside the model.",
]

ASYNC = [
    "asyncio is replaced by an assumed contract (pyvc/shims.py): single-threaded, FIFO queues and task order, a read of an "
    "empty queue waits until something arrives, a wait that nothing can end raises TimeoutError inside a timeout and otherwise "
    "never returns; awaits that find their result ready do not interleave with other tasks.",
    "logging has no effect; threading.Lock is a flag changed only by acquire/release.",
]
CRYPTO = ["hashlib, hmac and secrets are opaque: digests are functions of algorithm, key and message; random keys are arbitrary."]
DATES = ["datetime and ipaddress are assumed to validate and return the fields they are built from."]

EXTRA = {
    "C06": ["Passwords are decimal texts or integers below 2**32; nonces are texts of decimal digits."],
    "C07": CRYPTO, "C08": ASYNC + CRYPTO, "C09": ASYNC, "C10": ASYNC, "C11": ASYNC, "C12": ASYNC, "C13": ASYNC, "C14": ASYNC,
    "C15": ASYNC + DATES, "C16": ASYNC + DATES, "C17": ASYNC + DATES + [
        "At most three callbacks per kind of event are registered in the proofs (the events are arbitrary); more only concretely."],
    "C18": ASYNC + ["In any_message the item types' call_callbacks are replaced by their contract: any tasks or any exception."],
    "C19": ASYNC,
    "C22": ASYNC + [
        "The end of a connection is what asyncio documents: the transport is closing, then connection_lost is called once; after "
        "Transport.close() asyncio calls connection_lost.  Stated as safety: never waiting again; a loop that spins without "
        "waiting is found only by the bounded companion's limit on processor time.",
        "The item types' call_callbacks are replaced by their contract."],
    "C25": ASYNC + ["Cancellation of a waiting read and concurrent readers are explored concretely only (readers); asyncio.Queue's "
                    "own contract (FIFO, a cancelled get takes nothing) is assumed."],
}


def assumptions(prop):
    return COMMON + EXTRA.get(prop, [])
