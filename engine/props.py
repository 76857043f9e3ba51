"""What decides each property: the entry points of the abstract interpreter and the rules."""
import driver
from rules import (asserted, closed, lifetimes, representation, shareable, sources, statics, structural, swallowed,
                   witnesses)

TRUSTED = [
    "rustc's MIR of /repo, of its dependencies and of the standard library (nightly toolchain), as dumped by engine/extract",
    "the transfer functions of engine/engine.py, engine/eva.py and engine/dom.py",
    "the models of the allocator and the compiler intrinsics in engine/models.py",
]
ASSUME = [
    "64-bit little-endian target, as built here",
    "the allocator does not fail",
]


def harness(feature, quick=200, thorough=780, release=False):
    def run(pid, tier, report):
        pre = "h_" + pid.lower() + "_"

        def select(r):
            if not r.startswith(pre):
                return False
            return tier == "thorough" or not r.startswith(pre + "t_")
        driver.run_harnesses(pid, tier, [feature], select, lambda r: quick if tier == "quick" else thorough, report,
                             release)
    return run


def prop(pid, *parts):
    def run(tier, report):
        for p in parts:
            p(pid, tier, report)
    PROPS[pid] = run


PROPS = {}
prop("C01", harness("c01"))
prop("C02", harness("c02"))
prop("C03", harness("c03"))
prop("C04", harness("c04"))
prop("C05", harness("c05"))
prop("C06", harness("c06"))
prop("C07", harness("c07"))
prop("C08", harness("c08"))
prop("C09", harness("c09"))
prop("C10", harness("c10"))
prop("C11", harness("c11"))
prop("C12", harness("c12"), harness("c12", release=True), structural(lifetimes, witnesses("c12", 82)))
prop("C13", harness("c13"))
prop("C14", harness("c14"))
prop("C15", harness("c15"))
prop("C16", harness("c16"))
prop("C17", harness("c17"))
prop("C18", harness("c18"), structural(sources, representation, closed, witnesses("c18", 56)))
prop("C19", harness("c19"), harness("c19", release=True), structural(swallowed))
prop("C21", structural(asserted, statics, shareable, witnesses("c21", 19)))
prop("C22", harness("c22"), harness("c22", release=True))
prop("C23", harness("c23"))
prop("C24", harness("c24"))
prop("C25", harness("c25"), harness("c25", release=True))
prop("C26", harness("c26"))

LEVEL = {"C01": "other", "C02": "other", "C03": "proof", "C04": "proof", "C05": "other", "C06": "other", "C07": "other", "C08": "other",
         "C09": "other", "C10": "other", "C11": "other", "C13": "other", "C14": "other", "C15": "other", "C16": "other", "C17": "proof", "C12": "other", "C23": "other", "C24": "other", "C25": "other", "C26": "other", "C18": "other", "C19": "other", "C21": "proof", "C22": "proof"}
TECHNIQUE = {}
BASE = ("Abstract interpretation of rustc's MIR of the library, its dependencies and the standard library, over all "
        "values of the inputs at once. Trusted: rustc's MIR, the engine's transfer functions, the models of the "
        "compiler's intrinsics and of the allocator. ")
NOTE = {
    "C01": BASE + "All contents of documents of up to 10 bytes (12 in the thorough tier), and of up to 18 bytes in the "
                  "layouts which documents of that size cannot have: counts and sizes of every value, wide slots, "
                  "chains of pointers, collections in collections; bytes of any length up to 2^28 around roots of up to "
                  "5 slots; collections of up to 3000 slots (15000) with two of any content.",
    "C02": BASE + "All accepted documents of up to 8 bytes (10 in the thorough tier), and of up to 18 bytes in the layouts "
                  "listed for C01; every accessor on every value within two steps of the root; documents of any length up to 2^28 "
                  "bytes around roots of up to 3 slots; collections of up to 5000 slots (15000) with two of any content.",
    "C03": BASE + "All values of all scalar types, within one array and one dict.",
    "C04": BASE + "All contents of all lengths up to 2^28 bytes, as an element, an entry, an option and a key, and next to "
                  "another one.",
    "C05": BASE + "Arrays of up to 70, 127, 128, 255, 256, 1023, 1024, 2046 to 2049, 4096, 5000, 16383 and 16384 elements "
                  "(16385 and 40000 in the thorough tier), dicts of up to 20, 100, 1023, 2046 and 2047 entries, wide ones among "
                  "them, one element being any number; values on both sides of, and in a collection before, a string of any "
                  "length; every header of a collection of up to 2^28 elements, and the element at any index of it.",
    "C06": BASE + "Arrays and dicts of up to 9 elements of every kind, in every order of keys and with shared keys, around a "
                  "string of any length up to 2^20 bytes, and with collections in them; roots around the limits of a slot, with up to "
                  "140000 slots.",
    "C07": BASE + "Every sequence of 3 encoder calls (4 and 5 in the thorough tier) after each of 15 beginnings, 4 from the "
                  "start, with all values of the numbers written; the document is compared with what the accepted calls "
                  "say, by reading it.",
    "C08": BASE + "Every sequence of up to 6 accepted encoder calls (7 in the thorough tier), and of 3 to 4 after deeper "
                  "beginnings, with all values of the numbers written; for each kind of finishing.",
    "C09": BASE + "Pairs of keys of any ASCII content of up to 3 bytes, and of any content of fixed lengths up to 40000 bytes; "
                  "three keys; keys that differ at any place; every order of sets of 4 keys (6 in the thorough tier) of many "
                  "shapes; up to 2100 keys; with and without shared keys, which may have been there before. The hash map "
                  "folklore is taken at its contract where keys are not fixed.",
    "C10": BASE + "Keys of any ASCII content of up to 2 bytes (3 in the thorough tier) and pairs of them, keys of up to 20 bytes "
                  "of which one is any, pairs of up to 16 bytes that differ at one place, letters of other scripts by example; "
                  "sets of up to 2048 keys; every saved state of up to 8 bytes (10). The hash map folklore is taken at its "
                  "contract where keys are not fixed.",
    "C11": BASE + "Every sequence of 4 operations (6 in the thorough tier) on up to 3 documents, of 5 (8) on one document; "
                  "every address around the documents; callers' conversions which use the registry themselves. One thread: a "
                  "lock which would be waited for is one that the waiting thread holds. That nothing but the lock gives "
                  "access to the registry, in the right mode, is Rust's type system. ",
    "C13": BASE + "Every shape of the serde data model, and some nested ones, with all values of numbers, booleans and "
                  "characters and all contents of strings in them; the derived implementations of serde are analysed too.",
    "C14": BASE + "Map keys of every kind of the serde data model, at four places; every kind of value at the top level; "
                  "errors of the data at 16 places; every kind of stored value read as types of every other kind; all documents "
                  "of up to 8 bytes (10 in the thorough tier) read as types of eight kinds.",
    "C15": BASE + "Every kind of value with all its contents (strings and data of all lengths up to 2^28 bytes) in an array and "
                  "a dict; all documents of up to 6 bytes (8 in the thorough tier); arrays of up to 2060 elements; collections in "
                  "collections, with and without shared keys, from each kind of document; every series of 2 changes (3 in the "
                  "thorough tier) of an array, and of 1 to 2 of a dict, with all values of the numbers stored.",
    "C16": BASE + "All documents of up to 8 bytes (10 in the thorough tier), wide ones of 12, documents of up to 2047 elements, "
                  "dicts of up to 8 entries with and without shared keys, mutable arrays and dicts of up to 6 and 26 entries, "
                  "shared keys of up to 8; at every step of the iteration, and after skipping.",
    "C17": BASE + "Every accessor on every kind of value with all its contents (strings and data of all lengths up to 2^28 "
                  "bytes).",
    "C12": BASE + "Every sequence of up to 3 clones, sub-values and drops of owned documents of each kind, scopes and their "
                  "owners, with the memory of each freed when its last owner goes; owners of documents of any length. Rules: every lifetime in the result of a "
                  "public function is one of its arguments' (40 signatures); 82 programs which use something after its owner "
                  "is gone are rejected by the compiler, each with a twin that compiles.",
    "C18": BASE + "All contents of up to 8 bytes (10 in the thorough tier) given to each safe source of values: it accepts them "
                  "exactly if Value::from_bytes does. Rules: no other function that safe code can call makes a value of bytes "
                  "or a pointer, over the call graph; values have no size, no field of theirs is public and nothing gives a "
                  "mutable reference to one; 56 programs are rejected by the compiler, each with a twin that compiles.",
    "C19": BASE + "Readers of serde which fail at 17 places, for all values of the number that they refuse, and for every kind "
                  "of value. Rule: the Result of every call in the crate, and every Option which tells only whether a call "
                  "worked, is returned, kept, or makes the function fail (554 calls); ten kinds of calls, listed with the "
                  "reason, cannot fail where they are made.",
    "C21": "Rules over the type-checked program: every part of a type with a manual Send or Sync has it itself or is a pointer "
           "to something immutable and Sync; no static is mutable or of a type that cannot be shared; the documents are Send "
           "and Sync; 19 programs are rejected by the compiler, each with a twin that compiles. Trusted: rustc's type checker "
           "and what the unsafe code of the standard library and of dependencies asserts.",
    "C22": BASE + "All values of each scalar type, strings and data of all lengths up to 2^28 bytes, into buffers of every "
                  "length up to more than they need, for narrow and wide slots.",
    "C23": BASE + "All documents of up to 8 bytes (10 in the thorough tier) which a second description of the format, written "
                  "for this check, calls well-formed, of up to 26 bytes in layouts which documents of that size cannot have, of any length up to "
                  "2^28 around roots of up to 3 slots, and of up to 2100 slots (5000) with one of any content.",
    "C24": BASE + "Values of all documents of up to 6 bytes (8 in the thorough tier), of up to 14 bytes in layouts which "
                  "documents of that size cannot have (wide slots, dicts, numbers of 8 bytes, arrays in arrays), strings and data of "
                  "all lengths up to 2^28 bytes as elements, entries and keys, and arrays of up to 2048 slots; each copied as an "
                  "element, an entry, a document of its own, or into a document with shared keys.",
    "C25": BASE + "Eleven texts for the macro, which use each of its rules, each kind of collection in each other, empty ones, and "
                  "more elements than room is made for; with all numbers, flags, and strings and data of all lengths up to 2^28 bytes.",
    "C26": BASE + "All values of each scalar type, strings and data of all lengths up to 2^28 bytes, keys of any content, dicts of keys "
                  "in several orders, shared keys and their state, collections in collections, arrays of up to 20000 elements and "
                  "references over all distances, against a description of the format that shares no code with the library.",
}
TECHNIQUE["C12"] = TECHNIQUE["C18"] = (
    "abstract interpretation of the type-checked program (MIR); rules over its signatures and call graph; programs that the "
    "compiler has to reject")
TECHNIQUE["C19"] = "abstract interpretation of the type-checked program (MIR); dataflow of the results of calls"
TECHNIQUE["C21"] = "rules over the type-checked program; programs that the compiler has to reject"
NA = {
    "C20": "It does not hold of the code (parsing, reading and converting recurse as deep as the document is nested, and visit "
           "shared values once per reference, which repairing would need a new design), and bounds on stack and time over all "
           "documents are runtime quantities on which this analysis gives no answer.",
}
