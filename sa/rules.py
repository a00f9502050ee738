"""Which rules decide which property."""
import dump, mir
import connrule, jobs, alloc, framing, alias, codecrule, placement, rewrite

CONN = {f"C{i:02d}" for i in (1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19)}
CLAIMED = {f"C{i:02d}" for i in (1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19)}
_TR = "path-sensitive abstract interpretation of monomorphised MIR; every transfer function compared with a reference typestate/effect specification"
TECH = {p: _TR for p in CLAIMED}
_BASE = ("Every public entry point of GenericConnection is analysed on every path of its compiled (MIR) body, callees inlined, from an arbitrary "
         "pre-state constrained only by inductive invariants (which are themselves checked to be preserved by every entry point); required events, their order, "
         "and every post-state field must be those of the reference transfer function. ")
_WHAT = {
 "C01": "For C01 this covers the response rules (auto PUBACK/PUBREC/PUBREL/PUBCOMP, notify once, no response to a response), i.e. the per-endpoint obligations from which interoperation follows; the two-party composition argument is on paper in DESIGN.md.",
 "C05": "For C05: panics, arithmetic overflow, unbounded loops, unreported packets, close and reset on error.",
 "C06": "For C06: store insert/erase, identifier ownership, acknowledgement matching, resume loop in store order.",
 "C07": "For C07: membership of the handled-id set on every QoS 2 path and its effect on notification.",
 "C08": "For C08: identifier ownership and release announcements on every path; tracked sets are disjoint subsets of the in-use set.",
 "C09": "For C09: recv consumes exactly one framing result per call.",
 "C10": "For C10: every non-configuration field after close / new session equals the value of a fresh object.",
 "C11": "For C11: the gate of each of the packet kinds in each role, version and state, and absence of side effects when refused.",
 "C12": "For C12: send/receive counters and vacancy, including resumed exchanges.",
 "C13": "For C13: alias resolution, registration and eviction in both directions.",
 "C14": "For C14: size guards before every requested send and every delivery.",
 "C15": "For C15: timer flags mirror the emitted timer events; intervals by priority; expiry effects.",
 "C16": "For C16: export/restore are inverse on store, ids and handled set.",
 "C17": "For C17: role/version gate of every received packet kind, version detection.",
 "C19": "For C19: no send follows a close request in any event list; mandatory closes are present.",
}
NOTE = {p: _BASE + _WHAT[p] for p in CLAIMED}
EXPLAIN = {p: NOTE[p] for p in CLAIMED}
_ASM = ["codec functions (parse/builder/to_buffers/size) are summarised by their documented contract in the connection analysis",
        "std / hashbrown / indexmap collections behave as sets, ordered maps and vectors",
        "collections of unbounded size are represented by their updated elements plus one representative untouched element; loop bodies are analysed for one (quick) or two (thorough) representative elements",
        "the application uses ids it acquired or registered (as the property statements presume), and does not misuse restore on a live connection"]
ASSUME = {p: _ASM for p in CLAIMED}
_FR = ("PacketBuilder::feed and the Cursor methods it calls are analysed on every path over a symbolic stream: (1) from a fresh builder the result, "
       "the position, the packet bytes and the builder state must be those of a reference framer (header byte, 1-4 byte Remaining Length, body); (2) for "
       "every position of a cut, feeding the two chunks gives result, position and state of feeding them at once, which by induction covers every partition. "
       "recv() consuming one result per call is part of the transfer rule. ")
TECH["C09"] = "path-sensitive abstract interpretation of MIR over a symbolic stream with a relational (linear) domain; chunk-split lemma plus reference framer"
NOTE["C09"] = EXPLAIN["C09"] = _FR
ASSUME["C09"] = _ASM + ["a stream chunk is shorter than 2^40 bytes; usize is 64 bits"]
CLAIMED.add("C20")
TECH["C20"] = "abstract interpretation of MIR with an interval-set domain; every allocator operation compared with the set-of-free-integers reference"
NOTE["C20"] = EXPLAIN["C20"] = ("Every ValueAllocator and PacketIdManager operation (u16, u32) is analysed on pools of 0 to 3 (thorough: 5) intervals whose bounds, "
       "and the argument, are symbolic; the answer, the new set and the representation invariant (sorted, disjoint, merged, inside the range) must be those of the "
       "reference set. Operations touch at most two neighbouring intervals, so more intervals add only untouched ones.")
ASSUME["C20"] = ["BTreeSet behaves as an ordered set under the type's Ord, which is itself analysed on the pairs that occur"]
CODEC = {"C02", "C03", "C04"}
CLAIMED |= CODEC
_CT = "path-sensitive abstract interpretation of MIR over symbolic packet bodies and symbolic field values (relational domain, byte-sequence normal form); "
TECH["C02"] = _CT + "every builder path composed with every serialiser and parser path"
TECH["C03"] = _CT + "serialisation compared with an independently written layout of the specification"
TECH["C04"] = _CT + "every parser path over an arbitrary body, accepted packets rebuilt through the builder"
_CB = ("All 29 packet kinds with 16-bit and the id-bearing ones with 32-bit identifiers. ")
NOTE["C02"] = EXPLAIN["C02"] = _CB + (
    "For every combination of setters (values symbolic, strings, payload and property lists of symbolic length, lists of 0-2 entries; setters in both orders, and each called twice) "
    "every accepting path of the builder: size(), Remaining Length, to_continuous_buffer() and the concatenation of to_buffers() agree, also through GenericPacketTrait and the "
    "packet enums; parsing the bytes gives an equal packet and consumes the body exactly.")
NOTE["C03"] = EXPLAIN["C03"] = _CB + (
    "For the same builder paths the bytes are compared, element by element, with the layout written down from the OASIS text; the specification bytes are parsed and every accessor "
    "of the built and of the parsed packet must give the value that was set. Below the packets: variable byte integers (all values, all inputs), the 17 protocol enums, the 27 property kinds, "
    "property lists, subscription options and entries, and the string/binary/payload types (also with the small-string features).")
NOTE["C04"] = EXPLAIN["C04"] = _CB + (
    "Every path of every parser over a body of unknown length and content (PUBLISH: all 16 flag values): no panic, no overflow, no read outside, consumed <= input; on every accepting "
    "path the packet's four serialisations agree, re-parsing gives an equal packet, and rebuilding it from its accessors through the builder is accepted and gives the same packet.")
_CA = ["a list field (topic filters, reason codes) of more than the analysed number of entries behaves like the analysed ones (the loop body is the same code)",
       "payload up to 200 MB and property lists up to 30 MB in the builder direction (beyond that the builders panic by design of expect())",
       "str::from_utf8 and the standard collections behave as documented"]
for _p in CODEC:
    ASSUME[_p] = _CA
CLAIMED.add("C18")
TECH["C18"] = "path-sensitive abstract interpretation of MIR: every property list of a finite table through the builder and the parser, other fields symbolic, against the specification table"
NOTE["C18"] = EXPLAIN["C18"] = (
    "All 27 property kinds x 14 property-carrying locations (13 v5.0 packet kinds and the will; 16- and 32-bit identifiers) x one and two occurrences, plus repetition with another property between, "
    "permitted pairs, three User Properties, and everything a location permits in one packet (thorough: all ordered pairs). Property values and all other packet fields are symbolic. A forbidden list has no accepting path; "
    "a permitted one is accepted whenever the packet without it is; builder and parser never disagree. Value rules: every property kind's parse and new accept exactly the values the specification permits.")
ASSUME["C18"] = ["Authentication Data without Authentication Method, and AUTH without Authentication Method, are outside the placement table: only builder/parser agreement is required there",
                 "a property list behaves like the enumerated ones (the validators are folds over the list)"]
_RW = ("The methods that rewrite a PUBLISH (set_dup, the four alias/topic rewrites of the send and store paths, add_extracted_topic_name) are analysed on packets built "
       "with every QoS and the property lists enumerated in the rule: the result's accessors, size and bytes are those of the intended fields. ")
for _p in ("C03", "C06", "C13", "C14", "C16"):
    NOTE[_p] = EXPLAIN[_p] = NOTE[_p] + " " + _RW
NA = {}
_P = {}


def program(features=(), no_default=False):
    k = (tuple(features), no_default)
    if k not in _P:
        _P[k] = mir.Program(dump.get_dump(features, no_default))
    return _P[k]


def run(p, tier):
    P = program()
    out = []
    if p in CONN:
        out.append(connrule.run(P))
        if tier == "thorough":
            out.append(connrule.run(P, (("Client", "u32"), ("Server", "u32")), label="-u32"))
            out.append(connrule.run(P, reps=2, label="-2elem"))
    if p in ("C08", "C11"):
        out.append(connrule.run(P, label="-checked_send", jobset=jobs.checked_jobs))
    if p == "C20":
        out.append(alloc.run(P) if tier == "quick" else alloc.run(P, 6, far=13))
    if p == "C13":
        out.append(alias.run(P) if tier == "quick" else alias.run(P, 4, far=9))
    if p in ("C05", "C09"):
        out.append(framing.run(P, tier))
    if p in CODEC or p in ("C05", "C14"):
        out.append(codecrule.run(P, tier))
    if p in rewrite.ALL:
        out.append(rewrite.run(P, tier))
    if p == "C18":
        out.append(placement.run(P, tier))
        out.append(codecrule.run(P, tier, values_only=True))
    return out


def relevant(p, t):
    """sample table rows that concern property p"""
    import tags
    s = set()
    for n in t[3]:
        s |= set(tags.NOTE.get(n, "").split())
    return p in s


def by_name(n, P):
    """used while developing: run one rule on a program"""
    if n == "conn":
        return [connrule.run(P)]
    if n == "csend":
        return [connrule.run(P, label="-checked_send", jobset=jobs.checked_jobs)]
    if n == "alloc":
        return [alloc.run(P)]
    if n == "framing":
        return [framing.run(P)]
    if n == "alias":
        return [alias.run(P)]
    if n == "placement":
        return [placement.run(P), codecrule.run(P, values_only=True)]
    if n == "rewrite":
        return [rewrite.run(P)]
    if n == "codec":
        return [codecrule.run(P)]
    raise KeyError(n)
