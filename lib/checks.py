"""Which harness decides which property, and how it is built."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
import cbuild
V = cbuild.VERIF
H = os.path.join(V, "harness")

class GeneratedCodeBroken(Exception):
    """fast_type_gen's output for the check's templates cannot be produced or compiled"""

def v2_sources(kinds, tag, n_tu):
    """template files of the space -> fast_type_gen -> glue sources that register the generated codecs"""
    dump = cbuild.build_exe("spacedump", [os.path.join(H, "spacedump.cpp")], [], variant="plain")
    root = os.path.join(cbuild.BUILD, tag)
    xml, gen = os.path.join(root, "xml"), os.path.join(root, "gen")
    for d in (xml, gen):
        os.makedirs(d, exist_ok=True)
    idx = subprocess.run([dump, xml] + list(kinds), stdout=subprocess.PIPE, check=True, text=True).stdout.splitlines()
    ks = [(int(l.split()[0]), int(l.split()[3])) for l in idx if l.split()[2] == "1"]
    names = {k: ["e%d" % k] + ["e%dx%d" % (k, j) for j in range(n)] for k, n in ks}
    cbuild.forget_hashes()
    try:
        cbuild.gen_types([os.path.join(xml, f + ".xml") for k, n in ks for f in names[k]], gen)
    except (cbuild.BuildError, subprocess.TimeoutExpired) as e:
        if isinstance(e, cbuild.BuildError) and "compile of" in str(e):
            raise
        raise GeneratedCodeBroken(str(e))
    srcs = []
    for n in range(n_tu):
        part_ = ks[n::n_tu]
        t = '#include "v2glue.h"\n' + "".join('#include "%s/%s.cpp"\n' % (gen, f) for k, _ in part_ for f in names[k])
        t += "".join("static int r%d = v2::add(%d, %s);\n" % (k, k, ", ".join(f + "::description()" for f in names[k])) for k, _ in part_)
        f = os.path.join(root, "glue%d.cpp" % n)
        if not os.path.exists(f) or open(f).read() != t:
            with open(f, "w") as o:
                o.write(t)
        srcs.append(f)
    cbuild.forget_hashes()
    return srcs

def v2_exe(name, kinds, n_tu=16):
    """the harness codec2 with the generated codecs of some kinds of templates"""
    pool = ThreadPoolExecutor(1)
    libs = ["mfast", "coder", "xml"]
    early = pool.submit(cbuild.compile_all, [(os.path.join(H, "codec2.cpp"), "asan", (), ())])
    srcs = v2_sources(kinds, name, n_tu)
    try:
        objs = cbuild.compile_all([(s, "glue", (), ()) for s in srcs])
    except cbuild.BuildError as e:
        raise GeneratedCodeBroken(str(e)) if "error:" in str(e) else e
    return cbuild.build_exe(name, [], libs, more=early.result() + objs, ldlibs=[WRAP])

def gen_exe(name, source, xmls, libs, xetra=False):
    """a harness compiled together with the classes generated for some template files"""
    pool = ThreadPoolExecutor(1)
    pre = pool.submit(cbuild.compile_all, cbuild.lib_items(libs, "asan", xetra))
    gen = os.path.join(cbuild.BUILD, name)
    try:
        srcs = cbuild.gen_types([os.path.join(H, "xml", x) for x in xmls], gen, xetra)
    except (cbuild.BuildError, subprocess.TimeoutExpired) as e:
        if isinstance(e, cbuild.BuildError) and "compile of" in str(e):
            raise
        raise GeneratedCodeBroken(str(e))
    pre.result()
    try:
        objs = cbuild.compile_all([(s, "asan", (), ("-I" + gen,)) for s in srcs + [os.path.join(H, source)]])
    except cbuild.BuildError as e:
        raise GeneratedCodeBroken(str(e)) if "error:" in str(e) else e
    return cbuild.build_exe(name, [], libs, more=objs, xetra=xetra)

WRAP = "-Wl,--wrap=malloc,--wrap=_Znwm,--wrap=_Znam"  # harness/fault.h
HARNESS = {
    "codec1": dict(sources=["codec1.cpp"], libs=["mfast", "coder", "xml"], ldlibs=[WRAP]),
    "world": dict(builder=lambda: gen_exe("world", "world.cpp", ["w.xml"], ["mfast", "xml"])),
    "eq": dict(builder=lambda: gen_exe("eq", "eq.cpp", ["eqt.xml"], ["mfast", "coder", "xml"], xetra=True)),
    "arena": dict(sources=["arena.cpp"], libs=["mfast"], ldlibs=["-Wl,--wrap=malloc,--wrap=free"]),
    "json": dict(sources=["json.cpp"], libs=["mfast", "coder", "xml", "json"], xetra=True),
    "view": dict(builder=lambda: gen_exe("view", "view.cpp", ["vw.xml"], ["mfast", "coder", "xml"])),
    "dec": dict(sources=["dec.cpp"], libs=["mfast", "xml"]),
    "vec": dict(sources=["vec.cpp"], libs=["mfast", "xml"]),
    "codec2": dict(builder=lambda: v2_exe("codec2", ["base", "tid"])),
    "codec2p": dict(builder=lambda: v2_exe("codec2p", ["pmap"])),
    "codec2d": dict(builder=lambda: v2_exe("codec2d", ["dict", "clash"], 8)),
}

def part(harness, check, **kw):
    return dict(harness=harness, check=check, **kw)

PARTS = {
    "C01": [part("codec1", "C01")],
    "C02": [part("codec2", "C02")],
    "C03": [part("codec1", "C03"), part("codec2", "C03")],
    "C04": [part("codec1", "C04"), part("codec2", "C04")],
    "C05": [part("codec1", "C05"), part("codec2", "C05")],
    "C06": [part("codec1", "C06"), part("codec2", "C06")],
    "C07": [part("codec2", "C07")],
    "C08": [part("codec1", "C08"), part("codec2p", "C08")],
    "C09": [part("codec1", "C09"), part("codec2", "C09")],
    "C10": [part("codec1", "C10"), part("codec2", "C10")],
    "C11": [part("codec1", "C11"), part("codec2", "C11")],
    "C12": [part("codec1", "C12"), part("codec2d", "C12")],
    "C13": [part("json", "C13")],
    "C14": [part("json", "C14")],
    "C15": [part("vec", "C15")],
    "C16": [part("world", "C16")],
    "C17": [part("world", "C17")],
    "C18": [part("arena", "C18")],
    "C19": [part("eq", "C19")],
    "C21": [part("dec", "C21")],
    "C22": [part("view", "C22")],
    "C23": [part("world", "C23"), part("codec1", "C23"), part("codec2", "C23")],
    "C24": [part("codec1", "C24"), part("codec2", "C24")],
}

A_SPACE = "template shapes and field values are those enumerated by harness/space.h (every field type, optionality, operator and initial value; groups, sequences, nesting, dynamic templateRef, several templates per stream)"
A_PRE = "API preconditions: constant fields hold their constant, constant lengths match, ASCII strings are 7-bit and do not start with NUL, mandatory fields are present"
A_REF = "the reference decoder and encoder of harness/model.h implement FAST 1.1 (written from the specification, no code shared with mFAST)"
HIST_RULE = "a case is one (template set, message history, reset placement); distinct states are distinct (template set, byte stream so far) reached"
META = {
    "C01": dict(level="model_checking", technique="explicit-state exploration of bounded message histories on the real run-time-template codec",
                note="Every history up to the stated depth over every template of the space, each with every reset placement, is executed on the real encoder and decoder; within those bounds the check is exhaustive, nothing is sampled.",
                rule=HIST_RULE, assumptions=[A_SPACE, A_PRE, "history depth 3 (quick) / 4 (thorough)"]),
    "C02": dict(level="model_checking", technique="explicit-state exploration of bounded message histories on the real generated codec",
                note="As C01, for types and codecs generated by the tree's own fast_type_gen; decoders with message tokens and without.",
                rule=HIST_RULE, assumptions=[A_SPACE, A_PRE, "integer vectors are outside the generated codec", "history depth 3 (quick) / 4 (thorough)"]),
    "C03": dict(level="model_checking", technique="explicit-state exploration of bounded message histories; emitted bytes judged by an independent FAST 1.1 reference decoder",
                note="As C01/C02, with every emitted byte string interpreted by the reference decoder in harness/model.h, which shares no code with mFAST.",
                rule=HIST_RULE, assumptions=[A_SPACE, A_PRE, A_REF]),
    "C04": dict(level="model_checking", technique="exhaustive enumeration of byte streams and of alternative FAST encodings; the real decoders compared with an independent reference decoder state machine",
                note="After every prefix history: all byte strings over a structured alphabet breadth first up to a size bound (a string is extended while the reference decoder still wants bytes), and every encoding of every short history that departs from the canonical one in a bounded number of producer's choices; value, bytes consumed, acceptance and the resulting dictionary state are compared.",
                rule="a case is one (template set, prefix history, byte string) or (template set, history, choice sequence); distinct states by hash of that", assumptions=[A_SPACE, A_REF, "byte alphabet and string count bounds of codec_checks.h"]),
    "C05": dict(level="model_checking", technique="exhaustive enumeration of byte strings and of single-fault damaged streams executed on the real decoders under AddressSanitizer with assertions on, exactly sized heap buffers",
                note="Every single-byte substitution from the alphabet, deletion, insertion and truncation of every short valid stream, and all byte strings breadth first up to a size bound; any sanitizer report, assertion, signal, hang or position outside the range is a violation.",
                rule="a case is one (template set, byte streams) pair; distinct by content", assumptions=[A_SPACE, "faults as enumerated: one damaged place per stream pair", "streams announcing more than 2000 sequence elements are skipped"]),
    "C06": dict(level="model_checking", technique="exhaustive enumeration of output buffer sizes and vector sizes/capacities for every short history on the real encoders under AddressSanitizer",
                note="Every buffer size from 1 to length+12 (exactly sized heap blocks) and every vector slack; the bytes are compared with the unconstrained encoding.",
                rule="a case is one (template set, history, message, pmap mode, buffer form and size)", assumptions=[A_SPACE, A_PRE, "prefix histories of at most one message"]),
    "C07": dict(level="model_checking", technique="explicit-state exploration of bounded message histories, run-time codec against generated codec in both directions",
                note="Every history of the space encoded by one codec and decoded by the other, v1 to v2 and v2 to v1.",
                rule=HIST_RULE, assumptions=[A_SPACE, A_PRE, "integer vectors are outside the generated codec"]),
    "C08": dict(level="model_checking", technique="exhaustive enumeration of presence maps: every number of bits per segment around each byte boundary with every pattern of values, on the real codecs against an independent reference",
                note="For each number of presence-map bits from 0 to past the third byte and each context (message, optional group, sequence element, several segments), every bit pattern (all of them up to a width bound, then all patterns of at most two set or two clear bits), encoded with overlong maps enabled and disabled, checked against the reference, decoded, and decoded again with every number of trailing zero bytes added or removed.",
                rule="a case is one (template set, value pattern, pmap form)", assumptions=[A_SPACE, A_REF, "pattern classes of codec_more.h"]),
    "C09": dict(level="model_checking", technique="exhaustive enumeration of boundary neighbourhoods and of stop-bit encodings of integers on the real codecs against an independent reference",
                note="Every value within a distance of every power of two boundary (and the exponent range), and every overlong form of its encoding, for every integer type, optionality and operator; template ids likewise.",
                rule="a case is one (field kind, value or pair of values, encoding form)", assumptions=[A_SPACE, A_REF, "values outside the neighbourhoods are not visited"]),
    "C10": dict(level="model_checking", technique="exhaustive enumeration of (history, reset, continuation) on the real codecs, compared with freshly constructed instances",
                note="After every history a reset followed by every continuation behaves as on a new instance (bytes and values), on both codecs, both for reset arguments and template-declared resets.",
                rule="a case is one (template set, history before, history after)", assumptions=[A_SPACE, A_PRE]),
    "C11": dict(level="model_checking", technique="exhaustive enumeration of failing calls (every too-small buffer, every damaged stream of the fault alphabet) followed by reset and every continuation, compared with fresh instances; allocations accounted",
                note="Failures at every output position and every damaged input byte of short histories; afterwards a reset must give the behaviour of a new instance and nothing may leak.",
                rule="a case is one (template set, prefix, failing call, continuation)", assumptions=[A_SPACE, A_REF]),
    "C12": dict(level="model_checking", technique="explicit-state exploration of message histories over every placement of dictionary, key, namespace and typeRef attributes, against an independent reference; all pairs of types sharing a key",
                note="Every combination of description/template/group/sequence/typeRef/operator attributes of harness/space2.h with every history up to the depth; which earlier field a value depends on is decided by the reference's own key computation. Two fields of different types on one key must be refused.",
                rule=HIST_RULE, assumptions=[A_SPACE, A_REF]),
    "C13": dict(level="model_checking", technique="exhaustive enumeration of messages over every field type, optionality and nesting shape, on the real writer and reader; the text judged by an independent JSON parser",
                note="Every message of the space is written; the text must be a JSON text (RFC 8259 parser in harness/json.h) that renders exactly the message, and is read back into fresh and used messages, alone and one behind another in a stream; groups and sequences on their own; strings with every byte and every pair of characters; raw JSON members and ignored members.",
                rule="a case is one (template, message); distinct states by the text", assumptions=[A_SPACE, "dynamic template references are written but not read (the reader does not support them)", "raw JSON fields contain a JSON object"]),
    "C14": dict(level="model_checking", technique="exhaustive enumeration of JSON texts: all token strings that are prefixes of JSON texts (plus one foreign token) to a depth, and all single-point variations of valid texts, on the real reader against an independent parser and interpretation",
                note="For messages of every template of the space: every white space insertion, member order, unknown member (every kind of JSON value) at every position, null member, string escape form, number form, truncation, and single byte change; plus all token strings up to a depth for small templates. Complete renderings must be read with their meaning, numbers out of range and truncated texts must be reported, everything else must end without damage and leave a usable message.",
                rule="a case is one (template, text)", assumptions=[A_SPACE, "invalid text may be accepted", "mandatory members missing or null: contents of the member unspecified", "integers are written without fraction and exponent"]),
    "C15": dict(level="model_checking", technique="explicit-state breadth-first exploration of operation sequences on the real string and vector fields, compared after every operation with a standard container, under AddressSanitizer",
                note="Every operation (with small arguments) in every state reached within the depth, where a state is the contents, presence, ownership and block size of the field and of a partner field; all seven string/vector types, optional/mandatory, with/without initial value, three allocators; allocations are accounted.",
                rule="a case is one (field, allocator, operation sequence); distinct states by hash of the observable and storage state", assumptions=["sequences up to depth 3 (quick) / 5 (thorough), state limit per first operation as in vec.cpp", "API preconditions: positions within the contents, no arguments aliasing the field except assign/as"]),
    "C16": dict(level="model_checking", technique="explicit-state breadth-first exploration of operation sequences on the real sequence fields of two messages, compared after every operation with lists of independent records, under AddressSanitizer",
                note="Every operation (resize, grow_by, reserve, assign, as, swap, omit, clear, element changes, copies of elements, typed and reflective access) in every state reached within the depth; a state is the contents and presence of both messages, which elements existed before, and the blocks in use; two message objects, four allocator arrangements; after every operation both messages are read completely, iterated in both directions, and at the end all blocks must have been released once.",
                rule="a case is one (message shape, allocators, operation sequence); distinct states by hash of the observable and storage state", assumptions=["sequences of up to 3 (quick) / 5 (thorough) operations, state limit per first operation as in world.cpp", "contents of elements that come back after shrinking are unspecified and taken over from the object", "swap only within one allocator"]),
    "C17": dict(level="model_checking", technique="explicit-state breadth-first exploration of operation sequences on two real messages including every kind of copy, assignment, move, swap and destruction, compared after every operation with independent value models, under AddressSanitizer",
                note="As C16, over messages with groups, sequences, nested messages, sequences of nested messages and all field types, run-time and generated classes (group objects, linked groups, typed accessors); both objects are read completely after every operation, so that storage shared by a copy shows in the other object or under AddressSanitizer.",
                rule="a case is one (message shape, allocators, operation sequence); distinct states by hash of the observable and storage state", assumptions=["sequences of up to 3 (quick) / 5 (thorough) operations, state limit per first operation as in world.cpp", "contents of groups made present again are unspecified and taken over from the object"]),
    "C18": dict(level="model_checking", technique="explicit-state exploration of all request sequences on the real allocators, every block checked after every operation, system allocations under the harness' control",
                note="All sequences of allocate, reallocate (growing, shrinking, of a null block), deallocate and reset with sizes around every chunk boundary, on arena_allocator, arena_allocator_with_buffer and the malloc based allocators; every live block is filled with a pattern and checked after each step; failing system allocations at every index.",
                rule="a case is one (allocator, request sequence); distinct states by hash of the live blocks' sizes and the chunks in use", assumptions=["request sequences up to the depth in arena.cpp", "a block is requested at most once in a state"]),
    "C19": dict(level="model_checking", technique="exhaustive enumeration of all ordered pairs of messages of the template space, equality of the real objects compared with equality of the model values",
                note="All ordered pairs of messages, each reached in several ways (fresh, overwritten, copied), compared as messages, groups, sequences, elements, fields, typed references and generated classes; all pairs of templates across the space.",
                rule="a case is one ordered pair of built messages", assumptions=[A_SPACE]),
    "C21": dict(level="model_checking", technique="exhaustive enumeration of mantissa/exponent neighbourhoods and of all decimal literals to a bounded length, exact integer arithmetic as oracle",
                note="All mantissas near 0, powers of ten and the type limits with all exponents, printed and read back; every literal over the digit/sign/point/exponent alphabet up to a length; normalisation and representation changes on every kind of decimal field.",
                rule="a case is one value or one literal", assumptions=["values outside the neighbourhoods and literals beyond the length bound are not visited"]),
    "C22": dict(level="model_checking", technique="exhaustive enumeration of views (all lists of references up to a length, grouped into fields in every way) over all messages of a bounded space, on the real view iterators, compared with a path evaluator",
                note="Every list of up to 3 (thorough: 4) references out of 20, every grouping into fields, over 630 messages (thorough length 4: a subset); every item is compared with what the path designates in the message; copies of iterators are walked from every position; 156 views as generated classes; references that designate nothing must be refused.",
                rule="a case is one (view, message); distinct states are distinct views", assumptions=["references to whole elements of sequences with several named fields are not used (what they yield is unspecified)"]),
    "C23": dict(level="model_checking", technique="exhaustive fault injection: every allocation of every operation sequence and codec call of the bounded space fails (once, and from then on), on the real objects and codecs under AddressSanitizer",
                note="Messages: for every operation sequence up to the depth, each allocation of its last operation fails in turn; the operation must report it, both objects must be readable, reassignable and destructible, and no block may be released twice. Codecs (both generations): each allocation through the allocator, malloc and operator new of construction, encoding and decoding, after every history of at most one message, small and bulky messages; the call must throw or give the right result, and after a reset the codec must do what a new one does.",
                rule="a case is one (message shape, operation sequence, failing allocation) or (template set, history, call, failing allocation, continuation)", assumptions=["operation sequences of up to 2 (quick) / 3 (thorough) operations, as in world.cpp", "memory of partially constructed objects whose construction failed is not accounted for", "allocations inside the C++ run-time library's shared object do not fail"]),
    "C24": dict(level="model_checking", technique="exhaustive enumeration of interleavings of the operations of two or three encoder/decoder instances on one thread, each instance compared with running alone",
                note="All merge orders of the instances' operation sequences, for every template set of the space.",
                rule="a case is one (template set, instance histories, merge order)", assumptions=[A_SPACE, "instances are constructed before the interleaving starts unless construction is one of the operations"]),
}

def build(p):
    h = HARNESS[p["harness"]]
    if "builder" in h:
        return h["builder"]()
    return cbuild.build_exe(p["harness"], [os.path.join(H, s) for s in h["sources"]], h["libs"], variant=h.get("variant", "asan"), defs=h.get("defs", ()), extra=h.get("extra", ()), ldlibs=h.get("ldlibs", ()), xetra=h.get("xetra", False))

def build_all():
    for h in HARNESS:
        build(dict(harness=h))
