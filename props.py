# Which contract files decide which property.
AI = "abstract interpretation (trace-partitioned linear inequalities + byte-content domain) of LLVM IR against a C contract file"
NOTE = "Sound over-approximation: entries h_* cover every input, entries b<N>_* every input whose sizes are at most N (all other values unrestricted). Trusts clang's front end, the analyser in engine/ with its models of libc, and the contract file. An entry the domains cannot decide is reported as UNDECIDED, not as an alarm."
def P(*groups, level="proof", technique=AI, rule="", note=NOTE, assumptions=()):
    return dict(groups=list(groups), level=level, technique=technique, rule=rule, note=note, assumptions=list(assumptions))
def S(spec, *src, **kw):
    return dict(spec=spec, src=list(src), **kw)
VIEW = ["strview.c"]
BUF = ["strbuf.c", "strview.c"]
NUM = ["strnum.c", "strview.c"]
A = "accessories/strbuf_crypt/aes/"
AES = [A + f for f in ("aes256_dec.c", "aes256_enc.c", "aes_dec.c", "aes_enc.c", "aes_invsbox.c", "aes_keyschedule.c", "aes_sbox.c", "gf256mul.c", "memxor.c")]
LANES = "abstract interpretation of data-oblivious code (value numbering over XOR sums of tabulated byte functions) of LLVM IR against a C reference in the contract file"
LNOTE = "Every byte of input is unknown; sizes and loop counts are those of the entries. Two values are reported as different only if they differ for some input; what the domain cannot express is reported as UNDECIDED. Trusts clang's front end, engine/lanes.cpp and the contract file with its reference."
BOTH = " Decided for x86-64 and, as a big-endian target, s390x."
import os
I386 = ["-target", "i386-linux-gnu", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs", "inc32"), "-I/usr/include/x86_64-linux-gnu"]
NOTE32 = " Analysed for i386 as an instance of a 32-bit machine; assumes that objects lie below 2 GB."
BIG = ["-D__x86_64__", "-target", "s390x-linux-gnu", "-I/usr/include/x86_64-linux-gnu"]
STD = ["-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB"]
PROPS = {
 "C01": P(S("v_safe", *VIEW), rule="every load/store/memcmp/memcpy lies inside a live object the callee was given"),
 "C02": P(S("v_inside", *VIEW), rule="returned views, remainders and array elements are proved to lie in the source or be invalid"),
 "C03": P(S("v_part", *VIEW)),
 "C04": P(S("v_delim", *VIEW)),
 "C05": P(S("v_fail", *VIEW)),
 "C06": P(S("v_index", *VIEW)),
 "C07": P(S("v_tocstr", *VIEW)),
 "C08": P(S("v_trim", *VIEW)),
 "C09": P(S("v_match", *VIEW)),
 "C10": P(S("v_find", *VIEW)),
 "C11": P(S("v_line", *VIEW)),
 "C12": P(S("v_nocase", *VIEW)),
 "C13": P(S("v_all", *VIEW)),
 "C14": P(S("v_quote", *VIEW)),
 "C20": P(S("b_safe", *BUF)),
 "C21": P(S("b_inv", *BUF)),
 "C22": P(S("b_fixed", *BUF)),
 "C23": P(S("b_alloc", *BUF)),
 "C24": P(S("b_insert", *BUF)),
 "C25": P(S("b_cat", *BUF)),
 "C26": P(S("b_cap", *BUF)),
 "C27": P(S("b_room", *BUF)),
 "C28": P(S("b_format", *BUF)),
 "C29": P(S("b_using", *BUF)),
 "C30": P(S("b_life", *BUF)),
 "C31": P(S("b_null", *BUF)),
 "C32": P(S("b_strip", *BUF)),
 "C40": P(S("n_safe", *NUM)),
 "C41": P(S("n_err", *NUM)),
 "C42": P(S("n_value", *NUM)),
 "C43": P(S("n_grammar", *NUM)),
 "C45": P(S("n_default", *NUM)),
 "C46": P(S("n_fgrammar", *NUM)),
 "C47": P(S("n_float", *NUM)),

 # accessories and configurations
 "C50": P(S("a_io", "accessories/strbuf_io.c", "accessories/strview_io.c", *BUF)),
 "C51": P(S("l_aes", *AES, tool="lanes"), S("l_aes", *AES, tool="lanes", defs=BIG), technique=LANES, note=LNOTE + BOTH),
 "C52": P(S("l_crypt", *AES, "accessories/strbuf_crypt/strbuf_crypt.c", *BUF, tool="lanes"), S("l_crypt", *AES, "accessories/strbuf_crypt/strbuf_crypt.c", *BUF, tool="lanes", defs=BIG), technique=LANES, note=LNOTE + BOTH),
 "C53": P(S("a_crypt", "accessories/strbuf_crypt/strbuf_crypt.c", A + "memxor.c", *BUF)),
 "C54": P(S("l_pack", *BUF, tool="lanes"), S("l_pack", *BUF, tool="lanes", defs=BIG), technique=LANES, note=LNOTE + BOTH),
 "C55": P(S("b_cap", *BUF, defs=["-DSTRBUF_CAPACITY_GROW_STEP=10"]), S("b_cap", *BUF, defs=["-DSTRBUF_CAPACITY_GROW_STEP=1"]), S("b_inv", *BUF, defs=["-DSTRBUF_CAPACITY_GROW_STEP=10"]), S("b_cap", *BUF, defs=["-DSTRBUF_CAPACITY_GROW_STEP=7"]), S("b_cap", *BUF, defs=["-DSTRBUF_CAPACITY_GROW_STEP=1000000"])),
 "C56": P(S("c_alloc", *BUF, defs=STD), S("c_alloc", *BUF, defs=STD + ["-DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB"])),
 "C57": P(dict(py="config"), technique="compile-pass and compile-fail witnesses in every documented configuration, and rules over the symbols clang's IR defines and refers to", rule="each configuration compiles, defines what its headers declare and uses the heap, printf, prnf and floating point only if asked to; the macros accept exactly the documented types", note="Exhaustive over the listed configurations, compilers (gcc, clang) and language standards (gnu99, gnu11, gnu17). Trusts the compilers' type checkers."),
 "C58": P(dict(py="state"), technique="interprocedural escape and effect analysis of static-storage objects over the linked LLVM IR", rule="no instruction writes through an address derived from an object with static storage duration; no call of a stateful C library function", note="Sound for addresses passed in registers, arguments and results; an address stored in memory is reported as undecided. Trusts clang's front end."),
 "C59": P(*[S(x, *VIEW, defs=[c]) for c in ("-funsigned-char", "-fsigned-char") for x in ("v_match", "v_nocase", "v_trim", "v_delim", "v_find", "v_line", "v_quote", "v_all")], *[S(x, *BUF, defs=[c]) for c in ("-funsigned-char", "-fsigned-char") for x in ("b_cat", "b_using", "b_strip")]),

 # the same on machines of 32 bits
 "C60": P(*[S(x, *VIEW, defs=I386) for x in ("v_safe", "v_inside", "v_part", "v_delim", "v_fail", "v_index", "v_tocstr", "v_trim", "v_match", "v_find", "v_line", "v_nocase", "v_all", "v_quote")], note=NOTE + NOTE32),
 "C61": P(*[S(x, *BUF, defs=I386) for x in ("b_safe", "b_inv", "b_fixed", "b_alloc", "b_insert", "b_cat", "b_cap", "b_room", "b_format", "b_using", "b_life", "b_null", "b_strip")], S("c_alloc", *BUF, defs=I386 + STD), note=NOTE + NOTE32),
 "C62": P(*[S(x, *NUM, defs=I386) for x in ("n_safe", "n_err", "n_value", "n_grammar", "n_default", "n_fgrammar", "n_float")], note=NOTE + NOTE32),
 "C63": P(S("a_io", "accessories/strbuf_io.c", "accessories/strview_io.c", *BUF, defs=I386), S("a_crypt", "accessories/strbuf_crypt/strbuf_crypt.c", A + "memxor.c", *BUF, defs=I386), S("l_aes", *AES, tool="lanes", defs=I386), S("l_crypt", *AES, "accessories/strbuf_crypt/strbuf_crypt.c", *BUF, tool="lanes", defs=I386), S("l_pack", *BUF, tool="lanes", defs=I386), technique=LANES + "; " + AI, note=NOTE + NOTE32),
}
