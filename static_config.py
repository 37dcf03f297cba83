"""Build configurations and types (C57, C58): rules over what clang's front end makes of the sources in every documented
configuration - which configurations compile, what each defines and refers to, which programs the macros accept - and
over the global variables of the library.  Nothing is executed: programs are compiled, never run."""
import os, re, subprocess, json, concurrent.futures as cf
LLVM = "/usr/lib/llvm-18/bin/"
HERE = os.path.dirname(os.path.abspath(__file__))
HEAP = {"malloc", "calloc", "realloc", "free", "reallocarray", "aligned_alloc", "posix_memalign", "memalign", "valloc", "strdup", "strndup", "asprintf", "vasprintf", "getline", "getdelim"}
PRINTF = {"printf", "fprintf", "sprintf", "snprintf", "vprintf", "vfprintf", "vsprintf", "vsnprintf", "dprintf", "asprintf", "vasprintf"}
CORE = ["strview.c", "strbuf.c", "strnum.c"]
HEADERS = ["strview.h", "strbuf.h", "strnum.h", "accessories/strbuf_io.h", "accessories/strview_io.h", "accessories/strbuf_pack.h", "accessories/strview_unpack.h",
           "accessories/xendian.h", "accessories/strbuf_crypt/strbuf_crypt.h"]

def sh(cmd, inp=None):
    r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stdout, r.stderr

class Ctx:
    def __init__(self, repo, w):
        self.repo = repo; self.w = os.path.join(w, "cfg"); os.makedirs(self.w, exist_ok=True)
        self.inc = ["-I" + repo, "-I" + repo + "/accessories", "-I" + repo + "/test"]
        self.obl = []; self.alarms = []; self.und = []; self.n = 0
    def ok(self, what): self.obl.append(what)
    def bad(self, what, file, msg, line=0, func=""):
        self.alarms.append(dict(site=what, file=file, line=line, func=func, msg=msg))
    def cc(self, code, comp="clang", std="gnu99", defs=(), extra=()):
        base = [LLVM + "clang"] if comp == "clang" else [comp]
        return sh(base + ["-std=" + std, "-x", "c", "-fsyntax-only", *([] if "-Wformat" in extra else ["-w"]), "-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types"]
                  + list(extra) + list(defs) + self.inc + ["-"], code)

def first_error(err):
    m = re.search(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", err, re.M)
    return (m.group(1), int(m.group(2)), m.group(3)) if m else ("", 0, err.strip()[:200])

def compile_matrix(c):
    """every documented configuration compiles"""
    jobs = []
    P = ["-DSTRBUF_PROVIDE_PRINTF"]; Q = ["-DSTRBUF_PROVIDE_PRNF"]; D = ["-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB"]; A = D + ["-DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB"]
    bufs = [a + p + q for a in ([], D, A) for p in ([], P) for q in ([], Q)] + [["-DSTRBUF_CAPACITY_GROW_STEP=%d" % k] for k in (1, 10, 4096)]
    todo = [("strview.c", []), ("strnum.c", []), ("strnum.c", ["-DSTRNUM_NOFLOAT"])] + [("strbuf.c", b) for b in bufs]
    todo += [(f, []) for f in ("accessories/strbuf_io.c", "accessories/strview_io.c", "accessories/strbuf_crypt/strbuf_crypt.c")]
    # every header on its own, twice
    for h in HEADERS: todo.append((h, []))
    todo.append(("strbuf.h", P + Q)); todo.append(("strnum.h", ["-DSTRNUM_NOFLOAT"]))
    for comp in ("clang", "gcc"):
        for std in ("gnu99", "gnu11", "gnu17"):
            for f, d in todo: jobs.append((comp, std, f, d))
    def one(j):
        comp, std, f, d = j
        code = '#include "%s"\n' % os.path.join(c.repo, f) * (2 if f.endswith(".h") else 1)
        return c.cc(code, comp, std, d)
    with cf.ThreadPoolExecutor(8) as ex:
        for j, (rc, o, e) in zip(jobs, ex.map(one, jobs)):
            what = "compiles: %s %s -std=%s %s" % (j[2], j[0], j[1], " ".join(j[3]))
            c.ok(what)
            if rc:
                fn, ln, msg = first_error(e)
                c.bad(what, fn or j[2], "%s does not compile with %s -std=%s %s: %s" % (j[2], j[0], j[1], " ".join(j[3]) or "(no options)", msg), ln)

def ir(c, f, defs):
    c.n += 1
    out = os.path.join(c.w, "m%d.ll" % c.n)
    rc, o, e = sh([LLVM + "clang", "-std=gnu99", "-O0", "-g", "-S", "-emit-llvm", "-w", "-fno-builtin", "-U_FORTIFY_SOURCE", "-D__NO_CTYPE", *defs, *c.inc, os.path.join(c.repo, f), "-o", out])
    if rc: return None
    return open(out).read()

def defined(t): return set(re.findall(r"^define (?!internal)[^@\n]*@([\w.]+)\(", t, re.M))
def declared_syms(t): return {s for s in re.findall(r"^declare [^@\n]*@([\w.]+)\(", t, re.M) if not s.startswith("llvm.")}
def used(t): return set(re.findall(r"(?:call|invoke)\b[^@\n]*@([\w.]+)\(", t)) | {s for s in declared_syms(t) if len(re.findall(r"@%s\b" % re.escape(s), t)) > 1}

def prototypes(c, header, defs):
    """functions a header declares without defining them: (name)"""
    rc, o, e = sh([LLVM + "clang", "-std=gnu99", "-x", "c", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", *defs, *c.inc, os.path.join(c.repo, header)])
    if rc: return None
    out = {}; cur = None
    for n in json.loads(o)["inner"]:
        loc = n.get("loc", {}); l2 = loc.get("expansionLoc", loc); cur = l2.get("file", cur)
        if n["kind"] == "FunctionDecl" and n.get("storageClass") != "static" and cur and os.path.realpath(cur) == os.path.realpath(os.path.join(c.repo, header)):
            out[n["name"]] = l2.get("line", 0) or loc.get("line", 0)
    return out

def modules(c):
    """what each configuration defines and depends on"""
    cfgs = []
    for a in ([], ["-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB"], ["-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB", "-DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB"]):
        for p in ([], ["-DSTRBUF_PROVIDE_PRINTF"]):
            for q in ([], ["-DSTRBUF_PROVIDE_PRNF"]): cfgs.append(a + p + q)
    mods = {}
    def get(f, d):
        k = (f, tuple(d))
        if k not in mods: mods[k] = ir(c, f, d)
        return mods[k]
    for d in cfgs:
        ts = {f: get(f, d) for f in CORE}
        if any(t is None for t in ts.values()): continue   # reported by the compile matrix
        allt = "\n".join(ts.values()); defs = set().union(*[defined(t) for t in ts.values()])
        name = " ".join(d) or "no options"
        for h in ("strview.h", "strbuf.h", "strnum.h"):
            pr = prototypes(c, h, d)
            if pr is None: continue
            for fn, ln in pr.items():
                what = "defined: %s (%s)" % (fn, name); c.ok(what)
                optional = ("prnf" in fn and "-DSTRBUF_PROVIDE_PRNF" not in d) or ("printf" in fn and "-DSTRBUF_PROVIDE_PRINTF" not in d)
                if fn not in defs and not optional: c.bad(what, h, "%s() is declared, but with %s no source defines it" % (fn, name), ln, fn)
        for f, t in ts.items():
            dep = {s for s in declared_syms(t) if s in used(t)} - defs
            what = "no heap: %s (%s)" % (f, name); c.ok(what)
            for s in sorted(dep & HEAP):
                if "-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB" in d and f == "strbuf.c": continue
                c.bad(what, f, "%s() is used although the default allocator of the C library was not asked for (%s)" % (s, name), *where(t, s))
            what = "no printf: %s (%s)" % (f, name); c.ok(what)
            for s in sorted(dep & PRINTF):
                if "-DSTRBUF_PROVIDE_PRINTF" in d and f == "strbuf.c": continue
                c.bad(what, f, "%s() is used although formatting was not asked for (%s)" % (s, name), *where(t, s))
            what = "no prnf: %s (%s)" % (f, name); c.ok(what)
            for s in sorted(x for x in dep if "prnf" in x):
                if "-DSTRBUF_PROVIDE_PRNF" in d and f == "strbuf.c": continue
                c.bad(what, f, "%s() is used although prnf was not asked for (%s)" % (s, name), *where(t, s))
        m = re.search(r"^@strbuf_default_allocator = (.*)$", ts["strbuf.c"], re.M)
        what = "default allocator (%s)" % name; c.ok(what)
        std = "-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB" in d
        if not m: c.bad(what, "strbuf.c", "strbuf_default_allocator is not defined (%s)" % name)
        elif not std and "weak" not in m.group(1).split("global")[0]: c.bad(what, "strbuf.c", "strbuf_default_allocator is not weak: an application that defines its own default allocator does not link")
        elif not std and "zeroinitializer" not in m.group(1) and not re.search(r"\{ ptr null, ptr null \}", m.group(1)): c.bad(what, "strbuf.c", "there is a default allocator although none was asked for")
        elif std and ("zeroinitializer" in m.group(1) or not re.search(r"ptr @\w+", m.group(1))): c.bad(what, "strbuf.c", "strbuf_default_allocator has no function although the default allocator of the C library was asked for")
    # without floating point
    t = ir(c, "strnum.c", ["-DSTRNUM_NOFLOAT"])
    if t is not None:
        what = "no floating point (-DSTRNUM_NOFLOAT)"; c.ok(what)
        for l in t.splitlines():
            l = re.sub(r'c"[^"]*"', "", l)
            if not l.startswith("!") and re.search(r"\b(float|double|x86_fp80|fp128)\b", l):
                c.bad(what, "strnum.c", "floating point is used although STRNUM_NOFLOAT is defined: " + l.strip()[:80]); break
        pr = prototypes(c, "strnum.h", ["-DSTRNUM_NOFLOAT"]); df = defined(t)
        for fn, ln in (pr or {}).items():
            what = "defined: %s (-DSTRNUM_NOFLOAT)" % fn; c.ok(what)
            if fn not in df: c.bad(what, "strnum.h", "%s() is declared, but with -DSTRNUM_NOFLOAT no source defines it" % fn, ln, fn)
    for h, f in (("accessories/strbuf_io.h", "accessories/strbuf_io.c"), ("accessories/strview_io.h", "accessories/strview_io.c"), ("accessories/strbuf_crypt/strbuf_crypt.h", "accessories/strbuf_crypt/strbuf_crypt.c")):
        t = ir(c, f, []); pr = prototypes(c, h, [])
        if t is None or pr is None: continue
        for fn, ln in pr.items():
            what = "defined: " + fn; c.ok(what)
            if fn not in defined(t): c.bad(what, h, "%s() is declared, but no source defines it" % fn, ln, fn)
        what = "no heap: " + f; c.ok(what)
        for s in sorted(declared_syms(t) & used(t) & HEAP): c.bad(what, f, "%s() is used, not the allocator of the buffer" % s, *where(t, s))

def where(t, sym):
    """(line, function) of the first use of sym"""
    fn = ""; 
    for l in t.splitlines():
        m = re.match(r"define [^@]*@([\w.]+)\(", l)
        if m: fn = m.group(1)
        elif not l.startswith("declare") and re.search(r"@%s\b" % re.escape(sym), l):
            d = re.search(r"!dbg !(\d+)", l)
            if d:
                k = re.search(r"^!%s = .*?line: (\d+)" % d.group(1), t, re.M)
                return (int(k.group(1)) if k else 0, fn)
            return (0, fn)
    return (0, "")

ACCEPT = []   # (what, code, flags)
REJECT = []
PRE = '#include <limits.h>\n#include "strview.h"\n#include "strbuf.h"\n#include "strnum.h"\n#include "xendian.h"\n#include "strbuf_pack.h"\n#include "strview_unpack.h"\n'
def witnesses():
    acc = []; rej = []
    # strbuf_cat counts its arguments
    code = PRE
    for n in range(1, 128): code += "_Static_assert(PP_NARG(%s) == %d, \"PP_NARG\");\n" % (", ".join("v%d" % i for i in range(n)), n)
    acc.append(("strbuf_cat counts 1 to 127 arguments", code, []))
    for n in (1, 2, 3, 20, 127):
        acc.append(("strbuf_cat takes %d views" % n, PRE + "strview_t f(strbuf_t** b, strview_t v) { return strbuf_cat(b, %s); }\n" % ", ".join(["v"] * n), []))
    for T in ("uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t"):
        c = PRE
        for m in ("xendian_pack_LE", "xendian_pack_BE", "xendian_unpack_LE", "xendian_unpack_BE"):
            c += "_Static_assert(_Generic(%s((%s)1), %s: 1, default: 0), \"type\");\n" % (m, T, T)
        acc.append(("byte order conversions keep the type " + T, c, []))
        acc.append(("packing and unpacking " + T, PRE + "void f(strbuf_t** b, strview_t v, %s x) { STRBUF_PACK_LE(b, x); STRBUF_PACK_BE(b, x); STRVIEW_UNPACK_LE(x, v); STRVIEW_UNPACK_BE(x, v); if(x) STRBUF_PACK_LE(b, x); else STRBUF_PACK_BE(b, x); }\n" % T, []))
    for T in ("float", "double", "long double"):
        rej.append(("byte order of floating point: " + T, PRE + "%s x;\nvoid f(strbuf_t** b) { STRBUF_PACK_BE(b, x); }\n" % T, []))
    for T, s in (("unsigned char", "uchar"), ("unsigned short", "ushort"), ("unsigned int", "uint"), ("unsigned long", "ulong"), ("unsigned long long", "ullong"), ("char", "char"), ("short", "short"), ("int", "int"), ("long", "long"), ("long long", "llong"), ("float", "float"), ("double", "double"), ("long double", "ldouble")):
        real = T in ("float", "double", "long double")
        for d in ([], ["-DSTRNUM_NOFLOAT"]):
            if real and d: continue
            # the macro has to be a call of the function whose destination has this very type
            acc.append(("strnum_value() to %s %s" % (T, " ".join(d)),
                        PRE + "#undef strnum_consume_%s\nextern int only_%s(%s*, strview_t*, int) __asm__(\"only\");\n#define strnum_consume_%s only_%s\nstruct wrong;\n" % (s, s, T, s, s)
                        + "".join("#define strnum_consume_%s (*(struct wrong (*)(void))0)\n" % o for o in ("uchar ushort uint ulong ullong char short int long llong float double ldouble").split() if o != s)
                        + "_Static_assert(_Generic(strnum_value((%s*)0, (strview_t*)0, 0), int: 1, default: 0), \"\");\n" % T, d))
    rej.append(("strnum_value() to float with STRNUM_NOFLOAT", PRE + "int f(strview_t* v) { float x; return strnum_value(&x, v, 0); }\n", ["-DSTRNUM_NOFLOAT"]))
    rej.append(("strnum_value() to a pointer to void", PRE + "int f(strview_t* v, void* p) { return strnum_value(p, v, 0); }\n", []))
    rej.append(("strnum_value() to a constant", PRE + "int f(strview_t* v, const int* p) { return strnum_value(p, v, 0); }\n", []))
    both = [("strview_is_match(v, %s)", "bool"), ("strview_is_match_nocase(v, %s)", "bool"), ("strview_starts_with(v, %s)", "bool"), ("strview_starts_with_nocase(v, %s)", "bool"),
            ("strview_trim(v, %s)", "strview_t"), ("strview_trim_start(v, %s)", "strview_t"), ("strview_trim_end(v, %s)", "strview_t"), ("strview_find_first(v, %s)", "strview_t"),
            ("strview_find_first_nocase(v, %s)", "strview_t"), ("strview_find_last(v, %s)", "strview_t"), ("strview_find_last_nocase(v, %s)", "strview_t"),
            ("strbuf_append(b, %s)", "strview_t"), ("strbuf_prepend(b, %s)", "strview_t"), ("strbuf_insert_at_index(b, 1, %s)", "strview_t"),
            ("strbuf_insert_before(b, v, %s)", "strview_t"), ("strbuf_insert_after(b, v, %s)", "strview_t"), ("strbuf_strip(b, %s)", "strview_t")]
    for e, t in both:
        c = PRE + "void f(strbuf_t** b, strview_t v, char* s, const char* k, const strview_t cv) { char a[4]; a[0] = 0;\n"
        for x in ("v", "cv", "s", "k", "a", "\"text\"", "cstr(\"text\")"): c += "_Static_assert(_Generic((%s), %s: 1, default: 0), \"\"); (void)%s;\n" % (e % x, t, e % x)
        acc.append(("%s takes views and strings" % e.split("(")[0], c + "}\n", []))
        for x in ("5", "1.0", "&v", "(int*)0"):
            rej.append(("%s refuses %s" % (e.split("(")[0], x), PRE + "void f(strbuf_t** b, strview_t v) { (void)%s; }\n" % (e % x), []))
    for x in ("0", "(size_t)5", "cstr(\"text\")", "STRVIEW_INVALID"):
        acc.append(("strbuf_create(%s)" % x, PRE + "strbuf_t* f(strbuf_allocator_t* a) { return strbuf_create(%s, a); }\nstrbuf_t* g(void) { return strbuf_create(%s, NULL); }\n" % (x, x), []))
    for x in ("\"text\"", "1.5", "(void*)0"):
        rej.append(("strbuf_create refuses %s" % x, PRE + "strbuf_t* f(void) { return strbuf_create(%s, NULL); }\n" % x, []))
    W = ["-Wno-everything", "-Wformat", "-Werror=format"]
    acc.append(("a view can be formatted", PRE + "#include <stdio.h>\nint f(strview_t v) { return printf(\"%\" PRIstr \"|%\" PRIstr, PRIstrarg(v), PRIstrarg((&v)[0])); }\n", W))
    for fn in ("strbuf_printf", "strbuf_append_printf", "strbuf_prnf", "strbuf_append_prnf"):
        d = ["-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF"]
        acc.append((fn + "() takes matching arguments", PRE + "void f(strbuf_t** b) { %s(b, \"%%s %%i\", \"x\", 1); }\n" % fn, W + d))
        rej.append((fn + "() refuses an argument of the wrong type", PRE + "void f(strbuf_t** b) { %s(b, \"%%s\", 1); }\n" % fn, W + d))
    for v in ("STRNUM_BASE_BIN", "STRNUM_BASE_HEX", "STRNUM_NOBX", "STRNUM_NOSIGN", "STRNUM_NOSPACE", "STRNUM_NOEXP"):
        acc.append(("%s is an option of its own" % v, PRE + "_Static_assert(%s && !(%s & (%s - 1)) && STRNUM_DEFAULT == 0, \"\");\n" % (v, v, v), []))
    acc.append(("the options do not overlap", PRE + "_Static_assert((STRNUM_BASE_BIN ^ STRNUM_BASE_HEX ^ STRNUM_NOBX ^ STRNUM_NOSIGN ^ STRNUM_NOSPACE ^ STRNUM_NOEXP) == (STRNUM_BASE_BIN + STRNUM_BASE_HEX + STRNUM_NOBX + STRNUM_NOSIGN + STRNUM_NOSPACE + STRNUM_NOEXP), \"\");\n", []))
    for n in ("0", "1", "7", "2 + 3", "1 << 4", "sizeof(int)"):
        acc.append(("storage of capacity " + n, PRE + "typedef strbuf_space_t(%s) space;\n_Static_assert(sizeof(space) >= sizeof(strbuf_t) + (%s) + 1 && _Alignof(space) >= _Alignof(strbuf_t), \"\");\nstatic space s = STRBUF_STATIC_INIT(%s);\nstrbuf_t* p = STRBUF_FIXED_CAP(%s);\nstrbuf_t* f(void) { return s.buf.size ? NULL : (strbuf_t*)&s; }\n" % (n, n, n, n), []))
    acc.append(("a literal viewed", PRE + "int f(void) { return cstr_SL(\"te\\0xt\").size; }\n_Static_assert(_Generic(cstr_SL(\"a\"), strview_t: 1, default: 0) && _Generic(STRVIEW_INVALID, strview_t: 1, default: 0), \"\");\n", []))
    # each header brings what its own macros need
    for h, code in (("strview_unpack.h", "void f(strview_t v, uint32_t x) { STRVIEW_UNPACK_LE(x, v); STRVIEW_UNPACK_BE(x, v); }"),
                    ("strbuf_pack.h", "void f(strbuf_t** b, uint32_t x) { STRBUF_PACK_LE(b, x); STRBUF_PACK_BE(b, x); }"),
                    ("xendian.h", "uint64_t f(uint64_t x) { return xendian_pack_BE(xendian_unpack_LE(x)); }"),
                    ("strbuf.h", "strbuf_t* f(strview_t v) { strbuf_t* b = STRBUF_FIXED_CAP(9); strbuf_cat(&b, v, cstr_SL(\"x\"), STRVIEW_INVALID); return b; }"),
                    ("strview.h", "strview_t f(strview_t v) { return strview_trim(strview_find_first(v, \"x\"), v); }"),
                    ("strnum.h", "int f(strview_t v) { long x; return strnum_value(&x, &v, STRNUM_NOBX) == EINVAL; }")):
        acc.append(("%s is all that its macros need" % h, '#include "%s"\n%s\n' % (h, code), []))
    return acc, rej

def types(c):
    acc, rej = witnesses()
    def one(x):
        what, code, fl = x
        d = [f for f in fl if f.startswith("-D")]; ex = [f for f in fl if not f.startswith("-D")]
        return c.cc(code, "clang", "gnu11", d, ex)
    with cf.ThreadPoolExecutor(8) as exr:
        for (what, code, fl), (rc, o, e) in zip(acc, exr.map(one, acc)):
            c.ok("accepted: " + what)
            if rc: c.bad("accepted: " + what, "strbuf.h" if "strbuf" in what else "strnum.h" if "strnum" in what else "strview.h", "%s: a correct program is refused: %s" % (what, first_error(e)[2]))
        for (what, code, fl), (rc, o, e) in zip(rej, exr.map(one, rej)):
            c.ok("refused: " + what)
            if not rc: c.bad("refused: " + what, "strbuf.h" if "strbuf" in what else "strnum.h" if "strnum" in what else "xendian.h", "%s: a wrong program is accepted" % what)

def check(repo, w, tier):
    c = Ctx(repo, w)
    compile_matrix(c); modules(c); types(c)
    return c.obl, c.alarms, c.und

if __name__ == "__main__":
    import sys, tempfile, shutil
    w = tempfile.mkdtemp()
    o, a, u = check(sys.argv[1] if len(sys.argv) > 1 else "/repo", w, "quick")
    shutil.rmtree(w)
    print(len(o), "obligations")
    for x in a: print(x)
