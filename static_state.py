"""Hidden state (C58): follows the address of every object with static storage duration that is not constant through the
linked LLVM IR of the library - address arithmetic, selections, function arguments and results - and reports every
instruction that writes through it, and every call of a C library function that keeps state of its own."""
import os, re, subprocess
LLVM = "/usr/lib/llvm-18/bin/"
STATEFUL = {"strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "setlocale", "localeconv", "localtime", "gmtime", "asctime", "ctime", "strerror",
            "getenv", "setenv", "putenv", "unsetenv", "tmpnam", "ecvt", "fcvt", "gcvt", "wcstombs", "mbstowcs", "mblen", "mbtowc", "wctomb", "l64a", "signal", "atexit", "strsignal",
            "ttyname", "ctermid", "inet_ntoa", "getlogin", "hcreate", "hsearch", "basename", "dirname"}
SRC = ["strview.c", "strbuf.c", "strnum.c", "accessories/strbuf_io.c", "accessories/strview_io.c", "accessories/strbuf_crypt/strbuf_crypt.c"]
NAME = r"(?:%[-\w.$]+|@[-\w.$]+)"

class Fn:
    def __init__(self, name, params): self.name = name; self.params = params; self.lines = []

def parse(t):
    fns = {}; cur = None; globs = {}; dbg = {}
    for l in t.splitlines():
        m = re.match(r"@([-\w.$]+) = (.*)$", l)
        if m: globs[m.group(1)] = m.group(2); continue
        m = re.match(r"define [^@]*@([-\w.$]+)\((.*?)\)(?: [^(]*)?\{$", l)
        if m:
            cur = Fn(m.group(1), re.findall(r"(%[-\w.$]+)(?=,|$)", re.sub(r"\([^()]*\)", "", m.group(2)))); fns[cur.name] = cur; continue
        if l == "}": cur = None; continue
        if cur is not None: cur.lines.append(l.strip())
        m = re.match(r"!(\d+) = (?:distinct )?!(\w+)\((.*)\)$", l)
        if m: dbg[m.group(1)] = (m.group(2), m.group(3))
    return fns, globs, dbg

def place(l, dbg):
    m = re.search(r"!dbg !(\d+)", l)
    if not m or m.group(1) not in dbg: return "", 0
    ln = re.search(r"line: (\d+)", dbg[m.group(1)][1]); sc = re.search(r"scope: !(\d+)", dbg[m.group(1)][1])
    while sc and sc.group(1) in dbg:
        f = re.search(r"file: !(\d+)", dbg[sc.group(1)][1])
        if f and f.group(1) in dbg:
            fn = re.search(r'filename: "([^"]*)"', dbg[f.group(1)][1]); return fn.group(1) if fn else "", int(ln.group(1)) if ln else 0
        sc = re.search(r"scope: !(\d+)", dbg[sc.group(1)][1])
    return "", int(ln.group(1)) if ln else 0

def operands(s):
    s = re.sub(r'c"[^"]*"', "", s); s = re.sub(r", !.*$", "", s)
    return set(re.findall(NAME, s))

def callargs(l):
    """(callee, [argument text]) of a call"""
    m = re.search(r"\bcall [^@%]*?(@[-\w.$]+|%[-\w.$]+)\(", re.sub(r"\([^()]*\.\.\.\)", "", l))
    if not m: return None, []
    l2 = re.sub(r"\([^()]*\.\.\.\)", "", l); i = l2.index("(", m.end() - 1); d = 0; out = [""]
    for ch in l2[i:]:
        if ch == "(":
            d += 1
            if d == 1: continue
        if ch == ")":
            d -= 1
            if d == 0: break
        if ch == "," and d == 1: out.append(""); continue
        out[-1] += ch
    return m.group(1), out

def check(repo, w, tier):
    obl = []; alarms = []; und = []
    d = os.path.join(w, "state"); os.makedirs(d, exist_ok=True); outs = []
    aes = os.path.join(repo, "accessories/strbuf_crypt/aes")
    src = SRC + ["accessories/strbuf_crypt/aes/" + f for f in sorted(os.listdir(aes)) if f.endswith(".c")]
    for k, f in enumerate(src):
        o = os.path.join(d, "%d.bc" % k)
        r = subprocess.run([LLVM + "clang", "-std=gnu99", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-c", "-emit-llvm", "-w", "-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF", "-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB",
                            "-I" + repo, "-I" + repo + "/accessories", "-I" + repo + "/test", os.path.join(repo, f), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: und.append("cannot compile %s: %s" % (f, r.stdout[-200:])); continue
        outs.append(o)
    a = os.path.join(d, "all.bc"); b = os.path.join(d, "all.ll")
    subprocess.run([LLVM + "llvm-link", *outs, "-o", a], check=True)
    subprocess.run([LLVM + "opt", "-S", "-passes=sroa", a, "-o", b], check=True)
    fns, globs, dbg = parse(open(b).read())
    def loc(l):
        f, n = place(l, dbg); f = f.replace(repo + "/", "")
        return f, n
    for g, text in sorted(globs.items()):
        if g.startswith("llvm.") or re.search(r"\bconstant\b", text.split("{")[0].split("\"")[0]): continue
        if re.search(r"\bexternal\b", text): continue
        what = "never written: " + g; obl.append(what)
        # holders: (function, register) pairs that may hold an address inside g; "*ret*" a function whose result may
        hold = {("", "@" + g)}; work = True; hits = []; esc = []
        while work:
            work = False
            def add(x):
                nonlocal work
                if x not in hold: hold.add(x); work = True
            for fn in fns.values():
                has = lambda s: any(("", o) in hold or (fn.name, o) in hold for o in operands(s))
                for l in fn.lines:
                    if "@llvm.dbg." in l: continue
                    m = re.match(r"(%[-\w.$]+) = (.*)$", l); dst, rhs = (m.group(1), m.group(2)) if m else (None, l)
                    if "call " in rhs and re.match(r"(tail |musttail |notail )?call ", rhs):
                        cal, args = callargs(rhs)
                        if cal is None: continue
                        cn = cal[1:]
                        for k, x in enumerate(args):
                            if not has(x): continue
                            if cn.startswith("llvm.mem") or cn in ("memcpy", "memmove", "memset"):
                                if k == 0: hits.append((fn.name, l))
                                if k == 0 and dst: add((fn.name, dst))
                            elif cal[0] == "@" and cn in fns:
                                ps = fns[cn].params
                                if k < len(ps): add((cn, ps[k]))
                                else: esc.append((fn.name, l))
                            elif cn in ("memcmp", "strlen", "strcmp", "strncmp", "memchr", "strchr", "free", "toupper", "tolower", "write"): pass
                            else: esc.append((fn.name, l))
                        if cal[0] == "@" and (cn, "*ret*") in hold and dst: add((fn.name, dst))
                        continue
                    if not has(rhs): continue
                    op = rhs.split()[0]
                    if op == "store":
                        val, ptr = rhs[6:].rsplit(", ptr ", 1) if ", ptr " in rhs else (rhs, "")
                        if has("ptr " + ptr.split(",")[0]): hits.append((fn.name, l))
                        if has(val): esc.append((fn.name, l))
                    elif op in ("atomicrmw", "cmpxchg"): hits.append((fn.name, l))
                    elif op == "load":
                        pass
                    elif op in ("getelementptr", "phi", "select", "bitcast", "inttoptr", "ptrtoint", "add", "sub", "freeze", "insertvalue", "extractvalue"):
                        if dst: add((fn.name, dst))
                    elif op == "ret": add((fn.name, "*ret*"))
        for f, l in sorted(set(hits)):
            fl, n = loc(l)
            alarms.append(dict(site=what, file=fl, line=n, func=f, msg="%s() writes to %s, which has static storage duration: operations on different objects affect each other" % (f, g)))
        if not hits and esc:
            f, l = esc[0]; fl, n = loc(l)
            und.append("the address of %s is stored or passed on in %s() (%s:%d)" % (g, f, fl, n))
    for fn in fns.values():
        what = "no stateful library function: " + fn.name; obl.append(what)
        for l in fn.lines:
            if "call " not in l or "@llvm.dbg." in l: continue
            cal, _ = callargs(l)
            if cal and cal[1:] in STATEFUL:
                fl, n = loc(l); alarms.append(dict(site=what, file=fl, line=n, func=fn.name, msg="%s() keeps state shared by all its callers" % cal[1:]))
    return obl, alarms, und

if __name__ == "__main__":
    import sys, tempfile, shutil
    w = tempfile.mkdtemp()
    o, a, u = check(sys.argv[1] if len(sys.argv) > 1 else "/repo", w, "quick"); shutil.rmtree(w)
    print(len(o)); print([x for x in o if x.startswith("never")]); print(*a, sep="\n"); print("UND", *u, sep="\n")
