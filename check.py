#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [-v] [-e ENTRY]...

Decides one property of /repo's current source by static analysis: compiles the sources the property is about together
with its contract file (specs/<name>.c) to LLVM IR, runs the abstract interpreter bin/ai on every entry of the contract
file, and reports every obligation it could not discharge.  Nothing of /repo is executed."""
import sys, os, json, time, subprocess, tempfile, shutil, re, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
AI = os.path.join(HERE, "bin", "ai")
CFLAGS = ["-std=gnu99", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-D__NO_CTYPE", "-U_FORTIFY_SOURCE", "-fno-builtin",
          "-DPLATFORM_PC", "-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF", "-w", "-c", "-emit-llvm"]

T_END = float("inf")   # when a check stops starting analyses

class Broken(Exception): pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def compile_one(src, out, defs, pre=True):
    inc = ["-I" + REPO, "-I" + REPO + "/accessories", "-I" + REPO + "/test", "-I" + HERE + "/specs"]
    if pre: inc += ["-include", HERE + "/specs/va_pre.h"]
    r = run([LLVM + "/clang"] + CFLAGS + defs + inc + [src, "-o", out], cwd=REPO)
    if r.returncode: raise Broken("cannot compile %s:\n%s" % (src, r.stdout[-3000:]))

def build(group, w, k):
    defs = group.get("defs", [])
    jobs = [(os.path.join(HERE, "specs", group["spec"] + ".c"), "spec")]
    if not group.get("tool"): jobs.append((os.path.join(HERE, "specs", "models.c"), "models"))
    for s in group["src"]: jobs.append((os.path.join(REPO, s), s.replace("/", "_")))
    outs = []
    with cf.ThreadPoolExecutor(8) as ex:
        fs = []
        for src, nm in jobs:
            o = os.path.join(w, "%d_%s.bc" % (k, nm)); outs.append(o)
            fs.append(ex.submit(compile_one, src, o, defs, not group.get("tool")))
        for f in fs: f.result()
    a = os.path.join(w, "%d_all.bc" % k); b = os.path.join(w, "%d_fin.bc" % k)
    r = run([LLVM + "/llvm-link"] + outs + ["-o", a])
    if r.returncode: raise Broken("cannot link: " + r.stdout[-3000:])
    r = run([LLVM + "/opt", "-passes=sroa", a, "-o", b])
    if r.returncode: raise Broken("opt: " + r.stdout[-2000:])
    return b

def entries_of(group, w, k):
    r = run([LLVM + "/llvm-nm", "--defined-only", os.path.join(w, "%d_spec.bc" % k)])
    names = sorted(set(re.findall(r" T ((?:h|b\d)_\w+)$", r.stdout, re.M)))
    only = group.get("only")
    return [n for n in names if not only or n in only]

def lim():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

def analyse(bc, entry, out, limit, verbose, bound=0, tuning=0, tool="ai"):
    env = dict(os.environ)
    if verbose: env["AI_V"] = "1"
    limit = int(min(limit, T_END - time.time()))
    if limit < 3: return dict(entries=[dict(name=entry, error="the time of the check is used up", end_states=0, steps=0, wall=0, reached=[])], alarms=[], obligations=[], coverage=[], unmodelled=[], stats={}), ""
    p = subprocess.run([os.path.join(HERE, "bin", tool), bc, "-e", entry, "-t", str(limit), "-b", str(bound), "-T", str(tuning), "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, preexec_fn=lim)
    try: j = json.load(open(out))
    except Exception: j = dict(entries=[dict(name=entry, error="the analyser gave no result (exit %d) %s" % (p.returncode, p.stdout[-300:]), end_states=0, steps=0, wall=0, reached=[])], alarms=[], obligations=[], coverage=[], unmodelled=[], stats={})
    return j, p.stdout

def decide_entry(bc, entry, out, g, tier, verbose):
    """-> (status, result, notes): 'proved' / 'bounded' (held for every input whose sizes are at most the bound) /
    'open' (nothing decided) ; alarms in the result are confirmed ones"""
    quick = tier != "thorough"
    txt = ""; notes = []
    if g.get("tool"):
        j, t = analyse(bc, entry, out, 200 if quick else 900, verbose, tool=g["tool"])
        en = j["entries"][0]; sure = [a for a in j["alarms"] if a["definite"]]
        if sure: j["alarms"] = sure; return "violated", j, t, notes
        if not j["alarms"] and not en["error"] and en["reached"]: return "proved", j, t, notes
        notes.append(en["error"] or "; ".join("%s:%d %s" % (a["file"], a["line"], a["msg"]) for a in j["alarms"][:3]) or "the end of the entry is not reached")
        j["alarms"] = []
        return "open", j, t, notes
    m = re.match(r"b(\d)_", entry); fixed = int(m.group(1)) if m else 0   # b<N>_ entries are stated for sizes up to N
    for tuning in (0, 1) if not fixed else ():
        j, t = analyse(bc, entry, out, (80, 60)[tuning] if quick else 600, verbose, 0, tuning); txt += t
        en = j["entries"][0]
        err = en["error"] or ("" if en["reached"] or j["alarms"] else "the end of the entry is not reached")
        sure = [a for a in j["alarms"] if a["definite"]]
        if sure: j["alarms"] = sure; return "violated", j, txt, notes
        if not j["alarms"] and not err: return "proved", j, txt, notes
        why = err or "alarm that the loop abstraction may have caused: " + "; ".join("%s:%d %s" % (a["file"], a["line"], a["msg"]) for a in j["alarms"][:3])
        notes.append(why)
    tries = [(fixed or (2 if quick else 3), 100 if quick else 300), (1, 60)]
    if fixed > 2: tries.insert(1, ((fixed + 1) // 2, 100))
    for bound, sec in tries:
        jb, t = analyse(bc, entry, out, sec, verbose, bound); txt += t
        en = jb["entries"][0]; en["bound"] = bound
        sure = [a for a in jb["alarms"] if a["definite"]]
        if sure: jb["alarms"] = sure; return "violated", jb, txt, notes
        notes += ["alarm that a value outside the domains may have caused: %s:%d %s" % (a["file"], a["line"], a["msg"]) for a in jb["alarms"][:3]]
        vague = bool(jb["alarms"]); jb["alarms"] = []
        err = en["error"] or ("" if en["reached"] or vague else "the end of the entry is not reached")
        if not err:
            # the larger the bound the better, as long as it is cheap
            best = jb; b2 = bound + 1
            while not fixed and not vague and best["entries"][0]["wall"] < (6 if quick else 40) and b2 <= (4 if quick else 6):
                jn, t = analyse(bc, entry, out, 60 if quick else 300, verbose, b2); txt += t
                jn["entries"][0]["bound"] = b2
                sure = [a for a in jn["alarms"] if a["definite"]]
                if sure: jn["alarms"] = sure; return "violated", jn, txt, notes
                if jn["alarms"] or jn["entries"][0]["error"] or not jn["entries"][0]["reached"]: break
                best = jn; b2 += 1
            return ("open" if vague else "bounded"), best, txt, notes
        notes.append("bound %d: %s" % (bound, err))
    return "open", jb, txt, notes

def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) func=(\S+) cat=(\S+) msg=(.*?) ## (.*)$", l.rstrip("\n"))
            if m: out.append(m.groups())
    return out

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); verbose = False; only = []
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "-v": verbose = True
        elif a[i] == "-e": only.append(a[i + 1]); i += 1
        i += 1
    P = PROPS[pid]; t0 = time.time()
    subprocess.run([os.path.join(HERE, "setup.sh")], check=True)
    w = tempfile.mkdtemp(prefix="verif_" + pid + "_")
    try:
        rc = decide(pid, P, tier, verbose, only, w, t0)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e)); rc = 2
    finally:
        shutil.rmtree(w, ignore_errors=True)
    sys.exit(rc)

def decide(pid, P, tier, verbose, only, w, t0):
    global T_END
    if tier != "thorough": T_END = t0 + 720
    results = []; undecided = []; limited = []; alarms = {}; obl = {}; cov = {}; unmod = set(); stats = {}
    groups = [g for g in P["groups"] if tier == "thorough" or not g.get("thorough_only")]
    tasks = []
    extra = []
    for k, g in enumerate(groups):
        if "spec" in g:
            bc = build(g, w, k)
            for e in entries_of(g, w, k):
                if not only or e in only: tasks.append((bc, e, os.path.join(w, "%d_%s.json" % (k, e)), g))
        elif "py" in g:
            extra.append(g)
    tasks.sort(key=lambda t: -t[3].get("cost", {}).get(t[1], 0))
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [(ex.submit(decide_entry, bc, e, o, g, tier, verbose), e, g) for bc, e, o, g in tasks]
        for f, e, g in fs:
            st, j, txt, notes = f.result()
            if verbose and txt.strip(): print(txt.strip())
            en = j["entries"][0]
            results.append(dict(entry=e, contract="specs/%s.c" % g["spec"], status=st, bound=en.get("bound", 0), end_states=en["end_states"], steps=en["steps"], wall_s=round(en["wall"], 3), notes=notes))
            if st == "open": undecided.append((e, "; ".join(notes)))
            elif st == "bounded" and not re.match(r"b\d_", e): limited.append((e, "decided only for sizes up to %d: %s" % (en.get("bound", 0), "; ".join(notes))))
            for o in j["obligations"]:
                c = obl.setdefault((o["cat"], o["site"]), [0, 0]); c[0] += o["n"]; c[1] += o["bad"] if st == "violated" else 0
            for al in j["alarms"]:
                alarms.setdefault((al["file"].replace(REPO + "/", ""), al["line"], al["func"], al["cat"], al["msg"]), al)
            for c in j["coverage"]:
                k2 = (c["func"], c["file"]); o = cov.setdefault(k2, [c["blocks"], 0]); o[1] = max(o[1], c["covered"])
            unmod |= set(j["unmodelled"])
            for s, v in j["stats"].items(): stats[s] = stats.get(s, 0) + v
    facts = []
    for g in extra:
        import importlib
        m = importlib.import_module("static_" + g["py"])
        ob, al, und = m.check(REPO, w, tier)
        facts += ob
        for x in ob: c = obl.setdefault((g["py"], x), [0, 0]); c[0] += 1
        for x in al:
            c = obl.setdefault((g["py"], x["site"]), [0, 0]); c[0] += 1; c[1] += 1
            alarms.setdefault((x["file"], x["line"], x["func"], g["py"], x["msg"]), dict(x, entry=g["py"], api="", stack=[], trace=[], cat=g["py"]))
        undecided += [(g["py"], u) for u in und]
    known = [k for k in known_findings() if k[0] == pid]
    viol = []; hit = set()
    for key, al in sorted(alarms.items(), key=lambda kv: kv[0][:3]):
        f = None
        for k in known:
            if k[1] == al["func"] and k[2] == al["cat"] and k[3] == al["msg"]: f = k
        if f: hit.add(f)
        else: viol.append((key, al))
    for f in hit: print("KNOWN-FINDING: property=%s %s" % (pid, f[4]))
    nob = len(obl); bad = sum(1 for v in obl.values() if v[1])
    sites = sorted({s for (c, s) in obl})
    mine = sorted((f, c[0], c[1]) for (f, fl), c in cov.items() if fl.startswith(REPO) or not fl.startswith("/verif"))
    mine = [m for m in mine if m[2]]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=P["level"], wall_s=round(time.time() - t0, 2),
              violations=len(viol),
              coverage=dict(obligations=nob, discharged=nob - bad, obligation_checks=sum(v[0] for v in obl.values()),
                            by_kind={c: sum(1 for (cc, s) in obl if cc == c) for c in sorted({c for c, s in obl})},
                            checker_cmd="python3 check.py %s --tier %s" % (pid, tier),
                            trusted_base=["clang 18 front end and the sroa pass", "engine/ (abstract interpreter, its models of libc functions)", "specs/*.h, specs/%s.c (the contract)" % "/".join(g.get("spec", g.get("py")) for g in groups)],
                            rule=P["rule"], entries=results, undecided=[dict(entry=e, why=x) for e, x in undecided], bounded_only=[dict(entry=e, why=x) for e, x in limited],
                            functions_analysed=[dict(func=f, basic_blocks=b, covered=c) for f, b, c in mine],
                            unmodelled=sorted(unmod), analyser=stats, facts=facts[:200],
                            explanation="Obligations are (kind, source location) pairs at which the analysis had to prove a fact on every abstract state reaching it."),
              assumptions=P.get("assumptions", []))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for e, why in undecided: print("UNDECIDED property=%s entry=%s: %s" % (pid, e, why[:400]))
    for e, why in limited: print("BOUNDED property=%s entry=%s: %s" % (pid, e, why[:400]))
    if viol:
        rp = os.path.join(HERE, "evidence", pid + ".violations.json")
        json.dump([dict(file=k[0], line=k[1], function=k[2], rule=k[3], message=k[4], entry=al["entry"], call_path=al["stack"], path=al["trace"]) for k, al in viol], open(rp, "w"), indent=1)
        for k, al in viol[:12]:
            print("  %s:%s in %s(): [%s] %s   (contract entry %s; call path %s)" % (k[0], k[1], k[2], k[3], k[4], al["entry"], " <- ".join(al["stack"][:4])))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if undecided and len(undecided) >= len(results) + len(facts): print("ANALYSIS-BROKEN property=%s: nothing decided" % pid); return 2
    print("OK property=%s obligations=%d entries=%d undecided=%d wall=%.1fs" % (pid, nob, len(results), len(undecided), time.time() - t0))
    return 0

if __name__ == "__main__": main()
