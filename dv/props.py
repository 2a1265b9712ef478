"""Which contracts decide which property, and the driver of a whole check."""
import gc, json, os, re, sys, time, multiprocessing as mp, multiprocessing.connection, traceback
from . import build, verify, exec as ex, search, drive
from .verify import Report, PROVED, FAILED, UNKNOWN, BOUNDED

IDS = ["C%02d" % i for i in range(1, 16)]


def registry():
    from . import c_field
    C = dict(c_field.C)
    import importlib
    for m in ("c_limb", "c_portable", "c_fp", "c_exp", "c_div", "c_sqrt", "c_wsum", "c_group", "c_code", "c_map", "c_pair", "c_sig", "c_hash", "c_keys", "c_int", "c_hex", "c_enc", "c_h2c"):
        try:
            mod = importlib.import_module("dv." + m)
        except ModuleNotFoundError as e:
            if e.name != "dv." + m:
                raise
            continue
        C.update(mod.C)
    return C


def home(name, c):
    h = getattr(c, "home", None)
    if h:
        return h
    if "frobenius" in name:
        return "C04"
    if "bls12_381::fp::" in name:
        if re.search(r"::(inverse|sqrt|exp|isQuad|sign|isLex|modPrime|cmp|div2|mul2|isOdd|isEven)", name):
            return "C02"
        return "C01"
    if re.search(r"bls12_381::fp(2|6|12)::", name):
        if re.search(r"::(inverse|sqrt|exp|isQuad|sign|isLex)", name) and "yclotomic" not in name:
            return "C02"
        return "C03"
    return None


EXTRA = {}           # property -> [(label, fn(rep))] proof steps that are not one function under contract


def extra(prop, label, tier="quick"):
    def d(f):
        EXTRA.setdefault(prop, []).append((label, f, tier))
        return f
    return d


_G = {}


def _task(key):
    """verify one unit in a forked worker"""
    t0 = time.time()
    rep = Report()
    try:
        if key[0] == "c":
            c = _G["C"][key[1]]
            verify.guarded(rep, key[1], lambda: c.verify(_G["e"], rep))
        else:
            f = EXTRA[key[1]][key[2]][1]
            verify.guarded(rep, EXTRA[key[1]][key[2]][0], lambda: f(_G.get("e"), rep))
    except BaseException as e:
        rep.add(str(key), "engine", UNKNOWN, "engine", time.time() - t0, "%s: %s" % (type(e).__name__, str(e)[:400]))
    if not rep.obs:
        rep.add(str(key[1]), "no obligation generated", UNKNOWN, "engine", time.time() - t0)
    obs = [(o.fn, o.name, o.status, o.backend, o.time, str(o.detail)[:3000], o.cex if isinstance(o.cex, (list, str)) else None) for o in rep.obs]
    return key, obs, sorted(rep.used), sorted(rep.inlined), list(rep.notes), time.time() - t0


LIMIT = {"quick": (300, 560), "thorough": (1800, 5400)}       # seconds per unit, for all units
_T = {"unit": 300, "end": None}


def _child(key, w):
    try:
        w.send(_task(key))
        w.close()
    finally:
        os._exit(0)


def _lost(key, why, dt):
    name = key[1] if key[0] == "c" else EXTRA[key[1]][key[2]][0]
    return key, [(name, "verification", UNKNOWN, "engine", dt, why, None)], [], [], [], dt


def run_units(keys):
    """every unit in a process of its own; one that dies or runs over its time is undecided"""
    out, todo, live = [], list(reversed(keys)), {}
    ctx = mp.get_context("fork")
    gc.freeze()
    while todo or live:
        now = time.time()
        while todo and len(live) < 8:
            if _T["end"] and now > _T["end"]:
                out.append(_lost(todo.pop(), "no time left", 0))
                continue
            k = todo.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(k, w), daemon=True)
            p.start()
            w.close()
            live[r] = (k, p, now)
        if not live:
            break
        for r in mp.connection.wait(list(live), 1):
            k, p, t0 = live.pop(r)
            try:
                out.append(r.recv())
            except (EOFError, OSError):
                out.append(_lost(k, "the verifier process ended without a result", now - t0))
            r.close()
            p.join()
        now = time.time()
        for r, (k, p, t0) in list(live.items()):
            if now - t0 > _T["unit"] or (_T["end"] and now > _T["end"] + 20):
                p.kill()
                p.join()
                del live[r]
                r.close()
                out.append(_lost(k, "time limit of %d s" % (now - t0), now - t0))
    return out


def load():
    """compile the current tree and prepare the executor (in the parent, before forking)"""
    C = registry()
    _G["C"] = C
    _G["e"] = build.executor(C)
    return C, _G["e"]


def cost(c):
    return getattr(c, "cost", 1)


def check(prop, tier, seed):
    t0 = time.time()
    res = {"property": prop, "tier": tier, "seed": seed, "violations": 0}
    obs, dep_obs, notes, used, inlined, per_fn = [], [], [], set(), set(), {}
    engine = None
    _T["unit"], _T["end"] = (lambda l: (l[0], t0 + l[1]))(LIMIT.get(tier, LIMIT["quick"]))
    try:
        C, e = load()
        own = [n for n, c in C.items() if hasattr(c, "verify") and home(n, c) == prop]
        keys = [("x", prop, i) for i, x in enumerate(EXTRA.get(prop, [])) if tier == "thorough" or x[2] == "quick"] + [("c", n) for n in sorted(own, key=lambda n: -cost(C[n]))]
        done = set(own)
        r = run_units(keys)
        for key, ob, us, il, nt, dt in r:
            obs += ob
            used |= set(us)
            inlined |= set(il)
            notes += nt
        todo = [n for n in used if n in C and n not in done]
        # contracts the proofs rest on, verified transitively in the same run
        while todo:
            done |= set(todo)
            r = run_units([("c", n) for n in todo if hasattr(C[n], "verify")])
            nxt = set()
            for key, ob, us, il, nt, dt in r:
                dep_obs += ob
                nxt |= set(us)
            used |= nxt
            todo = [n for n in nxt if n in C and n not in done]
    except (Exception, SystemExit) as exn:
        engine = "%s: %s" % (type(exn).__name__, str(exn)[:1500])
        notes.append("the verifier did not run: " + engine)
        if os.environ.get("DV_DEBUG"):
            traceback.print_exc()
    failed = [o for o in obs if o[2] == FAILED]
    undec = [o for o in obs if o[2] == UNKNOWN]
    depbad = [o for o in dep_obs if o[2] in (FAILED, UNKNOWN)]
    if engine or (not obs):
        undec = undec + [(prop, "verification run", UNKNOWN, "engine", 0, engine or "no obligations", None)]
    quick = tier != "thorough"
    if failed:
        secs = 150 if quick else 600
    elif undec or depbad:
        secs = 90 if quick else 400
    else:
        secs = 6 if quick else 240
    hints = [o[6] for o in failed + undec + depbad if o[6]]
    bad, ncases, serr = [], 0, None
    try:
        bad, ncases = search.run(prop, secs, seed, focus=[o[0] for o in failed + undec + depbad], hints=hints)
    except drive.BuildError as exn:
        serr = "the replay driver does not build against this tree: " + str(exn)[-600:]
        notes.append(serr)
    known = load_known(prop)
    newbad, seen = [], set()
    for b in bad:
        k = match_known(known, b)
        if k is None:
            newbad.append(b)
        elif k not in seen:
            seen.add(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    lines = []
    os.makedirs(os.path.join(build.HERE, "evidence", "replay"), exist_ok=True)
    rpath = "evidence/replay/%s.json" % prop
    if newbad:
        cmd, msg, got, kind = newbad[0]
        doc = {"property": prop, "kind": "input", "backend": kind, "command": cmd, "failure": msg, "got": got,
               "failed_obligations": [dict(function=o[0], obligation=o[1], status=o[2], detail=o[5]) for o in (failed + undec + depbad)[:8]],
               "how": "python3-vt check.py --replay %s   runs this operation on the library rebuilt from /repo" % rpath}
        if search.HISTORY:
            doc["history"] = list(search.HISTORY)        # this and the calls before it, in one process
        json.dump(doc, open(os.path.join(build.HERE, rpath), "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, rpath))
    elif failed:
        doc = {"property": prop, "kind": "obligation", "failed_obligations": [dict(function=o[0], obligation=o[1], backend=o[3], verifier_output=o[5]) for o in failed[:20]],
               "searched": "%d concrete cases without a failing input" % ncases}
        json.dump(doc, open(os.path.join(build.HERE, rpath), "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath))
    # ---- evidence
    allf = sorted({o[0] for o in obs})
    by = {}
    for o in obs:
        if o[2] == PROVED:
            by[o[3]] = by.get(o[3], 0) + 1
    C = _G.get("C", {})
    trusted = sorted(n for n in used if n in C and not hasattr(C[n], "verify"))
    nproved = sum(1 for o in obs if o[2] == PROVED)
    nbounded = sum(1 for o in obs if o[2] == BOUNDED)
    cov = {
        "obligations": len(obs), "discharged": nproved,
        "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, tier),
        "trusted_base": TRUSTED + [("contract assumed here, discharged by the check of C01: " if n.startswith("bls12_381::_") else "assumed contract: ") + n for n in trusted],
        "functions_under_contract": allf,
        "obligations_by_back_end": by,
        "solver_time_s": round(sum(o[4] for o in obs), 3),
        "functions_executed_inline": len(inlined),
        "dependency_contracts": {"functions": len({o[0] for o in dep_obs}), "obligations": len(dep_obs), "discharged": sum(1 for o in dep_obs if o[2] == PROVED),
                                 "undischarged": [o[0] + ": " + o[1] for o in depbad][:20]},
        "undischarged": [dict(function=o[0], obligation=o[1], status=o[2], detail=o[5][:300]) for o in (failed + undec)][:40],
        "bounded_obligations": nbounded,
        "bounded": [o[0] + ": " + o[1] for o in obs if o[2] == BOUNDED],
        "concrete_cross_check_cases": ncases,
        "samples": [o[0] + ": " + o[1] for o in obs[:3]],
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": ASSUMPTIONS + notes, "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
    json.dump(ev, open(os.path.join(build.HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d bounded, %d failed, %d undecided; dependencies %d/%d; %d concrete cases; %.1f s" % (
        prop, len(obs), nproved, nbounded, len(failed), len(undec), cov["dependency_contracts"]["discharged"], len(dep_obs), ncases, time.time() - t0))
    for o in (failed + undec + depbad)[:12]:
        print("  %s %s: %s  %s" % (o[2], o[0], o[1], o[5][:300].replace("\n", " ")))
    for l in lines:
        print(l)
    build.cleanup()
    return 1 if lines else 0


TRUSTED = [
    "clang 18 front end and -O1 passes as run by dv/ir.py (C++ to LLVM IR); the shipped build uses its own compiler and flags",
    "dv/ symbolic executor (LLVM IR semantics), dv/field.py polynomial normaliser over F_p[...], dv/term.py bit-vector simplifier",
    "z3 / cvc5 where named as back end",
]
ASSUMPTIONS = [
    "objects given to a function are disjoint or exactly the same object (every alias pattern of that kind is enumerated); partially overlapping objects are excluded",
    "field inputs satisfy the type invariant (each coordinate < p) unless a contract says otherwise",
    "memory allocation succeeds",
]


def load_known(prop):
    p = os.path.join(build.HERE, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def match_known(known, b):
    for i, k in enumerate(known):
        if b[0] == k["command"]:
            return i
    return None


def replay(path):
    d = json.load(open(path))
    if d["kind"] != "input":
        print(json.dumps(d, indent=1))
        return 1
    kd = d["backend"].split("+")
    dr = drive.Driver(kd[0], len(kd) > 1)
    o = dr.run(d.get("history") or [d["command"]])[-1]
    print("command :", d["command"])
    print("expected:", d["failure"])
    print("got     :", o)
    build.cleanup()
    return 1 if o == d["got"] else 0
