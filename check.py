#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [--tier quick|thorough].

1. builds the conformance harness against the working tree of the repository,
2. lets TLC check the specification (design model) and print its transition graph,
3. runs the harness: it walks the graph on the real code and records traces of the real code,
4. lets TLC validate the recorded traces against the specification.

Only behaviour of the real code makes a violation (exit 1); everything that goes wrong in the
machinery itself ends with exit 2.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.25.14"
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


def go_env(tmp):
    env = dict(os.environ)
    env.update(GOROOT=GOROOT, PATH=f"{GOROOT}/bin:" + env.get("PATH", ""), GOTOOLCHAIN="local", GOPROXY="off",
               GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0", GOSUMDB="off", GONOSUMDB="*",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"))
    return env


def build(check, tmp):
    """Builds the harness binary against the current tree."""
    env = go_env(tmp)
    if check.get("overlay"):
        ov = check["overlay"]
        with open(os.path.join(tmp, "overlay.json"), "w") as f:
            json.dump({"Replace": {os.path.join(REPO, k): os.path.join(VERIF, v) for k, v in ov["files"].items()}}, f)
        for n in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, n), os.path.join(tmp, n))
        with open(os.path.join(tmp, "go.mod")) as f:
            mod = f.read()
        with open(os.path.join(tmp, "go.mod"), "w") as f:
            f.write(mod + f"\nrequire vh v0.0.0\nreplace vh => {tmp}/vh\n")
        # only the conformance library, which needs nothing but the standard library
        shutil.copytree(os.path.join(VERIF, "harness", "vlib"), os.path.join(tmp, "vh", "vlib"))
        with open(os.path.join(tmp, "vh", "go.mod"), "w") as f:
            f.write("module vh\n\ngo 1.22\n")
        env["GOFLAGS"] = "-mod=readonly"
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", os.path.join(tmp, "overlay.json"),
               "-modfile", os.path.join(tmp, "go.mod"), "-o", os.path.join(tmp, "vh.test"), "./" + ov["pkg"]]
        cwd = REPO
    else:
        with open(os.path.join(VERIF, "harness", "go.mod")) as f:
            mod = f.read()
        mod = mod.replace("=> /repo", "=> " + REPO)
        with open(os.path.join(tmp, "go.mod"), "w") as f:
            f.write(mod)
        shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(tmp, "go.sum"))
        cmd = ["go", "test", "-c", "-vet=off", "-modfile", os.path.join(tmp, "go.mod"),
               "-o", os.path.join(tmp, "vh.test"), "./" + check["pkg"]]
        cwd = os.path.join(VERIF, "harness")
    cmds = [cmd]
    if check.get("binary"):  # the program itself
        cmds.append(["go", "build", "-modfile", os.path.join(tmp, "go.mod"), "-o", os.path.join(tmp, "sdrainer"), "github.com/ftl/sdrainer"])
    for cmd in cmds:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("the harness does not build:\n" + r.stderr[-4000:] + r.stdout[-2000:])


def tlc(tmp, module, cfg, extra_env=None, workers="auto", heap="3g", simulate=None, timeout=600):
    meta = tempfile.mkdtemp(dir=tmp, prefix="tlc")
    wd = os.path.join(meta, "w")
    shutil.copytree(os.path.join(VERIF, "spec"), wd)
    env = dict(os.environ)
    env.update(extra_env or {})
    cmd = ["java", "-Xss16m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", os.path.join(meta, "m"), "-config", cfg, "-deadlock"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd.append(module + ".tla")
    try:
        with open(os.path.join(meta, "log"), "w") as log:
            r = subprocess.run(cmd, cwd=wd, env=env, stdout=log, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC did not finish {cfg} in {timeout} s")
    with open(os.path.join(meta, "log"), errors="replace") as f:
        out = f.read()
    shutil.rmtree(wd)
    return r.returncode, out


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"([\d,]+) states generated", out)
        n = int(m2[-1].replace(",", "")) if m2 else 0
        return n, n
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def run_model(tmp, model, tier, acc):
    """Checks a design model; writes its transition graph if it prints one."""
    cfg = model.get("cfg_" + tier, model["cfg"])
    rc, out = tlc(tmp, model["module"], cfg, workers=model.get("workers", "auto"), timeout=model.get("timeout", 600), heap=model.get("heap", "3g"))
    if rc != 0:
        raise CheckError(f"TLC rejects the design model {cfg} (exit {rc}):\n" +
                         "\n".join(l for l in out.splitlines() if not l.startswith('"EDGE'))[-4000:])
    gen, distinct = stats(out)
    nedges = 0
    if model.get("graph"):
        ids, strs, sid = {}, [], {}

        def intern(table, v):
            k = json.dumps(v, sort_keys=True, separators=(",", ":"))
            if k not in table:
                table[k] = len(table)
            return table[k]
        strtab = {}
        edges, init = set(), []
        for line in out.splitlines():
            if line.startswith('"INIT '):
                v = json.loads(json.loads(line)[5:])
                i = intern(ids, v)
                if i not in init:
                    init.append(i)
            elif line.startswith('"EDGE '):
                e = json.loads(json.loads(line)[5:])
                edges.add((intern(ids, e["s"]), intern(strtab, e["i"]), intern(strtab, e["o"]), intern(ids, e["t"])))
        if not init or not edges:
            raise CheckError(f"no graph in the output of {cfg}")
        nedges = len(edges)
        with open(os.path.join(tmp, model["graph"] + ".graph.json"), "w") as f:
            json.dump({"Init": init, "Strs": list(strtab), "N": len(ids), "States": [json.loads(k) for k in ids], "Edges": sorted(edges)}, f)
    acc.append({"model": cfg, "states": distinct, "transitions": nedges if nedges else gen})


def validate(tmp, spec, trace, name):
    """Validates a trace file; returns None or the number of the first line that is not allowed."""
    rc, out = tlc(tmp, spec["module"], spec["cfg"], {"TRACE": trace}, workers=spec.get("workers", 1), heap=spec.get("heap", "6g"),
                  timeout=spec.get("timeout", 700))
    if rc == 0:
        gen, distinct = stats(out)
        return None, distinct
    m = re.search(r'<<"REJECTED_AT", (\d+)>>', out)
    if m:
        return int(m.group(1)), 0
    raise CheckError(f"TLC failed on trace {name} (exit {rc}):\n" + out[-4000:])


def confirmed(tmp, check, prop, tier, seed, spec, scenario, limit):
    """Repeats a scenario that runs in real time: it must be rejected again, in two more runs out of three."""
    rejected = 0
    for k in range(3):
        out = os.path.join(tmp, f"again{scenario}-{k}")
        home = os.path.join(out, "home")
        os.makedirs(home)
        env = dict(os.environ)
        env.update(VERIF_OUT=out, VERIF_SEED=str(seed), VERIF_TIER=tier, HOME=home, VERIF_PROP=prop, VERIF_ONLY=str(scenario),
                   VERIF_BIN=os.path.join(tmp, "sdrainer"))
        try:
            subprocess.run([os.path.join(tmp, "vh.test"), "-test.run", f"^{check['test']}$"], cwd=out, env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=limit)
        except subprocess.TimeoutExpired:
            rejected += 1
            continue
        path = os.path.join(out, spec["file"])
        if len(read(path).splitlines()) > 1 and validate(tmp, spec, path, spec["file"])[0] is not None:
            rejected += 1
        if rejected == 2 or rejected + 2 - k < 2:
            break
    return rejected >= 2


def known_findings():
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = CHECKS[prop]
    start = time.time()
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    old = os.path.join(evdir, "replay", prop + ".json")
    if os.path.exists(old):
        os.unlink(old)
    rc = 2
    try:
        rc = run(prop, check, tier, seed, tmp, evdir, start)
    except CheckError as e:
        print(f"ERROR property={prop}: {e}", flush=True)
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, check, tier, seed, tmp, evdir, start):
    errors, models = [], []

    def guarded(f, *a):
        def g():
            try:
                f(*a)
            except CheckError as e:
                errors.append(e)
            except Exception as e:  # machinery
                errors.append(CheckError(repr(e)))
        t = threading.Thread(target=g)
        t.start()
        return t
    threads = [guarded(build, check, tmp)]
    for mod in check.get("models", []):
        if tier in mod.get("tiers", ("quick", "thorough")):
            threads.append(guarded(run_model, tmp, mod, tier, models))
    for t in threads:
        t.join()
    if errors:
        raise errors[0]
    t_build = time.time() - start

    limit = check.get("timeout_" + tier, 240 if tier == "quick" else 1800)
    shards = check.get("shards", 1)
    parts = [tmp] if shards == 1 else [os.path.join(tmp, f"part{k}") for k in range(shards)]
    runs = [None] * shards

    def harness(k, out):
        home = os.path.join(out, "home")
        os.makedirs(home)
        env = dict(os.environ)
        env.update(VERIF_OUT=out, VERIF_SEED=str(seed), VERIF_TIER=tier, HOME=home, VERIF_PROP=prop, GOTRACEBACK="all")
        if check.get("binary"):
            env["VERIF_BIN"] = os.path.join(tmp, "sdrainer")
        if shards > 1:
            env.update(VERIF_SHARD=f"{k}/{shards}", GOMAXPROCS="1")
            for g in os.listdir(tmp):
                if g.endswith(".graph.json"):
                    os.symlink(os.path.join(tmp, g), os.path.join(out, g))
        with open(os.path.join(out, "stdout"), "w") as so, open(os.path.join(out, "stderr"), "w") as se:
            try:
                r = subprocess.run([os.path.join(tmp, "vh.test"), "-test.run", f"^{check['test']}$", "-test.timeout", f"{limit + 60}s"],
                                   cwd=out, env=env, stdout=so, stderr=se, timeout=limit)
                runs[k] = r.returncode
            except subprocess.TimeoutExpired:
                raise CheckError(f"the harness did not finish in {limit} s; last scenario: " + read(os.path.join(out, "progress.json"))[:2000])
    for t in [guarded(harness, k, out) for k, out in enumerate(parts)]:
        t.join()
    violations, res = [], {"counts": {}, "samples": []}
    failed = list(errors)
    for code, out in zip(runs, parts):
        if code is None:
            continue
        outp = read(os.path.join(out, "stdout")) + "\n" + read(os.path.join(out, "stderr"))
        part = {"violations": [], "counts": {}, "samples": [], "done": False}
        rp = os.path.join(out, "result.json")
        if os.path.exists(rp):
            part = json.load(open(rp))
        found = [dict(v) for v in part["violations"] or []]
        if not part["done"] and not found:
            crash = crash_of(outp)
            if crash is None:
                failed.append(CheckError(f"the harness ended with {code} without a result:\n" + outp[-6000:]))
            else:
                found.append({"what": "the code crashed: " + crash["panic"], "detail": {
                    "scenario": json_or_text(read(os.path.join(out, "progress.json"))), "stack": crash["stack"]}})
        elif part["done"] and code != 0:
            failed.append(CheckError(f"the harness ended with {code}:\n" + outp[-6000:]))
        violations += found
        for key, n in part["counts"].items():
            res["counts"][key] = res["counts"].get(key, 0) + n
        res["samples"] += part["samples"] or []
    if failed and not violations:
        raise failed[0]
    violations = violations[:5]

    # trace validation
    ntraces = res["counts"].get("traces", 0)
    tstates = 0
    lines_total = 0
    if not violations:
        jobs = []
        for spec in check.get("traces", []):
            path = os.path.join(tmp, spec["file"])
            if shards > 1:  # every behaviour starts anew
                with open(path, "w") as f:
                    for out in parts:
                        f.write(read(os.path.join(out, spec["file"])))
            if not os.path.exists(path):
                raise CheckError(f"no trace {spec['file']} was recorded")
            lines = open(path).read().splitlines()
            if len(lines) < 2:
                raise CheckError(f"trace {spec['file']} is empty")
            lines_total += len(lines)
            jobs.append((spec, path, lines))
        results = {}

        def val(key, spec, path):
            results[key] = validate(tmp, spec, path, key)
        threads = []
        for spec, path, lines in jobs:
            threads.append(guarded(val, spec["file"], spec, path))
            # the binding is live: a falsified copy of the trace must be rejected
            bad = falsify(lines, spec)
            if bad is not None:
                bpath = path + ".bad"
                with open(bpath, "w") as f:
                    f.write("\n".join(bad) + "\n")
                threads.append(guarded(val, spec["file"] + ".bad", spec, bpath))
        for t in threads:
            t.join()
        if errors:
            raise errors[0]
        for spec, path, lines in jobs:
            at, n = results[spec["file"]]
            tstates += n
            for again in range(20):
                if at is None:
                    break
                first = at - 1
                while first > 0 and json.loads(lines[first])["i"].get("op") != "reset":
                    first -= 1
                # a crash does not need to happen again
                if check.get("confirm") and again < 19 and "crashed" not in lines[at - 1]:
                    scenario = json.loads(lines[first])["i"]["scenario"]
                    if not confirmed(tmp, check, prop, tier, seed, spec, scenario, limit):
                        print(f"NOTE property={prop}: scenario {scenario} was rejected once, and accepted when it was repeated", flush=True)
                        last = at
                        while last < len(lines) and json.loads(lines[last])["i"].get("op") != "reset":
                            last += 1
                        lines = lines[:first] + lines[last:]
                        if not lines:
                            break
                        with open(path, "w") as f:
                            f.write("\n".join(lines) + "\n")
                        at, _ = validate(tmp, spec, path, f"{spec['file']}.{again}")
                        continue
                violations.append({"what": f"the recorded behaviour is not allowed by the specification {spec['module']}",
                                   "detail": {"trace": [json.loads(l) for l in lines[first:at]],
                                              "note": "the last step is the first one that the specification does not allow"}})
                break
            if not violations and (spec["file"] + ".bad") in results and results[spec["file"] + ".bad"][0] is None:
                raise CheckError(f"a falsified copy of {spec['file']} was accepted by {spec['module']}")

    known = known_findings()
    reported, replay = [], None
    for v in violations:
        k = [x for x in known if x[0] == prop and x[1] in v["what"]]
        if k:
            print(f"KNOWN-FINDING: property={prop} {k[0][2]}")
            continue
        reported.append(v)
    if reported:
        replay = os.path.join(evdir, "replay", f"{prop}.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "rerun": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {prop}",
                       "violations": reported}, f, indent=1)

    counts = dict(res["counts"])
    counts.pop("traces", None)
    cov = {
        "states": sum(m["states"] for m in models) + tstates,
        "transitions": sum(m["transitions"] for m in models),
        "traces_validated_against_impl": ntraces,
        "trace_events": lines_total,
        "models": models,
        "harness": counts,
        "samples": (res["samples"] or [])[:12] or [{"note": "none"}],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": check.get("level", "model_checking"), "coverage": cov,
          "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - start, 2), "violations": len(reported)}
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: models={models} traces={ntraces} events={lines_total} harness={counts} "
          f"build+tlc={t_build:.1f}s total={time.time()-start:.1f}s violations={len(reported)}")
    if reported:
        for v in reported:
            print("  " + v["what"])
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    return 0


def falsify(lines, spec):
    """Changes one recorded output in the last third of the trace."""
    how = spec.get("falsify")
    if how is None:
        return None
    for k in range(len(lines) - 1, 0, -1):
        e = json.loads(lines[k])
        if e["i"].get("op") == "reset":
            continue
        o = how(e)
        if o is not None:
            e["o"] = o
            return lines[:k] + [json.dumps(e)] + lines[k + 1:]
    return None


def read(p):
    try:
        with open(p, errors="replace") as f:
            return f.read()
    except OSError:
        return ""


def json_or_text(s):
    try:
        return [json.loads(l) for l in s.splitlines()][-600:]
    except ValueError:
        return s


def crash_of(out):
    """A panic or fatal error in code of the repository, from the output of the harness."""
    m = re.search(r"^(panic: .*|fatal error: .*)$", out, re.M)
    if not m or m.group(1).startswith("panic: test timed out"):
        return None
    rest = out[m.start():]
    for b in re.split(r"\n\n(?=goroutine )", rest)[1:]:
        if "running" not in b.split("\n", 1)[0]:
            continue
        # the first frame outside of the Go runtime and the libraries decides whose panic it is
        for path in re.findall(r"^\t(/\S+\.go):\d+", b, re.M):
            if path.startswith(GOROOT) or path.startswith("/usr/local/go") or "/pkg/mod/" in path:
                continue
            if path.startswith(REPO + "/") and not path.endswith("_test.go"):
                return {"panic": m.group(1)[:300], "stack": b[:4000]}
            return None
    return None


if __name__ == "__main__":
    main()
