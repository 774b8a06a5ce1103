#!/usr/bin/env python3
"""check.py <property>: decides one property of phabrik on /repo's working tree.

1. TLC checks the design: the property's model in spec/.
2. The driver (harness/cmd/drv), built from /repo, runs phabrik and records traces.
3. TLC checks every trace against the trace specification in spec/.
Exit 0: held. 1: VIOLATION. Other: the check itself failed."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


class Infra(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv():
    e = dict(os.environ)
    # same toolchain and cache as the repository's build
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=e).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            e[k.decode(errors="replace")] = v.decode(errors="replace")
    e["GOFLAGS"] = "-mod=mod"
    e["GOPROXY"] = "off"
    e["GOTRACEBACK"] = "all"
    return e


def build():
    """instrumented driver; falls back to an uninstrumented one"""
    os.makedirs(BUILD, exist_ok=True)
    env = goenv()
    h = os.path.join(HERE, "harness")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mod = os.path.join(BUILD, "go.mod")
        src = open(os.path.join(h, "go.mod")).read()
        with open(mod, "w") as f:
            f.write(re.sub(r"=> /repo\b", "=> " + REPO, src))
        shutil.copy(os.path.join(h, "go.sum"), os.path.join(BUILD, "go.sum"))
        errs = []
        for mode in ([], ["plain"]):
            ov = os.path.join(BUILD, "ov")
            shutil.rmtree(ov, ignore_errors=True)
            r = subprocess.run(["go", "run", "./cmd/instrument", REPO, ov, os.path.join(h, "vy")] + mode,
                               cwd=h, env=env, capture_output=True, text=True)
            if r.returncode == 0:
                exe = os.path.join(BUILD, "drv.%d" % os.getpid())
                r = subprocess.run(["go", "build", "-modfile", mod, "-overlay", os.path.join(ov, "overlay.json"), "-o", exe, "./cmd/drv"],
                                   cwd=h, env=env, capture_output=True, text=True)
                if r.returncode == 0:
                    return exe, not mode
            errs.append(r.stderr)
        raise Infra("build failed:\n" + "\n".join(errs)[-4000:])


def tlc(module, cfg, env, tmp, timeout, workers=8, extra=()):
    d = tempfile.mkdtemp(dir=tmp)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    if "\n" in cfg:
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cfg = "run.cfg"
    e = dict(os.environ)
    e.update(env)
    cmd = ["timeout", str(timeout), "java", "-Xss256m", "-Xmx12g", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", os.path.join(d, "st"), *extra, "-config", cfg, module + ".tla"]
    r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True)
    out = r.stdout + r.stderr
    ms = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out, re.M)
    gen, dist = (int(ms[-1][0].replace(",", "")), int(ms[-1][1].replace(",", ""))) if ms else (0, 0)
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, out, gen, dist


def limit():
    # what makes phabrik take all memory ends the driver, not the sandbox
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def tail(s, n=3000):
    return s[-n:]


def main():
    pid = sys.argv[1]
    ck = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="phv.%s." % pid)
    exe = None
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking"}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    violation = None
    try:
        # 1. design
        gens = {}
        cov["models"] = []
        for m in ck.get("models", []):
            cfg = m["deep"] if thorough and "deep" in m else m["cfg"]
            env = {"PROP": pid, "GEN_FILE": "", "TRACE_FILE": "", "TIER": tier, "SEED": str(seed)}
            if m.get("gen"):
                env["GEN_FILE"] = os.path.join(tmp, m["gen"])
                gens[m["gen"]] = env["GEN_FILE"]
            t = time.time()
            rc, out, g, d = tlc(m["module"], cfg, env, tmp, m.get("timeout", 7200 if thorough else 400), extra=m.get("extra", ()))
            if rc != 0 or ("No error has been found" not in out and not m.get("simulate")):
                raise Infra("model %s: tlc exit %d\n%s" % (m["module"], rc, tail(out)))
            cov["states"] += d
            cov["transitions"] += g
            cov["models"].append({"module": m["module"], "cfg": cfg if "\n" not in cfg else "generated", "distinct_states": d, "states_generated": g, "wall_s": round(time.time() - t, 1)})
            log("model", m["module"], d, "states", round(time.time() - t, 1), "s")
        # 2. implementation
        exe, instr = build()
        cov["instrumented"] = instr
        parts = ck.get("parts", 1)
        ps = []
        t = time.time()
        tmo = ck.get("timeout", 400) * (10 if thorough else 1)
        for i in range(parts):
            out = os.path.join(tmp, "tr%d.nd" % i)
            cmd = ["timeout", "-k", "5", str(tmo), exe, "-prop", pid, "-seed", str(seed), "-tier", tier, "-out", out, "-part", "%d/%d" % (i, parts)]
            if gens:
                cmd += ["-gen", next(iter(gens.values()))]
            errf = open(os.path.join(tmp, "err%d" % i), "w")
            ps.append((subprocess.Popen(cmd, stderr=errf, stdout=subprocess.DEVNULL, cwd=tmp, env=dict(goenv(), TMPDIR=tmp),
                                        preexec_fn=limit), out, errf.name))
        lines, stats, seen = [], {}, set()
        for p, out, errn in ps:
            rc = p.wait()
            if rc != 0:
                err = open(errn, errors="replace").read()
                crash = crashed(err)
                if crash:
                    last = open(out).read().strip().split("\n")[-1:] if os.path.exists(out) else []
                    violation = {"what": "phabrik crashed the process", "stderr": err[:20000], "last_trace": last, "cmd": cmd_of(cmd_args=p.args)}
                else:
                    raise Infra("driver exit %d\n%s" % (rc, tail(err)))
            else:
                for x in open(out).read().split("\n"):
                    k = x[:x.find('"id":')] + x[x.find('"evs":'):]
                    if x and k not in seen:  # the parts may record the same trace
                        seen.add(k)
                        lines.append(x)
                for k, v in json.load(open(out + ".stats")).items():
                    stats[k] = stats.get(k, 0) + v
        log("driver", stats, round(time.time() - t, 1), "s")
        cov["driver"] = dict(stats, wall_s=round(time.time() - t, 1))
        if not lines and not violation:
            raise Infra("no traces")
        # 3. conformance
        if not violation:
            cov["trace_check"] = []
            bym = {}
            for x in lines:
                bym.setdefault(re.match(r'\{"m":"(\w*)"', x).group(1) or ck["trace"], []).append(x)
            for tr, sel in sorted(bym.items()):
                tf = os.path.join(tmp, "traces.nd")
                with open(tf, "w") as f:
                    f.write("\n".join(sel) + "\n")
                t = time.time()
                rc, out, g, d = tlc(tr, tr + ".cfg", {"TRACE_FILE": tf, "PROP": pid, "GEN_FILE": "", "TIER": tier}, tmp, 7200 if thorough else 600)
                if rc == 0 and "No error has been found" in out:
                    cov["states"] += d
                    cov["transitions"] += g
                    cov["traces_validated_against_impl"] += len(sel)
                    cov["trace_check"].append({"module": tr, "traces": len(sel), "distinct_states": d, "states_generated": g, "wall_s": round(time.time() - t, 1)})
                    log("traces", tr, len(sel), d, "states", round(time.time() - t, 1), "s")
                elif "Invariant Accepted is violated" in out:
                    tid = int(re.findall(r"^/\\ tid = (\d+)", out, re.M)[-1])
                    l = int(re.findall(r"^/\\ l = (\d+)", out, re.M)[-1])
                    trace = json.loads(sel[tid - 1])
                    st = re.split(r"^State \d+:", out, flags=re.M)
                    violation = {"what": "the specification does not allow event %d of this trace" % l, "module": tr, "event": trace["evs"][l - 1],
                                 "event_index": l, "trace": trace, "before": tail(st[-2], 6000) if len(st) > 2 else ""}
                    cov["states"] += d
                    cov["transitions"] += g
                    break
                else:
                    raise Infra("trace check: tlc exit %d\n%s" % (rc, tail(out, 6000)))
        for x in lines[:1] + lines[len(lines) // 2:][:1]:
            d = json.loads(x)
            cov["samples"].append({"id": d["id"], "events": len(d["evs"]), "first": json.dumps(d["evs"][:6])[:1500]})
    except Infra as e:
        log("CHECK ERROR:", e)
        return 3
    finally:
        if exe and os.path.exists(exe):
            os.unlink(exe)
        shutil.rmtree(tmp, ignore_errors=True)
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 2)
    if violation:
        d = os.path.join(BUILD, "violations")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".json")
        violation.update(property=pid, seed=seed, tier=tier, rerun="VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (seed, tier, pid))
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        ev["violation"] = path
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print(json.dumps(violation.get("event", violation["what"]))[:1500])
        return 1
    print("OK property=%s traces=%d states=%d wall=%.1fs" % (pid, cov["traces_validated_against_impl"], cov["states"], ev["wall_s"]))
    return 0


def cmd_of(cmd_args):
    return " ".join(map(str, cmd_args))


def crashed(err):
    """did a goroutine running phabrik's code bring the process down"""
    m = re.search(r"^(panic:|fatal error:|runtime: goroutine stack exceeds)", err, re.M)
    if not m:
        return False
    rest = err[m.start():]
    # the first goroutine printed is the one that failed
    parts = re.split(r"^goroutine \d+", rest, flags=re.M)
    first = parts[1] if len(parts) > 1 else rest
    if "all goroutines are asleep" in err:
        return False
    return "github.com/tg123/phabrik/" in first


if __name__ == "__main__":
    sys.exit(main())
