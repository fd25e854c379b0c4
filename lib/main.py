"""Command line of a check; see ../check."""
import argparse, glob, importlib, json, os, sys, time, traceback

t0 = time.time()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402


def known_findings(prop):
    """known_findings.txt lines: 'finding: property=<id> key=<key> <what fails>' / 'fixed: ...'"""
    out = {}
    p = os.path.join(boot.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                out[key[len("key="):]] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    a = ap.parse_args()
    prop = a.prop
    modname = prop.lower()
    variant = "asan" if prop == "P34" else "plain"
    if variant == "asan" and not os.environ.get("VERIF_ASAN"):
        import subprocess
        boot.build_extensions("asan")
        libs = []
        for l in ("libasan.so", "libubsan.so", "libstdc++.so.6"):
            libs.append(subprocess.check_output(["g++", "-print-file-name=" + l]).decode().strip())
        os.environ.update(VERIF_ASAN="1", LD_PRELOAD=" ".join(libs),
                          ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0:max_malloc_fill_size=4194304:malloc_fill_byte=255",
                          UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=78")
        os.execv(sys.executable, [sys.executable] + sys.argv)
    boot.activate(variant)
    sys.path.insert(0, os.path.join(boot.VERIF, "checks"))
    import core
    mod = importlib.import_module(modname)
    subs = [s for s in core.SUBS if not a.only or s.name in a.only.split(",")]
    known = known_findings(prop)

    if a.replay:
        rec = json.load(open(a.replay))
        s = [x for x in core.SUBS if x.name == rec["sub"]][0]
        verdict, info = core.judge(s, rec["case"])
        print("replay: %s %s" % (verdict, info.get("msg", "")))
        if info.get("tb"):
            print(info["tb"])
        if verdict == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0 if verdict in ("ok", "trivial", "discard") else 2

    # committed cases: known findings (must still fail the way they are listed) and earlier failures (must pass)
    pinned = []
    for f in sorted(glob.glob(os.path.join(boot.VERIF, "corpus", prop + "-*.json"))):
        rec = json.load(open(f))
        if any(s.name == rec["sub"] for s in subs):
            pinned.append(rec)
    merged = core.run_all(subs, a.seed, a.tier, a.scale, a.jobs, known_keys=known)
    by = {s.name: s for s in subs}
    for rec in pinned:
        verdict, info = core.judge_forked(by[rec["sub"]], rec["case"])
        m = merged[rec["sub"]]
        m["pinned"] = m.get("pinned", 0) + 1
        if verdict == "violation":
            if info.get("key") in known:
                m["known"].setdefault(info["key"], dict(case=rec["case"], **info))
            else:
                m["viol"].append(dict(case=rec["case"], **info))
        elif verdict == "error":
            m["error"].append(dict(case=rec["case"], **info))
    wall = time.time() - t0
    nviol = sum(len(m["viol"]) for m in merged.values())
    nerr = sum(len(m["error"]) for m in merged.values())

    digests, samples, per = 0, [], {}
    for s in subs:
        m = merged[s.name]
        digests += len(m["digests"])
        for c in m["samples"][:2]:
            samples.append({"sub": s.name, "case": c})
        per[s.name] = dict(planned=m["planned"], evaluations=m["evals"], nontrivial=len(m["digests"]), trivial=m["trivial"],
                           discarded=m["discard"], committed_cases=m.get("pinned", 0), skipped_for_time=m["skipped"], rule=s.rule,
                           classes=dict(sorted(m["labels"].items())), cpu_s=round(m["wall"], 2))
    ev = dict(property=prop, tier=a.tier, seed=int(a.seed) if a.seed.isdigit() else 0, level="exploration",
              coverage=dict(evaluations=sum(m["evals"] for m in merged.values()), distinct_nontrivial=digests,
                            rule=getattr(mod, "RULE", "see per-sub-check rules"), samples=json.loads(core.jdump(samples[:12])),
                            sub_checks=json.loads(core.jdump(per))),
              wall_s=round(wall, 2), violations=nviol,
              assumptions=getattr(mod, "ASSUMPTIONS", []))
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for s in subs:
        m = merged[s.name]
        print("%-34s evals %6d nontrivial %6d discard %5d skipped %4d  cpu %.1fs" % (
            s.name, m["evals"], len(m["digests"]), m["discard"], m["skipped"], m["wall"]))
        if os.environ.get("VERIF_LABELS"):
            for l, c in sorted(m["labels"].items()):
                print("      %-40s %d" % (l, c))
    for key in sorted({k for m in merged.values() for k in m["known"]}):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    for m in merged.values():
        for e in m["error"]:
            print("HARNESS ERROR case=%s\n%s" % (core.jdump(e.get("case")), e["msg"]))
    code = 0
    if nviol:
        d = os.path.join(boot.VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        for s in subs:
            for v in merged[s.name]["viol"][:1]:
                path = os.path.join(d, "%s-%s-%s.json" % (prop, s.name, core.case_digest(v["case"])))
                with open(path, "w") as f:
                    json.dump(json.loads(core.jdump(dict(property=prop, sub=s.name, **v))), f, indent=1)
                print("%s: %s\n  case %s" % (s.name, v["msg"], core.jdump(v["case"])))
                if v.get("tb"):
                    print(v["tb"])
                print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif nerr:
        code = 2
    print("%s %s seed=%s: %d cases, %d non-trivial, %.1fs" % (prop, a.tier, a.seed, ev["coverage"]["evaluations"], digests, wall))
    return code


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
