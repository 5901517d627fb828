#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE]: compile the harness of a property against /repo/src and explore.

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it does not hold.
Exit 2: no answer (the harness does not compile, memory ran out...)."""
import json, os, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from table import HARNESS, PROPS
REPO = os.environ.get("ORPAILLE_REPO", "/repo")

def known_tags(prop):
    tags = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: ") and ("property=%s " % prop) in line:
                tags.append(line.split(" tag=", 1)[1].split(" :: ", 1)[0].strip())
    return tags

def main():
    prop = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
    tier = next((a for a in sys.argv[2:] if a in ("quick", "thorough")), os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    harness = PROPS[prop]["harness"]
    spec = HARNESS[harness]
    parts = spec.get("parts", 1)
    if callable(parts):
        parts = parts(prop, tier)
    if isinstance(parts, int):
        parts = list(range(parts))
    budget = float(os.environ.get("MC_BUDGET", "600" if tier == "thorough" else "240"))
    if not replay and os.path.exists(os.path.join(HERE, "evidence", prop + ".replay")):
        os.remove(os.path.join(HERE, "evidence", prop + ".replay"))
    tmp = tempfile.mkdtemp(prefix="orpaille-%s-" % prop)
    results, errors = [], []
    def work(part):
        out = os.path.join(tmp, "p%d" % part)
        os.mkdir(out)
        exe = os.path.join(out, "h")
        cmd = ["g++", "-std=c++17", "-w", "-fpermissive", "-DPROP=%d" % int(prop[1:]), "-DPART=%d" % part,
               "-DTHOROUGH=%d" % (tier == "thorough"), "-I" + os.path.join(REPO, "src"), "-I" + HERE]
        cmd += spec.get("flags", ["-O1"])
        cmd += [os.path.join(HERE, "harness", harness + ".cpp"), "-o", exe]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            errors.append("compilation of %s failed:\n%s" % (harness, r.stdout[-4000:]))
            return
        args = [exe, "--prop", prop, "--tier", tier, "--out", out, "--workers", str(max(1, 8 // len(parts), spec.get("workers", 1))), "--budget", str(budget)]
        for t in known_tags(prop):
            args += ["--known", t]
        if replay:
            args += ["--replay", replay]
            print(subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env()).stdout)
            return
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())
        path = os.path.join(out, "result.txt")
        if r.returncode not in (0, 1) or not os.path.exists(path):
            errors.append("explorer of %s ended with %d:\n%s" % (harness, r.returncode, r.stdout[-4000:]))
            return
        results.append((part, open(path).read(), r.stdout, exe))
    threads = [threading.Thread(target=work, args=(p,)) for p in parts]
    for t in threads: t.start()
    for t in threads: t.join()
    if replay:
        shutil.rmtree(tmp); return 2 if errors else 0
    total, violations, incomplete, hits, samples = {}, [], [], set(), []
    for part, text, output, exe in sorted(results):
        for line in text.splitlines():
            f = line.split("\t")
            if f[0] == "V": violations.append((f[1], f[2], f[3], output, exe))
            elif f[0] == "E": errors.append(line)
            elif f[0] == "I": incomplete.append(f[1])
            elif f[0] == "J" and os.environ.get("MC_TIMES"): print(line)
            elif f[0] == "K": hits.add(f[1])
            elif f[0] == "P": samples.append(f[1])
            elif f[0] == "S":
                for kv in f[1:]:
                    k, v = kv.split("=")
                    if k == "maxdepth": total[k] = max(total.get(k, 0), int(v))
                    elif k == "complete": total[k] = min(total.get(k, 1), int(v))
                    elif k != "wall": total[k] = total.get(k, 0) + int(v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    code = 0
    for h in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, h))
    if violations:
        code = 1
        tag, msg, path, output, exe = violations[0]
        keep = os.path.join(HERE, "evidence", prop + ".replay")
        try: text = open(path).read()
        except OSError: text = "no replay file\n"
        try:
            r = subprocess.run([exe, "--prop", prop, "--tier", tier, "--out", tmp, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100, env=env())
            text += "# replayed alone: exit %d\n" % r.returncode + "".join("# " + l + "\n" for l in r.stdout.splitlines()[-60:])
        except Exception as e:
            text += "# not replayed: %s\n" % e
        report = [l for l in output.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l or "SUMMARY" in l][:8]
        text += "".join("# " + l + "\n" for l in report)
        with open(keep, "w") as f: f.write(text)
        print("%s: %s" % (tag, msg))
        for l in report: print(l)
        print("VIOLATION property=%s replay=%s" % (prop, keep))
    elif errors:
        code = 2
        for e in errors: print(e)
    if results:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {
                  "states": total.get("states", 0), "transitions": total.get("transitions", 0),
                  "traces_validated_against_impl": total.get("traces", 0),
                  "executions_explored": total.get("executions", 0),
                  "oracle_comparisons": total.get("checks", 0), "environment_answers_enumerated": total.get("choices", 0),
                  "configurations": total.get("jobs", 0), "state_spaces_explored_to_fixpoint": total.get("fixpoints", 0),
                  "max_depth": total.get("maxdepth", 0),
                  "exhaustive": bool(total.get("complete", 0)) and not violations and not errors,
                  "not_completed": incomplete,
                  "bounds": PROPS[prop].get("bounds", ""),
                  "how_traces_are_validated": "every transition executes the code of /repo/src itself (no abstract model of it); the oracle is a reference model stepped along with it",
                  "samples": samples[:6] or ["(none)"]},
              "assumptions": PROPS[prop].get("assumptions", []) + spec.get("assumptions", []),
              "wall_s": round(time.time() - t0, 3), "violations": len(violations)}
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    shutil.rmtree(tmp)
    if code == 0:
        print("%s %s: held; %d states, %d transitions, %d configurations, %.1f s%s" % (prop, tier, total.get("states", 0), total.get("transitions", 0), total.get("jobs", 0), time.time() - t0, "" if not incomplete else " (time or memory budget reached in: %s)" % ", ".join(incomplete)))
    return code

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigill=0:allow_user_poisoning=1:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
    return e

if __name__ == "__main__":
    sys.exit(main())
