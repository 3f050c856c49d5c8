"""Corruptions of recorded executions: which fields does each property look at?

For every kind of step and every field of it, a number of recorded histories are changed in that field
of one step, in one number or truth value of it. Prints how many of them TLC rejects. A field that does not matter to
a property (what was looked up, to C06) is accepted, of course; a property all of whose fields are accepted is not bound
to the code.
"""
import copy, json, os, random, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
from plan import PLAN

MANY = 8


def leaves(x, path=()):
    if isinstance(x, bool) or isinstance(x, int):
        yield path
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from leaves(y, path + (k,))


def at(x, path):
    for p in path:
        x = x[p]
    return x


def change(rng, root, path):
    """Changes one leaf or the length of one list below path."""
    x = at(root, path)
    ls = list(leaves(x))
    parent = at(root, path[:-1])
    if isinstance(x, list) and x and rng.random() < 0.4:
        parent[path[-1]] = x[:-1] if rng.random() < 0.5 else x + [copy.deepcopy(rng.choice(x))]
        return True
    if not ls:
        return False
    l = rng.choice(ls)
    if l == ():
        parent[path[-1]] = (not x) if isinstance(x, bool) else x + rng.choice([-1, 1])
    else:
        y = at(x, l)
        at(x, l[:-1])[l[-1]] = (not y) if isinstance(y, bool) else y + rng.choice([-1, 1])
    return True


def run(props=None):
    check.build({j["bin"] for p in PLAN.values() for j in p["jobs"]})
    unbound = 0
    for prop in props or sorted(PLAN):
        job = PLAN[prop]["jobs"][0]
        d = tempfile.mkdtemp(prefix="rt-self-")
        try:
            out = d + "/t.json"
            subprocess.run([os.path.join(check.BINDIR, job["bin"]), job.get("prop", prop), "7", "quick", out,
                            str(min(job["budget"][0] * 4, 1_500_000)), "3", "0", str(job.get("parts", 8))], check=True,
                           stdout=subprocess.DEVNULL)
            hs = [json.loads(l) for l in open(out) if l.strip()]
            rng = random.Random(1)
            where = {}
            for h in hs:
                for i, e in enumerate(h["ev"]):
                    for k in e:
                        if k not in ("op",):
                            where.setdefault((e["op"], k), []).append((h, ("ev", i, k)))
                for k in ("st",):
                    if k in h:
                        for i in range(len(h[k])):
                            for f in h[k][i]:
                                where.setdefault(("tree", f), []).append((h, (k, i, f)))
            total = 0
            line = []
            for (op, f), places in sorted(where.items()):
                picked = rng.sample(places, min(MANY, len(places)))
                made = 0
                with open(out, "w") as o:
                    for h, path in picked:
                        g = copy.deepcopy(h)
                        if change(rng, g, path):
                            made += 1
                            g["id"] = f"X{made}"
                            o.write(json.dumps(g) + "\n")
                if not made:
                    continue
                cfg = d + "/T.cfg"
                text = open(os.path.join(check.SPEC, job["spec"] + ".cfg")).read()
                open(cfg, "w").write(re.sub(r'Prop = "C\w+"', f'Prop = "{prop}"', text))
                rc, o = check.tlc(job["spec"] + ".tla", cfg, d + "/m", {"TRACE": out}, extra=("-continue",), timeout=200)
                n = len(set(re.findall(r'history = "(.*?)"', o)))
                if rc not in (0, 12, 13) and n == 0:
                    n = made  # not evaluable: no answer, never accepted
                    f += "!"
                total += n
                line.append(f"{op}.{f}:{n}/{made}")
            print(prop, "UNBOUND" if total == 0 else "", " ".join(line), flush=True)
            unbound += total == 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return unbound


if __name__ == "__main__":
    sys.exit(1 if run(sys.argv[1:]) else 0)
