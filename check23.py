#!/usr/bin/env python3
# usage: check23.py C23 <quick|thorough> | --build
# Builds the harness mc23 against /repo's working tree in all 8 feature sets, runs the same bounded exploration in each,
# and compares what every configuration observed with what the full configuration observed.
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

DIR = os.path.dirname(os.path.abspath(__file__))
FEATS = ["text", "insertion", "destroy"]
CONFIGS = [[f for i, f in enumerate(FEATS) if m >> i & 1] for m in range(8)]
FULL = FEATS
env = dict(os.environ)
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_INCREMENTAL"):
    env.pop(k, None)
env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
env["PATH"] = "/usr/local/bin:" + os.path.expanduser("~/.cargo/bin") + ":" + env["PATH"]


def name(c):
    return "+".join(c) or "none"


def exe(c):
    # two target folders, so that two configurations are built at a time
    t = os.path.join(DIR, "target-mc23", name(c))
    return os.path.join(t, "mc23")


def build(c):
    tgt = os.path.join(DIR, "target-mc23", "t%d" % (CONFIGS.index(c) % 4))
    p = subprocess.run(["cargo", "build", "--release", "--offline", "-q", "--no-default-features", "--features", ",".join(c)],
                       cwd=os.path.join(DIR, "mc23"), env=dict(env, CARGO_TARGET_DIR=tgt), capture_output=True, text=True)
    if p.returncode != 0:
        return p.stderr
    d = os.path.dirname(exe(c))
    os.makedirs(d, exist_ok=True)
    tmp = exe(c) + ".new"
    with open(os.path.join(tgt, "release", "mc23"), "rb") as f, open(tmp, "wb") as o:
        o.write(f.read())
    os.chmod(tmp, 0o755)
    os.replace(tmp, exe(c))
    return None


def build_all():
    groups = [[c for c in CONFIGS if CONFIGS.index(c) % 4 == g] for g in range(4)]
    res = {}

    def run(g):
        for c in g:
            res[name(c)] = build(c)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(run, groups))
    return res


def explore(c, tier, shards):
    def one(i):
        p = subprocess.run([exe(c), tier, str(i), str(shards)], capture_output=True, text=True, timeout=3000)
        lines = p.stdout.splitlines()
        return p.returncode, lines
    out, dead = {}, None
    with ThreadPoolExecutor(shards) as ex:
        for rc, lines in ex.map(one, range(shards)):
            if rc != 0 or not lines or lines[-1] != "end":
                dead = "the process ended with status %s after %s" % (rc, lines[-1] if lines else "nothing")
            for l in lines:
                if l != "end":
                    d, s, h, n = l.split()
                    out[(int(d), s)] = (h, int(n))
    return out, dead


def main():
    if sys.argv[1] == "--build":
        bad = {k: v for k, v in build_all().items() if v}
        for k, v in bad.items():
            print(k, v)
        return 2 if bad else 0
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    t0 = time.time()
    b = build_all()
    if b[name(FULL)]:
        print(b[name(FULL)])
        print("BUILD FAILED in the full configuration")
        return 2
    viol = None
    for k, v in b.items():
        if v and not viol:
            err = next((l for l in v.splitlines() if l.startswith("error")), v[:200])
            viol = ("configuration %s does not compile" % k, err, "cd /verif/mc23 && cargo build --release --offline --features '%s'" % k.replace("+", ","))
    shards = max(2, min(16, os.cpu_count() or 8))
    full, dead = explore(FULL, tier, shards)
    traces = steps = nonfull = 0
    states = set()
    per = {}
    if dead and not viol:
        viol = ("the full configuration does not finish", dead, exe(FULL) + " " + tier + " 0 1")
    if not viol:
        for c in CONFIGS:
            if c == FULL:
                got = full
            else:
                got, dead = explore(c, tier, shards)
                if dead:
                    viol = ("configuration %s does not finish" % name(c), dead, exe(c) + " " + tier + " 0 1")
                    break
            per[name(c)] = sum(n for _, n in got.values())
            for (d, s), (h, n) in sorted(got.items()):
                states.add((d, s, h))
                traces += 1
                steps += n
                if full.get((d, s)) != (h, n):
                    a = subprocess.run([exe(c), "show", tier, str(d)], capture_output=True, text=True).stdout.splitlines()
                    f = subprocess.run([exe(FULL), "show", tier, str(d)], capture_output=True, text=True).stdout.splitlines()
                    sel = lambda ls: [l for l in ls if l.replace(" ", "-").startswith(s + ":")]
                    diff = next(((x, y) for x, y in zip(sel(a), sel(f)) if x != y), ("?", "?"))
                    viol = ("configuration %s, %s" % (name(c), a[0] if a else d), "got %s, with all features %s" % (diff[0][:600], diff[1][:600]), "%s show %s %d" % (exe(c), tier, d))
                    break
                if c != FULL:
                    nonfull += n
            if viol:
                break
    wall = time.time() - t0
    docs = len({d for d, _ in full})
    ev = {"property": "C23", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": len(states), "transitions": steps, "traces_validated_against_impl": traces,
                       "rule": "the same enumeration runs in every configuration; a transition is one query or one replayed sequence of edits with all its observations; a trace is one document in one configuration and one section of the API, compared with the full configuration; a state is a distinct digest of what was observed",
                       "configurations": len(per), "documents": docs, "transitions_per_configuration": per, "compared_outside_full": nonfull,
                       "exhaustive": viol is None,
                       "bounds": ["all 8 subsets of {text, insertion, destroy}", "%d documents: shapes of <= %d elements with labels from 5 (every second labelling at 3 elements in the quick tier, every seventh at 4) and 9 documents with content tags, forms, void and unclosed tags" % (docs, 4 if tier == "thorough" else 3), "every member set x 59 selectors x 15 selecting methods, all pairs of member sets, all single edits; all pairs of edits on the documents of <= 2 elements"],
                       "technique": "exhaustive enumeration of configurations x bounded documents x operation sequences, differential against the full configuration",
                       "samples": ["%s: %d observations" % (k, v) for k, v in per.items()]},
          "assumptions": ["the behaviour of the full configuration is decided by C01 to C22"], "wall_s": round(wall, 3), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(DIR, "evidence"), exist_ok=True)
    with open(os.path.join(DIR, "evidence", "C23.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("C23 [%s]: configurations=%d documents=%d traces=%d transitions=%d wall=%.1fs" % (tier, len(per), docs, traces, steps, wall))
    if viol:
        os.makedirs(os.path.join(DIR, "replays"), exist_ok=True)
        path = os.path.join(DIR, "replays", "C23.json")
        with open(path, "w") as f:
            json.dump({"property": "C23", "what": viol[0], "detail": viol[1], "replay_cmd": viol[2]}, f)
        print("  " + viol[0])
        print("  " + viol[1])
        print("VIOLATION property=C23 replay=" + path)
        return 1
    return 0


sys.exit(main())
