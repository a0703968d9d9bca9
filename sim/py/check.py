#!/usr/bin/env python3
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib


def main():
    if len(sys.argv) < 2:
        print("usage: check <property id> | replay <file> | determinism [property id ...] | setup")
        return 2
    a = sys.argv[1]
    if a == "setup":
        err = simlib.build(["libsim", "physical_tc", "one_mass_overall", "two_masses_overall", "refpipe", "genheaders"])
        err = err or simlib.build(["physical_tc", "one_mass_overall", "two_masses_overall"], profile="rel")
        err = err or simlib.build(["libsim"], profile="relu")
        if err:
            print(err[-3000:])
        return 0
    if a == "replay":
        d = json.load(open(sys.argv[2]))
        if d["kind"] == "lib":
            import libchecks as m
            m.build_lib()
        else:
            import pipechecks as m
            m.build_for(d["property"])
        v, h = m.replay(d)
        if v:
            print("  " + v)
            print("history hash", h, "(recorded %s)" % d.get("history_hash"))
            print("VIOLATION property=%s replay=%s" % (d["property"], sys.argv[2]))
            return 1
        print("not reproduced; history hash", h)
        return 0
    if a == "determinism":
        # runs checks twice and compares the event histories of all their runs
        import shutil, subprocess, tempfile
        tmp = tempfile.mkdtemp(prefix="qcdsim.")
        total = bad = 0
        try:
            for prop in sys.argv[2:] or ["C%02d" % k for k in range(1, 20)]:
                d = [os.path.join(tmp, prop + x) for x in "ab"]
                for x in d:
                    os.mkdir(x)
                    subprocess.run([sys.executable, "-B", os.path.abspath(__file__), prop], stdout=subprocess.DEVNULL,
                                   env=dict(os.environ, SIM_DIGEST=x))
                n = diff = 0
                for f in sorted(os.listdir(d[0])):
                    if os.path.exists(os.path.join(d[1], f)):
                        for u, v in zip(*[open(os.path.join(x, f)) for x in d]):
                            n += 1
                            if u != v:
                                diff += 1
                                if diff == 1:
                                    print("  %s: run %d of %s differs: %s / %s" % (prop, n, f, u.strip(), v.strip()))
                                break
                print("%s: %d runs compared, %d workers differ" % (prop, n, diff), flush=True)
                total += n
                bad += diff
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("determinism: %d runs compared, %d differences" % (total, bad))
        return 1 if bad else 0
    if a in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C18"):
        import libchecks as m
    else:
        import pipechecks as m
    return m.check(a)


if __name__ == "__main__":
    try:
        rc = main()
    except simlib.HarnessError as e:
        print("harness error:", e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
