#!/usr/bin/env python3
"""Compares the executor with the compiled crate on the data files of the
repository's own tests. Not a check: every run is concrete."""

import json
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
DATA = "/repo/rust/tests-data"


def main():
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="validate-", dir=BUILD)
    names = sorted(n for n in os.listdir(DATA) if n.endswith((".po", ".mo")))
    table = os.path.join(work, "testdata.rs")
    with open(table, "w") as h:
        h.write("const FILES: &[(&str, &[u8])] = &[\n")
        for n in names:
            h.write('    ("%s", include_bytes!("%s/%s")),\n' % (n, DATA, n))
        h.write("];\n")
    env = dict(os.environ, VERIF_TESTDATA=table, VERIF_FEATURES="testdata")
    ir, replay = os.path.join(work, "h.ll"), os.path.join(work, "vreplay")
    subprocess.run(["bash", "tools/setup.sh"], cwd=VERIF, check=True)
    subprocess.run(["bash", "tools/build_ir.sh", ir], cwd=VERIF, env=env, check=True)
    subprocess.run(["bash", "tools/build_replay.sh", replay], cwd=VERIF, env=env, check=True)
    bad = 0
    for i, n in enumerate(names):
        out = os.path.join(work, "out%d" % i)
        os.makedirs(out)
        subprocess.run([os.path.join(BUILD, "engine/release/irsym"), ir, ir + ".names", "h_val", out,
                        "p0=%d" % i, "jobs=1", "samples=1", "max_steps=4000000000", "deadline=600"],
                       stdout=subprocess.DEVNULL, check=False)
        res = json.load(open(os.path.join(out, "result.json")))
        predicted = [json.loads(l)["emit"] for f in os.listdir(out) if f.startswith("samples.")
                     for l in open(os.path.join(out, f))]
        inputs = os.path.join(out, "inputs")
        with open(inputs, "w") as h:
            h.write("h_val\t%d\t\n" % i)
        real = subprocess.run([replay, inputs], stdout=subprocess.PIPE, text=True, cwd=out).stdout.split()
        same = len(real) == 2 and real[0] == "OK" and predicted == [real[1]]
        bad += not same
        print("%s: %d instructions, %d bytes of output, %s" %
              (n, res["instructions"], len(real[-1]) // 2 if real else 0, "same" if same else "DIFFERENT"), flush=True)
    subprocess.run(["rm", "-rf", work])
    print("%d files, %d different" % (len(names), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
