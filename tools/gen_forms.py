#!/usr/bin/env python3
"""Writes harness/form_N.cpp: which statically typed chains h_form judges (run by hand; the output is committed)."""
import os, random, re
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
t = open(os.path.join(H, "form.hpp")).read()
src = re.findall(r"inline auto (s_\w+)\(", t)
ops = re.findall(r"inline auto (o_\w+)\(", t)
r = random.Random(5)
N = 8
chains = []
hot = ["s_probe", "s_pub", "s_ser", "s_direct", "s_refc", "s_rep"]
for i, o in enumerate(ops):
    chains.append((i % 6 == 0, [hot[i % len(hot)], o]))
for i, s in enumerate(src):
    chains.append((i % 2 == 0, [s]))
    chains.append((False, [s, ops[(7 * i) % len(ops)]]))
p = ops[:]
for k in range(1):
    r.shuffle(p)
    for i, o in enumerate(p):
        chains.append((False, [r.choice(src), o, p[(i + 1) % len(p)]]))
for k in range(16):
    chains.append((k % 4 == 0, ["s_probe"] + r.sample(ops, 3)))
tu = [[] for _ in range(N)]
for i, (full, c) in enumerate(chains):
    tu[i % N].append('        v.push_back(chain<%s, %s>("%s"));' % ("true" if full else "false", ", ".join("&" + x for x in c), " | ".join(x[2:] for x in c)))
for i in range(N):
    open(os.path.join(H, "form_%d.cpp" % i), "w").write("// written by tools/gen_forms.py\n#include \"form.hpp\"\n\nnamespace fm\n{\n    void chains_%d(std::vector<Chain>& v)\n    {\n%s\n    }\n} // namespace fm\n" % (i, "\n".join(tu[i])))
print(len(chains), "chains")
