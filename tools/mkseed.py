#!/usr/bin/env python3
"""Make /verif/seeded/<id> from a spec (python file defining SEEDS) and confirm it in a scratch copy of /repo.
usage: mkseed.py spec.py [id ...]"""
import os, sys, subprocess, json, shutil, importlib.util
V = "/verif"; R = "/repo"; S = "/tmp/vtscratch/repo"
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(S):
    os.makedirs(os.path.dirname(S)); sh(f"cp -a {R} {S}")
sh(f"git -C {S} checkout -q -- . && git -C {S} fetch -q {R} HEAD && git -C {S} reset -q --hard FETCH_HEAD")
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
MPI=/usr/lib/x86_64-linux-gnu/openmpi/include
cp -r "$D/inc" "$T/inc"
clang++ -no-pie -std=c++17 -O1 -g -w @FLAGS@ -DJSON_USE_IMPLICIT_CONVERSIONS=1 -I"$T/inc" -I./lib/CLI -I./src -I./lib/json/include -I./lib/brotli/c/include -I./lib/fmt/include \\
  -isystem $MPI -isystem $MPI/openmpi -isystem ./lib/EngFormat-Cpp/include -isystem ./lib/yaml-cpp/include -I./lib/context/src -I./lib/libfort/lib \\
  "$D/demo.cc" "$D/inc/stubs.cc" @SRCS@ -Wl,--unresolved-symbols=ignore-all -o "$T/demo" @LIBS@ || exit 3
timeout 60 "$T/demo"
'''
for s in m.SEEDS:
    if want and s["id"] not in want: continue
    d = f"{V}/seeded/{s['id']}"
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d + "/inc")
    for f, old, new in s["edits"]:
        p = f"{S}/{f}"; t = open(p).read()
        assert t.count(old) == s.get("count", 1), (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh(f"git -C {S} diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.copytree(V + "/config/" + ("vt" if s.get("config", "") == "" else "vt-" + s["config"] + "/vt"), d + "/inc/vt")
    shutil.copytree(V + "/magistrate/checkpoint", d + "/inc/checkpoint")
    shutil.copy(V + "/tools/seed_stubs.cc", d + "/inc/stubs.cc")
    open(d + "/demo.cc", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO.replace("@SRCS@", " ".join(s.get("srcs", []))).replace("@FLAGS@", s.get("flags", "")).replace("@LIBS@", s.get("libs", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = sh(f"bash {d}/demo.sh", cwd=R); b = sh(f"bash {d}/demo.sh", cwd=S)
    print(s["id"], "unchanged:", a.returncode, a.stdout[-300:].strip() if a.returncode else "", "| patched:", b.returncode, b.stdout[-200:].strip().replace("\n", " / "))
    sh(f"git -C {S} checkout -q -- .")
