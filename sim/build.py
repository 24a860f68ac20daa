#!/usr/bin/env python3
"""Builds the simulation binary from the current tree of the repository.

build.py SRC OUT : SRC is a finch source tree (read only), OUT an empty
directory that gets the generated modules and the binary OUT/check.
"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
NODES = 4
ENV = dict(os.environ)


def env():
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True).stdout
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k in ("PATH", "GOROOT", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GOWORK", "GOPATH", "GOMODCACHE", "GOCACHE", "HOME"):
                    e[k] = v
    except OSError:
        pass
    e.setdefault("GOFLAGS", "-mod=mod")
    e["GOWORK"] = "off"
    e["GOPROXY"] = "off"
    e["GOTOOLCHAIN"] = "local"
    return e


def run(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write("build: %s (in %s) failed:\n%s\n%s\n" % (" ".join(cmd), cwd, p.stdout[-6000:], p.stderr[-6000:]))
        raise SystemExit(4)
    return p.stdout


def main():
    src, out = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
    e = env()
    t0 = time.time()
    cp = os.path.join(out, "src")
    gen = os.path.join(out, "gen")
    os.makedirs(cp)
    os.makedirs(gen)
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, src)
        dirs[:] = sorted(x for x in dirs if not x.startswith((".", "_")) and x not in ("docs", "testdata", "vendor", "node_modules"))
        for f in files:
            if (f.endswith(".go") and not f.endswith("_test.go")) or (rel == "." and f in ("go.mod", "go.sum")):
                os.makedirs(os.path.join(cp, rel), exist_ok=True)
                shutil.copyfile(os.path.join(d, f), os.path.join(cp, rel, f))
    rw = os.path.join(out, "rewrite")
    run(["go", "build", "-o", rw, "."], os.path.join(HERE, "rewrite"), e)
    over = os.path.join(HERE, "simrt", "over")
    deps = run(["go", "list", "-deps", "-f", "{{with .Module}}{{if not .Main}}{{.Path}} {{.Version}}{{end}}{{end}}", "./bin/finch"], cp, e)
    mods = sorted(set(l.strip() for l in deps.splitlines() if l.strip()))
    gosum = open(os.path.join(cp, "go.sum")).read()
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(run, [rw, "-src", cp, "-out", gen, "-over", over, "-n", str(NODES)], out, e)
        b = ex.submit(run, [rw, "-mode", "lib", "-src", cp, "-out", gen, "-over", over], out, e)
        a.result(); b.result()
    req = "require (\n" + "".join("\t%s\n" % m for m in mods) + ")\n"

    def gomod(name, ver, extra=""):
        d = os.path.join(gen, name)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write("module %s\n\ngo %s\n\n%s%s" % (name, ver, req, extra))
        with open(os.path.join(d, "go.sum"), "w") as f:
            f.write(gosum)

    gomod("simsql", "1.27")
    for i in range(NODES):
        gomod("n%d" % i, "1.20")
    h = os.path.join(gen, "h")
    os.makedirs(h)
    for f in sorted(os.listdir(os.path.join(HERE, "harness"))):
        if f.endswith(".go"):
            shutil.copyfile(os.path.join(HERE, "harness", f), os.path.join(h, f))
    for i in range(NODES):
        with open(os.path.join(h, "zz_bind%d.go" % i), "w") as f:
            f.write(BIND.replace("nX", "n%d" % i).replace("#I", str(i)))
    extra = "require (\n\tsimrt v0.0.0\n\tsimsql v0.0.0\n" + "".join("\tn%d v0.0.0\n" % i for i in range(NODES)) + ")\n"
    extra += "replace simrt => %s\nreplace simsql => ../simsql\n" % os.path.join(HERE, "simrt")
    extra += "".join("replace n%d => ../n%d\n" % (i, i) for i in range(NODES))
    gomod("h", "1.27", extra)
    run(["go", "build", "-o", os.path.join(out, "check"), "."], h, e)
    sys.stderr.write("build: %.1f s\n" % (time.time() - t0))


BIND = '''package main

import (
	finch "nX"
	fmain "nX/bin/finch"
	"nX/simall"
	"nX/stats"
	"simsql/sql"
)

type recFactorynX struct{}

type recReporternX struct{ r *Recorder }

func (r recReporternX) Report(from []stats.Instance) { r.r.Report(from) }
func (r recReporternX) Stop()                        { r.r.Stop() }

func (recFactorynX) Make(name string, opts map[string]string) (stats.Reporter, error) {
	return recReporternX{newRecorder(opts)}, nil
}

func init() {
	bindings[#I] = Binding{
		Reset: simall.Reset,
		Main:  fmain.Main,
		Setup: func() {
			finch.ModifyDB = func(db *sql.DB, rl finch.RunLevel) { noteDB(rl.Stage, rl.StageName, rl.ExecGroup, rl.ClientGroup) }
			stats.Register("simrec", recFactorynX{})
		},
	}
}
'''

main()
