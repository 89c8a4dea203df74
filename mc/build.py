#!/usr/bin/env python3
"""Builds the harness for one property into a work directory: build.py ID WORKDIR"""
import json, os, shutil, subprocess, sys, glob
prop, work = sys.argv[1], sys.argv[2]
verif = os.environ.get("VERIF_DIR", "/verif")
repo = os.environ.get("VERIF_REPO", "/repo")

def overlay(mapping, name):
    p = os.path.join(work, name)
    json.dump({"Replace": mapping}, open(p, "w"))
    return p

def kagome():
    """A module file with a copy of the kagome.ipadic dependency which resets
    the cost of a reused lattice node (KNOWN_FINDINGS.txt, C13); otherwise the
    same word may be read differently by chance, in every check. With Pick set,
    the copy keeps the original behaviour with a controlled pool."""
    mod = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/ikawaha/kagome.ipadic"], cwd=repo, capture_output=True, text=True).stdout.strip()
    f = os.path.join(mod, "internal/lattice/lattice.go")
    if not mod or not os.path.exists(f): return [], ""
    s = open(f, encoding="utf-8").read()
    node = open(os.path.join(mod, "internal/lattice/node.go"), encoding="utf-8").read()
    if s.count("\tn.Prev = nil\n") != 1 or s.count("nodePool.Put(la.list[i][j])") != 1 or node.count("return nodePool.Get().(*node)") != 1: return [], ""
    d = os.path.join(work, "kagome")
    shutil.copytree(mod, d, dirs_exist_ok=True, ignore=shutil.ignore_patterns("_sample", "cmd", "*_test.go"))
    for r, ds, fs in os.walk(d):
        for n in ds + fs: os.chmod(os.path.join(r, n), 0o755)
    def put(name, text): open(os.path.join(d, name), "w", encoding="utf-8").write(text)
    put("internal/lattice/lattice.go", s.replace("\tn.Prev = nil\n", "\tn.Prev = nil\n\tif Pick == nil {\n\t\tn.Cost = 0\n\t}\n").replace("nodePool.Put(la.list[i][j])", "putNode(la.list[i][j])"))
    put("internal/lattice/node.go", node.replace("\treturn nodePool.Get().(*node)", """\tif Pick == nil {
		return nodePool.Get().(*node)
	}
	i := Pick(len(pooled))
	if i < 0 || i >= len(pooled) {
		return new(node)
	}
	n := pooled[i]
	pooled = append(pooled[:i], pooled[i+1:]...)
	return n""") + """
// Pick chooses which of so many pooled nodes is reused.
var Pick func(int) int
var pooled []*node

// SetPick gives an empty pool into the caller's hands.
func SetPick(f func(int) int) { Pick, pooled = f, nil }

func putNode(n *node) {
	if Pick == nil {
		nodePool.Put(n)
		return
	}
	pooled = append(pooled, n)
}
""")
    put("tokenizer/pool.go", """package tokenizer

import "github.com/ikawaha/kagome.ipadic/internal/lattice"

// SetPick gives the pool of nodes into the caller's hands.
func SetPick(f func(int) int) { lattice.SetPick(f) }
""")
    m = os.path.join(work, "go.mod")
    shutil.copy(os.path.join(repo, "go.mod"), m); shutil.copy(os.path.join(repo, "go.sum"), os.path.join(work, "go.sum"))
    open(m, "a").write("\nreplace github.com/ikawaha/kagome.ipadic => %s\n" % d)
    return ["-modfile", m], "verifkagome"

def run(cmd, **kw):
    if cmd[:2] == ["go", "build"]: cmd = cmd[:2] + modfile + cmd[2:]
    env = dict(os.environ); env.update(kw.pop("env", {}))
    r = subprocess.run(cmd, cwd=repo, env=env)
    if r.returncode: sys.exit(r.returncode)

def pkg(src, dst):
    return {os.path.join(repo, "internal/verifmc", dst, os.path.basename(f)): f
            for f in sorted(glob.glob(os.path.join(verif, "mc", src, "*.go")))}

def build_core(out="mc", tags="", extra=None, flags=()):
    m = pkg("core", "core")
    for p in ("order", "sched", "zsync", "zatomic"): m.update(pkg(p, p))
    if extra: m.update(extra)
    ov = overlay(m, "core.json")
    run(["go", "build"] + list(flags) + ["-overlay", ov, "-tags", kagometag + " " + tags, "-o", os.path.join(work, out), "./internal/verifmc/core"])

def cyr():
    """Writes out the table of the CyrTranslit file, the origin of dict.json."""
    ns = {}
    exec(open(os.path.join(repo, "translit/cyrillic/cyrtranslit-mapping.v1.1.py"), encoding="utf-8").read(), ns)
    json.dump(ns["TRANSLIT_DICT"], open(os.path.join(work, "cyr.json"), "w"))

def build_tools(ov=None, at=""):
    o = ["-overlay", ov] if ov else []
    run(["go", "build"] + o + ["-o", os.path.join(work, at + "hangulize"), "./cmd/hangulize"])
    run(["go", "build"] + o + ["-o", os.path.join(work, at + "manifest"), "./cmd/manifest.json"])

def rewrite(*flags):
    """Instruments the module's sources out of tree; returns the replacements."""
    d = os.path.join(work, "rw"); os.makedirs(d, exist_ok=True)
    ov = os.path.join(work, "rw.json")
    run(["go", "run", os.path.join(verif, "mc/rewrite/main.go"), d, ov] + list(flags))
    return json.load(open(ov))["Replace"]

modfile, kagometag = kagome()
cyr()
if prop == "C14":
    m = rewrite("-maps")
    build_core(extra=m)
    m.update(pkg("order", "order"))
    build_tools(overlay(m, "tools.json"))
elif prop == "C15":
    m = rewrite("-sync")
    for f in glob.glob(os.path.join(verif, "mc/specs/*.hsl")):
        m[os.path.join(repo, "specs", os.path.basename(f))] = f
    build_core(extra=m, flags=["-race"])
elif prop == "C28":
    m = {os.path.join(repo, "specs", os.path.basename(f)): f for f in glob.glob(os.path.join(verif, "mc/specs/*.hsl"))}
    build_core(extra=m)
    ov = overlay(m, "wasm.json")
    for p in ("hangulize", "cyrillic.translit", "furigana.translit", "pinyin.translit"):
        run(["go", "build", "-overlay", ov, "-o", os.path.join(work, p + ".wasm"), "./cmd/" + p + ".wasm"], env={"GOOS": "js", "GOARCH": "wasm"})
elif prop in ("C29", "C30"):
    build_core()
    w = os.path.join(work, "web"); os.makedirs(w, exist_ok=True)
    run(["node", os.path.join(verif, "mc/js/bundle.js"), os.path.join(repo, "web/src"), w] + ["page"] * (prop == "C30"))
else:
    build_core()
if prop in ("C24", "C25", "C26", "all", "ANY"):
    build_tools()
if prop in ("C26", "all", "ANY"):
    import sets
    from concurrent.futures import ThreadPoolExecutor
    def one(n, files):
        d = os.path.join(work, "set%d" % n); os.makedirs(d + "/specs", exist_ok=True)
        m = {f: "" for f in glob.glob(os.path.join(repo, "specs/*.hsl"))}
        for name, text in files.items():
            open(d + "/specs/" + name, "w", encoding="utf-8").write(text)
            m[os.path.join(repo, "specs", name)] = d + "/specs/" + name
        build_tools(overlay(m, "set%d.json" % n), "set%d/" % n)
    with ThreadPoolExecutor(4) as ex:
        for r in [ex.submit(one, n, s) for n, s in enumerate(sets.sets())]: r.result()
