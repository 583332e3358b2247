#!/usr/bin/env python3
"""Builds the harness and the instrumented and plain commands from /repo's working tree.

usage: build.py BUILDDIR mc | BUILDDIR bin NAME...

Nothing is written to /repo: the harness package and all instrumentation of the standard library go in
through 'go build -overlay'. Names of binaries:
  coin ofx2coin csv2coin gc2coin gen2coin coin2html   as they are (coin2html without its embedded page)
  NAME+fault    file system calls are numbered and one of them can fail, fall short or be the last one
  NAME+sched    the starting point of every table (map) iteration is chosen by the harness
  NAME+net      what is asked of the network is answered from a file
  viewer.js     the viewer of the page of coin2html, with its driver and body.html
  NAME+rand     every random choice of math/rand is chosen by the harness
"""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO_DIR", "/repo")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="0", TZ="UTC")
ENV.setdefault("HOME", "/root")

def goroot():
    return subprocess.check_output(["go", "env", "GOROOT"], cwd=REPO, env=ENV, text=True).strip()

def sub1(text, pat, rep, what):
    out, n = re.subn(pat, rep, text, count=1, flags=re.M)
    if n != 1:
        sys.exit(f"cannot instrument {what}: pattern not found")
    return out

def patched(build, tag, rel, fn):
    src = os.path.join(goroot(), "src", rel)
    text = fn(open(src).read())
    dst = os.path.join(build, "overlay", tag, rel.replace("/", "__"))
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(text)
    return {src: dst}

def patch_exit(t):
    t = sub1(t, r"^func Exit\(code int\) \{", "// VerifExit, if set, is called instead of ending the process.\nvar VerifExit func(int)\n\nfunc Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}", "os.Exit")
    return t

SCHED = lambda: open(os.path.join(VERIF, "tools", "sched.go.txt")).read()
FAULT = lambda: open(os.path.join(VERIF, "tools", "fault.go.txt")).read()
RAND = lambda: open(os.path.join(VERIF, "tools", "rand.go.txt")).read()
NET = lambda: open(os.path.join(VERIF, "tools", "net.go.txt")).read()

def overlay_for(build, variant):
    o = {}
    root = goroot()
    if variant == "sched":
        def p_table(t):
            t = sub1(t, r"^\tit\.entryOffset = rand\(\)\n\tit\.dirOffset = rand\(\)", "\tit.entryOffset, it.dirOffset = verifIter(m.used)", "map iteration")
            return t
        def p_map(t):
            return re.sub(r"m\.seed = uintptr\(rand\(\)\)", "m.seed = uintptr(verifSeed())", t)
        o.update(patched(build, variant, "internal/runtime/maps/table.go", p_table))
        o.update(patched(build, variant, "internal/runtime/maps/map.go", p_map))
        f = os.path.join(build, "overlay", variant, "zz_sched.go")
        open(f, "w").write(SCHED())
        o[os.path.join(root, "src/internal/runtime/maps/zz_verif.go")] = f
    elif variant == "fault":
        def p_sys(t):
            for name, args in [("Syscall", "trap, a1, a2, a3, 0"), ("Syscall6", "trap, a1, a2, a3, a4")]:
                sig = re.search(r"^func %s\(trap, [a1-9, ]* uintptr\) \(r1, r2 uintptr, err Errno\) \{\n" % name, t, flags=re.M)
                if not sig:
                    sys.exit("cannot instrument syscall." + name)
                end = t.index("\n}\n", sig.end())
                body = t[sig.end():end]
                if not body.endswith("\treturn"):
                    sys.exit("cannot instrument syscall." + name)
                body = (f"\tif verifOn {{\n\t\tif r, e, done := verifPre({args}); done {{\n\t\t\treturn r, 0, e\n\t\t}}\n\t}}\n" + body[:-len("\treturn")]
                        + "\tif verifOn {\n\t\tverifPost(trap, a1, a2, r1, err)\n\t}\n\treturn")
                t = t[:sig.end()] + body + t[end:]
            return t
        o.update(patched(build, variant, "syscall/syscall_linux.go", p_sys))
        f = os.path.join(build, "overlay", variant, "zz_fault.go")
        open(f, "w").write(FAULT())
        o[os.path.join(root, "src/syscall/zz_verif.go")] = f
    elif variant == "rand":
        def p_rand(t):
            t = sub1(t, r"^func \(r \*Rand\) Intn\(n int\) int \{", "func (r *Rand) Intn(n int) int {\n\tif v, ok := verifChoice(n); ok {\n\t\treturn v\n\t}", "rand.Intn")
            t = sub1(t, r"^func \(r \*Rand\) Int63\(\) int64 \{ return r\.src\.Int63\(\) \}", "func (r *Rand) Int63() int64 { if v, ok := verifRaw(); ok { return v }; return r.src.Int63() }", "rand.Int63")
            return t
        o.update(patched(build, variant, "math/rand/rand.go", p_rand))
        f = os.path.join(build, "overlay", variant, "zz_rand.go")
        open(f, "w").write(RAND())
        o[os.path.join(root, "src/math/rand/zz_verif.go")] = f
    elif variant == "net":
        def p_net(t):
            return sub1(t, r"^func \(t \*Transport\) RoundTrip\(req \*Request\) \(\*Response, error\) \{", "func (t *Transport) RoundTrip(req *Request) (*Response, error) {\n\tif r, err, done := verifAnswer(req); done {\n\t\treturn r, err\n\t}", "http.Transport")
        o.update(patched(build, variant, "net/http/roundtrip.go", p_net))
        f = os.path.join(build, "overlay", variant, "zz_net.go")
        open(f, "w").write(NET())
        o[os.path.join(root, "src/net/http/zz_verif.go")] = f
    return o

def gobuild(build, out, pkg, over, tag):
    f = os.path.join(build, f"overlay-{tag}.json")
    json.dump({"Replace": over}, open(f, "w"))
    r = subprocess.run(["go", "build", "-overlay", f, "-o", out, pkg], cwd=REPO, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.exit(f"build of {pkg} ({tag}) failed:\n{r.stdout}")

def html_overlay(build):
    """coin2html embeds the output of a webpack build that cannot be made here: blank the directives."""
    o = {}
    d = os.path.join(REPO, "cmd/coin2html")
    for n in os.listdir(d):
        if n.endswith(".go"):
            t = re.sub(r"^//go:embed .*$", "//", open(os.path.join(d, n)).read(), flags=re.M)
            f = os.path.join(build, "overlay", "html_" + n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").write(t)
            o[os.path.join(d, n)] = f
    return o

NODE = os.environ.get("NODE_TOOLS", "/opt/veriftools/node/node_modules")

def viewer(build, out):
    """The page's viewer (cmd/coin2html/js): its TypeScript bundled with esbuild, D3 replaced by /verif/viewer/d3.js."""
    js = os.path.join(REPO, "cmd/coin2html/js")
    body = open(os.path.join(js, "body.html")).read()
    scripts = re.findall(r"""<script[^>]*\ssrc=["']?([^"'\s>]+)""", body) or ["src/ui.ts"]
    shutil.copy(os.path.join(js, "body.html"), out + ".html")
    d = os.path.join(VERIF, "viewer")
    esbuild = os.path.join(NODE, ".bin/esbuild")
    entry = "".join(f"import {json.dumps('./' + s)};\n" for s in scripts)
    names = ["d3"] + ["d3-" + n for n in "selection time scale axis scale-chromatic hierarchy array time-format".split()]
    common = ["--bundle", "--log-level=error", "--target=es2022"]
    r = subprocess.run([esbuild, *common, "--format=iife", "--outfile=" + out, "--loader=ts", "--sourcefile=entry.ts"]
                       + [f"--alias:{n}={d}/d3.js" for n in names], input=entry, cwd=js, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode == 0:
        r = subprocess.run([esbuild, *common, "--platform=node", "--format=cjs", "--outfile=" + out + ".driver.cjs", os.path.join(d, "driver.js")],
                           cwd=d, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.exit(f"build of the viewer failed:\n{r.stdout}")

def main():
    build = os.path.abspath(sys.argv[1])
    os.makedirs(os.path.join(build, "bin"), exist_ok=True)
    os.makedirs(os.path.join(build, "overlay"), exist_ok=True)
    if sys.argv[2] == "mc":
        o = patched(build, "mc", "os/proc.go", patch_exit)
        d = os.path.join(VERIF, "mc")
        for n in sorted(os.listdir(d)):
            if n.endswith(".go"):
                o[os.path.join(REPO, "zz_verif/mc", n)] = os.path.join(d, n)
        gobuild(build, os.path.join(build, "mc"), "./zz_verif/mc", o, "mc")
        return
    # the files laid over are written once, before the builds that share them start
    variants = {v for n in sys.argv[3:] for v in n.split("+")[1:] if v}
    overlays = {v: overlay_for(build, v) for v in sorted(variants)}
    html = html_overlay(build) if any(n.split("+")[0] == "coin2html" for n in sys.argv[3:]) else {}
    def one(name):
        if name == "viewer.js":
            return viewer(build, os.path.join(build, "bin", name))
        cmd, _, variant = name.partition("+")
        o = {}
        if cmd == "coin2html":
            o.update(html)
        for v in filter(None, variant.split("+")):
            o.update(overlays[v])
            # the driver that takes the choices from the environment
            driver = {"rand": "tools/gen.go.txt", "sched": "tools/schedmain.go.txt"}.get(v)
            if driver:
                o[os.path.join(REPO, "cmd", cmd, f"aa_verif_{v}.go")] = os.path.join(VERIF, driver)
        gobuild(build, os.path.join(build, "bin", name), "./cmd/" + cmd, o, name)
    with cf.ThreadPoolExecutor(4) as ex:
        for r in [ex.submit(one, n) for n in sys.argv[3:]]:
            r.result()

main()
