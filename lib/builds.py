"""Build the harness against /repo's working tree in each configuration."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess


class Builder:
    def __init__(self, repo, harness, scratch, log):
        self.repo, self.harness, self.scratch, self.log = repo, harness, scratch, log
        self.done = {}

    def env(self, **extra):
        e = dict(os.environ)
        e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOENV="off",
                 GOWORK="off", GO111MODULE="on", CGO_ENABLED="1", GONOSUMDB="*", GOSUMDB="off")
        e.pop("GOARCH", None)
        e.pop("GOOS", None)
        e.setdefault("HOME", "/root")
        e.setdefault("GOCACHE", "/root/.cache/go-build")
        # go's cache does not look at files that C code includes
        h = hashlib.sha256()
        for d in ("cref",):
            for r, _, fs in sorted(os.walk(os.path.join(self.repo, d))):
                for f in sorted(fs):
                    h.update(f.encode())
                    h.update(open(os.path.join(r, f), "rb").read())
        for r, _, fs in sorted(os.walk(self.harness)):
            for f in sorted(fs):
                if f.endswith((".c", ".h")):
                    h.update(open(os.path.join(r, f), "rb").read())
        self.src_hash = h.hexdigest()[:16]
        e["CGO_CFLAGS"] = "-O2 -g -DVERIF_SRC_HASH=0x%s -I%s" % (self.src_hash, os.path.join(self.repo, "cref"))
        e.update(extra)
        return e

    def build(self, names):
        errors = {}
        mod = self.modfile()
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for n, (path, err) in zip(names, ex.map(lambda n: self.one(n, mod), names)):
                self.done[n] = path
                if err is not None:
                    errors[n] = err
        return self.done, errors

    def modfile(self):
        # The go.mod of the harness, pointing at the tree under test.
        src = open(os.path.join(self.harness, "go.mod")).read()
        src = src.replace("=> /repo", "=> " + self.repo)
        p = os.path.join(self.scratch, "h.mod")
        open(p, "w").write(src)
        s = os.path.join(self.harness, "go.sum")
        if os.path.exists(s):
            shutil.copy(s, os.path.join(self.scratch, "h.sum"))
        return p

    def one(self, name, mod):
        go, args, env, pkg = "go", [], {}, "./cmd/vh"
        overlay = None
        tags = []
        parts = name.split("-")
        for p in parts:
            if p == "default":
                pass
            elif p == "generic":
                tags += ["forcegeneric"]
            elif p == "race":
                args += ["-race"]
            elif p == "386":
                env.update(GOARCH="386", CGO_ENABLED="0")
            elif p == "asm":
                overlay, err = self.asm_overlay()
                if overlay is None:
                    return None, err
            elif p == "instr":
                overlay, err = self.instr_overlay("forcegeneric" if "generic" in parts else "")
                if overlay is None:
                    return None, err
                tags += ["vinstr"]
            elif p == "guide":
                overlay, err = self.instr_overlay("forcegeneric" if "generic" in parts else "", "guide")
                if overlay is None:
                    return None, err
                tags += ["vguide"]
            elif p == "sched":
                overlay, err = self.instr_overlay("forcegeneric" if "generic" in parts else "", "sched")
                if overlay is None:
                    return None, err
                tags += ["vsched"]
            elif p.startswith("go1"):
                go = p
            elif p == "cover":
                args += ["-cover", "-covermode=atomic",
                         "-coverpkg=github.com/bwesterb/go-ristretto,github.com/bwesterb/go-ristretto/edwards25519"]
            elif p == "crefgo":
                pkg = "./cmd/vcref"
            elif p == "crefc":
                pkg = "./cmd/vcrefc"
                # all C sources of the reference, as one unit
                inc = os.path.join(self.scratch, "crefinc")
                os.makedirs(inc, exist_ok=True)
                srcs = sorted(f for f in os.listdir(os.path.join(self.repo, "cref")) if f.endswith(".c"))
                open(os.path.join(inc, "verif_cref_all.h"), "w").write(
                    "".join('#include "%s"\n' % os.path.join(self.repo, "cref", f) for f in srcs))
                env["CGO_CFLAGS"] = self.env()["CGO_CFLAGS"] + " -I" + inc
            elif p == "asan":
                args += ["-asan"]
            else:
                return None, "unknown configuration " + name
        out = os.path.join(self.scratch, "bin-" + name)
        cmd = [go, "build", "-buildvcs=false", "-modfile", mod] + args
        if tags:
            cmd += ["-tags", ",".join(tags)]
        if overlay:
            cmd += ["-overlay", overlay]
        cmd += ["-o", out, pkg]
        p = subprocess.run(cmd, cwd=self.harness, env=self.env(**env),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            return None, " ".join(cmd) + "\n" + p.stdout.decode("utf8", "replace")[-4000:]
        if name.startswith("386"):
            # Can this kernel run it?
            q = subprocess.run([out, "-h"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if q.returncode not in (0, 2):
                return None, "386 binaries do not run here"
        if "asan" in parts:
            q = subprocess.run([out, "-h"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               env=self.env(ASAN_OPTIONS="detect_leaks=0:exitcode=67"))
            if q.returncode not in (0, 2):
                return None, "address sanitizer does not run here"
        return out, None

    def instr_overlay(self, tags, kind="instr"):
        """Copies of the library's sources that record the path taken, or guide a search."""
        out = os.path.join(self.scratch, kind + "_" + (tags or "default"))
        os.makedirs(out, exist_ok=True)
        tool = os.path.join(out, kind)
        for cmd in (["go", "build", "-buildvcs=false", "-modfile", os.path.join(self.scratch, "h.mod"), "-o", tool, "./cmd/" + kind],
                    [tool, self.repo, tags, out]):
            p = subprocess.run(cmd, cwd=self.harness, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                return None, " ".join(cmd) + "\n" + p.stdout.decode("utf8", "replace")[-2000:]
        return os.path.join(out, "overlay.json"), None

    def asm_overlay(self):
        """Turn on the amd64 assembly backend, which is only used by Go < 1.13.

        Only build constraints change: field_amd64.go loses its !go1.13 and
        field_mul64.go gets an unsatisfiable constraint."""
        ed = os.path.join(self.repo, "edwards25519")
        rep = {}

        def constraint(fn, new):
            src = open(os.path.join(ed, fn)).read()
            src = re.sub(r"(?m)^//\s*\+build.*\n", "", src)
            src = re.sub(r"(?m)^//go:build.*\n", "", src)
            dst = os.path.join(self.scratch, "ov_" + fn)
            open(dst, "w").write("//go:build %s\n\n%s" % (new, src))
            rep[os.path.join(ed, fn)] = dst

        try:
            constraint("field_amd64.go", "amd64 && !forcegeneric")
            constraint("field_mul64.go", "never_built")
            sp = os.path.join(ed, "field_amd64.s")
            first = open(sp).read()
            if re.search(r"(?m)^//(go:build|\s*\+build)", first):
                constraint("field_amd64.s", "amd64 && !forcegeneric")
        except OSError as e:
            return None, "assembly backend: %s" % e
        p = os.path.join(self.scratch, "asm_overlay.json")
        json.dump({"Replace": rep}, open(p, "w"))
        return p, None
