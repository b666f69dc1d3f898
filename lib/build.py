"""Builds the IR dumper and lowers harness translation units against /repo's current headers."""
import hashlib, os, re, subprocess, sys, tempfile, shutil
import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang++-18"
CACHE = os.path.join(VERIF, ".cache")


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def flags():
    """compile flags of the library itself, from its build files (the definitions that select code)"""
    return ["-std=c++20", "-I" + REPO, "-DRPP_RELWITHDEBINFO_BUILD", "-fno-exceptions", "-fno-rtti"]


_irdump = None


def irdump():
    global _irdump
    if _irdump:
        return _irdump
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(CACHE, "irdump-" + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=CACHE)
        os.close(fd)
        cx = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        ld = subprocess.check_output(["llvm-config-18", "--ldflags", "--libs"], text=True).split()
        cx = [c for c in cx if not c.startswith("-std=")]
        rc, o = run([CLANG, "-std=c++17", "-O1", "-fno-rtti"] + cx + [src, "-o", tmp] + ld)
        if rc:
            os.unlink(tmp)
            raise BuildError("cannot build the IR dumper:\n" + o[-3000:])
        os.chmod(tmp, 0o755)
        os.rename(tmp, out)
    _irdump = out
    return out


DEFAULT_OPAQUE = ["^void rpp::Log::log<", "^rpp::Log::", "rpp::Log::Location"]

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="rppverif.")
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def compile_bc(src, extra=(), name=None, opt=("-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only")):
    name = name or os.path.splitext(os.path.basename(src))[0]
    bc = os.path.join(tmpdir(), name + ".bc")
    rc, o = run([CLANG] + flags() + list(opt) + list(extra) + ["-I" + os.path.join(VERIF, "harness"),
                 "-emit-llvm", "-c", src, "-o", bc])
    if rc:
        raise BuildError("cannot compile %s against %s:\n%s" % (src, REPO, o[-4000:]))
    return bc


def harness(name, opaque=(), roots="^h_", extra=(), defs=(), variant="", passes=None, default_opaque=True):
    src = os.path.join(VERIF, "harness", name + ".cpp")
    return dump(compile_bc(src, ["-D" + d for d in defs] + list(extra), name + variant), opaque, roots, passes,
                default_opaque)


def dump(bc, opaque=(), roots="^h_", passes=None, default_opaque=True):
    js = bc[:-3] + ".json"
    cmd = [irdump(), bc, js, "--roots", roots]
    for o in (DEFAULT_OPAQUE if default_opaque else []) + list(opaque):
        cmd += ["--opaque", o]
    if passes:
        cmd += ["--passes", passes]
    rc, o = run(cmd)
    if rc:
        raise BuildError("irdump failed on %s:\n%s" % (bc, o[-3000:]))
    return ir.Mod(js)


def syntax_only(src_text, extra=()):
    """does this translation unit type-check against the current tree? (rc, diagnostics)"""
    p = os.path.join(tmpdir(), "w_%s.cpp" % hashlib.sha256(src_text.encode()).hexdigest()[:10])
    open(p, "w").write(src_text)
    return run([CLANG] + flags() + list(extra) + ["-I" + os.path.join(VERIF, "harness"), "-fsyntax-only",
               "-Wno-everything", p])


def layouts(src, defs=(), names=r"L_\w+$", extra=()):
    """record layouts of the structs named L_* in a harness: {L_x: {"field.path": (offset, type)}}"""
    rc, o = run([CLANG] + flags() + ["-D" + d for d in defs] + ["-I" + os.path.join(VERIF, "harness"), "-w",
                "-fsyntax-only", "-Xclang", "-fdump-record-layouts"] + list(extra) + [src])
    if rc:
        raise BuildError("record layouts of %s: %s" % (src, o[-3000:]))
    out = {}
    for chunk in o.split("*** Dumping AST Record Layout"):
        lines = [l for l in chunk.splitlines() if re.match(r"\s*[\d:-]+ \|", l)]
        if not lines:
            continue
        m = re.match(r"\s*0 \| (?:struct|union|class) (\S.*)$", lines[0])
        if not m or not re.match(names, m.group(1)):
            continue
        rec = {}
        sz = re.search(r"\[sizeof=(\d+)", chunk)
        stack = []
        for l in lines[1:]:
            m = re.match(r"\s*(\d+)(?::[\d-]+)? \|(\s+)(.*)$", l)
            if not m:
                continue
            off, ind, rest = int(m.group(1)), len(m.group(2)), m.group(3).strip()
            rest = re.sub(r"\s*\((?:base|primary base|empty|virtual base)\)", "", rest)
            nm = re.search(r"([A-Za-z_]\w*)$", rest)
            ty = rest[: nm.start()].strip() if nm else rest
            while stack and stack[-1][0] >= ind:
                stack.pop()
            if " (anonymous" in rest:
                nm = None
            name = nm.group(1) if nm else "?"
            stack.append((ind, name))
            rec[".".join(s[1] for s in stack)] = (off, ty)
        if names[0] != "L" and sz:
            rec["#size"] = (int(sz.group(1)), "")
        out[re.match(r"\s*0 \| (?:struct|union|class) (\S.*)$", lines[0]).group(1)] = rec
    return out
