"""Mechanical extraction of the C code under verification.

Every run preprocesses the files of /repo with `gcc -E` and applies only these rewrites
(nothing else; what reaches the verifier is the text the compiler compiles):

  R1  the anonymous union of object pointers inside `struct disir_context` becomes a struct
      (works round a CBMC simplifier defect with unions of pointers).  Drops: the members no
      longer alias, so code that reads a member other than the one written reads a NULL /
      unrelated pointer instead of a re-typed one.
  R2  allocation and formatting externals are renamed to vt_*  (see c/stubs.c, trusted base)
  R3  file-static functions that a unit names get external linkage
  R4  loop cuts: a `while` loop with a registered invariant is replaced by
      assert(INV); havoc; assume(INV); one iteration; assert(INV)   (see cuts.py)
  R5  `(char *)NULL + ((const char *)(p) - (char *)NULL)` (multimap.c) becomes `(char *)(p)`
"""
import os, re, subprocess

REPO = os.environ.get("VT_REPO", "/repo")
INC = ["include", "lib/include", "3rdparty/void-list/include", "3rdparty/void-multimap",
       "3rdparty", "lib", "lib/fslib", "plugins"]

def inc_flags():
    return ["-I%s/%s" % (REPO, i) for i in INC]

def source_path(name):
    for d in ("lib", "lib/fslib", "3rdparty/void-list", "3rdparty/void-multimap", "plugins"):
        p = os.path.join(REPO, d, name)
        if os.path.exists(p):
            return p
    return None

def all_sources():
    out = []
    for d in ("lib", "lib/fslib", "3rdparty/void-list", "3rdparty/void-multimap"):
        full = os.path.join(REPO, d)
        if os.path.isdir(full):
            for f in sorted(os.listdir(full)):
                if f.endswith(".c"):
                    out.append(os.path.join(full, f))
    return out

class ExtractError(Exception):
    pass

def preprocess(path, defs):
    cmd = ["gcc", "-E", "-D_GNU_SOURCE", "-DNDEBUG"] + ["-D%s" % d for d in defs] + inc_flags() + [
        "-I/verif/c", path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise ExtractError("preprocessing %s failed:\n%s" % (path, r.stderr))
    # glibc redirects (strtol -> __isoc23_strtol): drop the asm labels, the C names are what is modelled
    return re.sub(r'__asm__\s*\(\s*""\s*"__isoc\w+"\s*\)', "", r.stdout)

def rename_defs():
    return ["%s=vt_%s" % (n, n) for n in ("calloc", "malloc", "realloc", "strdup", "strndup", "free", "snprintf", "vsnprintf", "sprintf", "strtol", "strtoul", "strtod", "strcmp")]

UNION = re.compile(r"\bunion(\s*\{\s*struct disir_config\s*\*cx_config;)")

# R5: the const-removing detour through NULL arithmetic becomes a cast of the same pointer
_SP = r"\s*(?:#[^\n]*\n\s*)*"
NULLARITH = re.compile(_SP.join([r"\(char\s*\*\)", r"\(\(void \*\)0\)", r"\+", r"\(\(const char\s*\*\)", r"(\((?:[^()]|\([^()]*\))*\))", "-", r"\(char\s*\*\)", r"\(\(void \*\)0\)", r"\)"]))

def union_to_struct(text):
    return NULLARITH.sub(r"(char *)(\1)", UNION.sub(r"struct\1", text))

def match_brace(t, i):
    """index just past the brace/paren group opening at t[i] (skips strings, chars)."""
    o = t[i]; c = {"{": "}", "(": ")"}[o]
    depth = 0; n = len(t)
    while i < n:
        ch = t[i]
        if ch == '"' or ch == "'":
            j = i + 1
            while t[j] != ch:
                j += 2 if t[j] == "\\" else 1
            i = j + 1
            continue
        if ch == o: depth += 1
        elif ch == c:
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    raise ExtractError("unbalanced text")

def find_function(t, name):
    """(start of body '{', end of body) of the definition of name, or None"""
    for m in re.finditer(r"(?m)(?:^|[\s\*])%s\s*\(" % re.escape(name), t):
        p = t.index("(", m.end() - 1)
        e = match_brace(t, p)
        m2 = re.compile(r"\s*(#[^\n]*\n\s*)*\{").match(t, e)
        if m2:
            b = m2.end() - 1
            # must be at file scope
            return b, match_brace(t, b)
    return None

def unstatic(t, name):
    return re.sub(r"(?m)^static\s+((?:inline\s+)?[\w\s\*]{1,60}?\b%s\s*\()" % re.escape(name), r"\1", t)

WHILE = re.compile(r"\b(while|for|do)\b")

def strip_lines(t):
    return re.sub(r"(?m)^# \d+ .*$", lambda m: " " * len(m.group(0)), t)

def loops_in(body):
    """list of (kind, start, cond_start, cond_end, body_start, body_end) of loops, textual order."""
    out = []
    s = re.sub(r'"(?:\\.|[^"\\])*"', lambda m: '"' + "x" * (len(m.group(0)) - 2) + '"', body)
    for m in WHILE.finditer(s):
        if m.group(1) == "do":
            q = re.compile(r"\s*(#[^\n]*\n\s*)*\{").match(s, m.end())
            if not q:
                out.append(("do", m.start(), 0, 0, 0, 0)); continue
            be = match_brace(s, q.end() - 1)
            q2 = re.compile(r"\s*while\s*\(").match(s, be)
            if not q2:
                out.append(("do", m.start(), 0, 0, 0, 0)); continue
            cs = q2.end() - 1; ce = match_brace(s, cs)
            out.append(("dowhile", m.start(), cs, ce, q.end() - 1, be)); continue
        p = re.compile(r"\s*\(").match(s, m.end())
        if not p: continue
        cs = p.end() - 1
        ce = match_brace(s, cs)
        # "while (..);" of a do loop
        q = re.compile(r"\s*(#[^\n]*\n\s*)*").match(s, ce)
        bs = q.end()
        if s[bs] == ";":
            continue
        if s[bs] == "{":
            be = match_brace(s, bs)
        else:
            be = s.index(";", bs) + 1
        out.append((m.group(1), m.start(), cs, ce, bs, be))
    return out

ASSIGN = re.compile(r"(?<![\w.>\]])(\w+)\s*(?:=(?!=)|\+=|-=|\*=|\|=|&=|\+\+|--)")
PREINC = re.compile(r"(?:\+\+|--)\s*(\w+)")
HEAPW = re.compile(r"(?:->\s*\w+|\.\s*\w+|\]|\*\s*\w+)\s*(?:=(?!=)|\+=|-=|\+\+|--)")

def cut(t, fname, spec):
    """apply the loop cuts of spec to function fname.  Returns (text, None) or (None, reason)."""
    f = find_function(t, fname)
    if not f:
        return None, "function %s not found" % fname
    b, e = f
    body = t[b:e]
    clean = strip_lines(body)
    ls = loops_in(clean)
    if len(ls) != spec["nloops"]:
        return None, "%s has %d loops, the annotation expects %d" % (fname, len(ls), spec["nloops"])
    for v in spec.get("idents", []):
        if not re.search(r"\b%s\b" % re.escape(v), clean):
            return None, "%s no longer mentions %s" % (fname, v)
    for c in sorted(spec["cuts"], key=lambda c: -c["loop"]):
        kind, st, cs, ce, bs, be = ls[c["loop"]]
        if kind not in ("while", "dowhile"):
            return None, "%s loop %d is a %s loop" % (fname, c["loop"], kind)
        lb = re.sub(r'"(?:\\.|[^"\\])*"', lambda m: '"' + "x" * (len(m.group(0)) - 2) + '"', clean[bs:be]); cond = clean[cs:ce]
        assigned = set(ASSIGN.findall(lb)) | set(PREINC.findall(lb)) | set(ASSIGN.findall(cond)) | set(PREINC.findall(cond))
        extra = assigned - set(c["havoc_vars"]) - set(re.findall(r"\b(?:int|size_t|char|struct \w+|enum \w+)\s*\**\s*(\w+)\s*=", lb))
        if extra:
            return None, "%s loop %d assigns %s" % (fname, c["loop"], sorted(extra))
        if not c.get("heap") and HEAPW.search(lb):
            return None, "%s loop %d writes memory" % (fname, c["loop"])
        if re.search(r"\b(while|for|do|goto)\b", lb) and not c.get("nested"):
            return None, "%s loop %d is nested or jumps" % (fname, c["loop"])
        inv = c["inv"]; tag = "%s.loop%d" % (fname, c["loop"])
        # a witness declaration makes the variables of the invariant visible to the type checker
        if kind == "dowhile":
            end = body.index(";", ce) + 1
            new = ('{ __CPROVER_assert(%s,"INV-BASE: %s"); %s __CPROVER_assume(%s);'
                   ' for (int vt_first=1; vt_first || (%s && (__CPROVER_assert(%s,"INV-STEP: %s"),__CPROVER_assume(0),0)); vt_first=0) '
                   % (inv, tag, c["havoc"], inv, clean[cs:ce].replace("\n", " "), inv, tag))
            body = body[:st] + new + body[bs:be] + " }" + body[end:]
            clean = strip_lines(body)
            continue
        new = ('{ __CPROVER_assert(%s,"INV-BASE: %s"); %s __CPROVER_assume(%s);'
               ' for (int vt_first=1; (vt_first || (__CPROVER_assert(%s,"INV-STEP: %s"),__CPROVER_assume(0),0)) && %s; vt_first=0) '
               % (inv, tag, c["havoc"], inv, inv, tag, body[cs:ce].replace("\n", " ") if "\n#" not in body[cs:ce] else clean[cs:ce].replace("\n", " ")))
        body = body[:st] + new + body[bs:be] + " }" + body[be:]
        clean = strip_lines(body)
    return t[:b] + body + t[e:], None
