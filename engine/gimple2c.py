"""Translates gfortran's GIMPLE dump (-fdump-tree-gimple) of the m4-generated
Fortran kernels to C, statement by statement.  Records the declared extent of
every array dummy argument through __vp_extent()."""
import re

TY = {"integer(kind=4)": "int", "integer(kind=8)": "long", "real(kind=8)": "double",
      "real(kind=4)": "float", "logical(kind=4)": "int", "bitsizetype": "unsigned long", "sizetype": "unsigned long",
      "logical(kind=1)": "char", "bool": "int", "character(kind=1)": "char", "_Bool": "int", "void": "void", "unsigned int": "unsigned int", "unsigned long": "unsigned long"}
TYRE = r"(?:integer\(kind=\d\)|real\(kind=\d\)|logical\(kind=\d\)|character\(kind=1\)|bitsizetype|sizetype|bool|_Bool|void|unsigned int|unsigned long)"


class G2CError(Exception):
    pass


def ident(s):
    return s.replace(".", "_")


NAME = re.compile(r"(?<![\w.])([A-Za-z_]\w*(?:\.\d+(?:_\d+)?)+|[A-Za-z_]\w*)(?![\w])")


def expr(e):
    e = re.sub(r"<(D\.\d+)>", r"\1", e)
    e = re.sub(r"MAX_EXPR <([^<>]*), ([^<>]*)>", r"VP_MAX(\1, \2)", e)
    e = re.sub(r"MIN_EXPR <([^<>]*), ([^<>]*)>", r"VP_MIN(\1, \2)", e)
    e = re.sub(r"ABS_EXPR <([^<>]*)>", r"VP_ABS(\1)", e)
    e = re.sub(r"\((" + TYRE + r")((?: \*)*)\)", lambda m: "(" + TY[m.group(1)] + m.group(2) + ")", e)
    e = re.sub(r"\((" + TYRE + r")(\[[^\]]*\])? \* ?(?:restrict)?\)", lambda m: "(" + TY[m.group(1)] + "*)", e)
    e = re.sub(r"\(\*([A-Za-z_][\w.]*)\)\[", r"\1[", e)
    # identifiers with dots
    e = re.sub(r"(?<![\w.])([A-Za-z_]\w*)((?:\.\d+(?:_\d+)?)+)", lambda m: m.group(1) + m.group(2).replace(".", "_"), e)
    return e


def param(p):
    p = p.strip()
    m = re.match(r"(" + TYRE + r")(\[[^\]]*\])* ?(&|\*) (?:restrict )?(\w+)$", p)
    if not m:
        raise G2CError("param " + p)
    base, dims, kind, name = TY[m.group(1)], m.group(2), m.group(3), m.group(4)
    isarr = bool(re.match(TYRE + r"\[", p))
    dim = None
    if isarr:
        d = re.match(TYRE + r"((?:\[[^\]]*\])+)", p).group(1)
        dim = d
    return base, name, isarr, dim


def translate(text):
    """returns (C source, {function: [(ctype, name, is_array, dim)]},
    {function: reason} for functions that could not be translated)"""
    funcs, cur = [], []
    for ln in text.split("\n"):
        if re.match(r"^(void|[a-z]+\(kind=\d\)) (\w+) \((.*)\)$", ln) and not ln.startswith(" "):
            cur = []
            funcs.append(cur)
        if funcs:
            cur.append(ln)
    src, sigs, bad, ext = [], {}, {}, set()
    for f in funcs:
        name = re.match(r"^\S+ (\w+) ", f[0]).group(1)
        try:
            c, sg, ex = translate1("\n".join(f))
        except G2CError as e:
            bad[name] = str(e)
            continue
        src.append(c)
        sigs.update(sg)
        ext |= ex
    pre = ["#define VP_MAX(a,b) ((a) > (b) ? (a) : (b))", "#define VP_MIN(a,b) ((a) < (b) ? (a) : (b))",
           "#define VP_ABS(a) ((a) < 0 ? -(a) : (a))",
           "void __vp_extent(void*, long); void __vp_print(void); void* malloc(unsigned long); void free(void*);"]
    pre += [f"void {fn}_();" for fn in sorted(ext) if fn not in sigs]
    return "\n".join(pre + src) + "\n", sigs, bad


def translate1(text):
    sigs = {}
    lines = text.split("\n")
    i = 0
    externs = set()
    body = []
    cur = None
    while i < len(lines):
        ln = lines[i]
        s = ln.strip()
        i += 1
        if not s or s.startswith("__attribute__"):
            continue
        m = re.match(r"^(void|[a-z]+\(kind=\d\)) (\w+) \((.*)\)$", ln)
        if m and not ln.startswith(" "):
            name = m.group(2)
            ps = [p for p in split_args(m.group(3))] if m.group(3).strip() else []
            pl = [param(p) for p in ps]
            sigs[name] = pl
            ret = TY[m.group(1)]
            body.append(f"{ret} {name}_(" + ", ".join(f"{b}* {n}" for b, n, _, _ in pl) + ")")
            cur = name
            arr = {n: d for _, n, a, d in pl if a}
            done = set()
            continue
        if s.startswith("try") or s.startswith("finally"):
            continue
        if "dt_parm" in s or "st_parameter" in s:
            if "_gfortran_st_write (" in s or "_gfortran_st_write(" in s:
                body.append("__vp_print();")
            continue
        m = re.match(r"^struct ", s)
        if m:
            raise G2CError("struct: " + s)
        # local declaration
        m = re.match(r"^(?:static )?(" + TYRE + r")((?:\[[^\]]*\])*)( \*)? (?:restrict )?([\w.]+)(\[[^=]*\])?( = .*)?;$", s)
        if m and m.group(4) not in ("goto",):
            base = TY[m.group(1)]
            dims = (m.group(2) or "") + (m.group(5) or "")
            nm = ident(m.group(4))
            st = "static " if s.startswith("static") else ""
            if m.group(3):
                body.append(f"{base}* {nm};")
            elif dims:
                n = 1
                for d in re.findall(r"\[([^\]]*)\]", dims):
                    if ":" in d:
                        a, b = d.split(":")
                        n *= int(b) - int(a) + 1
                    else:
                        n *= int(d)
                init = ""
                if m.group(6):
                    vals = re.sub(r"\[\d+\]=", "", m.group(6)[3:])
                    init = " = " + vals
                body.append(f"{st}{base} {nm}[{n}]{init};")
            else:
                body.append(f"{st}{base} {nm}{expr(m.group(6) or '')};")
            continue
        m = re.match(r"^<(D\.\d+)>:$", s)
        if m:
            body.append(ident(m.group(1)) + ": ;")
            continue
        m = re.match(r"^([A-Za-z_]\w*(?:\.\d+)*):$", s)
        if m:
            body.append(ident(m.group(1)) + ": ;")
            continue
        if s in ("{", "}"):
            body.append(s)
            continue
        if s.startswith("if ") or s.startswith("goto") or s.startswith("return") or s == "else":
            body.append(expr(s))
            continue
        if "{CLOBBER" in s:
            continue
        m = re.match(r"^(_\d+|[A-Za-z]\w*\.\d+_\d+) = (.*);$", s)
        if m:
            rhs = expr(m.group(2))
            body.append(f"__auto_type {ident(m.group(1))} = {rhs};")
            continue
        m = re.match(r"^([A-Za-z_][\w]*) \((.*)\);$", s)
        if m:
            fn = m.group(1)
            if fn == "__builtin_free":
                body.append(f"free({expr(m.group(2))});")
            else:
                externs.add(fn)
                body.append(f"{fn}_({expr(m.group(2))});")
            continue
        m = re.match(r"^(.*?) = (.*);$", s)
        if m:
            rhs = expr(m.group(2)).replace("__builtin_malloc", "malloc")
            lhs = expr(m.group(1))
            if "{lb:" in lhs or "{lb:" in rhs or "&*" in rhs:
                raise G2CError("statement: " + s)
            cl = re.match(r"^(\w+) \((.*)\)$", rhs)
            if rhs.startswith("{"):
                vals = re.findall(r"(?:\[\d+\]=)?([^,{}]+)", rhs[1:-1])
                for k, v in enumerate(vals):
                    body.append(f"{lhs}[{k}] = {v.strip()};")
                continue
            body.append(f"{lhs} = {rhs};")
            mm = re.match(r"^D\.\d+$", m.group(1))
            if mm and cur:
                for n, d in arr.items():
                    if n not in done and d and d.endswith(f":{m.group(1)}]"):
                        done.add(n)
                        body.append(f"__vp_extent({n}, {ident(m.group(1))} + 1);")
            continue
        raise G2CError("statement: " + s)
    return "\n".join(body) + "\n", sigs, externs


def split_args(s):
    out, d, c = [], 0, ""
    for ch in s:
        if ch in "([":
            d += 1
        if ch in ")]":
            d -= 1
        if ch == "," and d == 0:
            out.append(c)
            c = ""
        else:
            c += ch
    if c.strip():
        out.append(c)
    return out


if __name__ == "__main__":
    import sys
    for f in sys.argv[1:]:
        c, sg, bad = translate(open(f).read())
        open(f + ".c", "w").write(c)
        print(f, len(sg), bad)
