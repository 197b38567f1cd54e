#!/usr/bin/env python3
# c2go.py FILE.c FUNCTION...: the functions of a C file as Go, from clang's syntax tree, statement by statement.
# Pointers into a buffer become offsets into a Go slice, so that every access is checked against its bounds; a local
# array becomes a table with arbitrary contents (its reads give anything). Whatever is not understood is an error.
import json, subprocess, sys, os
PK = sys.argv[1]; FILE = sys.argv[2]; FNS = sys.argv[3:]
class Unsupported(Exception): pass
def q(n): return n.get("type", {}).get("desugaredQualType", n.get("type", {}).get("qualType", ""))
def clean(t): return " ".join(w for w in t.replace("*", " * ").split() if w not in ("const", "volatile", "restrict"))
INT = {"unsigned char": "byte", "char": "int8", "signed char": "int8", "unsigned short": "uint16", "short": "int16", "unsigned int": "uint32", "int": "int32",
       "unsigned long": "uint64", "long": "int64", "unsigned long long": "uint64", "long long": "int64", "_Bool": "bool", "u8": "byte", "u16": "uint16", "size_t": "uint64", "LZF_HSLOT": "uint32"}
def isptr(t): return clean(t).endswith("*")
def gotype(t):
    t = clean(t)
    if t.endswith("*"): return "int"
    if t in INT: return INT[t]
    raise Unsupported("type " + t)
def unparen(n):
    while n["kind"] in ("ParenExpr", "ConstantExpr"): n = n["inner"][0]
    return n
def strip(n):
    n = unparen(n)
    while n["kind"] in ("ImplicitCastExpr", "CStyleCastExpr"): n = unparen(n["inner"][0])
    return n
REL = ("<", "<=", ">", ">=", "==", "!=")
class Fn:
    def __init__(s, d):
        s.d = d; s.out = []; s.ind = 1; s.tmp = 0; s.names = {}; s.tags = {}; s.used = {}; s.arrays = {}; s.brk = [None]; s.lab = 0
    def w(s, t): s.out.append("\t" * s.ind + t)
    def t(s, v, ty=None):
        s.tmp += 1; n = "t%d" % s.tmp
        s.w("%s := %s" % (n, v)); s.w("_ = " + n); return n
    def name(s, d):
        i = d["id"]
        if i not in s.names:
            b = d["name"]; k = s.used.get(b, 0); s.used[b] = k + 1
            s.names[i] = b if k == 0 else "%s%d" % (b, k)
        return s.names[i]
    # the buffer a pointer points into
    def tag(s, n):
        n = unparen(n); k = n["kind"]
        if k in ("ImplicitCastExpr", "CStyleCastExpr"): return s.tag(n["inner"][0])
        if k == "DeclRefExpr": return s.tags.get(n["referencedDecl"]["id"])
        if k == "BinaryOperator" and n["opcode"] in ("+", "-"):
            a = s.tag(n["inner"][0]) if isptr(q(n["inner"][0])) else None
            b = s.tag(n["inner"][1]) if isptr(q(n["inner"][1])) else None
            return a or b
        if k == "BinaryOperator" and n["opcode"] in ("=", ","): return s.tag(n["inner"][1])
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"): return s.tag(n["inner"][0])
        if k == "CompoundAssignOperator": return s.tag(n["inner"][0])
        if k == "ConditionalOperator": return s.tag(n["inner"][1]) or s.tag(n["inner"][2])
        return None
    def scan(s, n):
        ch = False
        def put(i, t):
            nonlocal ch
            if t and s.tags.get(i) != t:
                if i in s.tags: raise Unsupported("a pointer into two buffers")
                s.tags[i] = t; ch = True
        def go(n):
            if n.get("kind") == "VarDecl":
                ty = q(n)
                if "[" in ty: put(n["id"], "&" + n["name"]); s.arrays[n["name"]] = clean(ty)
                elif isptr(ty) and n.get("inner"): put(n["id"], s.tag(n["inner"][0]))
            if n.get("kind") == "BinaryOperator" and n["opcode"] == "=" and isptr(q(n["inner"][0])):
                l = strip(n["inner"][0])
                if l["kind"] == "DeclRefExpr": put(l["referencedDecl"]["id"], s.tag(n["inner"][1]))
            for c in n.get("inner", []):
                if c: go(c)
        go(n); return ch
    def lower(s, f):
        # statements f needs, kept apart
        o, s.out = s.out, []; s.ind += 1
        v = f(); st, s.out = s.out, o; s.ind -= 1
        return st, v
    def boolish(s, n):
        n = unparen(n)
        if n["kind"] in ("ImplicitCastExpr", "CStyleCastExpr"): return not isptr(q(n)) and s.boolish(n["inner"][0])
        if n["kind"] == "BinaryOperator": return n["opcode"] in REL + ("&&", "||")
        if n["kind"] == "UnaryOperator": return n["opcode"] == "!"
        if n["kind"] == "CallExpr" and s.callee(n) == "__builtin_expect": return s.boolish(n["inner"][1])
        return False
    def callee(s, n):
        c = strip(n["inner"][0])
        return c["referencedDecl"]["name"] if c["kind"] == "DeclRefExpr" else None
    def cond(s, n):
        n = unparen(n); k = n["kind"]
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and s.boolish(n): return s.cond(n["inner"][0])
        if k == "CallExpr" and s.callee(n) == "__builtin_expect": return s.cond(n["inner"][1])
        if k == "UnaryOperator" and n["opcode"] == "!": return "!(%s)" % s.cond(n["inner"][0])
        if k == "BinaryOperator" and n["opcode"] in REL:
            a, b = n["inner"]
            # (x) != 0 of a truth value
            if n["opcode"] in ("!=", "==") and s.boolish(a) and strip(b)["kind"] == "IntegerLiteral" and strip(b)["value"] == "0":
                c = s.cond(a); return c if n["opcode"] == "!=" else "!(%s)" % c
            if isptr(q(a)) and s.tag(a) != s.tag(b): raise Unsupported("comparison of pointers into different buffers")
            x = s.val(a); y = s.val(b)
            return "%s %s %s" % (x, n["opcode"], y)
        if k == "BinaryOperator" and n["opcode"] in ("&&", "||"):
            a = s.cond(n["inner"][0])
            st, b = s.lower(lambda: s.cond(n["inner"][1]))
            if not st: return "(%s %s %s)" % (a, n["opcode"], b)
            s.tmp += 1; t = "t%d" % s.tmp
            s.w("%s := %s" % (t, a)); s.w("if %s%s {" % ("" if n["opcode"] == "&&" else "!", t))
            s.out += st; s.ind += 1; s.w("%s = %s" % (t, b)); s.ind -= 1; s.w("}")
            return t
        if k == "IntegerLiteral": return "true" if n["value"] != "0" else "false"
        v = s.val(n)
        return "%s != 0" % v
    def place(s, n):
        # an assignable place: ("var", name) or ("mem", buffer, offset, C type)
        n = unparen(n); k = n["kind"]
        if k == "DeclRefExpr": return ("var", s.name(n["referencedDecl"]))
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = n["inner"][0]; tg = s.tag(p)
            if not tg: raise Unsupported("a pointer of unknown origin")
            return ("mem", tg, s.val(p), clean(q(n)))
        if k == "ArraySubscriptExpr":
            p, i = n["inner"]
            if not isptr(q(p)): p, i = i, p
            tg = s.tag(p)
            if not tg: raise Unsupported("a pointer of unknown origin")
            a = s.val(p); b = s.val(i)
            return ("mem", tg, "%s+int(%s)" % (a, b), clean(q(n)))
        raise Unsupported("place " + k)
    def load(s, p):
        if p[0] == "var": return p[1]
        if p[1][0] == "&": return s.t("%sGet(%s)" % (p[1][1:], p[2]))
        if p[3] in ("u8", "unsigned char"): return s.t("%s[%s]" % (p[1], p[2]))
        if p[3] in ("u16", "unsigned short"):
            i = s.t(p[2]); return s.t("uint16(orU(uint32(%s[%s]), uint32(%s[%s+1])<<8))" % (p[1], i, p[1], i))
        raise Unsupported("access of type " + p[3])
    def put(s, p, v):
        if p[0] == "var": s.w("%s = %s" % (p[1], v))
        elif p[1][0] == "&": s.w("%sSet(%s, %s)" % (p[1][1:], p[2], v))
        elif p[3] in ("u8", "unsigned char"): s.w("%s[%s] = %s" % (p[1], p[2], v))
        else: raise Unsupported("store of type " + p[3])
    def conv(s, ty, v): return "%s(%s)" % (ty, v)
    def val(s, n):
        n = unparen(n); k = n["kind"]
        if k == "IntegerLiteral": return n["value"]
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck = n["castKind"]; i = n["inner"][0]
            if ck == "LValueToRValue":
                p = s.place(i); return s.load(p)
            if ck in ("NoOp", "BitCast", "ArrayToPointerDecay"): return s.val(i)
            if ck == "IntegralCast":
                if strip(i)["kind"] == "IntegerLiteral": return "%s(%s)" % (gotype(q(n)), strip(i)["value"])
                return s.conv(gotype(q(n)), s.val(i))
            raise Unsupported("cast " + ck)
        if k == "DeclRefExpr":
            tg = s.tags.get(n["referencedDecl"]["id"], "")
            if tg.startswith("&") and "[" in q(n): return "0"
            return s.name(n["referencedDecl"])
        if s.boolish(n): return "b2i(%s)" % s.cond(n)
        if k == "CallExpr":
            f = s.callee(n)
            if f == "__builtin_expect": return s.val(n["inner"][1])
            if f == "memcpy":
                d, c, l = n["inner"][1:4]
                dt, ct = s.tag(d), s.tag(c)
                a = s.t(s.val(d)); b = s.t(s.val(c)); z = s.t("int(%s)" % s.val(l))
                if dt == ct: s.w("if %s < %s+%s && %s < %s+%s {" % (a, b, z, b, a, z)); s.w('\tpanic("memcpy of overlapping areas")'); s.w("}")
                s.tmp += 1; kk = "t%d" % s.tmp
                s.w("for %s := 0; %s < %s; %s++ {" % (kk, kk, z, kk)); s.w("\t%s[%s+%s] = %s[%s+%s]" % (dt, a, kk, ct, b, kk)); s.w("}")
                return a
            raise Unsupported("call of %s" % f)
        if k == "ConditionalOperator":
            c = s.cond(n["inner"][0])
            if not s.effects(n["inner"][1]) and not s.effects(n["inner"][2]):
                sa, a = s.lower(lambda: s.val(n["inner"][1])); sb, b = s.lower(lambda: s.val(n["inner"][2]))
                if not sa and not sb and gotype(q(n)) == "uint32": return s.t("sel(%s, %s, %s)" % (c, a, b))
            s.tmp += 1; t = "t%d" % s.tmp
            s.w("var %s %s" % (t, gotype(q(n)))); s.w("if %s {" % c)
            st, a = s.lower(lambda: s.val(n["inner"][1])); s.out += st; s.w("\t%s = %s" % (t, a)); s.w("} else {")
            st, b = s.lower(lambda: s.val(n["inner"][2])); s.out += st; s.w("\t%s = %s" % (t, b)); s.w("}")
            return t
        if k == "BinaryOperator":
            op = n["opcode"]; a, b = n["inner"]
            if op == "=":
                if strip(a)["kind"] == "CallExpr": raise Unsupported("assignment")
                v = s.val(b)
                if not v.isidentifier(): v = s.t("%s(%s)" % (gotype(q(a)), v)) if not v.isdigit() else v
                p = s.place(a)
                s.put(p, v); return s.load(p) if p[0] == "var" else v
            if op == ",": s.stmt(a); return s.val(b)
            pa, pb = isptr(q(a)), isptr(q(b))
            x = s.val(a)
            if s.effects(b) and not x.isdigit(): x = s.t(x)
            y = s.val(b)
            if pa and pb:
                if op != "-" or s.tag(a) != s.tag(b): raise Unsupported("pointer arithmetic")
                return "(int64(%s) - int64(%s))" % (x, y)
            if pa and op in "+-": return "(%s %s int(%s))" % (x, op, y)
            if pb and op == "+": return "(int(%s) + %s)" % (x, y)
            # products and disjunctions may be anything as far as the contracts go
            if op in ("*", "|") and gotype(q(n)) in ("uint32", "int32") and not (strip(a)["kind"] == strip(b)["kind"] == "IntegerLiteral"):
                return s.t("%s%s(%s, %s)" % ("mul" if op == "*" else "or", "U" if gotype(q(n)) == "uint32" else "I", x, y))
            if op in ("+", "-", "*", "&", "|", "^"): return "(%s %s %s)" % (s.typed(x, n), op, s.typed(y, n))
            if op in ("<<", ">>"): return "(%s %s %s)" % (s.typed(x, n), op, y if y.isdigit() else "uint(%s)" % y)
            raise Unsupported("operator " + op)
        if k == "UnaryOperator":
            op = n["opcode"]
            if op in ("++", "--"):
                p = s.place(n["inner"][0])
                if p[0] != "var": raise Unsupported("++ of a place in memory")
                if n["isPostfix"]: t = s.t(p[1]); s.w(p[1] + op); return t
                s.w(p[1] + op); return p[1]
            if op == "-": return "(-%s)" % s.typed(s.val(n["inner"][0]), n)
            if op == "*" or op == "&": raise Unsupported("address")
            if op == "~": return "(^%s)" % s.typed(s.val(n["inner"][0]), n)
        if k == "CompoundAssignOperator":
            op = n["opcode"][:-1]; a, b = n["inner"]
            y = s.val(b); p = s.place(a)
            if isptr(q(a)):
                if p[0] != "var" or op not in "+-": raise Unsupported("pointer assignment")
                s.w("%s = %s %s int(%s)" % (p[1], p[1], op, y)); return p[1]
            ct = gotype(n["computeResultType"].get("desugaredQualType", n["computeResultType"]["qualType"])); ty = gotype(q(a))
            x = s.load(p)
            if op in ("<<", ">>"): e = "%s(%s) %s uint(%s)" % (ct, x, op, y)
            else: e = "%s(%s) %s %s(%s)" % (ct, x, op, ct, y)
            s.put(p, "%s(%s)" % (ty, e)); return s.load(p) if p[0] == "var" else "0"
        raise Unsupported(k)
    def typed(s, v, n): return "%s(%s)" % (gotype(q(n)), v) if v.isdigit() else v
    def effects(s, n):
        if n.get("kind") in ("CompoundAssignOperator", "CallExpr"): return True
        if n.get("kind") == "BinaryOperator" and n["opcode"] == "=": return True
        if n.get("kind") == "UnaryOperator" and n["opcode"] in ("++", "--"): return True
        return any(s.effects(c) for c in n.get("inner", []) if c)
    def block(s, n):
        s.ind += 1
        l = n.get("inner", []) if n["kind"] == "CompoundStmt" else [n]; i = 0
        while i < len(l):
            # the same statements four times in a row or more are a counted loop
            for per in (1, 2, 3):
                k = 1; h = [s.shape(x) for x in l[i:i + per]]
                while len(h) == per and [s.shape(x) for x in l[i + k * per:i + (k + 1) * per]] == h: k += 1
                if k >= 4 and not any('"DeclStmt"' in x or '"ContinueStmt"' in x for x in h): break
            else: s.stmt(l[i]); i += 1; continue
            s.tmp += 1; r = "r%d" % s.tmp
            s.w("for %s := 0; %s < times(%d); %s++ {" % (r, r, k, r)); s.ind += 1
            for x in l[i:i + per]: s.stmt(x)
            s.ind -= 1; s.w("}"); i += k * per
        s.ind -= 1
    def shape(s, n):
        if isinstance(n, list): return "[" + ",".join(s.shape(x) for x in n) + "]"
        if not isinstance(n, dict): return json.dumps(n)
        if "referencedDecl" in n: return "{ref " + n["referencedDecl"]["id"] + json.dumps(n["kind"]) + "}"
        return "{" + ",".join(json.dumps(k) + ":" + s.shape(v) for k, v in sorted(n.items()) if k not in ("id", "loc", "range")) + "}"
    def errno(s, n):
        n = unparen(n)
        return n["kind"] == "BinaryOperator" and n["opcode"] == "=" and "errno_location" in json.dumps(n["inner"][0])
    def stmt(s, n):
        if n["kind"] in ("WhileStmt", "DoStmt", "ForStmt"):
            s.lab += 1; l = "B%d" % s.lab; s.brk.append(l); at = len(s.out); s.stmt1(n); s.brk.pop()
            if any(("break " + l) == x.strip() for x in s.out[at:]):
                for i in range(at, len(s.out)):
                    if s.out[i].strip() == "for {": s.out.insert(i, l + ":"); break
        else: s.stmt1(n)
    def stmt1(s, n):
        while n["kind"] == "CStyleCastExpr" and n.get("castKind") == "ToVoid": n = unparen(n["inner"][0])
        k = n["kind"]
        if k == "DeclRefExpr" or k == "UnaryExprOrTypeTraitExpr": return
        if k == "CompoundStmt": s.w("{"); s.block(n); s.w("}")
        elif k == "NullStmt": pass
        elif k == "DeclStmt":
            for v in n["inner"]:
                if v["kind"] != "VarDecl": raise Unsupported(v["kind"])
                if "[" in q(v): continue
                if v.get("storageClass") == "static": raise Unsupported("a static variable")
                x = s.val(v["inner"][0]) if v.get("inner") else None
                nm = s.name(v)
                if x is None: s.w("var %s %s" % (nm, gotype(q(v))))
                else: s.w("var %s %s = %s" % (nm, gotype(q(v)), x if x.isidentifier() or x.isdigit() else "%s(%s)" % (gotype(q(v)), x)))
                s.w("_ = " + nm)
        elif k == "IfStmt":
            c = s.cond(n["inner"][0]); s.w("if %s {" % c); s.block(n["inner"][1])
            if len(n["inner"]) > 2: s.w("} else {"); s.block(n["inner"][2])
            s.w("}")
        elif k == "WhileStmt":
            s.w("for {"); s.ind += 1; c = s.cond(n["inner"][0]); s.w("if !(%s) {" % c); s.w("\tbreak"); s.w("}"); s.ind -= 1
            s.block(n["inner"][1]); s.w("}")
        elif k == "DoStmt":
            if '"ContinueStmt"' in json.dumps(n["inner"][0]): raise Unsupported("continue")
            s.w("for {"); s.block(n["inner"][0]); s.ind += 1; c = s.cond(n["inner"][1]); s.w("if !(%s) {" % c); s.w("\tbreak"); s.w("}"); s.ind -= 1; s.w("}")
        elif k == "ForStmt":
            i, _, c, u, b = n["inner"]
            if '"ContinueStmt"' in json.dumps(b) and u: raise Unsupported("continue")
            s.w("{"); s.ind += 1
            if i: s.stmt(i)
            s.w("for {"); s.ind += 1
            if c: g = s.cond(c); s.w("if !(%s) {" % g); s.w("\tbreak"); s.w("}")
            s.ind -= 1; s.block(b); s.ind += 1
            if u: s.stmt(u)
            s.ind -= 1; s.w("}"); s.ind -= 1; s.w("}")
        elif k == "ContinueStmt": s.w("continue")
        elif k == "BreakStmt": s.w("break " + s.brk[-1] if s.brk[-1] else "break")
        elif k == "ReturnStmt":
            v = s.val(n["inner"][0]); s.w("return %s" % (v if v.isdigit() else "uint32(%s)" % v))
        elif k == "SwitchStmt":
            # a loop over the case labels: falling through is going round with the next label, so that each case is one step
            v = s.val(n["inner"][0]); ty = gotype(q(n["inner"][0])); s.tmp += 1; sw = "s%d" % s.tmp; lb = "L%d" % s.tmp
            if '"ContinueStmt"' in json.dumps(n["inner"][1]): raise Unsupported("continue in a switch")
            body = n["inner"][1]["inner"]; flat = []
            for c in body:
                while c["kind"] in ("CaseStmt", "DefaultStmt"):
                    flat.append(("case", strip(c["inner"][0])["value"] if c["kind"] == "CaseStmt" else None)); c = c["inner"][-1]
                flat.append(("s", c))
            if flat[0][0] != "case": raise Unsupported("statement before the first case")
            # the bodies in order: (labels, statements, falls through)
            groups = []; t0 = s.tmp; tmax = t0
            for k2, c in flat:
                if k2 == "case":
                    if groups and not groups[-1][1] and groups[-1][2]: groups[-1][0].append(c)
                    else: groups.append([[c], [], True])
                elif groups[-1][2]:
                    if c["kind"] == "BreakStmt": groups[-1][2] = False
                    else: groups[-1][1].append(c)
                elif c["kind"] != "BreakStmt": raise Unsupported("statement after break")
            for g in groups:
                s.tmp = t0; s.brk.append(lb)
                g[1], _ = s.lower(lambda: [s.stmt(c) for c in g[1]]); s.brk.pop(); tmax = max(tmax, s.tmp)
            s.tmp = tmax
            # runs of equal bodies for n, n-1, n-2, ...
            runs = []
            for g in groups:
                if None in g[0]: lo = hi = None; default = g
                elif len(g[0]) == 1: lo = hi = int(g[0][0])
                else: raise Unsupported("several labels")
                if runs and lo is not None and runs[-1][0] is not None and runs[-1][2] == g[1] and runs[-1][3] and g[2] and lo == runs[-1][0] - 1: runs[-1][0] = lo
                else: runs.append([lo, hi, g[1], g[2]])
            s.w("%s := %s(%s)" % (sw, ty, v)); s.w(lb + ":"); s.w("for {"); s.ind += 1
            los = [r for r in runs if r[0] is not None]
            d = [i for i, r in enumerate(runs) if r[0] is None]
            if d and (d[0] > 0 and runs[d[0] - 1][3]): raise Unsupported("falling into default")
            lo, hi = min(r[0] for r in los), max(r[1] for r in los)
            if hi - lo + 1 != sum(r[1] - r[0] + 1 for r in los): raise Unsupported("gaps between the case labels")
            s.w("if %s%s > %d {" % ("%s < %d || " % (sw, lo) if lo > 0 or not ty.startswith("u") else "", sw, hi)); s.ind += 1
            if d:
                s.out += runs[d[0]][2]
                if runs[d[0]][3] and d[0] + 1 < len(runs): s.w("%s = %d" % (sw, runs[d[0] + 1][1]))
                else: s.w("break " + lb)
            else: s.w("break " + lb)
            s.ind -= 1; s.w("}"); s.w("for {"); s.ind += 1
            for i, r in enumerate(runs):
                if r[0] is None: continue
                cs = [c for c in ["%s >= %d" % (sw, r[0]) if r[0] > lo else "", "%s <= %d" % (sw, r[1]) if r[1] < hi else ""] if c]
                if not cs: cs = ["true"]
                s.w("if %s {" % " && ".join(cs)); s.ind += 1
                s.out += r[2]
                if not r[3]: s.w("break " + lb)
                else:
                    if r[0] < r[1]:
                        s.w("if %s > %d {" % (sw, r[0])); s.w("\t%s--" % sw); s.w("\tcontinue"); s.w("}")
                    if i + 1 < len(runs) and runs[i + 1][0] is not None: s.w("%s = %d" % (sw, runs[i + 1][1])); s.w("continue")
                    elif i + 1 < len(runs): raise Unsupported("falling into default")
                    else: s.w("break " + lb)
                s.ind -= 1; s.w("}")
            s.w("break " + lb); s.ind -= 1; s.w("}"); s.ind -= 1; s.w("}")
        elif s.errno(n): pass
        else:
            v = s.val(n)
    def emit(s):
        ps = [p for p in s.d["inner"] if p["kind"] == "ParmVarDecl"]; body = s.d["inner"][-1]; args = []
        pre = []
        for p in ps:
            nm = s.name(p)
            if isptr(q(p)): s.tags[p["id"]] = nm; args.append(nm + " []byte")
            else: args.append("%s %s" % (nm, gotype(q(p))))
        while s.scan(body): pass
        head = "func %s(%s) uint32 {" % (s.d["name"], ", ".join(args))
        s.block(body)
        # a buffer parameter used as a pointer is the offset 0
        return head + "\n" + "\n".join(s.out) + "\n\tpanic(\"no return\")\n}\n"
_val = Fn.val
def val(s, n):
    m = unparen(n)
    if m["kind"] == "DeclRefExpr" and m["referencedDecl"]["kind"] == "ParmVarDecl" and isptr(q(m)): return "0"
    return _val(s, n)
Fn.val = val
_load = Fn.load
def load(s, p):
    if p[0] == "var" and p[1] in s.tags.values(): return "0"
    return _load(s, p)
Fn.load = load
a = json.loads(subprocess.run(["clang", "-w", "-O2", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-I", os.path.dirname(FILE), FILE], capture_output=True, check=True).stdout)
try:
    text = "package %s\n\n// from %s, by c2go.py\n\nfunc b2i(b bool) int32 {\n\tif b {\n\t\treturn 1\n\t}\n\treturn 0\n}\n\nfunc sel(c bool, a, b uint32) uint32 {\n\tif c {\n\t\treturn a\n\t}\n\treturn b\n}\n\nfunc times(n int) int { return n }\n\n" % (PK, FILE) + "".join("func %s%s(a, b %s) %s {\n\treturn a %s b\n}\n\n" % (n, u, t, t, o) for n, o in (("mul", "*"), ("or", "|")) for u, t in (("U", "uint32"), ("I", "int32")))
    arrays = {}
    for f in FNS:
        d = [n for n in a["inner"] if n["kind"] == "FunctionDecl" and n["name"] == f and n.get("inner") and n["inner"][-1]["kind"] == "CompoundStmt"]
        if len(d) != 1: raise Unsupported("no function " + f)
        x = Fn(d[0]); text += x.emit() + "\n"; arrays.update(x.arrays)
    for n, t in arrays.items():
        el = t[:t.index("[")].strip(); g = INT.get(el, "uint32")
        text += "func %sGet(i int) %s { return 0 }\n\nfunc %sSet(i int, v %s) {}\n\n" % (n, g, n, g)
    print(text)
except Unsupported as e:
    print("c2go: not supported: %s" % e, file=sys.stderr); sys.exit(3)
