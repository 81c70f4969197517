"""Names. Contracts and hooks refer to functions, fields, parameters and locals of /repo by name. When a name was
changed and nothing else about it, the source given to the extractor has the old name put back: a consistent renaming
of bound names to names that do not otherwise occur, hence the same program. On a tree whose names are those of
specs/names.json nothing is done and /repo/src itself is read."""
import os, re, glob, json, shutil
KW = set("as async await box break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool char str".split())
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|\s+|(?P<s>b?r#*"(?:.|\n)*?"#*|b?"(?:\\.|[^"\\])*")|(?P<c>b?\'(?:\\.|[^\'\\])\')|(?P<l>\'[A-Za-z_]\w*)|(?P<n>\d[\w]*(?:\.\d[\w]*)?)|(?P<i>[A-Za-z_]\w*)|(?P<p>=>|->|::|.)', re.S)

def toks(t):
    return [(m.lastgroup, m.group(), m.start(), m.end()) for m in TOK.finditer(t) if m.lastgroup]

def match(ts, k):
    o = ts[k][1]; c = {"(": ")", "{": "}", "[": "]"}[o]; d = 0
    for j in range(k, len(ts)):
        if ts[j][1] == o and ts[j][0] == "p": d += 1
        elif ts[j][1] == c and ts[j][0] == "p":
            d -= 1
            if d == 0: return j
    return len(ts) - 1

def split(ts):
    """at commas of depth 0"""
    out, cur, d, a = [], [], 0, 0
    for k, t in enumerate(ts):
        if t[1] in "([{": d += 1
        elif t[1] in ")]}": d -= 1
        elif t[1] == "<": a += 1
        elif t[1] == ">": a = max(0, a - 1)
        if t[1] == "," and d == 0 and a == 0: out.append(cur); cur = []
        else: cur.append(t)
    if cur: out.append(cur)
    return out

def names(ts):
    """names bound by a pattern"""
    out = []
    for k, t in enumerate(ts):
        nx = ts[k + 1][1] if k + 1 < len(ts) else ""
        if t[0] == "i" and t[1] not in KW and not t[1][0].isupper() and t[1] != "_" and nx not in ("(", "::", "{", ":"): out.append(t[1])
    return out

def scan(t):
    """functions (with context), structs"""
    ts = toks(t); fns, structs = [], {}
    def go(lo, hi, ctx):
        k = lo
        while k < hi:
            w = ts[k][1]
            if w == "mod" and k + 2 < hi and ts[k + 2][1] == "{":
                e = match(ts, k + 2)
                if ts[k + 1][1] not in ("test", "tests"): go(k + 3, e, ctx)
                k = e + 1; continue
            if w in ("impl", "trait") and ts[k][0] == "i":
                j = k
                while ts[j][1] not in ("{", ";"): j += 1
                e = match(ts, j) if ts[j][1] == "{" else j
                go(j + 1, e, " ".join(x[1] for x in ts[k:j])); k = e + 1; continue
            if w == "struct" and ts[k][0] == "i":
                j = k + 1
                while j < hi and ts[j][1] not in ("{", ";", "("): j += 1
                if ts[j][1] == "{":
                    e = match(ts, j); fs = []
                    for f in split(ts[j + 1:e]):
                        c = next((i for i, x in enumerate(f) if x[1] == ":"), None)
                        if c: fs.append((f[c - 1][1], " ".join(x[1] for x in f[c + 1:])))
                    structs[ts[k + 1][1]] = dict(fields=fs, lo=j, hi=e); k = e + 1; continue
                k = j + 1; continue
            if w == "fn" and ts[k][0] == "i" and ts[k + 1][0] == "i":
                j = k + 2
                while ts[j][1] != "(": j += 1
                pe = match(ts, j); params, types = [], []
                for p in split(ts[j + 1:pe]):
                    c = next((i for i, x in enumerate(p) if x[1] == ":"), None)
                    if c is None: types.append("self"); continue
                    params.append(p[c - 1][1] if p[c - 1][0] == "i" else ""); types.append(" ".join(x[1] for x in p[c + 1:]))
                b = pe
                while ts[b][1] not in ("{", ";"): b += 1
                ret = " ".join(x[1] for x in ts[pe + 1:b])
                e = match(ts, b) if ts[b][1] == "{" else b
                fns.append(dict(ctx=ctx, name=ts[k + 1][1], params=params, sig=types + [ret], binds=binds(ts[b:e + 1]), lo=k, body=b, hi=e, idents=sorted({x[1] for x in ts[k:e + 1] if x[0] == "i"})))
                k = e + 1; continue
            k += 1
    go(0, len(ts), "")
    return ts, fns, structs

def binds(ts):
    out, k = [], 0
    while k < len(ts):
        w = ts[k][1]
        if ts[k][0] == "i" and w == "let":
            j, d = k + 1, 0
            while j < len(ts) and not (d == 0 and ts[j][1] in ("=", ":", ";")):
                d += ts[j][1] in "([{"; d -= ts[j][1] in ")]}"; j += 1
            out += names(ts[k + 1:j]); k = j; continue
        if ts[k][0] == "i" and w == "for":
            j = k + 1
            while j < len(ts) and ts[j][1] != "in": j += 1
            out += names(ts[k + 1:j]); k = j; continue
        if w == "|" and k > 0 and ts[k - 1][1] in ("(", ",", "=", "move", "{", ";", "=>", "return"):
            j = k + 1
            while j < len(ts) and ts[j][1] != "|": j += 1
            for p in split(ts[k + 1:j]):
                c = next((i for i, x in enumerate(p) if x[1] == ":"), len(p)); out += names(p[:c])
            k = j + 1; continue
        k += 1
    return out

def sources(root):
    return {os.path.relpath(p, root): open(p, errors="replace").read() for p in sorted(glob.glob(os.path.join(root, "**", "*.rs"), recursive=True)) if os.sep + "verif" + os.sep not in p and os.sep + "bin" + os.sep not in p}

def baseline(root):
    d = {}
    for f, t in sources(root).items():
        ts, fns, structs = scan(t)
        d[f] = dict(fns=[{k: x[k] for k in ("ctx", "name", "params", "sig", "binds", "idents")} for x in fns], structs={n: s["fields"] for n, s in structs.items()})
    return d

def literal_braces(ts, lo, hi, fns):
    """for every token: the struct whose literal or pattern it is directly in"""
    inn, st, body = {}, [], {x["body"] for x in fns}
    for k in range(lo, hi):
        w = ts[k][1]
        if w in "([{" and ts[k][0] == "p": st.append(ts[k - 1][1] if w == "{" and k not in body and ts[k - 1][0] == "i" and ts[k - 1][1][0].isupper() else None)
        elif w in ")]}" and ts[k][0] == "p":
            if st: st.pop()
        elif st and st[-1]: inn[k] = st[-1]
    return inn

def apply(t, edits):
    for a, b, n in sorted(edits, reverse=True): t = t[:a] + n + t[b:]
    return t

def canonical(root, base):
    """(sources with the old names, list of renamings)"""
    src = sources(root); ren = []
    # functions: gone from where it was, and one of the same signature that is new in the same place
    sc = {f: scan(t) for f, t in src.items()}
    allid = {x[1] for ts, _, _ in sc.values() for x in ts if x[0] == "i"}
    baseid = {i for b in base.values() for x in b["fns"] for i in x["idents"]}
    fr = {}
    for f, b in base.items():
        if f not in sc: continue
        now = {(x["ctx"], x["name"]) for x in sc[f][1]}; was = {(x["ctx"], x["name"]) for x in b["fns"]}
        for x in b["fns"]:
            if (x["ctx"], x["name"]) in now or x["name"] in allid: continue
            c = [y for y in sc[f][1] if (y["ctx"], y["name"]) not in was and y["ctx"] == x["ctx"] and y["sig"] == x["sig"]]
            gone = [y for y in b["fns"] if (y["ctx"], y["name"]) not in now and y["ctx"] == x["ctx"] and y["sig"] == x["sig"]]
            if len(c) == 1 and len(gone) == 1 and c[0]["name"] not in baseid and c[0]["name"] not in fr: fr[c[0]["name"]] = x["name"]
    if fr:
        ren += ["function %s is %s" % (o, n) for n, o in fr.items()]
        src = {f: apply(t, [(a, e, fr[w]) for g, w, a, e in toks(t) if g == "i" and w in fr]) for f, t in src.items()}
        sc = {f: scan(t) for f, t in src.items()}
    # fields: same struct, same types in the same order
    owners = {}
    for ts, _, ss in sc.values():
        for n, s in ss.items():
            for a, _ in s["fields"]: owners.setdefault(a, set()).add(n)
    fm = {}
    for f, b in base.items():
        for n, fs in b["structs"].items():
            s = sc[f][2].get(n) if f in sc else None
            if not s or len(s["fields"]) != len(fs) or [x[1] for x in s["fields"]] != [x[1] for x in fs]: continue
            for (a, _), (o, _) in zip(s["fields"], fs):
                if a != o and owners[a] == {n} and o not in [x[0] for x in s["fields"]]: fm[a] = (n, o)
    if fm:
        ren += ["field %s.%s is %s" % (n, o, a) for a, (n, o) in fm.items()]
        new = {}
        for f, t in src.items():
            ts, fns, ss = sc[f]; ed = []
            lit = literal_braces(ts, 0, len(ts), fns)
            for k, (g, w, a, e) in enumerate(ts):
                if g != "i" or w not in fm: continue
                n, o = fm[w]; nx = ts[k + 1][1] if k + 1 < len(ts) else ""
                if ts[k - 1][1] == "." and nx != "(": ed.append((a, e, o))
                elif n in ss and ss[n]["lo"] < k < ss[n]["hi"] and nx == ":": ed.append((a, e, o))
                elif k in lit and (lit[k] == n or lit[k] == "Self" and any(x["lo"] < k < x["hi"] and re.search(r"\b%s\b" % n, x["ctx"]) for x in fns)):
                    if nx == ":": ed.append((a, e, o))
                    elif nx in (",", "}") and ts[k - 1][1] in (",", "{"): ed.append((a, e, "%s: %s" % (o, w)))
            new[f] = apply(t, ed)
        src = new; sc = {f: scan(t) for f, t in src.items()}
    # parameters and locals, function by function
    new = {}
    for f, t in src.items():
        ts, fns, _ = sc[f]; ed = []
        was = {}
        for x in base.get(f, dict(fns=[]))["fns"]: was.setdefault((x["ctx"], x["name"]), []).append(x)
        for x in fns:
            b = was.get((x["ctx"], x["name"]), [])
            if len(b) != 1: continue
            b = b[0]; mp = {}; bad = set()
            for u, v in ((x["params"], b["params"]), (x["binds"], b["binds"])):
                if len(u) != len(v): continue
                for n, o in zip(u, v):
                    if n == o or not n or not o: continue
                    if mp.get(n, o) != o: bad.add(n)
                    mp[n] = o
            lit = literal_braces(ts, x["lo"], x["hi"] + 1, fns)
            occ = lambda w: [k for k in range(x["lo"] + 2, x["hi"] + 1) if ts[k][0] == "i" and ts[k][1] == w and ts[k - 1][1] != "." and not (k in lit and ts[k + 1][1] == ":")]
            mp = {n: o for n, o in mp.items() if n not in bad and n not in b["idents"] and list(mp.values()).count(o) == 1 and not occ(o) and not any(ts[k + 1][1] in ("(", "::", "!") for k in occ(n))}
            if not mp: continue
            ren += ["%s: %s is %s" % (x["name"], o, n) for n, o in mp.items()]
            for n, o in mp.items():
                for k in occ(n):
                    short = k in lit and ts[k - 1][1] in (",", "{") and ts[k + 1][1] in (",", "}")
                    ed.append((ts[k][2], ts[k][3], "%s: %s" % (n, o) if short else o))
        new[f] = apply(t, ed)
    return new, ren

def tree(root, names, out):
    """the directory the extractor reads"""
    try:
        new, ren = canonical(root, json.load(open(names)))
    except (IndexError, KeyError, ValueError, RecursionError) as e:
        return root, []
    if not ren: return root, []
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(root, out)
    for f, t in new.items(): open(os.path.join(out, f), "w").write(t)
    return out, ren
