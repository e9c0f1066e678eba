#!/usr/bin/env python3
"""Mechanical extraction of items from Rust source files of /repo, with contracts inserted.

Nothing of an extracted function is retyped: its text is copied from the current source on every run.  Changes
made to the copy are limited to, and listed as:
  * doc comments, attributes and #[cfg(test)] items dropped;
  * calls of logging macros (log::..!, debug!, trace!, info!, warn!, error!) and debug_assert!s dropped or kept as asked;
  * `pub(crate)`, `pub(super)` widened to `pub`;
  * the return type given a name, so that the contract can mention the result;
  * contract clauses inserted between signature and body, between loop header and loop body and in closures;
  * the `sub` rewrites written next to the contract (each is reported in the evidence).
"""
import re


class ExtractError(Exception):
    """the anchor is gone, or its shape is not the one the annotations were written for"""


def mask(src):
    """Same length as src, with the contents of comments, strings and char literals blanked."""
    out = list(src)
    i, n = 0, len(src)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "

    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == '"' or (c in "br" and re.match(r'(?:b?r#*"|b")', src[i:i + 12]) and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == "_"))):
            m = re.match(r'(b?)(r?)(#*)"', src[i:])
            if m.group(2):
                end = '"' + m.group(3)
                j = src.find(end, i + m.end())
                j = n if j < 0 else j + len(end)
            else:
                j = i + m.end()
                while j < n and src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            blank(i + m.end(), j - 1 - len(m.group(3)))
            i = j
        elif c == "'":
            m = re.match(r"'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'", src[i:])
            if m:
                blank(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


OPEN, CLOSE = "([{", ")]}"


def match_close(m, i):
    """index just behind the bracket that closes m[i]"""
    st = []
    for k in range(i, len(m)):
        c = m[k]
        if c in OPEN:
            st.append(c)
        elif c in CLOSE:
            st.pop()
            if not st:
                return k + 1
    raise ExtractError("unbalanced brackets")


def norm(s):
    s = re.sub(r"\s+", " ", s).strip()
    s = re.sub(r"\s*([<>(),:&])\s*", r"\1", s)
    return s


def top_items(src, m, a, b):
    """(header_start, header_end, body_end, keyword, header text) of items directly inside src[a:b]; body is m[header_end:body_end]"""
    items = []
    i = a
    start = a
    while i < b:
        c = m[i]
        if c == "#" and re.match(r"#!?\s*\[", m[i:i + 8]):
            j = m.index("[", i)
            i = match_close(m, j)
            continue
        if c in "([":
            i = match_close(m, i)
            continue
        if c == "{":
            e = match_close(m, i)
            items.append((start, i, e))
            i = e
            start = i
            continue
        if c == ";":
            items.append((start, i, i + 1))
            i += 1
            start = i
            continue
        if c == "=" and not re.search(r"\b(fn|impl|trait|struct|enum|mod|union)\b", m[start:i]):  # const/static/type initialiser, or `=>`: skip to ;
            # walk to the ; at depth 0
            k = i
            while k < b and m[k] != ";":
                if m[k] in OPEN:
                    k = match_close(m, k)
                else:
                    k += 1
            items.append((start, i, k + 1))
            i = k + 1
            start = i
            continue
        i += 1
    return items


def strip_attrs(src, m, a, b):
    """index of first char of the item proper (behind attributes/comments); and list of attributes"""
    attrs = []
    i = a
    while i < b:
        if m[i].isspace():
            i += 1
            continue
        if m[i] == "#" and re.match(r"#!?\s*\[", m[i:i + 8]):
            j = m.index("[", i)
            e = match_close(m, j)
            attrs.append(src[i:e])
            i = e
            continue
        break
    return i, attrs


ITEM_RE = re.compile(r"^(?:pub(?:\s*\([^)]*\))?\s+)?(?:default\s+)?(?:const\s+(?=(?:unsafe\s+|async\s+|extern\b.*)?fn\b))?(?:async\s+)?(?:unsafe\s+)?(?:extern\s+\"[^\"]*\"\s+)?(fn|struct|enum|trait|mod|impl|const|static|type|macro_rules!|union|use)\b(?:\s*([A-Za-z_][A-Za-z0-9_]*))?")


class Source:
    def __init__(self, path):
        try:
            self.src = open(path, encoding="utf-8").read()
        except OSError as e:
            raise ExtractError(f"source file missing: {path}")
        self.path = path
        self.m = mask(self.src)

    def items(self, a=0, b=None):
        b = len(self.src) if b is None else b
        out = []
        for (s, h, e) in top_items(self.src, self.m, a, b):
            i, attrs = strip_attrs(self.src, self.m, s, h)
            if any(re.match(r"#\s*\[\s*cfg\s*\(\s*test\s*\)", x) for x in attrs):
                continue
            head = self.m[i:h]
            mm = ITEM_RE.match(head)
            if not mm:
                continue
            out.append({"start": i, "head_end": h, "end": e, "kind": mm.group(1), "name": mm.group(2), "head": norm(self.src_head(i, h)), "attrs": attrs})
        return out

    def src_head(self, i, h):
        return re.sub(r"//[^\n]*", "", self.src[i:h])

    def find(self, path):
        """path: 'impl X for Y/fn f' or 'fn f' or 'mod a/struct S'"""
        spans = [(0, len(self.src))]
        parts = path.split("/")
        for k, part in enumerate(parts):
            kind, _, name = part.partition(" ")
            found = []
            for (a, b) in spans:
                for it in self.items(a, b):
                    if kind == "impl":
                        if it["kind"] == "impl" and self.impl_matches(it["head"], norm(part)):
                            found.append(it)
                    elif it["kind"] == kind and it["name"] == name:
                        found.append(it)
            if not found:
                raise ExtractError(f"{self.path}: no item {part!r} (of {path!r})")
            if k == len(parts) - 1:
                if len(found) > 1:
                    raise ExtractError(f"{self.path}: {path!r} is ambiguous")
                return found[0]
            spans = [(it["head_end"] + 1, it["end"] - 1) for it in found]
        raise ExtractError(path)

    @staticmethod
    def impl_matches(head, want):
        h = re.sub(r"\bwhere\b.*$", "", head).strip()
        h2 = re.sub(r"^impl<.*?>\s*(?=[A-Z&(])", "impl ", h) if not want.startswith("impl<") else h
        h2 = norm(h2)
        want = norm(want)
        return h2 == want or re.sub(r"<'[a-z_]+>", "", h2) == want

    def text(self, it):
        return self.src[it["start"]:it["end"]]


LOG = re.compile(r"\b(?:log::)?(?:trace|debug|info|warn|error|println|eprintln)!\s*\(")


def drop_macros(t, names_re=LOG):
    """removes statements `name!(...);`"""
    dropped = []
    while True:
        m = mask(t)
        hit = None
        for x in names_re.finditer(m):
            j = x.end() - 1
            e = match_close(m, j)
            k = e
            while k < len(m) and m[k].isspace():
                k += 1
            # only in statement position
            p = x.start() - 1
            while p >= 0 and m[p].isspace():
                p -= 1
            if p >= 0 and m[p] in "{};":
                if k < len(m) and m[k] == ";":
                    hit = (x.start(), k + 1, "")
                elif k < len(m) and m[k] == "}":
                    hit = (x.start(), e, "()")
                if hit:
                    break
            elif p >= 1 and m[p - 1:p + 1] == "=>":
                hit = (x.start(), e, "()")
                break
        if not hit:
            return t, dropped
        dropped.append(re.sub(r"\s+", " ", t[hit[0]:hit[1]])[:80])
        t = t[:hit[0]] + hit[2] + t[hit[1]:]


def strip_comments(t):
    """drops comments (they may hold anything) and attributes inside the item"""
    out, i = [], 0
    m = mask(t)
    n = len(t)
    while i < n:
        if t.startswith("//", i) and m[i] == " ":
            j = t.find("\n", i)
            i = n if j < 0 else j
            continue
        if t.startswith("/*", i) and m[i] == " ":
            d, j = 1, i + 2
            while j < n and d:
                if t.startswith("/*", j):
                    d += 1
                    j += 2
                elif t.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        if m[i] == "#" and re.match(r"#!?\s*\[", m[i:i + 8]):
            i = match_close(m, m.index("[", i))
            continue
        x = re.match(r"0b[01_]+(?![0-9A-Za-z_])", m[i:i + 80]) if m[i] == "0" and not re.match(r"[0-9A-Za-z_]", m[i - 1] if i else " ") else None
        if x:  # a binary literal in decimal: the verifier's front end misreads them
            out.append(str(int(x.group(0)[2:].replace("_", ""), 2)))
            i += x.end()
            continue
        out.append(t[i])
        i += 1
    return "".join(out)


def body_open(m):
    """index of the { that opens the body of the fn whose masked text is m"""
    i = m.index("fn ")
    # skip generics and parameters
    k = i
    while k < len(m):
        c = m[k]
        if c in "([":
            k = match_close(m, k)
            continue
        if c == "{":
            return k
        if c == ";":
            raise ExtractError("function without body")
        k += 1
    raise ExtractError("no body")


def loops_of(m, a):
    """[(kw_start, body_open)] of the loops in m[a:], in source order"""
    out = []
    for x in re.finditer(r"(?<![A-Za-z0-9_'.])(for|while|loop)\b", m[a:]):
        s = a + x.start()
        if x.group(1) == "for" and re.match(r"for\s*<", m[s:]):
            continue
        k = s + len(x.group(1))
        while k < len(m) and m[k] != "{":
            if m[k] in "([":
                k = match_close(m, k)
            elif m[k] == ";":
                k = -1
                break
            else:
                k += 1
        if k < 0 or k >= len(m):
            continue
        out.append((s, k, x.group(1)))
    return out


def closures_of(m, a):
    """[(start of |, end of params, start of body expr, end of body expr)]"""
    out = []
    for x in re.finditer(r"(?<=[(,=\s])(?:move\s+)?\|([^|\n]*)\|(?!\|)", m[a:]):
        s = a + x.start()
        p = s - 1
        while p >= 0 and m[p].isspace():
            p -= 1
        if m[p] not in "(,=":
            continue
        e = a + x.end()
        k = e
        while k < len(m) and m[k].isspace():
            k += 1
        bs = k
        while k < len(m):
            c = m[k]
            if c in OPEN:
                k = match_close(m, k)
                continue
            if c in CLOSE or c in ",;":
                break
            k += 1
        out.append((s, e, bs, k))
    return out


def unindex(t):
    """`for (I, X) in V.iter[_mut]().enumerate() {BODY}`  ->  `for I in 0..V.len() {BODY with V[I] for *X, &V[I] for X}`"""
    n = 0
    while True:
        m = mask(t)
        x = re.search(r"for \(\s*(\w+)\s*,\s*(\w+)\s*\) in (\w+(?:\.\w+)*)\s*\.\s*iter(_mut)?\(\)\s*\.\s*enumerate\(\)\s*\{", m)
        if not x:
            return t, n
        cl = match_close(m, x.end() - 1)
        i, e, v = x.group(1), x.group(2), x.group(3)
        body = t[x.end():cl]
        if not x.group(4):
            body = f" let {e} = &{v}[{i}];" + body
        else:
            if re.search(rf"(?<![*\w.]){e}\b(?!\.)", mask(body)):
                raise ExtractError("an element of an indexed loop that is not used in place")
            body = re.sub(rf"\*{e}\b|(?<![\w.]){e}\b(?=\.)", f"{v}[{i}]", body)
        t = t[:x.start()] + f"for {i} in 0..{v}.len() {{" + body + t[cl:]
        n += 1


def unfold(t):
    """`RECV.fold(INIT, |mut acc, PAT| { BODY acc })`  ->  `{ let mut acc = INIT; for item_ in RECV { let PAT = item_; BODY } acc }`"""
    n = 0
    while True:
        m = mask(t)
        x = re.search(r"\.\s*fold\s*\(", m)
        if not x:
            return t, n
        op = x.end() - 1
        cl = match_close(m, op)  # after )
        # receiver: back to the start of the expression
        k, depth = x.start() - 1, 0
        while k >= 0:
            c = m[k]
            if c in ")]}":
                depth += 1
            elif c in "([{":
                if depth == 0:
                    break
                depth -= 1
            elif c in ";=," and depth == 0:
                break
            k -= 1
        rs = k + 1
        recv = t[rs:x.start()].strip()
        inner, mi = t[op + 1:cl - 1], m[op + 1:cl - 1]
        depth, c0 = 0, None
        for i, c in enumerate(mi):
            if c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
            elif c == "," and depth == 0:
                c0 = i
                break
        z = re.match(r"\s*\|\s*(\w+)\s*,\s*([\w&() ,]*?)\s*\|(?!\|)\s*(?!\{)(.*?)\s*,?\s*$", inner[c0 + 1:], re.S) if c0 is not None else None
        if z and z.group(1) != "mut" and not re.search(r"\breturn\b|\?", mask(z.group(3))):
            t = t[:rs] + f" {{ let mut {z.group(1)} = {inner[:c0].strip()}; for item_ in {recv} {{ let {z.group(2).strip()} = item_; {z.group(1)} = {z.group(3)}; }} {z.group(1)} }}" + t[cl:]
            n += 1
            continue
        y = re.match(r"\s*\|\s*mut\s+(\w+)\s*,\s*(.*?)\|\s*\{(.*)\b(\w+)\s*\}\s*,?\s*$", inner[c0 + 1:], re.S) if c0 is not None else None
        if not y or y.group(1) != y.group(4):
            raise ExtractError("a fold whose closure does not end with its accumulator")
        body = y.group(3)
        if not re.search(r"[;}]\s*$", body) or re.search(r"\breturn\b|\?", mask(body)):
            raise ExtractError("a fold whose closure does not end with its accumulator")
        t = t[:rs] + f" {{ let mut {y.group(1)} = {inner[:c0].strip()}; for item_ in {recv} {{ let {y.group(2).strip()} = item_; {body} }} {y.group(1)} }}" + t[cl:]
        n += 1


def expr_start(m, k):
    """start of the method-call chain that ends before position k"""
    depth = 0
    k -= 1
    while k >= 0:
        c = m[k]
        if c in ")]}":
            depth += 1
        elif c in "([{":
            if depth == 0:
                break
            depth -= 1
        elif c in ";=,|" and depth == 0:
            break
        elif c == ":" and depth == 0 and m[k - 1] != ":" and m[k + 1] != ":":
            break
        k -= 1
    return k + 1


def uncollect(t, types=()):
    """`A.iter()[.enumerate()][.zip(B.iter())].map(|PAT| BODY).collect()` (or `.for_each(|PAT| BODY)`)  ->  the counting loop it stands for:
    `{ let mut outN_ = Vec::new(); let mut atN_: usize = 0; while atN_ < A.len() { let PAT = ..; let vN_ = BODY; outN_.push(vN_); atN_ = atN_ + 1; } outN_ }`"""
    n, skip = 0, 0
    # a constructor is the closure that applies it
    t = re.sub(r"\.\s*map\s*\(\s*((?:\w+\s*::\s*)+[A-Z]\w*)\s*\)(?=\s*\.\s*collect\b)", r".map(|x_| \1(x_))", t)
    while True:
        m = mask(t)
        x = re.compile(r"\.\s*(map|filter_map|for_each)\s*\(\s*\|").search(m, skip)
        if not x:
            return t, n
        op = m.index("(", x.start())
        cl = match_close(m, op)
        tail = re.match(r"\s*\.\s*collect\s*(?:::\s*<\s*Vec\s*<.*?>\s*>)?\s*\(\s*\)", m[cl:], re.S)
        zipped = re.match(r"\s*\.\s*unzip\s*\(\s*\)", m[cl:])
        summed = re.match(r"\s*\.\s*sum\s*::\s*<\s*(\w+)\s*>\s*\(\s*\)", m[cl:])
        tail = tail or zipped or summed
        rs = expr_start(m, x.start())
        recv = re.sub(r"\s+", " ", t[rs:x.start()]).strip()
        recv = re.sub(r"\s*\.\s*", ".", recv)
        y = re.match(r"((?:\w+\.)*\w+)\.(?:into_)?iter\(\)((?:\.enumerate\(\)|\.zip\((?:\w+\.)*\w+\.iter\(\)\))*)$", recv)
        z = re.match(r"(\w+(?:\.\w+(?:\(\))?)*\.\w+\(\))\.((?:into_)?iter\(\))$", recv) if not y else None
        if z:
            y = re.match(r"(\w+)\.(?:into_)?iter\(\)()$", f"src{n}_.{z.group(2)}")
        if not y or (x.group(1) != "for_each" and not tail) or (x.group(1) == "filter_map" and (zipped or summed)):
            skip = x.end()
            continue
        at, out, v, held = f"at{n}_", f"out{n}_", f"v{n}_", ""
        if z:
            held = f"let {y.group(1)} = {z.group(1)}; "
        srcs, tup = [y.group(1)], f"&{y.group(1)}[{at}]"
        if ".into_iter()" in recv:
            tup = f"own_({tup})"
        for a in re.finditer(r"\.enumerate\(\)|\.zip\(((?:\w+\.)*\w+)\.iter\(\)\)", y.group(2)):
            if a.group(1):
                srcs.append(a.group(1))
                tup = f"({tup}, &{a.group(1)}[{at}])"
            else:
                tup = f"({at}, {tup})"
        inner, mi = t[op + 1:cl - 1], m[op + 1:cl - 1]
        p0 = mi.index("|")
        depth, p1 = 0, p0 + 1
        while mi[p1] != "|":
            p1 += 1
        pat, body = inner[p0 + 1:p1].strip(), inner[p1 + 1:].strip().rstrip(",")
        if re.search(r"\breturn\b|\?", mask(body)):
            skip = x.end()
            continue
        cond = " && ".join(f"{at} < {s}.len()" for s in srcs)
        if x.group(1) == "map" and zipped:
            new = f" {{ {held}let mut {out} = Vec::new(); let mut {out}b = Vec::new(); let mut {at}: usize = 0; while {cond} {{ let {pat} = {tup}; let ({v}, {v}b) = {body}; {out}.push({v}); {out}b.push({v}b); {at} = {at} + 1; }} ({out}, {out}b) }}"
            end = cl + tail.end()
        elif summed:
            new = f" {{ {held}let mut {out}: {summed.group(1)} = 0; let mut {at}: usize = 0; while {cond} {{ let {pat} = {tup}; let {v} = {body}; {out} = {out} + {v}; {at} = {at} + 1; }} {out} }}"
            end = cl + tail.end()
        elif x.group(1) == "map":
            new = f" {{ {held}let mut {out}{': Vec<' + types[n] + '>' if n < len(types) else ''} = Vec::new(); let mut {at}: usize = 0; while {cond} {{ let {pat} = {tup}; let {v} = {body}; {out}.push({v}); {at} = {at} + 1; }} {out} }}"
            end = cl + tail.end()
        elif x.group(1) == "filter_map":
            new = f" {{ {held}let mut {out}{': Vec<' + types[n] + '>' if n < len(types) else ''} = Vec::new(); let mut {at}: usize = 0; while {cond} {{ let {pat} = {tup}; if let Some({v}) = {body} {{ {out}.push({v}); }} {at} = {at} + 1; }} {out} }}"
            end = cl + tail.end()
        else:
            new = f" {{ {held}let mut {at}: usize = 0; while {cond} {{ let {pat} = {tup}; {body}; {at} = {at} + 1; }} }}"
            end = cl
        t = t[:rs] + new + t[end:]
        n += 1


def uncontinue(t):
    """in a `for` body: `if C { S continue; } REST`  ->  `if C { S } else { REST }` (the verifier has no `continue` in `for`)"""
    n = 0
    while True:
        m = mask(t)
        hit = None
        for (_, bo, kw) in loops_of(m, body_open(m)):
            if kw != "for":
                continue
            end = match_close(m, bo) - 1
            i, start = bo + 1, True
            while i < end:
                c = m[i]
                if c.isspace():
                    i += 1
                    continue
                if start and re.match(r"if\b", m[i:]):
                    k = i
                    while k < end and m[k] != "{":
                        k = match_close(m, k) if m[k] in "([" else k + 1
                    e = match_close(m, k)
                    x = re.search(r"\bcontinue\s*;?\s*$", m[k + 1:e - 1])
                    if x and not re.match(r"\s*else\b", m[e:]):
                        hit = (k + 1 + x.start(), e, end)
                        break
                start = c in ";}"
                i = match_close(m, i) if c in OPEN else i + 1
                if c == "{":
                    start = True
            if hit:
                break
        if not hit:
            return t, n
        a, e, end = hit
        t = t[:a] + "} else {" + t[e:end] + "}" + t[end:]
        n += 1


def split_args(t):
    """the comma-separated arguments of a macro call (commas inside brackets or turbofish do not count)"""
    m, out, last, i, ang = mask(t), [], 0, 0, 0
    while i < len(t):
        if m[i] in OPEN:
            i = match_close(m, i)
            continue
        if m.startswith("::<", i) or (ang and m[i] == "<"):
            ang += 1
            i += 3 if m.startswith("::<", i) else 1
            continue
        if ang and m[i] == ">" and m[i - 1] not in "-=":
            ang -= 1
        if m[i] == "," and not ang:
            out.append(t[last:i].strip())
            last = i + 1
        i += 1
    if t[last:].strip():
        out.append(t[last:].strip())
    return out


def macro_defs(source):
    """name -> [(parameter names, name of the trailing `$(, $x: kind)*` list or None, body)], for macros of that plain form"""
    defs = {}
    for x in re.finditer(r"\bmacro_rules!\s*(\w+)\s*\{", source.m):
        o = x.end() - 1
        e = match_close(source.m, o)
        arms, i = [], o + 1
        while True:
            while i < e - 1 and (source.m[i].isspace() or source.m[i] == ";"):
                i += 1
            if i >= e - 1:
                break
            pe = match_close(source.m, i)
            pat = strip_comments(source.src[i + 1:pe - 1]).strip()
            b = re.compile(r"\s*=>\s*").match(source.m, pe)
            if not b:
                raise ExtractError(f"macro {x.group(1)}: an arm of another form")
            be = match_close(source.m, b.end())
            rest = re.search(r"\$\s*\(\s*,\s*\$(\w+)\s*:\s*\w+\s*\)\s*\*\s*$", pat)
            plain = pat[:rest.start()] if rest else pat
            names = []
            for a in [q.strip() for q in plain.split(",") if q.strip()]:
                y = re.fullmatch(r"\$(\w+)\s*:\s*(?:ident|expr|ty|path|literal)", a)
                if not y:
                    raise ExtractError(f"macro {x.group(1)}: parameter {a!r}")
                names.append(y.group(1))
            body = strip_comments(source.src[b.end() + 1:be - 1])
            arms.append((names, rest.group(1) if rest else None, body))
            i = be
        defs[x.group(1)] = arms
    return defs


def expand_macros(t, defs):
    """invocations of the macros in defs replaced by what they stand for"""
    n = 0
    while True:  # definitions inside the function
        m = mask(t)
        x = re.search(r"\bmacro_rules!\s*\w+\s*(?=\{)", m)
        if not x:
            break
        t = t[:x.start()] + t[match_close(m, x.end()):]
    while True:
        m = mask(t)
        x = re.compile(r"\b(" + "|".join(map(re.escape, defs)) + r")!\s*(?=[(\[{])").search(m) if defs else None
        if not x:
            return t, n
        o = m.index(m[x.end()], x.end())
        e = match_close(m, o)
        args = split_args(t[o + 1:e - 1])
        for names, rest, body in defs[x.group(1)]:
            if len(args) == len(names) or (rest and len(args) >= len(names)):
                break
        else:
            raise ExtractError(f"{x.group(1)}!: no arm takes {len(args)} arguments")
        if rest:
            body = re.sub(r"\$\s*\(\s*\$" + rest + r"\s*,?\s*\)\s*(,?)\s*\*", lambda _: ", ".join(args[len(names):]), body)
            while True:  # `$( .. $rest .. )*`
                mb = mask(body)
                y = re.search(r"\$\s*\(", mb)
                if not y:
                    break
                c = match_close(mb, y.end() - 1)
                z = re.match(r"\s*\*", mb[c:])
                if not z or not re.search(r"\$" + rest + r"\b", body[y.end():c - 1]):
                    raise ExtractError(f"{x.group(1)}!: a repetition of another form")
                part = body[y.end():c - 1]
                body = body[:y.start()] + " ".join(re.sub(r"\$" + rest + r"\b", lambda _: a, part) for a in args[len(names):]) + body[c + z.end():]
        for k, v in zip(names, args):
            body = re.sub(r"\$" + k + r"\b", lambda _: v, body)
        if "$" in mask(body):
            raise ExtractError(f"{x.group(1)}!: a repetition of another form")
        n += 1
        body = body.strip()
        if not body.startswith("{") and ";" not in mask(body) and re.search(r"&&|\|\|", mask(body)):
            body = "(" + body + ")"
        t = t[:x.start()] + body + t[e:]
        if n > 200:
            raise ExtractError("macros without end")


def annotate(text, d):
    """d: dict(ret, spec, loops{ordinal: (iter, clauses)}, loopstart{}, loopend{}, start, closures{ordinal: clauses}, nloops, subs[(re, repl, count)], keep_log)"""
    notes = []
    t = strip_comments(text)
    t = re.sub(r"\bpub\s*\([^)]*\)", "pub", t)
    t = re.sub(r"\|\s*_\s*\|", "|_unused|", t)  # the verifier wants a name
    if not d.get("keep_log"):
        t, dr = drop_macros(t)
        if dr:
            notes.append(f"dropped {len(dr)} logging statement(s)")
    if d.get("macros"):
        t, n = expand_macros(t, d["macros"])
        if n:
            notes.append(f"{n} macro call(s) expanded")
    for (pat, rep, cnt) in d.get("subs", []):
        t2, n = re.subn(pat, rep, t, flags=re.S)
        if cnt is not None and n < cnt:
            raise ExtractError(f"rewrite {pat!r} matched {n} times, expected at least {cnt}")
        if n:
            notes.append(f"rewrote {pat} -> {rep} ({n}x)")
        t = t2
    t, n = uncontinue(t)
    if n:
        notes.append(f"{n} continue(s) written as else branches")
    t, n = unindex(t)
    if n:
        notes.append(f"{n} enumerated loop(s) written over indices")
    if d.get("fold"):
        t, n = unfold(t)
        if n:
            notes.append(f"{n} fold(s) written as the loop they stand for")
    if d.get("collect"):
        t, n = uncollect(t, d["collect"] if d["collect"] is not True else ())
        if n:
            notes.append(f"{n} map/collect chain(s) written as the loop they stand for")
    m = mask(t)
    bo = body_open(m)
    ms = re.search(r"\(\s*mut\s+self\b", m[:bo])
    if ms:
        # `mut self`: the verifier wants a local instead
        head, body = t[:bo], t[bo + 1:]
        head = head[:ms.start()] + "(self" + head[ms.end():]
        mb, bits, last = mask(body), [], 0
        for x in re.finditer(r"\bself\b", mb):
            bits += [body[last:x.start()], "self_"]
            last = x.end()
        t = head + "{ let mut self_ = self; " + "".join(bits) + body[last:]
        notes.append("`mut self` bound to a local")
        m = mask(t)
        bo = body_open(m)
    ins = []  # (pos, text)
    loops = loops_of(m, bo)
    if d.get("nloops") is not None and len(loops) != d["nloops"]:
        raise ExtractError(f"function has {len(loops)} loops, annotations are for {d['nloops']}")
    for o, (it, cl) in d.get("loops", {}).items():
        if o >= len(loops):
            raise ExtractError(f"loop {o} is gone")
        s, k, kw = loops[o]
        ins.append((k, "\n" + cl + "\n"))
        if it:
            x = re.compile(r"\bin\b").search(m, s, k)
            if kw != "for" or not x:
                raise ExtractError(f"loop {o} is no longer a for loop")
            ins.append((x.end(), f" {it}:"))
    for o, cl in d.get("loopstart", {}).items():
        if o >= len(loops):
            raise ExtractError(f"loop {o} is gone")
        ins.append((loops[o][1] + 1, "\n" + cl + "\n"))
    for o, cl in d.get("loopbefore", {}).items():
        if o >= len(loops):
            raise ExtractError(f"loop {o} is gone")
        ins.append((loops[o][0], "\n" + cl + "\n"))
    for o, cl in d.get("loopend", {}).items():
        if o >= len(loops):
            raise ExtractError(f"loop {o} is gone")
        ins.append((match_close(m, loops[o][1]) - 1, "\n" + cl + "\n"))
    for o, cl in d.get("loopafter", {}).items():
        if o >= len(loops):
            raise ExtractError(f"loop {o} is gone")
        ins.append((match_close(m, loops[o][1]), "\n" + cl + "\n"))
    cls = closures_of(m, bo) if d.get("closures") else []
    for o, cl in d.get("closures", {}).items():
        if o >= len(cls):
            raise ExtractError(f"closure {o} is gone")
        s, e, bs, be = cls[o]
        if m.startswith("->", bs):  # the closure states its type itself: the contract names the result and adds its clauses
            ob = m.index("{", bs)
            x = re.match(r"\s*->\s*\((\w+)\s*:", cl)
            y = re.search(r"\b(requires|ensures)\b", cl)
            ins.append((bs + 2, f" ({x.group(1) if x else 'r'}:"))
            ins.append((len(t[:ob].rstrip()), ") " + (cl[y.start():] if y else "") + " "))
            continue
        ins.append((e, " " + cl + " "))
        if m[bs] != "{":
            ins.append((bs, "{ "))
            ins.append((be, " }"))
    start = d.get("start", "")
    if d.get("probe"):
        start = "proof { assert(false); }\n" + start
    if start:
        ins.append((bo + 1, "\n" + start + "\n"))
    if d.get("end"):
        e = match_close(m, bo) - 1
        ins.append((e, "\n" + d["end"] + "\n"))
    if d.get("isolate"):
        ins.append((0, "#[verifier::loop_isolation(true)]\n"))
    # signature
    sig = m[:bo]
    if d.get("ret"):
        depth, arrow = 0, None
        i = sig.index("fn ")
        k = i
        while k < len(sig):
            if sig[k] in "([":
                k = match_close(m, k)
                continue
            if sig.startswith("->", k):
                arrow = k
                break
            k += 1
        if arrow is None:
            ins.append((len(sig.rstrip()), f" -> ({d['ret']}: ())"))
        else:
            w = re.compile(r"\bwhere\b").search(sig, arrow)
            te = w.start() if w else bo
            ty = t[arrow + 2:te].strip()
            ins.append((arrow + 2, f" ({d['ret']}:"))
            ins.append((len(t[:te].rstrip()), ")"))
    if d.get("spec"):
        ins.append((bo, "\n" + d["spec"] + "\n"))
    order = sorted(range(len(ins)), key=lambda q: (ins[q][0], q))
    out, last = [], 0
    for q in order:
        p, x = ins[q]
        out.append(t[last:p])
        out.append(x)
        last = p
    out.append(t[last:])
    return "".join(out), notes, len(loops)
