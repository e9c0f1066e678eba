#!/usr/bin/env python3
"""axv check <ID> [--tier quick|thorough]: decides one property (see DESIGN.md).

1. extracts the functions under contract from /repo's current source into a Verus file and lets Verus discharge
   every obligation (and checks that no contract is vacuous);
2. compiles the crates of /repo's current tree together with the property's search driver and runs it.
Outcome: a failing input on the real code -> VIOLATION; an obligation that Verus refutes -> VIOLATION (with the
failing input if the driver found one); everything discharged / nothing found -> exit 0.  Functions whose source no
longer has the shape the annotations were written for are reported as not re-established in the evidence (bounded by
the driver's search on this run).
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract as X
import rustbuild as RB

REPO = RB.REPO
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"

VERIFY_FAIL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied", "invariant not satisfied",
               "possible arithmetic underflow/overflow", "decreases not satisfied", "possible division by zero",
               "possible bit shift", "could not prove termination", "unable to prove", "constant overflow", "cannot show invariant", "loop invariant not",
               "index out of bounds", "requires not satisfied", "might not be allowed", "possible overflow", "split assertion failure",
               "argument bit-width does not match", "postcondition not met", "fails to satisfy", "failed precondition", "ensures not satisfied")
UNDECIDED = ("is not supported", "not yet supported", "rlimit", "Resource limit", "timed out", "canceled")


class Mapping:
    def __init__(self):
        self.units = []  # dict(name, file, item, first, last, notes, requires)


def derive_rlp(file, item):
    """struct copied from /repo, with the layout rlp_derive's macros give it (fields in declared order; Vec as list)"""
    s = X.Source(os.path.join(REPO, file))
    it = s.find(item)
    name = it["name"]
    at = " ".join(it["attrs"])
    m = re.search(r"derive\s*\(([^)]*)\)", at)
    ds = [x.strip().split("::")[-1] for x in ",".join(re.findall(r"derive\s*\(([^)]*)\)", at)).split(",")]
    if "RlpEncodable" not in ds or "RlpDecodable" not in ds:
        raise X.ExtractError("the codec is no longer derived")
    raw = s.text(it)
    if re.search(r"#\s*\[\s*rlp", raw):
        raise X.ExtractError("codec attribute on a field")
    t = X.strip_comments(raw)
    t = re.sub(r"\bpub\s*\([^)]*\)", "pub", t)
    tup = re.search(r"struct\s+\w+\s*\(([^()]*)\)\s*;", t)
    if tup:
        fl = [re.sub(r"^\s*pub\b", "", x).strip() for x in tup.group(1).split(",") if x.strip()]
        t = f"pub struct {name}(" + ", ".join("pub " + x for x in fl) + ");"
        t += ""
        body = ", ".join(f"{k}: {x}" for k, x in enumerate(fl))
    else:
        body = t[t.index("{") + 1:t.rindex("}")]
    fs, depth, cur = [], 0, ""
    for ch in body:
        depth += ch in "<([" 
        depth -= ch in ">)]"
        if ch == "," and depth == 0:
            fs.append(cur); cur = ""
        else:
            cur += ch
    fs.append(cur)
    fields = []
    for f in fs:
        f = f.strip()
        if f:
            n, ty = f.split(":", 1)
            fields.append((re.sub(r"\bpub\b", "", n).strip(), " ".join(ty.split())))
    o = [t, f"impl Enc for {name} {{ open spec fn item(&self) -> Item {{ Item::List(seq!["]
    vec = lambda ty: re.match(r"Vec\s*<(.*)>$", ty)
    for n, ty in fields:
        if vec(ty) and vec(ty).group(1).strip() == "u8":
            raise X.ExtractError("Vec<u8> field in a derived codec")
        o.append(f"    {'list_item(self.' + n + '@)' if vec(ty) else 'self.' + n + '.item()'},")
    o.append("]) } }")
    o.append(f"impl Dec for {name} {{ open spec fn fits(it: Item) -> bool {{ it matches Item::List(v) && v.len() == {len(fields)}")
    for k, (n, ty) in enumerate(fields):
        o.append(f"    && ({'list_fits::<' + vec(ty).group(1) + '>' if vec(ty) else '<' + ty + ' as Dec>::fits'}(v[{k}]))")
    o.append(f"}} open spec fn of(it: Item) -> {name} {{ {name} {{")
    for k, (n, ty) in enumerate(fields):
        o.append(f"    {n}: {'list_of::<' + vec(ty).group(1) + '>' if vec(ty) else '<' + ty + ' as Dec>::of'}(it->List_0[{k}]),")
    o.append("} } }")
    o.append(f"impl Lawful for {name} {{ proof fn law(x: {name}) {{ let it = x.item();")
    for k, (n, ty) in enumerate(fields):
        o.append(f"    {'law_list::<' + vec(ty).group(1) + '>(x.' + n + ')' if vec(ty) else '<' + ty + ' as Lawful>::law(x.' + n + ')'};")
    o.append("} }")
    return "\n".join(o)


def derive_enum(file, item):
    """a field-less enum and the number each variant is cast to (the verifier's front end does not take discriminants)"""
    src = X.Source(os.path.join(REPO, file))
    t = X.strip_comments(src.text(src.find(item)))
    name = re.search(r"\benum\s+(\w+)", t).group(1)
    body = t[t.index("{") + 1:t.rindex("}")]
    vs, nxt = [], 0
    for p in [x.strip() for x in body.split(",") if x.strip()]:
        m = re.fullmatch(r"(\w+)(?:\s*=\s*([0-9][0-9A-Fa-fxo_]*))?", p)
        if not m:
            raise X.ExtractError(f"{name}: a variant that is not a plain one: {p}")
        if m.group(2):
            nxt = int(m.group(2).replace("_", ""), 0)
        vs.append((m.group(1), nxt))
        nxt += 1
    arms = ", ".join(f"{name}::{v} => {n}" for v, n in vs)
    return (f"pub enum {name} {{ {', '.join(v for v, _ in vs)} }}\n"
            f"impl {name} {{ pub open spec fn num(self) -> u64 {{ match self {{ {arms} }} }} pub fn as_num(self) -> (r: u64) ensures r == self.num() {{ match self {{ {arms} }} }} }}\n"
            f"impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: {name}) ensures r == *self {{ unimplemented!() }} }}\nimpl Copy for {name} {{}}\n"
            f"impl PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }} }}\n"
            f"impl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &{name}) -> bool {{ unimplemented!() }} }}")


def parse_template(path, probe=False, skip=()):
    """-> (verus text, units, trusted, soft errors)"""
    out, units, errors = [], [], []

    def emit(s):
        out.extend(s.split("\n"))

    def handle(lines, here):
        i = 0
        while i < len(lines):
            ln = lines[i]
            st = ln.strip()
            if st.startswith("//@include "):
                p = os.path.join(os.path.dirname(here), st.split(None, 1)[1].strip())
                handle(open(p).read().split("\n"), p)
                i += 1
                continue
            if st.startswith("//@derive "):
                file, item = [x.strip() for x in st.split(None, 1)[1].split(" :: ", 1)]
                first = len(out) + 1
                try:
                    emit(derive_rlp(file, item))
                    units.append({"name": item, "fn": False, "file": file, "line": 0, "item": item + " (derived codec)", "first": first, "last": len(out), "notes": [], "clauses": ""})
                except X.ExtractError as e:
                    errors.append(f"{file} :: {item}: {e}")
                i += 1
                continue
            if st.startswith("//@expand "):  # every item-level call of a macro of that file, expanded
                st, _, rw = st.partition(" with ")
                file, mac = [x.strip() for x in st.split(None, 1)[1].split(" :: ", 1)]
                rw = re.match(r"/(.*)/ => /(.*)/$", rw)
                first = len(out) + 1
                try:
                    src = X.Source(os.path.join(REPO, file))
                    defs = {mac: X.macro_defs(src).get(mac)}
                    if not defs[mac]:
                        raise X.ExtractError(f"no macro {mac}")
                    for x in re.finditer(r"^" + mac + r"!\s*(?=\()", src.m, re.M):
                        e = X.match_close(src.m, src.m.index("(", x.start()))
                        t = X.expand_macros(src.src[x.start():e], defs)[0]
                        emit(re.sub(rw.group(1), rw.group(2), t, flags=re.S) if rw else t)
                    units.append({"name": mac, "fn": False, "file": file, "line": 0, "item": mac + "! (expanded)", "first": first, "last": len(out), "notes": [], "clauses": ""})
                except X.ExtractError as e:
                    errors.append(f"{file} :: {mac}: {e}")
                i += 1
                continue
            if st.startswith("//@enum "):
                file, item = [x.strip() for x in st.split(None, 1)[1].split(" :: ", 1)]
                first = len(out) + 1
                try:
                    emit(derive_enum(file, item))
                    units.append({"name": item, "fn": False, "file": file, "line": 0, "item": item + " (variants and discriminants)", "first": first, "last": len(out), "notes": [], "clauses": ""})
                except X.ExtractError as e:
                    errors.append(f"{file} :: {item}: {e}")
                i += 1
                continue
            if st.startswith("//@item ") or st.startswith("//@fn "):
                isfn = st.startswith("//@fn ")
                file, item = [x.strip() for x in st.split(None, 1)[1].split(" :: ", 1)]
                d = {"subs": [], "loops": {}, "loopstart": {}, "loopend": {}, "loopbefore": {}, "loopafter": {}, "closures": {}}
                i += 1
                sec, buf = None, []

                def flush():
                    if sec is None:
                        return
                    txt = "\n".join(buf)
                    k = sec[0]
                    if k in ("spec", "start", "end"):
                        d[k] = txt
                    elif k == "loop":
                        d["loops"][int(sec[1])] = (sec[2] if len(sec) > 2 else None, txt)
                    elif k == "closure":
                        d["closures"][int(sec[1])] = " ".join(txt.split())
                    elif k in ("loopstart", "loopend", "loopbefore", "loopafter"):
                        d[k][int(sec[1])] = txt
                while i < len(lines):
                    s2 = lines[i].strip()
                    if s2 == "//@end":
                        flush()
                        i += 1
                        break
                    if s2.startswith("//@"):
                        flush()
                        sec, buf = None, []
                        w = s2[3:].strip()
                        key = w.split()[0]
                        if key == "sub":
                            mm = re.match(r"sub\s+/(.*?)/\s*=>\s*/(.*?)/\s*(\d+|\?)?$", w)
                            if not mm:
                                raise SystemExit(f"bad sub: {w}")
                            k = 0 if mm.group(3) == "?" else int(mm.group(3) or 0)
                            # a hint that finds no place would leave the proof without it: undecided, not refuted
                            if mm.group(3) != "?" and re.search(r"\bproof \{|\bghost\b|\bproof_decl\b|\breveal\b", mm.group(2)):
                                k = max(k, 1)
                            d["subs"].append((mm.group(1), mm.group(2), k))
                        elif key == "ret":
                            d["ret"] = w.split()[1]
                        elif key == "nloops":
                            d["nloops"] = int(w.split()[1])
                        elif key == "fold":
                            d["fold"] = True
                        elif key == "collect":
                            d["collect"] = w.split()[1:] or True
                        elif key == "isolate":
                            d["isolate"] = True
                        elif key == "keep_log":
                            d["keep_log"] = True
                        elif key == "alias":
                            d["alias"] = w.split()[1]
                        elif key == "macros":
                            d["want_macros"] = w.split()[1:] or [file]
                        elif key == "optional":
                            d["optional"] = True
                        else:
                            sec = w.split()
                    elif sec is not None:
                        buf.append(lines[i])
                    i += 1
                name = d.get("alias") or item
                try:
                    s = X.Source(os.path.join(REPO, file))
                    it = s.find(item)
                    t = s.text(it)
                    if isfn:
                        d["probe"] = probe
                        if d.get("want_macros"):
                            d["macros"] = {}
                            for mf in d["want_macros"]:
                                d["macros"].update(X.macro_defs(X.Source(os.path.join(REPO, mf))))
                        t, notes, _ = X.annotate(t, d)
                    else:
                        t = X.strip_comments(t)
                        t = re.sub(r"\bpub\s*\([^)]*\)", "pub", t)
                        notes = []
                        for (pat, rep, cnt) in d["subs"]:
                            t, n = re.subn(pat, rep, t, flags=re.S)
                            if n < cnt:
                                raise X.ExtractError(f"rewrite {pat!r} matched {n} times in {item}")
                            if n:
                                notes.append(f"rewrote {pat} -> {rep} ({n}x)")
                    first = len(out) + 1
                    emit(t)
                    line0 = s.src.count("\n", 0, it["start"]) + 1
                    units.append({"name": name, "fn": isfn, "file": file, "line": line0, "item": item, "first": first, "last": len(out), "notes": notes,
                                  "clauses": d.get("spec", "")})
                except (X.ExtractError, ValueError, IndexError) as e:
                    if not d.get("optional"):
                        errors.append(f"{file} :: {item}: {e}")
                continue
            out.append(ln)
            i += 1

    handle(open(path).read().split("\n"), path)
    return "\n".join(out), units, errors


def scan_trusted(text):
    """mechanical scan for everything Verus takes on trust in the generated file"""
    tr = []
    t = X.strip_comments(text) if False else text
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*((?:pub\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:proof\s+|spec\s+|exec\s+|broadcast\s+proof\s+)?(?:fn|struct)\s+\w+)", t):
        tr.append("external_body " + re.sub(r"\s+", " ", m.group(1)))
    for m in re.finditer(r"assume_specification(?:<[^>]*>)?\s*\[([^\]]*)\]", t):
        tr.append("assume_specification " + re.sub(r"\s+", " ", m.group(1)).strip())
    for m in re.finditer(r"\baxiom\s+fn\s+(\w+)", t):
        tr.append("axiom " + m.group(1))
    for m in re.finditer(r"\buninterp\s+spec\s+fn\s+(\w+)", t):
        tr.append("uninterpreted spec " + m.group(1))
    for m in re.finditer(r"\b(admit\s*\(\s*\)|assume\s*\()", t):
        tr.append("ASSUME " + t[max(0, m.start() - 0):m.end() + 60].split("\n")[0])
    return sorted(set(tr))


def run_verus(path, timeout, rlimit=None, extra=()):
    cmd = [VERUS, path, "--output-json", "--error-format=json", "--num-threads", "4", "--multiple-errors", "20"] + list(extra)
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"timeout": True, "wall": time.time() - t, "cmd": cmd, "errors": [], "verified": 0, "nerr": 0, "raw": "timeout"}
    errs = []
    for ln in r.stderr.split("\n"):
        ln = ln.strip()
        if not ln.startswith("{"):
            continue
        try:
            d = json.loads(ln)
        except ValueError:
            continue
        if d.get("level") == "error":
            if d["message"].startswith("aborting due to"):
                continue
            errs.append({"msg": d["message"], "lines": [(s["line_start"], s.get("label") or "", s.get("is_primary")) for s in d.get("spans", [])],
                         "rendered": d.get("rendered") or ""})
    res = {}
    mj = re.search(r"\{.*\}", r.stdout, re.S)
    if mj:
        try:
            res = json.loads(mj.group(0))
        except ValueError:
            res = {}
    vr = res.get("verification-results", {})
    tm = res.get("times-ms", {})
    return {"timeout": False, "wall": time.time() - t, "cmd": cmd, "errors": errs, "verified": vr.get("verified", 0), "nerr": vr.get("errors", 0),
            "success": vr.get("success", False), "smt_ms": (tm.get("smt", {}) or {}).get("smt-run", None) if isinstance(tm.get("smt"), dict) else tm.get("smt"),
            "raw": r.stderr[-4000:] if not errs else "", "rc": r.returncode}


def classify(errs):
    """verification failures / undecided or unsupported"""
    vf, un = [], []
    for e in errs:
        m = e["msg"]
        if any(u in m for u in UNDECIDED):
            un.append(e)
        elif any(v in m for v in VERIFY_FAIL):
            vf.append(e)
        else:
            un.append(e)
    return vf, un


def locate(e, units):
    for prim in (True, False):
        for (ln, lab, p) in e["lines"]:
            if bool(p) != prim:
                continue
            for u in units:
                if u["first"] <= ln <= u["last"]:
                    return u
    return None


def any_unit(e, units):
    for (ln, lab, p) in e["lines"]:
        for u in units:
            if u["first"] <= ln <= u["last"]:
                return u
    return None


class Verify:
    """one Verus template"""

    def __init__(self, name, work, tier):
        self.name, self.work, self.tier = name, work, tier
        self.res = {}

    def run(self):
        try:
            self._run()
        except Exception as e:  # tool trouble is never a verdict
            self.res = {"template": self.name, "status": "undecided", "why": [f"{type(e).__name__}: {e}"], "functions": [], "discharged": 0, "obligations": 0,
                        "trusted": [], "wall": 0, "failed": [], "notes": []}

    def _run(self):
        tpl = os.path.join(VERIF, "verus", self.name + ".rs")
        text, units, errors = parse_template(tpl)
        fns = [u for u in units if u["fn"]]
        base = os.path.join(self.work, self.name)
        r = {"template": self.name, "functions": [{"function": u["item"], "where": f"{u['file']}:{u['line']}", "extraction": u["notes"]} for u in fns],
             "trusted": scan_trusted(text), "failed": [], "why": list(errors), "discharged": 0, "obligations": 0, "wall": 0.0, "notes": [],
             "items": [u["item"] for u in units if not u["fn"]]}
        self.res = r
        if errors:
            r["status"] = "undecided"
            return
        open(base + ".rs", "w").write(text)
        v = run_verus(base + ".rs", 300, rlimit=200 if self.tier == "thorough" else 60)
        r["wall"] += v["wall"]
        r["cmd"] = " ".join(v["cmd"][1:])
        r["smt_ms"] = v.get("smt_ms")
        r["discharged"], r["obligations"] = v["verified"], v["verified"] + v["nerr"]
        if v["timeout"]:
            r["status"], r["why"] = "undecided", ["verus timed out"]
            return
        vf, un = classify(v["errors"])
        if un or (not v["errors"] and not v.get("success")):
            r["status"] = "undecided"
            r["why"] = [e["msg"][:300] for e in un] or [v["raw"][-600:]]
            r["discharged"] = 0 if not v["verified"] else v["verified"]
            return
        if vf:
            r["status"] = "refuted"
            for e in vf:
                u = locate(e, fns) or any_unit(e, fns)
                r["failed"].append({"obligation": e["msg"], "function": u["item"] if u else "(lemma)", "where": f"{u['file']}:{u['line']}" if u else self.name,
                                    "verifier_output": e["rendered"][-1800:]})
            # a failure outside every extracted function means that the proof text itself does not carry; not a verdict on the code
            return
        if v["verified"] == 0:
            r["status"], r["why"] = "undecided", ["no obligation generated"]
            return
        # vacuity: with `assert(false)` at the start of each extracted body, each must fail
        text2, units2, _ = parse_template(tpl, probe=True)
        open(base + "_probe.rs", "w").write(text2)
        p = run_verus(base + "_probe.rs", 400, rlimit=20)
        r["wall"] += p["wall"]
        hit = set()
        fns2 = [u for u in units2 if u["fn"]]
        for e in p["errors"]:
            if "assertion failed" in e["msg"]:
                u = any_unit(e, fns2)
                if u:
                    hit.add(u["first"])
        miss = [u["item"] for u in fns2 if u["first"] not in hit]
        r["vacuity_probes"] = {"functions": len(fns2), "reachable": len(hit)}
        if miss:
            r["status"], r["why"] = "undecided", ["contract is vacuous or probe inconclusive: " + ", ".join(miss)]
            return
        r["status"] = "proved"


class Driver:
    def __init__(self, name, work, tier, seed):
        self.name, self.work, self.tier, self.seed = name, work, tier, seed
        self.res = {"driver": name, "fails": [], "stats": None, "error": None, "build_s": 0, "wall": 0}

    def header(self):
        src = open(os.path.join(VERIF, "drivers", self.name + ".rs")).read()
        ex = {}
        for m in re.finditer(r"^//@extern (.*)$", src, re.M):
            for e in m.group(1).split():
                n, _, ref = e.partition("=")
                ex[n] = ref or n
        inj = re.findall(r"^//@inject (\S+) (\S+)\s*$", src, re.M)
        opt = re.search(r"^//@opt (\d)", src, re.M)
        tmo = re.search(r"^//@timeout (\d+)", src, re.M)
        gen = re.findall(r"^//@snippet (\S+) (\S+) :: (.*)$", src, re.M)
        return ex, inj, (opt.group(1) if opt else "0"), int(tmo.group(1)) if tmo else 200, gen

    def run(self):
        t = time.time()
        try:
            self._run()
        except RB.BuildError as e:
            self.res["error"] = "build: " + str(e)
        except X.ExtractError as e:
            self.res["error"] = "extract: " + str(e)
        except Exception as e:
            self.res["error"] = f"{type(e).__name__}: {e}"
        self.res["wall"] = round(time.time() - t, 2)

    def env(self):
        e = dict(os.environ)
        e.update({"VERIF_TIER": self.tier, "VERIF_SEED": str(self.seed), "AXV_SCRATCH": os.path.join(self.work, "scratch"), "AXV_REPO": REPO})
        return e

    def _run(self):
        ex, inj, opt, tmo, gen = self.header()
        t = time.time()
        out = os.path.join(self.work, "build" if not inj else "build-" + self.name)
        b = RB.Builder(out, inject=[(a, os.path.join(VERIF, "drivers", p)) for a, p in inj])
        for (fname, file, items) in gen:
            # items of /repo copied verbatim into a file that the driver includes
            s = X.Source(os.path.join(REPO, file))
            os.makedirs(os.path.join(out, "gen"), exist_ok=True)
            with open(os.path.join(out, "gen", fname), "a") as f:
                for it in items.split(" ; "):
                    x = s.find(it.strip().lstrip("@"))
                    # '@item' keeps the item's attributes
                    f.write("".join(a + "\n" for a in (x["attrs"] if it.strip().startswith("@") else [])) + s.text(x) + "\n")
        drv = os.path.join(VERIF, "drivers")
        if REPO != "/repo":  # the files of another copy of the repository
            drv = os.path.join(self.work, "drivers-" + self.name)
            os.makedirs(drv, exist_ok=True)
            for f in os.listdir(os.path.join(VERIF, "drivers")):
                with open(os.path.join(drv, f), "w") as o:
                    o.write(open(os.path.join(VERIF, "drivers", f)).read().replace('"/repo/', '"' + REPO + "/"))
        for attempt in range(6):
            try:
                exe = b.compile(self.name, os.path.join(drv, self.name + ".rs"), ex, kind="bin", opt=opt, env={"AXV_GEN": os.path.join(out, "gen")})
                break
            except RB.BuildError as e:
                # an item of the same file that the copied ones have come to use (a helper that was factored out)
                added = False
                for name in dict.fromkeys(re.findall(r"cannot find [\w ,/]+ `(\w+)` in this scope", str(e))):
                    for (fname, file, items) in gen:
                        s = X.Source(os.path.join(REPO, file))
                        for kind in ("fn", "const", "static", "struct", "enum", "type", "trait"):
                            try:
                                text = s.text(s.find(f"{kind} {name}"))
                            except X.ExtractError:
                                continue
                            with open(os.path.join(out, "gen", fname), "a") as f:
                                f.write(text + "\n")
                            added = True
                            break
                if not added or attempt == 5:
                    raise
        self.res["build_s"] = round(time.time() - t, 2)
        self.exe = exe
        os.makedirs(os.path.join(self.work, "scratch"), exist_ok=True)
        if self.tier == "thorough":
            tmo = 1500
        try:
            r = subprocess.run([exe], capture_output=True, text=True, errors="replace", timeout=tmo, env=self.env(), cwd=os.path.join(self.work, "scratch"))
        except subprocess.TimeoutExpired:
            self.res["error"] = f"driver did not finish in {tmo} s"
            return
        for ln in r.stdout.split("\n"):
            p = ln.split("\t")
            if p[0] == "FAIL" and len(p) >= 5:
                self.res["fails"].append({"check": p[1], "case": int(p[2]), "what": p[3], "input": p[4]})
            elif p[0] == "STATS":
                self.res["stats"] = json.loads(p[1])
        if self.res["stats"] is None and not self.res["fails"]:
            if r.returncode in (-6, -11, 134, 139):
                last = [l for l in r.stdout.split("\n") if l.startswith("BEGIN")]
                self.res["fails"].append({"check": (last or ["?"])[-1], "case": 0, "what": f"the process was aborted (signal {r.returncode}): {r.stderr[-600:]}", "input": ""})
            else:
                self.res["error"] = f"driver ended with {r.returncode}: {r.stdout[-500:]} {r.stderr[-1500:]}"


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "emit", "list"])
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-driver", action="store_true")
    ap.add_argument("--no-verus", action="store_true")
    a = ap.parse_args()
    checks = json.load(open(os.path.join(HERE, "checks.json")))
    if a.cmd == "list":
        print("\n".join(checks))
        return 0
    c = checks[a.id]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"axv-{a.id}-")
    if a.cmd == "emit":
        for n in c.get("verus", []):
            text, units, errors = parse_template(os.path.join(VERIF, "verus", n + ".rs"))
            print(text)
            print("//", errors, file=sys.stderr)
        shutil.rmtree(work)
        return 0
    try:
        vs = [] if a.no_verus else [Verify(n, work, a.tier) for n in c.get("verus", [])]
        ds = [] if a.no_driver else [Driver(n, work, a.tier, seed) for n in c.get("drivers", [])]
        th = [threading.Thread(target=x.run) for x in ds]
        for x in th:
            x.start()
        tv = [threading.Thread(target=x.run) for x in vs]
        for x in tv:
            x.start()
        for x in tv + th:
            x.join()
        return report(a.id, c, a.tier, seed, [v.res for v in vs], [d.res for d in ds], t0)
    finally:
        if a.keep:
            print("work:", work, file=sys.stderr)
        else:
            shutil.rmtree(work, ignore_errors=True)


def report(pid, c, tier, seed, vres, dres, t0):
    known = [k for k in load_known() if k["property"] == pid]
    fails, used = [], []
    for d in dres:
        for f in d["fails"]:
            k = next((k for k in known if k["check"] == f["check"]), None)
            (used.append((k, f)) if k else fails.append(dict(f, driver=d["driver"])))
    refuted = [dict(f, template=v["template"]) for v in vres if v["status"] == "refuted" for f in v["failed"]]
    kref = []
    if refuted and known:
        kref = [f for f in refuted if any(k.get("function") == f["function"] and k.get("obligation") == f["obligation"] for k in known)]
        refuted = [f for f in refuted if f not in kref]
    undecided = [v for v in vres if v["status"] == "undecided"]
    errors = [d["error"] for d in dres if d["error"]]
    ob = sum(v["obligations"] for v in vres)
    di = sum(v["discharged"] for v in vres)
    allproved = vres and all(v["status"] == "proved" for v in vres)
    stats = [d["stats"] for d in dres if d["stats"]]
    evals = sum(s["evaluations"] for s in stats)
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": "verus (Z3 back end) on the file generated from /repo's source: " + ("; ".join(v.get("cmd", "") for v in vres) or "-"),
        "trusted_base": sorted({t for v in vres for t in v["trusted"]}) + c.get("trusted", []),
        "functions_under_contract": [f for v in vres for f in v["functions"]],
        "items_copied": sorted({i for v in vres for i in v.get("items", [])}),
        "proof_status": {v["template"]: v["status"] for v in vres},
        "solver_seconds": round(sum(v["wall"] for v in vres), 2),
        "smt_ms": [v.get("smt_ms") for v in vres],
        "vacuity_probes": [v.get("vacuity_probes") for v in vres],
        "not_reestablished": [{"template": v["template"], "why": v["why"]} for v in undecided],
        "bounded_search": {"note": "bounded: seeded search on the real crates, never counted as proved", "evaluations": evals, "distinct": sum(s["distinct"] for s in stats),
                           "per_check": {k: n for s in stats for k, n in s["per_check"].items()}, "build_s": sum(d["build_s"] for d in dres)},
        "evaluations": evals, "distinct_nontrivial": sum(s["distinct"] for s in stats),
        "rule": "seeded random cases per check, boundary values favoured; distinct by written-out case",
        "samples": [x for s in stats for x in s["samples"]][:12],
        "explanation": c.get("explanation", ""),
    }
    level = c.get("level", "proof")
    if level == "proof" and not allproved:
        level = "exploration"
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": c.get("assumptions", []) + [f"proof of {v['template']} not re-established on this tree: {'; '.join(v['why'])[:400]}" for v in undecided],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if (fails or refuted) else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for v in vres:
        print(f"[{pid}] verus {v['template']}: {v['status']}, {v['discharged']}/{v['obligations']} obligations, {len(v['functions'])} functions, {v['wall']:.1f} s" +
              ("" if v["status"] == "proved" else "  " + "; ".join(v["why"])[:600]))
    for d in dres:
        s = d["stats"]
        print(f"[{pid}] driver {d['driver']}: {s['evaluations'] if s else 0} cases, {len(d['fails'])} failing, build {d['build_s']} s, total {d['wall']} s" + (f"  ERROR {d['error'][:1500]}" if d["error"] else ""))
    for k in {json.dumps(k) for k, _ in used}:
        print(f"KNOWN-FINDING: property={pid} {json.loads(k)['what']}")
    if fails or refuted:
        rp = os.path.join(VERIF, "replays", f"{pid}.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({"property": pid, "seed": seed, "tier": tier, "failing_inputs": fails, "failed_obligations": refuted,
                   "replay": "AXV_ONLY=<check> AXV_CASE=<case> VERIF_SEED=<seed> VERIF_TIER=<tier> python3 tools/axv.py check " + pid if fails else "the obligation is named above; run the check again to see it fail"},
                  open(rp, "w"), indent=1)
        for f in refuted[:6]:
            print(f"  failed obligation: {f['obligation']} in {f['function']} ({f['where']})")
        for f in fails[:6]:
            print(f"  failing input: [{f['check']} #{f['case']}] {f['what'][:300]} | {f['input'][:300]}")
        print(f"VIOLATION property={pid} replay={rp}" + ("" if fails else " no-failing-input-found"))
        return 1
    if errors and (not vres or not allproved):
        print(f"[{pid}] no verdict: " + " | ".join(errors)[:1500])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
