#!/usr/bin/env python3
"""Mechanical extraction of real Rust functions from /repo into one Verus file.

A unit (units/*.vu) is Verus text (specs, lemmas) with directives that pull items
out of /repo's current source:

  @type PATH NAME [derive(...)]       struct/enum/type alias, attributes dropped
  @fn PATH QUAL [-> RESULTNAME]       function; following lines up to @end are its contract
    (contract clauses)                inserted between signature and body
    @entry  (text)                    proof text inserted at the start of the body
    @loop N [NAME] (text)             loop clauses for the N-th loop of the body;
                                      NAME names the ghost iterator of a `for`
    @exit (text)                      proof text at the end of a body that ends in a statement
    @attr (text)                      Verus attributes put before the function
    @sub REGEX => TEXT                function-specific textual rewrite (counted, listed)
  @end
  @include FILE                       textual include of another unit file

QUAL is `name`, `Type::name`, `<Trait for Type>::name`, or `outer/inner` for a function
nested in the body of another.  Everything else about the body is the text in /repo,
after the rewrites in REWRITES below, each of which is listed in the evidence.
"""
import os, re, sys, json, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")


class Lost(Exception):
    """An anchor (item, loop) the unit needs is not in the current source."""


# ---------------------------------------------------------------- lexing
def skip_string(s, i):
    """i at opening quote; returns index after closing quote."""
    i += 1
    while s[i] != '"':
        i += 2 if s[i] == "\\" else 1
    return i + 1


RAW = re.compile(r'b?r(#*)"')


def skip_token(s, i):
    """Advance over one comment/string/char literal/other char starting at i."""
    c = s[i]
    if c == "/" and s.startswith("//", i):
        j = s.find("\n", i)
        return len(s) if j < 0 else j
    if c == "/" and s.startswith("/*", i):
        depth, j = 1, i + 2
        while depth:
            if s.startswith("/*", j):
                depth += 1; j += 2
            elif s.startswith("*/", j):
                depth -= 1; j += 2
            else:
                j += 1
        return j
    if c == '"':
        return skip_string(s, i)
    if c in "br" and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
        m = RAW.match(s, i)
        if m:
            end = '"' + m.group(1)
            return s.index(end, m.end()) + len(end)
        if c == "b" and s.startswith('b"', i):
            return skip_string(s, i + 1)
    if c == "'":
        # char literal or lifetime
        m = re.compile(r"'(\\.[^']*|[^\\'])'").match(s, i)
        if m:
            return m.end()
        return i + 1
    return i + 1


def is_code(s, i):
    return not (s.startswith("//", i) or s.startswith("/*", i) or s[i] in "\"'")


def match_close(s, i):
    """i at an opening bracket; returns index of its partner."""
    pairs = {"(": ")", "[": "]", "{": "}"}
    stack = []
    while i < len(s):
        c = s[i]
        if c in pairs:
            stack.append(pairs[c]); i += 1; continue
        if c in ")]}":
            assert stack and stack[-1] == c, (c, s[max(0, i - 80):i + 20])
            stack.pop()
            if not stack:
                return i
            i += 1; continue
        i = skip_token(s, i)
    raise Lost("unbalanced")


def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        j = skip_token(s, i)
        if s.startswith("//", i) or s.startswith("/*", i):
            pass
        else:
            out.append(s[i:j])
        i = j
    t = "".join(out)
    return re.sub(r"[ \t]+\n", "\n", t)


def code_find(s, rx, start=0, end=None):
    """First match of compiled rx at a code (non comment/string) position, any depth."""
    end = len(s) if end is None else end
    i = start
    while i < end:
        if is_code(s, i) or s[i] == "'":
            m = rx.match(s, i, end)
            if m:
                return m
        i = skip_token(s, i)
    return None


def code_finditer(s, rx, start=0, end=None):
    while True:
        m = code_find(s, rx, start, end)
        if not m:
            return
        yield m
        start = max(m.end(), m.start() + 1)


IDENT = r"[A-Za-z_][A-Za-z0-9_]*"


class Source:
    cache = {}

    def __init__(self, path):
        self.path = path
        full = os.path.join(REPO, path)
        try:
            with open(full) as f:
                raw = f.read()
        except OSError:
            raise Lost("no file " + path)
        self.raw = raw
        text = strip_comments(raw)
        # drop #[cfg(test)] mods entirely
        self.text = text
        self.items = None

    @classmethod
    def get(cls, path):
        if path not in cls.cache:
            cls.cache[path] = Source(path)
        return cls.cache[path]

    def scan(self):
        """Top-level items: (kind, key, start, sig_start, body_open, end)."""
        if self.items is not None:
            return self.items
        self.items = list(scan_items(self.text, 0, len(self.text)))
        return self.items

    def find_fn(self, qual):
        t = self.text
        parts = qual.split("/")
        outer = parts[0]
        owner = None
        if outer.startswith("<"):
            owner, name = outer[1:].rsplit(">::", 1)
        elif "::" in outer:
            owner, name = outer.rsplit("::", 1)
        else:
            name = outer
        cands = []
        for it in self.scan():
            if owner is None and it["kind"] == "fn" and it["name"] == name:
                cands.append(it)
            if owner is not None and it["kind"] == "impl":
                if " for " in owner:
                    ok = it["trait_for"] == owner
                else:
                    ok = it["trait_for"] is None and it["self"] == owner
                if ok:
                    for sub in scan_items(t, it["body_open"] + 1, it["end"] - 1):
                        if sub["kind"] == "fn" and sub["name"] == name:
                            cands.append(sub)
        cands = [c for c in cands if not c["cfg_test"]]
        if len(cands) != 1:
            raise Lost("%d candidates for fn %s in %s" % (len(cands), qual, self.path))
        it = cands[0]
        for inner in parts[1:]:
            subs = [s for s in nested_fns(t, it) if s["name"] == inner]
            if len(subs) != 1:
                raise Lost("nested fn %s not found in %s" % (inner, qual))
            it = subs[0]
        return it

    def fn_names(self):
        """All (owner, name) of functions outside tests."""
        out = []
        for it in self.scan():
            if it["kind"] == "fn" and not it["cfg_test"]:
                out.append((None, it["name"]))
            if it["kind"] == "impl" and it["trait_for"] is None and not it["cfg_test"]:
                for sub in scan_items(self.text, it["body_open"] + 1, it["end"] - 1):
                    if sub["kind"] == "fn" and not sub["cfg_test"]:
                        out.append((it["self"], sub["name"]))
        return out

    def find_type(self, name):
        for it in self.scan():
            if it["kind"] in ("struct", "enum", "type", "const") and it["name"] == name:
                return it
        raise Lost("type %s not found in %s" % (name, self.path))


ATTR = re.compile(r"#!?\[")
VIS = re.compile(r"pub\b(\s*\([^)]*\))?")
KW = re.compile(r"(?:default\s+)?((?:const\s+|async\s+|unsafe\s+|extern\s+\"[^\"]*\"\s+)*fn|struct|enum|union|impl|mod|trait|use|type|const|static|macro_rules!|extern|unsafe\s+impl)\b")


def skip_ws(t, i):
    while i < len(t) and t[i].isspace():
        i += 1
    return i


def find_at_depth0(t, i, chars, end):
    """First position >= i (depth 0 wrt ()[]{}; <> ignored) of one of chars."""
    while i < end:
        c = t[i]
        if c in chars:
            return i
        if c in "([{":
            i = match_close(t, i) + 1
            continue
        i = skip_token(t, i)
    raise Lost("expected one of %r" % chars)


def code_find_depth0(t, rx, i):
    while i < len(t):
        if t[i] in "([{":
            i = match_close(t, i) + 1
            continue
        m = rx.match(t, i)
        if m and is_code(t, i):
            return m.end()
        i = skip_token(t, i)
    raise Lost("pattern not found")


def scan_items(t, i, end):
    while True:
        i = skip_ws(t, i)
        if i >= end:
            return
        start = i
        attrs = []
        while ATTR.match(t, i):
            o = t.index("[", i)
            c = match_close(t, o)
            attrs.append(t[i:c + 1])
            i = skip_ws(t, c + 1)
        sig = i
        m = VIS.match(t, i)
        if m:
            i = skip_ws(t, m.end())
        m = KW.match(t, i)
        if not m:
            # unknown (macro call at item level): skip to ; or block
            p = find_at_depth0(t, i, ";{", end)
            i = match_close(t, p) + 1 if t[p] == "{" else p + 1
            continue
        kw = m.group(1).split()[-1]
        it = {"kind": kw, "start": start, "sig": sig, "attrs": attrs, "name": None,
              "cfg_test": any(re.match(r"#\[cfg\(test\)\]", a) or a == "#[test]" for a in attrs)}
        rest = skip_ws(t, m.end())
        if kw == "macro_rules!":
            p = find_at_depth0(t, rest, "{(", end)
            i = match_close(t, p) + 1
            continue
        nm = re.compile(IDENT).match(t, rest)
        it["name"] = nm.group(0) if nm else None
        p = find_at_depth0(t, rest, ";{" if kw != "const" and kw != "static" and kw != "type" and kw != "use" else ";", end)
        if kw == "struct" and t[p] == "{" or kw != "struct" and t[p] == "{":
            it["body_open"] = p
            e = match_close(t, p) + 1
        else:
            it["body_open"] = None
            e = p + 1
        it["end"] = e
        if kw == "impl":
            head = t[m.start():p]
            head = re.sub(r"\s+", " ", head).strip()
            h = re.sub(r"^(unsafe )?impl", "", head).strip()
            if h.startswith("<"):
                d = 0
                for k, ch in enumerate(h):
                    if ch == "<":
                        d += 1
                    elif ch == ">" and h[k - 1] != "-":
                        d -= 1
                        if d == 0:
                            h = h[k + 1:].strip()
                            break
            h = re.sub(r" where .*$", "", h)
            tf = None
            selfty = h
            if " for " in h:
                tr, selfty = h.split(" for ", 1)
                tf = re.sub(r"<.*?>", "", tr).strip() + " for " + re.sub(r"<.*>", "", selfty).strip().lstrip("&")
            it["trait_for"] = tf
            it["self"] = re.sub(r"<.*>", "", selfty).strip()
            it["header"] = head
        yield it
        i = e


def nested_fns(t, it):
    """fn items nested (any depth of blocks) in the body of item it."""
    rx = re.compile(r"fn\s+(" + IDENT + r")\s*[(<]")
    o, e = it["body_open"], it["end"]
    for m in code_finditer(t, rx, o + 1, e - 1):
        if m.start() > 0 and (t[m.start() - 1].isalnum() or t[m.start() - 1] == "_"):
            continue
        p = find_at_depth0(t, m.end() - 1 if t[m.end() - 1] == "(" else m.end(), "{", e)
        yield {"kind": "fn", "name": m.group(1), "start": m.start(), "sig": m.start(),
               "attrs": [], "body_open": p, "end": match_close(t, p) + 1, "cfg_test": False}


# ---------------------------------------------------------------- rewrites
class Rewriter:
    def __init__(self):
        self.log = {}

    def count(self, k, n=1):
        if n:
            self.log[k] = self.log.get(k, 0) + n

    def macro(self, body, names, repl, label):
        """Replace NAME!(...) by repl(args)."""
        rx = re.compile(r"(?:%s)\s*!\s*[(\[{]" % "|".join(names))
        while True:
            m = None
            for mm in code_finditer(body, rx):
                if mm.start() and (body[mm.start() - 1].isalnum() or body[mm.start() - 1] == "_"):
                    continue
                m = mm
                break
            if not m:
                return body
            o = m.end() - 1
            c = match_close(body, o)
            args = body[o + 1:c]
            end = c + 1
            r = repl(args)
            if r is None:  # drop statement
                k = skip_ws(body, end)
                if k < len(body) and body[k] == ";":
                    end = k + 1
                r = ""
            body = body[:m.start()] + r + body[end:]
            self.count(label)

    def drop_cfg(self, body):
        rx = re.compile(r"#\[cfg\((debug_assertions|test|any\(test[^\]]*\))\)\]")
        neg = re.compile(r"#\[cfg\(not\(any\(test[^\]]*\)\)\)\]")
        while True:
            m = code_find(body, rx)
            if not m:
                break
            i = skip_ws(body, m.end())
            # the statement that follows: up to matching block or ';'
            if body.startswith("if let", i):
                i = code_find_depth0(body, re.compile(r"=(?![=>])"), i)
            p = find_at_depth0(body, i, ";{", len(body))
            e = match_close(body, p) + 1 if body[p] == "{" else p + 1
            body = body[:m.start()] + body[e:]
            self.count("statement under #[cfg(debug_assertions|test)] dropped")
        m = code_find(body, neg)
        while m:
            body = body[:m.start()] + body[m.end():]
            self.count("#[cfg(not(test))] attribute dropped")
            m = code_find(body, neg)
        return body

    def split_args(self, args):
        out, depth, i, last = [], 0, 0, 0
        while i < len(args):
            c = args[i]
            if c in "([{":
                i = match_close(args, i) + 1
                continue
            if c == ",":
                out.append(args[last:i]); last = i + 1
            i = skip_token(args, i)
        out.append(args[last:])
        return out

    def write_parts(self, args):
        a = [x.strip() for x in self.split_args(args)]
        if a and not a[-1]:
            a.pop()
        m = re.fullmatch(r'"([^"\\]*)"', a[1]) if len(a) > 1 else None
        if not m:
            return "vx_unsupported_write()"
        out, rest = [], a[2:]
        for i, p in enumerate(re.split(r"(\{\w*\})", m.group(1))):
            if i % 2 == 0:
                if "{" in p or "}" in p:
                    return "vx_unsupported_write()"
                if p:
                    out.append('"%s"' % p)
            else:
                if p == "{}" and not rest:
                    return "vx_unsupported_write()"
                out.append("(%s)" % (rest.pop(0) if p == "{}" else p[1:-1]))
        out = ["%s.vx_put(%s)" % (o, a[0]) for o in out or ['""']]
        return "{ " + "?; ".join(out) + " }"

    def methods(self, body):
        # .unwrap_or_else(|..| panic!(..)) and .expect(..) and .unwrap()
        rx = re.compile(r"\.\s*(unwrap_or_else|expect|unwrap)\s*\(")
        pos = 0
        while True:
            m = code_find(body, rx, pos)
            if not m:
                return body
            o = m.end() - 1
            c = match_close(body, o)
            arg = body[o + 1:c]
            if m.group(1) == "unwrap_or_else":
                if re.match(r"\s*\|[^|]*\|\s*\{?\s*(vx_panic\(\)|panic!)", arg):
                    body = body[:m.start()] + ".vx_unwrap()" + body[c + 1:]
                    self.count(".unwrap_or_else(|..| panic!(..)) -> .vx_unwrap() (may abort)")
                    pos = m.start() + 1
                else:
                    pos = m.end()
            else:
                body = body[:m.start()] + ".vx_unwrap()" + body[c + 1:]
                self.count(".expect(..)/.unwrap() -> .vx_unwrap() (may abort)")
                pos = m.start() + 1

    def paths(self, text):
        """crate::a::b::X -> X: the unit is one flat namespace"""
        n = len(re.findall(r"\b(?:crate|super)::(?:[a-z_0-9]+::)*(?=\w)", text))
        if n:
            text = re.sub(r"\b(?:crate|super)::(?:[a-z_0-9]+::)*(?=\w)", "", text)
            self.count("module path of a name dropped", n)
        return text

    def continues(self, body):
        """`if c { continue; } rest` directly in a for body -> `if c { } else { rest }`"""
        while True:
            done = True
            for kind, st, inpos, brace in find_loops(body):
                if kind != "for":
                    continue
                end = match_close(body, brace)
                i = brace + 1
                while i < end:
                    if body[i] in "([{":
                        c = match_close(body, i)
                        # let P = E else { continue; }; rest
                        m = re.compile(r"\{\s*continue;?\s*\}\s*;").match(body, i)
                        if m and re.search(r"\belse\s*$", body[brace:i]):
                            st = max(body.rfind(";", 0, i), body.rfind("}", 0, i), body.rfind("{", 0, i)) + 1
                            head = re.sub(r"\s*else\s*$", " ", body[st:i])
                            if re.match(r"\s*let\b", head):
                                body = body[:st] + " if " + head.lstrip() + "{" + body[m.end():end] + "}" + body[end:]
                                self.count("let P = E else { continue; }; rest -> if let P = E { rest } (in a for body)")
                                done = False
                                break
                        m = re.compile(r"\{\s*(?:continue;?)\s*\}").match(body, i)
                        if m and not body[m.end():end].lstrip().startswith("else"):
                            body = body[:i] + "{ } else {" + body[m.end():end] + "}" + body[end:]
                            self.count("if c { continue; } rest -> if c { } else { rest } (in a for body)")
                            done = False
                            break
                        # a last `continue;` deeper in an if statement: a flag, tested after the statement
                        mc = None if body[i] != "{" else re.compile(r"\bcontinue;\s*(?:\}\s*)+$").search(body, i, c + 1)
                        if mc and not body[c + 1:end].lstrip().startswith("else") and not find_loops(body[i:c + 1]):
                            st = max(body.rfind(";", 0, i), body.rfind("}", 0, i), body.rfind("{", 0, i)) + 1
                            if re.match(r"\s*if\b", body[st:i]):
                                body = (body[:st] + " let mut vx_skip = false;" + body[st:mc.start()] + "vx_skip = true;"
                                        + body[mc.start() + len("continue;"):c + 1] + " if !vx_skip {" + body[c + 1:end] + "}" + body[end:])
                                self.count("if c { if d { continue; } } rest -> if c { if d { skip = true } } if !skip { rest } (in a for body)")
                                done = False
                                break
                        if body[i] == "{" and not body[c + 1:end].strip():
                            end, i = c, i + 1   # the last block of a body is the rest of that body
                            continue
                        i = c + 1
                        continue
                    i = skip_token(body, i)
                if not done:
                    break
            if done:
                return body

    def body(self, body):
        body = self.drop_cfg(body)
        body = self.macro(body, ["debug_assert", "debug_assert_eq", "debug_assert_ne"],
                          lambda a: None, "debug_assert! dropped")
        body = self.macro(body, ["panic", "unreachable", "unimplemented", "todo"],
                          lambda a: "vx_panic()", "panic!/unreachable!(..) -> vx_panic() (diverges)")
        body = self.macro(body, ["assert"],
                          lambda a: "if !(%s) { vx_panic() }" % self.split_args(a)[0].strip(),
                          "assert!(c, ..) -> if !(c) { vx_panic() }")
        body = self.macro(body, ["format"], lambda a: "vx_text()", "format!(..) -> vx_text() (some text)")
        body = self.macro(body, ["write"], self.write_parts, "write!(W, \"a{}b\", x) -> \"a\".vx_put(W)?; x.vx_put(W)?; \"b\".vx_put(W)")
        rx = re.compile(r'\bb"((?:[ !#-\[\]-~]|\\[nrt0\\"])*)"')
        for m in reversed(list(rx.finditer(body))):
            lit = m.group(1).encode().decode("unicode_escape")
            body = body[:m.start()] + "&[" + ", ".join("%du8" % ord(c) for c in lit) + "]" + body[m.end():]
            self.count("byte string literal -> array of its bytes")
        body = self.methods(body)
        # local use statements
        rx = re.compile(r"use\s+[A-Za-z_:{}, ]+;")
        m = code_find(body, rx)
        while m:
            body = body[:m.start()] + body[m.end():]
            self.count("local `use` moved to the file head")
            m = code_find(body, rx)
        body = self.paths(body)
        rx = re.compile(r"Vec::with_capacity\(")
        m = code_find(body, rx)
        while m:
            c = match_close(body, m.end() - 1)
            body = body[:m.start()] + "Vec::new()" + body[c + 1:]
            self.count("Vec::with_capacity(n) -> Vec::new() (capacity hint dropped)")
            m = code_find(body, rx)
        n = len(re.findall(r"\.extend\(([A-Za-z_.]+)\.iter\(\)\.copied\(\)\)", body))
        body = re.sub(r"\.extend\(([A-Za-z_.]+)\.iter\(\)\.copied\(\)\)", r".vx_extend_slice(&\1)", body)
        self.count(".extend(X.iter().copied()) -> .vx_extend_slice(&X)", n)
        rx = re.compile(r"([A-Za-z_][A-Za-z_.]*)\s*\.iter\(\)\s*\.position\(\|&(\w+)\| \2 == ")
        m = code_find(body, rx)
        while m:
            o = body.index("(", body.index("position", m.start()))
            c = match_close(body, o)
            body = body[:m.start()] + "vx_position(&%s, %s)" % (m.group(1), body[m.end():c]) + body[c + 1:]
            self.count(".iter().position(|&x| x == E) -> vx_position(&V, E)")
            m = code_find(body, rx)
        rx = re.compile(r"([A-Za-z_]\w*(?:\s*\.\s*\w+)*?)\s*\.iter\(\)\s*\.map\(")
        pos = 0
        while True:
            m = code_find(body, rx, pos)
            if not m:
                break
            if m.start() and (body[m.start() - 1].isalnum() or body[m.start() - 1] in "_."):
                pos = m.end()
                continue
            c = match_close(body, m.end() - 1)
            mm = re.compile(r"\s*\.collect(?:::<[^()]*>)?\(\)").match(body, c + 1)
            if mm:
                body = body[:m.start()] + "vx_map_collect(&%s, %s)" % (re.sub(r"\s+", "", m.group(1)), body[m.end():c]) + body[mm.end():]
                self.count(".iter().map(F).collect() -> vx_map_collect(&V, F)")
            pos = m.end()
        rx = re.compile(r"\((\w+)\.\.([^(){};]+?)\)\s*\.map\(")
        pos = 0
        while True:
            m = code_find(body, rx, pos)
            if not m:
                break
            c = match_close(body, m.end() - 1)
            mm = re.compile(r"\s*\.collect(?:::<[^()]*>)?\(\)").match(body, c + 1)
            if mm:
                body = body[:m.start()] + "vx_range_map(%s, %s, %s)" % (m.group(1), m.group(2), body[m.end():c]) + body[mm.end():]
                self.count("(A..B).map(F).collect() -> vx_range_map(A, B, F)")
            pos = m.end()
        rx = re.compile(r"([A-Za-z_]\w*(?:\s*\.\s*\w+)*?)\s*\.iter\(\)\s*\.filter_map\(")
        m = code_find(body, rx)
        while m:
            c = match_close(body, m.end() - 1)
            body = body[:m.start()] + "vx_filter_map(&%s, %s)" % (re.sub(r"\s+", "", m.group(1)), body[m.end():c]) + body[c + 1:]
            self.count(".iter().filter_map(F) -> vx_filter_map(&V, F) (collected eagerly)")
            m = code_find(body, rx)
        for what in ("any", "all"):
            rx = re.compile(r"(?<![\w.])([A-Za-z_]\w*(?:\s*\.\s*\w+)*?)\s*\.iter\(\)\s*\.%s\(" % what)
            m = code_find(body, rx)
            while m:
                c = match_close(body, m.end() - 1)
                body = body[:m.start()] + "vx_%s(&%s, %s)" % (what, re.sub(r"\s+", "", m.group(1)), body[m.end():c]) + body[c + 1:]
                self.count(".iter().%s(F) -> vx_%s(&V, F)" % (what, what))
                m = code_find(body, rx)
        rx = re.compile(r"\b(\w+)\s*\.into_iter\(\)\s*\.rev\(\)\s*\.fold\(")
        m = code_find(body, rx)
        while m:
            body = body[:m.start()] + "vx_fold_rev(%s, " % m.group(1) + body[m.end():]
            self.count(".into_iter().rev().fold(INIT, F) -> vx_fold_rev(V, INIT, F)")
            m = code_find(body, rx)
        rx = re.compile(r"for \(([\w&]+), ([\w&]+)\) in ([A-Za-z_.]+?)\.iter\(\)\.enumerate\(\) \{")
        m = code_find(body, rx)
        while m:
            x = m.group(2)
            bind = "%s = %s" % (x[1:], m.group(3)) if x.startswith("&") else "%s = &%s" % (x, m.group(3))
            body = body[:m.start()] + "for %s in 0..%s.len() { let %s[%s];" % (m.group(1), m.group(3), bind, m.group(1)) + body[m.end():]
            self.count("for (i, x) in v.iter().enumerate() -> for i in 0..v.len() with x = &v[i]")
            m = code_find(body, rx)
        rx = re.compile(r"for \((\w+), (\w+)\) in ([A-Za-z_.]+?)\.iter\(\)\.zip\(([A-Za-z_.]+?)\.iter\(\)\) \{")
        m = code_find(body, rx)
        z = 0
        while m:
            z += 1
            body = body[:m.start()] + "for vx_z%d in 0..vx_min(%s.len(), %s.len()) { let %s = &%s[vx_z%d]; let %s = &%s[vx_z%d];" % (
                z, m.group(3), m.group(4), m.group(1), m.group(3), z, m.group(2), m.group(4), z) + body[m.end():]
            self.count("for (x, y) in v.iter().zip(w.iter()) -> for i in 0..min(v.len(), w.len()) with x = &v[i], y = &w[i]")
            m = code_find(body, rx)
        rx = re.compile(r"\b(\w+)\s*\.into_iter\(\)\s*\.map\(")
        pos = 0
        while True:
            m = code_find(body, rx, pos)
            if not m:
                break
            c = match_close(body, m.end() - 1)
            mm = re.compile(r"\s*\.collect(?:::<[^()]*>)?\(\)").match(body, c + 1)
            if mm:
                f = body[m.end():c].strip()
                if f in ("Some", "Box::new"):
                    f = "|vx_x| %s(vx_x)" % f
                body = body[:m.start()] + "vx_into_map(%s, %s)" % (m.group(1), f) + body[mm.end():]
                self.count(".into_iter().map(F).collect() -> vx_into_map(V, F)")
            pos = m.end()
        rx = re.compile(r"for &(\w+) in ([^{;]+?) \{")
        m = code_find(body, rx)
        while m:
            body = body[:m.start()] + "for vx_r_%s in %s { let %s = *vx_r_%s;" % (m.group(1), m.group(2), m.group(1), m.group(1)) + body[m.end():]
            self.count("for &x in v -> for r in v with x = *r")
            m = code_find(body, rx)
        rx = re.compile(r"for (\w+) in &mut ([A-Za-z_.]+) \{")
        m = code_find(body, rx)
        k = 0
        while m:
            k += 1
            body = body[:m.start()] + "for vx_i%d in 0..%s.len() { let %s = &mut %s[vx_i%d];" % (k, m.group(2), m.group(1), m.group(2), k) + body[m.end():]
            self.count("for x in &mut v -> for i in 0..v.len() with x = &mut v[i]")
            m = code_find(body, rx)
        body = self.continues(body)
        n = len(re.findall(r"\.to_vec\(\)", body))
        body = body.replace(".to_vec()", ".vx_to_vec()")
        self.count(".to_vec() -> .vx_to_vec()", n)
        n = len(re.findall(r"\.extend\(", body))
        body = body.replace(".extend(", ".vx_extend(")
        self.count(".extend(vec) -> .vx_extend(vec)", n)
        return body


LOOP = re.compile(r"(?:'[a-z_]+\s*:\s*)?\b(for|while|loop)\b")


def find_loops(body):
    """[(kind, kw_start, pat_end(for), brace)] in textual order."""
    out = []
    for m in code_finditer(body, re.compile(r"(for|while|loop)\b")):
        s = m.start()
        if s and (body[s - 1].isalnum() or body[s - 1] in "_."):
            continue
        kind = m.group(1)
        if kind == "for" and re.match(r"for\s*<", body[s:]):
            continue
        p = find_at_depth0(body, m.end(), "{", len(body))
        inpos = None
        if kind == "for":
            mm = code_find(body, re.compile(r"\bin\b"), m.end(), p)
            inpos = mm.end()
        out.append((kind, s, inpos, p))
    return out


def find_closures(body):
    """[(start, body_start, end)] of closures that are call arguments or initialisers."""
    out = []
    head = re.compile(r"\|[^|]*\|")
    done = 0
    for bar in code_finditer(body, re.compile(r"\|")):
        if bar.start() < done:
            continue
        k = bar.start() - 1
        while k >= 0 and body[k].isspace():
            k -= 1
        if body[k] == "&" and body[k - 1] != "&":
            k -= 1
            while k >= 0 and body[k].isspace():
                k -= 1
        if body[k] not in "(,=" and not body[:k + 1].endswith("move"):
            continue
        m = head.match(body, bar.start())
        if not m:
            continue
        done = m.end()
        # end: closing bracket or comma/semicolon at depth 0
        i = m.end()
        while i < len(body):
            if body[i] in "([{":
                i = match_close(body, i) + 1
                continue
            if body[i] in ")]},;":
                break
            i = skip_token(body, i)
        out.append((m.start(), m.end(), i))
    return out


# ---------------------------------------------------------------- units
class Unit:
    def __init__(self, path):
        self.path = path
        self.out = []          # (text, tag)
        self.rw = Rewriter()
        self.fns = []          # real functions under contract
        self.types = []
        self.subs = []
        self.lost = []
        self.sources = {}
        self.contracted = set()
        self.cur = os.path.basename(path)
        self.probe = False     # vacuity probe: assert(false) at every real function's entry

    def emit(self, text, tag=None):
        for ln in text.split("\n"):
            self.out.append((ln, tag, self.cur))

    def load(self, path):
        with open(path) as f:
            return f.read().split("\n")

    def process(self, path=None, seen=None):
        path = path or self.path
        outer = self.cur
        self.cur = os.path.basename(path)
        lines = self.load(path)
        i = 0
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            if s.startswith("@include "):
                self.process(os.path.join(os.path.dirname(path), s.split()[1]))
            elif s.startswith("@type "):
                self.do_type(s)
            elif s.startswith("@fn "):
                block = []
                i += 1
                while lines[i].strip() != "@end":
                    block.append(lines[i])
                    i += 1
                self.do_fn(s, block)
            elif s.startswith("@"):
                raise ValueError("bad directive %s in %s" % (s, path))
            else:
                self.emit(ln, None)
            i += 1
        self.cur = outer
        return self

    def do_type(self, s):
        m = re.match(r"@type (\S+) (\S+)(?: (derive\(.*\)))?$", s)
        path, name, derive = m.groups()
        src = Source.get(path)
        it = src.find_type(name)
        text = src.text[it["sig"]:it["end"]]
        # drop field/variant attributes
        while True:
            mm = code_find(text, re.compile(r"#\["))
            if not mm:
                break
            c = match_close(text, mm.end() - 1)
            text = text[:mm.start()] + text[c + 1:]
        text = re.sub(r"\bpub\s*\([^)]*\)\s*", "pub ", text)
        if it["kind"] in ("struct", "enum"):
            text = publicise(text, it["kind"])
        if derive:
            self.emit("#[%s]" % derive)
        self.emit(text.strip(), "type " + name)
        self.types.append("%s (%s)" % (name, path))

    def do_fn(self, s, block):
        m = re.match(r"@fn (\S+) (<[^>]*>::\S+|\S+)(?: -> (\S+))?$", s)
        if not m:
            raise ValueError(s)
        path, qual, res = m.groups()
        src = Source.get(path)
        it = src.find_fn(qual)
        t = src.text
        sig = t[it["sig"]:it["body_open"]].rstrip()
        body = t[it["body_open"]:it["end"]]
        # cut nested fns out of the body (they are extracted on their own if needed)
        cut = [(n["start"] - it["body_open"], n["end"] - it["body_open"]) for n in nested_fns(t, it)]
        cut = [c for c in cut if not any(o[0] < c[0] and c[1] <= o[1] for o in cut)]
        for a, b in sorted(cut, reverse=True):
            body = body[:a] + body[b:]
            self.rw.count("nested fn hoisted or dropped")
        sections = {"spec": [], "entry": [], "attr": [], "exit": []}
        loops = {}
        closures = {}
        subs = []
        cur = sections["spec"]
        for ln in block:
            st = ln.strip()
            if st == "@entry":
                cur = sections["entry"]
            elif st == "@exit":
                cur = sections["exit"]
            elif st == "@attr":
                cur = sections["attr"]
            elif st.startswith("@loop "):
                p = st.split()
                loops[int(p[1])] = (p[2] if len(p) > 2 else None, [])
                cur = loops[int(p[1])][1]
            elif st.startswith("@closure "):
                p = st.split()
                closures[int(p[1])] = []
                cur = closures[int(p[1])]
            elif st.startswith("@sub "):
                a, b = st[5:].split(" => ") if " => " in st else (st[5:].rsplit(" =>", 1)[0], "")
                subs.append((a, b))
            elif st.startswith("@before ") or st.startswith("@before#"):
                cur = []
                subs.append((st[7:].lstrip() if st[7] == " " else st[7:], cur))
            else:
                cur.append(ln)
        sig = re.sub(r"\bpub\s*\([^)]*\)\s*", "pub ", sig)
        sig = self.rw.paths(sig)
        if qual.startswith("<"):
            pass
        elif not sig.startswith("pub"):
            sig = "pub " + sig
        for a in re.findall(r"\bmut\s+self\b", sig):
            pass
        body = self.rw.body(body)
        for a, b in subs:
            if isinstance(b, list):
                nth = re.match(r"#(\d+)/(\d+) (.*)$", a)  # the N-th of exactly M places
                k, of = (int(nth.group(1)), int(nth.group(2))) if nth else (1, 1)
                mm = list(re.finditer(nth.group(3) if nth else a, body))
                if len(mm) == of:
                    mm = mm[k - 1:k]
                else:
                    mm = [None] * max(2, len(mm)) if mm else []
                if len(mm) != 1:
                    raise Lost("anchor %r: %d matches in %s" % (a, len(mm), qual))
                body = body[:mm[0].start()] + "\n".join(b) + "\n" + body[mm[0].start():]
                continue
            body, n = re.subn(a, b, body)
            sig2, n2 = re.subn(a, b, sig)
            if n2:
                sig = sig2
            if n or n2:
                self.subs.append("%s: %s => %s (x%d)" % (qual, a, b, n + n2))
        # closures
        found = find_closures(body)
        if len(found) < max(closures, default=0):
            raise Lost("%s: closure %d expected, %d found" % (qual, max(closures), len(found)))
        for idx in sorted(range(len(found)), reverse=True):
            if idx + 1 in closures:
                a, b, e = find_closures(body)[idx]
                inner = body[b:e].strip()
                if not inner.startswith("{"):
                    inner = "{ " + inner + " }"
                txt = "\n".join(closures[idx + 1]).strip()
                pre = ""
                if "@@" in txt:  # header @@ statements put first (tuple patterns)
                    txt, pre = txt.split("@@")
                    inner = "{ " + pre.strip() + inner[1:]
                body = body[:a] + txt + " " + inner + body[e:]
        # loops
        found = find_loops(body)
        if len(found) != len(loops) or set(loops) != set(range(1, len(loops) + 1)):
            raise Lost("%s: loops %s expected, %d found" % (qual, sorted(loops), len(found)))
        for idx in sorted(range(len(found)), reverse=True):
            kind, st, inpos, brace = found[idx]
            if idx + 1 in loops:
                name, txt = loops[idx + 1]
                body = body[:brace] + "\n" + "\n".join(txt) + "\n" + body[brace:]
                if name and inpos:
                    body = body[:inpos] + " %s:" % name + body[inpos:]
        if sections["entry"]:
            body = "{\n" + "\n".join(sections["entry"]) + "\n" + body[1:]
        if sections["exit"]:
            k = body.rstrip().rindex("}")
            body = body[:k].rstrip() + "\n" + "\n".join(sections["exit"]) + "\n}"
        if self.probe:
            mh = re.match(r"\{\s*(?:hide\(\w+\);\s*)*", body)   # headers stay first
            body = mh.group(0) + " proof { assert(false); } " + body[mh.end():]
        # result name
        if res:
            k = ret_arrow(sig)
            if k is None:
                sig = sig + " -> (%s: ())" % res
            else:
                ty = sig[k + 2:]
                where = ""
                mw = re.search(r"\bwhere\b", ty)
                if mw:
                    where = " " + ty[mw.start():]
                    ty = ty[:mw.start()]
                sig = sig[:k] + "-> (%s: %s)%s" % (res, ty.strip(), where)
        tag = "fn %s (%s)" % (qual, path)
        if sections["attr"]:
            self.emit("\n".join(sections["attr"]), tag)
        self.emit(sig, tag)
        self.emit("\n".join(sections["spec"]), tag)
        self.emit(body, tag)
        self.fns.append({"fn": qual, "file": path, "unit": self.cur, "sha": hashlib.sha256((sig + body).encode()).hexdigest()[:16]})
        self.contracted.add(qual)

    def text(self):
        return "\n".join(o[0] for o in self.out) + "\n"

    def tag_at(self, line):
        """tag of 1-based output line; for unit text, the name of the enclosing proof/spec fn."""
        if 1 <= line <= len(self.out):
            tag = self.out[line - 1][1]
            if tag:
                return tag
            for k in range(line - 1, -1, -1):
                if self.out[k][1]:
                    break
                m = re.search(r"\bfn\s+(" + IDENT + ")", self.out[k][0])
                if m:
                    return "lemma " + m.group(1)
        return "unit text"

    def file_at(self, line):
        return self.out[line - 1][2] if 1 <= line <= len(self.out) else None


def ret_arrow(sig):
    """index of the top-level -> of a fn signature."""
    i = sig.index("fn ")
    i = find_at_depth0(sig, i, "(", len(sig))
    i = match_close(sig, i) + 1
    k = sig.find("->", i)
    return None if k < 0 else k


def publicise(text, kind):
    """make a struct/enum and its fields pub (visibility only; needed for pub specs)."""
    if not text.startswith("pub"):
        text = "pub " + text
    if kind == "struct":
        b = text.find("{")
        p = text.find("(")
        if b >= 0 and (p < 0 or b < p):
            head, body = text[:b + 1], text[b + 1:]
            body = re.sub(r"(^|[,{]\s*|\n\s*)(?!pub\b)(" + IDENT + r")\s*:(?!:)", r"\1pub \2:", body)
            text = head + body
        elif p >= 0:
            c = match_close(text, p)
            fields = Rewriter().split_args(text[p + 1:c])
            fields = [f if f.strip().startswith("pub") or not f.strip() else " pub " + f.strip() for f in fields]
            text = text[:p + 1] + ",".join(fields) + text[c:]
    return text


if __name__ == "__main__":
    u = Unit(sys.argv[1]).process()
    out = sys.argv[2] if len(sys.argv) > 2 else "/dev/stdout"
    with open(out, "w") as f:
        f.write(u.text())
    print(json.dumps({"fns": len(u.fns), "rewrites": u.rw.log, "subs": u.subs}, indent=1), file=sys.stderr)
