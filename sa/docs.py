"""The Python examples of the documentation, as programs for the abstract interpreter.

Every example is read from the documents on each run.  A document's examples share their names, as a
reader who works through it would; what an example leaves to the reader (a stream, a batch) is bound to
symbolic data.  After every expression statement of the example under study the value is handed to
docs.said(), which states what the documentation says about it.
"""
from __future__ import annotations

import ast
import html
import os
import re
import textwrap

from . import harness as H

DOCS = ["README.md", "SKILL.md", "MIGRATING.md", os.path.join("docs", "index.html")]


def examples(repo):
    """[(document, index, source, line)] of every Python example, docstrings of the package included."""
    out = []
    for rel in DOCS:
        p = os.path.join(repo, rel)
        if not os.path.isfile(p):
            continue
        with open(p, encoding="utf-8") as f:
            text = f.read()
        if rel.endswith(".md"):
            found = [(m.group(1), m.start()) for m in re.finditer(r"^```(?:python|py)[^\n]*\n(.*?)^```", text, re.S | re.M)]
        else:
            found = [(html.unescape(re.sub(r"<[^>]+>", "", m.group(1))), m.start())
                     for m in re.finditer(r"<pre[^>]*>(.*?)</pre>", text, re.S)]
            found = [(s, at) for s, at in found if re.match(r"\s*(import|from)\s+\w", s)]
        for i, (s, at) in enumerate(found):
            out.append((rel, i, textwrap.dedent(s), text.count("\n", 0, at) + 1))
    for base, dirs, files in sorted(os.walk(os.path.join(repo, "precise"))):
        dirs.sort()
        for fn in sorted(files):
            if not fn.endswith(".py"):
                continue
            p = os.path.join(base, fn)
            with open(p, encoding="utf-8") as f:
                tree = ast.parse(f.read(), p)
            i = 0
            for n in ast.walk(tree):
                if not isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                    continue
                doc = ast.get_docstring(n)
                if not doc:
                    continue
                for m in re.finditer(r"::\n\n((?:[ \t]+\S[^\n]*\n|[ \t]*\n)+)", doc + "\n"):
                    src = textwrap.dedent(m.group(1)).strip("\n") + "\n"
                    if re.match(r"(import|from)\s+\w", src):
                        out.append((os.path.relpath(p, repo), i, src, getattr(n, "lineno", 1)))
                        i += 1
    return out


PRELUDE = '''
import numpy as np
import av
from docs import said, called, feed, vectors

def main(how):
    out = []
    stream = feed(how)
    ys = stream
    stream_of_vectors = lambda: stream
    X = av.rows(8, 3)
'''


class Watch(ast.NodeTransformer):
    def __init__(self, mark):
        self.mark = mark
        self.n = 0

    def statement(self, s):
        if not self.mark:
            return [s]
        value = target = None
        if isinstance(s, ast.Expr):
            value = s.value
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            value, target = s.value, s.targets[0].id
        if value is None:
            return [s]
        text = ast.unparse(value)
        self.n += 1
        tmp = f"_value{self.n}"
        put = ast.parse(f"{tmp} = 0").body[0]
        put.value = value
        after = [ast.parse(f"{target} = {tmp}").body[0]] if target else []
        label = f"{text}"
        if isinstance(value, ast.Attribute):
            own = ast.unparse(value.value)
            if re.fullmatch(r"\w+", own):
                return [put, *after, *ast.parse(f"out += said({label!r}, {own}, {value.attr!r}, {tmp})").body]
        if isinstance(value, ast.Call):
            f = value.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else "?"
            own = ast.unparse(f.value) if isinstance(f, ast.Attribute) else "None"
            first = ast.unparse(value.args[0]) if value.args else "None"
            kw = {k.arg: ast.unparse(k.value) for k in value.keywords if k.arg}
            return [put, *after, *ast.parse(
                f"out += called({label!r}, {own}, {name!r}, {first}, "
                f"{{{', '.join(f'{k!r}: {v}' for k, v in kw.items())}}}, {tmp})").body]
        return [put, *after, *ast.parse(f"out.append(({label!r}, True, {tmp} is not None))").body]


def program(blocks, upto):
    """One function body: the examples up to and including `upto`, the last one observed."""
    body = []
    for i, s in enumerate(blocks[:upto + 1]):
        tree = ast.parse(s)
        w = Watch(i == upto)
        for st in tree.body:
            body += w.statement(st)
    src = PRELUDE + textwrap.indent("\n".join(ast.unparse(ast.fix_missing_locations(s)) for s in body), "    ")
    return src + "\n    out.append(('runs', True, True))\n    return out\n"


def removed_api(src):
    return any(isinstance(n, (ast.Import, ast.ImportFrom)) and "precise.skaters" in ast.unparse(n)
               for n in ast.walk(ast.parse(src)))


EXPECT_GONE = '''
import numpy as np

def main(how):
    ys = [[1.0, 2.0], [0.5, 1.5]]
    out = []
    try:
{body}
        got = "runs"
    except ImportError:
        got = "ImportError"
    out.append(("the example of the removed interface", "ImportError", got))
    return out
'''


def programs(repo):
    """[(label, module name, source)] for the interpreter, and findings for examples that do not parse."""
    out, bad = [], []
    docs = {}
    for rel, i, s, line in examples(repo):
        docs.setdefault(rel, []).append((i, s, line))
    for rel, blocks in docs.items():
        usable = []
        for i, s, line in blocks:
            label = f"{rel} example {i + 1}"
            mod = "doc_" + re.sub(r"\W", "_", rel) + f"_{i + 1}"
            try:
                ast.parse(s)
            except SyntaxError as e:
                bad.append((f"{rel}:{line}", f"the example is not valid Python: {e.msg}"))
                continue
            if removed_api(s):
                out.append((label, mod, EXPECT_GONE.format(body=textwrap.indent(s, "        "))))
                continue
            usable.append(s)
            out.append((label, mod, program(usable, len(usable) - 1)))
    return out, bad, sum(len(b) for b in docs.values())


NAME = re.compile(r"\b([A-Z][A-Za-z]+(?:Covariance|Universe|Likelihood|Loss|ToTruth|GMVVariance|Calibration))\b")


def mentioned(repo):
    """{class name: first place} for every library class the documentation names in code style."""
    out = {}
    for rel in DOCS:
        p = os.path.join(repo, rel)
        if not os.path.isfile(p):
            continue
        with open(p, encoding="utf-8") as f:
            text = f.read()
        if rel.endswith(".md"):
            spans = [(m.start(), m.group(0)) for m in re.finditer(r"```.*?```|`[^`\n]+`", text, re.S)]
        else:
            spans = [(m.start(), m.group(1)) for m in re.finditer(r"<(?:code|pre)[^>]*>(.*?)</(?:code|pre)>", text, re.S)]
        for at, s in spans:
            if "precise.skaters" in s:
                continue
            for m in NAME.finditer(s):
                if m.group(1) == "SkaterCovariance":      # named as what is gone
                    continue
                out.setdefault(m.group(1), f"{rel}:{text.count(chr(10), 0, at + m.start()) + 1}")
    if not out:
        raise H.Broken("the documentation names no class")
    return out
