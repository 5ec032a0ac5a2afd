# Runs under Jython 2.7: parses Python 2 sources with the real Python 2.7 parser and writes their ASTs as JSON.
# usage: jython dump_ast.py OUT.json MODNAME=PATH ... (or @LISTFILE)
import ast
import json
import sys

from java.lang import Class


def conv(n):
    if isinstance(n, ast.AST):
        d = {"_": n.__class__.__name__}
        for f in (n._fields or ()):
            d[f] = conv(getattr(n, f, None))
        ln = getattr(n, "lineno", None)
        if ln is not None:
            d["@"] = int(ln)
        return d
    if isinstance(n, (list, tuple)):
        return [conv(i) for i in n]
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, (int, long)):
        return {"_": "$int", "v": str(n)}
    if isinstance(n, float):
        return {"_": "$float", "v": repr(n)}
    if isinstance(n, unicode):
        return {"_": "$unicode", "v": [ord(c) for c in n]}
    if isinstance(n, str):
        return {"_": "$str", "v": [ord(c) for c in n]}
    if str(n) == "DictComp" and not hasattr(n, "_fields"):
        # Jython does not show this node to Python
        c = Class.forName("org.python.antlr.ast.DictComp")
        g = lambda m: Class.getMethod(c, m, []).invoke(n, [])
        return {"_": "DictComp", "key": conv(g("getInternalKey")), "value": conv(g("getInternalValue")),
                "generators": [conv(x) for x in g("getInternalGenerators")]}
    # Operators / contexts come through as java enums in some positions
    return {"_": "$enum", "v": str(n)}


def main():
    out = sys.argv[1]
    res = {}
    items = []
    for a in sys.argv[2:]:
        if a.startswith("@"):
            items.extend([l.strip() for l in open(a[1:]) if l.strip()])
        else:
            items.append(a)
    for a in items:
        name, path = a.split("=", 1)
        src = open(path, "rb").read()
        try:
            res[name] = {"path": path, "ast": conv(compile(src, path, "exec", ast.PyCF_ONLY_AST))}
        except SyntaxError, e:
            res[name] = {"path": path, "error": str(e)}
    f = open(out, "wb")
    f.write(json.dumps(res))
    f.close()

main()
