import os


def modules(repo="/repo", tests=False):
    """(module name, path) of every Python module of the code under test"""
    out = []
    root = os.path.join(repo, "src")
    for d, dirs, files in os.walk(root):
        dirs.sort()
        if not tests and "tests" in dirs:
            dirs.remove("tests")
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                out.append((os.path.relpath(p, root)[:-3].replace(os.sep, "."), p))
    return out
