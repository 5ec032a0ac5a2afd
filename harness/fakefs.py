"""
Stand-ins for the file system as the time zone database sees it: nothing real is read.
"""
import pycalendar.timezonedb as timezonedb


class Path(object):
    """os.path of a POSIX system, over the files of a stand-in"""
    sep = "/"
    pardir = ".."
    curdir = "."

    def __init__(self, files):
        self.files = files

    def join(self, a, *rest):
        for b in rest:
            if b[:1] == "/":
                a = b
            elif a == "" or a[-1:] == "/":
                a = a + b
            else:
                a = a + "/" + b
        return a

    def normpath(self, p):
        if p == "":
            return "."
        root = "/" if p[:1] == "/" else ""
        if p[:2] == "//" and p[:3] != "///":
            root = "//"
        out = []
        for c in p.split("/"):
            if c == "" or c == ".":
                continue
            if c != ".." or (root == "" and not out) or (out and out[-1] == ".."):
                out.append(c)
            elif out:
                out.pop()
        r = root + "/".join(out)
        return r if r != "" else "."

    def isabs(self, p):
        return p[:1] == "/"

    def abspath(self, p):
        return self.normpath(p if p[:1] == "/" else "/cwd/" + p)

    def realpath(self, p):
        return self.abspath(p)

    def normcase(self, p):
        return p

    def expanduser(self, p):
        return p

    def split(self, p):
        i = p.rfind("/") + 1
        head = p[:i]
        if head.strip("/") != "":
            head = head.rstrip("/")
        return head, p[i:]

    def dirname(self, p):
        return self.split(p)[0]

    def basename(self, p):
        return self.split(p)[1]

    def splitext(self, p):
        i = p.rfind(".")
        if i <= p.rfind("/") + 1:
            return p, ""
        return p[:i], p[i:]

    def commonprefix(self, items):
        a, b = min(items), max(items)
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        return a[:n]

    def relpath(self, p, start="."):
        a = [c for c in self.abspath(start).split("/") if c != ""]
        b = [c for c in self.abspath(p).split("/") if c != ""]
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        return "/".join([".."] * (len(a) - n) + b[n:]) or "."

    def isfile(self, p):
        return self.files.has(p)

    def exists(self, p):
        return self.files.has(p)

    def lexists(self, p):
        return self.files.has(p)

    def isdir(self, p):
        return False

    def islink(self, p):
        return False


class OS(object):
    sep = "/"
    pardir = ".."
    curdir = "."
    R_OK = 4

    def __init__(self, files):
        self.path = Path(files)
        self.files = files

    def access(self, p, mode):
        return self.files.has(p)

    def getcwd(self):
        return "/cwd"


class File(object):

    def __init__(self, text):
        self.lines = text.split("\n")
        self.at = 0

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def close(self):
        pass

    def readline(self, *args):
        if self.at >= len(self.lines):
            return ""
        self.at += 1
        last = self.at == len(self.lines)
        return self.lines[self.at - 1] + ("" if last else "\n")

    def read(self, *args):
        t = "\n".join(self.lines[self.at:])
        self.at = len(self.lines)
        return t

    def __iter__(self):
        return iter(self.read().splitlines(True))


class Files(object):
    """files by name; None: every name is a file, without anything in it"""

    def __init__(self, files):
        self.files = files
        self.opened = []

    def has(self, p):
        return self.files is None or p in self.files

    def open(self, p, *args):
        self.opened.append(p)
        if self.files is None:
            return File("")
        if p not in self.files:
            raise IOError("no file")
        return File(self.files[p])

    def install(self):
        timezonedb.os = OS(self)
        timezonedb.open = self.open
