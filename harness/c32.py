"""C32: the Python interface. Each case takes symbolic arguments, runs the module's real code, and returns whether the property held.

The openEMS module, the programs started and the folders of the disk are stand-ins that record what is asked of them."""
import importlib.util, os, shutil, stat, subprocess, sys, types

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
FILE = os.path.join(REPO, "api/python/openemsh.py")


class _FDTD:
    pass


def load():
    m = types.ModuleType("openEMS")
    m.openEMS = _FDTD
    sys.modules["openEMS"] = m
    s = importlib.util.spec_from_file_location("openemsh_api", FILE)
    api = importlib.util.module_from_spec(s)
    s.loader.exec_module(api)
    return api


api = load()
FUNCTIONS = ["run_openemsh", "run_appcsxcad", "ensure_sim_path"]


class World:
    """Programs that are not started: they end with the given code."""
    def __init__(self, code):
        self.log = []
        w = self

        class FDTD(_FDTD):
            def Write2XML(self, f):
                w.log.append(("write", f))

            def ReadFromXML(self, f):
                w.log.append(("read", f))

        class Popen:
            def __init__(self, args, *a, **k):
                w.log.append(("run", list(args)))
                w.plain = not k.get("shell") and k.get("cwd") is None and k.get("env") is None and k.get("stdout") is None
                self.args, self.returncode, self.pid = args, None, 0
                self.stdin = self.stdout = self.stderr = None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def communicate(self, *a, **k):
                self.returncode = code
                return (None, None)

            def wait(self, *a, **k):
                self.returncode = code
                return code

            def poll(self):
                self.returncode = code
                return code

            def kill(self):
                pass
        self.fdtd, self.popen, self.plain = FDTD(), Popen, True

    def __enter__(self):
        self.old = subprocess.Popen
        subprocess.Popen = self.popen
        return self

    def __exit__(self, *a):
        subprocess.Popen = self.old
        return False


def mesh(path: str, n: int, a0: str, a1: str, a2: str, code: int) -> bool:
    """
    bounds: any file name, 0 to 3 options, each of up to 4 characters; the mesher ends with any code 0..255
    pre: len(path) <= 4 and len(a0) <= 4 and len(a1) <= 4 and len(a2) <= 4 and 0 <= n <= 3 and 0 <= code <= 255
    post: _
    """
    args = [a0, a1, a2][:n]
    given = list(args)
    failed = False
    with World(code) as w:
        try:
            api.run_openemsh(w.fdtd, path, args)
        except subprocess.CalledProcessError:
            failed = True
    want = [("write", path), ("run", ["openemsh", "-i", path] + given)] + ([] if code else [("read", path)])
    return w.log == want and w.plain and failed == (code != 0) and args == given


def mesh_again(path: str, other: str, a0: str, between: bool) -> bool:
    """
    bounds: any two file names and an option of up to 4 characters; without options, before and after a run with one or none
    pre: len(path) <= 4 and len(other) <= 4 and len(a0) <= 4
    post: _
    """
    fresh = load()
    with World(0) as w:
        fresh.run_openemsh(w.fdtd, path)
        if between:
            fresh.run_openemsh(w.fdtd, other, [a0])
        fresh.run_openemsh(w.fdtd, other)
    want = [("write", path), ("run", ["openemsh", "-i", path, "-Gv"]), ("read", path)]
    if between:
        want += [("write", other), ("run", ["openemsh", "-i", other, a0]), ("read", other)]
    want += [("write", other), ("run", ["openemsh", "-i", other, "-Gv"]), ("read", other)]
    return w.log == want


def view(path: str, edit: bool, render: bool, given: int, code: int) -> bool:
    """
    bounds: any file name of up to 4 characters, each option given or left out, the viewer ends with any code 0..255
    pre: len(path) <= 4 and 0 <= given <= 3 and 0 <= code <= 255
    post: _
    """
    k = {}
    if given & 1:
        k["edit"] = edit
    else:
        edit = False
    if given & 2:
        k["render_disc_material"] = render
    else:
        render = False
    with World(code) as w:
        api.run_appcsxcad(w.fdtd, path, **k)
    if len(w.log) != (3 if edit else 2) or w.log[0] != ("write", path) or w.log[1][0] != "run":
        return False
    cmd = w.log[1][1]
    options = sorted((["--RenderDiscMaterial"] if render else []) + ([] if edit else ["--disableEdit"]))
    return cmd[0] == "AppCSXCAD" and sorted(cmd[1:-1]) == options and cmd[-1] == path and w.plain and (not edit or w.log[2] == ("read", path))


class Disk:
    """A folder of its own that may hold a folder which holds files and folders; anything outside of it is refused."""
    HOME = "/verif-no-such-folder"

    def __init__(self, there, files, folders):
        self.at, self.odd = self.HOME + "/sim", False
        self.nodes = {self.HOME: True}  # path: is it a folder
        if there:
            self.nodes[self.at] = True
            for i in range(files):
                self.nodes["%s/f%d" % (self.at, i)] = False
            for i in range(folders):
                self.nodes["%s/d%d" % (self.at, i)] = True
                self.nodes["%s/d%d/f" % (self.at, i)] = False

    def mine(self, p):
        p = os.fspath(p) if isinstance(p, (str, os.PathLike)) else ""
        return p.rstrip("/") if p.startswith(self.HOME) else ""

    def within(self, q):
        return [n for n in self.nodes if n.startswith(q + "/")]

    def inside(self, q):
        return [n[len(q) + 1:] for n in self.within(q) if "/" not in n[len(q) + 1:]]

    def folder(self, q):
        if q not in self.nodes:
            raise FileNotFoundError(2, "No such file or directory", q)
        if not self.nodes[q]:
            raise NotADirectoryError(20, "Not a directory", q)

    def stat(self, p, *a, **k):
        q = self.mine(p)
        if not q:
            return self.old["stat"](p, *a, **k)
        if q not in self.nodes:
            raise FileNotFoundError(2, "No such file or directory", q)
        return os.stat_result(((stat.S_IFDIR if self.nodes[q] else stat.S_IFREG) | 0o755,) + (0,) * 9)

    def mkdir(self, p, *a, **k):
        q = self.mine(p)
        if q in self.nodes:
            raise FileExistsError(17, "File exists", q)
        if os.path.dirname(q) not in self.nodes:
            self.odd = True
            raise FileNotFoundError(2, "No such file or directory", q)
        self.nodes[q] = True

    def rmtree(self, p, ignore_errors=False, *a, **k):
        q = self.mine(p)
        if q in self.nodes and self.nodes[q]:
            for n in self.within(q):
                del self.nodes[n]
            del self.nodes[q]
        elif not ignore_errors:
            self.folder(q)

    def listdir(self, p="."):
        q = self.mine(p)
        self.folder(q)
        return self.inside(q)

    def scandir(self, p="."):
        q = self.mine(p)
        self.folder(q)
        disk = self

        class Entry:
            def __init__(self, name):
                self.name, self.path = name, os.fspath(p).rstrip("/") + "/" + name
                self.is_folder = disk.nodes[q + "/" + name]

            def __fspath__(self):
                return self.path

            def is_dir(self, **k):
                return self.is_folder

            def is_file(self, **k):
                return not self.is_folder

            def is_symlink(self):
                return False

            def is_junction(self):
                return False

        class Entries:
            def __init__(self, entries):
                self.left = list(entries)

            def __iter__(self):
                return self

            def __next__(self):
                if not self.left:
                    raise StopIteration
                return self.left.pop(0)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass
        return Entries(Entry(n) for n in self.inside(q))

    def rmdir(self, p, *a, **k):
        q = self.mine(p)
        self.folder(q)
        if self.within(q):
            raise OSError(39, "Directory not empty", q)
        del self.nodes[q]

    def unlink(self, p, *a, **k):
        q = self.mine(p)
        if q not in self.nodes:
            raise FileNotFoundError(2, "No such file or directory", q)
        if self.nodes[q]:
            raise IsADirectoryError(21, "Is a directory", q)
        del self.nodes[q]

    def __enter__(self):
        new = dict(stat=self.stat, lstat=self.stat, mkdir=self.mkdir, listdir=self.listdir, scandir=self.scandir, rmdir=self.rmdir, unlink=self.unlink, remove=self.unlink)
        self.old = {k: getattr(os, k) for k in new}
        self.old_rmtree = shutil.rmtree
        for k, v in new.items():
            setattr(os, k, v)
        shutil.rmtree = self.rmtree
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(os, k, v)
        shutil.rmtree = self.old_rmtree
        return False


def folder(there: bool, files: int, folders: int, given: bool, cleanup: bool, again: bool, slash: bool) -> bool:
    """
    bounds: a folder that exists or not, holding 0 to 2 files and 0 to 2 folders that hold one, to be cleaned up or not or unsaid, once or twice, its name with or without a slash
    pre: 0 <= files <= 2 and 0 <= folders <= 2
    post: _
    """
    with Disk(there, files, folders) as d:
        before = dict(d.nodes)
        p = d.at + ("/" if slash else "")
        for _ in range(2 if again else 1):
            if given:
                api.ensure_sim_path(p, cleanup)
            else:
                api.ensure_sim_path(p)
    want = before if there and not (given and cleanup) else {d.HOME: True, d.at: True}
    return d.nodes == want and not d.odd


CASES = {f.__name__: f for f in (mesh, mesh_again, view, folder)}
