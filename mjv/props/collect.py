"""C31: collecting logs (the page filter and the downloader)."""
import gzip
import os
import shutil
import subprocess
import sys
import tempfile
import types

from .. import core
from ..core import Violation
from ..ref import sim

PAGES, LOGS = "raw/2021/", "processed/2021/"
CODE = os.path.join(core.REPO, "MahjongAI", "data")
NOBODY = 65534
ROOMS = ("\u56db\u9cf3\u5357\u55b0\u8d64\uff0d", "\u56db\u9cf3\u6771\u55b0\u8d64\uff0d", "\u4e09\u9cf3\u5357\u55b0\u8d64\uff0d")


def drop_rights():
    """The scripts run as a user who owns the scratch folder only."""
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


class Answer:
    def __init__(self, status, content):
        self.status_code, self.content = status, content
        self.ok = status < 400

    @property
    def text(self):
        return self.content.decode("utf-8", "replace")

    def iter_content(self, n=1):
        for i in range(0, len(self.content), n or 1):
            yield self.content[i:i + n]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


class C31(core.Check):
    id = "C31"
    rule = ("One evaluation is a folder of raw archive files put through the page filter, or a folder of pages "
            "put through the downloader with a stand-in for the network that answers each request as generated. "
            "Both run as an unprivileged user in a scratch folder. Non-trivial: files to keep and to delete, or "
            "at least two pages and a request that fails.")
    assumptions = ["pages link games the way the log server's archive does, with the game id as the only "
                   "parameter", "an unpacked page does not exist yet beside its packed one",
                   "the network answers every request; a connection error is not simulated"]
    quick = 1600
    thorough = 40000
    tape_len = 700

    def shard(self, ctx):
        def body(data):
            return ctx.try_case(self.gen(sim.Tape(data)))
        core.tapes(ctx, ctx.my_cases(), self.tape_len, body)

    # -------------------------------------------------------------- generation
    def gen(self, tape):
        return self.gen_filter(tape) if tape.chance(60) else self.gen_pages(tape)

    def gen_filter(self, tape):
        names = {}
        for _ in range(tape.below(12)):
            day = f"202101{1 + tape.below(28):02d}{tape.below(24):02d}"
            kind = tape.pick(["scc", "sca", "scb", "scc", "scd", "sce", "scf", "SCC", "xscc", "sc", "ssc", "scc ",
                              "old scc", "a  b", "s*", "[scc]"])
            end = tape.pick([".html.gz", ".html.gz", ".html", ".log.gz", ".txt", ""])
            names[kind + day + end] = "".join(chr(32 + tape.below(90)) for _ in range(tape.below(20)))
        stems = set()
        keep = {}
        for n, c in names.items():
            s = n[:-3] if n.endswith(".gz") else n
            if s not in stems:
                stems.add(s)
                keep[n] = c
        return {"kind": "filter", "files": keep, "beside": tape.chance(128)}

    def gen_pages(self, tape):
        ids, pages = [], {}
        for _ in range(1 + tape.below(4)):
            lines = []
            for _ in range(tape.below(7)):
                r = tape.below(8)
                if r < 5:
                    if ids and tape.chance(16):
                        gid = tape.pick(ids)
                    else:
                        gid = (f"2021{1 + tape.below(12):02d}{1 + tape.below(28):02d}{tape.below(24):02d}gm-"
                               f"{tape.pick(['00a9', '00b9', '0089', '00e1', '00a9'])}-{tape.below(2):04x}-"
                               f"{tape.below(1 << 16):04x}{tape.below(1 << 16):04x}")
                        ids.append(gid)
                    lines.append(["game", gid, tape.below(6)])
                else:
                    lines.append(["other", tape.pick(
                        ["http://tenhou.net/0/?wg=0123&tw=1", "https://example.org/?log=1", "http://tenhou.net/",
                         "/0/?log=no", "http://tenhou.net/ranking.html", "ftp://tenhou.net/0/?log=x",
                         "http://tenhou.net/3/?log=2021010100gm-00a9-0000-00000000"]), tape.below(6)])
            name = tape.pick(["scc2021010100.html", "scc2021010123.html", "scc20210102.html", "a.html", "b.html"])
            if tape.chance(40):
                name = tape.pick(["scc2021010100.html.gz", "notes.txt", "scc2021.htm", "html", "x.html.bak"])
            pages[name] = lines
        answers = {}
        for gid in ids:
            answers[gid] = [200 if tape.chance(190) else tape.pick([404, 403, 500, 503, 302, 429]),
                            [tape.below(256) for _ in range(tape.below(12))]]
        return {"kind": "pages", "pages": pages, "answers": answers, "old": tape.chance(80)}

    def smaller(self, case):
        for key in ("files", "pages"):
            for n in case.get(key, ()):
                yield dict(case, **{key: {k: v for k, v in case[key].items() if k != n}})
        for n, ls in case.get("pages", {}).items():
            for i in range(len(ls)):
                yield dict(case, pages=dict(case["pages"], **{n: ls[:i] + ls[i + 1:]}))

    # -------------------------------------------------------------- decision
    def check_case(self, case, stats=None):
        top = tempfile.mkdtemp(prefix="mjv-collect-", dir="/tmp")
        try:
            os.chmod(top, 0o755)
            (self.filter if case["kind"] == "filter" else self.download)(case, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)
        if stats is not None:
            stats.note(case["kind"])
            if case["kind"] == "filter":
                k = sum(n.startswith("scc") for n in case["files"])
                stats.note("files kept", k)
                stats.note("files deleted", len(case["files"]) - k)
                stats.case(case, 0 < k < len(case["files"]), lambda: case)
            else:
                bad = sum(a[0] != 200 for a in case["answers"].values())
                stats.note("games answered", len(case["answers"]) - bad)
                stats.note("games refused", bad)
                stats.case(case, len(case["pages"]) > 1 and bad, lambda: case)

    @staticmethod
    def put(top, files):
        for n, data in files.items():
            p = os.path.join(top, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as o:
                o.write(data)

    @staticmethod
    def own(top):
        if os.geteuid() == 0:
            for d, _, fs in os.walk(top):
                for f in [d] + [os.path.join(d, f) for f in fs]:
                    os.chown(f, NOBODY, NOBODY)

    @staticmethod
    def listing(top):
        out = {}
        for d, _, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as i:
                    out[os.path.relpath(p, top)] = i.read()
        return out

    def filter(self, case, top):
        files, want = {}, {}
        for n, text in case["files"].items():
            data = text.encode()
            files[PAGES + n] = gzip.compress(data, mtime=0) if n.endswith(".gz") else data
            if n.startswith("scc"):
                want[PAGES + (n[:-3] if n.endswith(".gz") else n)] = data
        if case["beside"]:
            beside = {"raw/2020/sca2020.html": b"1", "raw/notes.txt": b"2", "processed/2021/x.log": b"3",
                      "raw/2022/sca.html.gz": gzip.compress(b"4", mtime=0)}
            files.update(beside)
            want.update(beside)
        os.makedirs(os.path.join(top, PAGES))
        self.put(top, files)
        self.own(top)
        r = subprocess.run(["bash", os.path.join(CODE, "filter_raw.sh")], cwd=top, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=100,
                           preexec_fn=drop_rights)
        self.same("the page filter", self.listing(top), want, r.stderr.decode(errors="replace")[-200:])

    def page(self, lines):
        out = ["<html><head><meta charset=\"utf-8\"></head><body>\n"]
        for i, (kind, x, form) in enumerate(lines):
            url = "http://tenhou.net/0/?log=" + x if kind == "game" else x
            a = (f'<a href="{url}">', f"<a href='{url}'>", f'<a href="{url}" target="_blank">',
                 f'<a class="log" href="{url}">', f'<a  title="x"\n href="{url}">', f'<a href="{url}" >')[form]
            out.append(f"{i:02d}:05 | 30 | {ROOMS[i % 3]} | {a}\u724c\u8b5c</a> | A(+50.0) B(+5.0) C(-15.0) D(-40.0)<br>"
                       + ("\n" if (i + form) % 4 else ""))
        return "".join(out) + "</body></html>\n"

    def download(self, case, top):
        files = {PAGES + n: self.page(ls).encode("utf-8") for n, ls in case["pages"].items()}
        want = dict(files)
        if case["old"]:
            old = {LOGS + "2020123123gm-00a9-0000-00000000.log": b"old", "raw/2020/scc.html": self.page(
                [["game", "2020010100gm-00a9-0000-00000001", 0]]).encode()}
            files.update(old)
            want.update(old)
        asked = set()
        for n, ls in case["pages"].items():
            if n.endswith(".html"):
                asked.update(x for kind, x, _ in ls if kind == "game")
        for gid in asked:
            status, content = case["answers"][gid]
            if status == 200:
                want[LOGS + gid + ".log"] = bytes(content)
        os.makedirs(os.path.join(top, PAGES))
        os.makedirs(os.path.join(top, LOGS))
        self.put(top, files)
        self.own(top)
        got = set(core.fresh(self.script, case, top))
        wanted = {"https://tenhou.net/0/log/?" + gid for gid in asked}
        if got != wanted:
            raise Violation(f"the downloader asks for {sorted(got - wanted)[:3]} without need, and not for "
                            f"{sorted(wanted - got)[:3]}")
        self.same("the downloader", self.listing(top), want, "")

    def script(self, case, top):
        path = os.path.join(CODE, "scrape_data.py")
        with open(path) as i:
            code = compile(i.read(), path, "exec")
        asked = []

        def get(url, params=None, **kw):
            if params:
                url += ("&" if "?" in url else "?") + (
                    params if isinstance(params, str) else "&".join(f"{k}={v}" if v else k for k, v in dict(params).items()))
            asked.append(url)
            gid = url.rpartition("?")[2]
            status, content = case["answers"].get(gid, [404, []])
            return Answer(status, bytes(content))

        net = types.ModuleType("requests")
        net.get = get
        net.exceptions = types.SimpleNamespace(RequestException=OSError)
        net.RequestException = OSError

        class Session:
            def __init__(self):
                self.headers = {}

            def get(self, *a, **k):
                return get(*a, **k)

            def close(self):
                pass

            __enter__ = lambda self: self  # noqa: E731
            __exit__ = lambda self, *exc: None  # noqa: E731

        net.Session = Session
        sys.modules["requests"] = net
        os.chdir(top)
        drop_rights()
        exec(code, {"__name__": "__main__", "__file__": path})
        return asked

    def same(self, who, got, want, err):
        lost = sorted(set(want) - set(got))
        more = sorted(set(got) - set(want))
        other = sorted(f for f in want if f in got and got[f] != want[f])
        if lost or more or other:
            raise Violation(f"{who}: missing are {lost[:3]}, too many are {more[:3]}, different are {other[:3]} "
                            f"{err}")
