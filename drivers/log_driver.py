"""Histories of loggers (objutils.logger): what appears on standard error.

--scenarios FILE  histories printed by TLC (LogMC.tla)
otherwise         random histories
"""
import io
import json
import logging
import re
import sys

from common import Out, parser, rng

from objutils.logger import Logger

LINE = re.compile(r"\[(.*?) \(objutils\.(.*?)\)\]: (.*)\Z", re.S)
SEVERITY = {10: "debug", 20: "info", 30: "warn", 40: "error", 50: "critical"}


def run(out, cid, ops):
    logging.disable(logging.NOTSET)
    real, sys.stderr = sys.stderr, io.StringIO()
    logs, ev, texts = [], [], {}
    names = sorted({op["name"] for op in ops if op["o"] == "new"})
    chan = {n: f"vt{cid}{n}" for n in names}
    back = {v: k for k, v in chan.items()}
    try:
        for k, op in enumerate(ops):
            op, x, r = dict(op), "", []
            sys.stderr.seek(0)
            sys.stderr.truncate()
            try:
                o = op["o"]
                log = logs[op["i"] - 1] if o != "new" else None
                if o == "new":
                    if op["level"] == 30 and k % 2:
                        logs.append(Logger(chan[op["name"]]))
                    else:
                        logs.append(Logger(chan[op["name"]], op["level"]))
                elif o == "log":
                    text = op.pop("text", f"message {op['msg']} 100% {{}} %s ") + f"#{op['msg']}#"
                    texts[text] = op["msg"]
                    name = SEVERITY.get(op["sev"])
                    if name and k % 3:
                        getattr(log, name)(text)
                    else:
                        log.log(text, op["sev"])
                elif o == "set":
                    lv = op["level"]
                    log.setLevel(lv["s"] if "s" in lv else lv["n"])
                    if "s" in lv:
                        op["level"] = {"s": lv["s"].upper()}
                elif o == "last":
                    sev, msg = log.getLastError()
                    r = [] if sev is None and msg is None else [sev, texts.get(msg, -1)]
                else:
                    getattr(log, o)()
            except Exception as e:
                x = type(e).__name__
            got = sys.stderr.getvalue()
            lines = []
            if got:
                for part in got[:-1].split("\n[") if got.endswith("\n") else [got]:
                    m = LINE.match(part if part.startswith("[") else "[" + part)
                    lines.append({"level": m[1], "name": back.get(m[2], m[2]), "msg": texts.get(m[3], -1)} if m else {"level": "?", "name": part[:40], "msg": -1})
            ev.append({"op": op, "x": x, "r": r, "out": lines})
    finally:
        sys.stderr = real
    out.put({"id": cid, "names": names or ["a"], "ev": ev})


def rand(q):
    ops, n = [], 0
    for k in range(q.randrange(3, 30)):
        o = q.choice(["new", "log", "log", "log", "set", "verbose", "silent", "last", "last"]) if n else "new"
        if o == "new":
            n += 1
            ops.append({"o": o, "name": q.choice("aabc"), "level": q.choice([30, 30, 10, 20, 40, 50, 15])})
            continue
        op = {"o": o, "i": q.randint(1, n)}
        if o == "log":
            op.update(sev=q.choice([10, 20, 30, 40, 50, 25, 60]), msg=k, text=q.choice(["plain ", "", "%d%s%", "größe ", "{x} ", "two\nlines ", " "]))
        elif o == "set":
            op["level"] = q.choice([{"s": "debug"}, {"s": "Info"}, {"s": "WARN"}, {"s": "error"}, {"s": "CRITICAL"}, {"s": "none"}, {"s": ""}, {"n": 10}, {"n": 35}, {"n": 50}, {"n": 70}])
        ops.append(op)
    return ops


def main():
    p = parser()
    p.add_argument("--scenarios", default="")
    a = p.parse_args()
    out, q = Out(a.out), rng(a)
    if a.scenarios:
        with open(a.scenarios) as f:
            for k, line in enumerate(f):
                if k % a.shards == a.shard:
                    run(out, f"h{k}", json.loads(line)["ops"])
    else:
        for k in range(a.n):
            run(out, f"r{a.shard}_{k}", rand(q))
    out.close()


main()
