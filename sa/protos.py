"""Message fields of the repository's .proto files: what an unset field of a message reads as."""
import re
from pathlib import Path
from functools import lru_cache

SCALARS = {"string": "", "bool": False, "int32": 0, "int64": 0, "uint32": 0, "uint64": 0, "double": 0.0, "float": 0.0, "bytes": b""}


@lru_cache(None)
def schema(repo):
    """{"Outer.Inner": {field: ("repeated"|"map"|"scalar"|"message"|"enum", type)}}"""
    out = {}
    for p in sorted(Path(repo, "proto/pulumi").glob("*.proto")):
        text = re.sub(r"//[^\n]*|/\*.*?\*/", "", p.read_text(), flags=re.S)
        stack, toks = [], re.findall(r"[A-Za-z_][\w.]*|[{}<>,;=]|\d+|\"[^\"]*\"|.", re.sub(r"\s+", " ", text))
        toks = [t for t in toks if t.strip()]
        i = 0
        while i < len(toks):
            t = toks[i]
            if t in ("message", "enum", "oneof", "service", "rpc", "extend") and i + 1 < len(toks):
                nm = toks[i + 1]
                j = i + 1
                while j < len(toks) and toks[j] not in "{;":
                    j += 1
                if j < len(toks) and toks[j] == "{":
                    stack.append((t, nm))
                    if t == "message":
                        out[".".join(n for k, n in stack if k == "message")] = {}
                i = j + 1
                continue
            if t == "{":
                stack.append(("block", ""))
            elif t == "}":
                if stack:
                    stack.pop()
            elif t == ";":
                pass
            elif stack and any(k == "message" for k, _ in stack) and stack[-1][0] in ("message", "oneof"):
                j = i
                while toks[j] not in ";":
                    j += 1
                stmt = toks[i:j]
                if "=" in stmt and stmt[0] not in ("option", "reserved"):
                    e = stmt.index("=")
                    name, head = stmt[e - 1], stmt[:e - 1]
                    m = ".".join(n for k, n in stack if k == "message")
                    if head[0] == "repeated":
                        f = ("repeated", head[-1])
                    elif head[0] == "map":
                        f = ("map", head[-2])
                    else:
                        ty = head[-1]
                        f = ("scalar", ty) if ty in SCALARS else ("message", ty)
                    out[m][name] = f
                i = j
            i += 1
    return out


def fields(repo, ext):
    """fields of the message a dotted class name denotes (the part after the proto module), or None"""
    parts = ext.split(".")
    for i in range(len(parts)):
        if parts[i].endswith("_pb2") or parts[i] == "proto":
            s = schema(repo)
            m = s.get(".".join(parts[i + 1:]))
            if m is not None:
                return m
    return None


@lru_cache(None)
def methods(repo, service):
    """names of the remote methods of a service"""
    for p in sorted(Path(repo, "proto/pulumi").glob("*.proto")):
        text = re.sub(r"//[^\n]*|/\*.*?\*/", "", p.read_text(), flags=re.S)
        m = re.search(r"service\s+" + service + r"\s*\{(.*?)\n\}", text, re.S)
        if m:
            return frozenset(re.findall(r"\brpc\s+(\w+)", m.group(1)))
    return frozenset()
