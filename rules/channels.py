"""C15: every gRPC channel and server the SDK opens allows large messages."""
import ast
import os
import re
from sa import static as T
from sa.dom import *
from sa.prog import REPO, AnchorMissing

# callable -> position of `options`
OPENERS = {"grpc.insecure_channel": 1, "grpc.secure_channel": 2, "grpc.server": 3, "grpc.aio.insecure_channel": 1, "grpc.aio.secure_channel": 2, "grpc.aio.server": 3,
           "grpc.experimental.insecure_channel": 1}
RECV, SEND = "grpc.max_receive_message_length", "grpc.max_send_message_length"


def engine_limit():
    p = os.path.join(REPO, "sdk/go/common/util/rpcutil/serve.go")
    if not os.path.exists(p):
        raise AnchorMissing("sdk/go/common/util/rpcutil/serve.go is gone")
    m = re.search(r"maxRPCMessageSize\s*=\s*([\d* ]+)", open(p, encoding="utf-8").read())
    if not m:
        raise AnchorMissing("maxRPCMessageSize not found")
    n = 1
    for x in m.group(1).split("*"):
        n *= int(x)
    return n


def c15(ctx):
    limit = engine_limit()
    ctx.explanation = (f"Every call that opens a gRPC channel or server is found by resolving names through imports; its options argument is followed to "
                       f"its definition and must raise the receive limit to at least the engine's own ({limit} bytes) and not lower the send limit below it.")
    prog = ctx.prog
    w = ctx.world("")
    n = 0
    for name, m in sorted(prog.mods.items()):
        for call in ast.walk(m.tree):
            if not isinstance(call, ast.Call):
                continue
            d = T.dotted(prog, m, call.func)
            if d is None and isinstance(call.func, ast.Name) and T.enclosing(prog, call) is not None:
                ds = [T.dotted(prog, m, x) for x in T.assigned(T.enclosing(prog, call), call.func.id) if isinstance(x, (ast.Name, ast.Attribute))]
            else:
                ds = [d]
            for f in ds:
                if f not in OPENERS:
                    continue
                n += 1
                cons = f"{prog.qualname(call)}:{f}"
                opt = next((k.value for k in call.keywords if k.arg == "options"), None)
                if opt is None and len(call.args) > OPENERS[f] and not any(isinstance(a, ast.Starred) for a in call.args):
                    opt = call.args[OPENERS[f]]
                if opt is None:
                    if any(k.arg is None for k in call.keywords) or any(isinstance(a, ast.Starred) for a in call.args):
                        ctx.ob(None, "message-size", cons, ctx.loc(call), "options given indirectly")
                    else:
                        ctx.ob(False, "message-size", cons, ctx.loc(call), "opened without options: messages over 4 MiB are refused")
                    continue
                for mm, leaf in T.leaves(prog, m, opt):
                    ctx.ob(*verdict(w, mm, leaf, limit)[:1], "message-size", cons, ctx.loc(call), verdict(w, mm, leaf, limit)[1])
    ctx.ob(True if n else None, "sites-found", "grpc openers", "", f"{n} sites")


def verdict(w, mm, leaf, limit):
    if leaf is None:
        return None, "options not followed"
    if isinstance(leaf, ast.Constant) and leaf.value is None:
        return False, "options are None: messages over 4 MiB are refused"
    st = w.st.copy()
    v = w.e.eval_in_module(mm.name, leaf, st)
    worst = (True, "")
    for a in v:
        h = st.heap.get(a.key) if isinstance(a, Ref) else None
        if h is None or h.kind not in LISTS or h.rest:
            return None, "options are not a literal list"
        got = {}
        for it in h.items:
            for b in it:
                p = st.heap.get(b.key) if isinstance(b, Ref) else None
                if p is None or p.kind not in LISTS or len(p.items) != 2 or p.rest:
                    return None, "option is not a literal pair"
                k, x = p.items
                for kk in k:
                    if not isinstance(kk, K):
                        return None, "option name is not a constant"
                    got[kk.v] = x
        for key, need in ((RECV, True), (SEND, False)):
            if key not in got:
                if need:
                    return False, f"{key} is not set"
                continue
            for x in got[key]:
                if not isinstance(x, K) or not isinstance(x.v, int):
                    worst = (None, f"{key} is not a constant")
                elif x.v != -1 and x.v < limit:
                    return False, f"{key} is {x.v}, less than the engine's {limit}"
    return worst
