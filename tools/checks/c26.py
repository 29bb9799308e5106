"""C26: message framing."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 WHOLE = %s
INVARIANTS SameMessages BodyExact
CHECK_DEADLOCK FALSE
"""


def hx(b):
    return b.hex() if b else "-"


def message(rng, lf=False):
    """One well-formed message as bytes: Content-Length or chunked, either line end, odd spacing, folded headers."""
    e = b"\n" if lf else b"\r\n"
    word = lambda n=8: bytes(rng.choice(b"abcXYZ019-_") for _ in range(rng.randint(1, n)))
    text = lambda n: bytes(rng.choice(b"abc 019:;={}[]/.%&?\xc3\xa9") for _ in range(rng.randint(0, n))).strip(b" ")
    m = b""
    if rng.random() < 0.25:
        m += e * rng.randint(1, 2) if not lf else b""
    m += rng.choice([b"", b" "]) + word() + rng.choice([b"", b" /x", b" / HTTP/1.1"]) + rng.choice([b"", b"  "]) + e
    names = []
    for _ in range(rng.randint(0, 4)):
        k = word(6)
        if k.lower() in (b"set-cookie", b"content-length"):
            continue
        if names and rng.random() < 0.15:
            k = rng.choice(names).upper()
        names.append(k)
        v = text(12)
        if rng.random() < 0.2:
            v += rng.choice([b"\\n", b"\\r", b"\\t", b"\\\\"]) + word(3)
        m += k + rng.choice([b":", b": ", b" :", b":  "]) + v + rng.choice([b"", b" "]) + e
        if rng.random() < 0.1:
            m += rng.choice([b" ", b"\t"]) + word(4) + e
    body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 2, 3, 7, 30])))
    if rng.random() < 0.3:
        body = rng.choice([b"\r\n\r\n", b"\n\n", b"0\r\n\r\n", b"A: b\r\n\r\nx", b"GET / HTTP/1.1\r\nContent-Length: 2\r\n\r\nab"]) + body
    if not lf and rng.random() < 0.3:
        m += rng.choice([b"Transfer-Encoding: chunked", b"transfer-encoding:Chunked"]) + e + e
        while body:
            n = rng.randint(1, len(body))
            m += (b"%x" % n) + rng.choice([b"", b";ext=1"]) + e + body[:n] + e
            body = body[n:]
        m += b"0" + e
        if rng.random() < 0.3:
            m += b"Foot: " + word(4) + e
        m += e
    else:
        if lf and body[:1] in (b"\r", b"\n"):
            body = b"x" + body   # with bare line feeds a leading line end of the content belongs to the blank line
        m += rng.choice([b"Content-Length: ", b"content-length:"]) + str(len(body)).encode() + e + e + body
    return m


def scripts(rng, n):
    out = []
    for k in range(n):
        lf = rng.random() < 0.2
        stream = b"".join(message(rng, lf) for _ in range(rng.randint(1, 4)))
        if rng.random() < 0.3:
            stream = stream[:-rng.randint(1, 12)]
        out.append("begin " + rng.choice(["server", "peer"]))
        i = 0
        style = rng.choice([1, 1, 3, 8, 40, 1000])
        if len(stream) > 150 and style == 1:
            style = 5
        while i < len(stream):
            c = rng.randint(1, style)
            out.append("chunk " + stream[i:i + c].hex())
            i += c
    return out, n


def splits(rng, n):
    """Every split of a short two-message stream into two or three reads."""
    out = []
    k = 0
    for _ in range(n):
        s = message(rng, rng.random() < 0.2) + message(rng)
        s = s[:70]
        for i in range(1, len(s)):
            out.append("begin " + ("server" if i % 2 else "peer"))
            out.append("chunk " + s[:i].hex())
            out.append("chunk " + s[i:].hex())
            k += 1
    return out, k


def rounds(rng, n):
    out = ["begin peer"]
    for _ in range(n):
        word = bytes(rng.choice(b"abcXYZ019-_") for _ in range(rng.randint(1, 8)))
        heads = {}
        for _ in range(rng.randint(0, 4)):
            k = bytes(rng.choice(b"abcXY-_9") for _ in range(rng.randint(1, 6)))
            if k.lower() in [x.lower() for x in heads]:
                continue
            v = bytes(rng.choice(b"ab \r\n\t\\:;,{}\"'=\x01\xff") for _ in range(rng.randint(0, 14))).strip(b" ")
            heads[k] = v
        c = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 200])))
        out.append("round %s %d %s %s" % (hx(word), len(heads), " ".join(hx(a) + " " + hx(b) for a, b in heads.items()), hx(c)))
    return out


def run(ctx):
    exe = build("frame_driver", ["frame_driver.cpp"], wraps=["send", "recvfrom"])
    tlc_model(ctx, "HTTPFrameMC", MC % (6 if not THOROUGH else 8, "FALSE"), timeout=800)
    tlc_must_fail(ctx, "HTTPFrameMC", MC % (6, "TRUE"))
    k = 1 if not THOROUGH else 10
    s, n = scripts(ctx.rng, 250 * k)
    s2, n2 = splits(ctx.rng, 8 * k)
    drive_and_validate(ctx, exe, "\n".join(s + s2) + "\n", "HTTPFrameTrace", args=[SEED], expect_traces=n + n2, what="streams in chunks")
    drive_and_validate(ctx, exe, "\n".join(rounds(ctx.rng, 400 * k)) + "\n", "HTTPFrameTrace", args=[SEED], what="composed and parsed back")
    drive_and_validate(ctx, exe, "stream 60\n" * (60 * k), "HTTPFrameTrace", args=[SEED], what="partial transfers")
    ctx.assumptions += ["messages carry Content-Length or chunked encoding (without either, the end of the input is the end of the message)",
                        "with bare LF line ends the content does not begin with a line end"]
