"""Mechanical rewriting of `async fn` into functions that do their work when called.

  async fn f(a: A) -> T { body }   =>   fn f(a: A) -> vstd_shim::Now<T> { vstd_shim::now(move || { body' }) }
  x.await                          =>   x.vp_wait()          (inside such bodies only)
  async fn f(a: A) -> T;           =>   fn f(a: A) -> vstd_shim::Now<T>;
  #[async_trait]                   =>   (dropped)

`vp_wait` polls a future once; the models of tokio complete everything that can complete at the
first poll, and waiting for something that never comes is reported. What the rewriting drops:
suspension points (another task running between two of them) and laziness (the body runs at the
call instead of at the await). Functions with `select!` or `async` blocks inside are left as they
are; they may await a `Now`, which is a finished future.
"""
import re


def spans(text):
    """Mark every character that is code (not in a string, char literal or comment)."""
    code = bytearray(b"\1" * len(text))
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if text.startswith("//", i):
            j = text.find("\n", i)
            j = n if j < 0 else j
        elif text.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if text.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif text.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
        elif re.match(r'b?r#*"', text[i:i + 8]) and (i == 0 or not (text[i - 1].isalnum() or text[i - 1] == "_")):
            m = re.match(r'b?r(#*)"', text[i:i + 8])
            j = text.find('"' + m.group(1), i + len(m.group(0)))
            j = n if j < 0 else j + 1 + len(m.group(1))
        elif c == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            j += 1
        elif c == "'" and re.match(r"'(\\.[^']*|[^\\'])'", text[i:i + 12]):
            j = i + len(re.match(r"'(\\.[^']*|[^\\'])'", text[i:i + 12]).group(0))
        else:
            i += 1
            continue
        for k in range(i, min(j, n)):
            code[k] = 0
        i = j
    return code


def close(text, code, i):
    """Index just behind the bracket that closes the one at `i`."""
    o = text[i]
    c = {"(": ")", "{": "}", "[": "]"}[o]
    d = 0
    while i < len(text):
        if code[i]:
            if text[i] == o:
                d += 1
            elif text[i] == c:
                d -= 1
                if d == 0:
                    return i + 1
        i += 1
    raise ValueError("unbalanced")


FN = re.compile(r"\basync\s+fn\s+\w+")
AWAIT = re.compile(r"\.\s*await\b")


def deasync(text, keep=()):
    out, pos = [], 0
    text = re.sub(r"#\[\s*(?:async_trait::)?async_trait\s*\]", "", text)
    code = spans(text)
    for m in FN.finditer(text):
        if m.start() < pos or not code[m.start()]:
            continue
        name = m.group(0).split()[-1]
        i = m.end()
        # generics
        if text[i] == "<":
            d = 0
            while True:
                if text[i] == "<":
                    d += 1
                elif text[i] == ">" and text[i - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                i += 1
            i += 1
        while text[i] != "(":
            i += 1
        i = close(text, code, i)
        j = i
        while text[j] not in "{;" or not code[j]:
            j = close(text, code, j) if text[j] in "([" and code[j] else j + 1
        sig = text[i:j]
        w = re.search(r"\bwhere\b", sig)
        where = sig[w.start():] if w else ""
        ret = sig[:w.start()] if w else sig
        ret = ret.strip()
        ret = ret[2:].strip() if ret.startswith("->") else "()"
        if text[j] == ";":
            end, body = j + 1, None
        else:
            end = close(text, code, j)
            body = text[j:end]
        if name in keep or (body and re.search(r"\bselect!|\basync\s+(move\b|\{)", body)):
            continue
        head = text[m.start():i].replace("async", "", 1).lstrip()
        # an argument that is a pattern variable taken by value is moved into the body
        new = "%s -> vstd_shim::Now<%s> %s" % (head, ret, where)
        if body is None:
            new += ";"
        else:
            b, last = [], 0
            bc = code[j:end]
            for a in AWAIT.finditer(body):
                if bc[a.start()]:
                    b.append(body[last:a.start()] + ".vp_wait()")
                    last = a.end()
            b.append(body[last:])
            new += "{ use vstd_shim::Wait as _; vstd_shim::now(move || %s) }" % "".join(b)
        out.append(text[pos:m.start()] + new)
        pos = end
    out.append(text[pos:])
    return "".join(out)


def split_args(s):
    """Split at top-level commas."""
    code, out, d, last = spans(s), [], 0, 0
    for i, c in enumerate(s):
        if not code[i]:
            continue
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == "," and d == 0:
            out.append(s[last:i])
            last = i + 1
    out.append(s[last:])
    return [x.strip() for x in out if x.strip()]


def formats(text):
    """`format!` of plain `{}` and `{name}` becomes concatenation (vstd_shim::Show): the
    formatting machinery of the standard library is costly for the model checker. The text of
    `{:?}` is not modelled ("?")."""
    code = spans(text)
    out, last = [], 0
    for m in re.finditer(r"\bformat!\(", text):
        if not code[m.start()] or m.start() < last:
            continue
        e = close(text, code, m.end() - 1)
        args = split_args(text[m.end():e - 1])
        if not args or not re.fullmatch(r'"[^"\\]*"', args[0]):
            continue
        lit, args = args[0][1:-1].replace("{{", "\1").replace("}}", "\2"), args[1:]
        parts = re.split(r"\{([^{}]*)\}", lit)
        if any(not re.fullmatch(r"[A-Za-z_]*(:\?)?", p) for p in parts[1::2]) or sum(p in ("", ":?") for p in parts[1::2]) != len(args):
            continue
        body, k = "", 0
        for i, p in enumerate(parts):
            if i % 2 == 0:
                p = p.replace("\1", "{").replace("\2", "}")
                body += 'vstd_shim::Show::vp_show("%s", &mut vp_s); ' % p if p else ""
            else:
                debug = p.endswith(":?")
                p = p[:-2] if debug else p
                if p == "":
                    p, k = args[k], k + 1
                if debug:
                    body += 'let _ = &(%s); vstd_shim::Show::vp_show("?", &mut vp_s); ' % p
                    continue
                body += "vstd_shim::Show::vp_show(&(%s), &mut vp_s); " % p
        out.append(text[last:m.start()] + "{ let mut vp_s = vstd_shim::vp_string(%d); %svp_s }" % (max(56, len(lit) + 24 * (len(parts) // 2)), body))
        last = e
    return "".join(out) + text[last:]


if __name__ == "__main__":
    import sys
    print(deasync(open(sys.argv[1]).read()))
