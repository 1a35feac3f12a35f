import sys, json, signal, types, symtable, ast, io
resource = None
try:
    import resource as _r
    _r.setrlimit(_r.RLIMIT_AS, (3 << 30, 3 << 30))
except Exception:
    pass

class Timeout(BaseException):
    pass
def _alarm(*a):
    raise Timeout()
signal.signal(signal.SIGALRM, _alarm)

def split_top(s, sep):
    out, depth, cur, q, i = [], 0, '', None, 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == '\\':
                cur += s[i + 1:i + 2]
                i += 1
            elif c == q:
                q = None
        elif c in '\'"':
            q = c
            cur += c
        elif c in '[(<':
            depth += 1
            cur += c
        elif c in '])' or (c == '>' and s[i - 1:i] != '-'):
            depth -= 1
            cur += c
        elif depth == 0 and s.startswith(sep, i):
            out.append(cur)
            cur = ''
            i += len(sep)
            continue
        else:
            cur += c
        i += 1
    out.append(cur)
    return out

unknown = {}
def unk(t):
    unknown[t] = unknown.get(t, 0) + 1
    return True

def member(v, t, ns, d=0):
    t = t.strip()
    if d > 12:
        return True
    if t.startswith('def ') or t.startswith('def['):
        return callable(v)
    parts = split_top(t, ' | ')
    if len(parts) > 1:
        return any(member(v, p, ns, d + 1) for p in parts)
    if t in ('Any', 'builtins.object', 'object', 'Unknown'):
        return True
    if t in ('Never', 'NoReturn', 'typing.NoReturn', '<nothing>'):
        return False
    if t == 'None':
        return v is None
    if t.startswith('Literal['):
        body = t[8:]
        if body.endswith('?'):
            body = body[:-1]
        body = body[:-1]
        for x in split_top(body, ', '):
            if x.startswith('m.'):
                if v is eval(x[2:], ns):
                    return True
            else:
                try:
                    w = ast.literal_eval(x)
                except Exception:
                    return unk(t)
                if (type(w) is type(v) or isinstance(v, int) and isinstance(w, int)) and v == w:
                    return True
        return False
    if t.startswith('type['):
        return isinstance(v, type)
    if '[' in t:
        if not t.endswith(']'):
            return unk(t)
        head, rest = t.split('[', 1)
        args = split_top(rest[:-1], ', ')
    else:
        head, args = t, []
    if head.startswith('builtins.'):
        head = head[9:]
    if head == 'tuple':
        if len(args) >= 1 and args[0].startswith('fallback='):
            return unk(t)
        if any('fallback=' in a for a in args):
            f = args[-1].split('fallback=')[1]
            args[-1] = args[-1].split(', fallback=')[0]
            return isinstance(v, tuple) and member(v, f, ns, d + 1)
        if not isinstance(v, tuple):
            return False
        if len(args) == 2 and args[1] == '...':
            return all(member(x, args[0], ns, d + 1) for x in v)
        if args == ['()'] or args == ['']:
            return len(v) == 0
        args = ['*' + a[7:-1].replace('Tuple[', 'tuple[', 1) if a.startswith('Unpack[') else a for a in args]
        stars = [i for i, a in enumerate(args) if a.startswith('*')]
        if not args:
            return True
        if stars:
            i = stars[0]
            inner = args[i][1:]
            pre, post = args[:i], args[i + 1:]
            if len(v) < len(pre) + len(post):
                return False
            mid = v[len(pre):len(v) - len(post)]
            return (all(member(x, a, ns, d + 1) for x, a in zip(v, pre)) and member(tuple(mid), inner, ns, d + 1)
                    and all(member(x, a, ns, d + 1) for x, a in zip(v[len(v) - len(post):], post)))
        return len(v) == len(args) and all(member(x, a, ns, d + 1) for x, a in zip(v, args))
    if head in ('list', 'set', 'frozenset'):
        if not isinstance(v, {'list': list, 'set': set, 'frozenset': frozenset}[head]):
            return False
        return all(member(x, args[0], ns, d + 1) for x in v) if args else True
    if head == 'dict':
        if not isinstance(v, dict):
            return False
        return all(member(k, args[0], ns, d + 1) and member(x, args[1], ns, d + 1) for k, x in v.items()) if args else True
    if head == 'float':
        return isinstance(v, (float, int))
    if head == 'complex':
        return isinstance(v, (complex, float, int))
    if head in ('typing.Iterator', 'typing.Iterable', 'typing.Generator'):
        return hasattr(v, '__iter__')
    if head == 'm.Box':
        return isinstance(v, ns['Box']) and (not args or member(v.v, args[0], ns, d + 1))
    if head.startswith('<subclass of'):
        names = [x.strip('"') for x in t[len('<subclass of '):-1].replace('" and "', '", "').split(', ')]
        return all(member(v, 'm.' + n if n in ns else 'builtins.' + n, ns, d + 1) for n in names)
    if args:
        return unk(t)
    if head.startswith('m.'):
        c = ns.get(head[2:])
        return isinstance(v, c) if isinstance(c, type) else unk(t)
    import builtins
    c = getattr(builtins, head, None)
    if isinstance(c, type):
        return isinstance(v, c)
    return unk(t)

def limited(v, d=0):
    if d > 6:
        return
    if isinstance(v, (str, bytes, list, tuple, dict, set)) and len(v) > 20000:
        raise Timeout()

def run(code, reveals):
    seen = {}
    def reveal_type(x):
        limited(x)
        l = sys._getframe(1).f_lineno
        vs = seen.setdefault(l, [])
        if len(vs) < 30:
            t = reveals.get(l)
            if t is None:
                vs.append(('MISSING', repr(x)[:200]))
            elif not member(x, t, ns):
                vs.append(('WRONG', repr(x)[:200] + ' of ' + type(x).__name__ + ' is not ' + t))
            else:
                vs.append(('OK', ''))
        return x
    mod = types.ModuleType('m')
    sys.modules['m'] = mod
    ns = mod.__dict__
    ns['reveal_type'] = reveal_type
    end = 'end'
    signal.setitimer(signal.ITIMER_REAL, 5)
    try:
        exec(compile(code, 'm.py', 'exec'), ns)
    except Timeout:
        end = 'timeout'
    except (MemoryError, RecursionError):
        end = 'resource'
    except SyntaxError as e:
        end = 'syntax ' + str(e)
    except BaseException as e:
        end = type(e).__name__ + ': ' + str(e)[:200]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    sys.modules.pop('m', None)
    bad = []
    for l, vs in sorted(seen.items()):
        for k, x in vs:
            if k != 'OK':
                bad.append([l, k, x])
                break
    return {'end': end, 'bad': bad, 'seen': len(seen), 'values': sum(len(v) for v in seen.values()), 'unknown': unknown}

def reply(b):
    sys.stdout.buffer.write(str(len(b)).encode() + b'\n' + b)
    sys.stdout.buffer.flush()

def handle(cmd, data):
    q = json.loads(data)
    if cmd == 'run':
        unknown.clear()
        return run(q['code'], {int(k): v for k, v in q['reveals'].items()})
    return HANDLERS[cmd](q)

HANDLERS = {}
