/// Valid programs with constructs that are rare in the generated ones.
pub const SNIPPETS: &[&str] = &[
    "f\"{*a,}\"\n",
    "f\"{yield}\"\n",
    "e\u{301} = 1\n",
    "if a:\n  b\n\x0cc\n",
    "f'{x!r:>{w}.{p}}' f\"{x=}\" f'{ {1: 2}[1] }' f'{lambda_}' f'{(lambda: 1)()}'\n",
    "f'''{\n x\n :\n}'''\n",
    "f'{x:%H:%M}' rf'\\{x}' f'\\N{DASH}' Rf'\\N{x}'\n",
    "f'{f'{f'{1}'}'}'\n",
    "f'{x:{y:{z}}}'\n",
    "print(1if 1else 2)\n",
    "x = 1_000.0_1e1_0j + .5 + 5. + 0o17 + 0b1 + 0XaB\n",
    "async def f():\n    async with a as b, c: pass\n    async for x in y: await z\n    return [x async for x in y if await z]\n",
    "def f[T, *Ts, **P](a, /, b: int = 1, *args: *Ts, c, **kw) -> T: ...\n",
    "class A[T: (int, str)](B, metaclass=C): x: int = 1; y = 2\n",
    "type X[T] = list[T]\ntype = 1\ntype(x)\nmatch(x)\ncase = match = _ = type\n",
    "match x:\n    case {'a': 1, **rest} | [1, 2, *_] | A(b=c) as d if e: pass\n    case -1 + 2j | None | 'a' 'b' | a.b: pass\n    case _: pass\n",
    "match x, *y:\n    case (a, b), *c: pass\n",
    "with (a as b, c as d,): pass\nwith (a, b): pass\nwith (a): pass\nwith (yield): pass\n",
    "try: pass\nexcept* A as e: pass\nelse: pass\nfinally: pass\n",
    "a[*b], a[b:c, ::d], a[:, *b] = x\n",
    "@a.b[c](d)\n@(yield)\n@x if y else z\ndef f(): pass\n",
    "lambda *a, b=1, **k: (yield)\nlambda a, /, b, *, c: 0\nlambda: 0\n",
    "x: int\nx.y: int = 3\nx[0]: int = yield\n(x): int = 1\n",
    "for x, *y in *a, b: pass\nelse: pass\n",
    "print(*a, **b, c=d)\nprint(a, *b, c=d, *e, **f)\n",
    "if (a := 1) and [b := 2, c] and f(d := 3) and x[e := 4]: pass\n",
    "{**a, 'b': c, **d}; {*a, b}; {a: b for c in d}; {a for b in c}\n",
    "del a, (b, c), [d], e.f, g[0]\n",
    "global a, b\nnonlocal c\nassert a, b\nraise a from b\nreturn *a, b\nyield *a, b\n",
    "from . import a\nfrom ...b.c import (d as e, f,)\nfrom .... import *\nimport a.b.c as d, e\n",
    "not not a or -+~b ** -c ** d and e not in f is not g != h <= i\n",
    "x = yield from a\nx += yield\nx = y = z, = *a, b\n",
    "a @= b; a //= b; a **= b; a >>= b; a <<= b; a |= b; a ^= b; a &= b; a %= b\n",
    "if a:\n\tif b:\n\t\tc\n\td\nelif e: f\nelse:\n  g\n",
    "if a:\n  b\n \n# c\n  # d\n  e\n\x0c\nf\n",
    "\u{feff}x = 1\n",
    "x = (1,\n  # comment\n\n 2)\n",
    "x = 'a\\\nb' \"c\\\"d\" '''e\nf''' rb'\\\\' Rb\"\\'\" u'h'\n",
    "x = 'a\\\nb' \"c\\\"d\" '''e\nf''' u'h' rb'\\\\'\n",
    "x = 1 if 2 else lambda: 3 if 4 else 5\n",
    "...\n... .a\n1 .a\n1..a\n1.0.a\n'a'.b\n[].c\n{}.d\n().e\n",
    "变 = Ünï1 = x_1 = _ = ß = 1\n",
    "a = b if c else d if e else f\nwhile 1:\n  break\nelse: continue\n",
];
