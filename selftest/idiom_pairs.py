SAME = [
("fromkeys", "def f(n):\n  return dict([(i, 0) for i in range(n)])", "def f(n):\n  return dict.fromkeys(range(n), 0)"),
("map", "def f(xs):\n  return [g(x) for x in xs]", "def f(xs):\n  return list(map(g, xs))"),
("map2", "def f(xs):\n  return [x + 1 for x in xs]", "def f(xs):\n  return list(map(lambda v: v + 1, xs))"),
("filter", "def f(xs):\n  return [x for x in xs if x > 2]", "def f(xs):\n  return list(filter(lambda x: x > 2, xs))"),
("reduce", "def f(xs):\n  s = 0\n  for x in xs:\n    s = s + x\n  return s", "def f(xs):\n  return functools.reduce(lambda a, b: a + b, xs, 0)"),
("reduce-op", "def f(xs):\n  s = 0\n  for x in xs:\n    s += x\n  return s", "def f(xs):\n  return functools.reduce(operator.add, xs, 0)"),
("sum", "def f(xs):\n  s = 0\n  for x in xs:\n    s += x\n  return s", "def f(xs):\n  return sum(xs)"),
("sumgen", "def f(xs):\n  s = 0\n  for x in xs:\n    s += x * 2\n  return s", "def f(xs):\n  return sum(x * 2 for x in xs)"),
("any", "def f(xs):\n  for x in xs:\n    if x > 1:\n      return True\n  return False", "def f(xs):\n  return any(x > 1 for x in xs)"),
("all", "def f(xs):\n  for x in xs:\n    if not x > 1:\n      return False\n  return True", "def f(xs):\n  return all(x > 1 for x in xs)"),
("next", "def f(xs):\n  for x in xs:\n    if x > 1:\n      return x\n  return None", "def f(xs):\n  return next((x for x in xs if x > 1), None)"),
("chain", "def f(a, b):\n  return [x + 1 for x in list(a) + list(b)]", "def f(a, b):\n  return [x + 1 for x in itertools.chain(a, b)]"),
("chain-from", "def f(a):\n  r = []\n  for x in a:\n    r.extend(x)\n  return r", "def f(a):\n  return list(itertools.chain.from_iterable(a))"),
("flat", "def f(a):\n  r = []\n  for x in a:\n    r.extend(x)\n  return r", "def f(a):\n  return [y for x in a for y in x]"),
("product", "def f(a, b):\n  return [g(x, y) for x in a for y in b]", "def f(a, b):\n  return [g(x, y) for x, y in itertools.product(a, b)]"),
("enumerate-range", "def f(a):\n  return [g(i, a[i]) for i in range(len(a))]", "def f(a):\n  return [g(i, x) for i, x in enumerate(a)]"),
("zip-range", "def f(n):\n  a = [g(i) for i in range(n)]\n  b = [h(i) for i in range(n)]\n  return [k(x, y) for x, y in zip(a, b)]", "def f(n):\n  return [k(g(i), h(i)) for i in range(n)]"),
("walrus", "def f(a):\n  n = g(a)\n  if n > 1:\n    return n\n  return 0", "def f(a):\n  if (n := g(a)) > 1:\n    return n\n  return 0"),
("fstring", "def f(a):\n  return {'x_' + str(a): 1}", "def f(a):\n  return {f'x_{a}': 1}"),
("format", "def f(a):\n  return {'x_' + str(a): 1}", "def f(a):\n  return {'x_{}'.format(a): 1}"),
("percent", "def f(a):\n  return {'x_' + str(a): 1}", "def f(a):\n  return {'x_%s' % a: 1}"),
("dict-union", "def f(a, b):\n  r = dict(a)\n  r.update(b)\n  return r", "def f(a, b):\n  return {**a, **b}"),
("dict-or", "def f(a, b):\n  r = dict(a)\n  r.update(b)\n  return r", "def f(a, b):\n  return dict(a) | dict(b)"),
("dict-kw", "def f(a):\n  r = dict(a)\n  r['k'] = 1\n  return r", "def f(a):\n  return dict(a, k=1)"),
("get", "def f(d, k):\n  if k in d:\n    return d[k]\n  return 3", "def f(d, k):\n  return d.get(k, 3)"),
("try-key", "def f(d, k):\n  if k in d:\n    return d[k]\n  return 3", "def f(d, k):\n  try:\n    return d[k]\n  except KeyError:\n    return 3"),
("setdefault", "def f(d, k, v):\n  if k not in d:\n    d[k] = []\n  d[k].append(v)\n  return d", "def f(d, k, v):\n  d.setdefault(k, []).append(v)\n  return d"),
("ddict", "def f(xs):\n  r = {}\n  for k, v in xs:\n    if k not in r:\n      r[k] = []\n    r[k].append(v)\n  return dict(r)", "def f(xs):\n  r = defaultdict(list)\n  for k, v in xs:\n    r[k].append(v)\n  return dict(r)"),
("ternary", "def f(a):\n  if a is None:\n    a = 3\n  return g(a)", "def f(a):\n  return g(3 if a is None else a)"),
("while", "def f(n):\n  r = []\n  for i in range(n):\n    r.append(g(i))\n  return r", "def f(n):\n  r = []\n  i = 0\n  while i < n:\n    r.append(g(i))\n    i += 1\n  return r"),
("slice-copy", "def f(a):\n  b = list(a)\n  b.append(1)\n  return b", "def f(a):\n  b = a[:]\n  b.append(1)\n  return b"),
("star", "def f(a):\n  b = list(a)\n  b.append(1)\n  return b", "def f(a):\n  return [*a, 1]"),
("insert0", "def f(a):\n  return [1] + list(a)", "def f(a):\n  b = list(a)\n  b.insert(0, 1)\n  return b"),
("reversed", "def f(a):\n  return [g(x) for x in a[::-1]]", "def f(a):\n  return [g(x) for x in reversed(a)]"),
("minmax", "def f(a, b):\n  return a if a > b else b", "def f(a, b):\n  return max(b, a)"),
("abs", "def f(a):\n  return a if a >= 0 else -a", "def f(a):\n  return abs(a)"),
("divmod", "def f(a, b):\n  return a // b, a % b", "def f(a, b):\n  return divmod(a, b)"),
("count", "def f(xs):\n  n = 0\n  for x in xs:\n    if x == 1:\n      n += 1\n  return n", "def f(xs):\n  return sum(1 for x in xs if x == 1)"),
("len-filter", "def f(xs):\n  n = 0\n  for x in xs:\n    if x == 1:\n      n += 1\n  return n", "def f(xs):\n  return len([x for x in xs if x == 1])"),
("or-default", "def f(a: list = None):\n  if a is None:\n    a = []\n  return [g(x) for x in a]", "def f(a: list = None):\n  a = a or []\n  return [g(x) for x in a]"),
("repeat", "def f(x, n):\n  return [x for _ in range(n)]", "def f(x, n):\n  return [x] * n"),
("itrepeat", "def f(x, n):\n  return [x for _ in range(n)]", "def f(x, n):\n  return list(itertools.repeat(x, n))"),
("join", "def f(xs):\n  return {'_'.join(xs): 1}", "def f(xs):\n  return {str.join('_', xs): 1}"),
("match", "def f(k):\n  if k == 'a':\n    return 1\n  elif k == 'b':\n    return 2\n  else:\n    raise ValueError(k)", "def f(k):\n  match k:\n    case 'a':\n      return 1\n    case 'b':\n      return 2\n    case _:\n      raise ValueError(k)"),
("table", "def f(k):\n  if k == 'a':\n    return 1\n  elif k == 'b':\n    return 2\n  else:\n    raise ValueError(k)", "def f(k):\n  t = {'a': 1, 'b': 2}\n  if k not in t:\n    raise ValueError(k)\n  return t[k]"),
("table-try", "def f(k):\n  if k == 'a':\n    return 1\n  elif k == 'b':\n    return 2\n  else:\n    raise ValueError(k)", "def f(k):\n  try:\n    return {'a': 1, 'b': 2}[k]\n  except KeyError:\n    raise ValueError(k)"),
("in-tuple", "def f(k):\n  if k == 'a' or k == 'b':\n    return 1\n  return 2", "def f(k):\n  return 1 if k in ('a', 'b') else 2"),
("setattr", "M: def f(self, a, b):\n  self.a = a\n  self.b = b", "M: def f(self, a, b):\n  for k, v in (('a', a), ('b', b)):\n    setattr(self, k, v)"),
("setattr-dict", "M: def f(self, a, b):\n  self.a = a\n  self.b = b", "M: def f(self, a, b):\n  for k, v in dict(a=a, b=b).items():\n    setattr(self, k, v)"),
("getattr", "M: def f(self):\n  return [self.a, self.b]", "M: def f(self):\n  return [getattr(self, k) for k in ['a', 'b']]"),
("dict-update-self", "M: def f(self, a):\n  self.d['x'] = a\n  self.d['y'] = 2", "M: def f(self, a):\n  self.d.update({'x': a, 'y': 2})"),
("dict-update-kw", "M: def f(self, a):\n  self.d['x'] = a\n  self.d['y'] = 2", "M: def f(self, a):\n  self.d.update(x=a, y=2)"),
("append-extend", "M: def f(self, a):\n  for x in a:\n    self.xs.append(x)", "M: def f(self, a):\n  self.xs.extend(a)"),
("append-iadd", "M: def f(self, a):\n  self.xs.append(a)", "M: def f(self, a):\n  self.xs += [a]"),
("vertcat-acc", "def f(xs):\n  r = DM()\n  for x in xs:\n    r = vertcat(r, x)\n  return r", "def f(xs):\n  return vertcat(DM(), *xs)"),
("vertcat-comp", "def f(n):\n  r = []\n  for i in range(n):\n    r.append(g(i))\n  return vertcat(*r)", "def f(n):\n  return vertcat(*[g(i) for i in range(n)])"),
("partial", "def f(xs):\n  return [g(1, x) for x in xs]", "def f(xs):\n  h = functools.partial(g, 1)\n  return [h(x) for x in xs]"),
("nested-def", "def f(xs):\n  return [g(1, x) for x in xs]", "def f(xs):\n  def h(x):\n    return g(1, x)\n  return [h(x) for x in xs]"),
("dictcomp-zip", "def f(n):\n  return {i: g(i) for i in range(n)}", "def f(n):\n  return dict(zip(range(n), [g(i) for i in range(n)]))"),
("unpack", "def f(t):\n  a = t[0]\n  b = t[1]\n  return b, a", "def f(t):\n  a, b = t\n  return b, a"),
("compare-chain", "def f(a, b):\n  return 0 <= a and a < b", "def f(a, b):\n  return 0 <= a < b"),
("not-in", "def f(a, b):\n  if not a in b:\n    raise ValueError\n  return 1", "def f(a, b):\n  if a not in b:\n    raise ValueError\n  return 1"),
("elif-flat", "def f(a, b):\n  if a:\n    if b:\n      return 1\n    return 2\n  return 3", "def f(a, b):\n  if a and b:\n    return 1\n  if a:\n    return 2\n  return 3"),
("continue", "def f(xs):\n  r = []\n  for x in xs:\n    if x > 0:\n      r.append(x)\n  return r", "def f(xs):\n  r = []\n  for x in xs:\n    if not x > 0:\n      continue\n    r.append(x)\n  return r"),
("break-flag", "def f(xs):\n  found = None\n  for x in xs:\n    if x > 0:\n      found = x\n      break\n  return found", "def f(xs):\n  for x in xs:\n    if x > 0:\n      return x\n  return None"),
("for-else", "def f(xs):\n  for x in xs:\n    if x > 0:\n      return x\n  raise ValueError", "def f(xs):\n  for x in xs:\n    if x > 0:\n      break\n  else:\n    raise ValueError\n  return x"),
("generator", "def f(xs):\n  return [g(x) for x in xs]", "def f(xs):\n  def gen():\n    for x in xs:\n      yield g(x)\n  return list(gen())"),
("iter-next", "def f(xs):\n  return xs[0]", "def f(xs):\n  a, *_ = xs\n  return a"),
("index-loop-zip3", "def f(a, b):\n  r = []\n  for i in range(len(a)):\n    r.append(a[i] + b[i])\n  return r", "def f(a, b):\n  r = []\n  for i, x in enumerate(a):\n    r.append(x + b[i])\n  return r"),
("cumul", "def f(xs):\n  r = []\n  s = 0\n  for x in xs:\n    s = s + x\n    r.append(s)\n  return r", "def f(xs):\n  return list(itertools.accumulate(xs))"),
("items", "def f(d):\n  return [g(k, d[k]) for k in d]", "def f(d):\n  return [g(k, v) for k, v in d.items()]"),
("keys", "def f(d):\n  return [g(k) for k in d.keys()]", "def f(d):\n  return [g(k) for k in d]"),
("sorted-key", "def f(xs):\n  return sorted(xs, key=lambda x: x.name)", "def f(xs):\n  return sorted(xs, key=operator.attrgetter('name'))"),
("sorted-item", "def f(xs):\n  return sorted(xs, key=lambda x: x[1])", "def f(xs):\n  return sorted(xs, key=operator.itemgetter(1))"),
("sort-inplace", "def f(xs):\n  return sorted(xs)", "def f(xs):\n  r = list(xs)\n  r.sort()\n  return r"),
("isinstance-tuple", "def f(x):\n  if isinstance(x, list) or isinstance(x, tuple):\n    return 1\n  return 2", "def f(x):\n  return 1 if isinstance(x, (list, tuple)) else 2"),
("assert-raise", "def f(x):\n  if x > 1:\n    raise AssertionError\n  return x", "def f(x):\n  assert not x > 1\n  return x"),
("suppress", "def f(xs, n):\n  try:\n    return xs.index(n)\n  except ValueError:\n    pass\n  return -1", "def f(xs, n):\n  with suppress(ValueError):\n    return xs.index(n)\n  return -1"),
("index-in", "def f(xs, n):\n  try:\n    return xs.index(n)\n  except ValueError:\n    return -1", "def f(xs, n):\n  if n in xs:\n    return xs.index(n)\n  return -1"),
("swap", "def f(a, b):\n  t = a\n  a = b\n  b = t\n  return g(a, b)", "def f(a, b):\n  a, b = b, a\n  return g(a, b)"),
("del-key", "def f(d):\n  e = dict(d)\n  e.pop('k')\n  return e", "def f(d):\n  e = dict(d)\n  del e['k']\n  return e"),
("power", "def f(x):\n  return x ** 2", "def f(x):\n  return x * x"),
("sumsqr-none", "def f(x, y):\n  return (x - y) ** 2", "def f(x, y):\n  return (y - x) ** 2"),
("bool-return", "def f(x):\n  if x > 1:\n    return True\n  return False", "def f(x):\n  return x > 1"),
("len-zero", "def f(xs: list):\n  if len(xs) == 0:\n    return 1\n  return 2", "def f(xs: list):\n  if not xs:\n    return 1\n  return 2"),
("local-method", "M: def f(self, x):\n  return self.n + x", "M: def f(self, x):\n  n = self.model.n_x\n  return x + n"),
("range-step", "def f(n):\n  return [g(2 * i) for i in range(n)]", "def f(n):\n  return [g(i) for i in range(0, 2 * n, 2)]"),
("range-off", "def f(n):\n  return [g(i + 1) for i in range(n)]", "def f(n):\n  return [g(i) for i in range(1, n + 1)]"),
("split-loop", "def f(xs):\n  a = []\n  b = []\n  for x in xs:\n    a.append(g(x))\n    b.append(h(x))\n  return a, b", "def f(xs):\n  return [g(x) for x in xs], [h(x) for x in xs]"),
("zip-star", "def f(xs):\n  a = [x[0] for x in xs]\n  b = [x[1] for x in xs]\n  return a, b", "def f(xs):\n  a = [p for p, _ in xs]\n  b = [q for _, q in xs]\n  return a, b"),
("tuple-list", "def f(a):\n  r = []\n  for k in ('x', 'y'):\n    r.append(a[k])\n  return r", "def f(a):\n  return [a['x'], a['y']]"),
("first-flag", "def f(xs):\n  r = None\n  for i, x in enumerate(xs):\n    if i == 0:\n      r = x\n    else:\n      r = g(r, x)\n  return r", "def f(xs):\n  r = None\n  for i in range(len(xs)):\n    r = xs[i] if i == 0 else g(r, xs[i])\n  return r"),
("lambda-assign", "def f(x):\n  return g(x) + g(x + 1)", "def f(x):\n  k = lambda v: g(v)\n  return k(x) + k(x + 1)"),
("dict-get-none", "def f(d):\n  if 'a' in d and d['a'] is not None:\n    return d['a']\n  return 0", "def f(d):\n  v = d.get('a')\n  if v is not None:\n    return v\n  return 0"),
("pop-default", "def f(d):\n  e = dict(d)\n  v = e.pop('a', 1)\n  return v, e", "def f(d):\n  e = dict(d)\n  if 'a' in e:\n    v = e['a']\n    del e['a']\n  else:\n    v = 1\n  return v, e"),
("numel-len", "def f(x):\n  r = []\n  for i in range(x.numel()):\n    r.append(x[i])\n  return r", "def f(x):\n  return [x[i] for i in range(x.numel())]"),
("copy-copy", "def f(d: dict):\n  e = dict(d)\n  e['k'] = 1\n  return e", "def f(d: dict):\n  e = d.copy()\n  e['k'] = 1\n  return e"),
("union-set", "def f(a, b):\n  return sorted(set(a) | set(b))", "def f(a, b):\n  s = set(a)\n  s.update(b)\n  return sorted(s)"),
("early-raise", "def f(a):\n  if a > 0:\n    return g(a)\n  else:\n    raise ValueError('x')", "def f(a):\n  if not a > 0:\n    raise ValueError('x')\n  return g(a)"),
("s-genstar", "def f(xs):\n  return vertcat(*[g(x) for x in xs])", "def f(xs):\n  return vertcat(*(g(x) for x in xs))"),
("s-hcat-acc", "def f(xs):\n  r = []\n  for x in xs:\n    r.append(g(x))\n  return horzcat(*r)", "def f(xs):\n  r = horzcat()\n  for x in xs:\n    r = horzcat(r, g(x))\n  return r"),
("s-offset", "def f(v, n, m):\n  r = []\n  off = 0\n  for i in range(m):\n    r.append(v[off:off + n])\n    off += n\n  return r", "def f(v, n, m):\n  return [v[i * n:(i + 1) * n] for i in range(m)]"),
("s-enum1", "def f(xs):\n  return [g(i + 1, x) for i, x in enumerate(xs)]", "def f(xs):\n  return [g(i, x) for i, x in enumerate(xs, 1)]"),
("s-enum1k", "def f(xs):\n  return [g(i + 1, x) for i, x in enumerate(xs)]", "def f(xs):\n  return [g(i, x) for i, x in enumerate(xs, start=1)]"),
("s-sortedk", "def f(d):\n  return [g(k) for k in sorted(d)]", "def f(d):\n  return [g(k) for k in sorted(d.keys())]"),
("s-last", "def f(xs: list):\n  return xs[-1]", "def f(xs: list):\n  return xs[len(xs) - 1]"),
("s-notany", "def f(xs):\n  return not any(x > 1 for x in xs)", "def f(xs):\n  return all(not x > 1 for x in xs)"),
("s-sumlen", "def f(xs):\n  n = 0\n  for x in xs:\n    n += len(x)\n  return n", "def f(xs):\n  return sum(len(x) for x in xs)"),
("s-summap", "def f(xs):\n  n = 0\n  for x in xs:\n    n += len(x)\n  return n", "def f(xs):\n  return sum(map(len, xs))"),
("s-revrange", "def f(n):\n  return [g(i) for i in range(n - 1, -1, -1)]", "def f(n):\n  return [g(i) for i in reversed(range(n))]"),
("s-nestunp", "def f(a, b):\n  return [g(i, a[i], b[i]) for i in range(min(len(a), len(b)))]", "def f(a, b):\n  return [g(i, x, y) for i, (x, y) in enumerate(zip(a, b))]"),
("s-dictzip", "def f(ns, vs):\n  r = {}\n  for n, v in zip(ns, vs):\n    r[n] = v\n  return r", "def f(ns, vs):\n  return dict(zip(ns, vs))"),
("s-alias", "M: def f(self, v):\n  self.model.x = v\n  self.model.y = v + 1", "M: def f(self, v):\n  m = self.model\n  m.x = v\n  m.y = v + 1"),
("s-setattrname", "M: def f(self, v):\n  self.x_min = v\n  self.x_max = v", "M: def f(self, v):\n  for s in ('min', 'max'):\n    setattr(self, 'x_' + s, v)"),
("s-setattrf", "M: def f(self, v):\n  self.x_min = v\n  self.x_max = v", "M: def f(self, v):\n  for s in ('min', 'max'):\n    setattr(self, f'x_{s}', v)"),
("s-delpop", "def f(xs, i):\n  r = list(xs)\n  del r[i]\n  return r", "def f(xs, i):\n  r = list(xs)\n  r.pop(i)\n  return r"),
("s-whiletrue", "def f(x):\n  while g(x):\n    x = h(x)\n  return x", "def f(x):\n  while True:\n    if not g(x):\n      break\n    x = h(x)\n  return x"),
("s-whileforbreak", "def f(n, x):\n  for i in range(n):\n    x = h(x)\n    if g(x):\n      break\n  return x", "def f(n, x):\n  i = 0\n  while i < n:\n    x = h(x)\n    if g(x):\n      break\n    i += 1\n  return x"),
("s-diffset", "def f(a, b):\n  return [x for x in a if x not in b]", "def f(a, b):\n  r = []\n  for x in a:\n    if x in b:\n      continue\n    r.append(x)\n  return r"),
("s-ifnone", "def f(a, b):\n  if a is not None:\n    return a\n  return b", "def f(a, b):\n  return b if a is None else a"),
("s-demorgan", "def f(a, b):\n  if not (a and b):\n    return 1\n  return 2", "def f(a, b):\n  if not a or not b:\n    return 1\n  return 2"),
("s-guardnest", "M: def f(self, a, b):\n  if a is not None:\n    if b > 0:\n      self.x = a\n    else:\n      self.x = b\n  else:\n    self.x = 0", "M: def f(self, a, b):\n  if a is None:\n    self.x = 0\n    return\n  self.x = a if b > 0 else b"),
("s-helper-inner", "def f(a, b):\n  x = g(a)\n  x = h(x, 1)\n  y = g(b)\n  y = h(y, 1)\n  return x, y", "def f(a, b):\n  def k(v):\n    return h(g(v), 1)\n  return k(a), k(b)"),
("s-compf", "def f(a, b):\n  return [g(v) for v in (a, b)]", "def f(a, b):\n  return [g(a), g(b)]"),
("s-unpackcomp", "def f(a, b):\n  x, y = [g(v) for v in (a, b)]\n  return x + y", "def f(a, b):\n  return g(a) + g(b)"),
("s-argsdict", "def f(a, b):\n  return g(x=a, y=b)", "def f(a, b):\n  kw = {'x': a, 'y': b}\n  return g(**kw)"),
("s-argslist", "def f(a, b):\n  return g(a, b)", "def f(a, b):\n  args = [a]\n  args.append(b)\n  return g(*args)"),
("s-condkw", "def f(a, b):\n  if b is not None:\n    return g(x=a, y=b)\n  return g(x=a)", "def f(a, b):\n  kw = dict(x=a)\n  if b is not None:\n    kw['y'] = b\n  return g(**kw)"),
("s-maxloop", "def f(a, b, c):\n  return max(a, b, c)", "def f(a, b, c):\n  return max([a, b, c])"),
("s-mean", "def f(xs):\n  return sum(xs) / len(xs)", "def f(xs):\n  n = len(xs)\n  s = 0\n  for x in xs:\n    s += x\n  return s / n"),
("s-strjoin", "def f(a, i):\n  return {a + '_' + str(i): 1}", "def f(a, i):\n  return {'_'.join([a, str(i)]): 1}"),
("s-dictloop", "def f(d):\n  r = {}\n  for k in d:\n    r[k] = g(d[k])\n  return r", "def f(d):\n  return {k: g(v) for k, v in d.items()}"),
("s-invert", "def f(d):\n  r = {}\n  for k, v in d.items():\n    if v is not None:\n      r[k] = v\n  return r", "def f(d):\n  return {k: v for k, v in d.items() if v is not None}"),
("s-accum2", "def f(xs):\n  a = 0\n  b = 1\n  for x in xs:\n    a = a + x\n    b = b * x\n  return a, b", "def f(xs):\n  a, b = 0, 1\n  for x in xs:\n    a, b = a + x, b * x\n  return a, b"),
("s-prevpair", "def f(xs):\n  return [g(xs[i], xs[i + 1]) for i in range(len(xs) - 1)]", "def f(xs):\n  return [g(a, b) for a, b in zip(xs[:-1], xs[1:])]"),
("s-prevpair2", "def f(xs):\n  return [g(xs[i], xs[i + 1]) for i in range(len(xs) - 1)]", "def f(xs):\n  return [g(a, b) for a, b in zip(xs, xs[1:])]"),
("s-prevvar", "def f(xs, x0):\n  r = []\n  p = x0\n  for x in xs:\n    r.append(g(x, p))\n    p = x\n  return r", "def f(xs, x0):\n  return [g(x, x0 if i == 0 else xs[i - 1]) for i, x in enumerate(xs)]"),
("s-range-start", "def f(a, n):\n  r = []\n  for i in range(1, n):\n    r.append(g(a[i - 1], a[i]))\n  return r", "def f(a, n):\n  return [g(a[k], a[k + 1]) for k in range(n - 1)]"),
("s-listmul", "def f(n):\n  return [0] * n + [1]", "def f(n):\n  r = [0 for _ in range(n)]\n  r.append(1)\n  return r"),
("s-nestcomp", "def f(n, m):\n  r = []\n  for i in range(n):\n    row = []\n    for j in range(m):\n      row.append(g(i, j))\n    r.append(row)\n  return r", "def f(n, m):\n  return [[g(i, j) for j in range(m)] for i in range(n)]"),
("s-none-chain", "def f(a):\n  if a is None or a.b is None:\n    return 0\n  return a.b", "def f(a):\n  if a is not None and a.b is not None:\n    return a.b\n  return 0"),
("s-eqin", "def f(a):\n  if a != 'x' and a != 'y':\n    raise ValueError\n  return a", "def f(a):\n  if a not in ['x', 'y']:\n    raise ValueError\n  return a"),
("s-raisevar", "def f(a):\n  if a > 1:\n    raise ValueError('a')\n  return a", "def f(a):\n  if a > 1:\n    err = ValueError('a')\n    raise err\n  return a"),
("s-assert2", "def f(a):\n  if a > 1:\n    raise ValueError('a')\n  if a < 0:\n    raise ValueError('b')\n  return a", "def f(a):\n  if a > 1 or a < 0:\n    raise ValueError('c')\n  return a"),
("s-loopraise", "def f(xs):\n  for x in xs:\n    if x < 0:\n      raise ValueError(x)\n  return 1", "def f(xs):\n  if any(x < 0 for x in xs):\n    raise ValueError\n  return 1"),
("s-tryfin", "def f(a):\n  g(a)\n  return a", "def f(a):\n  try:\n    g(a)\n  finally:\n    pass\n  return a"),
("s-sliceneg", "def f(xs: list):\n  return xs[:-1]", "def f(xs: list):\n  return xs[:len(xs) - 1]"),
("s-lenvar", "def f(xs):\n  if len(xs) > 0:\n    return xs[0]\n  return None", "def f(xs):\n  n = len(xs)\n  return xs[0] if n >= 1 else None"),
("s-absdiff", "def f(a, b):\n  return (a - b) / 2", "def f(a, b):\n  return 0.5 * (a - b)"),
("s-half", "def f(a):\n  return a * 0.5", "def f(a):\n  return a / 2"),
("s-distr", "def f(a, b, c):\n  return a * (b + c)", "def f(a, b, c):\n  return a * b + a * c"),
("s-negsub", "def f(a, b):\n  return -(a - b)", "def f(a, b):\n  return b - a"),
("s-ltgt", "def f(a, b):\n  return 1 if a < b else 2", "def f(a, b):\n  return 2 if b <= a else 1"),
("s-updloop", "M: def f(self, kw):\n  for k in kw:\n    setattr(self, k, kw[k])", "M: def f(self, kw):\n  for k, v in kw.items():\n    setattr(self, k, v)"),
("s-poploop", "def f(xs, idx):\n  r = list(xs)\n  for i in sorted(idx, reverse=True):\n    del r[i]\n  return r", "def f(xs, idx):\n  r = list(xs)\n  for i in sorted(idx)[::-1]:\n    del r[i]\n  return r"),
("s-itemsmut", "M: def f(self, el, v):\n  self.d[el] = self.d[el] + v", "M: def f(self, el, v):\n  self.d[el] += v"),
("s-itemsmut2", "M: def f(self, v):\n  for k in self.d:\n    self.d[k] = self.d[k] * v", "M: def f(self, v):\n  self.d = {k: x * v for k, x in self.d.items()}"),
("s-firstlast", "def f(xs):\n  a, *m, b = xs\n  return g(a, m, b)", "def f(xs):\n  return g(xs[0], list(xs[1:-1]), xs[-1])"),
("s-countwhile", "def f(xs):\n  i = 0\n  while i < len(xs) and xs[i] > 0:\n    i += 1\n  return i", "def f(xs):\n  i = 0\n  for x in xs:\n    if not x > 0:\n      break\n    i += 1\n  return i"),
("s-staticdict", "def f(k, a, b):\n  if k == 'x':\n    r = g(a)\n  elif k == 'y':\n    r = h(b)\n  else:\n    raise NotImplementedError\n  return r", "def f(k, a, b):\n  t = {'x': lambda: g(a), 'y': lambda: h(b)}\n  if k not in t:\n    raise NotImplementedError\n  return t[k]()"),
("s-getdefault", "def f(d):\n  o = {'a': 1, 'b': 2}\n  for k in d:\n    o[k] = d[k]\n  return o", "def f(d):\n  return {'a': 1, 'b': 2, **d}"),
("s-getdefault2", "def f(d):\n  r = dict(d)\n  for k, v in D.items():\n    if k not in r:\n      r[k] = v\n  return r", "def f(d):\n  return {**D, **d}"),
("s-getdefault3", "def f(d):\n  r = dict(d)\n  for k, v in D.items():\n    if k not in r:\n      r[k] = v\n  return r", "def f(d):\n  r = dict(d)\n  for k, v in D.items():\n    r.setdefault(k, v)\n  return r"),
("s-cond-call", "def f(a, b):\n  if a:\n    return g(b, 1)\n  return g(b, 2)", "def f(a, b):\n  return g(b, 1 if a else 2)"),
("s-nonlocal", "def f(xs):\n  n = 0\n  for x in xs:\n    n += g(x)\n  return n", "def f(xs):\n  n = 0\n  def add(v):\n    nonlocal n\n    n += v\n  for x in xs:\n    add(g(x))\n  return n"),
("s-cls", "def f(xs):\n  return [isinstance(x, DM) for x in xs]", "def f(xs):\n  return [type(x) is DM or isinstance(x, DM) for x in xs]"),
]
DIFF = [
("d-mulshare", "def f(n):\n  r = [[] for _ in range(n)]\n  r[0].append(1)\n  return r", "def f(n):\n  r = [[]] * n\n  r[0].append(1)\n  return r"),
("d-fromkeys", "def f(n):\n  r = {i: [] for i in range(n)}\n  r[0].append(1)\n  return r", "def f(n):\n  r = dict.fromkeys(range(n), [])\n  r[0].append(1)\n  return r"),
("d-late", "def f(xs):\n  return [(lambda y: lambda: g(y))(x) for x in xs]", "def f(xs):\n  return [lambda: g(x) for x in xs]"),
("d-gen2", "def f(a, b):\n  z = list(zip(a, b))\n  return [x for x, _ in z], [y for _, y in z]", "def f(a, b):\n  z = zip(a, b)\n  return [x for x, _ in z], [y for _, y in z]"),
("d-map2", "def f(a):\n  z = list(map(g, a))\n  return list(z), list(z)", "def f(a):\n  z = map(g, a)\n  return list(z), list(z)"),
("d-genexp2", "def f(a):\n  z = [g(x) for x in a]\n  return sum(z), len(list(z))", "def f(a):\n  z = (g(x) for x in a)\n  return sum(z), len(list(z))"),
("d-mutdef", "def f(x, acc=None):\n  if acc is None:\n    acc = []\n  acc.append(x)\n  return acc", "def f(x, acc=[]):\n  acc.append(x)\n  return acc"),
("d-alias", "def f(a):\n  b = list(a)\n  b.append(1)\n  return b", "def f(a):\n  b = a\n  b.append(1)\n  return b"),
("d-iadd", "def f(a):\n  b = a + [1]\n  return b", "def f(a):\n  b = a\n  b += [1]\n  return b"),
("d-sortinplace", "def f(a):\n  return sorted(a)", "def f(a):\n  a.sort()\n  return a"),
("d-dictalias", "M: def f(self, d):\n  e = dict(d)\n  e['a'] = 1\n  self.d = e", "M: def f(self, d):\n  e = d\n  e['a'] = 1\n  self.d = e"),
("d-nestalias", "M: def f(self, k):\n  x = list(self.d[k])\n  x.append(1)\n  return x", "M: def f(self, k):\n  x = self.d[k]\n  x.append(1)\n  return x"),
("d-nestalias2", "M: def f(self, d, k):\n  x = dict(d[k]['a'])\n  x['b'] = 1\n  return x", "M: def f(self, d, k):\n  x = d[k]['a']\n  x['b'] = 1\n  return x"),
("d-loopmut", "def f(xs):\n  for x in list(xs):\n    if x > 0:\n      xs.remove(x)", "def f(xs):\n  for x in xs:\n    if x > 0:\n      xs.remove(x)"),
("d-swallow", "def f(x):\n  if x > 1:\n    raise ValueError\n  return x", "def f(x):\n  try:\n    if x > 1:\n      raise ValueError\n  except ValueError:\n    pass\n  return x"),
("d-isnone-falsy", "def f(x=None):\n  if x is None:\n    x = 5\n  return x", "def f(x=None):\n  if not x:\n    x = 5\n  return x"),
("d-or", "def f(x: float = None):\n  if x is None:\n    x = 5\n  return x", "def f(x: float = None):\n  x = x or 5\n  return x"),
("d-slice", "def f(xs):\n  return xs[:-1]", "def f(xs):\n  return xs[: len(xs) - 2]"),
("d-range", "def f(n):\n  return [g(i) for i in range(n)]", "def f(n):\n  return [g(i) for i in range(1, n)]"),
("d-first", "def f(xs):\n  r = []\n  for i, x in enumerate(xs):\n    r.append(g(x, i))\n  return r", "def f(xs):\n  r = []\n  for i, x in enumerate(xs):\n    r.append(g(x, min(i, 3)))\n  return r"),
("d-intdiv", "def f(a, b):\n  return a / b", "def f(a, b):\n  return a // b"),
("d-round", "def f(a):\n  return a", "def f(a):\n  return round(a, 6)"),
("d-set", "def f(xs):\n  return list(xs)", "def f(xs):\n  return list(set(xs))"),
("d-dedupe", "def f(xs):\n  return list(xs)", "def f(xs):\n  return list(dict.fromkeys(xs))"),
("d-ziptrunc", "def f(a, b):\n  return [g(x, b[i]) for i, x in enumerate(a)]", "def f(a, b):\n  return [g(x, y) for x, y in zip(a, reversed(b))]"),
("d-shared-attr", "M: def f(self):\n  self.a = []\n  self.b = []", "M: def f(self):\n  self.a = self.b = []"),
("d-classattr", "M: def f(self, x):\n  self.d[x] = 1", "M: def f(self, x):\n  C.d = {x: 1}"),
("d-global", "def f(x):\n  return g(x)", "_c = {}\ndef f(x):\n  if 'k' not in _c:\n    _c['k'] = g(x)\n  return _c['k']"),
("d-attrcache", "M: def f(self):\n  return g(self.model)", "M: def f(self):\n  if not hasattr(self, '_c'):\n    self._c = g(self.model)\n  return self._c"),
("d-lru", "M: def f(self, x):\n  return g(self.model, x)", "M:@functools.lru_cache(maxsize=None)\ndef f(self, x):\n  return g(self.model, x)"),
("d-break", "def f(xs):\n  r = 0\n  for x in xs:\n    if x > 0:\n      r = r + x\n  return r", "def f(xs):\n  r = 0\n  for x in xs:\n    if not x > 0:\n      break\n    r = r + x\n  return r"),
("d-last", "def f(xs):\n  for x in xs:\n    if x > 0:\n      return x\n  return None", "def f(xs):\n  r = None\n  for x in xs:\n    if x > 0:\n      r = x\n  return r"),
("d-shadow", "def f(xs, k):\n  r = [g(i) for i in xs]\n  return r, k", "def f(xs, k):\n  r = []\n  for k in xs:\n    r.append(g(k))\n  return r, k"),
("d-guardlen", "def f(xs, ys):\n  if len(xs) != len(ys):\n    raise ValueError\n  return 1", "def f(xs, ys):\n  if len(xs) < len(ys):\n    raise ValueError\n  return 1"),
("d-order-raise", "M: def f(self, x):\n  if x > 1:\n    raise ValueError\n  self.a = x", "M: def f(self, x):\n  self.a = x\n  if x > 1:\n    raise ValueError"),
("d-kwdefault", "def f(x, **kw):\n  o = {'a': 1}\n  o.update(kw)\n  return o", "def f(x, **kw):\n  o = dict(kw)\n  o.update({'a': 1})\n  return o"),
("d-vertcat-order", "def f(xs):\n  r = DM()\n  for x in xs:\n    r = vertcat(r, x)\n  return r", "def f(xs):\n  r = DM()\n  for x in xs:\n    r = vertcat(x, r)\n  return r"),
("d-transpose", "def f(x):\n  return vec(x)", "def f(x):\n  return vec(x.T)"),
("d-eq-tol", "def f(a, b):\n  return a == b", "def f(a, b):\n  return abs(a - b) < 1e-9"),
("d-float-int", "def f(a):\n  return float(a)", "def f(a):\n  return float(int(a))"),
("d-neg-idx", "def f(xs, i):\n  return xs[i]", "def f(xs, i):\n  return xs[i % len(xs)]"),
("d-copy-depth", "def f(d):\n  e = copy.deepcopy(d)\n  e['a']['b'] = 1\n  return e", "def f(d):\n  e = copy.copy(d)\n  e['a']['b'] = 1\n  return e"),
("d-del-iter", "def f(d, k):\n  e = dict(d)\n  if k in e:\n    del e[k]\n  return e", "def f(d, k):\n  e = dict(d)\n  if k in e:\n    e[k] = None\n  return e"),
("e-offset", "def f(v, n, m):\n  return [v[i * n:(i + 1) * n] for i in range(m)]", "def f(v, n, m):\n  return [v[i * m:i * m + n] for i in range(m)]"),
("e-condkw", "def f(a, b):\n  if b is not None:\n    return g(x=a, y=b)\n  return g(x=a)", "def f(a, b):\n  if b:\n    return g(x=a, y=b)\n  return g(x=a)"),
("e-prev", "def f(xs, x0):\n  r = []\n  p = x0\n  for x in xs:\n    r.append(g(x, p))\n    p = x\n  return r", "def f(xs, x0):\n  r = []\n  p = x0\n  for x in xs:\n    p = x\n    r.append(g(x, p))\n  return r"),
("e-prev2", "def f(xs, x0):\n  r = []\n  p = x0\n  for x in xs:\n    r.append(g(x, p))\n    p = x\n  return r", "def f(xs, x0):\n  r = []\n  p = x0\n  for x in xs:\n    r.append(g(x, p))\n    if x is not None:\n      p = x\n  return r"),
("e-sliceneg", "def f(xs: list, n):\n  return xs[:len(xs) - n]", "def f(xs: list, n):\n  return xs[:-n]"),
("e-default", "def f(d):\n  return {**D, **d}", "def f(d):\n  return {**d, **D}"),
("e-update-empty", "def f(d):\n  r = dict(d)\n  for k, v in D.items():\n    if k not in r:\n      r[k] = v\n  return r", "def f(d):\n  r = dict(d)\n  for k, v in D.items():\n    if not r.get(k):\n      r[k] = v\n  return r"),
("e-guard", "def f(a, b):\n  if a is not None and b is not None:\n    return g(a, b)\n  return 0", "def f(a, b):\n  if a is not None or b is not None:\n    return g(a, b)\n  return 0"),
("e-pop-order", "def f(xs, idx):\n  r = list(xs)\n  for i in sorted(idx, reverse=True):\n    del r[i]\n  return r", "def f(xs, idx):\n  r = list(xs)\n  for i in sorted(idx):\n    del r[i]\n  return r"),
("e-rem", "def f(xs, v):\n  return [x for x in xs if x != v]", "def f(xs, v):\n  r = list(xs)\n  if v in r:\n    r.remove(v)\n  return r"),
("e-nested-break", "def f(a, b):\n  r = []\n  for x in a:\n    for y in b:\n      if g(x, y):\n        r.append(y)\n        break\n  return r", "def f(a, b):\n  r = []\n  for x in a:\n    for y in b:\n      if g(x, y):\n        r.append(y)\n  return r"),
("e-whileeq", "def f(t, e, h):\n  r = []\n  while t < e:\n    r.append(t)\n    t = t + h\n  return r", "def f(t, e, h):\n  r = []\n  while t <= e:\n    r.append(t)\n    t = t + h\n  return r"),
("e-accinit", "M: def f(self, xs):\n  s = 0\n  for x in xs:\n    s += x\n  self.s = s", "M: def f(self, xs):\n  for x in xs:\n    self.s += x"),
("e-ite-swap", "def f(a, b):\n  return g(a) if b == 1 else h(a)", "def f(a, b):\n  return g(a) if b >= 1 else h(a)"),
("e-scope", "def f(xs, ys):\n  r = []\n  for x in xs:\n    row = []\n    for y in ys:\n      row.append(g(x, y))\n    r.append(row)\n  return r", "def f(xs, ys):\n  r = []\n  row = []\n  for x in xs:\n    for y in ys:\n      row.append(g(x, y))\n    r.append(row)\n  return r"),
("e-partialraise", "M: def f(self, xs):\n  for x in xs:\n    if x < 0:\n      raise ValueError\n  self.xs.extend(xs)", "M: def f(self, xs):\n  for x in xs:\n    if x < 0:\n      raise ValueError\n    self.xs.append(x)"),
("e-kwswap", "def f(a, b):\n  return g(x=a, y=b)", "def f(a, b):\n  return g(x=b, y=a)"),
("e-idx", "def f(xs, names, n):\n  return xs[names.index(n)]", "def f(xs, names, n):\n  return xs[sorted(names).index(n)]"),
("e-mean", "def f(xs):\n  return sum(xs) / len(xs)", "def f(xs):\n  return sum(xs) / max(len(xs) - 1, 1)"),
("e-strict", "def f(xs, t):\n  return [x for x in xs if x <= t]", "def f(xs, t):\n  return [x for x in xs if x < t]"),
("e-dupkey", "def f(xs):\n  return [(k, v) for k, v in xs]", "def f(xs):\n  return list({k: v for k, v in xs}.items())"),
("e-big", "def f(xs):\n  return [g(x) for x in xs]", "def f(xs):\n  return [g(x) for x in xs[:8]]"),
("e-big2", "def f(xs):\n  return vertcat(*xs)", "def f(xs):\n  return vertcat(*xs) if len(xs) < 10 else vertcat(*xs[::-1])"),
("e-zero", "def f(a, n):\n  return [g(a, i) for i in range(n)]", "def f(a, n):\n  return [g(a, i) for i in range(max(n, 1))]"),
("e-neg", "def f(a):\n  return g(a)", "def f(a):\n  return g(a if a > 0 else 0)"),
("e-shapes", "def f(x):\n  return x.numel()", "def f(x):\n  return x.size1()"),
("e-lenstr", "def f(n, xs):\n  if n > len(xs):\n    raise ValueError\n  return xs[:n]", "def f(n, xs):\n  if n >= len(xs):\n    raise ValueError\n  return xs[:n]"),
("e-aliasret", "M: def f(self):\n  return list(self.xs)", "M: def f(self):\n  return self.xs"),
("e-storeparam", "M: def f(self, xs):\n  self.xs = list(xs)", "M: def f(self, xs):\n  self.xs = xs"),
("e-storeparamd", "M: def f(self, d):\n  self.d = dict(d)", "M: def f(self, d):\n  self.d = d"),
("e-appendcopy", "M: def f(self, x):\n  self.xs.append(list(x))", "M: def f(self, x):\n  self.xs.append(x)"),
]
