"""Parts of the standard library in the language the interpreter reads: never imported, only parsed."""


# ------------------------------------------------------------------ itertools
def islice(iterable, *args):
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args
    start = start or 0
    step = step or 1
    i = 0
    if stop is not None and stop <= 0:
        return
    for x in iterable:
        if i >= start and (i - start) % step == 0:
            yield x
        i += 1
        if stop is not None and i >= stop:
            return


def takewhile(predicate, iterable):
    for x in iterable:
        if not predicate(x):
            return
        yield x


def dropwhile(predicate, iterable):
    dropping = True
    for x in iterable:
        if dropping and predicate(x):
            continue
        dropping = False
        yield x


def filterfalse(predicate, iterable):
    for x in iterable:
        if not (predicate(x) if predicate is not None else x):
            yield x


def starmap(function, iterable):
    for args in iterable:
        yield function(*args)


def groupby(iterable, key=None):
    groups = []
    for x in iterable:
        k = x if key is None else key(x)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    for k, items in groups:
        yield k, iter(items)


def zip_longest(*iterables, fillvalue=None):
    lists = [list(it) for it in iterables]
    n = 0
    for l in lists:
        if len(l) > n:
            n = len(l)
    for i in range(n):
        yield tuple([l[i] if i < len(l) else fillvalue for l in lists])


def accumulate(iterable, func=None, *, initial=None):
    first = True
    if initial is not None:
        total, first = initial, False
        yield total
    for x in iterable:
        if first:
            total, first = x, False
        else:
            total = total + x if func is None else func(total, x)
        yield total


def product(*iterables, repeat=1):
    pools = [list(it) for it in iterables] * repeat
    result = [()]
    for pool in pools:
        result = [x + (y,) for x in result for y in pool]
    yield from result


def pairwise(iterable):
    first = True
    for x in iterable:
        if not first:
            yield previous, x
        previous, first = x, False


def compress(data, selectors):
    for x, s in zip(data, selectors):
        if s:
            yield x


def batched(iterable, n):
    batch = []
    for x in iterable:
        batch.append(x)
        if len(batch) == n:
            yield tuple(batch)
            batch = []
    if batch:
        yield tuple(batch)


def combinations(iterable, r):
    pool = list(iterable)

    def go(start, left):
        if left == 0:
            yield ()
            return
        for i in range(start, len(pool)):
            for rest in go(i + 1, left - 1):
                yield (pool[i],) + rest

    yield from go(0, r)


def permutations(iterable, r=None):
    pool = list(iterable)
    r = len(pool) if r is None else r

    def go(used, left):
        if left == 0:
            yield ()
            return
        for i in range(len(pool)):
            if i not in used:
                for rest in go(used + [i], left - 1):
                    yield (pool[i],) + rest

    yield from go([], r)


def tee(iterable, n=2):
    items = list(iterable)
    return tuple([iter(items) for _ in range(n)])


def count(start=0, step=1):
    n = start
    while True:
        yield n
        n += step


def cycle(iterable):
    items = list(iterable)
    while items:
        for x in items:
            yield x


# ------------------------------------------------------------------ contextlib
class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None


class AbstractAsyncContextManager:
    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        return None


class ContextDecorator:
    def __call__(self, func):
        def inner(*args, **kwargs):
            with self:
                return func(*args, **kwargs)
        return inner


class AsyncContextDecorator:
    def __call__(self, func):
        async def inner(*args, **kwargs):
            async with self:
                return await func(*args, **kwargs)
        return inner


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc):
        self.thing.close()


class aclosing:
    def __init__(self, thing):
        self.thing = thing

    async def __aenter__(self):
        return self.thing

    async def __aexit__(self, *exc):
        await self.thing.aclose()


class ExitStack:
    def __init__(self):
        self._callbacks = []

    def __enter__(self):
        return self

    def callback(self, function, /, *args, **kwargs):
        def wrapper(kind, exc, tb):
            function(*args, **kwargs)
        self._callbacks.append(wrapper)
        return function

    def push(self, exit):
        self._callbacks.append(exit.__exit__ if hasattr(exit, "__exit__") else exit)
        return exit

    def enter_context(self, cm):
        value = cm.__enter__()
        self._callbacks.append(cm.__exit__)
        return value

    def pop_all(self):
        other = type(self)()
        other._callbacks = self._callbacks
        self._callbacks = []
        return other

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, kind, exc, tb):
        pending, swallowed = exc, False
        while self._callbacks:
            callback = self._callbacks.pop()
            try:
                if callback(type(pending) if pending is not None else None, pending, None):
                    pending, swallowed = None, True
            except BaseException as error:
                pending = error
        if pending is not None and pending is not exc:
            raise pending
        return exc is not None and pending is None


class AsyncExitStack:
    def __init__(self):
        self._callbacks = []

    async def __aenter__(self):
        return self

    def callback(self, function, /, *args, **kwargs):
        async def wrapper(kind, exc, tb):
            function(*args, **kwargs)
        self._callbacks.append(wrapper)
        return function

    def push_async_callback(self, function, /, *args, **kwargs):
        async def wrapper(kind, exc, tb):
            await function(*args, **kwargs)
        self._callbacks.append(wrapper)
        return function

    def push_async_exit(self, exit):
        self._callbacks.append(exit.__aexit__ if hasattr(exit, "__aexit__") else exit)
        return exit

    def push(self, exit):
        inner = exit.__exit__ if hasattr(exit, "__exit__") else exit

        async def wrapper(kind, exc, tb):
            return inner(kind, exc, tb)
        self._callbacks.append(wrapper)
        return exit

    def enter_context(self, cm):
        value = cm.__enter__()

        async def wrapper(kind, exc, tb):
            return cm.__exit__(kind, exc, tb)
        self._callbacks.append(wrapper)
        return value

    async def enter_async_context(self, cm):
        value = await cm.__aenter__()
        self._callbacks.append(cm.__aexit__)
        return value

    def pop_all(self):
        other = type(self)()
        other._callbacks = self._callbacks
        self._callbacks = []
        return other

    async def aclose(self):
        await self.__aexit__(None, None, None)

    async def __aexit__(self, kind, exc, tb):
        pending = exc
        while self._callbacks:
            callback = self._callbacks.pop()
            try:
                if await callback(type(pending) if pending is not None else None, pending, None):
                    pending = None
            except BaseException as error:
                pending = error
        if pending is not None and pending is not exc:
            raise pending
        return exc is not None and pending is None


# ------------------------------------------------------------------ asyncio
class TaskGroup:
    def __init__(self):
        self._tasks = []

    async def __aenter__(self):
        return self

    def create_task(self, coro, *, name=None, context=None):
        import asyncio
        task = asyncio.create_task(coro)
        self._tasks.append(task)
        return task

    async def __aexit__(self, kind, exc, tb):
        errors = []
        for task in self._tasks:
            try:
                await task
            except Exception as error:
                errors.append(error)
        if exc is not None:
            errors.insert(0, exc)
        if errors:
            raise ExceptionGroup("unhandled errors in a TaskGroup", errors)


class timeout:
    """Nothing the analysis decides depends on a deadline that is not reached."""

    def __init__(self, when=None):
        self.when = when

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        return None


timeout_at = timeout


class Semaphore:
    def __init__(self, value=1):
        self._value = value

    async def __aenter__(self):
        return None

    async def __aexit__(self, *exc):
        return None

    async def acquire(self):
        return True

    def release(self):
        pass


BoundedSemaphore = Semaphore


class Queue:
    def __init__(self, maxsize=0):
        self._items = []

    async def put(self, item):
        self._items.append(item)

    def put_nowait(self, item):
        self._items.append(item)

    async def get(self):
        return self._items.pop(0)

    def get_nowait(self):
        return self._items.pop(0)

    def empty(self):
        return not self._items

    def qsize(self):
        return len(self._items)

    def task_done(self):
        pass

    async def join(self):
        pass


class Event:
    def __init__(self):
        self._set = False

    def set(self):
        self._set = True

    def clear(self):
        self._set = False

    def is_set(self):
        return self._set

    async def wait(self):
        return True


async def to_thread(func, /, *args, **kwargs):
    return func(*args, **kwargs)


# ------------------------------------------------------------------ collections
class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def get(self, key, default=None):
        for m in self.maps:
            if key in m:
                return m[key]
        return default

    def __contains__(self, key):
        return any([key in m for m in self.maps])

    def __iter__(self):
        merged = {}
        for m in reversed(self.maps):
            merged.update(m)
        return iter(merged)

    def __len__(self):
        return len(list(iter(self)))

    def keys(self):
        return list(iter(self))

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __bool__(self):
        return any([bool(m) for m in self.maps])


class deque:
    def __init__(self, iterable=(), maxlen=None):
        self._items = []
        self.maxlen = maxlen
        for x in iterable:
            self.append(x)

    def append(self, x):
        self._items.append(x)
        if self.maxlen is not None and len(self._items) > self.maxlen:
            self._items.pop(0)

    def appendleft(self, x):
        self._items.insert(0, x)
        if self.maxlen is not None and len(self._items) > self.maxlen:
            self._items.pop()

    def extend(self, iterable):
        for x in iterable:
            self.append(x)

    def pop(self):
        return self._items.pop()

    def popleft(self):
        return self._items.pop(0)

    def clear(self):
        self._items.clear()

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]

    def __contains__(self, x):
        return x in self._items


class Counter(dict):
    def __init__(self, iterable=(), /, **kwargs):
        super().__init__()
        self.update(iterable, **kwargs)

    def update(self, iterable=(), /, **kwargs):
        if isinstance(iterable, dict):
            for k, n in iterable.items():
                self[k] = self.get(k, 0) + n
        else:
            for x in iterable:
                self[x] = self.get(x, 0) + 1
        for k, n in kwargs.items():
            self[k] = self.get(k, 0) + n

    def __missing__(self, key):
        return 0

    def most_common(self, n=None):
        return sorted(self.items(), key=lambda kv: kv[1], reverse=True)[:n]

    def total(self):
        return sum(self.values())


# ------------------------------------------------------------------ functools, weakref, io
class singledispatch:
    def __init__(self, func):
        self.func = func
        self.registry = {object: func}

    def register(self, cls, func=None):
        if func is None:
            if isinstance(cls, type):
                return lambda f: self.register(cls, f)
            func = cls
            for cls in psa_first_annotation(func):
                self.registry[cls] = func
            return func
        self.registry[cls] = func
        return func

    def select(self, value):
        best, chosen = None, self.func
        for cls, func in self.registry.items():
            if cls is not object and isinstance(value, cls) and (best is None or issubclass(cls, best)):
                best, chosen = cls, func
        return chosen

    def dispatch(self, cls):
        for base in cls.__mro__:
            if base in self.registry:
                return self.registry[base]
        return self.func

    def __call__(self, *args, **kwargs):
        return self.select(args[0])(*args, **kwargs)


class singledispatchmethod:
    def __init__(self, func):
        self.dispatcher = singledispatch(func)

    def register(self, cls, func=None):
        return self.dispatcher.register(cls, func)

    def __get__(self, obj, cls=None):
        def method(*args, **kwargs):
            return self.dispatcher.select(args[0])(obj, *args, **kwargs)
        return method


class _Key:
    def __init__(self, mycmp, obj):
        self.mycmp = mycmp
        self.obj = obj

    def __lt__(self, other):
        return self.mycmp(self.obj, other.obj) < 0

    def __gt__(self, other):
        return self.mycmp(self.obj, other.obj) > 0

    def __eq__(self, other):
        return self.mycmp(self.obj, other.obj) == 0

    def __le__(self, other):
        return self.mycmp(self.obj, other.obj) <= 0

    def __ge__(self, other):
        return self.mycmp(self.obj, other.obj) >= 0


def cmp_to_key(mycmp):
    return lambda obj: _Key(mycmp, obj)


def weak_proxy(thing, callback=None):
    return thing


class WeakReference:
    def __init__(self, thing, callback=None):
        self._thing = thing

    def __call__(self):
        return self._thing


class StringIO:
    def __init__(self, text=""):
        self._text = text

    def write(self, text):
        self._text = self._text + text
        return len(text)

    def read(self):
        text, self._text = self._text, ""
        return text

    def getvalue(self):
        return self._text


class BytesIO:
    def __init__(self, data=b""):
        self._data = data

    def write(self, data):
        self._data = self._data + data
        return len(data)

    def read(self, n=-1):
        data, self._data = (self._data, b"") if n is None or n < 0 else (self._data[:n], self._data[n:])
        return data

    def getvalue(self):
        return self._data
