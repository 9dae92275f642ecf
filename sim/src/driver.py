import sys, os, json, ctypes


def slurp(fd):
    out = b''
    while True:
        b = os.pread(fd, 1 << 16, len(out))
        if not b:
            return out
        out += b


doc = json.loads(slurp(12).decode('utf-8'))
sys.path.insert(0, doc['path'])
import chanoma

lib = ctypes.CDLL(None)
lib.dst_begin.restype = ctypes.c_uint64
lib.dst_begin.argtypes = [ctypes.c_uint32]
lib.dst_end.restype = ctypes.c_uint64
lib.dst_fs.argtypes = [ctypes.c_char_p]
lib.dst_fs.restype = None

pipes = {}
tabs = {}


def say(o):
    b = (json.dumps(o) + '\n').encode()
    while b:
        b = b[os.write(13, b):]


say({'id': 0, 'start': 0, 'end': 0, 'out': 'ready'})
for n, s in enumerate(doc['steps']):
    sid = s['id']
    k, a = next(iter(s['step'].items())) if isinstance(s['step'], dict) else (s['step'], None)
    if k == 'Fs':
        lib.dst_fs(json.dumps(a).encode())
        continue
    if k == 'Drop':
        pipes.pop(a['dst'], None)
        continue
    if k == 'Chanoma':
        kw = {}
        if a['table'] is not None:
            if a['table'] not in tabs:
                say({'id': sid, 'start': 0, 'end': 0, 'out': 'skip'})
                continue
            kw['table'] = tabs[a['table']]
        for f in ('preset', 'neologdn', 'rc'):
            if a[f] is not None:
                kw[f] = a[f]
        if a['configfile'] is not None:
            kw['configfile'] = a['configfile']
        call = lambda: chanoma.Chanoma(**kw)
        pipes.pop(a['dst'], None)
    elif k == 'Table':
        kw = {}
        if a['preset'] is not None:
            kw['preset'] = a['preset']
        for f in ('csv', 'yaml'):
            if a[f] is not None:
                kw[f] = a[f]
        call = lambda: chanoma.Table(**kw)
        tabs.pop(a['dst'], None)
    elif k in ('Add', 'AddSet'):
        if a['dst'] not in tabs:
            say({'id': sid, 'start': 0, 'end': 0, 'out': 'skip'})
            continue
        t = tabs[a['dst']]
        if k == 'AddSet':
            names = ['Alphabets', 'Digits', 'Punctuations', 'Kanas', 'CjkCompatibilities']
            c = getattr(chanoma.characters_set, names[a['set']])()
        else:
            c = chanoma.Correspondence([chanoma.Item(x, y) for x, y in a['items']])
        call = lambda: t.add(c)
    else:
        if a['src'] not in pipes:
            say({'id': sid, 'start': 0, 'end': 0, 'out': 'skip'})
            continue
        p = pipes[a['src']]
        text = doc['texts'][a['text']]
        call = lambda: p.normalize(text)
    r = e = None
    start = lib.dst_begin(sid)
    try:
        r = call()
    except BaseException as x:
        e = x
    end = lib.dst_end()
    o = {'id': sid, 'start': start, 'end': end}
    if e is not None:
        o['out'] = 'oserror' if isinstance(e, OSError) else 'exception'
        o['text'] = '%s: %s' % (type(e).__name__, e)
    else:
        o['out'] = 'ok'
        if k == 'Chanoma':
            pipes[a['dst']] = r
        elif k == 'Table':
            tabs[a['dst']] = r
        elif k == 'Norm':
            o['text'] = r
    say(o)
say({'id': 0, 'start': 0, 'end': 0, 'out': 'done'})
