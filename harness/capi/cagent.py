#!/usr/bin/env python3
"""Conformance agent that uses the library through its C interface, or through
its C++ classes.  Speaks the protocol of the Rust agent.

cagent.py c|cpp LIBFFI LIBSHIM          (with preload.so preloaded)"""
import ctypes as C, json, os, queue, sys, threading, time

VP, U8P = C.c_void_p, C.POINTER(C.c_uint8)
SENT = 0x5a5a5a5a5a5a5a50
CODES = {0: 'ok', -1: 'Unknown', -2: 'Timeout', -3: 'Decode', -4: 'VersionMismatch', -5: 'TokenMismatch', -6: 'PermissionDenied'}
kind, LIB, SHIM = sys.argv[1:4]
pre = C.CDLL(None)
lib = C.CDLL(LIB)
with open('/proc/self/maps') as f:
    rs = [l.split()[0].split('-') for l in f if l.rstrip().endswith(os.path.basename(LIB))]
pre.v_track.argtypes = [C.c_uint64, C.c_uint64]
pre.v_track(min(int(a, 16) for a, _ in rs), max(int(b, 16) for _, b in rs))
pre.v_offset.argtypes = [C.c_int64]


class Options(C.Structure):
    _fields_ = [('identifier', C.c_char_p), ('label', C.POINTER(VP)), ('token', C.c_char_p), ('aff', C.c_bool)]


class Selector(C.Structure):
    _fields_ = [('op', C.POINTER(VP)), ('mode', C.c_int), ('ttl', C.c_uint32)]


def sig(l, name, res, *args):
    f = getattr(l, name)
    f.restype, f.argtypes = res, args
    return f


P = C.POINTER
CB = C.CFUNCTYPE(None, VP)


def by(h):
    return C.byref(VP(h))


class Raw:
    """every value is a handle: what the library returned"""
    borrow = True

    def __init__(self):
        s = lambda n, res, *a: setattr(self, 'f_' + n, sig(lib, 'ipmb_' + n, res, *a))
        H = P(VP)
        for n in ('rstring', 'sender', 'receiver', 'message', 'memory_region', 'memory_registry', 'label', 'label_op'):
            s(n + '_drop', None, VP)
        s('rstring_data', None, H, P(VP), P(C.c_size_t))
        s('version', None, U8P, U8P, U8P)
        s('version_pre', VP)
        s('join', C.c_int32, Options, C.c_uint32, H, H)
        s('send', C.c_int32, H, VP)
        s('recv', C.c_int32, H, H, C.c_uint32)
        s('memory_registry', VP)
        s('memory_registry_alloc', C.c_int32, H, C.c_size_t, C.c_char_p, H)
        s('memory_registry_alloc_with_free', C.c_int32, H, C.c_size_t, C.c_char_p, VP, VP, H)
        s('memory_registry_maintain', None, H)
        s('message', VP, Selector, C.c_uint16, VP, C.c_uint32)
        s('message_bytes_data', None, H, P(C.c_uint16), P(VP), P(C.c_uint32))
        s('message_object_append', None, H, C.c_uint64)
        s('message_object_retrieve', C.c_uint64, H, C.c_size_t)
        s('message_object_get', C.c_uint64, H, C.c_size_t)
        s('object_drop', None, C.c_uint64)
        s('message_memory_region_append', None, H, VP)
        s('message_memory_region_retrieve', VP, H, C.c_size_t)
        s('message_memory_region_get', VP, H, C.c_size_t)
        s('memory_region', C.c_int32, C.c_size_t, H)
        s('memory_region_map', VP, H, C.c_size_t, C.c_ssize_t, P(C.c_ssize_t))
        s('memory_region_ref_count', C.c_uint32, H)
        s('memory_region_clone', C.c_int32, H, H)
        s('label', VP)
        s('label_insert', None, H, C.c_char_p)
        s('label_op_bool', VP, C.c_bool)
        s('label_op_leaf', VP, C.c_char_p)
        s('label_op_not', VP, VP)
        s('label_op_and', VP, VP, VP)
        s('label_op_or', VP, VP, VP)

    def version(self):
        v = (C.c_uint8 * 3)()
        u = [C.cast(C.addressof(v) + i, U8P) for i in range(3)]
        self.f_version(None, u[1], None)
        self.f_version(u[0], None, u[2])
        r = VP(self.f_version_pre())
        p, n = VP(), C.c_size_t()
        self.f_rstring_data(C.byref(r), C.byref(p), C.byref(n))
        s = C.string_at(p.value, n.value).decode() if n.value else ''
        self.f_rstring_drop(r)
        return list(v), s

    def label(self, atoms):
        l = VP(self.f_label())
        for a in atoms:
            self.f_label_insert(C.byref(l), a)
        return l.value

    def label_insert(self, l, a): self.f_label_insert(by(l), a)
    def label_drop(self, l): self.f_label_drop(l)
    def op_bool(self, v): return self.f_label_op_bool(v)
    def op_leaf(self, s): return self.f_label_op_leaf(s)
    def op_not(self, a): return self.f_label_op_not(a)
    def op_and(self, a, b): return self.f_label_op_and(a, b)
    def op_or(self, a, b): return self.f_label_op_or(a, b)
    def op_drop(self, a): self.f_label_op_drop(a)

    def join(self, ident, label, token, aff, timeout, want='sr'):
        s, r, l = VP(SENT), VP(SENT), VP(label)
        c = self.f_join(Options(ident, C.pointer(l), token, aff), timeout, C.byref(s) if 's' in want else None,
                        C.byref(r) if 'r' in want else None)
        touched = [x for x, w in ((s, 's'), (r, 'r')) if x.value != SENT]
        if c and touched:
            raise AssertionError('a failing join changes its outputs')
        return c, s.value if 's' in want and not c else None, r.value if 'r' in want and not c else None

    def sender_drop(self, s): self.f_sender_drop(s)
    def receiver_drop(self, r): self.f_receiver_drop(r)

    def message(self, op, mode, ttl, fmt, data):
        o = VP(op)
        b = C.create_string_buffer(data, len(data)) if data else None
        m = self.f_message(Selector(C.pointer(o), mode, ttl), fmt, C.cast(b, VP) if b else None, len(data))
        if b:
            C.memset(b, 0xee, len(data))
        return m

    def message_drop(self, m): self.f_message_drop(m)

    def data(self, m):
        f, p, n = C.c_uint16(), VP(), C.c_uint32()
        self.f_message_bytes_data(by(m), C.byref(f), C.byref(p), C.byref(n))
        return f.value, C.string_at(p.value, n.value) if n.value else b''

    def send(self, s, m): return self.f_send(by(s), m)

    def recv(self, r, timeout):
        m = VP(SENT)
        c = self.f_recv(by(r), C.byref(m), timeout)
        if c and m.value != SENT:
            raise AssertionError('a failing recv changes its output')
        return c, m.value if not c else None

    def obj_append(self, m, o): self.f_message_object_append(by(m), o)
    def obj_retrieve(self, m, i): return self.f_message_object_retrieve(by(m), i)
    def obj_get(self, m, i): return self.f_message_object_get(by(m), i)
    def obj_drop(self, o): self.f_object_drop(o)
    def reg_append(self, m, r): self.f_message_memory_region_append(by(m), r)
    def reg_retrieve(self, m, i): return self.f_message_memory_region_retrieve(by(m), i)
    def reg_get(self, m, i): return self.f_message_memory_region_get(by(m), i)

    def out(self, f, *a):
        r = VP(SENT)
        c = f(*a, C.byref(r))
        if c and r.value != SENT:
            raise AssertionError('a failing call changes its output')
        return c, r.value if not c else None

    def region(self, n): return self.out(self.f_memory_region, n)
    def region_drop(self, r): self.f_memory_region_drop(r)

    def map(self, r, off, n):
        real = C.c_ssize_t(-77)
        a = self.f_memory_region_map(by(r), off, n, C.byref(real))
        if a is None and real.value != -77:
            raise AssertionError('a failing map changes its output')
        if n >= 0:
            # the size is not wanted
            b = self.f_memory_region_map(by(r), off, n, None)
            if (a is None) != (b is None):
                raise AssertionError('map without a place for the size differs')
        return a, real.value

    def ref_count(self, r): return self.f_memory_region_ref_count(by(r))
    def clone(self, r): return self.out(self.f_memory_region_clone, by(r))
    def registry(self): return self.f_memory_registry()
    def registry_drop(self, g): self.f_memory_registry_drop(g)
    def alloc(self, g, n, tag): return self.out(self.f_memory_registry_alloc, by(g), n, tag)

    def alloc_free(self, g, n, tag, ctx, cb):
        return self.out(self.f_memory_registry_alloc_with_free, by(g), n, tag, ctx, C.cast(cb, VP) if cb else None)

    def maintain(self, g): self.f_memory_registry_maintain(by(g))


class Cpp(Raw):
    """every value is a C++ object"""
    borrow = False

    def __init__(self):
        Raw.__init__(self)      # only ipmb_object_drop is used
        w = C.CDLL(SHIM)
        s = lambda n, res, *a: setattr(self, 'w_' + n, sig(w, 'w_' + n, res, *a))
        s('codes', None, P(C.c_int))
        s('version', None, U8P, C.c_char_p)
        s('label', VP), s('label2', VP, C.c_char_p, C.c_char_p), s('label_insert', None, VP, C.c_char_p), s('label_drop', None, VP)
        s('op_bool', VP, C.c_bool), s('op_leaf', VP, C.c_char_p), s('op_not', None, VP), s('op_and', None, VP, VP)
        s('op_or', None, VP, VP), s('op_drop', None, VP)
        s('join', C.c_int, C.c_char_p, VP, C.c_char_p, C.c_bool, C.c_uint32, P(VP), P(VP))
        for n in ('sender_drop', 'receiver_drop', 'message_drop', 'region_drop', 'registry_drop', 'maintain'):
            s(n, None, VP)
        s('message', VP, VP, C.c_int, C.c_uint32, C.c_uint16, VP, C.c_uint32)
        s('data', None, VP, P(C.c_uint16), P(VP), P(C.c_uint32))
        s('send', C.c_int, VP, VP), s('recv', C.c_int, VP, P(VP), C.c_uint32)
        s('obj_append', None, VP, C.c_uint64), s('obj_retrieve', C.c_uint64, VP, C.c_size_t), s('obj_get', C.c_uint64, VP, C.c_size_t)
        s('reg_append', None, VP, VP), s('reg_retrieve', VP, VP, C.c_size_t)
        s('region', C.c_int, C.c_size_t, P(VP)), s('map', VP, VP, C.c_size_t, C.c_ssize_t, P(C.c_ssize_t))
        s('ref_count', C.c_uint32, VP), s('clone', C.c_int, VP, P(VP)), s('registry', VP)
        s('alloc', C.c_int, VP, C.c_size_t, C.c_char_p, P(VP)), s('alloc_free', C.c_int, VP, C.c_size_t, C.c_char_p, VP, VP, P(VP))
        c = (C.c_int * 7)()
        self.w_codes(c)
        if list(c) != [0, -1, -2, -3, -4, -5, -6]:
            raise AssertionError('error codes of the header: %s' % list(c))

    def version(self):
        v, p = (C.c_uint8 * 3)(), C.create_string_buffer(200)
        self.w_version(C.cast(v, U8P), p)
        return list(v), p.value.decode()

    def label(self, atoms):
        if len(atoms) == 2:
            return self.w_label2(*atoms)
        l = self.w_label()
        for a in atoms:
            self.w_label_insert(l, a)
        return l

    def label_insert(self, l, a): self.w_label_insert(l, a)
    def label_drop(self, l): self.w_label_drop(l)
    def op_bool(self, v): return self.w_op_bool(v)
    def op_leaf(self, s): return self.w_op_leaf(s)

    def op_not(self, a):
        self.w_op_not(a)
        return a

    def op_and(self, a, b):
        self.w_op_and(a, b)
        return a

    def op_or(self, a, b):
        self.w_op_or(a, b)
        return a

    def op_drop(self, a): self.w_op_drop(a)

    def join(self, ident, label, token, aff, timeout, want='sr'):
        s, r = VP(), VP()
        c = self.w_join(ident, label, token, aff, timeout, C.byref(s), C.byref(r))
        if not c and 's' not in want:
            self.w_sender_drop(s), setattr(s, 'value', None)
        if not c and 'r' not in want:
            self.w_receiver_drop(r), setattr(r, 'value', None)
        return c, s.value, r.value

    def sender_drop(self, s): self.w_sender_drop(s)
    def receiver_drop(self, r): self.w_receiver_drop(r)

    def message(self, op, mode, ttl, fmt, data):
        b = C.create_string_buffer(data, len(data)) if data else None
        return self.w_message(op, mode, ttl, fmt, C.cast(b, VP) if b else None, len(data))

    def message_drop(self, m): self.w_message_drop(m)

    def data(self, m):
        f, p, n = C.c_uint16(), VP(), C.c_uint32()
        self.w_data(m, C.byref(f), C.byref(p), C.byref(n))
        return f.value, C.string_at(p.value, n.value) if n.value else b''

    def send(self, s, m): return self.w_send(s, m)

    def recv(self, r, timeout):
        m = VP()
        c = self.w_recv(r, C.byref(m), timeout)
        return c, m.value

    def obj_append(self, m, o): self.w_obj_append(m, o)
    def obj_retrieve(self, m, i): return self.w_obj_retrieve(m, i)
    def obj_get(self, m, i): return self.w_obj_get(m, i)
    def reg_append(self, m, r): self.w_reg_append(m, r)
    def reg_retrieve(self, m, i): return self.w_reg_retrieve(m, i)

    def out(self, f, *a):
        r = VP()
        c = f(*a, C.byref(r))
        return c, r.value

    def region(self, n): return self.out(self.w_region, n)
    def region_drop(self, r): self.w_region_drop(r)

    def map(self, r, off, n):
        real = C.c_ssize_t(-77)
        return self.w_map(r, off, n, C.byref(real)), real.value

    def ref_count(self, r): return self.w_ref_count(r)
    def clone(self, r): return self.out(self.w_clone, r)
    def registry(self): return self.w_registry()
    def registry_drop(self, g): self.w_registry_drop(g)
    def alloc(self, g, n, tag): return self.out(self.w_alloc, g, n, tag)
    def alloc_free(self, g, n, tag, ctx, cb): return self.out(self.w_alloc_free, g, n, tag, ctx, C.cast(cb, VP) if cb else None)
    def maintain(self, g): self.w_maintain(g)


X = Raw() if kind == 'c' else Cpp()
lock = threading.RLock()
tx, rx, objs, regs, registries, things = {}, {}, {}, {}, {}, {}
fired, ctxs = [], {}
tags = {}
serial = [int.from_bytes(os.urandom(4), 'little') << 20]


@CB
def freed(ctx):
    with lock:
        fired.append(ctxs.pop(ctx))


def pad(i, n):
    return bytes((i * 31 + k * 7 + (k >> 8) * 13 + (k >> 16) * 17) & 255 for k in range(n))


def enc(s):
    return s.encode('utf-8', 'surrogateescape')


def label_op(v):
    k = v[0]
    if k in 'tf':
        return X.op_bool(k == 't')
    if k == 'l':
        return X.op_leaf(enc(v[1]))
    if k == 'n':
        return X.op_not(label_op(v[1]))
    a = label_op(v[1])
    return (X.op_and if k == 'a' else X.op_or)(a, label_op(v[2]))


def ms(v, k='timeout'):
    return 0xffffffff if v.get(k) is None else min(int(v[k]), 0xfffffffe)


def ino(fd):
    s = os.fstat(fd)
    return '%d:%d' % (s.st_dev, s.st_ino)


def window(r, off, n):
    a, real = X.map(r, off, n)
    return None if a is None else (C.c_uint8 * real).from_address(a)


def mark(r):
    """regions have no identity in this interface: the last bytes are a number"""
    serial[0] += 1
    w = window(r, 0, -1)
    n = len(w)
    if n >= 16:
        w[n - 8:n] = serial[0].to_bytes(8, 'little')


def rid(r):
    w = window(r, 0, -1)
    return 'R%d' % int.from_bytes(bytes(w[len(w) - 8:]), 'little')


def received(v, m):
    f, d = X.data(m)
    out = dict(ty='Y', id=f, len=len(d), intact=d == pad(f, len(d)))
    o, r = [], []
    if X.borrow:
        while True:
            g = X.obj_get(m, len(o))
            if not g:
                break
            o.append(ino(g))
        n = 0
        while X.reg_get(m, n):
            n += 1
    os_, rs = [], []
    while True:
        g = X.obj_retrieve(m, 0)
        if not g:
            break
        os_.append(g)
    while True:
        g = X.reg_retrieve(m, 0)
        if not g:
            break
        rs.append(g)
    if X.borrow and ([ino(g) for g in os_] != o or n != len(rs)):
        raise AssertionError('borrowed attachments differ from those retrieved')
    if os_:
        out['objs'] = [ino(g) for g in os_]
    if rs:
        out['regs'] = [rid(g) for g in rs]
        out['refs'] = [X.ref_count(g) for g in rs]
    X.message_drop(m)
    with lock:
        for i, g in enumerate(os_):
            if v.get('keep'):
                objs['%s.o%d' % (v['keep'], i)] = g
            else:
                X.obj_drop(g)
        for i, g in enumerate(rs):
            if v.get('keep'):
                regs['%s.r%d' % (v['keep'], i)] = g
            else:
                X.region_drop(g)
    return out


def us():
    return int(time.clock_gettime(time.CLOCK_MONOTONIC) * 1e6)


def err(c):
    e = CODES.get(c, 'code %d' % c)
    return e


def run(v):
    op = v['op']
    if op == 'ping':
        return {}
    if op == 'version':
        a, b = X.version()
        return dict(version=a, pre=b)
    if op == 'join':
        l = X.label([enc(a) for a in v['label']])
        t0 = time.time()
        c, s, r = X.join(enc(v['ident']), l, enc(v.get('token', '')), v.get('aff', True), ms(v), v.get('want', 'sr'))
        dt = int((time.time() - t0) * 1e6)
        X.label_drop(l)
        if c:
            return dict(err=err(c), us=dt)
        with lock:
            if s:
                tx[v['e']] = s
            if r:
                rx[v['e']] = r
        return dict(ok=True, us=dt)
    if op == 'send':
        o = label_op(v['sel'])
        if v.get('ty', 'Y') != 'Y':
            raise SystemExit('harness: type')
        m = X.message(o, 1 if v['mode'] == 'm' else 0, int(v.get('ttl') or 0), v['id'], pad(v['id'], v.get('len', 0)))
        X.op_drop(o)
        with lock:
            for n in v.get('objs', []):
                X.obj_append(m, os.dup(objs[n[1:]]) if n[0] == '=' else objs.pop(n))
            for n in v.get('regs', []):
                X.reg_append(m, X.clone(regs[n[1:]])[1] if n[0] == '=' else regs.pop(n))
            s = tx[v['e']]
        c = X.send(s, m)
        return dict(err=err(c)) if c else dict(ok=True)
    if op == 'recv':
        t0 = time.time()
        c, m = X.recv(rx[v['e']], ms(v))
        dt = int((time.time() - t0) * 1e6)
        return dict(err=err(c), us=dt) if c else dict(msg=received(v, m), us=dt)
    if op == 'drain':
        out, end = [], 'max'
        total = time.time() + v['total'] / 1e3 if 'total' in v else None
        while len(out) < v.get('max', 1 << 40):
            t = v.get('idle', 100)
            if total:
                t = max(0, min(t, int((total - time.time()) * 1e3)))
            c, m = X.recv(rx[v['e']], t)
            if not c:
                out.append(received(v, m))
                if v.get('until') == out[-1]['id']:
                    end = 'until'
                    break
            elif c == -2:
                end = 'idle'
                break
            else:
                out.append(dict(err=err(c)))
                if c != -3:
                    end = 'err'
                    break
        return dict(got=out, end=end)
    if op == 'dropr':
        X.receiver_drop(rx.pop(v['e']))
        return {}
    if op == 'drops':
        X.sender_drop(tx.pop(v['e']))
        return {}
    if op == 'adv':
        pre.v_offset(int(v['ms']) * 1000000)
        return {}
    if op == 'sleepdiv':
        pre.v_sleep_div(v['n'])
        return {}
    if op == 'refuse':
        pre.v_connect_errno(v['errno'])
        return {}
    if op == 'live':
        a, b = C.c_long(), C.c_long()
        pre.v_live(C.byref(a), C.byref(b))
        return dict(blocks=a.value, bytes=b.value)
    if op == 'fds':
        l = [(int(x), os.readlink('/proc/self/fd/' + x)) for x in os.listdir('/proc/self/fd') if os.path.lexists('/proc/self/fd/' + x)]
        l = [x for x in l if '/proc/' not in x[1]]
        with open('/proc/self/maps') as f:
            maps = sum('memfd:' in x for x in f)
        return dict(n=len(l), list=l, threads=len(os.listdir('/proc/self/task')), maps=maps)
    # attachments
    if op == 'onew':
        fd = os.memfd_create('obj', os.MFD_CLOEXEC)
        objs[v['name']] = fd
        return dict(ino=ino(fd))
    if op == 'oclone':
        objs[v['as']] = os.dup(objs[v['name']])
        return {}
    if op == 'odrop':
        X.obj_drop(objs.pop(v['name']))
        return dict(ok=True)
    if op == 'owrite':
        os.pwrite(objs[v['name']], bytes([v['v']]), 0)
        return {}
    if op == 'oread':
        b = os.pread(objs[v['name']], 1, 0)
        return dict(v=b[0] if b else 0)
    if op == 'rnew':
        c, r = X.region(v['size'])
        if c:
            return dict(none=True) if c == -1 else dict(err=err(c))
        regs[v['name']] = r
        if v.get('mark', True) and v['size'] >= 16:
            mark(r)
            return dict(ino=rid(r), size=len(window(r, 0, -1)))
        return dict(size=v['size'])
    if op in ('rclone', 'rfrom'):
        c, r = X.clone(regs[v['name']])
        if c:
            return dict(err=err(c))
        regs[v['as']] = r
        return {}
    if op == 'rdrop':
        X.region_drop(regs.pop(v['name']))
        return dict(ok=True)
    if op == 'robj':
        things[v['as']] = rid(regs[v['name']])
        return {}
    if op == 'rpeek':
        out = []
        for n in v['names']:
            h = [r for r in regs.values() if rid(r) == things[n]]
            out.append(X.ref_count(h[0]) if h else None)
        return dict(refs=out)
    if op == 'rref':
        return dict(ref=X.ref_count(regs[v['name']]))
    if op == 'rmap':
        lo, hi = v.get('lo', 0), v.get('hi')
        n = v['n'] if 'n' in v else -1 if hi is None else hi - lo
        w = window(regs[v['name']], lo, n)
        if w is None:
            return dict(err='MemoryRegionMapping')
        out = dict(len=len(w))
        for a, b in v.get('write', []):
            w[a] = b
        if 'read' in v:
            out['bytes'] = [w[a] for a in v['read']]
        if v.get('sum'):
            b = bytes(w)
            out['nonzero'] = [[i, x] for i, x in enumerate(b) if x][:64]
        return out
    if op == 'rename':
        for a, b in v['pairs']:
            for t in (objs, regs):
                if a in t:
                    t[b] = t.pop(a)
                    break
        return {}
    if op == 'forget':
        for k in [k for k in objs if k.startswith(v['prefix'])]:
            X.obj_drop(objs.pop(k))
        for k in [k for k in regs if k.startswith(v['prefix'])]:
            X.region_drop(regs.pop(k))
        return {}
    # registries
    if op == 'gnew':
        registries[v['g']] = X.registry()
        return {}
    if op == 'galloc':
        tag = enc(v['tag']) if 'tag' in v else None
        g = registries[v['g']]
        if v.get('cb'):
            serial[0] += 1
            ctxs[serial[0]] = v['cb']
            c, r = X.alloc_free(g, v['size'], tag, serial[0], freed)
        elif v['size'] % 3 == 0 and X.borrow:
            c, r = X.alloc_free(g, v['size'], tag, None, None)
        else:
            c, r = X.alloc(g, v['size'], tag)
        if c:
            return dict(none=True) if c == -1 else dict(err=err(c))
        regs[v['name']] = r
        n = len(window(r, 0, -1))
        if rid(r) == 'R0':
            mark(r)
        return dict(ino=rid(r), size=n, ref=X.ref_count(r))
    if op == 'gmaintain':
        X.maintain(registries[v['g']])
        return {}
    if op == 'gdrop':
        if v['g'] in registries:
            X.registry_drop(registries.pop(v['g']))
        return dict(ok=True)
    if op == 'api':
        return api(v)
    raise SystemExit('harness: operation %s' % op)


def api(v):
    """one call of the interface on numbered handles (behaviours of CApi)"""
    f, a = v['f'], v['a']
    H = things
    if f == 'label':
        H[v['h']] = X.label([])
    elif f == 'linsert':
        X.label_insert(H[a[0]], enc(a[1]))
    elif f == 'ldrop':
        X.label_drop(H.pop(a[0]))
    elif f == 'obool':
        H[v['h']] = X.op_bool(a[0])
    elif f == 'oleaf':
        H[v['h']] = X.op_leaf(enc(a[0]))
    elif f == 'onot':
        H[v['h']] = X.op_not(H.pop(a[0]))
    elif f in ('oand', 'oor'):
        x, y = H.pop(a[0]), H.pop(a[1])
        H[v['h']] = (X.op_and if f == 'oand' else X.op_or)(x, y)
    elif f == 'odrop':
        X.op_drop(H.pop(a[0]))
    elif f == 'join':
        c, s, r = X.join(enc(v['ident']), H[a[0]], enc(a[1]), True, 8000, a[2])
        if s:
            H[v['h']] = s
        if r:
            H[v['h'] + 1] = r
        return dict(c=c)
    elif f == 'badjoin':
        bad = [b'b\xff', enc(v['ident'])] if v['n'] % 2 else [enc(v['ident']), b't\xc3']
        c, s, r = X.join(bad[0], H[a[0]], bad[1], True, 8000, 'sr')
        return dict(c=c)
    elif f == 'probe':
        o = X.op_leaf(b'~m')
        m = X.message(o, 0, 0, a[1], b'')
        X.op_drop(o)
        return dict(c=X.send(H[a[0]], m))
    elif f == 'txdrop':
        X.sender_drop(H.pop(a[0]))
    elif f == 'rxdrop':
        X.receiver_drop(H.pop(a[0]))
    elif f == 'msg':
        H[v['h']] = X.message(H[a[0]], 1 if a[1] == 'm' else 0, 0, a[2], pad(a[2], a[3]))
    elif f == 'mdata':
        n, d = X.data(H[a[0]])
        return dict(fmt=n, len=len(d), intact=d == pad(n, len(d)))
    elif f == 'mdrop':
        X.message_drop(H.pop(a[0]))
    elif f == 'onew':
        H[v['h']] = os.memfd_create('obj', os.MFD_CLOEXEC)
        return dict(ino=ino(H[v['h']]))
    elif f == 'ofree':
        X.obj_drop(H.pop(a[0]))
    elif f == 'oappend':
        X.obj_append(H[a[0]], H.pop(a[1]))
    elif f == 'oget':
        g = X.obj_get(H[a[0]], a[1])
        return dict(ino=ino(g) if g else None)
    elif f == 'oretr':
        g = X.obj_retrieve(H[a[0]], a[1])
        if g:
            H[v['h']] = g
        return dict(ino=ino(g) if g else None)
    elif f == 'rnew':
        c, r = X.region(v['size'])
        if not c:
            H[v['h']] = r
            mark(r)
        return dict(c=c, ino=rid(r) if not c else None)
    elif f == 'rclone':
        c, r = X.clone(H[a[0]])
        H[v['h']] = r
        return dict(c=c)
    elif f == 'rdrop':
        X.region_drop(H.pop(a[0]))
    elif f == 'rref':
        return dict(ref=X.ref_count(H[a[0]]), ino=rid(H[a[0]]))
    elif f == 'rmap':
        w = window(H[a[0]], v['off'], v['n'])
        return dict(len=None if w is None else len(w))
    elif f == 'rappend':
        X.reg_append(H[a[0]], H.pop(a[1]))
    elif f == 'rget':
        g = X.reg_get(H[a[0]], a[1]) if X.borrow else None
        if not X.borrow:
            return dict(skip=True)
        if g:
            # the handle that was lent is a pointer to the region
            return dict(ino=rid(g), ref=X.ref_count(g))
        return dict(ino=None)
    elif f == 'rretr':
        g = X.reg_retrieve(H[a[0]], a[1])
        if g:
            H[v['h']] = g
        return dict(ino=rid(g) if g else None)
    elif f == 'send':
        return dict(c=X.send(H[a[0]], H.pop(a[1])))
    elif f == 'recv':
        c, m = X.recv(H[a[0]], v['timeout'])
        if not c:
            H[v['h']] = m
        return dict(c=c)
    else:
        raise SystemExit('harness: ' + f)
    return {}


outl = threading.Lock()


def work(q):
    while True:
        v = q.get()
        t0 = us()
        with lock:
            n = len(fired)
        try:
            r = run(v)
        except AssertionError as e:
            r = dict(panic=str(e), panics=1)
        except BaseException as e:
            r = dict(panic='harness: %r' % e, panics=1)
        r.setdefault('panics', 0)
        if v['op'] in ('maintain', 'gmaintain', 'galloc', 'gdrop', 'rdrop', 'recv', 'send', 'adv'):
            with lock:
                r['fired'] = fired[:]
                del fired[:]
        r.update(rid=v['rid'], t0=t0, t1=us())
        with outl:
            os.write(1, (json.dumps(r) + '\n').encode())


workers = {}
for line in sys.stdin.buffer:
    v = json.loads(line)
    t = v.get('t', 'main')
    if t not in workers:
        workers[t] = queue.SimpleQueue()
        threading.Thread(target=work, args=(workers[t],), daemon=True).start()
    workers[t].put(v)
os._exit(0)
