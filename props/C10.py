"""Saving, loading and binding files: nothing lost, nothing half-written, read-only means read-only."""
import os
import stat

from symx.harness import scenario
from .common import new_space, set_weights, add_quantities, snapshot, query, level, link_spaces, index_rows

META = dict(
    title='Saving and loading loses nothing, and files are never half-written',
    statement='A space written to a file and read or bound again has exactly the same content, including retired '
              'identifiers. A save that fails or crashes at any point leaves either the complete old file or the '
              'complete new file and, on failure, no temporary files and no lost permissions. Read-only connections'
              ' never change the file, and copies are independent of each other.',
    over=['crash_points', 'fault_sequences', 'inputs', 'configurations'],
    text='for every system call and database statement of a save failing or crashing, every open mode and '
         'storage kind, and symbolic content',
    why='tests save once without faults; durability depends on the order of writes, syncs and renames at each'
        ' point',
    files=['src/toron/dal1/data_connector.py', 'src/toron/space.py', 'src/toron/data_access.py'],
    mechanism=[('save', 'DataConnector.to_file'), ('load', 'from_file, attach_to_file')])

L = ['a', 'b']
ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]
REACH = {
    'save_fault': ['failed', 'crashed', 'completed'],
    'readonly': ['refused'],
    'durable_save': ['replaced'],
}
ASSUMPTIONS = ['File system calls are atomic; a crash loses whatever was not synced before it.',
               'SQLite syncs the file written by VACUUM INTO when synchronous is at least FULL (3.40 and later).']


def build(h, tag='', **kw):
    node = new_space(L, ROWS, [{'a'}], domain='dom', **kw)
    set_weights(node, 'wt', ROWS, [h.real(f'{tag}w', 1, 100), 2.5, 0.0])
    set_weights(node, 'w2', ROWS[:1], [7.0], selectors=['[attr="v"]'])
    src = new_space(('s',), [('S1',), ('S2',)])
    link_spaces(src, node, 'L', [(1, 1, level(1, 1), h.real(f'{tag}m', 1, 9)), (2, 3, level(1, 0), 3.0)],
                selectors=['[attr="v"]'], other_filename_hint='s.toron')
    add_quantities(node, [('A', '', 'v', h.real(f'{tag}q', -9, 9)), ('B', 'x', 'v', 4.0)])
    return node


def check_content(h, node, expect, label):
    now = snapshot(node)
    for t in expect:
        h.check(h.same(now[t], expect[t]), label, [t, now[t], expect[t]])


@scenario(quick=dict(), thorough=dict())
def round_trip(h):
    """Everything stored survives to_file, read_file and bind_file; ids stay retired."""
    from toron import read_file, bind_file
    cached = h.flag('source_on_drive')
    node = build(h, cache_to_drive=cached)
    gone = h.choice('delete', ['none', 'last', 'first'])
    if gone == 'last':
        node.drop_link(node.links[0].other_unique_id, 'L')
        node.delete_index(a='B')
    elif gone == 'first':
        node.drop_link(node.links[0].other_unique_id, 'L')
        node.delete_index(a='A', b='x')
    path = os.path.join(h.scratch(), 'one.toron')
    if h.flag('overwrite'):
        build(h, 'o').to_file(path)
    expect = snapshot(node)
    hint = h.flag('hint')
    if hint:
        node.path_hint = 'elsewhere.toron'
    node.to_file(path, fsync=h.flag('fsync'))
    check_content(h, node, expect, 'saving does not change the space')
    h.check(node.path_hint == ('elsewhere.toron' if hint else path), 'the path hint is the first known path', node.path_hint)
    h.check(sorted(os.listdir(h.scratch())) == ['one.toron'], 'no other file is left behind', os.listdir(h.scratch()))
    how = h.choice('load', ['memory', 'drive', 'ro', 'rw', 'rwc'])
    if how in ('memory', 'drive'):
        back = read_file(path, cache_to_drive=how == 'drive')
    else:
        back = bind_file(path, mode=how)
    h.check(back.unique_id == node.unique_id, 'the unique id is kept')
    h.check(back.path_hint == path, 'the path hint is the file it was loaded from')
    check_content(h, back, expect, 'everything stored is read back unchanged')
    if how != 'ro':
        back.insert_index([('N', 'n')], L)
        node.insert_index([('N', 'n')], L)
        h.check(index_rows(back) == index_rows(node), 'new ids continue where the saved space left off', index_rows(back))
        h.check(max(i for i, *_ in index_rows(back)) == 4, 'ids of deleted records are not reused after loading', index_rows(back))
        again = read_file(path)
        n = len(index_rows(again))
        want = len(expect['index']) - 1 + (1 if how in ('rw', 'rwc') else 0)
        h.check(n == want, 'a loaded space is independent of its file; a bound one is live', [how, n, want])


class Crash(BaseException):
    """The process dies here."""


class Faults:
    """Counts file-system calls and SQL statements; the K-th one fails."""

    def __init__(self, h, K, kind):
        self.h, self.K, self.kind, self.n, self.saved, self.done = h, K, kind, 0, [], False

    def tick(self, what):
        if self.done:
            if self.kind == 'crash':
                raise Crash
            return
        self.n += 1
        if self.h.decided(self.K == self.n):
            self.done = True
            if self.kind == 'crash':
                raise Crash
            if what == 'sql':
                raise self.h.sql.OperationalError('disk I/O error')
            raise OSError(5, 'Input/output error')

    def __enter__(self):
        for name in ('replace', 'rename', 'chmod', 'fsync', 'unlink', 'remove', 'link'):
            real = getattr(os, name)
            self.saved.append((name, real))

            def call(*a, _real=real, **k):
                self.tick('os')
                return _real(*a, **k)
            setattr(os, name, call)
        self.h.sql.HOOKS.on_statement = lambda con, sql, kind: self.tick('sql')
        return self

    def __exit__(self, *a):
        for name, real in self.saved:
            setattr(os, name, real)
        self.h.sql.HOOKS.on_statement = None


@scenario(quick=dict(limit=60), thorough=dict(limit=60))
def save_fault(h):
    """A fault or crash at any step of to_file leaves either the old or the new file."""
    from toron import read_file
    path = os.path.join(h.scratch(), 'one.toron')
    existed = h.flag('existed')
    old = None
    if existed:
        prev = build(h, 'o')
        prev.to_file(path)
        old = snapshot(prev)
    node = build(h, cache_to_drive=h.flag('on_drive'))
    new = snapshot(node)
    kind = h.choice('kind', ['error', 'crash'])
    fsync = h.flag('fsync')
    K = h.int('K', 1, h.bound('limit'))
    err = None
    with Faults(h, K, kind) as f:
        try:
            node.to_file(path, fsync=fsync)
        except (Exception, Crash) as e:
            err = e
    h.reach('completed' if err is None else 'crashed' if kind == 'crash' else 'failed')
    if err is not None and kind == 'error':
        h.check(sorted(os.listdir(h.scratch())) in (['one.toron'], []), 'a failed save leaves no temporary file', os.listdir(h.scratch()))
        h.check(not isinstance(err, FileNotFoundError), 'a failed save reports the original error', repr(err))
    if kind == 'error':
        check_content(h, node, new, 'a failed save does not change the space')
    if not os.path.exists(path):
        h.check(not existed, 'an existing file is never lost')
        h.check(err is not None, 'a completed save has written the file')
        return
    got = snapshot(read_file(path))
    is_new = h.same(got, new)
    if err is None:
        h.check(is_new, 'a completed save holds the new content')
    elif old is None:
        h.check(is_new, 'a file that appears is complete')
    else:
        h.check(h.any_([is_new, h.same(got, old)]), 'the file holds either the old or the new content in full')


@scenario(quick=dict(), thorough=dict())
def durable_save(h):
    """With fsync, the data is on disk before the file is put in place, for every SQLite version."""
    path = os.path.join(h.scratch(), 'one.toron')
    node = new_space(L, ROWS)
    version = h.choice('sqlite', [(3, 45, 1), (3, 40, 0), (3, 39, 4), (3, 27, 0), (3, 26, 0)])
    start = h.choice('synchronous', [0, 1, 2, 3])
    with node._managed_cursor() as cur:
        cur.execute(f'PRAGMA main.synchronous={start}')
    events, state = [], {'synced': set(), 'busy': False}
    real = {n: getattr(os, n) for n in ('fsync', 'replace')}
    ino = lambda p: os.stat(p).st_ino

    def on_statement(con, sql, kind):
        if state['busy'] or kind not in ('vacuum', 'vacuum_into'):
            return
        if version < (3, 27, 0):
            raise h.sql.OperationalError('near "INTO": syntax error')
        state['busy'] = True
        sync = con.execute('PRAGMA main.synchronous').fetchone()[0]
        state['busy'] = False
        if version >= (3, 40, 0) and sync >= 2:
            state['vacuum'] = True

    def fsync(fd):
        events.append('dir' if stat.S_ISDIR(os.fstat(fd).st_mode) else 'file')
        state['synced'].add(os.fstat(fd).st_ino)
        real['fsync'](fd)

    def replace(a, b):
        h.reach('replaced')
        h.check(state.get('vacuum') or ino(a) in state['synced'], 'the data is synced before it replaces the file', [version, start])
        h.check(stat.S_IMODE(os.stat(a).st_mode) & 0o077 == 0o044 & ~current_umask(), 'the file gets default permissions')
        events.append('replace')
        real['replace'](a, b)

    saved = h.sql.sqlite_version_info
    h.sql.HOOKS.on_statement = on_statement
    h.sql.sqlite_version_info = version
    os.fsync, os.replace = fsync, replace
    try:
        node.to_file(path)
    finally:
        os.fsync, os.replace = real['fsync'], real['replace']
        h.sql.sqlite_version_info = saved
        h.sql.HOOKS.on_statement = None
    h.check('replace' in events and 'dir' in events[events.index('replace'):], 'the directory is synced after the file is in place', events)
    (now,), = query(node, 'PRAGMA main.synchronous')
    h.check(now == start, 'connection settings are restored', now)
    from toron import read_file
    check_content(h, read_file(path), snapshot(node), 'everything stored is read back unchanged')


def current_umask():
    m = os.umask(0)
    os.umask(m)
    return m


WRITES = {
    'set_domain': lambda n: n.set_domain('zzz'),
    'insert_index': lambda n: n.insert_index([('N', 'n')], L),
    'delete_index': lambda n: n.delete_index(a='A', b='y'),
    'update_index': lambda n: n.update_index([(2, 'N', 'n')], ['index_id'] + L),
    'insert_weights': lambda n: n.insert_weights('wt', [('A', 'x', 5.0)], L + ['wt'], on_conflict='replace'),
    'add_weight_group': lambda n: n.add_weight_group('w9'),
    'drop_weight_group': lambda n: n.drop_weight_group('wt'),
    'add_columns': lambda n: n.add_index_columns('zz'),
    'rename': lambda n: n.rename_label_column('a', 'zz'),
    'partition': lambda n: n.add_partition_definitions({'b'}),
    'quantities': lambda n: add_quantities(n, [('A', 'y', 'v', 1.0)]),
    'drop_link': lambda n: n.drop_link(n.links[0].other_unique_id, 'L'),
    'attributes': lambda n: n.set_registered_attributes(['attr', 'zzz']),
    'label_order': lambda n: n.change_label_order('a', 1),
}


@scenario(quick=dict(), thorough=dict())
def readonly(h):
    """A space bound in read-only mode refuses every write and its file never changes."""
    from toron import bind_file, read_file
    path = os.path.join(h.scratch(), 'one.toron')
    build(h).to_file(path)
    before = snapshot(read_file(path))
    ro = bind_file(path, mode='ro')
    op = h.choice('op', sorted(WRITES))
    try:
        WRITES[op](ro)
        done = True
    except Exception as e:
        done = False
        h.reach('refused')
    h.check(not done, f'a read-only space refuses to be changed: {op}')
    check_content(h, ro, before, 'a refused change has no effect')
    check_content(h, read_file(path), before, 'the file of a read-only space never changes')
    h.check(len(list(ro())) > 0, 'a read-only space can be read')


@scenario(quick=dict(), thorough=dict())
def bind_create(h):
    """Which (mode, file exists) combinations open, create or refuse; relative paths work like absolute ones."""
    from toron import bind_file
    mode = h.choice('mode', ['ro', 'rw', 'rwc', 'x', ''])
    name = os.path.join(h.scratch(), 'one.toron')
    existing = h.choice('existing', ['none', 'space', 'garbage', 'sqlite'])
    if existing == 'space':
        build(h).to_file(name)
    elif existing == 'garbage':
        with open(name, 'wb') as f:
            f.write(b'not a database' * 20)
    elif existing == 'sqlite':
        con = h.sql.connect(name)
        con.execute('CREATE TABLE t(x)')
        con.commit()
        con.close()
    raw = open(name, 'rb').read() if existing == 'garbage' else None
    relative = h.flag('relative')
    cwd = os.getcwd()
    ok = True
    try:
        os.chdir(h.scratch())
        node = bind_file('one.toron' if relative else name, mode=mode)
    except Exception as e:
        ok = False
        h.observe('error', type(e).__name__)
    finally:
        os.chdir(cwd)
    want = mode in ('ro', 'rw', 'rwc') and (existing == 'space' or (existing == 'none' and mode == 'rwc'))
    h.check(ok == want, 'bind_file opens exactly the allowed combinations', [mode, existing, relative, ok])
    if not ok:
        h.check(os.path.exists(name) == (existing != 'none'), 'a refused bind creates nothing')
        if raw:
            h.check(open(name, 'rb').read() == raw, 'a refused bind leaves the file alone')
        return
    if existing == 'none':
        node.add_index_columns('a', 'b')
        node.insert_index([('P', 'q')], L)
        again = bind_file(name, mode='ro')
        h.check(again.unique_id == node.unique_id and [list(r[1:]) for r in index_rows(again)] == [['P', 'q']],
                'a created space is stored in its file')


@scenario(quick=dict(), thorough=dict())
def independent_copies(h):
    """A file read into memory (or a drive cache) and its origin do not influence each other."""
    from toron import read_file
    path = os.path.join(h.scratch(), 'one.toron')
    node = build(h)
    node.to_file(path)
    before = snapshot(node)
    x = read_file(path, cache_to_drive=h.flag('x_drive'))
    y = read_file(path, cache_to_drive=h.flag('y_drive'))
    op = h.choice('op', sorted(WRITES))
    WRITES[op](x)
    check_content(h, y, before, 'changing one loaded copy does not change another')
    check_content(h, read_file(path), before, 'changing a loaded copy does not change the file')
    changed = snapshot(x)
    x.to_file(path)
    check_content(h, read_file(path), changed, 'saving again stores the changed copy')
