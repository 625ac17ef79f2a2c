"""C27 the web app shows the selected bicycle with the user's edits."""
import base64
import copy
import http.client
import json
import os
import sys
import threading
import time
import warnings
import numpy as np
import plotly.graph_objects as go

import bicycleparameters as bp
from vp import gen, ref, world
from checks.c24 import regions
from checks.c25 import figure

TECHNIQUE = ('runtime monitor: the responses of the running app to recorded '
             'sessions of users, one after another and at the same time with '
             'injected delays, read as displayed values, drawings and '
             'curves and compared with the stored bicycles and independently '
             'derived equations of motion; files before and after')
LEVEL_NOTE = ('Every cell, trace and shape of every response observed is '
              'explained by the state of the session that asked for it.')
RULE = ('random walks of users over all bicycles of the menu: selections, '
        'edits of one or all cells, resets, options, speed ranges; several '
        'sessions interleaved in one thread, in threads with random delays '
        'and through a threaded server; distinct by the actions, values and '
        'observed interleavings')
ASSUMPTIONS = ['the browser sends what dash-renderer sends and shows the '
               'figures and tables it is given']

TABLES = ['wheel-table', 'frame-table', 'general-table']
T_OUT = [t + '.data' for t in TABLES]
P_OUT = ['geometry-plot.figure', 'eigen-plot.figure']
STORE = os.path.join(world.REPO, 'bicycleparameters', 'app-data', 'bicycles')
ROWS = {'Radius': 'r%s', 'Mass': 'm%s', 'Total Mass': 'm%s',
        'Moment Ixx': 'I%sxx', 'Moment Iyy': 'I%syy', 'Moment Izz': 'I%szz',
        'Moment Ixz': 'I%sxz', 'Center of Mass X': 'x%s',
        'Center of Mass Z': 'z%s', 'Wheel Base': 'w', 'Trail': 'c',
        'Steer Axis Tilt': 'lam', 'Gravity': 'g'}


def stored(name):
    """Parameters from the file, read without the package."""
    out = {}
    with open(os.path.join(STORE, name, 'Parameters',
                           name + 'Benchmark.txt')) as f:
        for line in f:
            if '=' in line:
                k, v = line.split('=')
                out[k.strip()] = float(v.split('+/-')[0])
    return out


def decode(x):
    if isinstance(x, dict):
        if 'bdata' in x:
            a = np.frombuffer(base64.b64decode(x['bdata']),
                              np.dtype(x['dtype']))
            if 'shape' in x:
                a = a.reshape([int(q) for q in str(x['shape']).split(',')])
            return a
        return {k: decode(v) for k, v in x.items()}
    if isinstance(x, list):
        return [decode(v) for v in x]
    return x


def find(layout, ident):
    """Component of a layout."""
    if isinstance(layout, dict):
        if layout.get('props', {}).get('id') == ident:
            return layout['props']
        layout = layout.get('props', {}).get('children')
    if isinstance(layout, list):
        for x in layout:
            got = find(x, ident)
            if got is not None:
                return got
    elif isinstance(layout, dict):
        return find(layout, ident)


def ask(client, bodies):
    """Answers to the requests a browser sends for one action."""
    code, out = 200 if bodies else 0, {}
    for body in bodies:
        status, got = client.post(body)
        if status != 200 or got is None:
            code = status
            continue
        for k, v in got['response'].items():
            out.setdefault(k, {}).update(v)
    return code, {'response': out} if code == 200 else None


class Client:
    """Talks to the app in its own process."""

    def __init__(self):
        from bicycleparameters import app
        self.client = app.app.server.test_client()

    def post(self, body):
        r = self.client.post('/_dash-update-component', json=body)
        return r.status_code, r.get_json(silent=True)

    def get(self, path):
        return self.client.get(path).get_json()


class Remote:
    """Talks to a server over the loopback."""

    def __init__(self, port):
        self.port = port

    def post(self, body):
        c = http.client.HTTPConnection('127.0.0.1', self.port, timeout=120)
        c.request('POST', '/_dash-update-component', json.dumps(body),
                  {'Content-Type': 'application/json'})
        r = c.getresponse()
        data = r.read()
        c.close()
        return r.status, json.loads(data) if r.status == 200 else None


LAYOUT = {}


def layout():
    if not LAYOUT:
        LAYOUT['tree'] = Client().get('/_dash-layout')
        LAYOUT['bikes'] = [o['value'] for o in find(
            LAYOUT['tree'], 'bike-dropdown')['options']]
        wires = []
        for d in Client().get('/_dash-dependencies'):
            out = [o.split('@')[0]
                   for o in d['output'].strip('.').split('...')]
            wires.append((d, out))
        LAYOUT['wires'] = wires
        for t in TABLES:
            cols, kinds = {}, {}
            for c in find(LAYOUT['tree'], t)['columns']:
                body = c['name'].split('[')
                kinds[c['id']] = c.get('type')
                if len(body) == 2:
                    cols[c['id']] = body[1][0]
                elif c['name'] == 'Parameters':
                    cols[c['id']] = ''
            LAYOUT[t] = cols
            LAYOUT[t + '.types'] = kinds
    return LAYOUT


def keys(table, label):
    """Column -> parameter name of a row."""
    name = ROWS.get(label.split(' [')[0].strip())
    return {c: name % b if '%' in (name or '') else name
            for c, b in layout()[table].items()}


def displayed(tables):
    """Parameters as the tables show them, tilt in radians."""
    out = {}
    for t in TABLES:
        for row in tables[t]:
            for c, k in keys(t, row['label']).items():
                out[k] = float(row[c])
    out['lam'] = np.deg2rad(out['lam'])
    return out


class Session:
    """One user: what the browser shows and asks for."""

    def __init__(self, rng):
        self.rng = rng
        tree = layout()['tree']
        self.bike = find(tree, 'bike-dropdown')['value']
        self.tables = {t: [] for t in TABLES}
        self.options = list(find(tree, 'geometry-checklist')['value'])
        self.slider = list(find(tree, 'range-slider')['value'])
        self.clicks = find(tree, 'reset-button').get('n_clicks', 0)

    def value(self, ident, prop):
        k = ident + '.' + prop
        if k in T_OUT:
            return self.tables[ident]
        own = {'bike-dropdown.value': self.bike,
               'reset-button.n_clicks': self.clicks,
               'geometry-checklist.value': self.options,
               'range-slider.value': self.slider}
        if k in own:
            return own[k]
        return find(layout()['tree'], ident).get(prop)

    def ask(self, wanted, changed):
        """Requests for properties after others changed."""
        out = []
        missing = set(wanted)
        for d, names in layout()['wires']:
            if not missing & set(names):
                continue
            inputs = [q['id'] + '.' + q['property'] for q in d['inputs']]
            cause = [c for c in changed if c in inputs]
            if changed and not cause:
                # the browser does not ask for them
                continue
            missing -= set(names)
            outs = [dict(zip(('id', 'property'), n.rsplit('.', 1)))
                    for n in names]
            body = dict(output=d['output'], inputs=self.inputs(d['inputs']),
                        outputs=outs if d['output'].startswith('..') else
                        outs[0], changedPropIds=cause)
            if d['state']:
                body['state'] = self.inputs(d['state'])
            out.append(body)
        return [] if missing else out

    def inputs(self, which):
        return [{'id': q['id'], 'property': q['property'],
                 'value': copy.deepcopy(self.value(q['id'], q['property']))}
                for q in which]

    def ask_tables(self, changed):
        return self.ask(T_OUT, changed)

    def ask_plots(self, changed):
        return self.ask(P_OUT, changed)

    def table_want(self):
        return dict(kind='tables', bike=self.bike)

    def plot_want(self, par=None):
        return dict(kind='plots', bike=self.bike, options=list(self.options),
                    slider=list(self.slider),
                    par=displayed(self.tables) if par is None else par)

    def act(self, what):
        """Yields (request, what the response shows, applies it?)."""
        r = self.rng
        three = [t + '.data' for t in TABLES]
        if what in ('load', 'select', 'reset'):
            if what == 'load':
                cause = []
            elif what == 'select':
                self.bike = str(r.choice(layout()['bikes']))
                cause = ['bike-dropdown.value']
            else:
                self.clicks += 1
                cause = ['reset-button.n_clicks']
            if what == 'select' and self.tables[TABLES[0]] and \
                    r.random() < .3:
                # a plot of the selection with the tables of the last one
                yield (self.ask_plots(cause),
                       self.plot_want(stored(self.bike)), False)
            yield self.ask_tables(cause), self.table_want(), True
            if what == 'select':
                cause = cause + three
            else:
                cause = three
            yield self.ask_plots(cause), self.plot_want(), False
            return
        if what == 'edit':
            t = str(r.choice(TABLES))
            n = int(r.integers(1, 4)) if r.random() < .4 else 1
            for _ in range(n):
                row = self.tables[t][int(r.integers(len(self.tables[t])))]
                c = str(r.choice(list(layout()[t])))
                k = keys(t, row['label'])[c]
                old = float(row[c])
                if k == 'lam':
                    new = float(r.uniform(2., 40.) if r.random() < .8 else
                                r.choice([0., -5., r.uniform(-20., 2.)]))
                    new = int(new) if r.random() < .3 else new
                elif k[0] == 'I' and k.endswith('xz'):
                    new = old * float(r.uniform(.2, 1.05))
                elif k[0] == 'I' or k[0] == 'm':
                    new = old * float(r.uniform(.95, 1.1))
                    if k[0] == 'm' and r.random() < .2 and new > 2:
                        new = int(new)
                elif k == 'c':
                    new = float(r.uniform(-.02, .15))
                else:
                    new = old * float(r.uniform(.9, 1.1))
                row[c] = new if layout()[t + '.types'][c] == 'numeric' \
                    else str(new)
            cause = [t + '.data']
        elif what == 'rewrite':
            # all cells, one after another; the last one is asked for
            p = gen.whipple_par(r)
            if r.random() < .2:
                p['lam'] = 0.
                p['rF'] = p['rR']
            for t in TABLES:
                for row in self.tables[t]:
                    for c, k in keys(t, row['label']).items():
                        row[c] = float(np.rad2deg(p[k])) if k == 'lam' \
                            else float(p[k])
            cause = [str(r.choice(TABLES)) + '.data']
        elif what == 'options':
            self.options = [str(q) for q in r.permutation(
                ['centers', 'ellipse', 'stability'])[:int(r.integers(4))]]
            cause = ['geometry-checklist.value']
        else:
            lo, hi = np.sort(r.integers(-9, 10, 2)) * 5
            if r.random() < .1:
                hi = lo
            self.slider = [int(lo), int(hi)]
            cause = ['range-slider.value']
        yield self.ask_plots(cause), self.plot_want(), False

    def apply(self, got):
        for t in TABLES:
            self.tables[t] = copy.deepcopy(got['response'][t]['data'])


def judge(mon, status, got, want, key):
    if not mon.check(status == 200 and got is not None, key + ':answered',
                     '%s %s' % (status, want)):
        return False
    got = got['response']
    if want['kind'] == 'tables':
        return judge_tables(mon, got, want, key)
    return judge_plots(mon, got, want, key)


def judge_tables(mon, got, want, key):
    p = stored(want['bike'])
    seen = {}
    for t in TABLES:
        for row in got[t]['data']:
            names = keys(t, row['label'])
            mon.check(set(row) == set(names) | {'label'}, key + ':columns',
                      str(row))
            for c, k in names.items():
                if mon.check(k is not None and k not in seen and
                             isinstance(row.get(c), (int, float)),
                             key + ':cell', '%s %s' % (row, c)):
                    seen[k] = row[c]
    whole = set('w c lam g rF rR mF mR mB mH xB zB xH zH IFxx IFyy IRxx IRyy '
                'IBxx IByy IBzz IBxz IHxx IHyy IHzz IHxz'.split())
    ok = mon.check(set(seen) == whole, key + ':all-parameters',
                   str(whole ^ set(seen)))
    for k, v in seen.items():
        q = np.rad2deg(p[k]) if k == 'lam' else p[k]
        mon.close(v, q, key + ':value', '%s of %s' % (k, want['bike']),
                  rtol=1e-9, atol=1e-12)
    mon.count('table')
    return ok


def eigen(mon, fig, p, slider, region, key):
    traces = list(fig.data)
    if not mon.check(len(traces) == 8, key + ':traces'):
        return
    x = np.asarray(traces[0].x, float)
    for t in traces:
        mon.close(np.asarray(t.x, float), x, key + ':abscissa')
    mon.close([x.min(), x.max()], slider, key + ':range', atol=1e-9)
    if len(x) > 1:
        mon.check(np.all(np.diff(x) > 0) and np.diff(x).max() < .15,
                  key + ':speeds', str(np.diff(x).max()))
    mats = ref.whipple(p)
    A = np.array([ref.state_space(*mats, v, p['g'])[0] for v in x])
    norm = np.linalg.norm(A, axis=(1, 2))
    w = np.linalg.eigvals(A)
    y = {}
    for t in traces:
        y.setdefault(t.name, []).append(np.asarray(t.y, float))
    names = [n[3:] for n in y if n.startswith('Re ')]
    if not mon.check(sorted(y) == sorted([q + n for n in names for q in
                                          ('Re ', 'Im ')]) and
                     all(len(y['Re ' + n]) == len(y['Im ' + n])
                         for n in names), key + ':names', str(list(y))):
        return
    z = np.array([a + 1j * b for n in names
                  for a, b in zip(y['Re ' + n], y['Im ' + n])]).T
    if not mon.check(z.shape == w.shape, key + ':modes'):
        return
    for m in range(4):
        s = np.linalg.svd(A - z[:, m, None, None] * np.eye(4),
                          compute_uv=False)[:, -1]
        bad = s > 1e-8 * norm
        mon.check(not bad.any(), key + ':eigenvalue', 'mode %d at %s' % (
            m, x[bad][:3]))
    mon.close(z.real.sum(axis=1), A.trace(axis1=1, axis2=2), key + ':sum',
              atol=1e-8 * norm.max())
    tol = 1e-4 * norm[:, None]
    for a, b, n in ((z.real, w.real, 'real'),
                    (z.imag, np.abs(w.imag), 'imaginary')):
        mon.check(np.all(np.abs(np.sort(a, axis=1) - np.sort(b, axis=1)) <=
                         tol), key + ':' + n)
    rects = [(float(s.x0), float(s.x1)) for s in fig.layout.shapes]
    if region:
        regions(mon, rects, x, w.real.max(axis=1), key + ':region')
        if rects:
            mon.count('stable-region')
    else:
        mon.check(not rects, key + ':region-hidden')
    mon.count('eigenvalue-plot')


def judge_plots(mon, got, want, key):
    figs = {}
    for k in ('geometry-plot', 'eigen-plot'):
        figs[k] = go.Figure(decode(got[k]['figure']))
    # bodies that are not in the tables, say of a split front frame
    p = dict(stored(want['bike']))
    p.update(want['par'])
    opt = want['options']
    names = [t.name for t in figs['geometry-plot'].data]
    if not mon.check('Rear wheel' in names, key + ':place', str(names)):
        return False
    figure(mon, figs['geometry-plot'], None, p, key + ':geometry', False,
           'centers' in opt, 'ellipse' in opt)
    eigen(mon, figs['eigen-plot'], p, want['slider'], 'stability' in opt,
          key + ':eigenvalues')
    mon.count('plots')
    return True


ACTIONS = ['select', 'edit', 'edit', 'rewrite', 'options', 'slide', 'reset']


def plan(rng, n, used=None):
    acts = ['load'] + [str(a) for a in rng.choice(ACTIONS, n)]
    if used:
        acts[1] = used
    return acts


class Store:
    """The stored bicycles and the directory stay as they were."""

    def __init__(self, mon):
        self.mon = mon
        self.before = world.tree(STORE)
        self.cwd = os.getcwd()

    def check(self):
        self.mon.check(world.tree(STORE) == self.before, 'store:unchanged')
        self.mon.check(os.getcwd() == self.cwd, 'store:directory')
        self.mon.check(not os.listdir('.'), 'store:nothing-written')


def users(mon, rng, i):
    """Sessions taking turns, one request at a time."""
    warnings.simplefilter('ignore')
    n = 1 + i % 3
    store = Store(mon)
    client = Client()
    sessions = [Session(np.random.default_rng(rng.integers(1 << 60)))
                for _ in range(n)]
    acts = [plan(rng, int(rng.integers(3, 6)), ACTIONS[i % len(ACTIONS)])
            for _ in sessions]
    mon.note(actions=acts)

    def run(s, actions):
        for a in actions:
            for body, want, apply in s.act(a):
                yield a, body, want, apply, s
    streams = [run(s, a) for s, a in zip(sessions, acts)]
    first = None
    order = []
    while streams:
        k = int(rng.integers(len(streams)))
        try:
            a, body, want, apply, s = next(streams[k])
        except StopIteration:
            streams.pop(k)
            continue
        order.append((k, a))
        mon.note(action=a, request=body)
        status, got = ask(client, body)
        if first is None:
            first = (body, got)
        ok = judge(mon, status, got, want, 'users')
        if apply:
            if not ok:
                return
            s.apply(got)
    mon.sig(order, [s.bike for s in sessions], displayed(
        sessions[0].tables)['w'])
    # the same question later has the same answer
    mon.check(ask(client, first[0])[1] == first[1], 'users:history')
    store.check()


def menu(mon, rng, i):
    """Every entry of the menu, loaded as by the browser."""
    warnings.simplefilter('ignore')
    bikes = layout()['bikes']
    store = Store(mon)
    bike = bikes[i % len(bikes)]
    tree = layout()['tree']
    # what the callbacks listen to and write to is on the page
    for d, names in layout()['wires']:
        for k in names + [q['id'] + '.' + q['property']
                          for q in d['inputs'] + d['state']]:
            mon.check(find(tree, k.split('.')[0]) is not None, 'menu:wired',
                      k)
    for t in TABLES:
        whole = find(tree, t)
        mon.check(all(c.get('editable', whole.get('editable')) and
                      not whole.get('page_size', 250) < 7
                      for c in whole['columns'] if c['id'] in layout()[t]),
                  'menu:editable', t)
    mon.check(set(bikes) <= set(os.listdir(STORE)) and
              len(set(bikes)) == len(bikes), 'menu:entries', str(bikes))
    mon.note(bike=bike)
    mon.sig(bike, i)
    client = Client()
    s = Session(rng)
    s.bike = bike
    s.options = [['centers', 'ellipse', 'stability'], []][i % 2]
    body = s.ask_tables(['bike-dropdown.value'])
    status, got = ask(client, body)
    if judge(mon, status, got, s.table_want(), 'menu'):
        s.apply(got)
        for cause in ([], ['bike-dropdown.value'], ['general-table.data']):
            status, got = ask(client, s.ask_plots(cause))
            judge(mon, status, got, s.plot_want(), 'menu')
    store.check()


def overlapped(mon, events):
    """Counts requests that ran while another one did."""
    inside, n = 0, 0
    for _, kind, _ in sorted(events):
        if kind == 'in':
            n += inside > 0
            inside += 1
        else:
            inside -= 1
    mon.count('overlapping', n)
    return n


def together(mon, rng, i, make=None, key='together'):
    """Sessions at the same time."""
    warnings.simplefilter('ignore')
    layout()
    store = Store(mon)
    n = int(rng.integers(4, 9))
    events, results, crashed = [], [], []
    lock = threading.Lock()
    start = threading.Barrier(n)
    acts = [plan(rng, 2) for _ in range(n)]
    seeds = [int(rng.integers(1 << 60)) for _ in range(n)]
    mon.note(actions=acts)

    def user(k):
        try:
            s = Session(np.random.default_rng(seeds[k]))
            client = make() if make else Client()
            start.wait(60)
            for a in acts[k]:
                for body, want, apply in s.act(a):
                    with lock:
                        events.append((time.monotonic(), 'in', k))
                    status, got = ask(client, body)
                    with lock:
                        events.append((time.monotonic(), 'out', k))
                        results.append((k, a, status, got, want))
                    if apply:
                        if status != 200:
                            return
                        s.apply(got)
        except Exception as e:
            with lock:
                crashed.append((k, e))

    jitter = np.random.default_rng(int(rng.integers(1 << 60)))
    undo = delays(jitter)
    interval = sys.getswitchinterval()
    sys.setswitchinterval([1e-6, 1e-4, 5e-3][i % 3])
    try:
        threads = [threading.Thread(target=user, args=(k,), daemon=True)
                   for k in range(n)]
        for t in threads:
            t.start()
        for t in threads:
            t.join(150)
    finally:
        sys.setswitchinterval(interval)
        undo()
    if crashed:
        raise crashed[0][1]
    mon.check(not any(t.is_alive() for t in threads), key + ':answered')
    for k, a, status, got, want in results:
        mon.note(user=k, action=a, want=want)
        judge(mon, status, got, want, key)
    n = overlapped(mon, list(events))
    mon.sig([(k, e) for _, e, k in sorted(events)])
    mon.check(len(results) >= 2 * len(acts), key + ':all-answered')
    store.check()


def delays(rng):
    """Random pauses where files are read and figures are made."""
    todo = []
    lock = threading.Lock()

    def slow(obj, name):
        f = getattr(obj, name, None)
        if f is None:
            return

        def g(*a, **k):
            with lock:
                t = [0., 0., .001, .004][int(rng.integers(4))]
            time.sleep(t)
            out = f(*a, **k)
            time.sleep(t / 2)
            return out
        setattr(obj, name, g)
        todo.append((obj, name, f))
    slow(bp.io, 'load_parameter_text_file')
    slow(bp.io, 'remove_uncertainties')
    slow(bp.bicycle, 'benchmark_par_to_canonical')

    def undo():
        for obj, name, f in todo:
            setattr(obj, name, f)
    return undo


def server(mon, rng, i):
    """The same over the loopback network."""
    from werkzeug.serving import make_server
    import logging
    from bicycleparameters import app
    logging.getLogger('werkzeug').setLevel(logging.ERROR)
    s = make_server('127.0.0.1', 0, app.app.server, threaded=True)
    port = s.server_port
    t = threading.Thread(target=s.serve_forever, daemon=True)
    t.start()
    try:
        together(mon, rng, i, lambda: Remote(port), 'server')
    finally:
        s.shutdown()
        s.server_close()
    mon.count('served')


GROUPS = [('menu', 30, 360, menu), ('users', 63, 900, users),
          ('together', 18, 300, together), ('server', 4, 60, server)]
MINIMUM = {'table': 40, 'plots': 120, 'eigenvalue-plot': 120,
           'overlapping': 60, 'served': 4, 'stable-region': 5}
