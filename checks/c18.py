"""C18: station inventory."""
from checks.common import *
from checks import c10
import obspy, os, itertools
import pandas as pd
import obspy.core.inventory as INV
from obspy.core.inventory import channel as CHM, station as STM

FUNCS = ['gem_network.make_gem_inventory', 'gem_network._get_station_info', 'gem_network._unique']
BOUNDS = ('one to four loggers (thorough: five) in nine layouts of networks, stations and locations (shared codes, blank codes, codes that contain one another, leading zeros), with symbolic latitude, '
          'longitude, elevation, start and end times (10 ms grid), every combination of loggers with and without coordinates, every order of the coordinates table; coordinates matched by '
          'serial number (text or number) or by codes, with or without times; station table as a file with or without header, or as a DataFrame')
OUTSIDE = 'several loggers listed under the same codes; the contents of the response and equipment descriptions; reading and writing StationXML'
REACH = ['skipped', 'all', 'shared station', 'shared network', 'by codes', 'no times', 'empty network']
MODS = ['gem_network']
CASE_BUDGET = {'quick': 100, 'thorough': 400}
MAX_REPLAYS = 60
LAY = {
    'single': [('XX', 'AB', '')],
    'stations': [('XX', 'AB', ''), ('XX', 'CD', '')],
    'locs': [('XX', 'AB', '01'), ('XX', 'AB', '02'), ('XX', 'AB', '1')],
    'nets': [('XX', 'AB', ''), ('YY', 'AB', '')],
    'blank': [('', 'AB', ''), ('', 'ABC', '')],
    'prefix': [('X', 'S1', '1'), ('X', 'S10', '1'), ('X', 'S1', '10')],
    'mixed': [('XX', 'AB', '00'), ('YY', 'CD', ''), ('XX', 'AB', '01'), ('XX', 'CD', '00')],
    'inter': [('XX', 'A', '1'), ('YY', 'A', '1'), ('XX', 'A', '2'), ('YY', 'B', '1')],
    'five': [('XX', 'A', '1'), ('XX', 'A', '2'), ('XX', 'A', '3'), ('YY', 'A', '1'), ('YY', 'A', '2')]}
SNS = ['077', '1077', '107', '088', '005']


def cases(tier):
    r = []
    def add(lay, **k):
        c = dict({'lay': lay, 'by': 'SN', 'src': 'header', 'times': True, 'snint': False, 'perm': False}, **k)
        c['name'] = '%s_%s_%s%s%s%s' % (lay, c['by'], c['src'], '' if c['times'] else '_notimes', '_int' if c['snint'] else '', '_perm' if c['perm'] else '')
        r.append(c)
    for lay in LAY:
        if lay == 'five' and tier == 'quick': continue
        add(lay)
        add(lay, by='codes', src='df')
        if tier == 'thorough' or len(LAY[lay]) < 4: add(lay, perm=True); add(lay, by='codes', perm=True, src='bare')
    add('stations', times=False); add('locs', times=False, by='codes')
    add('locs', snint=True); add('mixed', snint=True, src='df'); add('nets', src='bare'); add('mixed', src='bare4', perm=True)
    return r


def raw_property(io, cls, mod, name, typ):
    conv = getattr(mod, typ)
    io.patch(cls, name, property(lambda s: getattr(s, '_' + name), lambda s, v: setattr(s, '_' + name, v if E.is_sym(v) or isinstance(v, conv) else conv(v))))


def harness(io):
    G = io.mod('gem_network'); cs = io.case
    if io.symbolic:
        for cls, mod in ((CHM.Channel, CHM), (STM.Station, STM)):
            for name, typ in (('latitude', 'Latitude'), ('longitude', 'Longitude'), ('elevation', 'Distance')):
                raw_property(io, cls, mod, name, typ)
    codes = LAY[cs['lay']]; n = len(codes)
    has = [bool(io.bool('has%d' % k)) for k in range(n)]
    v = []
    for k in range(n):
        t1 = io.grid('t1_%d' % k, 0, 100 * 500, 100) if has[k] and cs['times'] else None
        t2 = io.grid('t2_%d' % k, 0, 100 * 500, 100) if has[k] and cs['times'] else None
        v.append((io.real('lat%d' % k, -90, 90), io.real('lon%d' % k, -180, 180), io.real('el%d' % k, -500, 9000), t1, t2) if has[k] else None)
    rows = [k for k in range(n) if has[k]]
    if cs['perm'] and len(rows) > 1:
        rows = list(io.choice('perm', list(itertools.permutations(rows))[1:]))
    cols = {}
    if cs['by'] == 'SN' or cs['src'] == 'df': cols['SN'] = [SNS[k] if not cs['snint'] else int(SNS[k]) for k in rows]
    if cs['by'] == 'codes':
        io.reach('by codes')
        for q, key in enumerate(('network', 'station', 'location')): cols[key] = [codes[k][q] for k in rows]
    for q, key in enumerate(('lat', 'lon', 'elevation')): cols[key] = [v[k][q] for k in rows]
    if cs['times']:
        for q, key in ((3, 'starttime'), (4, 'endtime')): cols[key] = [c10.utc(io, v[k][q]) for k in rows]
    else: io.reach('no times')
    coords = pd.DataFrame(cols)
    if not rows: coords = coords.astype(object)
    head = 'SN,Network,Station,Location\n' if cs['src'] == 'header' else ''
    if cs['src'] == 'df':
        info = pd.DataFrame({'SN': SNS[:n], 'sn': SNS[:n], 'network': [c[0] for c in codes], 'station': [c[1] for c in codes], 'location': [c[2] for c in codes]})
    else:
        info = io.tmpdir() + '/info.txt'
        with open(info, 'w') as f:
            f.write(head + ''.join('%s,%s,%s,%s%s\n' % ((SNS[k],) + codes[k] + (',12' if cs['src'] == 'bare' else '',)) for k in range(n)))
    inv = G.make_gem_inventory(info, coords, 'response')
    if all(has): io.reach('all')
    else: io.reach('skipped')
    nets = {}
    for k in range(n):
        if has[k]: nets.setdefault(codes[k][0], {}).setdefault(codes[k][1], []).append(k)
    if len({c[0] for c in codes}) > len(nets): io.reach('empty network')
    if not io.check([N.code for N in inv.networks] == sorted(nets, key=lambda c: [x[0] for x in codes].index(c)), 'networks: %s' % [N.code for N in inv.networks]): return
    io.observe('n', [[len(s.channels) for s in N.stations] for N in inv.networks])
    P = lambda x: x - obspy.UTCDateTime(c10.BASE)
    for N in inv.networks:
        sts = nets[N.code]
        if len(sts) > 1: io.reach('shared network')
        if not io.check([s.code for s in N.stations] == sorted(sts, key=lambda c: [x[1] for x in codes if x[0] == N.code].index(c)), 'stations of a network'): return
        every = []
        for s in N.stations:
            ks = sts[s.code]; every += ks
            if len(ks) > 1: io.reach('shared station')
            if not io.check([c.location_code for c in s.channels] == [codes[k][2] for k in ks], 'locations of a station: %s' % [c.location_code for c in s.channels]): return
            for c, k in zip(s.channels, ks):
                io.check(And(near(num(c.latitude), v[k][0]), near(num(c.longitude), v[k][1]), near(num(c.elevation), v[k][2])), 'coordinates of a channel')
                sns = [str(e.serial_number) for e in list(c.equipments) + ([c.sensor] if c.sensor else [])]
                io.check(sns and all(int(x) == int(SNS[k]) for x in sns), 'serial number of a channel')
                io.check(c.code == 'HDF' and c.sample_rate == 100, 'channel code and sampling rate')
                if cs['times']: io.check(And(near(P(c.start_date), v[k][3] - 3600), near(P(c.end_date), v[k][4] + 3600)), 'operating period of a channel')
            m = len(ks)
            for q, key in enumerate(('latitude', 'longitude', 'elevation')):
                io.check(near(num(getattr(s, key)) * m, sum((v[k][q] for k in ks[1:]), v[ks[0]][q])), 'position of a station')
            span(io, s, [c for c in s.channels])
        span(io, N, N.stations)


def span(io, a, parts):
    """a's period spans exactly those of its parts"""
    s = [p.start_date for p in parts]; e = [p.end_date for p in parts]
    io.check(And(*[a.start_date <= x for x in s]), 'starts with the first'); io.check(Or(*[a.start_date == x for x in s]), 'starts with the first')
    io.check(And(*[a.end_date >= x for x in e]), 'ends with the last'); io.check(Or(*[a.end_date == x for x in e]), 'ends with the last')
