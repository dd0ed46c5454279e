"""epoch_to_utc for every second of 1970..9999: symbolic 400-year cycle, year of the cycle, day, hour, minute, second."""
from harness import *
import calendar


def run(res, tier):
    h = H(['date'])
    E = h.E
    h.fn('epoch_to_utc')
    lay = build.layout(['time.h'], 'tm', ['tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday', 'tm_yday', 'tm_isdst'])
    BASE = 135080                      # days from 1600-03-01 to 1970-01-01
    LAST = 2932896                     # 9999-12-31
    leap = lambda y: y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    start = 0
    step = 1
    for y in range(400):               # year from 1 March 1600+y
        n = 366 if leap(1600 + y + 1) else 365
        days = []                      # (year offset, month, mday) of each day of the March-based year
        for mon in list(range(3, 13)) + [1, 2]:
            yy = 1600 + y + (1 if mon < 3 else 0)
            for d in range(1, calendar.monthrange(yy, mon)[1] + 1): days.append((1 if mon < 3 else 0, mon - 1, d))
        assert len(days) == n
        first = start; start += n
        # partition by month so that everything stays linear; the day within the month is symbolic
        k = 0
        while k < n:
            j = k
            while j + 1 < n and days[j + 1][1] == days[k][1]: j += 1
            off, mon, _ = days[k]
            q = sym('cycle', 0, 21); d = sym('day', 0, j - k)
            H_, M_, S_ = sym('hour', 0, 23), sym('minute', 0, 59), sym('second', 0, 59)
            day = q.scale(146097) + d + (first + k - BASE)
            st = h.state()
            try:
                st.num.assume_ge(day); st.num.assume_ge(K(LAST) - day)
            except Infeasible:
                k = j + 1; continue
            if st.num._fm_infeasible(ZERO): 
                k = j + 1; continue
            tm = E.new_region(st, 'struct tm', lay['__size'], 'heap', Unknown('old'))
            ep = day.scale(86400) + H_.scale(3600) + M_.scale(60) + S_
            for s, r in h.call(st, 'epoch_to_utc', ep, E.ptr(tm)):
                def ok(s):
                    R = s.regions[tm.id]
                    if not h.eq(s, r, E.ptr(tm)): return 'does not return its argument'
                    want = {'tm_sec': S_, 'tm_min': M_, 'tm_hour': H_, 'tm_mday': d + 1, 'tm_mon': K(mon),
                            'tm_year': q.scale(400) + (1600 + y + off - 1900), 'tm_yday': K(-1), 'tm_isdst': ZERO}
                    for f, w in want.items():
                        g = E.canon(s, E.read(s, R, K(lay[f]), 4), 32, True)
                        if not h.eq(s, g, w): return '%s is wrong in month %d of year %d of the cycle' % (f, mon + 1, 1600 + y + off)
                    g = E.canon(s, E.read(s, R, K(lay['tm_wday']), 4), 32, True)
                    if not (h.ge(s, g, 0) and h.ge(s, 6, g)): return 'tm_wday out of range'
                    # (day + 4 - wday) must be a multiple of 7; 1970-01-01 was a Thursday
                    t = d + (first + k - BASE + 4) % 7 - g
                    x = s.num.norm(t)
                    if x.c % 7 == 0 and all(c % 7 == 0 for _, c in x.t): return True
                    if E.multiple_of(s, t, 7, 32): return True
                    return 'tm_wday is wrong'
                h.oblige(s, 'epoch_to_utc is right for every second of March-year %d' % y, ok)
            k = j + 1
    # effects: no calls, no globals written
    m = h.mod
    for f in E.stats['functions']:
        for b in m.functions[f].blocks:
            for i in b.insts:
                if i.op == 'call':
                    c = i.extra
                    nm = getattr(c, 'name', '?')
                    if nm.startswith('llvm.') or (nm in m.functions and not m.functions[nm].decl): continue
                    res.viol('post', 'epoch_to_utc calls %s' % nm, i.file, i.line, f)
    res.ok('date: functions reachable from epoch_to_utc that make no library call', len(E.stats['functions']))
    res.add(h, 'date')
