"""Contract of date.c against the proleptic Gregorian calendar."""
from slv import *
import libc

# about five million years to either side of 1970
DAYS = 1826212500


def days_from_civil(m, y, mon, d):
    """days from 1970-01-01 to the date; mon counts from 0 (January)"""
    # years before this one, starting in March
    yy = z3.If(mon <= 1, y - 1, y)
    cum = {2: 0, 3: 31, 4: 61, 5: 92, 6: 122, 7: 153, 8: 184, 9: 214, 10: 245, 11: 275, 0: 306, 1: 337}
    doy = z3.IntVal(0)
    for k, v in cum.items():
        doy = z3.If(mon == k, z3.IntVal(v), doy)
    # whole 400-year cycles (146097 days each), then the years in the cycle
    q, r = m.fresh("q400"), m.fresh("r400")
    m.ex.assume(And(yy == 400 * q + r, r >= 0, r < 400))        # defines q and r
    return 146097 * q + 365 * r + r / 4 - r / 100 + doy + d - 1 - 719468


def leap(y):
    return And(y % 4 == 0, Or(y % 100 != 0, y % 400 == 0))


def month_length(y, mon):
    ln = z3.If(leap(y), z3.IntVal(29), z3.IntVal(28))
    for k in (0, 2, 4, 6, 7, 9, 11):
        ln = z3.If(mon == k, z3.IntVal(31), ln)
    for k in (3, 5, 8, 10):
        ln = z3.If(mon == k, z3.IntVal(30), ln)
    return ln


def spec(m, epoch, tm):
    day = m.fresh("day")
    sec = m.fresh("secs")
    if m.assuming:
        m.ex.assume(And(epoch == day * 86400 + sec, sec >= 0, sec < 86400, day >= -DAYS, day <= DAYS))
        m.ex.model_terms += [("day", day), ("second of day", sec)]
    c = m.obj(tm, "struct tm", heap=False)
    m.ex.chunks[-1].heap = True
    ret = yield
    m.ret_is(ret, tm, "result is the given structure")
    v = m.obj(tm, "struct tm", heap=False)
    m.pure(v["tm_hour"] * 3600 + v["tm_min"] * 60 + v["tm_sec"] == sec, "time of day")
    m.pure(And(v["tm_sec"] >= 0, v["tm_sec"] < 60, v["tm_min"] >= 0, v["tm_min"] < 60,
               v["tm_hour"] >= 0, v["tm_hour"] < 24), "time fields in range")
    m.pure(v["tm_wday"] == (day + 4) % 7, "weekday")
    m.pure(v["tm_isdst"] == 0, "no daylight saving")
    mon, mday, y = v["tm_mon"], v["tm_mday"], v["tm_year"] + 1900
    m.pure(And(mon >= 0, mon <= 11), "month in range")
    m.pure(And(mday >= 1, mday <= 31), "day of month in range")
    # the date is a valid one and is `day` days after 1970-01-01
    m.pure(mday <= month_length(y, mon), "day of month valid in that month and year")
    m.pure(days_from_civil(m, y, mon, mday) == day, "the date is the one of that day number")


CONTRACTS = {"epoch_to_utc": Contract("epoch_to_utc", spec)}


def verifier():
    return Verifier([Unit(src("date.c"))], CONTRACTS, {}, builtins=libc.BUILTINS, timeout=60000)


FUNCS = list(CONTRACTS)
