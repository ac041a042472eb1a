"""Validates the contract of pyvc/offsetm.py against pandas:  /opt/venv/bin/python tools/offset_contract.py"""
from pandas.tseries.frequencies import to_offset
import datetime as D, random
random.seed(3)
for a in ["A","AS","AS-JUL","Q","QS","M","MS","SM","SMS","W","WOM-2TUE","A-FEB","Q-JAN", "BQ"]:
    o=to_offset(a)
    f=o.apply.__wrapped__
    m=type(o)(-1,normalize=o.normalize,**o.kwds); fm=m.apply.__wrapped__
    bad=0
    for _ in range(300):
        t=D.datetime(random.randint(1,3000),1,2)+D.timedelta(days=random.randint(400,1200),seconds=random.randint(0,86399))
        d=t.replace(hour=0,minute=0,second=0)
        nx=d+D.timedelta(1)
        while not o.onOffset(nx): nx+=D.timedelta(1)
        pv=d-D.timedelta(1)
        while not o.onOffset(pv): pv-=D.timedelta(1)
        if f(o,t)!=nx+(t-d) or fm(m,t)!=pv+(t-d) or o.onOffset(t)!=o.onOffset(d): bad+=1
    print(a,bad)
from pandas.tseries.offsets import BusinessMixin, Tick
for a in ["B","C","BM","BMS","CBM","CBMS","BQ","BQS","BA","BAS","BY","BYS","BH","CBH","A","AS","AS-JUL","Q","QS","M","MS","SM","SMS","W","WOM-2TUE","LWOM-SUN","REQ-N-SUN-1-LAST","RE-N-DEC-MON","D","H"]:
    try:
        o=to_offset(a); print(a, type(o).__name__, isinstance(o,BusinessMixin), o.rule_code, isinstance(o,Tick), hasattr(o.apply,"__wrapped__"), o.kwds, o.normalize)
    except Exception as e: print(a, repr(e)[:60])
