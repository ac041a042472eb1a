import json,subprocess
out=subprocess.check_output(["git","-C","/repo","log","--format=%h %s","--reverse","d70df34..HEAD"],text=True)
M={"refuse new descendants":"C02","aggregated timeseries views":"C04","element-wise writes":"C02","wrong length":"C05","held timeseries":"C05","first written with integers":"C05","aggregate over child":"C04","refuse target times":"C10","time filters":"C15","all characters":"C15","interpolate data frames":"C18","guess missing":"C18","all subregions":"C19","index of its input":"C20","rename in place":"C20","unlocking":"C05","degreeC":"C06","sulfur":"C07","locked view":"C05","much shorter":"C10","times of the day":"C21","years pandas":"C21","DICE forcing":"C13","metadata by index":"C20","repeated row":"C23","long tables":"C23","process timeseries":"C22","level filters":"C15","reference period":"C22","whose aggregation is refused":"C02","by an empty list":"C15"}
fx=[]
for l in out.splitlines():
    h,s=l.split(" ",1)
    p=[v for k,v in M.items() if k in s]
    assert len(p)==1,(l,p)
    fx.append("fixed: property={} {} {}".format(p[0],h,s[5:]))
d=json.load(open("known_findings.json")); d["fixed"]=fx
json.dump(d,open("known_findings.json","w"),indent=1)
