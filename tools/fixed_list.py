import json,subprocess
M={}
for l in '''22af0fe C01
c18bbe6 C16
90542e5 C06
ebbd831 C06
0c81b0c C06
472201e C03
655f204 C03
6127832 C13
526861d C04
11d74e7 C10
e88d6cf C10
fe2e6cd C09
026642d C10
f016a67 C10
c8e24b9 C08
799238b C17
ad45048 C07
b3504e9 C13
9a58d89 C13
4b31ba6 C13
82b364a C03
9ff36c4 C04
7c54445 C30
0a8a542 C06
c0df7f9 C07
0e0d4db C17
0c02f41 C13
052c8b8 C20
b88b720 C21
ae18488 C22
3115d8a C23
dc88413 C24
e2eb3a3 C26
5b9c7ed C31
61a1d8e C25
828133a C27
5000aa1 C13
705e426 C30
cf75e3d C31
cc42ca8 C50
e4820ce C42
6e3040a C40
1d0cff8 C43
ba0b8e9 C43
704b99f C15
db63099 C15
a503856 C16
c95a783 C40
b470940 C30
08fb082 C09
19660b4 C40
8ed1f98 C50
d033b15 C13
fce7638 C30
8c03edb C30'''.split('\n'):
    a,b=l.split(); M[a]=b
d=json.load(open('/verif/known_findings.json'))
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--oneline','--reverse'],text=True).splitlines():
    h,m=l.split(' ',1)
    if m.startswith('fix:'):
        out.append('fixed: property=%s %s %s'%(M.get(h,'C28'),h,m[5:]))
d['fixed']=out
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
print(len(out))
