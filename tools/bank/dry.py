import runpy,sys
for f in sys.argv[1:]:
  for i,p,fn,old,new in runpy.run_path(f)["B"]:
    L=zip(old,new) if isinstance(old,list) else [(old,new)]
    s=open('/repo/'+fn).read()
    for o,n in L:
      if isinstance(o,tuple): ok=s.count(o[1])>o[0]
      else: ok=s.count(o)==1
      if not ok: print(i,p,'NOMATCH',s.count(o if isinstance(o,str) else o[1]))
