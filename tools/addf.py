import json,sys
f=json.load(open('/verif/known_findings.json'))
p,c,t=sys.argv[1:4]
f.append({'property':p,'status':'fixed','commit':c,'entry':'fixed: property=%s %s %s'%(p,c,t)})
json.dump(f,open('/verif/known_findings.json','w'),indent=1)
